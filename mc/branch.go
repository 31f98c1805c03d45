package main

// C17: branch selection against a model interpreter, over generated programs and value assignments.
// C18: the function dependency graph against a model of the generated programs.

import (
	"fmt"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
)

// ---- C17 model ----

type bval int // 0: the number 0, 1: the number 1, 2: nil

type bexpr struct {
	op   string // name, num, call, !, (), &&, ||, ??, ?:, +, ===1, seq, arr
	name string
	k    []*bexpr
}

func bName(n string) *bexpr               { return &bexpr{op: "name", name: n} }
func bNode(op string, k ...*bexpr) *bexpr { return &bexpr{op: op, k: k} }

func (e *bexpr) prec() int {
	switch e.op {
	case "seq":
		return 0
	case "?:":
		return 1
	case "||", "&&", "??", "&&&", "||&":
		return 2
	case "+", "===1":
		return 4
	case "!":
		return 5
	}
	return 6
}

func bsub(e *bexpr, min int, num *int) string {
	s := e.src(num)
	if e.prec() < min {
		return "(" + s + ")"
	}
	return s
}

// src renders the expression; num numbers the literals so that each is unique in the program
func (e *bexpr) src(num *int) string {
	switch e.op {
	case "name":
		return e.name
	case "num":
		*num++
		return fmt.Sprint(*num)
	case "call":
		*num++
		return fmt.Sprintf("r(%d)", *num)
	case "!":
		return "!" + bsub(e.k[0], 5, num)
	case "()":
		return "(" + e.k[0].src(num) + ")"
	case "&&", "||", "??":
		l := bsub(e.k[0], 3, num)
		return l + " " + e.op + " " + bsub(e.k[1], 3, num)
	case "&&&": // without parens: the grouping of the operators decides
		return e.k[0].src(num) + " && " + e.k[1].src(num) + " || " + e.k[2].src(num)
	case "||&":
		return e.k[0].src(num) + " || " + e.k[1].src(num) + " && " + e.k[2].src(num)
	case "===1":
		return bsub(e.k[0], 5, num) + " === 1"
	case "?:":
		t := bsub(e.k[0], 2, num)
		a := bsub(e.k[1], 1, num)
		return t + " ? " + a + " : " + bsub(e.k[2], 1, num)
	case "+":
		l := bsub(e.k[0], 4, num)
		return l + " + " + bsub(e.k[1], 5, num)
	case "seq":
		l := e.k[0].src(num)
		return l + ", " + e.k[1].src(num)
	case "arr":
		l := bsub(e.k[0], 1, num)
		return "[" + l + ", " + bsub(e.k[1], 1, num) + "]"
	}
	panic(e.op)
}

type btrace struct {
	env map[string]bval
	num int
	out []string // executed leaves in order of evaluation
}

func (t *btrace) skip(e *bexpr) { n := 0; e.src(&n); t.num += n }

// eval runs the expression in the model: leaves and calls are recorded when evaluated
func (t *btrace) eval(e *bexpr) bval {
	log := func(s string) { t.out = append(t.out, s) }
	tr := func(v bval) bool { return v == 1 }
	switch e.op {
	case "name":
		log(e.name)
		return t.env[e.name]
	case "num":
		t.num++
		log(fmt.Sprint(t.num))
		return 1
	case "call":
		t.num++
		log("r")
		log(fmt.Sprint(t.num))
		log(fmt.Sprintf("r(%d)", t.num))
		return 1
	case "!":
		if tr(t.eval(e.k[0])) {
			return 0
		}
		return 1
	case "()":
		return t.eval(e.k[0])
	case "===1":
		v := t.eval(e.k[0])
		log("1")
		log("bin")
		if v == 1 {
			return 1
		}
		return 0
	case "&&", "||", "??":
		v := t.eval(e.k[0])
		if e.op == "&&" && tr(v) || e.op == "||" && !tr(v) || e.op == "??" && v == 2 {
			v = t.eval(e.k[1])
		} else {
			t.skip(e.k[1])
		}
		log("bin")
		return v
	case "&&&":
		return t.eval(bNode("||", bNode("&&", e.k[0], e.k[1]), e.k[2]))
	case "||&":
		return t.eval(bNode("||", e.k[0], bNode("&&", e.k[1], e.k[2])))
	case "?:":
		var v bval
		if tr(t.eval(e.k[0])) {
			v = t.eval(e.k[1])
			t.skip(e.k[2])
		} else {
			t.skip(e.k[1])
			v = t.eval(e.k[2])
		}
		log("cond")
		return v
	case "+":
		t.eval(e.k[0])
		t.eval(e.k[1])
		log("bin")
		return 1
	case "seq", "arr":
		t.eval(e.k[0])
		return t.eval(e.k[1])
	}
	panic(e.op)
}

type bstmt struct {
	op string // expr, if, ifelse, block, decl, label
	e  *bexpr
	k  []*bstmt
}

func (s *bstmt) src(num *int) string {
	switch s.op {
	case "expr":
		return s.e.src(num) + ";"
	case "decl":
		return "var v = " + bsub(s.e, 1, num) + ";"
	case "block":
		b := "{ "
		for _, k := range s.k {
			b += k.src(num) + " "
		}
		return b + "}"
	case "if":
		t := s.e.src(num)
		return "if (" + t + ") " + s.k[0].src(num)
	case "ifelse":
		t := s.e.src(num)
		c := s.k[0].src(num)
		if s.k[0].op == "if" || s.k[0].op == "ifelse" {
			c = "{ " + c + " }"
		}
		return "if (" + t + ") " + c + " else " + s.k[1].src(num)
	}
	panic(s.op)
}

func (t *btrace) run(s *bstmt) {
	switch s.op {
	case "expr":
		t.eval(s.e)
	case "decl":
		t.out = append(t.out, "v")
		t.eval(s.e)
	case "block":
		for _, k := range s.k {
			t.run(k)
		}
	case "if", "ifelse":
		v := t.eval(s.e)
		if v == 1 {
			t.run(s.k[0])
		} else {
			n := 0
			s.k[0].src(&n)
			t.num += n
		}
		if s.op == "ifelse" {
			if v != 1 {
				t.run(s.k[1])
			} else {
				n := 0
				s.k[1].src(&n)
				t.num += n
			}
		}
		t.out = append(t.out, "if")
	}
}

var brVals = []interface{}{0, 1, nil}

func brRender(src string, n parser.Node) string {
	switch x := n.(type) {
	case *parser.Ident:
		return x.Val()
	case *parser.NumLit:
		return src[x.Range().Lo:x.Range().Hi]
	case *parser.CallExpr:
		return src[x.Range().Lo:x.Range().Hi]
	case *parser.BinExpr:
		return "bin"
	case *parser.CondExpr:
		return "cond"
	case *parser.IfStmt:
		return "if"
	}
	return fmt.Sprintf("%T", n)
}

var brTypes = []parser.NodeType{parser.N_NAME, parser.N_LIT_NUM, parser.N_EXPR_CALL, parser.N_EXPR_COND, parser.N_STMT_IF, parser.N_EXPR_BIN}

func brRun(o *outcome, src string, env map[string]bval, typ []parser.NodeType) (out []string, fail string) {
	defer func() {
		if x := recover(); x != nil {
			fail = fmt.Sprint("panic ", x)
		}
	}()
	if o.errMsg != "" || o.panicMsg != "" {
		return nil, "does not parse: " + o.errMsg + o.panicMsg
	}
	vars := map[string]interface{}{"r": 1}
	for k, v := range env {
		vars[k] = brVals[v]
	}
	for _, n := range astutil.CollectNodesInTrueBranches(o.ast, typ, vars, o.p) {
		out = append(out, brRender(src, n))
	}
	return
}

func brOf(want []string, keep func(string) bool) []string {
	var o []string
	for _, w := range want {
		if keep(w) {
			o = append(o, w)
		}
	}
	return o
}

func brCheck(c *Ctx, s *bstmt, vals []bval) {
	n := 0
	src := s.src(&n)
	o := parseWith(src, optsFor("module"), false)
	for i := 0; i < len(vals)*len(vals)*len(vals); i++ {
		l := len(vals)
		env := map[string]bval{"a": vals[i%l], "b": vals[i/l%l], "c": vals[i/l/l]}
		if env["c"] != vals[0] && !strings.Contains(src, "c") || env["b"] != vals[0] && !strings.Contains(src, "b") {
			continue
		}
		c.Add("executions", 1)
		t := &btrace{env: env}
		t.run(s)
		if got, fail := brRun(&o, src, env, brTypes); fail != "" || strings.Join(got, " ") != strings.Join(t.out, " ") {
			desc := fmt.Sprintf("with a=%v b=%v c=%v: expected the nodes [%s], got [%s] %s", brVals[env["a"]], brVals[env["b"]], brVals[env["c"]], strings.Join(t.out, " "), strings.Join(got, " "), fail)
			c.Violate(fmt.Sprintf("%d%d%d|%s", env["a"], env["b"], env["c"], src), desc, map[string]interface{}{"source": src, "values": env, "expected": t.out, "got": got, "failure": fail})
			return
		}
		want := brOf(t.out, func(w string) bool { return strings.HasPrefix(w, "r(") })
		if got, fail := brRun(&o, src, env, []parser.NodeType{parser.N_EXPR_CALL}); fail != "" || strings.Join(got, " ") != strings.Join(want, " ") {
			c.Violate(fmt.Sprintf("calls %d%d%d|%s", env["a"], env["b"], env["c"], src), fmt.Sprintf("expected the calls [%s], got [%s] %s", strings.Join(want, " "), strings.Join(got, " "), fail), map[string]interface{}{"source": src, "values": env, "expected": want, "got": got, "failure": fail})
			return
		}
		// the branch selection itself, for an if statement whose tests are names
		if top := topSelect(s, t.env); top != "" {
			if got := brSelect(&o, src, env); got != top {
				c.Violate(fmt.Sprintf("select %d%d%d|%s", env["a"], env["b"], env["c"], src), fmt.Sprintf("expected the branch %q to be selected, got %q", top, got), map[string]interface{}{"source": src, "values": env, "expected": top, "got": got})
				return
			}
		}
	}
}

// topSelect: the source of the arm taken by an if/else-if chain whose tests are names ("-": none)
func topSelect(s *bstmt, env map[string]bval) string {
	ok := true
	num := 0
	arm := ""
	var rec func(s *bstmt, live bool)
	rec = func(s *bstmt, live bool) {
		if s.op != "if" && s.op != "ifelse" {
			src := s.src(&num)
			if live {
				arm = src
			}
			return
		}
		if s.e.op != "name" {
			ok = false
			return
		}
		v := env[s.e.name] == 1
		src := s.k[0].src(&num)
		if s.k[0].op == "if" || s.k[0].op == "ifelse" {
			ok = false
		}
		if live && v {
			arm = src
		}
		if s.op == "ifelse" {
			rec(s.k[1], live && !v)
		}
	}
	if s.op != "if" && s.op != "ifelse" {
		return ""
	}
	arm = "-"
	rec(s, true)
	if !ok {
		return ""
	}
	return arm
}

func brSelect(o *outcome, src string, env map[string]bval) (res string) {
	defer func() {
		if x := recover(); x != nil {
			res = fmt.Sprint("panic ", x)
		}
	}()
	if o.ast == nil {
		return o.errMsg + o.panicMsg
	}
	vars := map[string]interface{}{"r": 1}
	for k, v := range env {
		vars[k] = brVals[v]
	}
	ns := astutil.SelectTrueBranches(o.ast.(*parser.Prog).Body()[0], vars, o.p)
	if len(ns) == 0 {
		return "-"
	}
	var out []string
	for _, n := range ns {
		out = append(out, src[n.Range().Lo:n.Range().Hi])
	}
	return strings.Join(out, " | ")
}

func brSpace(c *Ctx, emit func(*bstmt)) {
	a, b, cc := bName("a"), bName("b"), bName("c")
	t0 := []*bexpr{a, b, cc, bNode("!", a), bNode("()", b), bNode("===1", a)}
	var t1 []*bexpr
	bin := []string{"&&", "||", "??"}
	for _, x := range t0 {
		for _, y := range t0 {
			for _, op := range bin {
				t1 = append(t1, bNode(op, x, y))
			}
		}
	}
	t1 = append(t1, bNode("?:", a, b, cc), bNode("?:", b, bNode("!", a), a), bNode("!", bNode("&&", a, b)), bNode("&&&", a, b, cc), bNode("||&", a, b, cc), bNode("()", bNode("||", a, bNode("()", bNode("&&", b, cc)))))
	tests := append(append([]*bexpr{}, t0...), t1...)
	leafs := []*bexpr{bNode("num"), bNode("call"), a, b}
	// expressions with branches, depth 1 and 2
	var e1, e2 []*bexpr
	forms := func(ts []*bexpr, xs []*bexpr, ys []*bexpr) []*bexpr {
		var out []*bexpr
		for _, t := range ts {
			for _, x := range xs {
				for _, op := range bin {
					out = append(out, bNode(op, t, x))
				}
				for _, y := range ys {
					out = append(out, bNode("?:", t, x, y))
				}
			}
		}
		for _, x := range xs {
			for _, y := range ys {
				out = append(out, bNode("+", x, y), bNode("seq", x, y), bNode("arr", x, y))
			}
		}
		return out
	}
	e1 = forms(tests, leafs, leafs[:2])
	e2 = forms(t0, forms(t0[:4], leafs[:2], leafs[1:2]), leafs[1:3])
	e2 = append(e2, forms([]*bexpr{b, bNode("&&", a, b)}, leafs[1:2], forms(t0[:4], leafs[:2], leafs[1:2]))...)
	for _, op := range []string{"&&&", "||&"} {
		for _, x := range t0[:4] {
			for _, y := range t0[:4] {
				e2 = append(e2, bNode(op, x, y, bNode("call")))
			}
		}
	}
	x := func(e *bexpr) *bstmt { return &bstmt{op: "expr", e: e} }
	for _, e := range append(append([]*bexpr{}, e1...), e2...) {
		emit(x(e))
		emit(&bstmt{op: "decl", e: e})
		emit(&bstmt{op: "if", e: a, k: []*bstmt{{op: "block", k: []*bstmt{x(bNode("call")), x(e), x(bNode("call"))}}}})
	}
	call := x(bNode("call"))
	blk := &bstmt{op: "block", k: []*bstmt{call, call}}
	simple := []*bstmt{call, blk, x(bNode("&&", b, bNode("call"))), x(bNode("?:", cc, bNode("call"), bNode("call"))), &bstmt{op: "decl", e: bNode("||", a, bNode("call"))}, {op: "block"}}
	var s1 []*bstmt
	for _, t := range tests {
		for _, s := range simple {
			s1 = append(s1, &bstmt{op: "if", e: t, k: []*bstmt{s}})
			for _, s2 := range simple {
				s1 = append(s1, &bstmt{op: "ifelse", e: t, k: []*bstmt{s, s2}})
			}
		}
	}
	for _, s := range s1 {
		emit(s)
	}
	small := append(append([]*bexpr{}, t0...), bNode("&&", a, b), bNode("||", b, cc), bNode("??", cc, a))
	var inner []*bstmt
	for _, t := range small {
		inner = append(inner, &bstmt{op: "if", e: t, k: []*bstmt{call}}, &bstmt{op: "ifelse", e: t, k: []*bstmt{call, blk}})
	}
	var s2 []*bstmt
	nest := func(ts []*bexpr, in []*bstmt) (out []*bstmt) {
		for _, t := range ts {
			for _, s := range in {
				out = append(out,
					&bstmt{op: "if", e: t, k: []*bstmt{s}},
					&bstmt{op: "ifelse", e: t, k: []*bstmt{call, s}},
					&bstmt{op: "ifelse", e: t, k: []*bstmt{s, call}},
					&bstmt{op: "block", k: []*bstmt{s, {op: "if", e: t, k: []*bstmt{call}}, call}})
			}
		}
		return
	}
	s2 = nest(tests, inner)
	for _, s := range s2 {
		emit(s)
	}
	d3 := nest(small[:c.Pick(3, 9)], s2[:c.Pick(400, len(s2))])
	for _, s := range d3 {
		emit(s)
	}
	if c.Quick() {
		return
	}
	for _, s := range nest(t0[:3], nest(t0[:3], nest(t0, inner))) {
		emit(s)
	}
	for _, e := range forms(t1, e1[:200], leafs[:2]) {
		emit(x(e))
	}
}

func init() {
	register(&Check{ID: "C17", Level: "model_checking",
		Run: func(c *Ctx) {
			c.Rule("every program of the branching mini-language up to the nesting bound, under every assignment of {0, 1, null} to its variables: nodes collected vs. the nodes a model interpreter evaluates; for if/else-if chains also the selected arm")
			c.Assume("all variables have values; tests have no calls")
			var jobs []*bstmt
			seen := newDedup()
			n := 0
			brSpace(c, func(s *bstmt) {
				n++
				k := 0
				src := s.src(&k)
				if seen.fresh(src) {
					jobs = append(jobs, s)
					if l := len(jobs); l&(l-1) == 0 {
						c.Sample(src)
					}
				}
			})
			par(c, len(jobs), func(sl *slot, i int) { brCheck(c, jobs[i], []bval{0, 1, 2}) })
			c.Add("states", int64(len(jobs)))
			c.Add("transitions", int64(n))
		},
		One: func(key string) {
			i := strings.IndexByte(key, '|')
			o := parseWith(key[i+1:], optsFor("module"), false)
			brRun(&o, key[i+1:], map[string]bval{"a": 0, "b": 1, "c": 2}, brTypes)
		}})
}

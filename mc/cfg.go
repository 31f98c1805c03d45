package main

// C14, C15: language inclusion between a model automaton of each program of a mini-language of
// control constructs and the control-flow graph that the analysis builds for it.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/analysis"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

// ---- programs

type cnd struct {
	k    string
	kids []*cnd
}

type cctx struct {
	loop, brk, fn, lab, labLoop bool
	fin                         int // finally parts that a jump out of here passes
}

type cfgGen struct {
	ek, sk []string
	ec     map[int][]*cnd
	sc     map[string][]*cnd
	lc     map[string][]*cnd
}

var cfgEArity = map[string]int{"&&": 2, "||": 2, "??": 2, "+": 2, ",": 2, "=": 1, "?:": 3, "!": 1, "()": 1, "call": 2, "call0": 1, "new": 2, "[]": 2, "arr": 2, "obj": 1, "tpl": 1, "?.": 1, "?.[": 2, "?.(": 2}

func (g *cfgGen) exprs(n int) []*cnd {
	if r, ok := g.ec[n]; ok {
		return r
	}
	var r []*cnd
	if n == 0 {
		r = []*cnd{{k: "x"}}
	} else {
		for _, k := range g.ek {
			if cfgEArity[k] == 0 {
				if n == 1 {
					r = append(r, &cnd{k: k})
				}
				continue
			}
			splits(n-1, cfgEArity[k], func(p []int) {
				cross(p, func(i int) []*cnd { return g.exprs(i) }, func(ks []*cnd) { r = append(r, &cnd{k, ks}) })
			})
		}
	}
	g.ec[n] = r
	return r
}

func splits(n, m int, f func([]int)) {
	if m == 0 {
		if n == 0 {
			f(nil)
		}
		return
	}
	p := make([]int, m)
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == m-1 {
			p[i] = left
			f(append([]int{}, p...))
			return
		}
		for v := 0; v <= left; v++ {
			p[i] = v
			rec(i+1, left-v)
		}
	}
	rec(0, n)
}

func cross(p []int, get func(int) []*cnd, f func([]*cnd)) {
	ks := make([]*cnd, len(p))
	var rec func(i int)
	rec = func(i int) {
		if i == len(p) {
			f(append([]*cnd{}, ks...))
			return
		}
		for _, x := range get(p[i]) {
			ks[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

func (g *cfgGen) key(n int, c cctx) string { return fmt.Sprint(n, c) }

// list: statement lists; a list of m statements costs m-1
func (g *cfgGen) list(n int, c cctx) []*cnd {
	k := g.key(n, c)
	if r, ok := g.lc[k]; ok {
		return r
	}
	var r []*cnd
	for m := 1; m <= 3 && m-1 <= n; m++ {
		splits(n-(m-1), m, func(p []int) {
			cross(p, func(i int) []*cnd { return g.stmts(i, c) }, func(ks []*cnd) { r = append(r, &cnd{"list", ks}) })
		})
	}
	g.lc[k] = r
	return r
}

// stmts: the parts are E expression, S statement, L statement list
func (g *cfgGen) stmts(n int, c cctx) []*cnd {
	k := g.key(n, c)
	if r, ok := g.sc[k]; ok {
		return r
	}
	var r []*cnd
	for _, e := range g.exprs(n) {
		r = append(r, &cnd{"expr", []*cnd{e}})
	}
	if n >= 1 {
		for _, sk := range g.sk {
			f := strings.SplitN(sk, "|", 2)
			in := c
			switch f[0] {
			case "while", "do", "for", "forv", "for0", "forof", "forin":
				in.loop, in.brk = true, true
				in.labLoop = c.labLoop
			case "switch1", "switch2", "switchd", "switchmd", "switchdm":
				in.brk = true
			case "label":
				if c.lab {
					continue
				}
				in.lab = true
			case "lloop":
				if c.lab {
					continue
				}
				in.lab, in.labLoop, in.loop, in.brk = true, true, true, true
			case "tryfin", "trycf":
				in.fin++
			case "break":
				if !c.brk {
					continue
				}
			case "continue":
				if !c.loop {
					continue
				}
			case "breakl":
				if !c.lab {
					continue
				}
			case "continuel":
				if !c.labLoop {
					continue
				}
			case "return", "return0":
				if !c.fn || c.fin > 1 {
					continue
				}
			case "throw":
				if c.fin > 1 {
					continue
				}
			}
			parts := ""
			if len(f) > 1 {
				parts = f[1]
			}
			splits(n-1, len(parts), func(p []int) {
				ks := make([]*cnd, len(p))
				var rec func(i int)
				rec = func(i int) {
					if i == len(p) {
						r = append(r, &cnd{f[0], append([]*cnd{}, ks...)})
						return
					}
					var o []*cnd
					switch parts[i] {
					case 'E':
						o = g.exprs(p[i])
					case 'S':
						o = g.stmts(p[i], in)
					case 'L':
						o = g.list(p[i], in)
					case 'O': // outside of the construct's own context
						o = g.list(p[i], c)
					}
					for _, x := range o {
						ks[i] = x
						rec(i + 1)
					}
				}
				rec(0)
			})
		}
	}
	g.sc[k] = r
	return r
}

// ---- text

var cfgPrec = map[string]int{",": 1, "=": 2, "?:": 3, "??": 4, "||": 5, "&&": 6, "+": 8, "!": 9}

type cfgTxt struct {
	b strings.Builder
	n int
}

func (t *cfgTxt) leaf() string { t.n++; return "x" + strconv.Itoa(t.n-1) }

// e writes the expression; min is the precedence its place needs
func (t *cfgTxt) e(d *cnd, min int) {
	p, ok := cfgPrec[d.k]
	if !ok {
		p = 10
	}
	if p < min {
		t.b.WriteString("(")
		t.e(d, 0)
		t.b.WriteString(")")
		return
	}
	w := t.b.WriteString
	switch d.k {
	case "x":
		w(t.leaf())
	case "lit1", "lit0":
		w(d.k[3:])
	case "&&", "||", "+":
		t.e(d.kids[0], p)
		w(" " + d.k + " ")
		t.e(d.kids[1], p+1)
	case "??":
		t.e(d.kids[0], 8)
		w(" ?? ")
		t.e(d.kids[1], 8)
	case ",":
		t.e(d.kids[0], 2)
		w(", ")
		t.e(d.kids[1], 2)
	case "=":
		w("v = ")
		t.e(d.kids[0], 2)
	case "?:":
		t.e(d.kids[0], 4)
		w(" ? ")
		t.e(d.kids[1], 2)
		w(" : ")
		t.e(d.kids[2], 2)
	case "!":
		w("!")
		t.e(d.kids[0], 9)
	case "()":
		w("(")
		t.e(d.kids[0], 0)
		w(")")
	case "call", "new", "?.(":
		if d.k == "new" {
			w("new ")
			if d.kids[0].k != "x" {
				w("(")
				t.e(d.kids[0], 0)
				w(")")
			} else {
				t.e(d.kids[0], 10)
			}
		} else {
			t.e(d.kids[0], 10)
		}
		if d.k == "?.(" {
			w("?.")
		}
		w("(")
		t.e(d.kids[1], 2)
		w(")")
	case "call0":
		t.e(d.kids[0], 10)
		w("()")
	case "[]", "?.[":
		t.e(d.kids[0], 10)
		if d.k == "?.[" {
			w("?.")
		}
		w("[")
		t.e(d.kids[1], 0)
		w("]")
	case "?.":
		t.e(d.kids[0], 10)
		w("?.p")
	case "arr":
		w("[")
		t.e(d.kids[0], 2)
		w(", ")
		t.e(d.kids[1], 2)
		w("]")
	case "obj":
		w("({ p: ")
		t.e(d.kids[0], 2)
		w(" })")
	case "tpl":
		w("`a${")
		t.e(d.kids[0], 0)
		w("}`")
	default:
		panic(d.k)
	}
}

func (t *cfgTxt) s(d *cnd) {
	w := t.b.WriteString
	k := d.kids
	switch d.k {
	case "expr":
		t.e(k[0], 0)
		w("; ")
	case "list":
		for _, x := range k {
			t.s(x)
		}
	case "block":
		w("{ ")
		t.s(k[0])
		w("} ")
	case "var":
		w("var v = ")
		t.e(k[0], 2)
		w("; ")
	case "if":
		w("if (")
		t.e(k[0], 0)
		w(") ")
		t.sub(k[1])
	case "ifelse":
		w("if (")
		t.e(k[0], 0)
		w(") ")
		t.sub(k[1])
		w("else ")
		t.s(k[2])
	case "while":
		w("while (")
		t.e(k[0], 0)
		w(") ")
		t.s(k[1])
	case "do":
		w("do ")
		t.s(k[0])
		w("while (")
		t.e(k[1], 0)
		w("); ")
	case "for":
		w("for (")
		t.e(k[0], 0)
		w("; ")
		t.e(k[1], 0)
		w("; ")
		t.e(k[2], 0)
		w(") ")
		t.s(k[3])
	case "forv":
		w("for (var v = ")
		t.e(k[0], 2)
		w("; ")
		t.e(k[1], 0)
		w(";) ")
		t.s(k[2])
	case "for0":
		w("for (;;) ")
		t.s(k[0])
	case "forof", "forin":
		w("for (var v " + d.k[3:] + " ")
		t.e(k[0], 2)
		w(") ")
		t.s(k[1])
	case "label":
		w("l: { ")
		t.s(k[0])
		w("} ")
	case "lloop":
		w("l: while (")
		t.e(k[0], 0)
		w(") ")
		t.s(k[1])
	case "break", "continue":
		w(d.k + "; ")
	case "breakl":
		w("break l; ")
	case "continuel":
		w("continue l; ")
	case "return0":
		w("return; ")
	case "return", "throw":
		w(d.k + " ")
		t.e(k[0], 0)
		w("; ")
	case "switch1", "switch2", "switchd", "switchmd", "switchdm":
		w("switch (")
		t.e(k[0], 0)
		w(") { ")
		t.cases(d, func(ei, li int) {
			if ei < 0 {
				w("default: ")
			} else {
				w("case ")
				t.e(k[ei], 0)
				w(": ")
			}
			t.s(k[li])
		})
		w("} ")
	case "trycatch", "tryfin", "trycf":
		w("try { ")
		t.s(k[0])
		w("} ")
		if d.k != "tryfin" {
			w("catch (e) { ")
			t.s(k[1])
			w("} ")
		}
		if d.k != "trycatch" {
			w("finally { ")
			t.s(k[len(k)-1])
			w("} ")
		}
	default:
		panic(d.k)
	}
}

// sub: the body of an if needs braces when it could swallow an else
func (t *cfgTxt) sub(d *cnd) {
	switch d.k {
	case "expr", "block", "var", "break", "continue", "breakl", "continuel", "return", "return0", "throw":
		t.s(d)
	default:
		t.b.WriteString("{ ")
		t.s(d)
		t.b.WriteString("} ")
	}
}

// cases: the clauses in source order as (index of test or -1, index of list)
func (t *cfgTxt) cases(d *cnd, f func(ei, li int)) {
	for _, c := range cfgCases(d) {
		f(c[0], c[1])
	}
}

func cfgCases(d *cnd) [][2]int {
	switch d.k {
	case "switch1":
		return [][2]int{{1, 2}}
	case "switch2":
		return [][2]int{{1, 2}, {3, 4}}
	case "switchd":
		return [][2]int{{-1, 1}}
	case "switchmd":
		return [][2]int{{1, 2}, {-1, 3}}
	case "switchdm":
		return [][2]int{{-1, 1}, {2, 3}}
	}
	return nil
}

// ---- model automaton

// a state reads one leaf (or nothing, leaf<0) and moves to any of its successors
type cst struct {
	leaf int
	to   []int
}

type cfgModel struct {
	st  []cst
	n   int // leaves numbered so far (in source order)
	num map[*cnd]int
}

func (m *cfgModel) eps(to ...int) int {
	m.st = append(m.st, cst{-1, to})
	return len(m.st) - 1
}

// thr: exceptions of expressions, xthr: throw statements
type cjmp struct{ brk, cont, brkL, contL, ret, thr, xthr int }

// number assigns the leaves of the tree in source order, as the text writer does
func (m *cfgModel) number(d *cnd) {
	switch d.k {
	case "x":
		m.num[d] = m.n
		m.n++
		return
	}
	for _, k := range d.kids {
		m.number(k)
	}
}

// copyTree makes every occurrence distinct, so that leaves can be numbered
func copyTree(d *cnd) *cnd {
	r := &cnd{k: d.k}
	for _, k := range d.kids {
		r.kids = append(r.kids, copyTree(k))
	}
	return r
}

// e: entry state of the evaluation of d, continuing at t or f by the truth of its value; thr is
// where an exception goes, -1 when none is considered
func (m *cfgModel) e(d *cnd, t, f, thr int) int {
	both := func() int {
		if t == f {
			return t
		}
		return m.eps(t, f)
	}
	k := d.kids
	switch d.k {
	case "x":
		to := []int{t}
		if f != t {
			to = append(to, f)
		}
		if thr >= 0 {
			to = append(to, thr)
		}
		m.st = append(m.st, cst{m.num[d], to})
		return len(m.st) - 1
	case "&&":
		return m.e(k[0], m.e(k[1], t, f, thr), f, thr)
	case "||":
		return m.e(k[0], t, m.e(k[1], t, f, thr), thr)
	case "??":
		r := m.e(k[1], t, f, thr)
		// the left side is nullish, or it is not and decides
		return m.e(k[0], t, m.eps(r, f), thr)
	case "?:":
		return m.e(k[0], m.e(k[1], t, f, thr), m.e(k[2], t, f, thr), thr)
	case "lit1":
		return t
	case "lit0":
		return f
	case "!":
		return m.e(k[0], f, t, thr)
	case "()":
		return m.e(k[0], t, f, thr)
	case ",":
		r := m.e(k[1], t, f, thr)
		return m.e(k[0], r, r, thr)
	case "=", "tpl":
		b := both()
		return m.e(k[0], b, b, thr)
	case "obj": // an object is true
		return m.e(k[0], t, t, thr)
	case "arr", "new":
		r := m.e(k[1], t, t, thr)
		return m.e(k[0], r, r, thr)
	case "+":
		b := both()
		r := m.e(k[1], b, b, thr)
		return m.e(k[0], r, r, thr)
	case "call", "call0", "[]", "?.", "?.[", "?.(":
		return m.chain(d, t, f, f, thr)
	}
	panic(d.k)
}

// chain: nul is where the chain goes when one of its links is cut short
func (m *cfgModel) chain(d *cnd, t, f, nul, thr int) int {
	k := d.kids
	r := t
	if t != f {
		r = m.eps(t, f)
	}
	switch d.k {
	case "call", "[]", "?.[", "?.(":
		r = m.e(k[1], r, r, thr)
	case "call0", "?.":
	default:
		return m.e(d, t, f, thr)
	}
	if d.k[0] == '?' {
		return m.chain(k[0], r, m.eps(r, nul), nul, thr)
	}
	return m.chain(k[0], r, r, nul, thr)
}

func (m *cfgModel) s(d *cnd, next int, j cjmp) int {
	k := d.kids
	switch d.k {
	case "expr", "var":
		return m.e(k[0], next, next, j.thr)
	case "list":
		for i := len(k) - 1; i >= 0; i-- {
			next = m.s(k[i], next, j)
		}
		return next
	case "block":
		return m.s(k[0], next, j)
	case "if":
		return m.e(k[0], m.s(k[1], next, j), next, j.thr)
	case "ifelse":
		return m.e(k[0], m.s(k[1], next, j), m.s(k[2], next, j), j.thr)
	case "while", "lloop":
		head := m.eps()
		j.brk, j.cont = next, head
		if d.k == "lloop" {
			j.brkL, j.contL = next, head
		}
		m.st[head].to = []int{m.e(k[0], m.s(k[1], head, j), next, j.thr)}
		return head
	case "do":
		test := m.eps()
		j.brk, j.cont = next, test
		body := m.s(k[0], test, j)
		m.st[test].to = []int{m.e(k[1], body, next, j.thr)}
		return body
	case "for", "forv", "for0":
		head := m.eps()
		upd := head
		thr := j.thr
		if d.k == "for" {
			upd = m.e(k[2], head, head, thr)
		}
		j.brk, j.cont = next, upd
		body := m.s(k[len(k)-1], upd, j)
		if d.k == "for0" {
			m.st[head].to = []int{body}
			return head
		}
		m.st[head].to = []int{m.e(k[1], body, next, thr)}
		return m.e(k[0], head, head, thr)
	case "forof", "forin":
		head := m.eps()
		j.brk, j.cont = next, head
		// the graph holds the whole header at its loop test (see DESIGN.md)
		c := m.eps(m.s(k[1], head, j), next)
		m.st[head].to = []int{m.e(k[0], c, c, j.thr)}
		return head
	case "label":
		j.brkL, j.contL = next, -1
		return m.s(k[0], next, j)
	case "break":
		return j.brk
	case "continue":
		return j.cont
	case "breakl":
		return j.brkL
	case "continuel":
		return j.contL
	case "return0":
		return j.ret
	case "return":
		return m.e(k[0], j.ret, j.ret, j.thr)
	case "throw":
		t := j.xthr
		if t < 0 {
			t = m.eps() // leaves the graph: no exit of it is reached
		}
		return m.e(k[0], t, t, j.thr)
	case "switch1", "switch2", "switchd", "switchmd", "switchdm":
		cs := cfgCases(d)
		thr := j.thr
		j.brk = next
		bodies := make([]int, len(cs))
		def := next
		for i, nx := len(cs)-1, next; i >= 0; i-- {
			nx = m.s(k[cs[i][1]], nx, j)
			bodies[i] = nx
			if cs[i][0] < 0 {
				def = nx
			}
		}
		st := def
		for i := len(cs) - 1; i >= 0; i-- {
			if cs[i][0] >= 0 {
				c := m.eps(bodies[i], st)
				st = m.e(k[cs[i][0]], c, c, thr)
			}
		}
		return m.e(k[0], st, st, thr)
	case "trycatch", "tryfin", "trycf":
		fin := func(to int) int {
			if d.k == "trycatch" || to < 0 {
				return to
			}
			return m.s(k[len(k)-1], to, j)
		}
		out := j
		thr := j.xthr
		if thr < 0 {
			thr = m.eps()
		}
		i := j
		nx := fin(next)
		i.xthr = fin(thr)
		if d.k != "trycatch" {
			i.thr = -1 // exceptions that pass a finally part are not followed
		}
		if out.brk >= 0 {
			i.brk = fin(out.brk)
		}
		if out.cont >= 0 {
			i.cont = fin(out.cont)
		}
		if out.brkL >= 0 {
			i.brkL = fin(out.brkL)
		}
		if out.contL >= 0 {
			i.contL = fin(out.contL)
		}
		if out.ret >= 0 {
			i.ret = fin(out.ret)
		}
		if d.k != "tryfin" {
			c := i
			if d.k == "trycatch" {
				c = out
			}
			i.thr = m.s(k[1], nx, c)
			i.xthr = i.thr
		}
		return m.s(k[0], nx, i)
	}
	panic(d.k)
}

// ---- comparison

type cfgGraph struct {
	blks  []*analysis.Block
	leafs [][]int // leaves of the block in order
	out   [][]int
	exc   [][]int // targets of exceptions
	cut   []bool
	exit  int
	head  int
}

func cfgLeaf(n parser.Node) int {
	if n.Type() == parser.N_NAME {
		v := n.(*parser.Ident).Val()
		if len(v) > 1 && v[0] == 'x' {
			if i, err := strconv.Atoi(v[1:]); err == nil {
				return i
			}
		}
	}
	return -1
}

// gpos: position before leaf i of block b
type gpos struct{ b, i int }

func cfgBuild(g *analysis.Graph, exitOf parser.Node) (*cfgGraph, string) {
	r := &cfgGraph{exit: -1}
	id := map[*analysis.Block]int{}
	var add func(b *analysis.Block) int
	add = func(b *analysis.Block) int {
		if i, ok := id[b]; ok {
			return i
		}
		i := len(r.blks)
		id[b] = i
		r.blks = append(r.blks, b)
		var ls []int
		for _, n := range b.Nodes {
			if l := cfgLeaf(n); l >= 0 {
				ls = append(ls, l)
			}
		}
		r.leafs = append(r.leafs, ls)
		r.cut = append(r.cut, b.IsInCut())
		r.out = append(r.out, nil)
		r.exc = append(r.exc, nil)
		for _, e := range b.Outlets {
			if e.Dst != nil {
				d := add(e.Dst)
				if e.Tag&analysis.ET_CUT == 0 {
					r.out[i] = append(r.out[i], d)
					if e.Tag&analysis.ET_JMP_E != 0 {
						r.exc[i] = append(r.exc[i], d)
					}
				}
			}
		}
		return i
	}
	r.head = add(g.Head)
	why := ""
	for i, b := range r.blks {
		for _, e := range b.Outlets {
			if e.Src != b {
				why = "an outlet of block " + b.DotId() + " is recorded with another source"
			}
			if e.Dst == nil {
				continue
			}
			found := false
			for _, in := range e.Dst.Inlets {
				if in.Src == b && in.Dst == e.Dst {
					found = true
				}
			}
			if !found {
				why = "the edge " + e.Key() + " is not recorded at its target"
			}
		}
		_ = i
	}
	if x := g.ExitOfNode(exitOf); x != nil {
		if i, ok := id[x]; ok {
			r.exit = i
		}
	}
	return r, why
}

func (g *cfgGraph) closure(set map[gpos]bool) {
	var w []gpos
	for p := range set {
		w = append(w, p)
	}
	for len(w) > 0 {
		p := w[len(w)-1]
		w = w[:len(w)-1]
		to := g.exc[p.b] // anywhere in the block
		if p.i == len(g.leafs[p.b]) {
			to = g.out[p.b]
		}
		if len(to) > 0 {
			for _, d := range to {
				q := gpos{d, 0}
				if !set[q] {
					set[q] = true
					w = append(w, q)
				}
			}
		}
	}
}

func (g *cfgGraph) step(set map[gpos]bool, leaf int) map[gpos]bool {
	r := map[gpos]bool{}
	for p := range set {
		if p.i < len(g.leafs[p.b]) && g.leafs[p.b][p.i] == leaf {
			r[gpos{p.b, p.i + 1}] = true
		}
	}
	g.closure(r)
	return r
}

func (g *cfgGraph) sig(set map[gpos]bool) string {
	var l []int
	for p := range set {
		l = append(l, p.b<<12|p.i)
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

type cfgVerdict struct {
	panic, path, form, cutExec, notCut string
	states, trans                      int
}

// cfgCompare explores all pairs (model state, set of graph positions)
func cfgCompare(m *cfgModel, start, final int, g *cfgGraph, exc bool) (v cfgVerdict) {
	type pair struct {
		s   int
		set map[gpos]bool
		tr  []int
	}
	reached := map[int]bool{}
	init := map[gpos]bool{{g.head, 0}: true}
	g.closure(init)
	seen := map[string]bool{}
	q := []pair{{start, init, nil}}
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		k := fmt.Sprint(p.s, "|", g.sig(p.set))
		if seen[k] {
			continue
		}
		seen[k] = true
		v.states++
		if p.s == final {
			ok := false
			for x := range p.set {
				if x.b == g.exit {
					ok = true
				}
			}
			if !ok && v.path == "" {
				v.path = fmt.Sprintf("the execution %v leaves the program, the graph has no such path to its exit", names(p.tr))
			}
			continue
		}
		st := m.st[p.s]
		set, tr := p.set, p.tr
		if st.leaf >= 0 {
			reached[st.leaf] = true
			set = g.step(p.set, st.leaf)
			tr = append(append([]int{}, p.tr...), st.leaf)
			if len(set) == 0 {
				if v.path == "" {
					v.path = fmt.Sprintf("the execution %v is not a path of the graph", names(tr))
				}
				// go on for the reachability of leaves only
				set = map[gpos]bool{}
			}
		}
		for _, t := range st.to {
			v.trans++
			q = append(q, pair{t, set, tr})
		}
	}
	inG := map[int]int{}
	for b, ls := range g.leafs {
		for _, l := range ls {
			inG[l] = b
			if g.cut[b] && reached[l] && v.cutExec == "" {
				v.cutExec = fmt.Sprintf("x%d executes but its block is reported as cut off", l)
			}
		}
	}
	_ = inG
	return
}

func names(l []int) []string {
	r := make([]string, len(l))
	for i, x := range l {
		r[i] = "x" + strconv.Itoa(x)
	}
	return r
}

// cfgDead: leaves of statements that follow a jump in their list (up to functions/labels)
func (m *cfgModel) dead(d *cnd, out *[]int) {
	if d.k == "list" {
		after := false
		for _, k := range d.kids {
			if after {
				m.leaves(k, out)
				continue
			}
			m.dead(k, out)
			switch k.k {
			case "break", "continue", "breakl", "continuel", "return", "return0", "throw":
				after = true
			}
		}
		return
	}
	for _, k := range d.kids {
		m.dead(k, out)
	}
}

func (m *cfgModel) leaves(d *cnd, out *[]int) {
	if d.k == "x" {
		*out = append(*out, m.num[d])
	}
	for _, k := range d.kids {
		m.leaves(k, out)
	}
}

func cfgJudge(d *cnd, fn bool, useThr bool) (src string, v cfgVerdict, ok bool) {
	src = cfgText(d, fn)
	d = copyTree(d)
	m := &cfgModel{num: map[*cnd]int{}}
	m.number(d)
	final := m.eps()
	start := m.s(d, final, cjmp{-1, -1, -1, -1, final, -1, -1})
	return cfgJudgeText(src, fn, m, start, final, d)
}

func cfgJudgeText(src string, fn bool, m *cfgModel, start, final int, d *cnd) (_ string, v cfgVerdict, ok bool) {
	s := span.NewSource("", src)
	opts := parser.NewParserOpts()
	opts.Feature = opts.Feature.Off(parser.FEAT_STRICT).Off(parser.FEAT_MODULE)
	p := parser.NewParser(s, opts)
	ast, err := p.Prog()
	if err != nil {
		return src, v, false
	}
	a := analysis.NewAnalysis(ast, p.Symtab(), s)
	a.Analyze()
	g := a.Graph()
	var root parser.Node = ast
	if fn {
		root = ast.(*parser.Prog).Body()[0]
		g = a.AnalysisCtx().GraphOf(root)
	}
	gg, why := cfgBuild(g, root)
	v = cfgCompare(m, start, final, gg, false)
	v.form = why
	var dead []int
	m.dead(d, &dead)
	for _, l := range dead {
		for b, ls := range gg.leafs {
			for _, x := range ls {
				if x == l && !gg.cut[b] {
					v.notCut = fmt.Sprintf("x%d directly follows a jump but its block is not reported as cut off", l)
				}
			}
		}
	}
	return src, v, true
}

var cfgAllE = strings.Fields("&& || ?? + , = ?: ! () lit1 lit0 call call0 new [] arr obj tpl ?. ?.[ ?.(")
var cfgAllS = strings.Fields("block|L var|E if|ES ifelse|ESS while|ES do|SE for|EEES forv|EES for0|S forof|ES forin|ES label|L lloop|ES break continue breakl continuel return0 return|E throw|E switch1|EEL switch2|EELEL switchd|EL switchmd|EELL switchdm|ELEL trycatch|LL tryfin|LO trycf|LLO")

// cfgMix: a set of constructs explored together up to a size
type cfgMix struct {
	e, s        string
	quick, deep int
}

const cfgJumps = " break continue breakl continuel return0 return|E throw|E"

var cfgMixes = []cfgMix{
	{strings.Join(cfgAllE, " "), strings.Join(cfgAllS, " "), 2, 3},
	{"&& || ?? ?: ! () lit1 lit0", "block|L if|ES ifelse|ESS while|ES do|SE for|EEES forv|EES" + cfgJumps, 3, 3},
	{"&&", "block|L if|ES ifelse|ESS while|ES do|SE for|EEES for0|S forof|ES label|L lloop|ES" + cfgJumps, 3, 4},
	{"||", "if|ES ifelse|ESS while|ES for0|S forin|ES switch1|EEL switch2|EELEL switchd|EL switchmd|EELL switchdm|ELEL label|L lloop|ES" + cfgJumps, 3, 4},
	{"&&", "block|L if|ES ifelse|ESS while|ES do|SE lloop|ES trycatch|LL tryfin|LO trycf|LLO" + cfgJumps, 4, 4},
	{"", "if|ES while|ES break continue return0 lloop|ES breakl continuel", 5, 7},
	{"&& || ?? ?: ! () = + , call ?. ?.[ ?.(", "if|ES while|ES", 3, 4},
	{"", "while|ES lloop|ES tryfin|LO trycf|LLO break continue breakl continuel", 4, 5},
}

func cfgAll(c *Ctx, judge func(v *cfgVerdict) string) {
	c.Rule("every program of a mini-language of control constructs (as function body and as program) up to the size of its construct set: every execution of a model automaton of the program, for all branch outcomes, against the paths of the graph built by the real analysis")
	c.Assume("the header of for-in/for-of counts as evaluated at each iteration; exceptions are followed into catch parts only; return and throw pass at most one finally part (beyond: known finding)")
	leaf := &cnd{k: "expr", kids: []*cnd{{k: "x"}}}
	list := func(k ...*cnd) *cnd { return &cnd{"list", k} }
	try := func(b, f *cnd) *cnd { return &cnd{"tryfin", []*cnd{list(b), list(f)}} }
	for _, j := range []*cnd{{k: "return0"}, {"return", []*cnd{{k: "x"}}}} {
		cfgRun(c, list(try(try(j, leaf), leaf), leaf), true, true, judge)
	}
	for _, mix := range cfgMixes {
		g := &cfgGen{ek: strings.Fields(mix.e), sk: strings.Fields(mix.s), ec: map[int][]*cnd{}, sc: map[string][]*cnd{}, lc: map[string][]*cnd{}}
		for _, fn := range []bool{true, false} {
			for n := 0; n <= c.Pick(mix.quick, mix.deep); n++ {
				jobs := g.list(n, cctx{fn: fn})
				par(c, len(jobs), func(sl *slot, i int) {
					sl.Enter(cfgText(jobs[i], fn))
					cfgRun(c, jobs[i], fn, i&(i-1) == 0 && fn, judge)
					sl.Leave()
				})
			}
		}
	}
}

func cfgRun(c *Ctx, d *cnd, fn, sample bool, judge func(v *cfgVerdict) string) {
	src := cfgText(d, fn)
	var v cfgVerdict
	var ok bool
	v.panic = guard(func() string {
		var w cfgVerdict
		_, w, ok = cfgJudge(d, fn, false)
		v = w
		return ""
	})
	c.Add("programs", 1)
	if v.panic == "" && !ok {
		c.Add("redeclared_labels_skipped", 1)
		return
	}
	c.Add("states", int64(v.states))
	c.Add("transitions", int64(v.trans))
	c.Add("traces_validated_against_impl", int64(v.trans))
	if sample {
		c.Sample(src)
	}
	if w := judge(&v); w != "" {
		c.Violate(src, w, map[string]string{"source": src, "why": w})
	}
}

func cfgText(d *cnd, fn bool) string {
	t := &cfgTxt{}
	if fn {
		t.b.WriteString("function f() { ")
	}
	t.s(copyTree(d))
	if fn {
		t.b.WriteString("}")
	}
	return strings.TrimSpace(t.b.String())
}

func cfgOne(key string) {
	s := span.NewSource("", key)
	opts := parser.NewParserOpts()
	opts.Feature = opts.Feature.Off(parser.FEAT_STRICT).Off(parser.FEAT_MODULE)
	p := parser.NewParser(s, opts)
	if ast, err := p.Prog(); err == nil {
		analysis.NewAnalysis(ast, p.Symtab(), s).Analyze()
	}
}

func init() {
	register(&Check{ID: "C14", Level: "model_checking", One: cfgOne, Run: func(c *Ctx) {
		cfgAll(c, func(v *cfgVerdict) string {
			if v.panic != "" {
				return v.panic
			}
			if v.path != "" {
				return v.path
			}
			return v.form
		})
	}})
	register(&Check{ID: "C15", Level: "model_checking", One: cfgOne, Run: func(c *Ctx) {
		cfgAll(c, func(v *cfgVerdict) string {
			if v.cutExec != "" {
				return v.cutExec
			}
			return v.notCut
		})
	}})
}

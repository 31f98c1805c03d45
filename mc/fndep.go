package main

// C18: function dependency graphs of generated programs against the captures and references
// that the generator itself resolves lexically.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
)

type fdDecl struct {
	name string
	pos  int
	fn   *fdFn
	top  int // index of the top-level statement, or -1
}

type fdScope struct {
	up    *fdScope
	fn    *fdFn
	names map[string]*fdDecl
}

type fdFn struct {
	idx    int
	parent *fdFn
	caps   map[*fdDecl]bool
	deps   map[*fdFn]bool
}

type fdMention struct {
	name string
	sc   *fdScope
}

// fdR renders a program while building the model of it
type fdR struct {
	b        strings.Builder
	sc       *fdScope
	fns      []*fdFn
	mentions []fdMention
	tops     []*fdDecl // declaration of each top-level statement, nil if none
}

func (r *fdR) w(s string)  { r.b.WriteString(s) }
func (r *fdR) fn() *fdFn   { return r.sc.fn }
func (r *fdR) push(f *fdFn) { r.sc = &fdScope{r.sc, f, map[string]*fdDecl{}} }
func (r *fdR) pop()        { r.sc = r.sc.up }

func (r *fdR) decl(name string, fn *fdFn) *fdDecl {
	d := &fdDecl{name, r.b.Len(), fn, -1}
	r.sc.names[name] = d
	r.w(name)
	return d
}

// declUp declares in the function scope (var, function), past the blocks
func (r *fdR) use(name string) {
	r.mentions = append(r.mentions, fdMention{name, r.sc})
	r.w(name)
}

func (r *fdR) newFn() *fdFn {
	f := &fdFn{len(r.fns), r.fn(), map[*fdDecl]bool{}, map[*fdFn]bool{}}
	r.fns = append(r.fns, f)
	if f.parent != nil {
		f.parent.deps[f] = true
	}
	return f
}

func (sc *fdScope) find(name string) (*fdDecl, *fdScope) {
	for s := sc; s != nil; s = s.up {
		if d := s.names[name]; d != nil {
			return d, s
		}
	}
	return nil, nil
}

func (r *fdR) resolve() {
	for _, m := range r.mentions {
		if m.sc.fn == nil {
			continue
		}
		d, s := m.sc.find(m.name)
		if d == nil || s.fn == m.sc.fn {
			continue
		}
		m.sc.fn.caps[d] = true
		if d.fn != nil {
			m.sc.fn.deps[d.fn] = true
		}
	}
}

type fdItem func(r *fdR)

// mention forms: @ is the mentioned name
var fdUse = []string{"@;", "@();", "y.z(@);", "{ @; }", "if (1) { let q = @; }", "({ @ });", "({ k: @, [@]: 1 });", "`${@}`;", "for (const q of @) { }", "typeof @;", "@ = 1;", "y[@];", "new @(1, ...@);", "switch (1) { case @: }", "class Q extends @ { [@] = 1 }", "try { } catch (q) { @; }", "[q.w, ...y] = @;", "label: for (;;) { @; break label; }"}

// not mentions: @ is a key, a label or a name that is declared
var fdNot = []string{"y.@;", "({ @: 1 });", "@: for (;;) { break @; }", "y?.@;", "class Q { @ = 1; static @ }", "@: { for (;;) break @; }"}

func fdForm(f, name string, mention bool) fdItem {
	return func(r *fdR) {
		for i, s := range strings.Split(f, "@") {
			if i > 0 {
				if mention {
					r.use(name)
				} else {
					r.w(name)
				}
			}
			r.w(s)
		}
		r.w(" ")
	}
}

func fdLocal(kind, name string) fdItem {
	return func(r *fdR) {
		switch kind {
		case "let", "var", "const":
			r.w(kind + " ")
			r.decl(name, nil)
			r.w(" = 1; ")
		case "block": // the name is bound in the block only
			r.push(r.fn())
			r.w("{ let ")
			r.decl(name, nil)
			r.w(" = 1; ")
			r.use(name)
			r.w("; } ")
			r.pop()
		case "blockout": // and mentioned outside of it
			r.push(r.fn())
			r.w("{ let ")
			r.decl(name, nil)
			r.w("; } ")
			r.pop()
			r.use(name)
			r.w("; ")
		case "catch":
			r.push(r.fn())
			r.w("try { } catch (")
			r.decl(name, nil)
			r.w(") { ")
			r.use(name)
			r.w("; } ")
			r.pop()
		case "for":
			r.push(r.fn())
			r.w("for (let ")
			r.decl(name, nil)
			r.w(" of y) ")
			r.use(name)
			r.w("; ")
			r.pop()
		case "class":
			r.w("class ")
			r.decl(name, nil)
			r.w(" { } ")
		case "pattern":
			r.w("const { k: ")
			r.decl(name, nil)
			r.w(" } = y; ")
		}
	}
}

// fdFnItem: a function of the given kind, named name, with params and body items
func fdFnItem(kind, name, param string, body []fdItem) fdItem {
	return func(r *fdR) {
		var d *fdDecl
		open, end := "", " "
		self := ""
		switch kind {
		case "decl":
			r.w("function ")
			d = r.decl(name, nil)
		case "async":
			r.w("async function* ")
			d = r.decl(name, nil)
		case "fnexpr":
			r.w("const ")
			d = r.decl(name, nil)
			open, end = " = function ", "; "
		case "named":
			r.w("let ")
			d = r.decl(name, nil)
			open, end, self = " = function ", "; ", "self"
		case "arrow":
			r.w("const ")
			d = r.decl(name, nil)
			open, end = " = ", "; "
		case "second":
			r.w("var q0 = 1, ")
			d = r.decl(name, nil)
			open, end = " = ", "; "
		case "iife":
			open, end = "(function ", ")(); "
		case "method":
			open, end = "({ m", " }); "
		case "getter":
			open, end = "class Z { static m", " } "
		case "callback":
			open, end = "y(", "); "
		}
		r.w(open)
		f := r.newFn()
		if d != nil {
			d.fn = f
		}
		r.push(f) // params and the name of the function expression
		if self != "" {
			r.decl(self, nil)
		}
		switch {
		case param == "":
			r.w("()")
		case param[0] == '=': // a mention in the default value
			r.w("(p = ")
			r.use(param[1:])
			r.w(")")
		case param[0] == '{':
			r.w("({ k: ")
			r.decl(param[1:], nil)
			r.w(" })")
		default:
			r.w("(")
			r.decl(param, nil)
			r.w(")")
		}
		if kind == "arrow" || kind == "second" || kind == "callback" {
			r.w(" =>")
		}
		r.w(" { ")
		r.push(f)
		for _, it := range body {
			it(r)
		}
		if self != "" {
			r.use(self)
			r.w("; ")
		}
		r.pop()
		r.pop()
		r.w("}" + end)
	}
}

func fdProgram(tops []fdItem) *fdR {
	r := &fdR{}
	r.push(nil)
	for _, it := range tops {
		before := len(r.sc.names)
		old := map[*fdDecl]bool{}
		for _, d := range r.sc.names {
			old[d] = true
		}
		it(r)
		var td *fdDecl
		if len(r.sc.names) > before {
			for _, d := range r.sc.names {
				if !old[d] && (td == nil || d.pos < td.pos) {
					td = d
				}
			}
		}
		r.w("\n")
		r.tops = append(r.tops, td)
	}
	r.resolve()
	return r
}

func fdImport(name string) fdItem {
	return func(r *fdR) {
		r.w("import ")
		r.decl(name, nil)
		r.w(" from \"m\";")
	}
}

func fdNamedImport(name string) fdItem {
	return func(r *fdR) {
		r.w("import { z as ")
		r.decl(name, nil)
		r.w(" } from \"m\";")
	}
}

func fdExpect(r *fdR) []string {
	var out []string
	for _, f := range r.fns {
		var caps, deps []string
		for d := range f.caps {
			caps = append(caps, fmt.Sprintf("%s@%d", d.name, d.pos))
		}
		for d := range f.deps {
			deps = append(deps, fmt.Sprint(d.idx))
		}
		sort.Strings(caps)
		sort.Strings(deps)
		var on []string
		for i, td := range r.tops {
			if td == nil {
				continue
			}
			seen := map[*fdFn]bool{}
			stk := []*fdFn{f}
			hit := false
			for len(stk) > 0 {
				x := stk[len(stk)-1]
				stk = stk[:len(stk)-1]
				if seen[x] {
					continue
				}
				seen[x] = true
				hit = hit || x.caps[td]
				for d := range x.deps {
					stk = append(stk, d)
				}
			}
			if hit {
				on = append(on, fmt.Sprint(i))
			}
		}
		out = append(out, fmt.Sprintf("fn%d captures[%s] deps[%s] depends-on[%s]", f.idx, strings.Join(caps, " "), strings.Join(deps, " "), strings.Join(on, " ")))
	}
	return out
}

func fdGot(src string, tops int) (out []string, fail string) {
	defer func() {
		if x := recover(); x != nil {
			fail = fmt.Sprint("panic ", x)
		}
	}()
	o := parseWith(src, optsFor("module"), false)
	if o.ast == nil || o.errMsg != "" {
		return nil, "does not parse: " + o.errMsg + o.panicMsg
	}
	g := astutil.BuildFnDepGraph(o.ast, o.p.Symtab())
	var ns []parser.Node
	for n := range g.Nodes {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].Range().Lo < ns[j].Range().Lo })
	idx := map[*astutil.FnDepNode]int{}
	for i, n := range ns {
		idx[g.Nodes[n]] = i
	}
	body := o.ast.(*parser.Prog).Body()
	if len(body) != tops {
		return nil, fmt.Sprintf("%d statements", len(body))
	}
	for i, n := range ns {
		d := g.Nodes[n]
		if d.Dec != n {
			return nil, fmt.Sprintf("function %d is recorded with another declaration", i)
		}
		var caps, deps, on []string
		for _, c := range d.Captures {
			caps = append(caps, fmt.Sprintf("%s@%d", c.Id.Val(), c.Id.Range().Lo))
		}
		for _, x := range d.Deps {
			k, ok := idx[x]
			if !ok {
				return nil, "a dependency is not in the graph"
			}
			deps = append(deps, fmt.Sprint(k))
		}
		sort.Strings(caps)
		sort.Strings(deps)
		for k, s := range body {
			if astutil.IsFnDepsOnNode(g, n, s) {
				on = append(on, fmt.Sprint(k))
			}
		}
		out = append(out, fmt.Sprintf("fn%d captures[%s] deps[%s] depends-on[%s]", i, strings.Join(caps, " "), strings.Join(deps, " "), strings.Join(on, " ")))
	}
	return
}

func fdSpace(c *Ctx, emit func([]fdItem)) {
	names := []string{"a", "b", "f", "g", "u"}
	var uses, nots, locals, basic []fdItem
	for _, f := range fdUse {
		for _, n := range names {
			uses = append(uses, fdForm(f, n, true))
		}
	}
	for _, f := range fdNot {
		for _, n := range []string{"a", "g"} {
			nots = append(nots, fdForm(f, n, false))
		}
	}
	for _, k := range []string{"let", "var", "const", "block", "blockout", "catch", "for", "class", "pattern"} {
		for _, n := range []string{"a", "g"} {
			locals = append(locals, fdLocal(k, n))
		}
	}
	for _, n := range names[:4] {
		basic = append(basic, fdForm("@;", n, true))
	}
	basic = append(basic, fdForm("{ @; }", "a", true), fdForm("y.@;", "a", false), fdLocal("let", "a"), fdLocal("blockout", "g"), fdLocal("var", "b"))
	kinds := []string{"decl", "async", "fnexpr", "named", "arrow", "second", "iife", "method", "getter", "callback"}
	params := []string{"", "a", "{g", "=a", "=g", "=b"}
	var nested []fdItem
	for _, k := range kinds {
		for _, p := range params {
			for _, x := range basic {
				nested = append(nested, fdFnItem(k, "h", p, []fdItem{x}))
			}
		}
	}
	// two levels below f
	var deep []fdItem
	for _, k := range []string{"decl", "arrow", "method"} {
		for _, p := range params {
			for _, k2 := range []string{"arrow", "fnexpr", "iife"} {
				for _, x := range basic {
					for _, y := range basic {
						deep = append(deep, fdFnItem(k, "h", p, []fdItem{y, fdFnItem(k2, "i", "", []fdItem{x})}), fdFnItem(k, "h", p, []fdItem{fdFnItem(k2, "i", "", []fdItem{x}), y}))
					}
				}
			}
		}
	}
	all := append(append(append(append([]fdItem{}, uses...), nots...), locals...), nested...)
	outer := []fdItem{fdLocal("var", "a"), fdLocal("let", "a"), fdLocal("const", "a"), fdLocal("class", "a"), fdLocal("pattern", "a"), fdImport("a"), fdNamedImport("a"),
		func(r *fdR) { r.w("var "); r.decl("a", nil); r.w(";") }, func(r *fdR) { r.w("let x0, "); r.decl("a", nil); r.w(";") }}
	ob := fdImport("b")
	gs := []fdItem{fdForm("@;", "a", true), fdForm("@();", "f", true), fdForm("@;", "b", true), fdForm("@;", "g", true), fdForm("y.@;", "a", false)}
	top := []string{"decl", "async", "fnexpr", "named", "arrow"}
	// one item in f: all kinds of the functions and of the outer binding
	for _, it := range all {
		for oi, o := range outer {
			for ki, k := range top {
				for gi, g := range gs {
					if c.Quick() && (oi+ki+gi)%3 != 0 && oi > 1 {
						continue
					}
					emit([]fdItem{o, ob, fdFnItem(k, "f", "", []fdItem{it}), fdFnItem(top[(ki+gi)%5], "g", "", []fdItem{g})})
				}
			}
		}
	}
	// parameters of f, functions used before they are declared
	for _, it := range all {
		for _, p := range params {
			emit([]fdItem{fdFnItem("decl", "f", p, []fdItem{it}), ob, outer[0], fdFnItem("arrow", "g", "", []fdItem{gs[0]})})
		}
	}
	// two items in f
	for _, x := range all {
		for _, y := range append(append(append([]fdItem{}, basic...), locals...), nested[:60]...) {
			emit([]fdItem{outer[0], ob, fdFnItem("decl", "f", "", []fdItem{x, y}), fdFnItem("decl", "g", "", []fdItem{gs[0]})})
			if !c.Quick() {
				emit([]fdItem{outer[0], ob, fdFnItem("decl", "f", "", []fdItem{y, x}), fdFnItem("decl", "g", "", []fdItem{gs[0]})})
			}
		}
	}
	for _, d := range deep {
		emit([]fdItem{outer[0], ob, fdFnItem("arrow", "f", "", []fdItem{d}), fdFnItem("decl", "g", "", []fdItem{gs[0]})})
		emit([]fdItem{outer[0], ob, fdFnItem("arrow", "f", "", []fdItem{basic[0], d, basic[1]}), fdFnItem("decl", "g", "", []fdItem{gs[0]})})
	}
	// chains and cycles of three functions and their mentions of each other
	refs := []string{"a", "b", "f", "g", "h"}
	for m := 0; m < 1<<15; m++ {
		pick := func(k int) (out []fdItem) {
			for i, n := range refs {
				if m>>(5*k+i)&1 != 0 {
					out = append(out, fdForm("@();", n, true))
				}
			}
			return
		}
		if c.Quick() && m%3 != 0 {
			continue
		}
		emit([]fdItem{outer[0], ob, fdFnItem("decl", "f", "", pick(0)), fdFnItem("arrow", "g", "", pick(1)), fdFnItem("fnexpr", "h", "", pick(2))})
	}
}

func init() {
	register(&Check{ID: "C18", Level: "model_checking",
		Run: func(c *Ctx) {
			c.Rule("every program of up to four functions built from the mention, key, local-declaration and nesting forms, and every reference relation of three functions and two outer bindings: captures, dependencies and reachability vs. the generator's own lexical model")
			c.Assume("mentions in a nested function count for that function; JSX names are not mentions")
			type job struct {
				r   *fdR
				src string
			}
			ch := make(chan job, 256)
			done := make(chan bool)
			n := 0
			go func() {
				defer close(ch)
				seen := newDedup()
				fdSpace(c, func(tops []fdItem) {
					n++
					if c.TooMany() || c.Expired() {
						return
					}
					r := fdProgram(tops)
					src := r.b.String()
					if !seen.fresh(src) {
						return
					}
					if k := len(seen.m); k&(k-1) == 0 {
						c.Sample(src)
					}
					ch <- job{r, src}
				})
			}()
			for w := 0; w < c.Workers; w++ {
				go func() {
					sl := c.Slot()
					for j := range ch {
						sl.Enter(j.src)
						want := strings.Join(fdExpect(j.r), "\n")
						gotl, fail := fdGot(j.src, len(j.r.tops))
						got := strings.Join(gotl, "\n")
						sl.Leave()
						c.Add("states", 1)
						if strings.HasPrefix(fail, "does not parse") {
							// a name declared twice: not a program
							c.Add("redeclarations_skipped", 1)
							continue
						}
						c.Add("programs_compared", 1)
						if fail != "" || got != want {
							c.Violate(j.src, fmt.Sprintf("expected %q got %q %s", want, got, fail), map[string]string{"source": j.src, "expected": want, "got": got, "failure": fail})
						}
					}
					done <- true
				}()
			}
			for w := 0; w < c.Workers; w++ {
				<-done
			}
			c.Add("transitions", int64(n))
		},
		One: func(key string) { fdGot(key, strings.Count(key, "\n")) }})
}

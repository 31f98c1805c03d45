package main

// C13: events of a walk over every composed program, against the tree as found by reflection.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

var nodeIface = reflect.TypeOf((*parser.Node)(nil)).Elem()

// refsOf lists all nodes that the fields of n (and of its type info) refer to.
func refsOf(n parser.Node) []parser.Node {
	var out []parser.Node
	var rec func(v reflect.Value, depth int)
	rec = func(v reflect.Value, depth int) {
		if v.Kind() != reflect.Struct {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			add := func(x reflect.Value) {
				if x.Type().Implements(nodeIface) && (x.Kind() == reflect.Interface || x.Kind() == reflect.Ptr) && !x.IsNil() {
					c := x.Interface().(parser.Node)
					if !isNilNode(c) {
						out = append(out, c)
					}
				}
			}
			switch f.Kind() {
			case reflect.Slice:
				if f.Type().Elem().Implements(nodeIface) {
					for j := 0; j < f.Len(); j++ {
						add(f.Index(j))
					}
				}
			case reflect.Interface:
				add(f)
			case reflect.Ptr:
				if f.IsNil() {
					continue
				}
				if f.Type().Implements(nodeIface) {
					add(f)
				} else if depth == 0 && f.Elem().Kind() == reflect.Struct {
					rec(f.Elem(), 1)
				}
			}
		}
	}
	rec(reflect.ValueOf(n).Elem(), 0)
	return out
}

type astTree struct {
	kids   map[parser.Node][]parser.Node
	parent map[parser.Node]parser.Node
	order  []parser.Node // preorder
}

// treeOf finds the tree structure among the references: every node hangs below the innermost
// node which refers to it and whose source range covers it.
func treeOf(root parser.Node) *astTree {
	edges := map[parser.Node][]parser.Node{}
	seen := map[parser.Node]bool{}
	onStk := map[parser.Node]bool{}
	var dfs func(n parser.Node)
	dfs = func(n parser.Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		onStk[n] = true
		defer delete(onStk, n)
		dup := map[parser.Node]bool{}
		for _, c := range refsOf(n) {
			if c.Type() == parser.N_STMT_EMPTY || c.Type() == parser.N_DECORATOR { // have no events
				continue
			}
			if onStk[c] || dup[c] {
				continue
			}
			dup[c] = true
			if n != root && (c.Range().Lo < n.Range().Lo || c.Range().Hi > n.Range().Hi) {
				continue
			}
			edges[n] = append(edges[n], c)
			dfs(c)
		}
	}
	dfs(root)
	t := &astTree{map[parser.Node][]parser.Node{}, map[parser.Node]parser.Node{}, nil}
	depth := map[parser.Node]int{root: 0}
	// longest path from the root decides the parent
	var relax func(n parser.Node, guard int)
	relax = func(n parser.Node, guard int) {
		if guard > 400 {
			return
		}
		for _, c := range edges[n] {
			if d, ok := depth[c]; !ok || d < depth[n]+1 {
				depth[c] = depth[n] + 1
				t.parent[c] = n
				relax(c, guard+1)
			}
		}
	}
	relax(root, 0)
	var pre func(n parser.Node)
	pre = func(n parser.Node) {
		t.order = append(t.order, n)
		var ks []parser.Node
		for _, c := range edges[n] {
			if t.parent[c] == n {
				ks = append(ks, c)
			}
		}
		sort.SliceStable(ks, func(i, j int) bool {
			a, b := ks[i].Range(), ks[j].Range()
			if a.Lo != b.Lo {
				return a.Lo < b.Lo
			}
			return a.Hi < b.Hi
		})
		t.kids[n] = ks
		for _, k := range ks {
			pre(k)
		}
	}
	pre(root)
	return t
}

type wev struct {
	typ    parser.NodeType // the node type whose event it is
	n      parser.Node
	after  bool
	parent parser.Node
	scope  *parser.Scope
}

func walkEvents(root parser.Node, st *parser.SymTab, stopAt int) []wev {
	ctx := walk.NewWalkCtx(root, st)
	var out []wev
	h := func(t parser.NodeType, after bool) walk.ListenFn {
		return func(n parser.Node, key string, vc *walk.VisitorCtx) {
			out = append(out, wev{t, n, after, vc.ParentNode(), vc.Scope()})
			if len(out) == stopAt {
				vc.WalkCtx.Stop()
			}
		}
	}
	if stopAt%2 == 0 {
		// one listener for all types of nodes
		walk.AddBeforeListener(&ctx.Listeners, &walk.Listener{Id: "b", Handle: h(0, false)})
		walk.AddAfterListener(&ctx.Listeners, &walk.Listener{Id: "a", Handle: h(0, true)})
	} else {
		for t := range walk.NodeTypes {
			walk.AddNodeBeforeListener(&ctx.Listeners, t, &walk.Listener{Id: "b", Handle: h(t, false)})
			walk.AddNodeAfterListener(&ctx.Listeners, t, &walk.Listener{Id: "a", Handle: h(t, true)})
		}
	}
	walk.VisitNode(root, "", ctx.VisitorCtx())
	return out
}

const maxStop = 60 // stops are explored in walks of up to so many events

func nodeStr(src string, n parser.Node) string {
	if n == nil {
		return "nil"
	}
	r := n.Range()
	t := ""
	if int(r.Hi) <= len(src) && r.Lo <= r.Hi {
		t = src[r.Lo:r.Hi]
	}
	return fmt.Sprintf("%s `%s`", strings.TrimPrefix(reflect.TypeOf(n).String(), "*parser."), t)
}

// walkOne reports what is wrong with the walk over one program.
func walkOne(it item) (what string) {
	defer func() {
		if x := recover(); x != nil {
			what = "panic: " + fmt.Sprint(x)
		}
	}()
	o := parseWith(it.src, optsFor(it.mode), false)
	if o.err != nil || o.panicMsg != "" {
		return ""
	}
	st := o.p.Symtab()
	t := treeOf(o.ast)
	evs := walkEvents(o.ast, st, -1)
	// exactly once, nested, in order
	var want []wev
	var gen func(n, p parser.Node)
	gen = func(n, p parser.Node) {
		want = append(want, wev{n: n, parent: p})
		ks := t.kids[n]
		// the name of a shorthand property and of a plain specifier stands for two parts
		switch v := n.(type) {
		case *parser.Prop:
			if v.Val() != nil && v.Key().Range().Lo == v.Val().Range().Lo {
				ks = []parser.Node{v.Key(), v.Val()}
			}
		case *parser.ImportSpec:
			if v.Id() != nil { // the local name comes first
				ks = []parser.Node{v.Local(), v.Id()}
			}
		case *parser.ParenExpr: // nested parentheses count as one
			ks = []parser.Node{v.Expr()}
		case *parser.ExportSpec:
			if v.Local() == v.Id() {
				ks = []parser.Node{v.Local(), v.Id()}
			}
		}
		for _, k := range ks {
			gen(k, n)
		}
		want = append(want, wev{n: n, after: true, parent: p})
	}
	gen(o.ast, nil)
	for i := 0; i < len(want) || i < len(evs); i++ {
		if i >= len(evs) {
			return "no event for " + nodeStr(it.src, want[i].n)
		}
		if i >= len(want) {
			return "surplus event for " + nodeStr(it.src, evs[i].n)
		}
		if evs[i].n != want[i].n || evs[i].after != want[i].after {
			return fmt.Sprintf("event %d is for %s (after: %v), expected %s (after: %v)", i, nodeStr(it.src, evs[i].n), evs[i].after, nodeStr(it.src, want[i].n), want[i].after)
		}
		if evs[i].typ != evs[i].n.Type() {
			return fmt.Sprintf("event of %s is delivered to the listeners of another node type", nodeStr(it.src, evs[i].n))
		}
		if evs[i].n != o.ast && evs[i].parent != want[i].parent {
			return fmt.Sprintf("parent of %s is given as %s", nodeStr(it.src, evs[i].n), nodeStr(it.src, evs[i].parent))
		}
	}
	// scopes
	byNode := map[parser.Node]*parser.Scope{}
	var sc func(s *parser.Scope)
	sc = func(s *parser.Scope) {
		if s.Node != nil && !isNilNode(s.Node) {
			byNode[s.Node] = s
		}
		if s.Head != nil {
			for _, d := range s.Head.Down {
				sc(d)
			}
		}
		for _, d := range s.Down {
			sc(d)
		}
	}
	sc(st.Root)
	for _, e := range evs {
		var cand []*parser.Scope
		if s := byNode[e.n]; s != nil {
			cand = append(cand, s)
		}
		for c, a := e.n, t.parent[e.n]; ; c, a = a, t.parent[a] {
			if a == nil {
				cand = append(cand, st.Root)
				break
			}
			s := byNode[a]
			if s == nil || s == st.Root {
				continue
			}
			cand = append(cand, s)
			if !headOf(a, c) {
				break
			}
		}
		ok := false
		for _, s := range cand {
			ok = ok || s == e.scope || e.scope != nil && s.Node != nil && s.Node == e.scope.Node
		}
		if !ok {
			got := "none"
			if e.scope != nil {
				got = "the one of " + nodeStr(it.src, e.scope.Node)
				if e.scope == st.Root {
					got = "the global one"
				}
			}
			return fmt.Sprintf("scope of %s (after: %v) is %s", nodeStr(it.src, e.n), e.after, got)
		}
	}
	// a stop after any event
	for k := 1; k <= len(evs) && len(evs) <= maxStop; k++ {
		got := walkEvents(o.ast, st, k)
		if len(got) != k {
			return fmt.Sprintf("stopped at event %d but %d events were delivered", k, len(got))
		}
		for i := range got {
			if got[i].typ = evs[i].typ; got[i] != evs[i] {
				return fmt.Sprintf("walk stopped at event %d differs at event %d", k, i)
			}
		}
	}
	return ""
}

// headOf reports that c is a part of a whose scope (that of a or the outer one) is left to C12.
func headOf(a, c parser.Node) bool {
	switch a.Type() {
	case parser.N_STMT_FN, parser.N_EXPR_FN:
		return a.(*parser.FnDec).Id() == c
	case parser.N_STMT_CLASS, parser.N_EXPR_CLASS:
		d := a.(*parser.ClassDec)
		return d.Id() == c || d.Super() == c || c.Type() == parser.N_DECORATOR
	case parser.N_STMT_SWITCH:
		return a.(*parser.SwitchStmt).Test() == c
	case parser.N_STMT_FOR_IN_OF:
		return a.(*parser.ForInOfStmt).Right() == c
	case parser.N_STMT_DO_WHILE:
		return a.(*parser.DoWhileStmt).Test() == c
	case parser.N_STMT_WHILE:
		return a.(*parser.WhileStmt).Test() == c
	}
	return false
}

var walkExtra = []string{
	"@a class A {}", "@a.b(c) @d class A { @e x = 1; @f() y() {} @g static z }",
	"@(function () { var x }) class A { @(() => y) m() { let y } }", "(@a class {})",
}

func walkSpace(c *Ctx, emit func(item) bool) {
	for _, s := range walkExtra {
		if !emit(item{"module", s}) {
			return
		}
	}
	d := c.Pick(1, 2)
	if wantTheme("comp") && !jsComp(c, d, []string{"module", "script"}, emit) {
		return
	}
	if wantTheme("pairs") && !jsPairs(c, []string{"module"}, emit) {
		return
	}
	if !jsxSpace(c, c.Pick(1, 2), []string{"module"}, emit) {
		return
	}
}

func init() {
	register(&Check{ID: "C13", Level: "model_checking", One: func(k string) { walkOne(splitKey(k)) }, Run: func(c *Ctx) {
		c.Rule("all compositions of the JS and JSX templates up to the depth bound; on each, the full walk and the walk stopped at every event; all histories of listener operations up to the bound")
		listenerHistories(c)
		goRun(c, func(emit func(item) bool) { walkSpace(c, emit) }, func(sl *slot, it item) {
			if w := walkOne(it); w != "" {
				c.Violate(it.key(), w, map[string]string{"mode": it.mode, "source": it.src, "what": w})
			}
		})
	}})
}

// lop is one step of a listener history.
type lop struct {
	kind byte // + add, - remove, w walk, s walk in which listener id removes itself, n new context
	id   string
	ev   int
}

// listenerHistories: all sequences of adding, removing and walking, against a list model.
func listenerHistories(c *Ctx) {
	o := parseMode("module", "a + b;")
	if o.err != nil {
		return
	}
	evs := []parser.NodeType{walk.NodeBeforeEvent(walk.N_NAME), walk.NodeAfterEvent(walk.N_NAME), walk.NodeBeforeEvent(walk.N_EXPR_BIN)}
	var ops []lop
	for _, id := range []string{"p", "q", "r"} {
		for e := range evs {
			if id == "r" && e > 0 {
				continue
			}
			ops = append(ops, lop{'+', id, e}, lop{'-', id, e})
		}
		ops = append(ops, lop{'s', id, 0})
	}
	ops = append(ops, lop{'w', "", 0}, lop{'n', "", 0})
	var rec func(h []lop)
	n := 0
	rec = func(h []lop) {
		if len(h) > 0 {
			n++
			if w := runListeners(o, evs, h); w != "" {
				c.Violate(fmt.Sprintf("listeners %v", h), w, map[string]string{"history": fmt.Sprint(h), "what": w})
			}
		}
		if len(h) == c.Pick(3, 4) || c.TooMany() {
			return
		}
		for _, op := range ops {
			rec(append(h[:len(h):len(h)], op))
		}
	}
	rec(nil)
	c.Add("states", int64(n))
	c.Add("transitions", int64(n))
}

func runListeners(o outcome, evs []parser.NodeType, h []lop) (what string) {
	defer func() {
		if x := recover(); x != nil {
			what = "panic: " + fmt.Sprint(x)
		}
	}()
	var ctx *walk.WalkCtx
	model := map[int][]string{}
	var log []string
	self := ""
	ls := map[string]*walk.Listener{}
	fresh := func() {
		ctx = walk.NewWalkCtx(o.ast, o.p.Symtab())
		model = map[int][]string{}
	}
	fresh()
	for _, id := range []string{"p", "q", "r"} {
		for e := range evs {
			id, e := id, e
			k := fmt.Sprint(id, e)
			ls[k] = &walk.Listener{Id: id, Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
				log = append(log, k)
				if self == id && e == 0 {
					walk.RemoveListener(&vc.WalkCtx.Listeners, evs[e], ls[k])
				}
			}}
		}
	}
	del := func(xs []string, id string) []string {
		var r []string
		for _, x := range xs {
			if x != id {
				r = append(r, x)
			}
		}
		return r
	}
	doWalk := func() string {
		log = nil
		ctx2 := *ctx // a walk context is used for one walk, its listeners for any number
		walk.VisitNode(o.ast, "", ctx2.VisitorCtx())
		var want []string
		fire := func(e int) {
			for _, id := range append([]string{}, model[e]...) {
				want = append(want, fmt.Sprint(id, e))
				if self == id && e == 0 {
					model[e] = del(model[e], id)
				}
			}
		}
		fire(2)
		for i := 0; i < 2; i++ {
			fire(0)
			fire(1)
		}
		if fmt.Sprint(want) != fmt.Sprint(log) {
			return fmt.Sprintf("handlers called: %v, expected: %v", log, want)
		}
		return ""
	}
	for _, op := range append(h[:len(h):len(h)], lop{'w', "", 0}, lop{'n', "", 0}, lop{'w', "", 0}) {
		k := fmt.Sprint(op.id, op.ev)
		switch op.kind {
		case '+':
			err := walk.AddListener(&ctx.Listeners, evs[op.ev], ls[k])
			dup := len(del(model[op.ev], op.id)) != len(model[op.ev])
			if (err != nil) != dup {
				return fmt.Sprintf("adding %s: error %v", k, err)
			}
			if !dup {
				model[op.ev] = append(model[op.ev][:len(model[op.ev]):len(model[op.ev])], op.id)
			}
		case '-':
			walk.RemoveListener(&ctx.Listeners, evs[op.ev], ls[k])
			model[op.ev] = del(model[op.ev], op.id)
		case 'n':
			fresh()
		case 'w', 's':
			self = op.id
			w := doWalk()
			self = ""
			if w != "" {
				return w
			}
		}
	}
	return ""
}

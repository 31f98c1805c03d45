// Command pure evaluates programs with the code under test and reports digests of everything that is
// derived from them. It is built against /repo's packages with a hook at the entry of every function,
// so that one evaluation can be suspended at any of these points while another one runs.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/hsiaosiyuan0/mole/ecma/analysis"
	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
	"github.com/hsiaosiyuan0/mole/span"
	"github.com/hsiaosiyuan0/mole/vhook"
)

type prog struct{ Mode, Src string }

var modes = map[string]func(f parser.Feature) parser.Feature{
	"module": func(f parser.Feature) parser.Feature { return f },
	"script": func(f parser.Feature) parser.Feature {
		return f.Off(parser.FEAT_MODULE).Off(parser.FEAT_STRICT).Off(parser.FEAT_GLOBAL_ASYNC).Off(parser.FEAT_IMPORT_DEC).Off(parser.FEAT_EXPORT_DEC)
	},
	"noasync": func(f parser.Feature) parser.Feature { return f.Off(parser.FEAT_ASYNC_AWAIT) },
	"ts":      func(f parser.Feature) parser.Feature { return f.On(parser.FEAT_TS).Off(parser.FEAT_JSX) },
	"tsx":     func(f parser.Feature) parser.Feature { return f.On(parser.FEAT_TS).On(parser.FEAT_JSX) },
	"dts":     func(f parser.Feature) parser.Feature { return f.On(parser.FEAT_TS).On(parser.FEAT_DTS).Off(parser.FEAT_JSX) },
}

func newOpts(mode string) *parser.ParserOpts {
	o := parser.NewParserOpts()
	o.Externals = []string{"ext"}
	o.Feature = modes[mode](o.Feature)
	return o
}

type part struct{ name, text string }

func guarded(name string, f func() string) (p part) {
	p.name = name
	defer func() {
		if x := recover(); x != nil {
			p.text = fmt.Sprint("panic: ", x)
		}
	}()
	p.text = f()
	return
}

func dumpScope(b *strings.Builder, s *parser.Scope, depth int) {
	rng := span.Range{}
	if s.Node != nil && depth > 0 {
		rng = s.Node.Range()
	}
	fmt.Fprintf(b, "%*s#%d %x %v labels=%d exports=%d", depth, "", s.Id, s.Kind, rng, len(s.Labels), len(s.Exports))
	var ns []string
	for n, r := range s.Refs {
		if r == nil {
			continue
		}
		dec := span.Range{}
		if r.Dec != nil {
			dec = r.Dec.Range()
		}
		at := uint32(0)
		if r.Id != nil {
			at = r.Id.Range().Lo
		}
		ns = append(ns, fmt.Sprintf("%s:%d:%x@%d%v", n, r.BindKind, r.Typ, at, dec))
	}
	sort.Strings(ns)
	fmt.Fprintln(b, ns)
	if s.Head != nil {
		dumpScope(b, s.Head, depth+2)
	}
	for _, d := range s.Down {
		dumpScope(b, d, depth+1)
	}
}

// eval derives everything from one program; a parser may be given to be set up again
func eval(q prog, o *parser.ParserOpts, reuse *parser.Parser) []part {
	before, _ := json.Marshal(o)
	text := string(append([]byte{}, q.Src...))
	var out []part
	var p *parser.Parser
	var ast parser.Node
	s := span.NewSource("", q.Src)
	out = append(out, guarded("tree", func() string {
		if p = reuse; p == nil {
			p = parser.NewParser(s, o)
		} else {
			p.Setup(s, o)
		}
		n, err := p.Prog()
		if err != nil {
			return "error: " + err.Error()
		}
		ast = n
		var b bytes.Buffer
		if err := json.NewEncoder(&b).Encode(estree.ConvertProg(n.(*parser.Prog), estree.NewConvertCtx(p))); err != nil {
			return "json: " + err.Error()
		}
		return b.String()
	}))
	if ast != nil {
		out = append(out, guarded("symbol table", func() string {
			var b strings.Builder
			dumpScope(&b, p.Symtab().Root, 0)
			return b.String()
		}))
		var fns []parser.Node
		out = append(out, guarded("walk", func() string {
			var b strings.Builder
			ctx := walk.NewWalkCtx(ast, p.Symtab())
			walk.AddBeforeListener(&ctx.Listeners, &walk.Listener{Id: "b", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
				fmt.Fprintf(&b, "%d%v%s#%d ", n.Type(), n.Range(), key, vc.ScopeId())
				if t := n.Type(); t == parser.N_STMT_FN || t == parser.N_EXPR_FN || t == parser.N_EXPR_ARROW {
					fns = append(fns, n)
				}
				if c := p.PrevCmts(n); len(c) > 0 {
					fmt.Fprintf(&b, "prev%v", c)
				}
				if c := p.PostCmts(n); len(c) > 0 {
					fmt.Fprintf(&b, "post%v", c)
				}
			}})
			walk.AddAfterListener(&ctx.Listeners, &walk.Listener{Id: "a", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) { b.WriteByte(')') }})
			walk.VisitNode(ast, "", ctx.VisitorCtx())
			return b.String()
		}))
		out = append(out, guarded("control flow graph", func() string {
			a := analysis.NewAnalysis(ast, p.Symtab(), s)
			a.Analyze()
			b := a.Graph().Dot()
			for _, f := range fns {
				if g := a.AnalysisCtx().GraphOf(f); g != nil {
					b += g.Dot()
				}
			}
			return b
		}))
	}
	after, _ := json.Marshal(o)
	if string(before) != string(after) {
		out = append(out, part{"options", "changed by the parse: " + string(after)})
	}
	if q.Src != text {
		out = append(out, part{"source", "changed by the parse"})
	}
	return out
}

func sum(ps []part) map[string]string {
	m := map[string]string{}
	for _, p := range ps {
		h := sha256.Sum256([]byte(p.text))
		m[p.name] = hex.EncodeToString(h[:8])
	}
	return m
}

func diff(a, b map[string]string) string {
	for k := range a {
		if a[k] != b[k] {
			return k
		}
	}
	for k := range b {
		if a[k] != b[k] {
			return k
		}
	}
	return ""
}

type violation struct{ Key, Why string }
type report struct {
	Evals, Points, Schedules int64
	Violations               []violation
}

func main() {
	var in struct {
		Progs []prog
		Base  []map[string]string
		Heads []int // programs that are suspended
		Subs  []int // programs that run meanwhile
		Shard, Shards, Two int
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		panic(err)
	}
	rep := &report{}
	bad := func(key, why string) {
		if len(rep.Violations) < 20 {
			rep.Violations = append(rep.Violations, violation{key, why})
		}
	}
	opts := map[string]*parser.ParserOpts{}
	for m := range modes {
		opts[m] = newOpts(m)
	}
	ps := in.Progs
	name := func(i int) string { return ps[i].Mode + "|" + ps[i].Src }
	check := func(i int, got map[string]string, how string) {
		rep.Evals++
		if d := diff(in.Base[i], got); d != "" {
			bad(how+name(i), d+" differs from that of the program on its own")
		}
	}
	switch os.Args[1] {
	case "digest": // each program in a fresh process
		json.NewEncoder(os.Stdout).Encode(sum(eval(ps[0], newOpts(ps[0].Mode), nil)))
		return
	case "text":
		for _, p := range eval(ps[0], newOpts(ps[0].Mode), nil) {
			fmt.Printf("== %s\n%s\n", p.name, p.text)
		}
		return
	case "pairs": // all ordered pairs i, j adjacent in one process with shared options, with new and with reused parsers
		for i := range ps {
			if i%in.Shards != in.Shard {
				continue
			}
			for j := range ps {
				eval(ps[i], opts[ps[i].Mode], nil)
				check(j, sum(eval(ps[j], opts[ps[j].Mode], nil)), "after "+name(i)+" -> ")
				if in.Two > 0 {
					p := &parser.Parser{}
					eval(ps[i], opts[ps[i].Mode], p)
					check(j, sum(eval(ps[j], opts[ps[j].Mode], p)), "on the parser used for "+name(i)+" -> ")
				}
			}
		}
	case "interleave": // suspend i at each point, run j to its end, resume i
		n := 0
		for _, i := range in.Heads {
			pts := 0
			vhook.F = func() { pts++ }
			eval(ps[i], opts[ps[i].Mode], nil)
			vhook.F = nil
			for _, j := range in.Subs {
				n++
				if n%in.Shards != in.Shard {
					continue
				}
				for k := 1; k <= pts; k++ {
					at := 0
					var inner map[string]string
					vhook.F = func() {
						at++
						if at == k {
							f := vhook.F
							vhook.F = nil
							inner = sum(eval(ps[j], opts[ps[j].Mode], nil))
							vhook.F = f
						}
					}
					got := sum(eval(ps[i], opts[ps[i].Mode], nil))
					vhook.F = nil
					rep.Schedules++
					rep.Points += int64(at)
					check(i, got, fmt.Sprintf("suspended at point %d for %s -> ", k, name(j)))
					if inner != nil {
						check(j, inner, fmt.Sprintf("while %s is suspended at point %d -> ", name(i), k))
					}
				}
			}
		}
	case "race": // two at a time, in a race build
		n := 0
		for _, i := range in.Heads {
			for _, j := range in.Subs {
				n++
				if n%in.Shards != in.Shard {
					continue
				}
				os.WriteFile(os.Args[2], []byte(name(i)+" with "+name(j)), 0644)
				var wg sync.WaitGroup
				res := make([]map[string]string, 2)
				for k, x := range []int{i, j} {
					wg.Add(1)
					go func(k, x int) {
						defer wg.Done()
						res[k] = sum(eval(ps[x], opts[ps[x].Mode], nil))
					}(k, x)
				}
				wg.Wait()
				rep.Schedules++
				check(i, res[0], "concurrently with "+name(j)+" -> ")
				check(j, res[1], "concurrently with "+name(i)+" -> ")
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

package main

// C11: histories and interleavings of evaluations, on a build with a hook at every function entry.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

var purePkgs = []string{"ecma/parser", "ecma/estree", "ecma/walk", "ecma/analysis", "span"}

// hookEntries inserts a call of the hook at the start of every function body
func hookEntries(path, out string) error {
	src, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	fs := token.NewFileSet()
	f, err := goparser.ParseFile(fs, path, src, goparser.SkipObjectResolution)
	if err != nil {
		return err
	}
	var at []int
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Name.Name == "init" && x.Recv == nil {
				return false
			}
			b = x.Body
			if b != nil && len(b.List) < 2 { // accessors
				return true
			}
		case *ast.FuncLit:
			b = x.Body
		case *ast.ForStmt:
			b = x.Body
		case *ast.RangeStmt:
			b = x.Body
		}
		if b != nil {
			at = append(at, fs.Position(b.Lbrace).Offset+1)
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	at = append(at, fs.Position(f.Name.End()).Offset)
	sort.Ints(at)
	var b bytes.Buffer
	last := 0
	for i, o := range at {
		b.Write(src[last:o])
		if i == 0 {
			b.WriteString("; import vhook__ \"github.com/hsiaosiyuan0/mole/vhook\"")
		} else {
			b.WriteString(" vhook__.P(); ")
		}
		last = o
	}
	b.Write(src[last:])
	return os.WriteFile(out, b.Bytes(), 0644)
}

func buildPure(work string, race bool) (string, error) {
	od := filepath.Join(work, "pov")
	os.MkdirAll(od, 0755)
	rep := map[string]string{filepath.Join(repoDir, "vhook", "vhook.go"): filepath.Join(verifDir(), "mc", "vhook", "vhook.go")}
	if !race {
		for _, p := range purePkgs {
			fs, _ := filepath.Glob(filepath.Join(repoDir, p, "*.go"))
			for _, f := range fs {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				o := filepath.Join(od, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "_"))
				if err := hookEntries(f, o); err != nil {
					return "", err
				}
				if _, err := os.Stat(o); err == nil {
					rep[f] = o
				}
			}
		}
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(work, fmt.Sprintf("pure%v.json", race))
	if err := os.WriteFile(of, ob, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(work, fmt.Sprintf("pure-%v", race))
	args := []string{"build", "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./pure")...)
	cmd.Dir = filepath.Join(verifDir(), "mc")
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the hooked harness: %v\n%s", err, o)
	}
	return bin, nil
}

type pureProg struct{ Mode, Src string }

// purePrograms: every template of the grammars (default fillers), in every mode that applies, and
// malformed variants of them
func purePrograms(c *Ctx) (all []pureProg, heads, subs []int) {
	dd := newDedup()
	add := func(mode, src string) int {
		if !dd.fresh(mode + "|" + src) {
			return -1
		}
		all = append(all, pureProg{mode, src})
		return len(all) - 1
	}
	for _, l := range pureHand {
		for _, m := range strings.Fields(l[0]) {
			i := add(m, l[1])
			if i >= 0 {
				heads = append(heads, i)
			}
		}
	}
	for i, h := range heads {
		if i%c.Pick(12, 1) == 0 {
			subs = append(subs, h)
		}
	}
	n := 0
	step := c.Pick(4, 1)
	put := func(g grammar, cat, mode, wrap string, cut bool) {
		g.chains(cat, 0, func(ts []string) bool {
			n++
			if n%step != 0 {
				return true
			}
			if wrap != "" {
				ts = mkTmpl(wrap).fill(map[int][]string{0: ts})
			}
			add(mode, joinToks(ts))
			if cut && len(ts) > 2 { // stops inside of the construct
				add(mode, joinToks(ts[:len(ts)/2]))
			}
			return true
		})
	}
	put(jsGram, "%S", "module", "", true)
	put(jsGram, "%S", "script", "", false)
	put(jsGram, "%E", "module", "%E ;", true)
	put(jsGram, "%M", "module", "class A { %M }", true)
	put(jsGram, "%K", "script", "( { %K } )", false)
	put(jsxGram, "%S", "module", "", true)
	put(tsGram, "%S", "ts", "", true)
	put(tsGram, "%T", "tsx", "let x : %T ;", true)
	put(tsGram, "%S", "dts", "", false)
	return
}


// programs whose evaluations are interleaved
var pureHand = [][2]string{
	{"module", `import a, { b as c } from "m"; export { c as d }; export default function f(x = 1, { y }) { return a + y }`},
	{"module script", `for (let i = 0, j; i < 3; i++) { if (i) continue; else break; }`},
	{"module", `class A extends B { #p = 1; static { this.#p; } get x() { return super.x } async *[k]() { yield* a; } }`},
	{"script", `var yield_, let_ = 010; with (a) { l: do { break l } while (b) } function x() {} if (a) function x() {}`},
	{"module noasync", `a = async (x) => { await x }; async function f() { for await (const z of y) ; }`},
	{"module", "x = `a${b}c${`d${e}`}` + tag`\\u{41}\\x`; y = /[/]\\/(a|b)+/gi.test(\"\\u0041\\n\")"},
	{"module", `x = <a b="c" {...d} e={<f/>}>t&amp;u{g}{/* c */}<></></a>`},
	{"module", `try { throw a ?? b } catch ({ c, ...d }) { switch (c) { case 1: d; default: e } } finally { f?.[g]?.() }`},
	{"module", `({ a, b: [c = 1, ...d], ["e"]: f, get g() { return 1 }, async *h() {} }); [a, { b }] = c; (a, b) => ({})`},
	{"ts tsx", `interface A<T extends keyof B = C> extends D { (x: number): string; readonly [k: string]: any; m?(): void } type E = A<B>["x"] | { [K in keyof F]?: F[K] } & (new () => G) | infer_`},
	{"ts", `enum A { B = 1, C = B << 2 } namespace N.M { export const x: number = <any>y as unknown as string; } declare module "m" { function f(a?: B): asserts a is C; } abstract class D<T> implements E { constructor(private readonly x: T, @dec y?) { super() } abstract z: string }`},
	{"ts tsx", `const f = async <T,>(x: T, ...y: U[]): Promise<T> => x!; g<A<B>>(c); h = a < b; import type { X } from "y"; export type { X }; let u: unique symbol, v: [a?: B, ...c: D[]]`},
	{"dts", `declare function f(x: number): string; declare const a: A.B<C>; export = a;`},
	{"module", `/* a */ b // c
--> d`},
	{"module script", `let a; let a;`},
	{"module script", `a = { b: c`},
	{"module", `return 1`},
	{"ts", `let x: = 1`},
	{"module", `class A { constructor() {} constructor() {} }`},
	{"module", `x = <a></b>`},
	{"module", "`a${"},
}

func pureRun(c *Ctx) {
	work, err := os.MkdirTemp("", "pure-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(work)
	bin, err := buildPure(work, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	progs, heads, subs := purePrograms(c)
	type input struct {
		Progs              []pureProg
		Base               []map[string]string
		Heads, Subs        []int
		Shard, Shards, Two int
	}
	call := func(bin, what string, in input, extra ...string) ([]byte, string, error) {
		b, _ := json.Marshal(in)
		ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(time.Duration(c.Pick(600, 7200))*time.Second))
		if what == "digest" {
			ctx, cancel = context.WithTimeout(context.Background(), 30*time.Second)
		}
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, append([]string{what}, extra...)...)
		cmd.Stdin = bytes.NewReader(b)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		o, err := cmd.Output()
		return o, eb.String(), err
	}
	base := make([]map[string]string, len(progs))
	par(c, len(progs), func(sl *slot, i int) {
		it := pureProg{progs[i].Mode, progs[i].Src}
		for n := 0; n < 2; n++ {
			o, eb, err := call(bin, "digest", input{Progs: []pureProg{it}})
			if err != nil {
				// a crash of the evaluation itself is the subject of other properties
				fmt.Fprintf(os.Stderr, "pure: %q %v %s\n", it, err, eb)
				os.Exit(3)
			}
			var m map[string]string
			json.Unmarshal(o, &m)
			if m["options"] != "" || m["source"] != "" {
				c.Violate("effects|"+it.Mode+"|"+it.Src, "the parse changes its options or the source text", it)
				delete(m, "options")
				delete(m, "source")
			}
			if n == 0 {
				base[i] = m
			} else if d := mapDiff(base[i], m); d != "" {
				c.Violate("repeat|"+it.Mode+"|"+it.Src, "two runs of the program give a different "+d, it)
			}
		}
	})
	for i, p := range progs {
		if i&(i-1) == 0 {
			c.Sample(p.Mode + "|" + p.Src)
		}
	}
	c.Add("programs", int64(len(progs)))
	if c.TooMany() {
		return
	}
	shards := 4 * c.Workers
	stage := func(bin, what string) {
		var wg sync.WaitGroup
		sem := make(chan bool, c.Workers)
		for s := 0; s < shards; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				if c.TooMany() {
					return
				}
				cur := filepath.Join(work, fmt.Sprintf("cur%d", s))
				o, eb, err := call(bin, what, input{progs, base, heads, subs, s, shards, 1}, cur)
				if err != nil {
					if strings.Contains(eb, "DATA RACE") || strings.Contains(eb, "concurrent map") {
						k, _ := os.ReadFile(cur)
						c.Violate("race|"+string(k), "two evaluations share state: "+raceSummary(eb), map[string]string{"programs": string(k), "report": eb})
						return
					}
					fmt.Fprintln(os.Stderr, "pure:", what, err, eb)
					os.Exit(3)
				}
				var r struct {
					Evals, Points, Schedules int64
					Violations               []struct{ Key, Why string }
				}
				if json.Unmarshal(o, &r) != nil {
					fmt.Fprintln(os.Stderr, "pure: no report")
					os.Exit(3)
				}
				c.Add(what+"_evaluations_compared", r.Evals)
				c.Add("states", r.Evals)
				c.Add("transitions", r.Evals+r.Points)
				if r.Schedules > 0 {
					c.Add(what+"_schedules", r.Schedules)
				}
				c.Add("traces_validated_against_impl", r.Evals)
				for _, v := range r.Violations {
					c.Violate(what+"|"+v.Key, v.Why, v)
				}
			}(s)
		}
		wg.Wait()
	}
	stage(bin, "pairs")
	stage(bin, "interleave")
	if rb, err := buildPure(work, true); err == nil {
		stage(rb, "race")
	} else {
		fmt.Println("note: the race build is not available:", err)
	}
}

func mapDiff(a, b map[string]string) string {
	for k := range a {
		if a[k] != b[k] {
			return k
		}
	}
	for k := range b {
		if a[k] != b[k] {
			return k
		}
	}
	return ""
}

func init() {
	register(&Check{ID: "C11", Level: "model_checking", Run: func(c *Ctx) {
		c.Rule("tree, error, symbol table, walk and control-flow graph of every program equal those of the program alone in a fresh process: after every other program (all ordered pairs, shared options, new and reused parser), and while every program of the interleaving set is suspended at each function entry and loop iteration of its evaluation (all schedules with one preemption); the same pairs run in parallel in a race build")
		c.Assume("suspension points are function entries (accessors excepted) and loop iterations; one preemption per pair")
		pureRun(c)
	}})
}

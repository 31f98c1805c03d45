package main

import (
	"os"
	"strings"
)

var jsGram = loadGrammar("js.tmpl")
var jsxGram = loadGrammar("jsx.tmpl")

// jsxSpace: compositions of the JSX templates and all concatenations of JSX tokens
func jsxSpace(c *Ctx, depth int, modes []string, emit func(item) bool) bool {
	all := func(s string) bool {
		for _, m := range modes {
			if !emit(item{m, s}) {
				return false
			}
		}
		return true
	}
	if wantTheme("jsxcomp") && !jsxGram.chains("%S", depth, func(ts []string) bool { return all(joinToks(ts)) }) {
		return false
	}
	if wantTheme("jsxpairs") {
		for _, cat := range []string{"%J", "%S"} {
			if !jsxGram.pairs(cat, nil, func(ts []string) bool { return all(joinToks(ts)) }) {
				return false
			}
		}
	}
	for _, a := range loadAlph("jsx_alph.txt") {
		if wantTheme(a.name) && !seqs(a.toks, c.Pick(a.q, a.t), func(ts []string) bool { return all(strings.Join(ts, "")) }) {
			return false
		}
	}
	return true
}

// wrappers give every statement-level program another static context
var jsContexts = []string{
	"%S",
	"async function w ( ) { %S }",
	"function * w ( ) { %S }",
	"class W { constructor ( ) { %S } }",
	"class W extends a { m ( ) { %S } static { %S } }",
	"for ( ; ; ) { %S }",
	"function w ( ) { %S }",
	"( ) => { %S }",
	"L : for ( ; ; ) { %S }",
	"switch ( a ) { case b : %S }",
}

func themes() map[string]bool {
	if v := os.Getenv("MC_THEME"); v != "" {
		m := map[string]bool{}
		for _, s := range strings.Split(v, ",") {
			m[s] = true
		}
		return m
	}
	return nil
}

func wantTheme(n string) bool {
	t := themes()
	return t == nil || t[n]
}

// jsSeqs: all token sequences over the thematic alphabets
func jsSeqs(c *Ctx, modes []string, emit func(item) bool) bool {
	for _, a := range loadAlph("alph.txt") {
		if !wantTheme(a.name) {
			continue
		}
		n := c.Pick(a.q, a.t)
		if !seqs(a.toks, n, func(ts []string) bool {
			s := joinToks(ts)
			for _, m := range modes {
				if !emit(item{m, s}) {
					return false
				}
			}
			return true
		}) {
			return false
		}
	}
	return true
}

// jsComp: template compositions
func jsComp(c *Ctx, depth int, modes []string, emit func(item) bool) bool {
	if !wantTheme("comp") {
		return true
	}
	for _, cat := range []string{"%S", "%E", "%K", "%M", "%P"} {
		if !jsGram.chains(cat, depth, func(ts []string) bool {
			if cat != "%S" {
				ts = jsWrap(cat, ts)
			}
			s := joinToks(ts)
			for _, m := range modes {
				if !emit(item{m, s}) {
					return false
				}
			}
			return true
		}) {
			return false
		}
	}
	return true
}

func jsCtx(c *Ctx, depth int, modes []string, emit func(item) bool) bool {
	if !wantTheme("ctx") {
		return true
	}
	for _, w := range jsContexts[1:] {
		t := mkTmpl(w)
		for hi, idx := range t.holes {
			if !jsGram.chains(t.toks[idx], depth, func(ts []string) bool {
				s := joinToks(t.fill(map[int][]string{hi: ts}))
				for _, m := range modes {
					if !emit(item{m, s}) {
						return false
					}
				}
				return true
			}) {
				return false
			}
		}
	}
	return true
}

func jsPairs(c *Ctx, modes []string, emit func(item) bool) bool {
	if !wantTheme("pairs") {
		return true
	}
	for _, cat := range []string{"%E", "%K", "%M", "%P", "%S"} {
		if !jsGram.pairs(cat, jsCore, func(ts []string) bool {
			if cat != "%S" {
				ts = jsWrap(cat, ts)
			}
			s := joinToks(ts)
			for _, m := range modes {
				if !emit(item{m, s}) {
					return false
				}
			}
			return true
		}) {
			return false
		}
	}
	return true
}

func jsWrap(cat string, ts []string) []string {
	w := map[string]string{"%E": "%E ;", "%K": "( { %K } )", "%M": "class A { %M }", "%P": "var %P = a ;"}[cat]
	return mkTmpl(w).fill(map[int][]string{0: ts})
}

var jsCore = func() map[string][]*tmpl {
	core := map[string][]*tmpl{}
	mk := func(cat string, ls ...string) {
		for _, l := range ls {
			core[cat] = append(core[cat], mkTmpl(l))
		}
	}
	mk("%E", "a", "1", "( %E )", "[ %E ]", "{ %K }", "%E . b", "%E ( )", "%E ?. b", "new %E", "%E ++", "- %E", "await %E", "yield %E", "%E ** %E", "%E * %E", "%E + %E", "%E < %E", "%E in %E", "%E && %E", "%E ?? %E", "%E ? %E : %E", "%E = %E", "x => %E", "function ( ) { }", "class { }", "[ a ] = b", "%E , %E")
	mk("%P", "x", "y", "[ x ]", "{ y }", "{ a : z }", "[ x = a ]", "[ ... z ]")
	mk("%S", ";", "a", "a ;", "{ }", "var x ;", "let x ;", "function x ( ) { }", "class x { }", "if ( a ) ;", "if ( a ) ; else ;", "break ;", "return", "for ( ; ; ) ;", "do ; while ( a )", "x : ;", "x => a", "( a )", "[ a ]", "/ a / g", "++ a", "`t`", "async", "import x from \"m\" ;", "export default a ;", "export { x } ;", "export let x ;")
	return core
}()

// tokens that single-token mutations insert or substitute
var jsMutToks = strings.Fields("a 1 \"s\" ( ) { } [ ] ; , . : ? ?. => = + * ** - / ! ++ ... #p `t` async await yield let const var function class static get of in new this super import export default return break case else for if while delete typeof null \n")

// jsMut: every single-token mutation of every template (holes filled), at the given nesting
func jsMut(c *Ctx, depth int, modes []string, emit func(item) bool) bool {
	if !wantTheme("mut") {
		return true
	}
	return jsGram.chains("%S", depth, func(ts []string) bool {
		return mutations(ts, jsMutToks, func(m []string) bool {
			s := strings.ReplaceAll(joinToks(m), " \\n ", "\n")
			for _, md := range modes {
				if !emit(item{md, s}) {
					return false
				}
			}
			return true
		})
	})
}

func jsAll(c *Ctx, modes []string, emit func(item) bool) {
	_ = jsComp(c, c.Pick(1, 2), modes, emit) &&
		jsCtx(c, c.Pick(1, 1), modes, emit) &&
		jsPairs(c, modes, emit) &&
		jsMut(c, c.Pick(0, 1), modes, emit) &&
		jsSeqs(c, modes, emit)
}

func oneParse(key string) {
	it := splitKey(key)
	o := parseMode(it.mode, it.src)
	if o.panicMsg != "" {
		return // a recovered panic is reported by the comparison, not as a crash
	}
}

func toolMain(args []string) {}

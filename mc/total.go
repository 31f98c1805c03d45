package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
)

var tsGram = loadGrammar("ts.tmpl")

var locRe = regexp.MustCompile(`\((\d+):(\d+)\)$`)

// lineLens: lengths (in code points) of the lines of s
func lineLens(s string, lsps bool) []int {
	out := []int{}
	n := 0
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		if r == '\r' && i+1 < len(rs) && rs[i+1] == '\n' {
			n++ // the position of the LF still belongs to the line
			continue
		}
		if r == '\n' || r == '\r' || lsps && (r == 0x2028 || r == 0x2029) {
			out = append(out, n)
			n = 0
			continue
		}
		n++
	}
	return append(out, n)
}

func locInside(src, msg string) string {
	m := locRe.FindStringSubmatch(msg)
	if m == nil {
		return "the error carries no location: " + msg
	}
	l, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	ok := func(ls []int) bool { return l >= 1 && l <= len(ls) && col >= 0 && col <= ls[l-1] }
	if ok(lineLens(src, true)) || ok(lineLens(src, false)) {
		return ""
	}
	return "the error is located outside the source: " + msg
}

func isNilNode(n parser.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// totalOne is the property for one input
func totalOne(o *parser.ParserOpts, src string) string {
	r := parseWith(src, o, true)
	if r.panicMsg != "" {
		return "panic: " + r.panicMsg
	}
	if r.err != nil {
		if !isNilNode(r.ast) {
			return "both a tree and an error"
		}
		return locInside(src, r.errMsg)
	}
	if isNilNode(r.ast) {
		return "neither a tree nor an error"
	}
	return ""
}

// junk appended to or inserted into cut texts
var junk = []string{"", "\\", "\"", "'", "`", "${", "/*", "//", "/", "#", "@", "\xff", "\x00", "\u2028", "\ufffd", "}", ")", "]", "<", "=", "\\u", "\\u{", "0x", "\n", "é"}

var totalChars = []string{"a", "0", "1", "9", "e", "x", "n", "u", "_", "$", ".", ",", ";", ":", "?", "!", "(", ")", "[", "]", "{", "}", "<", ">", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "\\", "\"", "'", "`", "#", "@", " ", "\n", "\r", "\t", "\u2028", "\u00a0", "é", "\U0001F600", "\ufffd", "\xff", "\xc3", "\x00", "\ufeff"}

func totalModes() map[string][]string {
	return map[string][]string{
		"js":  {"module", "script", "tsx"},
		"jsx": {"module+jsxns", "tsx", "nojsx"},
		"ts":  {"ts", "tsx", "dts", "module"},
	}
}

func totalSpace(c *Ctx, emit func(item) bool) {
	all := func(ms []string, s string) bool {
		for _, m := range ms {
			if !emit(item{m, s}) {
				return false
			}
		}
		return true
	}
	tm := totalModes()
	if wantTheme("chars") {
		if !seqs(totalChars, c.Pick(3, 4), func(ts []string) bool {
			return all([]string{"module", "tsx"}, strings.Join(ts, ""))
		}) {
			return
		}
	}
	for _, g := range []struct {
		n string
		g grammar
	}{{"js", jsGram}, {"jsx", jsxGram}, {"ts", tsGram}} {
		ms := tm[g.n]
		if wantTheme("cuts_" + g.n) {
			// every composition cut after every byte, followed by every kind of junk
			if !g.g.chains("%S", c.Pick(1, 1), func(ts []string) bool {
				s := joinToks(ts)
				js := junk
				if c.Quick() && len(s) > 24 {
					js = junk[:1]
				}
				for i := 1; i <= len(s); i++ {
					for _, j := range js {
						if !all(ms, s[:i]+j) {
							return false
						}
					}
				}
				return true
			}) {
				return
			}
		}
		if wantTheme("comp_" + g.n) {
			d := c.Pick(1, 2)
			if !g.g.chains("%S", d, func(ts []string) bool { return all(ms, joinToks(ts)) }) {
				return
			}
		}
		if wantTheme("mut_" + g.n) {
			if !g.g.chains("%S", c.Pick(0, 1), func(ts []string) bool {
				return mutations(ts, append(append([]string{}, jsMutToks...), "<", ">", "as", "is", "type", "enum", "interface", "declare", "abstract", "</", "@"), func(m []string) bool {
					return all(ms, joinToks(m))
				})
			}) {
				return
			}
		}
	}
	for _, f := range []string{"alph.txt", "ts_alph.txt", "jsx_alph.txt"} {
		ms := []string{"ts", "tsx"}
		sep := f != "jsx_alph.txt"
		if !sep {
			ms = []string{"module", "tsx"}
		}
		for _, a := range loadAlph(f) {
			if !wantTheme(a.name) {
				continue
			}
			n := c.Pick(a.q-1, a.t-1)
			if f == "ts_alph.txt" {
				n++
			}
			if !seqs(a.toks, n, func(ts []string) bool {
				if sep {
					return all(ms, joinToks(ts))
				}
				return all(ms, strings.Join(ts, ""))
			}) {
				return
			}
		}
	}
	if wantTheme("nest") {
		// deep nesting of every bracketing form, closed, unclosed and half closed
		for _, b := range nestForms {
			for k := 1; k <= c.Pick(40, 120); k++ {
				for _, s := range []string{strings.Repeat(b[0], k) + b[1] + strings.Repeat(b[2], k), strings.Repeat(b[0], k), strings.Repeat(b[0], k) + b[1], strings.Repeat(b[0], k) + b[1] + strings.Repeat(b[2], k/2)} {
					if !all([]string{"module", "script", "ts", "tsx"}, s) {
						return
					}
				}
			}
		}
	}
}

var nestForms = [][3]string{
	{"(", "a", ")"}, {"[", "a", "]"}, {"({a:", "1", "})"}, {"{", ";", "}"}, {"f(", "a", ")"}, {"a[", "b", "]"},
	{"()=>", "a", ""}, {"(x)=>{", "a", "}"}, {"async()=>{", "a", "}"}, {"(x=", "1", ")=>1"}, {"function f(){", ";", "}"}, {"class A{m(){", ";", "}}"},
	{"`${", "a", "}`"}, {"if(a)", ";", ""}, {"if(a){", ";", "}else{}"}, {"for(;;)", ";", ""}, {"a?", "b", ":c"}, {"a?b:", "c", ""}, {"!", "a", ""}, {"-", "a", ""}, {"a+", "a", ""}, {"a**", "a", ""},
	{"new ", "a", ""}, {"a=", "b", ""}, {"[a=", "b", "]"}, {"({a:[", "b", "]})"}, {"<a>", "", "</a>"}, {"<a b={", "1", "}/>"}, {"<a>{", "1", "}</a>"}, {"a.", "b", ""}, {"a?.", "b", ""}, {"a,", "b", ""},
	{"async(", "a", ")"}, {"f<", "T", ">()"}, {"<T>", "a", ""}, {"<T>(", "a", ")"}, {"a<", "b", ">"}, {"a<b>(", "c", ")"}, {"a as ", "T", ""}, {"type A=(", "T", ")"}, {"let x:(", "T", ")"}, {"let x:A<", "T", ">"}, {"let x:{a:", "T", "}"}, {"let x:[", "T", "]"}, {"(x:", "T", ")=>a"}, {"a?(b):", "c", ""}, {"a?(", "b", "):c"}, {"a?(b)=>", "c", ":d"}, {"namespace A{", ";", "}"}, {"/*", "", "*/"}, {"a;", "b", ""}, {"L:", ";", ""},
}

func init() {
	register(&Check{ID: "C01", Level: "model_checking", One: func(k string) {
		it := splitKey(k)
		totalOne(optsFor(it.mode), it.src)
	}, Run: func(c *Ctx) {
		c.Rule(fmt.Sprintf("all character sequences up to the bound over %d characters and malformed bytes; every cut of every composition of the JS/JSX/TS templates followed by every junk kind; all single-token mutations of the templates; all token sequences of the alphabets; nestings of %d forms up to depth 40 (120)", len(totalChars), len(nestForms)))
		c.Assume("an input counts as hanging when it needs more than 40 s")
		goRun(c, func(emit func(item) bool) { totalSpace(c, emit) }, func(sl *slot, it item) {
			if w := totalOne(optsFor(it.mode), it.src); w != "" {
				c.Violate(it.key(), w, map[string]string{"mode": it.mode, "source": it.src, "what": w})
			}
		})
	}})
}

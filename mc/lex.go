package main

import (
	"strings"
)

// joinGap joins tokens, asking gap for the text of every gap (0-based) between two tokens that may be separated.
// It returns the number of gaps.
func joinGap(ts []string, gap func(i int) string) (string, int) {
	var b strings.Builder
	glue := true
	n := 0
	for _, t := range ts {
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "¦") {
			glue = true
			t = t[len("¦"):]
		}
		tail := strings.HasSuffix(t, "¦")
		if tail {
			t = t[:len(t)-len("¦")]
		}
		if t == "" {
			continue
		}
		if !glue {
			b.WriteString(gap(n))
			n++
		}
		glue = tail
		b.WriteString(t)
	}
	return b.String(), n
}

var triviaKinds = []string{
	"\n", "\r", "\r\n", "\u2028", "\u2029",
	"\t", "\v", "\f", "\u00a0", "\ufeff", "\u3000", "  ",
	"/**/", "/*x*/", "/*\n*/", "/*\r*/", "/*\u2028*/", "/***/", "/* * / */", "/*/*/",
	"//\n", "//x\r", "//x\u2028", "// /* \n", "///*\r\n",
	" /**/ /**/ ", "/**/\n", "\n/**/", "/*\n*//**/", "/**///\n", "\n\n", " \r\n\t",
}

// kinds of trivia that are legal without a blank next to them and do not contain LS/PS
var posGaps = []string{"\n", "\r\n", "\r", "\t", " \u00a0 ", "/*é*/", "/*\n*/", " //𠮷\n ", "\ufeff", "  \n\n "}

func noHTMLComment(s string) bool { return !strings.Contains(s, "-->") && !strings.Contains(s, "<!--") }

func emitModes(modes []string, s string, emit func(item) bool) bool {
	if !noHTMLComment(s) {
		return true
	}
	for _, m := range modes {
		if !emit(item{m, s}) {
			return false
		}
	}
	return true
}

// every chain of every category wrapped into a program
func jsProgs(g grammar, depth int, cats []string, f func(ts []string) bool) bool {
	for _, cat := range cats {
		if !g.chains(cat, depth, func(ts []string) bool {
			if cat != "%S" {
				ts = jsWrap(cat, ts)
			}
			return f(ts)
		}) {
			return false
		}
	}
	return true
}

var jsCats = []string{"%S", "%E", "%K", "%M", "%P"}

// rename gives the single-letter names multi-byte spellings
func rename(ts []string) []string {
	out := make([]string, len(ts))
	for i, t := range ts {
		switch t {
		case "a":
			t = "é"
		case "b":
			t = "𠮷"
		case "x":
			t = "名前"
		case "\"s\"":
			t = "\"é𠮷\""
		case "`t`":
			t = "`é\n𠮷`"
		case "L":
			t = "ℒ"
		}
		out[i] = t
	}
	return out
}

func posSpace(c *Ctx, modes []string, emit func(item) bool) bool {
	// uniform gap styles
	ok := jsProgs(jsGram, c.Pick(1, 2), jsCats, func(ts []string) bool {
		for _, g := range posGaps[:c.Pick(4, len(posGaps))] {
			s, _ := joinGap(ts, func(int) string { return g })
			if !emitModes(modes, s, emit) {
				return false
			}
		}
		s, _ := joinGap(rename(ts), func(int) string { return " " })
		if !emitModes(modes, s, emit) {
			return false
		}
		s, _ = joinGap(rename(ts), func(i int) string { return posGaps[i%len(posGaps)] })
		return emitModes(modes, s, emit)
	})
	if !ok {
		return false
	}
	// one special gap, also in front of and behind the program
	ok = jsProgs(jsGram, c.Pick(0, 1), jsCats, func(ts []string) bool {
		base, n := joinGap(ts, func(int) string { return " " })
		for _, g := range posGaps {
			for i := 0; i < n; i++ {
				s, _ := joinGap(ts, func(k int) string {
					if k == i {
						return g
					}
					return " "
				})
				if !emitModes(modes, s, emit) {
					return false
				}
			}
			if !emitModes(modes, g+base, emit) || !emitModes(modes, base+g, emit) {
				return false
			}
		}
		return true
	})
	if !ok {
		return false
	}
	// JSX: token texts are joined as in the markup, the renaming puts multi-byte text into them
	return jsxGram.chains("%S", c.Pick(1, 2), func(ts []string) bool {
		s := joinToks(ts)
		return emitModes(modes, s, emit) && emitModes(modes, strings.ReplaceAll(joinToks(rename(ts)), "𠮷", "ß"), emit) && emitModes(modes, "/*é*/\n"+strings.ReplaceAll(s, " ", "\n"), emit)
	})
}

func triviaSpace(c *Ctx, modes []string, emit func(item) bool) bool {
	single := func(ts []string) bool {
		base, n := joinGap(ts, func(int) string { return " " })
		for _, g := range triviaKinds {
			for i := 0; i < n; i++ {
				s, _ := joinGap(ts, func(k int) string {
					if k == i {
						return g
					}
					return " "
				})
				if !emitModes(modes, s, emit) {
					return false
				}
			}
			if !emitModes(modes, g+base, emit) || !emitModes(modes, base+g, emit) {
				return false
			}
			s, _ := joinGap(ts, func(int) string { return g })
			if !emitModes(modes, s, emit) {
				return false
			}
		}
		return true
	}
	if !jsProgs(jsGram, 0, jsCats, single) {
		return false
	}
	// significant line breaks: every single gap of every depth-1 composition
	br := []string{"\n", "/*\n*/"}
	if !jsProgs(jsGram, 1, jsCats[:c.Pick(2, 5)], func(ts []string) bool {
		_, n := joinGap(ts, func(int) string { return " " })
		for i := 0; i < n; i++ {
			for _, g := range br[:c.Pick(1, 2)] {
				s, _ := joinGap(ts, func(k int) string {
					if k == i {
						return g
					}
					return " "
				})
				if !emitModes(modes[:c.Pick(1, 2)], s, emit) {
					return false
				}
			}
		}
		return true
	}) {
		return false
	}
	// two statements joined by trivia instead of a semicolon
	for _, a := range jsGram["%S"] {
		for _, b := range jsGram["%S"] {
			for _, g := range []string{"\n", "/**/", "/*\n*/"} {
				ta, tb := a.fill(nil), b.fill(nil)
				if ta[len(ta)-1] == ";" {
					ta = ta[:len(ta)-1]
				}
				if !emitModes(modes[:c.Pick(1, 2)], joinToks(ta)+g+joinToks(tb), emit) {
					return false
				}
			}
		}
	}
	// every pair of special gaps of every template
	gs := []string{"\n", "/*\n*/", "//\n", "\u2028"}
	return jsProgs(jsGram, 0, jsCats, func(ts []string) bool {
		_, n := joinGap(ts, func(int) string { return " " })
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				for _, g := range gs {
					for _, h := range gs {
						s, _ := joinGap(ts, func(k int) string {
							if k == i {
								return g
							}
							if k == j {
								return h
							}
							return " "
						})
						if !emitModes(modes, s, emit) {
							return false
						}
					}
				}
			}
		}
		return true
	})
}

type lexSpace struct {
	name string
	wrap []string // %s is the sequence
	toks []string
	q, t int
}

var lexSpaces = []lexSpace{
	{"num", []string{"%s", "- %s ;", "a = %s . b", "[%s]"}, strings.Fields("0 1 7 8 9 . e + - _ n x o b f"), 4, 5},
	{"num2", []string{"%s"}, strings.Fields("0 00 1 08 07 019 . e1 E- _1 _ n 0x 0X 0b 0B 0o 0O f 2 9007199254740993 1e309 .5"), 4, 5},
	{"str", []string{"\"%s\"", "'%s'"}, []string{"\\", "x", "u", "{", "}", "0", "1", "8", "4", "a", "n", "'", "\"", "\n", "\r", "\u2028", "é", "𠮷"}, 4, 5},
	{"str2", []string{"\"%s\""}, []string{`\x41`, `\u0041`, `\u{41}`, `\u{1F600}`, `\uD83D`, `\uDE00`, `\0`, `\1`, `\12`, `\377`, `\400`, `\8`, `\n`, `\b`, `\v`, `\q`, "\\\n", "\\\r\n", "\\\u2028", "\\'", "a", "0", "8", `\u{110000}`, `\u{}`, `\u004`, `\x4`, "\\\\"}, 2, 3},
	{"strdir", []string{"\"%s\" ; \"use strict\" ; a", "function f ( ) { \"%s\" ; \"use strict\" }", "\"use strict\" ; \"%s\""}, []string{`\0`, `\1`, `\8`, `\01`, `\08`, "a", "0", "9"}, 2, 3},
	{"dir", []string{"\"use strict\"%s\nwith(a)b", "function f(){'use strict'%s\nwith(a)b}", "%s\"use strict\"\nwith(a)b"}, []string{"\n", ";", "+1", ".a", "(", ")", "/**/", ",1", "\"a\"", "a", "1"}, 2, 3},
	{"tpl", []string{"`%s`", "a`%s`"}, []string{"\\", "x", "u", "{", "}", "0", "1", "4", "a", "n", "`", "$", "\n", "\r", "${", "\u2028", "é"}, 4, 5},
	{"tpl2", []string{"`%s`", "a`%s`"}, []string{`\x41`, `\u0041`, `\u{41}`, `\u{1F600}`, `\0`, `\1`, `\00`, `\8`, `\n`, "\\\n", "\r\n", "\\\r\n", "\\`", "\\$", "$", "${a}", "${`b`}", "${", "}", "{", "a", `\u{110000}`, `\u{}`, `\u004`, `\x4`, "\\\\", "𠮷"}, 2, 3},
	{"ident", []string{"%s", "a . %s", "( { %s : 1 } )", "class A { #%s }"}, []string{"a", "1", "$", "_", `\u0061`, `\u{61}`, `\u{000061}`, `\u{1D49C}`, `\u{110000}`, `\u{}`, `\u{20}`, `\uD83D`, `\u0030`, `\u00`, `\u{61`, `\x61`, "é", "𝒜", "\u200d", "\u0301", "😀", " ", "\\"}, 3, 4},
	{"regex", []string{"/%s", "a = /%s", "/a%s"}, []string{"a", "/", "[", "]", "\\", "*", "(", ")", "\n", "g", "i", "=", " ", "y", "d", "é", "\u2028"}, 4, 5},
	{"regflag", []string{"/a/%s"}, strings.Fields("d g i m s u y v a 1 . \\u0067 é"), 4, 5},
	{"punct", []string{"a%sb"}, strings.Fields("+ - * / % = < > ! & | ^ ~ ? : . , ; ( ) [ ] { } # @ \\"), 3, 4},
	{"punct2", []string{"a%s1", "a%s.1"}, strings.Fields("+ - * / = < > ! & | ? . ,"), 4, 5},
	{"mixed", []string{"%s"}, []string{"a", "1", ".", "\"", "'", "/", "`", "\\", "0", "x", "n", "\n", "=", "e", "}", "{"}, 4, 5},
}

func lexSpaceGen(c *Ctx, modes []string, emit func(item) bool) bool {
	for _, sp := range lexSpaces {
		if !wantTheme(sp.name) {
			continue
		}
		if !seqs(sp.toks, c.Pick(sp.q, sp.t), func(ts []string) bool {
			body := strings.Join(ts, "")
			for _, w := range sp.wrap {
				if !emitModes(modes, strings.Replace(w, "%s", body, 1), emit) {
					return false
				}
			}
			return true
		}) {
			return false
		}
	}
	return true
}

func init() {
	both := []string{"module", "script"}
	register(&Check{ID: "C04", Level: "model_checking", One: oneParse, Run: func(c *Ctx) {
		c.Rule("all template compositions to the nesting bound, joined by each of the gap styles (uniform), and every single special gap of every template; multi-byte spellings of all names; JSX compositions")
		diffRun(c, "pos", nil, func(emit func(item) bool) { posSpace(c, both, emit) })
	}})
	register(&Check{ID: "C05", Level: "model_checking", One: oneParse, Run: func(c *Ctx) {
		c.Rule("all character/escape sequences up to the bound over each literal alphabet, in each literal context, as module and as script")
		// checking regexp flags is opt-in
		diffRun(c, "value overaccept overreject panic struct", nil, func(emit func(item) bool) {
			lexSpaceGen(c, []string{"module+regflags", "script+regflags"}, emit)
		})
	}})
	register(&Check{ID: "C06", Level: "model_checking", One: oneParse, Run: func(c *Ctx) {
		c.Rule("every gap of every template x every trivia kind; every pair of gaps x line-break kinds; every gap of every composition x line break; every statement pair joined by trivia")
		diffRun(c, "struct overaccept overreject value", nil, func(emit func(item) bool) { triviaSpace(c, both, emit) })
	}})
	register(&Check{ID: "C07", Level: "model_checking", One: oneParse, Run: func(c *Ctx) {
		c.Rule("all JSX template compositions and all concatenations of JSX tokens to the bound, with and without namespace support")
		diffRun(c, "struct value overaccept overreject", nil, func(emit func(item) bool) {
			jsxSpace(c, c.Pick(2, 3), []string{"module", "module+jsxns"}, emit)
		})
	}})
}

package main

import "strings"

// C08: TypeScript compositions against babel's typescript grammar (arbiter: the TypeScript compiler).

// tsOutside names the constructs mole does not support yet, by the token text that makes them up. Programs that contain
// one of them are outside the property ("supported constructs"); leaving them out only narrows what is explored.
// Those that are defects rather than missing features are listed in tsDefects and known findings.
func tsOutside(s string) bool {
	for _, w := range []string{"( readonly ", "- 1 [", "asserts x extends", "asserts x |", "asserts x &", "< C = ", ", C = ", "( abstract new", "=> U ) => ", "D extends T = U"} {
		if strings.Contains(s, w) {
			return true
		}
	}
	// a rest element or a readonly operand that is not visibly an array or tuple
	for i := 0; ; {
		j := strings.Index(s[i:], "... ")
		if j < 0 {
			break
		}
		i += j + 4
		if !strings.HasPrefix(s[i:], "T [ ]") && !strings.HasPrefix(s[i:], "x : T [ ]") {
			return true
		}
		if k := strings.Index(s[i:], " ]"); k > 0 && strings.ContainsAny(s[i:i+k], "|&?") {
			return true
		}
	}
	if i := strings.Index(s, "readonly "); i >= 0 && !strings.HasPrefix(s[i:], "readonly T [ ]") && !strings.HasPrefix(s[i:], "readonly [") && !strings.HasPrefix(s[i:], "readonly x") && !strings.HasPrefix(s[i:], "readonly ,") {
		return true
	}
	// `a?.b!`: the non-null mark inside a chain
	if i := strings.Index(s, "?."); i >= 0 && strings.Contains(s[i:], " !") {
		return true
	}
	// an arrow function or an assertion as the consequent of a conditional expression, an optional tuple
	// member that is a constructor type
	if i := strings.Index(s, "as T ? "); i >= 0 {
		return true
	}
	return strings.Contains(s, "new ") && strings.Contains(s, "? ]")
}

var tsDefects = []string{
	"a ? ( b ) => c : d ;",
	"a ?. b ! ;",
	"[ x as T ] = a ;",
	"let x ! : T ;",
	"type A = ( readonly T [ ] )",
	"type A = T extends ( infer U extends V ) ? U : V",
}

func tsSpace(c *Ctx, depth int, modes []string, emit func(item) bool) bool {
	for _, s := range tsDefects {
		if !emit(item{"ts", s}) {
			return false
		}
	}
	return tsGram.chains("%S", depth, func(ts []string) bool {
		s := joinToks(ts)
		if depth > 1 && tsOutside(s) {
			c.Add("outside_supported_constructs", 1)
			return true
		}
		for _, m := range modes {
			if !emit(item{m, s}) {
				return false
			}
		}
		return true
	})
}

func init() {
	register(&Check{ID: "C08", Level: "model_checking", One: oneParse, Run: func(c *Ctx) {
		c.Rule("all compositions of the TypeScript type, member, statement and expression forms of mc/data/ts.tmpl with at most one expanded hole per level (one level below the statement: every program, as .ts and .tsx; two levels: every program without an unsupported construct, as .ts and, in the thorough tier, .tsx); every program the references accept must be accepted with the same tree, types and modifiers included")
		diffRun(c, "overreject struct value panic", nil, func(emit func(item) bool) {
			if tsSpace(c, 1, []string{"ts", "tsx"}, emit) {
				tsSpace(c, 2, []string{"ts", "tsx"}[:c.Pick(1, 2)], emit)
			}
		})
	}})
}

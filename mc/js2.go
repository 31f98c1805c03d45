package main

import (
	"os"
	"strings"
)

func init() {
	both := []string{"module", "script"}
	register(&Check{ID: "C02", Level: "model_checking", One: oneParse, Run: func(c *Ctx) {
		c.Rule("all token sequences over the thematic alphabets up to the per-alphabet length; all template compositions with at most one expanded hole per level; both module and sloppy-script goal")
		diffRun(c, "overreject struct value", nil, func(emit func(item) bool) { jsAll(c, both, emit) })
	}})
	register(&Check{ID: "C03", Level: "model_checking", One: oneParse, Run: func(c *Ctx) {
		c.Rule("the space of C02 and all single-token mutations of the templates; every program both references reject must be reported as an error")
		diffRun(c, "overaccept panic", nil, func(emit func(item) bool) { jsAll(c, both, emit) })
	}})
	// exploratory: every kind
	register(&Check{ID: "X00", Level: "model_checking", One: oneParse, Run: func(c *Ctx) {
		diffRun(c, os.Getenv("KINDS"), nil, func(emit func(item) bool) {
			modes := both
			if m := os.Getenv("MC_MODES"); m != "" {
				modes = strings.Split(m, ",")
			}
			if f := os.Getenv("MC_FILE"); f != "" {
				b, _ := os.ReadFile(f)
				for _, l := range strings.Split(strings.TrimRight(string(b), "\n"), "\n") {
					for _, m := range modes {
						emit(item{m, strings.ReplaceAll(l, "\\n", "\n")})
					}
				}
				return
			}
			if os.Getenv("MC_TS") != "" {
				tsSpace(c, c.Pick(1, 2), []string{"ts", "tsx"}, emit)
				return
			}
			if strings.HasPrefix(os.Getenv("MC_THEME"), "j") {
				jsxSpace(c, c.Pick(2, 3), []string{"module", "module+jsxns"}, emit)
				return
			}
			jsAll(c, modes, emit)
		})
	}})
}

package main

// C12: every identifier reference of every composed program, resolved through the scope that the
// walker reports for it, against eslint-scope.

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

var scopeGram = loadGrammar("scope.tmpl")

func refKinds(r *parser.Ref) []string {
	var ks []string
	add := func(on bool, k string) {
		if on {
			ks = append(ks, k)
		}
	}
	fn := r.Typ&parser.RDT_FN != 0
	cls := r.Typ&parser.RDT_CLASS != 0
	imp := r.Typ&parser.RDT_IMPORT != 0
	plain := !fn && !cls && !imp
	add(fn, "function")
	add(cls, "class")
	add(imp, "import")
	add(plain && r.BindKind == parser.BK_VAR, "var")
	add(plain && r.BindKind == parser.BK_LET, "let")
	add(plain && r.BindKind == parser.BK_LET, "catch")
	add(plain && r.BindKind == parser.BK_CONST, "const")
	add(plain && r.BindKind == parser.BK_PARAM, "param")
	return ks
}

func resolveAll(o *outcome) (rows [][]interface{}, panicMsg string) {
	defer func() {
		if x := recover(); x != nil {
			panicMsg = fmt.Sprint(x)
		}
	}()
	rows = [][]interface{}{}
	ctx := walk.NewWalkCtx(o.ast, o.p.Symtab())
	walk.AddNodeBeforeListener(&ctx.Listeners, parser.N_NAME, &walk.Listener{
		Id: "mc",
		Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
			id := n.(*parser.Ident)
			name := id.Val()
			row := []interface{}{n.Range().Lo, name, -1, []string{}}
			if ref := vc.Scope().BindingOf(name); ref != nil {
				at := -2
				if ref.Id != nil {
					at = int(ref.Id.Range().Lo)
				}
				row[2], row[3] = at, refKinds(ref)
			}
			rows = append(rows, row)
		},
	})
	walk.VisitNode(o.ast, "", ctx.VisitorCtx())
	return
}

func scopeEnc(buf *bytes.Buffer, it item) {
	o := parseWith(it.src, optsFor(it.mode), false)
	q := map[string]interface{}{"m": it.mode, "s": it.src}
	if o.panicMsg != "" {
		q["p"] = o.panicMsg
	} else if o.errMsg != "" {
		q["e"] = o.errMsg
	} else {
		rows, pm := resolveAll(&o)
		if pm != "" {
			q["p"] = pm
		} else {
			q["r"] = rows
		}
	}
	b, _ := json.Marshal(q)
	buf.Write(b)
	buf.WriteByte('\n')
}

func scopeGen(c *Ctx, emit func(item) bool) {
	modes := []string{"module", "script"}
	all := func(ts []string) bool {
		s := joinToks(ts)
		for _, m := range modes {
			if !emit(item{m, s}) {
				return false
			}
		}
		return true
	}
	old := fillers["%S"]
	fillers["%S"] = []string{"x ;", "x ;", "x ;"}
	defer func() { fillers["%S"] = old }()
	ok := true
	if wantTheme("chains") {
		ok = scopeGram.chains("%S", c.Pick(2, 3), all)
	}
	if ok && wantTheme("pairs") {
		ok = scopeGram.pairs("%S", nil, all)
	}
	fillers["%S"] = old
	if ok {
		_ = jsComp(c, c.Pick(1, 2), modes, emit) && jsPairs(c, modes, emit)
	}
}

func init() {
	register(&Check{ID: "C12", Level: "model_checking",
		Run: func(c *Ctx) {
			c.Rule("every composition of the scope constructs (declaration forms x references x nestings, to the depth) and of the JavaScript templates, module and script; every identifier reference looked up from the scope the walk reports, compared with eslint-scope")
			c.Assume("functions declared in blocks of sloppy code: the additional function-level binding of Annex B is not judged; the heritage of a class is resolved outside of it")
			diffRunEnc(c, "scope", "scope.js", scopeEnc, func(emit func(item) bool) { scopeGen(c, emit) })
		},
		One: func(key string) { scopeEnc(&bytes.Buffer{}, splitKey(key)) }})
}

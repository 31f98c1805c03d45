package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
)

// C10: which syntax each language feature gates, decided on the ESTree of the program.

type featDef struct {
	name string
	bit  parser.Feature
	// uses: the node uses the gated syntax
	uses func(n map[string]interface{}, src string) bool
	// contextual: without the feature the older language may read the same text differently
	older bool
}

func typeIs(n map[string]interface{}, ts ...string) bool {
	t, _ := n["type"].(string)
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func isTrue(n map[string]interface{}, k string) bool { b, _ := n[k].(bool); return b }

func child(n map[string]interface{}, k string) map[string]interface{} {
	m, _ := n[k].(map[string]interface{})
	return m
}

func childIs(n map[string]interface{}, k string, ts ...string) bool {
	m := child(n, k)
	return m != nil && typeIs(m, ts...)
}

func rawOf(n map[string]interface{}, src string) string {
	s, ok1 := n["start"].(float64)
	e, ok2 := n["end"].(float64)
	if !ok1 || !ok2 || int(e) > len(src) || s > e {
		return ""
	}
	return src[int(s):int(e)]
}

func isStr(n map[string]interface{}, k string, vs ...string) bool {
	s, _ := n[k].(string)
	for _, v := range vs {
		if s == v {
			return true
		}
	}
	return false
}

// `...` is one token for the two features: both gate rest and spread
func usesDots(n map[string]interface{}) bool {
	return typeIs(n, "SpreadElement", "RestElement", "JSXSpreadAttribute", "JSXSpreadChild")
}

var featDefs = []featDef{
	{"LET_CONST", parser.FEAT_LET_CONST, func(n map[string]interface{}, s string) bool {
		return typeIs(n, "VariableDeclaration") && isStr(n, "kind", "let", "const")
	}, true},
	{"SPREAD", parser.FEAT_SPREAD, func(n map[string]interface{}, s string) bool { return usesDots(n) }, false},
	{"BINDING_PATTERN", parser.FEAT_BINDING_PATTERN, func(n map[string]interface{}, s string) bool {
		for _, k := range []string{"id", "param"} {
			if childIs(n, k, "ObjectPattern", "ArrayPattern") {
				return true
			}
		}
		ps, _ := n["params"].([]interface{})
		for _, x := range ps {
			if p, _ := x.(map[string]interface{}); p != nil {
				if typeIs(p, "AssignmentPattern") {
					p = child(p, "left")
				} else if typeIs(p, "RestElement") {
					p = child(p, "argument")
				}
				if typeIs(p, "ObjectPattern", "ArrayPattern") {
					return true
				}
			}
		}
		return false
	}, false},
	{"BINDING_REST_ELEM", parser.FEAT_BINDING_REST_ELEM, func(n map[string]interface{}, s string) bool { return usesDots(n) }, false},
	{"BINDING_REST_ELEM_NESTED", parser.FEAT_BINDING_REST_ELEM_NESTED, func(n map[string]interface{}, s string) bool {
		return typeIs(n, "RestElement") && childIs(n, "argument", "ObjectPattern", "ArrayPattern")
	}, false},
	{"META_PROPERTY", parser.FEAT_META_PROPERTY, func(n map[string]interface{}, s string) bool { return typeIs(n, "MetaProperty") }, false},
	{"POW", parser.FEAT_POW, func(n map[string]interface{}, s string) bool { return isStr(n, "operator", "**", "**=") }, false},
	{"ASYNC_AWAIT", parser.FEAT_ASYNC_AWAIT, func(n map[string]interface{}, s string) bool {
		return isTrue(n, "async") || typeIs(n, "AwaitExpression") || isTrue(n, "await")
	}, true},
	{"ASYNC_GENERATOR", parser.FEAT_ASYNC_GENERATOR, func(n map[string]interface{}, s string) bool { return isTrue(n, "async") && isTrue(n, "generator") }, false},
	{"ASYNC_ITERATION", parser.FEAT_ASYNC_ITERATION, func(n map[string]interface{}, s string) bool {
		return typeIs(n, "ForOfStatement") && isTrue(n, "await")
	}, false},
	{"OPT_CATCH_PARAM", parser.FEAT_OPT_CATCH_PARAM, func(n map[string]interface{}, s string) bool { return typeIs(n, "CatchClause") && n["param"] == nil }, false},
	{"CLASS_PRV", parser.FEAT_CLASS_PRV, func(n map[string]interface{}, s string) bool { return typeIs(n, "PrivateIdentifier") }, false},
	{"OPT_EXPR", parser.FEAT_OPT_EXPR, func(n map[string]interface{}, s string) bool { return typeIs(n, "ChainExpression") }, false},
	{"NULLISH", parser.FEAT_NULLISH, func(n map[string]interface{}, s string) bool { return isStr(n, "operator", "??") }, false},
	{"BIGINT", parser.FEAT_BIGINT, func(n map[string]interface{}, s string) bool {
		return typeIs(n, "Literal") && n["bigint"] != nil && n["bigint"] != ""
	}, false},
	{"DYNAMIC_IMPORT", parser.FEAT_DYNAMIC_IMPORT, func(n map[string]interface{}, s string) bool { return typeIs(n, "ImportExpression") }, false},
	{"EXPORT_ALL_AS_NS", parser.FEAT_EXPORT_ALL_AS_NS, func(n map[string]interface{}, s string) bool {
		return typeIs(n, "ExportAllDeclaration") && n["exported"] != nil
	}, false},
	{"NUM_SEP", parser.FEAT_NUM_SEP, func(n map[string]interface{}, s string) bool {
		if !typeIs(n, "Literal") {
			return false
		}
		r := rawOf(n, s)
		return r != "" && (r[0] >= '0' && r[0] <= '9' || r[0] == '.') && strings.Contains(r, "_")
	}, false},
	{"LOGIC_ASSIGN", parser.FEAT_LOGIC_ASSIGN, func(n map[string]interface{}, s string) bool {
		return isStr(n, "operator", "&&=", "||=", "??=")
	}, false},
	{"CLASS_PUB_FIELD", parser.FEAT_CLASS_PUB_FIELD, func(n map[string]interface{}, s string) bool {
		return typeIs(n, "PropertyDefinition") && !childIs(n, "key", "PrivateIdentifier")
	}, false},
	{"CLASS_PRIV_FIELD", parser.FEAT_CLASS_PRIV_FIELD, func(n map[string]interface{}, s string) bool {
		return typeIs(n, "PropertyDefinition") && childIs(n, "key", "PrivateIdentifier")
	}, false},
	{"JSX", parser.FEAT_JSX, func(n map[string]interface{}, s string) bool { return typeIs(n, "JSXElement", "JSXFragment") }, true},
	{"IMPORT_DEC", parser.FEAT_IMPORT_DEC, func(n map[string]interface{}, s string) bool { return typeIs(n, "ImportDeclaration") }, false},
	{"EXPORT_DEC", parser.FEAT_EXPORT_DEC, func(n map[string]interface{}, s string) bool {
		return typeIs(n, "ExportNamedDeclaration", "ExportDefaultDeclaration", "ExportAllDeclaration")
	}, false},
	{"BAD_ESCAPE_IN_TAGGED_TPL", parser.FEAT_BAD_ESCAPE_IN_TAGGED_TPL, func(n map[string]interface{}, s string) bool {
		v := child(n, "value")
		return typeIs(n, "TemplateElement") && v != nil && (v["cooked"] == nil || v["cooked"] == "") && (strings.Contains(fmt.Sprint(v["raw"]), "\\u") || strings.Contains(fmt.Sprint(v["raw"]), "\\x"))
	}, false},
	{"JSON_SUPER_SET", parser.FEAT_JSON_SUPER_SET, func(n map[string]interface{}, s string) bool {
		r := rawOf(n, s)
		return typeIs(n, "Literal") && r != "" && (r[0] == '"' || r[0] == '\'') && (strings.Contains(strings.ReplaceAll(r, "\\\u2028", ""), "\u2028") || strings.Contains(strings.ReplaceAll(r, "\\\u2029", ""), "\u2029"))
	}, false},
	{"JSX_NS", parser.FEAT_JSX_NS, func(n map[string]interface{}, s string) bool { return typeIs(n, "JSXNamespacedName") }, false},
	{"DECORATOR", parser.FEAT_DECORATOR, func(n map[string]interface{}, s string) bool { return typeIs(n, "Decorator") }, false},
}

// usedFeats: the set of features whose syntax occurs in the tree
func usedFeats(js []byte, src string) uint64 {
	var v interface{}
	if json.Unmarshal(js, &v) != nil {
		return 0
	}
	var out uint64
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			if _, ok := x["type"]; ok {
				for i, f := range featDefs {
					if out&(1<<i) == 0 && f.uses(x, src) {
						out |= 1 << i
					}
				}
			}
			for _, c := range x {
				walk(c)
			}
		case []interface{}:
			for _, c := range x {
				walk(c)
			}
		}
	}
	walk(v)
	return out
}

func featOne(mode, src string, only string) (bad []string) {
	def := parseMode(mode, src)
	if def.panicMsg != "" {
		return
	}
	var used uint64
	if def.err == nil {
		used = usedFeats(def.json, src)
	}
	for i, f := range featDefs {
		if only != "" && only != f.name {
			continue
		}
		o := optsFor(mode)
		if o.Feature&f.bit == 0 {
			continue
		}
		o.Feature = o.Feature.Off(f.bit)
		r := parseWith(src, o, true)
		switch {
		case r.panicMsg != "":
			bad = append(bad, f.name+": panic with the feature off: "+r.panicMsg)
		case def.err != nil:
			if r.err == nil && !f.older {
				bad = append(bad, f.name+": accepted only with the feature off, with it: "+def.errMsg)
			}
		case used&(1<<i) != 0:
			if r.err == nil {
				if u := usedFeats(r.json, src); u&(1<<i) != 0 || !f.older {
					bad = append(bad, f.name+": the gated syntax is accepted with the feature off")
				}
			}
		default:
			if r.err != nil {
				bad = append(bad, f.name+": rejected with the feature off though it does not use it: "+r.errMsg)
			} else if !bytes.Equal(r.json, def.json) && !sameTree(r.json, def.json) {
				bad = append(bad, f.name+": another tree with the feature off though it does not use it")
			}
		}
	}
	return
}

func featSpace(c *Ctx, emit func(item) bool) {
	both := func(s string) bool { return emit(item{"module", s}) && emit(item{"script", s}) }
	for _, g := range []grammar{jsGram, jsxGram} {
		for _, cat := range []string{"%S", "%E", "%K", "%M", "%P"} {
			if !g.chains(cat, c.Pick(1, 2), func(ts []string) bool {
				if cat != "%S" {
					ts = jsWrap(cat, ts)
				}
				return both(joinToks(ts))
			}) {
				return
			}
		}
	}
	if !jsxGram.chains("%S", 1, func(ts []string) bool { return emit(item{"module+jsxns", joinToks(ts)}) }) {
		return
	}
	for _, a := range loadAlph("feat_alph.txt") {
		if !seqs(a.toks, c.Pick(a.q, a.t), func(ts []string) bool { return both(joinToks(ts)) }) {
			return
		}
	}
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking", One: func(k string) { it := splitKey(k); featOne(it.mode, it.src, "") }, Run: func(c *Ctx) {
		c.Rule(fmt.Sprintf("every composition of the JS and JSX templates and every token sequence of the feature alphabets, module and script, with each of %d features switched off", len(featDefs)))
		goRun(c, func(emit func(item) bool) { featSpace(c, emit) }, func(sl *slot, it item) {
			for _, b := range featOne(it.mode, it.src, "") {
				c.Violate(it.key()+"|"+strings.SplitN(b, ":", 2)[0], b, map[string]string{"mode": it.mode, "source": it.src, "what": b})
			}
		})
	}})
}

// sameTree compares two ESTrees up to absent/empty attributes
func sameTree(a, b []byte) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(prune(x), prune(y))
}

func prune(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, c := range x {
			c = prune(c)
			if c == nil || c == false || k == "accessibility" && c == "" {
				delete(x, k)
				continue
			}
			if l, ok := c.([]interface{}); ok && len(l) == 0 {
				delete(x, k)
				continue
			}
			x[k] = c
		}
	case []interface{}:
		for i := range x {
			x[i] = prune(x[i])
		}
	}
	return v
}

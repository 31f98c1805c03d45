package main

// C16: every expression built from the supported operators over the atoms below, to
// depth 2, evaluated by the code under test and by node under the same environments.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/exec"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

func evalEnv(idx int) map[string]interface{} {
	if idx == 0 {
		o := map[string]interface{}{"key": 1.0, "a": map[string]interface{}{"b": "x", "key": []interface{}{7.0}}, "1": "one", "f": false, "nil": nil}
		return map[string]interface{}{"n": 3.0, "m": -2.5, "z": 0.0, "s": "key", "e": "", "t": true, "f": false, "u": nil, "o": o,
			"arr": []interface{}{1.0, "2", math.NaN(), nil, o, true}, "ea": []interface{}{}, "i": 2}
	}
	o := map[string]interface{}{"key": "k2", "a": map[string]interface{}{"b": 0.0, "key": []interface{}{}}, "1": true, "f": "", "nil": nil}
	return map[string]interface{}{"n": math.NaN(), "m": 1e21, "z": math.Copysign(0, -1), "s": "1", "e": " 12\n", "t": false, "f": true, "u": nil, "o": o,
		"arr": []interface{}{"key", 0.0, []interface{}{2.0}, nil}, "ea": []interface{}{5.0}, "i": -1}
}

func canonVal(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "u"
	case bool:
		return "b" + strconv.FormatBool(x)
	case float64:
		if x != x {
			return "nNaN"
		}
		return "n" + strconv.FormatUint(math.Float64bits(x), 16)
	case int:
		return canonVal(float64(x))
	case string:
		b, _ := json.Marshal(x)
		return "s" + string(b)
	case []interface{}:
		var p []string
		for _, e := range x {
			p = append(p, canonVal(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = strconv.Quote(k) + ":" + canonVal(x[k])
		}
		return "{" + strings.Join(ks, ",") + "}"
	}
	if reflect.TypeOf(v).Kind() == reflect.Func || reflect.TypeOf(v).String() == "*exec.BuiltinFn" {
		return "f"
	}
	return fmt.Sprintf("?%T", v)
}

type evalAns struct {
	S   string `json:"s"`
	Env int    `json:"env"`
	V   string `json:"v,omitempty"`
	P   string `json:"p,omitempty"`
	X   string `json:"x,omitempty"`
}

// evalRun: evaluates twice on one evaluator (other environment first), so that
// anything an evaluation leaves behind shows in the second result.
func evalRun(src string, idx int) (a evalAns) {
	a.S, a.Env = src, idx
	defer func() {
		if x := recover(); x != nil {
			a.P = fmt.Sprint("panic: ", x)
		}
	}()
	p := parser.NewParser(span.NewSource("", "("+src+"\n)"), parser.NewParserOpts())
	ast, err := p.Prog()
	if err != nil {
		a.P = "parse error " + err.Error()
		return
	}
	body := ast.(*parser.Prog).Body()
	nodes := []parser.Node{ast}
	if es, ok := body[0].(*parser.ExprStmt); ok {
		nodes = append(nodes, parser.UnParen(es.Expr()))
	}
	env, other := evalEnv(idx), evalEnv(1-idx)
	before := canonVal(env)
	for i, n := range nodes {
		ee := exec.NewExprEvaluator(n, p)
		if i == 0 {
			ee.Exec(other)
		}
		r, err := ee.Exec(env).GetResult()
		if err != nil {
			a.P = "error " + err.Error()
			return
		}
		v := canonVal(r)
		if i > 0 && v != a.V {
			a.X = "the program yields " + a.V + ", its expression yields " + v
			return
		}
		a.V = v
		if i == 0 {
			ee.Exec(other)
			r, _ = ee.Exec(env).GetResult()
			if v := canonVal(r); v != a.V {
				a.X = "evaluating again under the same environment yields " + v + " after " + a.V
				return
			}
			r2, _ := ee.GetResult()
			if r2 != nil {
				a.X = "a value is left on the evaluator: " + canonVal(r2)
				return
			}
		}
	}
	if got := canonVal(env); got != before {
		a.X = "the environment was altered: " + got
	}
	return
}

var evalAtoms = strings.Split("0 1 2 0.5 10 1e21 1e-7 0x10 '' 'a' 'b' '1' ' 12 ' '0x1f' '1e3' 'Infinity' 'key' true false null undefined NaN [] [1] [1,2] [,1] [null] [[1],'a'] n m z s e t f u o arr ea i o.key o.a arr[0] o[s] '2' '01' '1_0' '.5' '0b2' '-1'", " ")

var evalBin = strings.Fields("+ - * / % ** < > <= >= == != === !== & | ^ << >> >>> && || ??")
var evalUn = strings.Fields("! - + ~ typeof void !! -- - -")

func init() {
	// atoms with spaces inside quotes were split above; rebuild
	var at []string
	cur := ""
	for _, a := range evalAtoms {
		if cur != "" {
			cur += " " + a
			if strings.HasSuffix(a, "'") {
				at = append(at, cur)
				cur = ""
			}
			continue
		}
		if a == "'" {
			cur = a
			continue
		}
		at = append(at, a)
	}
	evalAtoms = at
	evalUn = []string{"!", "-", "+", "~", "typeof ", "void ", "!!", "- -", "-+", "~~", "!-"}
	register(&Check{ID: "C16", Level: "model_checking",
		Run: func(c *Ctx) {
			c.Rule("every expression (atoms x operators, members, calls, conditionals, sequences, to operator depth 2) evaluated under two environments, each environment after the other on one evaluator; compared bit for bit with node's evaluation")
			c.Assume("null and undefined are one value for the evaluator: expressions whose JavaScript outcome depends on which of them is meant, or that throw, are only checked for not crashing")
			diffRunEnc(c, "value", "eval.js", evalEnc, func(emit func(item) bool) { evalGen(c, emit) })
		},
		One: func(key string) { it := splitKey(key); evalEnc(&bytes.Buffer{}, it) }})
}

func evalEnc(buf *bytes.Buffer, it item) {
	idx, _ := strconv.Atoi(it.mode)
	b, _ := json.Marshal(evalRun(it.src, idx))
	buf.Write(b)
	buf.WriteByte('\n')
}

func evalGen(c *Ctx, emit0 func(item) bool) {
	stop := false
	emit := func(s string) {
		for _, m := range []string{"0", "1"} {
			if !stop && !emit0(item{m, s}) {
				stop = true
			}
		}
	}
	bin := func(a, op, b string) string {
		return a + " " + op + " " + b
	}
	mixes := func(op1, op2 string) bool { // ?? may not be mixed with && || unparenthesised
		return (op1 == "??") != (op2 == "??") && (op1 == "&&" || op1 == "||" || op2 == "&&" || op2 == "||")
	}
	A := evalAtoms
	for _, a := range A {
		emit(a)
		for _, u := range evalUn {
			emit(u + a)
			emit("(" + u + a + ")")
		}
	}
	for _, a := range A {
		for _, b := range A {
			for _, op := range evalBin {
				emit(bin(a, op, b))
			}
			if !strings.HasPrefix(a, "'") && a != "s" && a != "e" && a != "o.key" && a != "arr[0]" && a != "o[s]" {
				emit("(" + a + ")[" + b + "]") // members of strings are not supported by the evaluator
			}
			emit("[" + a + "].includes(" + b + ")")
			emit("[0, " + a + ", 'a'].includes(" + b + ")")
			emit("[" + a + ", " + b + "]")
			emit(a + ", " + b)
			for _, k := range []string{"1", "''", "t", "u"} {
				emit(k + " ? " + a + " : " + b)
				emit(a + " ? " + k + " : " + b)
			}
		}
		for _, o := range []string{"o", "arr", "ea", "u", "n"} {
			emit(o + "[" + a + "]")
			emit(o + "?.[" + a + "]")
			emit(o + ".includes(" + a + ")")
			emit(o + "?.includes(" + a + ")")
		}
	}
	for _, o := range []string{"o", "o.a", "o['a']", "o?.a", "u?.a", "arr[4]", "(o)", "arr[3]", "o.zz", "[o][0]", "(t, o)", "(t && o)", "(f || o)", "(u ?? o)", "(t ? o : u)"} {
		for _, k := range []string{".key", ".a", ".b", ".f", ".nil", ".s", "[s]", "['key']", "['a']", "[1]", "['1']", ".o", ".key.length2", ".a.b", ".a.key[0]", "?.a?.b", "?.[s]"} {
			emit(o + k)
			for _, op := range evalBin {
				emit(bin(o+k, op, "'x'"))
				emit(bin(o, op, "o"))
				emit(bin(o+k, op, "1"))
			}
		}
	}
	// depth 2: (a op b) op c and a op (b op c), and unparenthesised
	R := strings.Split("1 0 'a' '' t u [1]", " ")
	if !c.Quick() {
		R = strings.Split("1 0 2 'a' '' '1' t f u NaN [1] o.key n s", " ")
	}
	for _, o1 := range evalBin {
		for _, o2 := range evalBin {
			for _, a := range R {
				for _, b := range R {
					for _, d := range R {
						if stop {
							return
						}
						if !mixes(o1, o2) {
							emit(bin(bin(a, o1, b), o2, d))
						}
						emit(bin("("+bin(a, o1, b)+")", o2, d))
						emit(bin(a, o1, "("+bin(b, o2, d)+")"))
					}
				}
			}
		}
	}
	for _, u := range evalUn {
		for _, op := range evalBin {
			for _, a := range R {
				for _, b := range R {
					if op != "**" {
						emit(bin(u+a, op, b))
					}
					emit(bin(a, op, u+b))
					emit(u + "(" + bin(a, op, b) + ")")
				}
			}
		}
	}
}

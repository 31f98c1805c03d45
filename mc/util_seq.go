package main

// C19 (sequential part), C20, C23, C24, C25: exhaustive operation sequences and
// inputs against reference models.

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"unicode/utf8"

	"github.com/hsiaosiyuan0/mole/span"
	"github.com/hsiaosiyuan0/mole/util"
)

// par runs f over 0..n-1 on all workers; a panic inside f is reported by f's own guard.
func par(c *Ctx, n int, f func(sl *slot, i int)) {
	ch := make(chan int, 64)
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sl := c.Slot()
			for i := range ch {
				if c.TooMany() || c.Expired() {
					continue
				}
				f(sl, i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// guard runs f and turns a panic into a description
func guard(f func() string) (why string) {
	defer func() {
		if x := recover(); x != nil {
			why = fmt.Sprint("panic: ", x)
		}
	}()
	return f()
}

// ---------------------------------------------------------------- C20

type omModel struct {
	keys []int
	vals map[int]int
}

func omRun(seq []int, nk int) string {
	return guard(func() string {
		om := util.NewOrderedMap[int, int]()
		m := omModel{vals: map[int]int{}}
		del := func(k int) {
			for i, x := range m.keys {
				if x == k {
					m.keys = append(append([]int{}, m.keys[:i]...), m.keys[i+1:]...)
					break
				}
			}
			delete(m.vals, k)
		}
		for step, op := range seq {
			k := op % nk
			if op < nk {
				e := om.Set(k, step+1)
				del(k)
				m.keys = append(m.keys, k)
				m.vals[k] = step + 1
				if e == nil {
					return fmt.Sprintf("step %d: Set returned nil", step)
				}
				if kv, ok := e.Value.(*util.KvPair[int, int]); !ok || kv.Key != k || kv.Val != step+1 {
					return fmt.Sprintf("step %d: Set returned the element of another pair", step)
				}
			} else {
				om.Remove(k)
				del(k)
			}
			for q := 0; q < nk; q++ {
				v, has := m.vals[q]
				if om.HasKey(q) != has || om.Get(q) != v {
					return fmt.Sprintf("step %d: key %d: has=%v get=%v, model has=%v get=%v", step, q, om.HasKey(q), om.Get(q), has, v)
				}
			}
			var got []string
			n := 0
			for e := om.Front(); e != nil; e = e.Next() {
				kv := e.Value.(*util.KvPair[int, int])
				got = append(got, fmt.Sprintf("%d=%d", kv.Key, kv.Val))
				if n++; n > 100 {
					return "iteration does not end"
				}
			}
			var want []string
			for _, k := range m.keys {
				want = append(want, fmt.Sprintf("%d=%d", k, m.vals[k]))
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("step %d: iteration %v, model %v", step, got, want)
			}
		}
		return ""
	})
}

// odometer enumerates all sequences over 0..base-1 of exactly length n
func odometer(base, n int, f func([]int) bool) bool {
	idx := make([]int, n)
	for {
		if !f(idx) {
			return false
		}
		i := n - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < base {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

type jv = interface{}
type jm = map[string]interface{}

func deepCopy(v jv) jv {
	switch x := v.(type) {
	case jm:
		if x == nil {
			return x
		}
		m := jm{}
		for k, e := range x {
			m[k] = deepCopy(e)
		}
		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, e := range x {
			a[i] = deepCopy(e)
		}
		return a
	}
	return v
}

// model of the deep merge: nested maps merge, nil never overwrites, everything else is replaced
func mergeModel(dst, src jm) {
	for k, v := range src {
		dm, ok1 := dst[k].(jm)
		sm, ok2 := v.(jm)
		if ok1 && ok2 {
			mergeModel(dm, sm)
			continue
		}
		if v != nil {
			dst[k] = deepCopy(v)
		}
	}
}

func allMaps(keys []string, vals []jv) []jm {
	out := []jm{{}}
	for _, k := range keys {
		var nx []jm
		for _, m := range out {
			nx = append(nx, m)
			for _, v := range vals {
				c := deepCopy(m).(jm)
				c[k] = deepCopy(v)
				nx = append(nx, c)
			}
		}
		out = nx
	}
	return out
}

func js(v jv) string { b, _ := json.Marshal(v); return string(b) }

func flattenModel(v jv, path string, out jm) {
	join := func(k string) string {
		if path == "" {
			return k
		}
		return path + "." + k
	}
	switch x := v.(type) {
	case jm:
		for k, e := range x {
			flattenModel(e, join(k), out)
		}
	case []interface{}:
		for i, e := range x {
			flattenModel(e, join(fmt.Sprint(i)), out)
		}
	default:
		out[path] = v
	}
}

func init() {
	register(&Check{ID: "C20", Level: "model_checking", Run: func(c *Ctx) {
		c.Rule("OrderedMap: every Set/Remove sequence over 3 (4) keys up to the depth, full observation after each step; helpers: every argument from small complete universes")
		viol := func(part, key, why string) {
			if why != "" {
				c.Violate(part+"|"+key, why, map[string]string{"part": part, "input": key})
			}
		}
		// ordered map
		nk := 3
		depth := c.Pick(7, 9)
		for l := 1; l <= depth; l++ {
			base := 2 * nk
			par(c, base, func(sl *slot, first int) {
				n := int64(0)
				odometer(base, l-1, func(rest []int) bool {
					seq := append([]int{first}, rest...)
					n++
					viol("orderedmap", fmt.Sprint(seq), omRun(seq, nk))
					return !c.TooMany()
				})
				c.Add("states", n)
				c.Add("transitions", n*int64(l))
			})
		}
		c.Sample("orderedmap ops (k<3 Set k, else Remove k-3): [0 1 0 4 2 1 3]")
		// flat generic helpers
		flat := func(keys int) []map[int]int {
			out := []map[int]int{nil}
			odometer(4, keys, func(ix []int) bool {
				m := map[int]int{}
				for k, v := range ix {
					if v > 0 {
						m[k] = v - 1
					}
				}
				out = append(out, m)
				return true
			})
			return out
		}
		cl := func(m map[int]int) map[int]int {
			if m == nil {
				return nil
			}
			o := map[int]int{}
			for k, v := range m {
				o[k] = v
			}
			return o
		}
		maps := flat(3)
		ev := int64(0)
		for _, a := range maps {
			key := fmt.Sprint(a)
			viol("CloneMap", key, guard(func() string {
				in := cl(a)
				o := util.CloneMap(in)
				if len(o) != len(a) || (len(a) > 0 && !reflect.DeepEqual(o, a)) {
					return fmt.Sprint("clone is ", o)
				}
				o[99] = 1
				if !reflect.DeepEqual(in, a) {
					return "clone shares storage"
				}
				return ""
			}))
			viol("Keys", key, guard(func() string {
				in := cl(a)
				ks := util.Keys(in)
				sort.Ints(ks)
				want := []int{}
				for k := range a {
					want = append(want, k)
				}
				sort.Ints(want)
				if fmt.Sprint(ks) != fmt.Sprint(want) || !reflect.DeepEqual(in, a) {
					return fmt.Sprint("keys are ", ks)
				}
				return ""
			}))
			viol("PickOne", key, guard(func() string {
				in := cl(a)
				v := util.PickOne(in)
				k2, v2 := util.PickOnePair(in)
				if !reflect.DeepEqual(in, a) {
					return "PickOne altered its input"
				}
				if len(a) == 0 {
					if v != 0 || v2 != 0 || k2 != 0 {
						return "PickOne of nothing is not the zero value"
					}
					return ""
				}
				ok := false
				for _, x := range a {
					ok = ok || x == v
				}
				if x, has := a[k2]; !ok || !has || x != v2 {
					return fmt.Sprint("picked ", v, k2, v2)
				}
				return ""
			}))
			viol("TakeOne", key, guard(func() string {
				in := cl(a)
				for n := len(a); n > 0; n-- {
					before := cl(in)
					v := util.TakeOne(in)
					if len(in) != n-1 {
						return "TakeOne did not remove exactly one"
					}
					found := false
					for k, x := range before {
						if y, still := in[k]; !still {
							found = x == v
						} else if y != x {
							return "TakeOne changed another entry"
						}
					}
					if !found {
						return "TakeOne returned a value that is not the removed one"
					}
				}
				if v := util.TakeOne(in); v != 0 {
					return "TakeOne of nothing is not the zero value"
				}
				return ""
			}))
			ev += 4
			for _, b := range maps {
				if a == nil {
					continue
				}
				ev++
				viol("Merge", key+" <- "+fmt.Sprint(b), guard(func() string {
					src, st := cl(a), cl(b)
					util.Merge(src, st)
					want := cl(a)
					for k, v := range b {
						if _, ok := want[k]; !ok {
							want[k] = v
						}
					}
					if !reflect.DeepEqual(src, want) || !reflect.DeepEqual(st, b) {
						return fmt.Sprint("result ", src, " stuff ", st)
					}
					return ""
				}))
			}
		}
		// deep merge
		leaf := []jv{nil, 1.0, "s", jm{}, jm{"x": 1.0}, jm{"x": nil}, jm{"x": jm{"z": 1.0}}, jm{"x": jm{"y": 2.0}, "y": 3.0}, []interface{}{1.0}}
		if !c.Quick() {
			leaf = append(leaf, 0.0, "", false, jm{"y": 2.0}, []interface{}{}, jm{"x": jm{"z": jm{"w": 1.0}}})
		}
		two := allMaps([]string{"a", "b"}, leaf)
		one := allMaps([]string{"a"}, leaf)
		var evs int64
		var emu sync.Mutex
		par(c, len(two), func(sl *slot, i int) {
			n := int64(0)
			for _, b := range two {
				n++
				a := two[i]
				key := js(a) + " <- " + js(b)
				viol("MergeMap", key, guard(func() string {
					dst, src := deepCopy(a).(jm), deepCopy(b).(jm)
					want := deepCopy(a).(jm)
					mergeModel(want, b)
					util.MergeMap(dst, src)
					if !reflect.DeepEqual(dst, want) {
						return "merged to " + js(dst) + " instead of " + js(want)
					}
					if !reflect.DeepEqual(src, b) {
						return "source became " + js(src)
					}
					return ""
				}))
			}
			emu.Lock()
			evs += n
			emu.Unlock()
		})
		par(c, len(one), func(sl *slot, i int) {
			n := int64(0)
			for _, b := range one {
				for _, d := range one {
					n++
					a := one[i]
					key := js(a) + " <- " + js(b) + " <- " + js(d)
					viol("MergeMaps", key, guard(func() string {
						dst, s1, s2 := deepCopy(a).(jm), deepCopy(b).(jm), deepCopy(d).(jm)
						want := deepCopy(a).(jm)
						mergeModel(want, b)
						mergeModel(want, d)
						util.MergeMaps(dst, s1, s2)
						if !reflect.DeepEqual(dst, want) {
							return "merged to " + js(dst) + " instead of " + js(want)
						}
						if !reflect.DeepEqual(s1, b) || !reflect.DeepEqual(s2, d) {
							return "sources became " + js(s1) + " " + js(s2)
						}
						return ""
					}))
				}
			}
			emu.Lock()
			evs += n
			emu.Unlock()
		})
		ev += evs
		// lookup by path and flatten
		lv := []jv{1.0, "s", nil, jm{}, jm{"a": 1.0}, jm{"b": nil}, jm{"a": jm{"b": 2.0}}, jm{"a": 1.0, "b": jm{"a": 3.0}}, []interface{}{}, []interface{}{1.0, "x"}, []interface{}{jm{"a": 1.0}}, jm{"a": []interface{}{2.0, []interface{}{3.0}}}, false, 0.0}
		objs := allMaps([]string{"a", "b"}, lv)
		pk := []string{"a", "b", "c"}
		for _, o := range objs {
			for l := 0; l <= 3; l++ {
				odometer(3, l, func(ix []int) bool {
					path := []string{}
					for _, i := range ix {
						path = append(path, pk[i])
					}
					ev++
					viol("GetByPath", js(o)+" "+strings.Join(path, "."), guard(func() string {
						in := deepCopy(o).(jm)
						got := util.GetByPath(in, append([]string{}, path...))
						var want jv = deepCopy(o)
						for _, k := range path {
							m, ok := want.(jm)
							if !ok {
								want = nil
								break
							}
							want = m[k]
						}
						if !reflect.DeepEqual(got, want) || !reflect.DeepEqual(in, o) {
							return "found " + js(got) + " instead of " + js(want)
						}
						return ""
					}))
					return true
				})
			}
			ev++
			viol("FlattenMap", js(o), guard(func() string {
				in := deepCopy(o).(jm)
				got := util.FlattenMap(in)
				want := jm{}
				flattenModel(deepCopy(o), "", want)
				if !reflect.DeepEqual(got, want) || !reflect.DeepEqual(in, o) {
					return "flattened to " + js(got) + " instead of " + js(want)
				}
				got, err := util.JsonToKeyPathAndVal(js(o))
				if err != nil || !reflect.DeepEqual(got, want) {
					return "from json to " + js(got) + " instead of " + js(want)
				}
				if x, err := util.JsonToKeyPathAndVal(js(o) + "}"); err == nil {
					return "invalid json gives " + js(x)
				}
				return ""
			}))
		}
		// slices
		for l := 0; l <= c.Pick(5, 7); l++ {
			odometer(3, l, func(ix []int) bool {
				for i := range ix {
					ev++
					viol("RemoveAt", fmt.Sprint(ix, i), guard(func() string {
						a := append([]int{}, ix...)
						util.RemoveAt(&a, i)
						want := append(append([]int{}, ix[:i]...), ix[i+1:]...)
						got := append([]int{}, a...)
						sort.Ints(want)
						sort.Ints(got)
						if fmt.Sprint(got) != fmt.Sprint(want) {
							return fmt.Sprint("left ", a)
						}
						return ""
					}))
					for j := range ix {
						viol("Swap", fmt.Sprint(ix, i, j), guard(func() string {
							a := append([]int{}, ix...)
							util.Swap(a, i, j)
							for k := range a {
								w := ix[k]
								if k == i {
									w = ix[j]
								} else if k == j {
									w = ix[i]
								}
								if a[k] != w {
									return fmt.Sprint("gives ", a)
								}
							}
							return ""
						}))
					}
				}
				for v := 0; v < 4; v++ {
					ev++
					viol("Includes", fmt.Sprint(ix, v), guard(func() string {
						want := false
						for _, x := range ix {
							want = want || x == v
						}
						if util.Includes(append([]int{}, ix...), v) != want {
							return fmt.Sprint("is not ", want)
						}
						return ""
					}))
				}
				viol("Copy", fmt.Sprint(ix), guard(func() string {
					a := append([]int{}, ix...)
					b := util.Copy(a)
					if fmt.Sprint(a) != fmt.Sprint(b) {
						return fmt.Sprint("copied to ", b)
					}
					for i := range b {
						b[i] = 9
					}
					if fmt.Sprint(a) != fmt.Sprint(ix) {
						return "copy shares storage"
					}
					return ""
				}))
				ev += 1 + int64(len(ix)*len(ix))
				return true
			})
		}
		c.Sample(`MergeMaps {"a":{"x":1}} <- {"a":{"x":{"z":1}}} <- {"a":{"x":{"y":2},"y":3}}`)
		c.Add("traces_validated_against_impl", ev+c.res.Counters["states"])
	}})

	// ------------------------------------------------------------ C23
	register(&Check{ID: "C23", Level: "model_checking", One: func(k string) { util.RemoveJsonComments(k) }, Run: runC23})

	// ------------------------------------------------------------ C24
	register(&Check{ID: "C24", Level: "model_checking", Run: runC24})

	// ------------------------------------------------------------ C25
	register(&Check{ID: "C25", Level: "model_checking", Run: runC25})
}

// ---------------------------------------------------------------- C23

type jtok struct {
	text      string
	line, col int
	wide      bool // preceded on its line by the end of a block comment spanning lines
}

// jtoks splits a JSON text with comments; ok=false when it is not lexically valid.
func jtoks(s string, comments bool) (toks []jtok, plain bool, ok bool) {
	line, col := 1, 0
	wide := false
	plain = true
	i := 0
	step := func() { // consume one character, tracking the position
		r, n := utf8.DecodeRuneInString(s[i:])
		i += n
		if r == '\r' && i < len(s) && s[i] == '\n' {
			i++
		}
		if r == '\r' || r == '\n' {
			line++
			col = 0
			wide = false
		} else {
			col++
		}
	}
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r':
			step()
		case ch == '/' && comments && i+1 < len(s) && s[i+1] == '/':
			plain = false
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				step()
			}
		case ch == '/' && comments && i+1 < len(s) && s[i+1] == '*':
			plain = false
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				return nil, false, false
			}
			end := i + e + 4
			l0 := line
			for i < end {
				step()
			}
			if line != l0 {
				wide = true
			}
		case strings.IndexByte("{}[],:", ch) >= 0:
			toks = append(toks, jtok{s[i : i+1], line, col, wide})
			step()
		case ch == '"':
			st, l, cc := i, line, col
			step()
			for {
				if i >= len(s) || s[i] == '\n' || s[i] == '\r' {
					return nil, false, false
				}
				if s[i] == '\\' {
					step()
					if i >= len(s) || s[i] == '\n' || s[i] == '\r' {
						return nil, false, false
					}
					step()
					continue
				}
				q := s[i] == '"'
				step()
				if q {
					break
				}
			}
			toks = append(toks, jtok{s[st:i], l, cc, wide})
		case ch == '-' || ch == '.' || ch == '+' || ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			st, l, cc := i, line, col
			for i < len(s) && (s[i] == '-' || s[i] == '.' || s[i] == '+' || s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z') {
				step()
			}
			toks = append(toks, jtok{s[st:i], l, cc, wide})
		default:
			return nil, false, false
		}
	}
	return toks, plain, true
}

// checkJSONC decides one text. valid reports that the text is a JSON document with comments / trailing commas.
func checkJSONC(s string) (why string, valid bool) {
	in, plain, ok := jtoks(s, true)
	var want []jtok
	if ok {
		for i, t := range in {
			if t.text == "," && i+1 < len(in) && (in[i+1].text == "}" || in[i+1].text == "]") {
				plain = false
				continue
			}
			want = append(want, t)
		}
		var sb strings.Builder
		for _, t := range want {
			sb.WriteString(t.text)
			sb.WriteByte(' ')
		}
		valid = json.Valid([]byte(sb.String())) && utf8.ValidString(s)
		// a comma directly after an opening bracket is no trailing comma
		for i := 0; i+1 < len(in); i++ {
			if in[i+1].text == "," && (in[i].text == "{" || in[i].text == "[" || in[i].text == ",") {
				valid = false
			}
		}
	}
	why = guard(func() string {
		out, err := util.RemoveJsonComments(s)
		if !valid {
			return ""
		}
		if err != nil {
			return "error: " + err.Error()
		}
		o := string(out)
		if plain && o != s {
			return fmt.Sprintf("plain JSON changed to %q", o)
		}
		got, _, ok := jtoks(o, false)
		if !ok || len(got) != len(want) {
			return fmt.Sprintf("became %q", o)
		}
		for i := range got {
			if got[i].text != want[i].text || got[i].line != want[i].line || (!want[i].wide && got[i].col != want[i].col) {
				return fmt.Sprintf("token %s at %d:%d became %s at %d:%d in %q", want[i].text, want[i].line, want[i].col, got[i].text, got[i].line, got[i].col, o)
			}
		}
		var a interface{}
		if json.Unmarshal(out, &a) != nil {
			return fmt.Sprintf("result does not decode: %q", o)
		}
		return ""
	})
	return
}

func runC23(c *Ctx) {
	c.Rule("every character string over a 15-letter alphabet up to the length, and every token sequence over JSON tokens and trivia up to the length; checked when the text is a JSON document with comments and trailing commas")
	c.Assume("lines end at LF, CR or CRLF; columns count characters; after a block comment that spans lines only the line of the following tokens on its last line is required (an existing test pins a shifted column there)")
	run := func(alpha []string, depth int) {
		par(c, len(alpha)*len(alpha), func(sl *slot, i int) {
			n, v, tr := int64(0), int64(0), int64(0)
			do := func(s string) {
				tr += int64(len(s))
				sl.Enter(s)
				why, valid := checkJSONC(s)
				sl.Leave()
				n++
				if valid {
					v++
				}
				if why != "" {
					c.Violate(s, why, map[string]string{"input": s, "why": why})
				}
			}
			a, b := i/len(alpha), i%len(alpha)
			if b == 0 {
				do(alpha[a])
			}
			for l := 0; l <= depth-2; l++ {
				odometer(len(alpha), l, func(ix []int) bool {
					var sb strings.Builder
					sb.WriteString(alpha[a])
					sb.WriteString(alpha[b])
					for _, k := range ix {
						sb.WriteString(alpha[k])
					}
					do(sb.String())
					return !c.TooMany()
				})
				if c.Expired() {
					break
				}
			}
			c.Add("states", n)
			c.Add("traces_validated_against_impl", v)
			c.Add("transitions", tr)
		})
	}
	run(strings.Split("{ } [ ] , \" \\ / * \n \r 1 é", " "), c.Pick(6, 7))
	run([]string{" ", "\"", "\\", "/", "*", "\n", "1", ","}, c.Pick(7, 8))
	toks := []string{"[", "]", "{", "}", ",", "\"a\":", "1", "\"//\"", "\"\\\\\"", "\"\\\"/*\"", "// ,]\n", "/*,]*/", "/* \r\n */", "//\r\n", "\t", "\"\ufffd\"", "//*\r", "/**/"}
	run(toks, c.Pick(6, 7))
	wrap := func(pre, post string, alpha []string, depth int) {
		par(c, len(alpha), func(sl *slot, i int) {
			n, v := int64(0), int64(0)
			for l := 0; l < depth; l++ {
				odometer(len(alpha), l, func(ix []int) bool {
					s := pre + alpha[i]
					for _, k := range ix {
						s += alpha[k]
					}
					s += post
					sl.Enter(s)
					why, valid := checkJSONC(s)
					sl.Leave()
					n++
					if valid {
						v++
					}
					if why != "" {
						c.Violate(s, why, map[string]string{"input": s, "why": why})
					}
					return !c.TooMany()
				})
			}
			c.Add("states", n)
			c.Add("transitions", n*int64(depth))
			c.Add("traces_validated_against_impl", v)
		})
	}
	// inside a string, and between the tokens of a document
	wrap("[\"", "\", /* c */ 1]", []string{"\\\\", "\\\"", "/", "*", ",", "]", "\\n", "a", "}", " ", "\\u0022", "é", "\ufffd"}, c.Pick(4, 5))
	wrap("{\"a\": 1", "\n}", []string{",", " ", "\n", "\r\n", "/* , */", "// }\n", "//\r\n", "/*\n*/", "/***/", "\t", "/*\"*/", "// \"\n", "\r"}, c.Pick(5, 6))
	wrap("[[1]", "]", []string{",", " ", "\n", ",[]", ",2", "/* ] */", "// ]\n", "/*\r\n*/", "/*/**/", ",\"]\"", "/*é*/"}, c.Pick(5, 6))
	c.Sample("{\"a\": 1,// }\r\n/*\n*/\n}")
	c.Sample("[\"\\\\\", /* c */ 1]")
}

// ---------------------------------------------------------------- C24

type srcModel struct {
	text  []byte
	ofst  int
	pos   int
	met   bool
	stack []srcModel
}

func (m *srcModel) peekAt(o int) (rune, int) {
	if o >= len(m.text) {
		return span.EOF, 0
	}
	return utf8.DecodeRune(m.text[o:])
}

func (m *srcModel) read() rune {
	r, n := m.peekAt(m.ofst)
	if n == 0 {
		return span.EOF
	}
	m.ofst += n
	m.pos++
	if r == '\r' {
		if m.ofst < len(m.text) && m.text[m.ofst] == '\n' {
			m.ofst++
			m.pos++
		}
		r = '\n'
	}
	return r
}

func srcRun(text string, seq []int, full bool) string {
	return guard(func() string {
		s := span.NewSource("p", text)
		m := &srcModel{text: []byte(text)}
		for step, op := range seq {
			bad := func(f string, a ...interface{}) string {
				return fmt.Sprintf("step %d op %s: ", step, srcOps[op]) + fmt.Sprintf(f, a...)
			}
			switch op {
			case 0:
				if g, w := s.Read(), m.read(); g != w {
					return bad("read %q, model %q", g, w)
				}
			case 1, 2:
				ch := 'a'
				r, n := m.peekAt(m.ofst)
				if op == 2 {
					ch = '\n'
					if n > 0 {
						ch = r
					}
				}
				w := r == ch
				if w {
					m.read()
				}
				if g := s.AdvanceIf(ch); g != w {
					return bad("AdvanceIf %v, model %v", g, w)
				}
			case 3:
				if s.SkipSpace() != s {
					return bad("returned another source")
				}
				m.met = false
				for {
					r, n := m.peekAt(m.ofst)
					if n == 0 || !(r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == 0x2028 || r == 0x2029 || r == 0xa0) {
						break
					}
					if r == '\n' || r == '\r' || r == 0x2028 || r == 0x2029 {
						m.met = true
					}
					m.read()
				}
			case 4:
				s.PushState()
				cp := *m
				cp.stack = nil
				m.stack = append(m.stack, cp)
			case 5, 6:
				if len(m.stack) == 0 {
					return ""
				}
				top := m.stack[len(m.stack)-1]
				rest := m.stack[:len(m.stack)-1]
				if op == 5 {
					s.PopState()
					st := rest
					*m = top
					m.stack = st
				} else {
					s.DiscardState()
					m.stack = rest
				}
			}
			r1, n1 := m.peekAt(m.ofst)
			r2 := span.EOF
			if n1 > 0 {
				r2, _ = m.peekAt(m.ofst + n1)
			}
			if int(s.Ofst()) != m.ofst || int(s.Pos()) != m.pos {
				return bad("offset %d pos %d, model %d %d", s.Ofst(), s.Pos(), m.ofst, m.pos)
			}
			if s.MetLineTerm() != m.met {
				return bad("MetLineTerm %v, model %v", s.MetLineTerm(), m.met)
			}
			if g := s.Peek(); g != r1 {
				return bad("Peek %q, model %q", g, r1)
			}
			if g := s.Ahead2nd(); g != r2 {
				return bad("Ahead2nd %q, model %q", g, r2)
			}
			if g := s.AheadIsEOF(); g != (n1 == 0) {
				return bad("AheadIsEOF %v", g)
			}
			for _, ch := range []rune{'a', '\n', 0x1f600} {
				if s.AheadIsCh(ch) != (r1 == ch) {
					return bad("AheadIsCh(%q)", ch)
				}
				if n1 > 0 && s.AheadIsChs2('a', ch) != (r1 == 'a' && r2 == ch) {
					return bad("AheadIsChs2(a,%q)", ch)
				}
				if n1 > 0 && s.AheadIsChs2(ch, ' ') != (r1 == ch && r2 == ' ') {
					return bad("AheadIsChs2(%q,' ')", ch)
				}
				if s.AheadIsChOr('a', ch) != (r1 == 'a' || r1 == ch) || s.AheadIsChOr(ch, ' ') != (r1 == ' ' || r1 == ch) {
					return bad("AheadIsChOr(%q)", ch)
				}
			}
			rg := s.NewOpenRange()
			if int(rg.Lo) != m.ofst || int(rg.Hi) != m.ofst {
				return bad("NewOpenRange %v", rg)
			}
			var r3 span.Range
			s.OpenRange(&r3)
			if int(r3.Lo) != m.ofst {
				return bad("OpenRange %v", r3)
			}
		}
		return ""
	})
}

var srcOps = []string{"Read", "AdvanceIf(a)", "AdvanceIf(ahead)", "SkipSpace", "PushState", "PopState", "DiscardState"}

func srcPos(text string) string {
	return guard(func() string {
		type lc struct{ line, col int }
		at := map[int]lc{}
		line, col := 1, 0
		o := 0
		offs := []int{}
		for o <= len(text) {
			at[o] = lc{line, col}
			offs = append(offs, o)
			if o == len(text) {
				break
			}
			r, n := utf8.DecodeRuneInString(text[o:])
			o += n
			if r == '\r' && o < len(text) && text[o] == '\n' {
				o++
			}
			if r == '\r' || r == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
		s := span.NewSource("p", text)
		if s.Len() != len(text) {
			return "Len"
		}
		for _, a := range offs {
			p := s.OfstLineCol(uint32(a))
			if int(p.Line) != at[a].line || int(p.Col) != at[a].col {
				return fmt.Sprintf("OfstLineCol(%d) = %v, text says %v", a, p, at[a])
			}
			for _, b := range offs {
				if b < a {
					continue
				}
				f, t := s.LineCol(span.Range{Lo: uint32(a), Hi: uint32(b)})
				if int(f.Line) != at[a].line || int(f.Col) != at[a].col || int(t.Line) != at[b].line || int(t.Col) != at[b].col {
					return fmt.Sprintf("LineCol(%d,%d) = %v %v, text says %v %v", a, b, f, t, at[a], at[b])
				}
				if s.Text(uint32(a), uint32(b)) != text[a:b] || s.RngText(span.Range{Lo: uint32(a), Hi: uint32(b)}) != text[a:b] {
					return "Text"
				}
			}
		}
		return ""
	})
}

func runC24(c *Ctx) {
	c.Rule("every text over {a, SP, LF, CR, LS, é, 😀, 0xff, TAB} up to the length x every sequence of state-changing reader operations up to the depth, all look-ahead and position queries after every step; all offset pairs for line/column")
	letters := []string{"a", " ", "\n", "\r", "\u2028", "é", "😀", "\xff", "\t"}
	tl := c.Pick(4, 5)
	sl := c.Pick(4, 5)
	var texts []string
	for l := 0; l <= tl; l++ {
		odometer(len(letters), l, func(ix []int) bool {
			var sb strings.Builder
			for _, k := range ix {
				sb.WriteString(letters[k])
			}
			texts = append(texts, sb.String())
			return true
		})
	}
	const chunk = 64
	par(c, (len(texts)+chunk-1)/chunk, func(_ *slot, ci int) {
		n, tr := int64(0), int64(0)
		for i := ci * chunk; i < len(texts) && i < (ci+1)*chunk; i++ {
			t := texts[i]
			for l := 1; l <= sl; l++ {
				odometer(7, l, func(ix []int) bool {
					n++
					tr += int64(l)
					if why := srcRun(t, ix, true); why != "" {
						c.Violate(fmt.Sprintf("%q %v", t, ix), why, map[string]string{"text": t, "ops": fmt.Sprint(ix), "why": why})
					}
					return !c.TooMany()
				})
			}
		}
		c.Add("states", n)
		c.Add("transitions", tr)
	})
	// longer histories on short texts
	long := c.Pick(7, 8)
	var short []string
	for _, t := range texts {
		if utf8.RuneCountInString(t) <= 2 {
			short = append(short, t)
		}
	}
	par(c, len(short), func(_ *slot, i int) {
		n := int64(0)
		odometer(7, long, func(ix []int) bool {
			n++
			if why := srcRun(short[i], ix, false); why != "" {
				c.Violate(fmt.Sprintf("%q %v", short[i], ix), why, map[string]string{"text": short[i], "ops": fmt.Sprint(ix), "why": why})
			}
			return !c.TooMany() && !c.Expired()
		})
		c.Add("states", n)
		c.Add("traces_validated_against_impl", n)
		c.Add("transitions", n*int64(long))
	})
	var pt []string
	l2 := []string{"a", "\n", "\r", "é", "😀", " "}
	for l := 0; l <= c.Pick(6, 8); l++ {
		odometer(len(l2), l, func(ix []int) bool {
			var sb strings.Builder
			for _, k := range ix {
				sb.WriteString(l2[k])
			}
			pt = append(pt, sb.String())
			return true
		})
	}
	par(c, (len(pt)+999)/1000, func(_ *slot, ci int) {
		for i := ci * 1000; i < len(pt) && i < (ci+1)*1000; i++ {
			if why := srcPos(pt[i]); why != "" {
				c.Violate(fmt.Sprintf("linecol %q", pt[i]), why, map[string]string{"text": pt[i], "why": why})
			}
		}
	})
	c.Add("linecol_texts", int64(len(pt)))
	c.Sample("text \"a\\r\\n😀\" ops Read SkipSpace PushState Read PopState Read")
}

// ---------------------------------------------------------------- C25

type tent struct {
	name string
	dir  bool
	data string
	link string
}

func mkTarGz(es []tent) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	t := tar.NewWriter(z)
	for _, e := range es {
		h := &tar.Header{Name: e.name, Mode: 0644, Size: int64(len(e.data)), Typeflag: tar.TypeReg}
		if e.dir {
			h.Typeflag = tar.TypeDir
			h.Mode = 0755
		}
		if e.link != "" {
			h.Typeflag = tar.TypeSymlink
			h.Linkname = e.link
		}
		if err := t.WriteHeader(h); err != nil {
			panic(err)
		}
		t.Write([]byte(e.data))
	}
	t.Close()
	z.Close()
	return b.Bytes()
}

func listTree(root string) map[string]string {
	out := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			out[p] = "unreadable"
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case fi.IsDir():
			out[rel] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			out[rel] = "file " + string(b)
		}
		return nil
	})
	return out
}

func treeStr(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%q ", k, m[k])
	}
	return sb.String()
}

func bigData() string {
	var sb strings.Builder
	for i := 0; sb.Len() < 70000; i++ {
		fmt.Fprintf(&sb, "line %d\n", i*i)
	}
	return sb.String()
}

// runC25 re-executes itself as an unprivileged user: the code under test is what keeps writes contained.
func runC25(c *Ctx) {
	if os.Geteuid() != 0 {
		runC25Inner(c, os.Getenv("MC_SCRATCH"))
		return
	}
	base, err := os.MkdirTemp("", "mc-untar-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	os.Chmod(base, 0755)
	scratch := filepath.Join(base, "w")
	os.Mkdir(scratch, 0755)
	if err := os.Chown(scratch, 65534, 65534); err != nil {
		fmt.Fprintln(os.Stderr, "cannot prepare an unprivileged scratch directory:", err)
		os.Exit(3)
	}
	exe := filepath.Join(base, "mc")
	me, _ := os.Executable()
	if b, err := os.ReadFile(me); err == nil {
		os.WriteFile(exe, b, 0755)
		os.Chmod(exe, 0755)
	}
	cmd := exec.Command(exe, "child", "C25", c.Tier, scratch)
	cmd.Env = append(os.Environ(), "MC_SCRATCH="+scratch, "TMPDIR="+scratch, "HOME="+scratch)
	cmd.Stderr = os.Stderr
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	err = cmd.Run()
	var r Result
	b, rerr := os.ReadFile(filepath.Join(scratch, "result.json"))
	if err != nil || rerr != nil || json.Unmarshal(b, &r) != nil {
		fmt.Fprintln(os.Stderr, "unprivileged run failed:", err, rerr)
		os.Exit(3)
	}
	c.mu.Lock()
	c.res = r
	c.mu.Unlock()
}

func runC25Inner(c *Ctx, scratch string) {
	c.Rule("every archive of up to 3 (thorough 4) entries over a set of directory, file, nested, repeated, dotted, absolute and escaping names; every truncation and every single-byte corruption of two archives")
	c.Assume("runs as uid 65534 inside a scratch directory, target three levels below it, so that an escaping write lands in the watched scratch tree or is refused by the kernel; symbolic links in archives are only checked for containment")
	big := bigData()
	ents := []tent{
		{name: "d/", dir: true},
		{name: "d/e/", dir: true},
		{name: "f", data: "one"},
		{name: "f", data: "two is longer"},
		{name: "d/f", data: "three"},
		{name: "d/e/g", data: ""},
		{name: "./h", data: "dot"},
		{name: "d/../i", data: "up and down"},
		{name: "..j", data: "dots"},
		{name: "d", data: "clash"},
		{name: "a b\u00e9", data: "\x00\x01\xff"},
		{name: "big", data: big},
		{name: "../x", data: "evil"},
		{name: "../../x", data: "evil"},
		{name: "d/../../x", data: "evil"},
		{name: "../dist2/x", data: "evil"},
		{name: "../", dir: true},
		{name: "../y/", dir: true},
		{name: "/abs-mc-probe", data: "evil"},
		{name: "..", data: "evil"},
		{name: "l", link: ".."},
		{name: "l", link: "../x"},
		{name: "l/x", data: "evil"},
		{name: "./../x", data: "evil"},
		{name: "d/./../../y/", dir: true},
	}
	safe := func(e tent) bool {
		return e.link == "" && !strings.HasPrefix(filepath.Join("T", e.name)+"/", "../") && strings.HasPrefix(filepath.Join("T", e.name)+"/", "T/")
	}
	runArch := func(dir string, raw []byte, es []tent, damaged bool) string {
		root := filepath.Join(dir, "a", "b")
		dist := filepath.Join(root, "dist")
		os.RemoveAll(filepath.Join(dir, "a"))
		os.MkdirAll(dist, 0755)
		os.MkdirAll(filepath.Join(root, "dist2"), 0755)
		os.WriteFile(filepath.Join(root, "x"), []byte("keep"), 0644)
		tb := filepath.Join(dir, "t.tgz")
		os.WriteFile(tb, raw, 0644)
		before := listTree(dir)
		var err error
		pan := guard(func() string { err = util.UnTarGz(tb, dist); return "" })
		if pan != "" {
			return pan
		}
		after := listTree(dir)
		got := listTree(dist)
		for k := range after {
			if strings.HasPrefix(k+"/", "a/b/dist/") {
				delete(after, k)
			}
		}
		for k := range before {
			if strings.HasPrefix(k+"/", "a/b/dist/") {
				delete(before, k)
			}
		}
		if treeStr(before) != treeStr(after) {
			return "changed outside the target: " + treeStr(after)
		}
		for _, e := range es {
			if !safe(e) {
				return ""
			}
		}
		// model
		want := map[string]string{".": "dir"}
		fail := false
		mkdirs := func(p string) bool {
			for q := p; q != "." && q != "/"; q = filepath.Dir(q) {
				if v, ok := want[q]; ok && v != "dir" {
					return false
				}
			}
			for q := p; q != "." && q != "/"; q = filepath.Dir(q) {
				want[q] = "dir"
			}
			return true
		}
		for _, e := range es {
			p := strings.TrimPrefix(filepath.Join("/", e.name), "/")
			if e.dir {
				if !mkdirs(p) {
					fail = true
				}
				continue
			}
			if !mkdirs(filepath.Dir(p)) || want[p] == "dir" {
				fail = true
				continue
			}
			want[p] = "file " + e.data
		}
		if fail {
			if err == nil {
				return "conflicting entries were not reported"
			}
			return ""
		}
		if err != nil {
			if damaged {
				return ""
			}
			return "error: " + err.Error()
		}
		if treeStr(got) != treeStr(want) {
			s := treeStr(got)
			if len(s) > 300 {
				s = s[:300]
			}
			return "extracted " + s
		}
		return ""
	}
	desc := func(es []tent) string {
		var s []string
		for _, e := range es {
			d := e.data
			if len(d) > 10 {
				d = fmt.Sprint(len(d), " bytes")
			}
			s = append(s, fmt.Sprintf("%q dir=%v link=%q %q", e.name, e.dir, e.link, d))
		}
		return strings.Join(s, ", ")
	}
	dirs := make(chan string, c.Workers)
	for i := 0; i < c.Workers; i++ {
		d := filepath.Join(scratch, fmt.Sprint("w", i))
		os.MkdirAll(d, 0755)
		dirs <- d
	}
	depth := c.Pick(3, 4)
	for l := 1; l <= depth; l++ {
		par(c, len(ents), func(_ *slot, first int) {
			d := <-dirs
			defer func() { dirs <- d }()
			n := int64(0)
			odometer(len(ents), l-1, func(ix []int) bool {
				es := []tent{ents[first]}
				for _, k := range ix {
					es = append(es, ents[k])
				}
				if l == 4 { // keep the archives of four entries to those that build on each other
					for _, e := range es {
						if e.name == "big" || e.name == "a b\u00e9" {
							return true
						}
					}
				}
				n++
				if why := runArch(d, mkTarGz(es), es, false); why != "" {
					c.Violate("archive "+desc(es), why, map[string]string{"entries": desc(es), "why": why})
				}
				return !c.TooMany() && !c.Expired()
			})
			c.Add("states", n)
			c.Add("transitions", n*int64(l))
			c.Add("traces_validated_against_impl", n)
		})
	}
	// damage
	var arch [][]tent
	arch = append(arch, []tent{{name: "d/", dir: true}, {name: "d/f", data: strings.Repeat("x1y2", 60)}, {name: "g", data: "short"}})
	arch = append(arch, []tent{{name: "f", data: big[:5000]}})
	for ai, es := range arch {
		raw := mkTarGz(es)
		par(c, len(raw), func(_ *slot, i int) {
			d := <-dirs
			defer func() { dirs <- d }()
			c.Add("damaged_archives", 1)
			cut := append([]byte{}, raw[:i]...)
			root := filepath.Join(d, "a", "b")
			_ = root
			if why := runArch(d, cut, es, true); why != "" {
				c.Violate(fmt.Sprintf("truncated %d at %d", ai, i), why, map[string]string{"entries": desc(es), "why": why})
			} else if func() bool { // a truncated archive must be an error
				err := util.UnTarGz(filepath.Join(d, "t.tgz"), filepath.Join(d, "a", "b", "dist"))
				return err == nil
			}() {
				c.Violate(fmt.Sprintf("truncated %d at %d", ai, i), "a truncated archive is not reported", map[string]string{"entries": desc(es)})
			}
			flips := []byte{0xff}
			if !c.Quick() {
				flips = []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff}
			}
			if i >= 10 {
				for _, fl := range flips {
					c.Add("damaged_archives", 1)
					mod := append([]byte{}, raw...)
					mod[i] ^= fl
					if why := runArch(d, mod, es, true); why != "" {
						c.Violate(fmt.Sprintf("corrupted %d at %d^%x", ai, i, fl), why, map[string]string{"entries": desc(es), "why": why})
					}
				}
			}
		})
	}
	c.Sample("entries \"d/\" dir, \"d/../../x\", \"f\"")
}

// ---------------------------------------------------------------- C19, sequential histories

func lruRun(cap, clear int, seq []int, nk int) string {
	return guard(func() string {
		c := util.NewLruCache[int, int](cap, clear)
		cl := clear
		if cl == 0 || cl > cap {
			cl = cap / 3
		}
		if cl < 1 {
			cl = 1
		}
		var order []int
		vals := map[int]int{}
		for step, k := range seq {
			c.Set(k, step+1)
			if _, ok := vals[k]; ok {
				for i, x := range order {
					if x == k {
						order = append(append([]int{}, order[:i]...), order[i+1:]...)
						break
					}
				}
			} else if len(order)+1 > cap {
				for i := 0; i < cl && len(order) > 0; i++ {
					delete(vals, order[0])
					order = order[1:]
				}
			}
			order = append(order, k)
			vals[k] = step + 1
			n := 0
			for q := 0; q < nk; q++ {
				v, has := vals[q]
				h := c.HasKey(q)
				if h {
					n++
				}
				if g := c.Get(q); h != has || g != v {
					return fmt.Sprintf("step %d: key %d present=%v value=%d, model present=%v value=%d", step, q, h, g, has, v)
				}
			}
			if n > cap {
				return fmt.Sprintf("step %d: holds %d entries", step, n)
			}
		}
		return ""
	})
}

func lruSeq(c *Ctx) {
	type cfg struct{ cap, clear int }
	var cfgs []cfg
	for cp := 1; cp <= c.Pick(4, 6); cp++ {
		for cl := 0; cl <= cp+1; cl++ {
			cfgs = append(cfgs, cfg{cp, cl})
		}
	}
	par(c, len(cfgs), func(sl *slot, i int) {
		g := cfgs[i]
		nk := g.cap + 2
		if nk > 6 {
			nk = 6
		}
		n, tr := int64(0), int64(0)
		for l := 1; l <= c.Pick(7, 8); l++ {
			odometer(nk, l, func(ix []int) bool {
				n++
				tr += int64(l)
				if why := lruRun(g.cap, g.clear, ix, nk); why != "" {
					c.Violate(fmt.Sprintf("cap=%d clear=%d sets=%v", g.cap, g.clear, ix), why, map[string]string{"why": why})
				}
				return !c.TooMany()
			})
		}
		c.Add("states", n)
		c.Add("transitions", tr)
	})
}

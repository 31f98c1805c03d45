// Harness for the concurrency properties (C19, C21, C22). Built against the
// packages as rewritten onto vsched; every scenario is run under every
// schedule within its bound.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hsiaosiyuan0/mole/parseutil"
	"github.com/hsiaosiyuan0/mole/util"
	vs "github.com/hsiaosiyuan0/mole/vsched"
)

type scenario struct {
	name  string
	main  func()
	check func(o vs.Outcome) string
	bound int
	delay bool
}

type viol struct {
	Key, Why, Trace string
	Events          []string
}

type report struct {
	Scenarios, Schedules, Steps, Pruned int64
	States                              int64
	Incomplete                          int64
	MaxThreads                          int
	Samples                             []string
	Violations                          []viol
}

var scratch string
var tier string

func pick(q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

func main() {
	// conc <check> <tier> <i> <n> <scratch> <deadline-seconds> <out>
	check := os.Args[1]
	tier = os.Args[2]
	i, _ := strconv.Atoi(os.Args[3])
	n, _ := strconv.Atoi(os.Args[4])
	scratch = os.Args[5]
	dl, _ := strconv.Atoi(os.Args[6])
	out := os.Args[7]
	end := time.Now().Add(time.Duration(dl) * time.Second)
	var gen func(emit func(scenario))
	switch check {
	case "C19":
		gen = lruScenarios
	case "C21":
		gen = walkScenarios
	case "C22":
		gen = cacheScenarios
	}
	rep := report{}
	k := 0
	gen(func(sc scenario) {
		k++
		if (k-1)%n != i || len(rep.Violations) >= 5 {
			return
		}
		if vs.RaceBuild {
			sc.bound, sc.delay = 1, true
			os.WriteFile(out+".cur", []byte(sc.name), 0644)
		}
		e := &vs.Explorer{Bound: sc.bound, Delay: sc.delay}
		hist := map[uint64]bool{} // distinct observable histories
		judge := func(o vs.Outcome) string {
			h := fnv.New64a()
			for _, ev := range o.Events {
				h.Write([]byte(ev))
				h.Write([]byte{0})
			}
			hist[h.Sum64()] = true
			return sc.check(o)
		}
		why, o, complete := e.Explore(sc.main, judge, func() bool { return e.Runs%64 == 0 && time.Now().After(end) })
		rep.Scenarios++
		if why != "" {
			// the schedule is replayed: the same complaint must come back
			same := 0
			for r := 0; r < 3; r++ {
				if sc.check(e.Replay(sc.main)) == why {
					same++
				}
			}
			if same == 3 {
				rep.Violations = append(rep.Violations, viol{sc.name, why, e.Schedule(), o.Events})
			} else {
				rep.Pruned++
			}
		}
		if !complete {
			rep.Incomplete++
		}
		rep.States += int64(len(hist))
		rep.Schedules += e.Runs
		rep.Steps += e.Steps
		rep.Pruned += e.Pruned
		if e.MaxThr > rep.MaxThreads {
			rep.MaxThreads = e.MaxThr
		}
		if len(rep.Samples) < 3 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("%s: %d schedules, bound %d, last execution: %s", sc.name, e.Runs, sc.bound, strings.Join(o.Events, "; ")))
		}
		if os.Getenv("CONC_V") != "" {
			fmt.Fprintln(os.Stderr, sc.name, e.Runs, e.Steps, e.MaxThr, why)
		}
	})
	b, _ := json.Marshal(rep)
	os.WriteFile(out, b, 0644)
}

func basic(o vs.Outcome) string {
	if o.Failure != "" {
		return o.Failure
	}
	if len(o.Leaked) > 0 {
		return "goroutine left behind: " + strings.Join(o.Leaked, "; ")
	}
	return ""
}

// ---------------------------------------------------------------- C19

type lop struct {
	kind byte // S G H
	key  string
}

type lprog [][]lop

type lmodel struct {
	cap, clear int
	order      []string
	vals       map[string]int
}

func (m *lmodel) clone() *lmodel {
	n := &lmodel{m.cap, m.clear, append([]string{}, m.order...), map[string]int{}}
	for k, v := range m.vals {
		n.vals[k] = v
	}
	return n
}

func newModel(cap, clear int) *lmodel {
	if clear == 0 || clear > cap {
		clear = cap / 3
	}
	if clear < 1 {
		clear = 1
	}
	return &lmodel{cap, clear, nil, map[string]int{}}
}

func (m *lmodel) set(k string, v int) {
	if _, ok := m.vals[k]; ok {
		for i, x := range m.order {
			if x == k {
				m.order = append(append([]string{}, m.order[:i]...), m.order[i+1:]...)
				break
			}
		}
	} else if len(m.order)+1 > m.cap {
		for i := 0; i < m.clear && len(m.order) > 0; i++ {
			delete(m.vals, m.order[0])
			m.order = m.order[1:]
		}
	}
	m.order = append(m.order, k)
	m.vals[k] = v
}

func (m *lmodel) apply(o lop, v int) string {
	switch o.kind {
	case 'S':
		m.set(o.key, v)
		return "ok"
	case 'G':
		return strconv.Itoa(m.vals[o.key])
	}
	_, ok := m.vals[o.key]
	return strconv.FormatBool(ok)
}

var lkeys = []string{"a", "b", "c", "d"}

func lruScenario(cap, clear int, pre []string, p lprog, bound int) scenario {
	var nm []string
	for _, t := range p {
		s := ""
		for _, o := range t {
			s += string(o.kind) + o.key + " "
		}
		nm = append(nm, strings.TrimSpace(s))
	}
	name := fmt.Sprintf("cap=%d clear=%d prefilled=%v threads: %s", cap, clear, pre, strings.Join(nm, " || "))
	val := func(t, i int) int { return 10*(t+1) + i }
	main := func() {
		c := util.NewLruCache[string, int](cap, clear)
		for i, k := range pre {
			c.Set(k, i+1)
		}
		done := vs.MakeChan[int](len(p))
		for t := range p {
			t := t
			vs.Go("client", func() {
				for i, o := range p[t] {
					vs.Log("c %d %d", t, i)
					r := "ok"
					switch o.kind {
					case 'S':
						c.Set(o.key, val(t, i))
					case 'G':
						r = strconv.Itoa(c.Get(o.key))
					case 'H':
						r = strconv.FormatBool(c.HasKey(o.key))
					}
					vs.Log("r %d %d %s", t, i, r)
				}
				done.Send(1)
			})
		}
		for range p {
			done.Recv()
		}
		fin := ""
		for _, k := range lkeys {
			fin += fmt.Sprintf("%s:%v:%d ", k, c.HasKey(k), c.Get(k))
		}
		vs.Log("f %s", fin)
	}
	check := func(o vs.Outcome) string {
		if w := basic(o); w != "" {
			return w
		}
		// linearizability by exhaustive search
		type rec struct {
			call, ret int
			res       string
		}
		recs := make([][]rec, len(p))
		for t := range p {
			recs[t] = make([]rec, len(p[t]))
		}
		fin := ""
		for n, e := range o.Events {
			f := strings.SplitN(e, " ", 4)
			if f[0] == "f" {
				fin = e[2:]
				continue
			}
			t, _ := strconv.Atoi(f[1])
			i, _ := strconv.Atoi(f[2])
			if f[0] == "c" {
				recs[t][i].call = n
			} else {
				recs[t][i].ret = n
				recs[t][i].res = f[3]
			}
		}
		m := newModel(cap, clear)
		for i, k := range pre {
			m.set(k, i+1)
		}
		var try func(m *lmodel, at []int) bool
		try = func(m *lmodel, at []int) bool {
			all := true
			for t := range p {
				if at[t] >= len(p[t]) {
					continue
				}
				all = false
				// the operation may go first only if no other pending operation returned before it was called
				ok := true
				for u := range p {
					if u != t && at[u] < len(p[u]) && recs[u][at[u]].ret < recs[t][at[t]].call {
						ok = false
					}
				}
				if !ok {
					continue
				}
				m2 := m.clone()
				if m2.apply(p[t][at[t]], val(t, at[t])) != recs[t][at[t]].res {
					continue
				}
				a2 := append([]int{}, at...)
				a2[t]++
				if try(m2, a2) {
					return true
				}
			}
			if all {
				w := ""
				for _, k := range lkeys {
					v, has := m.vals[k]
					w += fmt.Sprintf("%s:%v:%d ", k, has, v)
				}
				return w == fin
			}
			return false
		}
		if !try(m, make([]int, len(p))) {
			return "no sequential order explains: " + strings.Join(o.Events, "; ")
		}
		return ""
	}
	return scenario{name, main, check, bound, false}
}

func lruScenarios(emit func(scenario)) {
	ops := []lop{{'S', "a"}, {'S', "b"}, {'S', "c"}, {'G', "a"}, {'H', "b"}}
	type cfg struct {
		cap, clear int
		pre        []string
	}
	cfgs := []cfg{{2, 1, []string{"a", "b"}}, {2, 0, nil}, {3, 2, []string{"b", "d", "a"}}, {1, 1, []string{"a"}}, {3, 1, []string{"d", "a"}}}
	for _, c := range cfgs {
		// one operation against one
		for i, x := range ops {
			for _, y := range ops[i:] {
				emit(lruScenario(c.cap, c.clear, c.pre, lprog{{x}, {y}}, pick(3, 4)))
			}
		}
		// one against two
		for _, x := range ops {
			for _, y := range ops {
				for _, z := range ops {
					emit(lruScenario(c.cap, c.clear, c.pre, lprog{{x}, {y, z}}, pick(1, 2)))
				}
			}
		}
		// three threads
		for i, x := range ops {
			for j, y := range ops[i:] {
				for _, z := range ops[i+j:] {
					emit(lruScenario(c.cap, c.clear, c.pre, lprog{{x}, {y}, {z}}, pick(1, 2)))
				}
			}
		}
	}
	for _, c := range cfgs {
		for i, x := range ops {
			for _, y := range ops {
				for k, z := range ops {
					for _, w := range ops {
						if k < i {
							continue
						}
						emit(lruScenario(c.cap, c.clear, c.pre, lprog{{x, y}, {z, w}}, pick(1, 2)))
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C21

// a tree is a list of paths; directories end with /
func mkTree(root string, paths []string) map[string]bool {
	os.RemoveAll(root)
	os.MkdirAll(root, 0755)
	want := map[string]bool{root: true}
	for _, p := range paths {
		f := filepath.Join(root, p)
		if strings.HasSuffix(p, "/") {
			os.MkdirAll(f, 0755)
			want[f] = true
		} else {
			os.WriteFile(f, []byte("x"), 0644)
			want[f] = false
		}
	}
	return want
}

type stopPlan struct {
	name     string
	inHandle int  // call Stop in the n-th handler call (1-based)
	every    bool // in every handler call
	twice    bool
	external bool // from another goroutine
	before   bool // before Walk
	after    bool // after Walk
	remove   string
	badRoot  bool
}

func walkScenario(id int, tree []string, workers int, sp stopPlan, bound int, delay bool) scenario {
	root := filepath.Join(scratch, fmt.Sprintf("t%d", id))
	var want map[string]bool
	name := fmt.Sprintf("tree=%v workers=%d plan=%s", tree, workers, sp.name)
	walkRoot := root
	if sp.badRoot {
		walkRoot = filepath.Join(root, "nope")
	}
	stopErr := errors.New("stopped")
	main := func() {
		if want == nil {
			want = mkTree(root, tree)
		}
		if sp.remove != "" {
			os.MkdirAll(filepath.Join(root, sp.remove), 0755)
		}
		calls := vs.MakeChan[int](1)
		calls.Send(0)
		w := util.NewDirWalker(walkRoot, workers, func(f string, dir bool, dw *util.DirWalker) {
			n := calls.Recv() + 1
			calls.Send(n)
			vs.Log("h %v %s", dir, f)
			vs.Point()
			if sp.remove != "" && f == root {
				os.Remove(filepath.Join(root, sp.remove))
			}
			if sp.every || sp.inHandle == n {
				vs.Log("stop")
				dw.Stop(stopErr)
				if sp.twice {
					dw.Stop(errors.New("again"))
				}
				vs.Log("stopped")
			}
			vs.Point()
			vs.Log("e %s", f)
		})
		if sp.before {
			w.Stop(stopErr)
		}
		if sp.external {
			vs.Go("stopper", func() {
				w.Stop(stopErr)
				vs.Log("stopped")
				if sp.twice {
					w.Stop(errors.New("again"))
				}
			})
		}
		w.Walk()
		e := "nil"
		if err := w.Err(); err != nil {
			e = err.Error()
		}
		vs.Log("walked %s", e)
		if sp.after {
			w.Stop(stopErr)
			w.Stop(stopErr)
		}
	}
	check := func(o vs.Outcome) string {
		if w := basic(o); w != "" {
			return w
		}
		seen := map[string]int{}
		walked := false
		stopped := false
		afterStop := 0
		open := 0
		errS := ""
		for _, e := range o.Events {
			f := strings.SplitN(e, " ", 3)
			switch f[0] {
			case "h":
				if walked {
					return "handler called after Walk returned: " + f[2]
				}
				if stopped {
					afterStop++
				}
				seen[f[2]]++
				d, ok := want[f[2]]
				if !ok {
					return "handler called for unknown path " + f[2]
				}
				if fmt.Sprint(d) != f[1] {
					return "wrong kind for " + f[2]
				}
				if seen[f[2]] > 1 {
					return "handled twice: " + f[2]
				}
				open++
			case "e":
				open--
				if walked {
					return "handler still running after Walk returned: " + f[1]
				}
			case "stopped":
				stopped = true
			case "walked":
				walked = true
				errS = e[7:]
				if open > 0 {
					return "Walk returned while a handler was running"
				}
			}
		}
		if !walked {
			return "Walk did not return"
		}
		stop := sp.inHandle > 0 && len(seen) >= sp.inHandle || sp.every || sp.before
		switch {
		case sp.badRoot:
			if errS == "nil" {
				return "read error of the root is not reported"
			}
		case sp.remove != "":
			if errS == "nil" {
				return "read error is not reported"
			}
		case stop:
			if errS != "stopped" && !(sp.twice && errS == "again") {
				return "stop is not reported: " + errS
			}
			if afterStop > workers-1 {
				return fmt.Sprintf("%d handler calls began after the stop", afterStop)
			}
		case sp.external:
			if errS != "stopped" && errS != "nil" && !(sp.twice && errS == "again") {
				return "unexpected error " + errS
			}
			if errS == "nil" && len(seen) != len(want) {
				return "walk without error missed paths"
			}
			if afterStop > workers {
				return fmt.Sprintf("%d handler calls began after the stop", afterStop)
			}
		default:
			if errS != "nil" {
				return "unexpected error " + errS
			}
			if len(seen) != len(want) {
				var miss []string
				for p := range want {
					if seen[p] == 0 {
						miss = append(miss, p)
					}
				}
				sort.Strings(miss)
				return "never handled: " + strings.Join(miss, ", ")
			}
		}
		return ""
	}
	return scenario{name, main, check, bound, delay}
}

func walkScenarios(emit func(scenario)) {
	trees := [][]string{
		{},
		{"f"},
		{"a/"},
		{"a/", "f", "g"},
		{"a/", "b/"},
		{"a/", "a/f", "b/", "b/g", "h"},
		{"a/", "a/b/", "a/b/c/", "a/b/c/f"},
		{"a/", "b/", "c/"},
		{"a/", "a/x/", "a/x/f", "b/", "b/y/"},
		{"a/", "b/", "c/", "d/", "d/e/"},
	}
	plans := []stopPlan{
		{name: "plain"},
		{name: "stop in 1st handler", inHandle: 1},
		{name: "stop in 2nd handler", inHandle: 2},
		{name: "stop twice in 2nd handler", inHandle: 2, twice: true},
		{name: "stop in 3rd handler", inHandle: 3},
		{name: "stop in every handler", every: true},
		{name: "stop from outside", external: true},
		{name: "two stops from outside", external: true, twice: true},
		{name: "stop before the walk", before: true},
		{name: "stop after the walk", after: true},
		{name: "unreadable root", badRoot: true},
		{name: "unreadable root, stop after", badRoot: true, after: true},
		{name: "directory vanishes", remove: "a"},
		{name: "directory vanishes, stop from outside", remove: "a", external: true},
	}
	id := 0
	do := func(t []string, w int, p stopPlan, bound int, delay bool) {
		if p.remove != "" {
			if len(t) == 0 || t[0] != "a/" || len(t) > 1 && strings.HasPrefix(t[1], "a/") {
				return
			}
			if p.external {
				return
			}
		}
		id++
		emit(walkScenario(id, t, w, p, bound, delay))
	}
	for _, p := range plans {
		for ti, t := range trees {
			for w := 1; w <= 3; w++ {
				big := ti >= 5
				b := pick(2, 3)
				if big || w == 3 {
					b = pick(1, 2)
				}
				if ti == 9 && w > 1 {
					b = pick(1, 2)
				}
				do(t, w, p, b, true)
				if ti <= 3 && w <= 2 && !(p.external && w == 2 && tier != "thorough") {
					do(t, w, p, pick(1, 2), false)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C22

type stub struct {
	typ parseutil.ParserType
	nil bool
	n   *vs.Chan[int]
}

func (s *stub) Type() parseutil.ParserType { return s.typ }

func (s *stub) Parse(file, code string, readFile bool, biz interface{}) parseutil.Parsed {
	n := s.n.Recv() + 1
	s.n.Send(n)
	vs.Log("parse %s %s %v %v by%d", file, code, readFile, biz, s.typ)
	vs.Point()
	vs.Point()
	vs.Log("parsed %s", file)
	if s.nil {
		return nil
	}
	return fmt.Sprintf("result%d-of-%s", n, file)
}

type creq struct {
	key  string
	typ  int
	recv byte // 'n' now, 'l' later (after all requests of the thread), 'x' never
}

func cacheScenario(progs [][]creq, nilRes bool, bound int, delay bool) scenario {
	name := fmt.Sprintf("requests=%v nil=%v", progs, nilRes)
	total := 0
	for _, p := range progs {
		total += len(p)
	}
	main := func() {
		c := parseutil.NewParseCache[string]()
		for i := 0; i < 2; i++ {
			n := vs.MakeChan[int](1)
			n.Send(0)
			c.SetParser(&stub{parseutil.ParserType(i), nilRes, n})
		}
		done := vs.MakeChan[int](len(progs))
		show := func(v interface{}) string {
			if v == nil {
				return "<nil>"
			}
			return fmt.Sprintf("%T:%v", v, v)
		}
		for t := range progs {
			t := t
			vs.Go("requester", func() {
				var later []func()
				for i, r := range progs[t] {
					i, r := i, r
					f := c.Parse(parseutil.ParserType(r.typ), r.key, "file"+r.key, "code"+r.key, r.key == "a", "biz"+r.key)
					get := func() { vs.Log("got %s %s", r.key, show(f.Recv())) }
					_ = i
					switch r.recv {
					case 'n':
						get()
					case 'l':
						later = append(later, get)
					}
				}
				for _, g := range later {
					g()
				}
				done.Send(1)
			})
		}
		for range progs {
			done.Recv()
		}
		// a request long after
		for _, p := range progs {
			for _, r := range p {
				vs.Log("got %s %s", r.key, show(c.Parse(parseutil.ParserType(r.typ), r.key, "file"+r.key, "code"+r.key, r.key == "a", "biz"+r.key).Recv()))
			}
		}
	}
	check := func(o vs.Outcome) string {
		if w := basic(o); w != "" {
			return w
		}
		parses := map[string]int{}
		got := map[string][]string{}
		for _, e := range o.Events {
			f := strings.SplitN(e, " ", 3)
			switch f[0] {
			case "parse":
				k := strings.TrimPrefix(f[1], "file")
				parses[k]++
				want := fmt.Sprintf("code%s %v biz%s by", k, k == "a", k)
				if !strings.HasPrefix(f[2], want) {
					return "parser called with " + e
				}
			case "got":
				got[f[1]] = append(got[f[1]], f[2])
			}
		}
		nk := map[string]int{}
		for _, p := range progs {
			for _, r := range p {
				nk[r.key]++
			}
		}
		for k := range nk {
			if parses[k] != 1 {
				return fmt.Sprintf("key %s was parsed %d times", k, parses[k])
			}
			for _, g := range got[k] {
				ok := g == "<nil>" && nilRes || !nilRes && strings.HasPrefix(g, "string:result") && strings.HasSuffix(g, "-of-file"+k)
				if !ok {
					return fmt.Sprintf("request for %s got %s", k, g)
				}
				if g != got[k][0] {
					return fmt.Sprintf("requests for %s got %s and %s", k, got[k][0], g)
				}
			}
		}
		return ""
	}
	return scenario{name, main, check, bound, delay}
}

func cacheScenarios(emit func(scenario)) {
	a := func(r byte) creq { return creq{"a", 0, r} }
	b := func(r byte) creq { return creq{"b", 1, r} }
	single := [][]creq{{a('n')}, {a('x')}, {a('n'), a('n')}, {a('l'), a('l')}, {a('x'), a('n')}, {a('n'), b('n')}, {b('n')}, {b('l'), a('l')}, {a('l'), b('n'), a('n')}}
	for _, nilRes := range []bool{false, true} {
		for _, p := range single {
			emit(cacheScenario([][]creq{p}, nilRes, pick(3, 4), false))
		}
		for i, p := range single {
			for _, q := range single[i:] {
				n := len(p) + len(q)
				if n == 2 {
					emit(cacheScenario([][]creq{p, q}, nilRes, pick(2, 3), false))
				} else if n == 3 {
					emit(cacheScenario([][]creq{p, q}, nilRes, pick(2, 3), true))
					emit(cacheScenario([][]creq{p, q}, nilRes, pick(1, 2), false))
				} else {
					emit(cacheScenario([][]creq{p, q}, nilRes, pick(1, 2), true))
				}
			}
		}
		for i, p := range single {
			for j, q := range single[i:] {
				for _, r := range single[i+j:] {
					if len(p)+len(q)+len(r) > 4 {
						continue
					}
					emit(cacheScenario([][]creq{p, q, r}, nilRes, pick(1, 2), true))
				}
			}
		}
	}
}

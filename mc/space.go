package main

// Enumerated input spaces: compositions of construct templates, token
// sequences over thematic alphabets, single-token mutations.

import (
	"embed"
	"fmt"
	"hash/maphash"
	"strconv"
	"strings"
)

//go:embed data
var dataFS embed.FS

type tmpl struct {
	toks  []string
	holes []int // indexes into toks
}

type grammar map[string][]*tmpl

func isHole(t string) bool { return len(t) >= 2 && t[0] == '%' && t[1] >= 'A' && t[1] <= 'Z' }

func mkTmpl(line string) *tmpl {
	t := &tmpl{toks: strings.Split(line, " ")}
	for i, s := range t.toks {
		t.toks[i] = strings.ReplaceAll(strings.ReplaceAll(s, "·", " "), `\n`, "\n")
		if isHole(s) {
			t.holes = append(t.holes, i)
		}
	}
	return t
}

func loadGrammar(files ...string) grammar {
	g := grammar{}
	for _, f := range files {
		b, err := dataFS.ReadFile("data/" + f)
		if err != nil {
			panic(err)
		}
		cat := ""
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimRight(l, " ")
			if l == "" || l[0] == '#' && (len(l) < 2 || l[1] == ' ') {
				continue
			}
			if strings.HasPrefix(l, "[") && strings.HasSuffix(l, "]") && !strings.Contains(l, " ") && len(l) > 2 && l[1] >= 'A' && l[1] <= 'Z' {
				cat = "%" + l[1:len(l)-1]
				continue
			}
			g[cat] = append(g[cat], mkTmpl(l))
		}
	}
	return g
}

// default filler of the k-th hole of a template
var fillers = map[string][]string{
	"%E": {"a", "b", "c", "d"},
	"%P": {"x", "y", "z"},
	"%S": {";", ";", ";"},
	"%K": {"a", "b"},
	"%M": {"a ( ) { }", "b ;"},
	"%I": {"x"},
	"%G": {"x : T", "y : U"},
	"%Q": {"A", "B"},
	"%N": {"x : T ;"},
	"%T": {"T", "U", "V"},
	"%X": {"x", "y"},
	"%A": {"b", "c=\"s\""},
	"%O": {"", ""},
	"%C": {"t", "{a}", "u"},
	"%D": {"", ""},
	"%J": {"<a/>", "<b/>"},
}

// fill expands a template; sub gives the replacement token list for chosen hole ordinals.
func (t *tmpl) fill(sub map[int][]string) []string {
	out := make([]string, 0, len(t.toks)+8)
	cnt := map[string]int{}
	hi := 0
	for _, s := range t.toks {
		if !isHole(s) {
			out = append(out, s)
			continue
		}
		n := cnt[s]
		cnt[s]++
		if r, ok := sub[hi]; ok {
			out = append(out, r...)
		} else {
			f := fillers[s]
			d := f[len(f)-1]
			if n < len(f) {
				d = f[n]
			}
			if d != "" {
				out = append(out, strings.Split(d, " ")...)
			}
		}
		hi++
	}
	return out
}

// chains enumerates every composition in which at most one hole per level is expanded, to the given depth.
// depth 0: the category's templates with default fillers.
func (g grammar) chains(cat string, depth int, emit func([]string) bool) bool {
	return g.chainsSel(cat, depth, nil, emit)
}

func (g grammar) chainsSel(cat string, depth int, sel func(level int, cat string, t *tmpl) bool, emit func([]string) bool) bool {
	for _, t := range g[cat] {
		if sel != nil && !sel(depth, cat, t) {
			continue
		}
		if !emit(t.fill(nil)) {
			return false
		}
		if depth == 0 {
			continue
		}
		for hi, idx := range t.holes {
			ok := g.chainsSel(t.toks[idx], depth-1, sel, func(sub []string) bool {
				return emit(t.fill(map[int][]string{hi: sub}))
			})
			if !ok {
				return false
			}
		}
	}
	return true
}

// pairs enumerates all compositions in which two holes of one template are expanded at once (children at depth 0).
func (g grammar) pairs(cat string, core map[string][]*tmpl, emit func([]string) bool) bool {
	pick := func(c string) []*tmpl {
		if core != nil && core[c] != nil {
			return core[c]
		}
		return g[c]
	}
	for _, t := range g[cat] {
		for i := 0; i < len(t.holes); i++ {
			for j := i + 1; j < len(t.holes); j++ {
				for _, a := range pick(t.toks[t.holes[i]]) {
					for _, b := range pick(t.toks[t.holes[j]]) {
						if !emit(t.fill(map[int][]string{i: a.fill(nil), j: b.fill(nil)})) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func joinToks(ts []string) string {
	n := 0
	for _, t := range ts {
		n += len(t) + 1
	}
	var b strings.Builder
	b.Grow(n)
	glue := true
	for _, t := range ts {
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "¦") {
			glue = true
			t = t[len("¦"):]
		}
		tail := strings.HasSuffix(t, "¦")
		if tail {
			t = t[:len(t)-len("¦")]
		}
		if t == "" {
			continue
		}
		if !glue {
			b.WriteByte(' ')
		}
		glue = tail
		b.WriteString(t)
	}
	return b.String()
}

type alphabet struct {
	name string
	q, t int
	toks []string
}

func loadAlph(file string) []alphabet {
	b, err := dataFS.ReadFile("data/" + file)
	if err != nil {
		panic(err)
	}
	var out []alphabet
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimRight(l, " ")
		if l == "" || strings.HasPrefix(l, "# ") {
			continue
		}
		parts := strings.SplitN(l, " : ", 2)
		h := strings.Fields(parts[0])
		if len(h) != 3 {
			panic(fmt.Sprint("alphabet header: ", l))
		}
		q, _ := strconv.Atoi(h[1])
		t, _ := strconv.Atoi(h[2])
		toks := strings.Fields(parts[1])
		seen := map[string]bool{}
		var uniq []string
		for _, s := range toks {
			s = strings.ReplaceAll(s, "·", " ")
			s = strings.NewReplacer(`\n`, "\n", "␤", "\u2028", "␥", "\u2029").Replace(s)
			if !seen[s] {
				seen[s] = true
				uniq = append(uniq, s)
			}
		}
		out = append(out, alphabet{h[0], q, t, uniq})
	}
	return out
}

// seqs enumerates all token sequences of length 1..n, shortest first.
func seqs(toks []string, n int, emit func([]string) bool) bool {
	for l := 1; l <= n; l++ {
		idx := make([]int, l)
		buf := make([]string, l)
		for {
			for i, k := range idx {
				buf[i] = toks[k]
			}
			if !emit(buf) {
				return false
			}
			i := l - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(toks) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
	return true
}

// mutations of a token list: every deletion, duplication, adjacent swap, truncation, and replacement/insertion from reps.
func mutations(ts []string, reps []string, emit func([]string) bool) bool {
	n := len(ts)
	mk := func(pre []string, mid []string, post []string) bool {
		out := make([]string, 0, n+2)
		out = append(out, pre...)
		out = append(out, mid...)
		out = append(out, post...)
		return emit(out)
	}
	for i := 0; i < n; i++ {
		if !mk(ts[:i], nil, ts[i+1:]) { // delete
			return false
		}
		if i > 0 && !mk(ts[:i], nil, nil) { // truncate
			return false
		}
		if !mk(ts[:i], []string{ts[i], ts[i]}, ts[i+1:]) { // duplicate
			return false
		}
		if i+1 < n && !mk(ts[:i], []string{ts[i+1], ts[i]}, ts[i+2:]) { // swap
			return false
		}
		for _, r := range reps {
			if r != ts[i] && !mk(ts[:i], []string{r}, ts[i+1:]) {
				return false
			}
			if !mk(ts[:i], []string{r}, ts[i:]) {
				return false
			}
		}
	}
	return true
}

type dedup struct {
	seed maphash.Seed
	m    map[uint64]struct{}
}

func newDedup() *dedup { return &dedup{maphash.MakeSeed(), map[uint64]struct{}{}} }

func (d *dedup) fresh(s string) bool {
	h := maphash.String(d.seed, s)
	if _, ok := d.m[h]; ok {
		return false
	}
	d.m[h] = struct{}{}
	return true
}

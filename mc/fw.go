package main

// Framework shared by all checks: supervisor/child processes, in-flight input
// recording, watchdog, violation confirmation, known findings, evidence.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	slotSize = 8192
	maxSlots = 64
)

type Violation struct {
	Key    string          `json:"key"`    // identifies the failing case exactly
	What   string          `json:"what"`   // one-line description
	Detail json.RawMessage `json:"detail"` // anything needed for a replay
}

type Result struct {
	Counters   map[string]int64 `json:"counters"`
	Samples    []string         `json:"samples"`
	Rules      []string         `json:"rules"`
	Assume     []string         `json:"assume"`
	Exhaustive bool             `json:"exhaustive"`
	Violations []Violation      `json:"violations"`
	Total      int64            `json:"total_violations"`
	Done       bool             `json:"done"`
}

// Ctx is what a check sees.
type Ctx struct {
	ID       string
	Tier     string
	Workers  int
	Deadline time.Time

	mu       sync.Mutex
	res      Result
	seenKeys map[string]bool
	known    map[string]bool

	slots  []byte // mmapped in-flight table
	nslot  int32
	expire int32
	wd     []*slot
}

type slot struct {
	c     *Ctx
	buf   []byte
	since int64 // unix nano; 0 = idle
}

func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick chooses a bound by tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Quick() {
		return q
	}
	return t
}

func (c *Ctx) Add(name string, n int64) {
	c.mu.Lock()
	c.res.Counters[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.res.Samples) < 24 {
		if len(s) > 400 {
			s = s[:400]
		}
		c.res.Samples = append(c.res.Samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) Rule(s string)   { c.mu.Lock(); c.res.Rules = append(c.res.Rules, s); c.mu.Unlock() }
func (c *Ctx) Assume(s string) { c.mu.Lock(); c.res.Assume = append(c.res.Assume, s); c.mu.Unlock() }

// Expired reports that the internal deadline passed; the run then ends with exhaustive:false.
func (c *Ctx) Expired() bool {
	if atomic.LoadInt32(&c.expire) != 0 {
		return true
	}
	if time.Now().After(c.Deadline) {
		atomic.StoreInt32(&c.expire, 1)
		c.mu.Lock()
		c.res.Exhaustive = false
		c.mu.Unlock()
		return true
	}
	return false
}

func (c *Ctx) Violate(key, what string, detail interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.seenKeys[key] {
		return
	}
	c.seenKeys[key] = true
	if !c.known[key] {
		c.res.Total++
	}
	lim := 400
	if os.Getenv("MC_ALL") != "" {
		lim = 1 << 30
	}
	if len(c.res.Violations) < lim || c.known[key] {
		b, _ := json.Marshal(detail)
		c.res.Violations = append(c.res.Violations, Violation{key, what, b})
	}
}

// TooMany lets enumerations stop early once plenty of new violations are recorded.
func (c *Ctx) TooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.res.Total > 200 && os.Getenv("MC_ALL") == ""
}

// Slot gives a worker a place to record the input it is about to process.
func (c *Ctx) Slot() *slot {
	i := int(atomic.AddInt32(&c.nslot, 1)) - 1
	s := &slot{c: c}
	if i < maxSlots && c.slots != nil {
		s.buf = c.slots[i*slotSize : (i+1)*slotSize]
	}
	c.mu.Lock()
	c.wd = append(c.wd, s)
	c.mu.Unlock()
	return s
}

func (s *slot) Enter(key string) {
	if s.buf != nil {
		n := len(key)
		if n > slotSize-4 {
			n = slotSize - 4
		}
		copy(s.buf[4:], key[:n])
		s.buf[0], s.buf[1], s.buf[2], s.buf[3] = byte(n), byte(n>>8), byte(n>>16), 1
	}
	atomic.StoreInt64(&s.since, time.Now().UnixNano())
}

func (s *slot) Leave() {
	atomic.StoreInt64(&s.since, 0)
	if s.buf != nil {
		s.buf[3] = 0
	}
}

const hangLimit = 40 * time.Second

func (c *Ctx) watchdog() {
	for {
		time.Sleep(300 * time.Millisecond)
		now := time.Now().UnixNano()
		c.mu.Lock()
		for _, s := range c.wd {
			t := atomic.LoadInt64(&s.since)
			if t != 0 && time.Duration(now-t) > hangLimit {
				fmt.Fprintln(os.Stderr, "mc: watchdog: input in flight for", time.Duration(now-t))
				os.Exit(77)
			}
		}
		c.mu.Unlock()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 14<<30 {
			fmt.Fprintln(os.Stderr, "mc: watchdog: heap", ms.HeapAlloc)
			os.Exit(78)
		}
	}
}

type Check struct {
	ID    string
	Level string
	Run   func(c *Ctx)
	// One re-executes a single in-flight input (as recorded in a slot) in isolation.
	One func(key string)
	// Evidence picks the coverage fields from the counters.
	Cov func(r *Result) map[string]interface{}
}

var checks = map[string]*Check{}

func register(k *Check) { checks[k.ID] = k }

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// known findings: lines  "known: property=<id> key=<json string> <what fails>"
func loadKnown(id string) (map[string]string, error) {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return out, nil
		}
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		dec := json.NewDecoder(strings.NewReader(l[len(pre):]))
		var k string
		if err := dec.Decode(&k); err != nil {
			return nil, fmt.Errorf("bad known finding %q: %v", l, err)
		}
		rest := l[len(pre)+int(dec.InputOffset()):]
		out[k] = strings.TrimSpace(rest)
	}
	return out, nil
}

func childMain(id, tier, work string) {
	k := checks[id]
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(200)
	known, err := loadKnown(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	c := &Ctx{ID: id, Tier: tier, Workers: runtime.NumCPU(), seenKeys: map[string]bool{}, known: map[string]bool{}}
	for kk := range known {
		c.known[kk] = true
	}
	c.res.Counters = map[string]int64{}
	c.res.Exhaustive = true
	lim := 600 * time.Second
	if tier == "thorough" {
		lim = 3 * time.Hour
	}
	if v := os.Getenv("MC_DEADLINE"); v != "" {
		n, _ := strconv.Atoi(v)
		lim = time.Duration(n) * time.Second
	}
	c.Deadline = time.Now().Add(lim)
	f, err := os.OpenFile(filepath.Join(work, "slots"), os.O_RDWR|os.O_CREATE, 0644)
	if err == nil {
		f.Truncate(slotSize * maxSlots)
		c.slots, err = syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			c.slots = nil
		}
	}
	go c.watchdog()
	k.Run(c)
	c.res.Done = true
	b, _ := json.Marshal(&c.res)
	if err := os.WriteFile(filepath.Join(work, "result.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func inflight(work string) []string {
	b, err := os.ReadFile(filepath.Join(work, "slots"))
	if err != nil {
		return nil
	}
	var out []string
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := b[i : i+slotSize]
		if s[3] == 1 {
			n := int(s[0]) | int(s[1])<<8 | int(s[2])<<16
			out = append(out, string(s[4:4+n]))
		}
	}
	return out
}

// runOne re-executes one input in its own process; returns a description of the failure or "".
func runOne(id, key, work string, dl time.Duration) string {
	kf := filepath.Join(work, "one.key")
	os.WriteFile(kf, []byte(key), 0644)
	cmd := exec.Command(os.Args[0], "one", id, kf)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return ""
		}
		msg := eb.String()
		if i := strings.IndexByte(msg, '\n'); i > 0 {
			msg = msg[:i]
		}
		return "process died: " + msg
	case <-time.After(dl):
		cmd.Process.Kill()
		<-done
		return "does not terminate within " + dl.String()
	}
}

func runMain(id, tier string) int {
	start := time.Now()
	k := checks[id]
	if k == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 3
	}
	work, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(work)
	var res Result
	ok := false
	var crash []Violation
	for attempt := 0; attempt < 3 && !ok; attempt++ {
		os.Remove(filepath.Join(work, "result.json"))
		os.Remove(filepath.Join(work, "slots"))
		cmd := exec.Command(os.Args[0], "child", id, tier, work)
		var eb bytes.Buffer
		cmd.Stderr = &limitWriter{&eb, 1 << 16}
		cmd.Stdout = os.Stdout
		runErr := cmd.Run()
		if runErr == nil {
			b, err := os.ReadFile(filepath.Join(work, "result.json"))
			if err == nil && json.Unmarshal(b, &res) == nil && res.Done {
				ok = true
				if eb.Len() > 0 {
					os.Stderr.Write(eb.Bytes())
				}
				break
			}
		}
		fmt.Fprintln(os.Stderr, "mc: child failed:", runErr)
		os.Stderr.Write(eb.Bytes())
		for _, key := range inflight(work) {
			if why := runOne(id, key, work, 60*time.Second); why != "" {
				d, _ := json.Marshal(map[string]string{"input": key})
				crash = append(crash, Violation{"crash|" + key, why, d})
			}
		}
		if len(crash) > 0 {
			break
		}
	}
	if !ok && len(crash) == 0 {
		fmt.Fprintln(os.Stderr, "mc: check could not be completed")
		return 3
	}
	res.Violations = append(res.Violations, crash...)
	known, err := loadKnown(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var fresh []Violation
	nk := 0
	for _, v := range res.Violations {
		if w, isK := known[v.Key]; isK {
			nk++
			kb := jsonStr(v.Key)
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", id, kb, w)
			continue
		}
		fresh = append(fresh, v)
	}
	sort.SliceStable(fresh, func(i, j int) bool { return len(fresh[i].Key) < len(fresh[j].Key) })
	rdir := filepath.Join(verifDir(), "evidence", "replay", id)
	os.RemoveAll(rdir)
	for i, v := range fresh {
		if i >= 10 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		os.MkdirAll(rdir, 0755)
		pth := filepath.Join(rdir, fmt.Sprintf("%03d.json", i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "key": v.Key, "what": v.What, "detail": v.Detail}, "", " ")
		os.WriteFile(pth, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, pth)
		fmt.Printf("  %s\n  %s\n", jsonStr(v.Key), v.What)
	}
	if f := os.Getenv("MC_DUMP"); f != "" {
		var sb strings.Builder
		for _, v := range fresh {
			b, _ := json.Marshal(v)
			sb.Write(b)
			sb.WriteByte('\n')
		}
		os.WriteFile(f, []byte(sb.String()), 0644)
	}
	writeEvidence(k, tier, &res, len(fresh), nk, time.Since(start))
	fmt.Printf("%s %s: violations=%d known=%d exhaustive=%v counters=%v wall=%.1fs\n", id, tier, len(fresh), nk, res.Exhaustive, res.Counters, time.Since(start).Seconds())
	if len(fresh) > 0 {
		return 1
	}
	return 0
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func jsonStr(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.TrimRight(b.String(), "\n")
}

func writeEvidence(k *Check, tier string, r *Result, viol, known int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{}
	for n, v := range r.Counters {
		cov[n] = v
	}
	cov["rule"] = strings.Join(r.Rules, "; ")
	if r.Samples == nil {
		r.Samples = []string{}
	}
	cov["samples"] = r.Samples
	cov["exhaustive"] = r.Exhaustive
	cov["known_findings_seen"] = known
	if k.Cov != nil {
		for n, v := range k.Cov(r) {
			cov[n] = v
		}
	}
	ev := map[string]interface{}{
		"property": k.ID, "tier": tier, "seed": seed, "level": k.Level,
		"coverage": cov, "assumptions": r.Assume, "wall_s": wall.Seconds(), "violations": viol,
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, k.ID+".json"), b, 0644)
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID tier | child ... | one ID keyfile")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runMain(os.Args[2], os.Args[3]))
	case "child":
		childMain(os.Args[2], os.Args[3], os.Args[4])
	case "one":
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			os.Exit(3)
		}
		debug.SetMaxStack(512 << 20)
		debug.SetMemoryLimit(6 << 30)
		go func() {
			for {
				time.Sleep(200 * time.Millisecond)
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 8<<30 {
					fmt.Fprintln(os.Stderr, "memory grows without bound")
					os.Exit(9)
				}
			}
		}()
		if k := checks[os.Args[2]]; k != nil && k.One != nil {
			k.One(string(b))
		}
	case "tool":
		toolMain(os.Args[2:])
	default:
		os.Exit(3)
	}
}

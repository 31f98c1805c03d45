// Package vsched is a controlled scheduler: stand-ins for go statements,
// channels, select and the sync package whose every interleaving is decided by
// an exploration driver. The packages under test are rewritten onto it by
// ../instr.go and built through an overlay; nothing here is part of /repo.
//
// One thread runs at a time. All bookkeeping happens in a scheduler goroutine;
// threads hand it requests through a mailbox. In race builds the hand-over is
// invisible to the race detector and the real synchronisation edges are
// annotated, so every explored schedule is also checked for data races.
package vsched

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

type reqKind int

const (
	rPoint reqKind = iota
	rYield
	rOp
	rSpawn
	rExit
	rLog
	rPanic
)

type Thread struct {
	id     int
	wake   chan struct{}
	req    request
	resp   response
	state  int // 0 runnable, 1 blocked, 2 done
	ready  func() bool
	what   string
	name   string
	yields bool
}

type request struct {
	kind  reqKind
	op    func(t *Thread) // executed by the scheduler
	ready func() bool     // blocked until this holds (then op runs)
	what  string
	child *Thread
}

type response struct {
	idx   int
	val   interface{}
	ok    bool
	panik string
}

type sched struct {
	threads []*Thread
	cur     *Thread
	post    chan struct{} // thread -> scheduler
	abort   bool
	live    int
	events  []string
	steps   int
	failure string
	ex      *Explorer
	mainEnd bool
}

var (
	s   *sched
	cur *Thread
)

type abortT struct{}

// --- hand-over (invisible to the race detector)

//go:norace
func getCur() *Thread { return cur }

//go:norace
func setCur(t *Thread) { cur = t }

//go:norace
func aborted() bool { return s == nil || s.abort }

//go:norace
func put(t *Thread, r *request) { t.req = *r }

//go:norace
func take(t *Thread) *request { return &t.req }

//go:norace
func setResp(t *Thread, r *response) { t.resp = *r }

//go:norace
func getResp(t *Thread) response { return t.resp }

// threads publish to the scheduler, never the other way round
var toSched byte

//go:norace
func getPost() chan struct{} { return s.post }

//go:norace
func getWake(t *Thread) chan struct{} { return t.wake }

func call(r request) response {
	t := getCur()
	put(t, &r)
	raceRelease(unsafe.Pointer(&toSched))
	raceDisable()
	getPost() <- struct{}{}
	<-getWake(t)
	raceEnable()
	if aborted() {
		runtime.Goexit()
	}
	rs := getResp(t)
	if rs.panik != "" {
		panic(rs.panik)
	}
	return rs
}

// --- API used by rewritten code

// Point is a scheduling point: another thread may be chosen to run.
func Point() {
	if aborted() {
		return
	}
	call(request{kind: rPoint})
}

// Yield gives way to the other threads.
func Yield() {
	if aborted() {
		return
	}
	call(request{kind: rYield})
}

// Log records an event of the execution.
func Log(f string, a ...interface{}) {
	if aborted() {
		return
	}
	m := fmt.Sprintf(f, a...)
	call(request{kind: rLog, what: m})
}

func Go(name string, f func()) {
	if aborted() {
		return
	}
	t := &Thread{wake: make(chan struct{}), name: name}
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		if !aborted() {
			defer threadEnd()
			defer threadPanic()
			f()
			return
		}
		threadEnd()
	}()
	call(request{kind: rSpawn, child: t})
}

func threadPanic() {
	if x := recover(); x != nil {
		if aborted() {
			return
		}
		call(request{kind: rPanic, what: fmt.Sprint(x)})
	}
}

func threadEnd() {
	t := getCur()
	put(t, &request{kind: rExit})
	raceRelease(unsafe.Pointer(&toSched))
	raceDisable()
	getPost() <- struct{}{}
	raceEnable()
}

func op(what string, ready func() bool, f func(t *Thread)) response {
	return call(request{kind: rOp, what: what, ready: ready, op: f})
}

func always() bool { return true }

// --- sync

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	r      byte
	locked bool
}

func (m *Mutex) Lock() {
	if aborted() {
		return
	}
	op("Lock", func() bool { return !m.locked }, func(t *Thread) { m.locked = true })
	raceAcquire(unsafe.Pointer(&m.r))
}

func (m *Mutex) TryLock() bool {
	if aborted() {
		return true
	}
	r := op("TryLock", always, func(t *Thread) { t.resp.ok = !m.locked; m.locked = true })
	if r.ok {
		raceAcquire(unsafe.Pointer(&m.r))
	}
	return r.ok
}

func (m *Mutex) Unlock() {
	if aborted() {
		return
	}
	raceRelease(unsafe.Pointer(&m.r))
	op("Unlock", always, func(t *Thread) {
		if !m.locked {
			t.resp.panik = "sync: unlock of unlocked mutex"
		}
		m.locked = false
	})
}

type RWMutex struct {
	r, w    byte
	readers int
	locked  bool
	waiting int
}

func (m *RWMutex) Lock() {
	if aborted() {
		return
	}
	m2 := m
	op("RWMutex.Lock", func() bool { return !m2.locked && m2.readers == 0 }, func(t *Thread) { m2.locked = true })
	raceAcquire(unsafe.Pointer(&m.r))
	raceAcquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) TryLock() bool {
	if aborted() {
		return true
	}
	r := op("TryLock", always, func(t *Thread) {
		t.resp.ok = !m.locked && m.readers == 0
		if t.resp.ok {
			m.locked = true
		}
	})
	if r.ok {
		raceAcquire(unsafe.Pointer(&m.r))
		raceAcquire(unsafe.Pointer(&m.w))
	}
	return r.ok
}

func (m *RWMutex) Unlock() {
	if aborted() {
		return
	}
	raceRelease(unsafe.Pointer(&m.w))
	op("RWMutex.Unlock", always, func(t *Thread) {
		if !m.locked {
			t.resp.panik = "sync: Unlock of unlocked RWMutex"
		}
		m.locked = false
	})
}

func (m *RWMutex) RLock() {
	if aborted() {
		return
	}
	op("RLock", func() bool { return !m.locked }, func(t *Thread) { m.readers++ })
	raceAcquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) TryRLock() bool {
	if aborted() {
		return true
	}
	r := op("TryRLock", always, func(t *Thread) {
		t.resp.ok = !m.locked
		if t.resp.ok {
			m.readers++
		}
	})
	if r.ok {
		raceAcquire(unsafe.Pointer(&m.w))
	}
	return r.ok
}

func (m *RWMutex) RUnlock() {
	if aborted() {
		return
	}
	raceRelease(unsafe.Pointer(&m.r))
	op("RUnlock", always, func(t *Thread) {
		if m.readers == 0 {
			t.resp.panik = "sync: RUnlock of unlocked RWMutex"
			return
		}
		m.readers--
	})
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	r byte
	n int
}

func (w *WaitGroup) Add(d int) {
	if aborted() {
		return
	}
	raceRelease(unsafe.Pointer(&w.r))
	op("WaitGroup.Add", always, func(t *Thread) {
		w.n += d
		if w.n < 0 {
			t.resp.panik = "sync: negative WaitGroup counter"
		}
	})
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if aborted() {
		return
	}
	op("WaitGroup.Wait", func() bool { return w.n == 0 }, func(t *Thread) {})
	raceAcquire(unsafe.Pointer(&w.r))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

type Cond struct {
	L    Locker
	r    byte
	q    []*Thread
	fire map[*Thread]bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if aborted() {
		return
	}
	var me *Thread
	op("Cond.enqueue", always, func(t *Thread) {
		if c.fire == nil {
			c.fire = map[*Thread]bool{}
		}
		me = t
		c.q = append(c.q, t)
		c.fire[t] = false
	})
	c.L.Unlock()
	op("Cond.Wait", func() bool { return c.fire[me] }, func(t *Thread) { delete(c.fire, t) })
	raceAcquire(unsafe.Pointer(&c.r))
	c.L.Lock()
}

func (c *Cond) signal(n int) {
	if aborted() {
		return
	}
	raceRelease(unsafe.Pointer(&c.r))
	op("Cond.Signal", always, func(t *Thread) {
		for n != 0 && len(c.q) > 0 {
			c.fire[c.q[0]] = true
			c.q = c.q[1:]
			n--
		}
	})
}

func (c *Cond) Signal()    { c.signal(1) }
func (c *Cond) Broadcast() { c.signal(-1) }

// --- channels

type waiter struct {
	t     *Thread
	val   interface{} // value to send
	ok    bool
	idx   int
	sel   *selGroup
	send  bool
	owner *core
}

type selGroup struct {
	fired bool
	idx   int
	val   interface{}
	ok    bool
	panik string
	ws    []*waiter
}

type core struct {
	r      byte
	capa   int
	buf    []interface{}
	sendq  []*waiter
	recvq  []*waiter
	closed bool
}

type Chan[T any] struct{ c core }

func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.c.capa = n[0]
	}
	return c
}

func (c *Chan[T]) core() *core {
	if c == nil {
		return nil
	}
	return &c.c
}

func drop(q *[]*waiter, g *selGroup) {
	out := (*q)[:0:0]
	for _, w := range *q {
		if w.sel != g {
			out = append(out, w)
		}
	}
	*q = out
}

func fire(g *selGroup, idx int, val interface{}, ok bool) {
	g.fired = true
	g.idx, g.val, g.ok = idx, val, ok
	for _, w := range g.ws {
		if w.send {
			drop(&w.owner.sendq, g)
		} else {
			drop(&w.owner.recvq, g)
		}
	}
}

// canSend / canRecv: the operation can proceed without blocking
func (c *core) canSend() bool { return c.closed || len(c.recvq) > 0 || len(c.buf) < c.capa }
func (c *core) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (c *core) doSend(v interface{}) (panik string) {
	if c.closed {
		return "send on closed channel"
	}
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		fire(w.sel, w.idx, v, true)
		return
	}
	c.buf = append(c.buf, v)
	return
}

func (c *core) doRecv() (interface{}, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]interface{}{}, c.buf[1:]...)
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			c.buf = append(c.buf, w.val)
			fire(w.sel, w.idx, nil, true)
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		v := w.val
		fire(w.sel, w.idx, nil, true)
		return v, true
	}
	return nil, false
}

type Case struct {
	c    *core
	send bool
	val  interface{}
}

func (c *Chan[T]) RecvCase() Case    { return Case{c: c.core()} }
func (c *Chan[T]) SendCase(v T) Case { return Case{c: c.core(), send: true, val: v} }

// Select performs one of the cases; -1 is the default case.
func Select(hasDefault bool, cases ...Case) (int, interface{}, bool) {
	if aborted() {
		runtime.Goexit()
	}
	for _, k := range cases {
		if k.c != nil {
			raceRelease(unsafe.Pointer(&k.c.r))
		}
	}
	var g *selGroup
	op("select", always, func(t *Thread) {
		var rdy []int
		for i, k := range cases {
			if k.c == nil {
				continue
			}
			if k.send && k.c.canSend() || !k.send && k.c.canRecv() {
				rdy = append(rdy, i)
			}
		}
		if len(rdy) > 0 {
			i := rdy[s.ex.choose(len(rdy), 0)]
			k := cases[i]
			if k.send {
				t.resp.panik = k.c.doSend(k.val)
				t.resp.val, t.resp.ok = nil, false
			} else {
				t.resp.val, t.resp.ok = k.c.doRecv()
			}
			t.resp.idx = i
			return
		}
		if hasDefault {
			t.resp.idx = -1
			return
		}
		g = &selGroup{}
		for i, k := range cases {
			if k.c == nil {
				continue
			}
			w := &waiter{t: t, val: k.val, idx: i, sel: g, send: k.send, owner: k.c}
			g.ws = append(g.ws, w)
			if k.send {
				k.c.sendq = append(k.c.sendq, w)
			} else {
				k.c.recvq = append(k.c.recvq, w)
			}
		}
		t.resp.idx = -2
	})
	t := getCur()
	rs := getResp(t)
	if rs.idx == -2 {
		what := "select"
		if len(cases) == 1 {
			what = "receive"
			if cases[0].send {
				what = "send"
			}
			if cases[0].c == nil {
				what += " on nil channel"
			}
		}
		op(what, func() bool { return g.fired }, func(t *Thread) {
			t.resp.idx, t.resp.val, t.resp.ok, t.resp.panik = g.idx, g.val, g.ok, g.panik
		})
		rs = getResp(t)
	}
	if rs.idx >= 0 {
		raceAcquire(unsafe.Pointer(&cases[rs.idx].c.r))
	}
	return rs.idx, rs.val, rs.ok
}

func As[T any](v interface{}) (t T) {
	if v == nil {
		return
	}
	return v.(T)
}

func (c *Chan[T]) Send(v T) {
	if aborted() {
		return
	}
	Select(false, c.SendCase(v))
}

func (c *Chan[T]) Recv() T {
	if aborted() {
		var z T
		return z
	}
	_, v, _ := Select(false, c.RecvCase())
	return As[T](v)
}

func (c *Chan[T]) Recv2() (T, bool) {
	if aborted() {
		var z T
		return z, false
	}
	_, v, ok := Select(false, c.RecvCase())
	return As[T](v), ok
}

func (c *Chan[T]) Close() {
	if aborted() {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	raceRelease(unsafe.Pointer(&c.c.r))
	op("close", always, func(t *Thread) {
		k := &c.c
		if k.closed {
			t.resp.panik = "close of closed channel"
			return
		}
		k.closed = true
		for len(k.recvq) > 0 {
			w := k.recvq[0]
			fire(w.sel, w.idx, nil, false)
		}
		for len(k.sendq) > 0 {
			w := k.sendq[0]
			fire(w.sel, w.idx, nil, false)
			w.sel.panik = "send on closed channel"
		}
	})
}

func (c *Chan[T]) Len() int {
	if c == nil || aborted() {
		return 0
	}
	return op("len", always, func(t *Thread) { t.resp.idx = len(c.c.buf) }).idx
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.capa
}

// --- exploration

type choice struct{ n, i, cost int } // cost: what choosing i>0 costs

// Explorer enumerates all schedules within the bound, depth first.
type Explorer struct {
	Bound    int  // how many paid deviations
	Delay    bool // every deviation from the default order is paid (delay bounding), not only preemptions
	MaxSteps int
	trace    []choice
	pos      int
	Runs     int64
	Steps    int64
	Pruned   int64
	MaxDepth int
	MaxThr   int
}

func (e *Explorer) choose(n int, cost int) int {
	if n <= 1 {
		return 0
	}
	if e.pos < len(e.trace) {
		c := &e.trace[e.pos]
		e.pos++
		if c.n != n {
			// a replayed prefix must offer the same choices; otherwise the program is not deterministic
			s.fail("nondeterministic replay")
			return 0
		}
		return c.i
	}
	e.trace = append(e.trace, choice{n, 0, cost})
	e.pos++
	return 0
}

func (c choice) paid() int {
	if c.i == 0 {
		return 0
	}
	return c.cost
}

// next moves to the next unexplored schedule within the bound
func (e *Explorer) next() bool {
	for len(e.trace) > 0 {
		spent := 0
		for _, c := range e.trace[:len(e.trace)-1] {
			spent += c.paid()
		}
		l := &e.trace[len(e.trace)-1]
		l.i++
		if l.i < l.n && spent+l.paid() <= e.Bound {
			return true
		}
		e.trace = e.trace[:len(e.trace)-1]
	}
	return false
}

func (e *Explorer) Schedule() string {
	var sb strings.Builder
	for _, c := range e.trace {
		fmt.Fprintf(&sb, "%d/%d ", c.i, c.n)
	}
	return sb.String()
}

func (s *sched) fail(m string) {
	if s.failure == "" {
		s.failure = m
	}
}

// Outcome of one execution.
type Outcome struct {
	Events  []string
	Failure string   // panic, deadlock
	Leaked  []string // threads still blocked after everything else ended
	Pruned  bool
	Trace   string
}

// RunOnce executes main under the schedule the explorer currently holds.
func (e *Explorer) RunOnce(main func()) Outcome {
	s = &sched{post: make(chan struct{}), ex: e}
	e.pos = 0
	t0 := &Thread{id: 0, wake: make(chan struct{}), name: "main"}
	s.threads = []*Thread{t0}
	s.live = 1
	go func() {
		raceDisable()
		<-t0.wake
		raceEnable()
		defer threadEnd()
		defer threadPanic()
		main()
	}()
	out := Outcome{}
	cur := t0
	for {
		// run cur until it posts a request
		setCur(cur)
		raceDisable()
		cur.wake <- struct{}{}
		<-s.post
		raceEnable()
		raceAcquire(unsafe.Pointer(&toSched))
		r := take(cur)
		setResp(cur, &response{})
		s.steps++
		switch r.kind {
		case rExit:
			cur.state = 2
			if cur.id == 0 {
				s.mainEnd = true
			}
		case rPanic:
			s.fail("panic: " + r.what)
			cur.ready, cur.what = always, "panic"
			cur.req.op = nil
		case rLog:
			s.events = append(s.events, r.what)
			continue
		case rSpawn:
			r.child.id = len(s.threads)
			r.child.ready = always
			s.threads = append(s.threads, r.child)
			if len(s.threads) > e.MaxThr {
				e.MaxThr = len(s.threads)
			}
			cur.ready = always
			cur.req.op = nil
		case rPoint:
			cur.ready = always
			cur.req.op = nil
		case rYield:
			cur.ready = always
			cur.req.op = nil
			cur.yields = true
		case rOp:
			cur.ready, cur.what = r.ready, r.what
		}
		if s.failure != "" {
			break
		}
		if s.steps > e.MaxSteps {
			out.Pruned = true
			break
		}
		// choose the next thread
		var en []*Thread
		curOK := cur.state != 2 && !cur.yields && (cur.ready == nil || cur.ready())
		if curOK {
			en = append(en, cur)
		}
		n := len(s.threads)
		for k := 1; k <= n; k++ {
			t := s.threads[(cur.id+k)%n]
			if t == cur && (curOK || !cur.yields) {
				continue
			}
			if t.state != 2 && (t.ready == nil || t.ready()) {
				en = append(en, t)
			}
		}
		cur.yields = false
		if len(en) == 0 {
			for _, t := range s.threads {
				if t.state != 2 {
					out.Leaked = append(out.Leaked, fmt.Sprintf("thread %d (%s) blocked in %s", t.id, t.name, t.what))
				}
			}
			if !s.mainEnd {
				s.fail("deadlock: " + strings.Join(out.Leaked, "; "))
			}
			break
		}
		cost := 0
		if curOK || e.Delay {
			cost = 1
		}
		if len(en) > 1 && s.spentOut(e, cost) {
			cur = en[0]
		} else {
			cur = en[e.choose(len(en), cost)]
		}
		if s.failure != "" {
			break
		}
		// perform the pending operation of the chosen thread
		if cur.req.kind == rOp && cur.req.op != nil {
			f := cur.req.op
			cur.req.op = nil
			f(cur)
			cur.ready = nil
			if s.failure != "" {
				break
			}
		}
	}
	e.Runs++
	e.Steps += int64(s.steps)
	if len(e.trace) > e.MaxDepth {
		e.MaxDepth = len(e.trace)
	}
	out.Events = s.events
	out.Failure = s.failure
	// unwind what is still there
	setAbort()
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.state != 2 {
			setCur(t)
			raceDisable()
			t.wake <- struct{}{}
			<-s.post
			raceEnable()
		}
	}
	if out.Failure != "" || len(out.Leaked) > 0 {
		out.Trace = e.Schedule()
	}
	return out
}

// spentOut: no budget is left for another paid choice, so none is recorded
func (s *sched) spentOut(e *Explorer, cost int) bool {
	if cost == 0 {
		return false
	}
	n := 0
	for _, c := range e.trace[:e.pos] {
		n += c.paid()
	}
	return n >= e.Bound
}

//go:norace
func setAbort() { s.abort = true }

// Explore runs main under every schedule within the bound; check judges each execution. It stops at the first complaint.
func (e *Explorer) Explore(main func(), check func(o Outcome) string, stop func() bool) (why string, o Outcome, complete bool) {
	if e.MaxSteps == 0 {
		e.MaxSteps = 5000
	}
	for {
		o = e.RunOnce(main)
		if o.Pruned {
			e.Pruned++
		} else if w := check(o); w != "" {
			return w, o, true
		}
		if !e.next() {
			return "", o, true
		}
		if stop != nil && stop() {
			return "", o, false
		}
	}
}

// Replay runs main under the recorded schedule again.
func (e *Explorer) Replay(main func()) Outcome { return e.RunOnce(main) }

func Sleep(d interface{}) { Yield() }

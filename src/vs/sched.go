// Package vs is a cooperative scheduler for systematic exploration of
// interleavings. The code under test runs unmodified except that a source
// transformer (cmd/xform) replaced its synchronisation operations by the
// shims of the subpackages, which call Point before every operation.
//
// Exactly one registered goroutine ("thread") runs at a time; at every point
// the running thread picks the next one according to the strategy. Functions
// executed by threads are marked norace and use neither maps, append nor
// closures, and hand-offs happen under runtime.RaceDisable: the race detector
// sees only the happens-before edges of the program's own synchronisation.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

const (
	MaxThreads = 64
	MaxPlain   = 2048 // threads of an execution that is not explored
	MaxPoints  = 1 << 15
)

// Obj is a synchronisation object; shims embed it.
type Obj struct {
	id    int32
	epoch uint32
}

// Waiter is what a thread waits on: Ready tells whether the operation `kind`
// can be performed now.
type Waiter interface {
	Ready(kind uint8) bool
	Base() *Obj
}

// Operation kinds. Two operations on the same object are independent iff both
// belong to the same commuting class.
const (
	KStart   uint8 = iota // thread start (own object)
	KWrite                // anything not commuting
	KRead                 // read-side operation: commutes with other reads
	KLock                 // announce/acquire exclusive
	KLock2                // exclusive, waiting for readers to drain
	KUnlock               // exclusive release
	KRLock                // shared acquire
	KRUnlock              // shared release
	KDone                 // waitgroup decrement (commutes with itself)
	KWait                 // waitgroup wait
	KCall                 // harness: operation issued
	KRet                  // harness: operation returned
	KJoin                 // harness: wait for the workers
	KStmt                 // statement boundary (fine mode)
	KYield                // spin hint
	KRecv
	KSend
	KSelect
)

var kindNames = [...]string{"start", "write", "read", "lock", "lock2", "unlock", "rlock", "runlock", "done", "wait", "call", "ret", "join", "stmt", "yield", "recv", "send", "select"}

const (
	stNew uint8 = iota
	stReady
	stDone
)

type thread struct {
	id      int
	parent  int
	worker  int // harness worker it belongs to (-1: main)
	state   uint8
	kind    uint8
	obj     int32
	w       Waiter
	wake    chan struct{}
	yielded bool
	own     Obj
	born    int // decision during which it was created
	last    int // its latest decision, -1: none yet
	selVal  any
	selOK   bool
}

// node is one scheduling decision.
type node struct {
	enabled   uint64
	sleep     uint64
	done      uint64
	chosen    int8
	running   int8 // thread that was running, or -1
	runEn     bool // the running thread was still enabled
	pre       int  // preemptions before this decision
	branch    bool
	back      uint64 // threads to be tried here (reduction)
	clk       [MaxThreads]int16
	nthreads  int8
	alt, nalt int8 // which outcome of the chosen operation, of how many
	kinds     [MaxThreads]uint8
	objs      [MaxThreads]int32
}

// Outcome of one execution.
type Outcome uint8

const (
	OK Outcome = iota
	Pruned
	Deadlock
	Panicked
	TooLong
	Diverged
	Foreign
)

func (o Outcome) String() string {
	return [...]string{"ok", "pruned", "deadlock", "panic", "too-long", "diverged", "foreign-channel"}[o]
}

type sched struct {
	threads   []*thread
	n         int
	cur       *thread
	ctrl      chan struct{}
	aborting  bool
	outcome   Outcome
	panicMsg  string
	panicStk  string
	panicTid  int
	objs      int32
	epoch     uint32
	fine      bool
	sleepMode bool
	reduce    bool // only reversible races are reversed
	impure    bool // something in this execution is beyond the reduction
	branching bool
	nodes     []node // preallocated, len == cap
	replay    int    // decisions to be replayed from nodes
	depth     int
	steps     int
	pre       int
	pendGo    bool
	pendPar   int
	attached  chan struct{}
	endTok    byte
	foreign   bool
	forced    []int
	consec    int
	overflow  bool
	trace     []traceEnt
	ntrace    int
	tracing   bool
	once      bool
}

type traceEnt struct {
	tid  int8
	kind uint8
	obj  int32
}

var (
	s        *sched
	active   bool
	epochCtr uint32
)

// Active tells whether the caller runs under the scheduler.
//
//go:norace
func Active() bool { return active && !s.aborting }

// Aborting tells whether the current execution is being torn down.
//
//go:norace
func Aborting() bool { return active && s.aborting }

//go:norace
func (o *Obj) ident() int32 {
	if o.epoch != s.epoch {
		o.epoch = s.epoch
		s.objs++
		o.id = s.objs
	}
	return o.id
}

// Point is called before every visible operation. When it returns the
// operation is possible and the thread is the only one running. Outside an
// execution it only checks that the operation would not block.
//
//go:norace
func Point(w Waiter, kind uint8) {
	if !active {
		if !w.Ready(kind) {
			panic("vs: operation would block forever (" + kindNames[kind] + ")")
		}
		return
	}
	if s.aborting {
		return
	}
	t := s.cur
	t.w = w
	t.kind = kind
	t.obj = w.Base().ident()
	switchFrom(t)
}

// P is a statement boundary (fine mode only).
//
//go:norace
func P() {
	if !active || !s.fine || !s.branching || s.aborting {
		return
	}
	t := s.cur
	t.w = nil
	t.kind = KStmt
	t.obj = 0
	switchFrom(t)
}

// Then is a point between the evaluation of x and its use (fine mode only).
//
//go:norace
func Then[T any](x T) T {
	P()
	return x
}

// alternative picks one of n outcomes of the operation the running thread has
// just been chosen for; all of them are explored.
//
//go:norace
func alternative(n int) int {
	if n < 2 || !active || !s.branching || s.aborting || s.depth == 0 {
		return 0
	}
	nd := &s.nodes[s.depth-1]
	nd.nalt = int8(min(n, 100))
	return min(int(nd.alt), n-1)
}

// Yield is a spin hint: the thread lets the others go first.
//
//go:norace
func Yield() {
	if !active || s.aborting {
		return
	}
	t := s.cur
	t.w = nil
	t.kind = KYield
	t.obj = 0
	t.yielded = true
	switchFrom(t)
	t.yielded = false
}

//go:norace
func switchFrom(t *thread) {
	nt := decide(t)
	if nt == nil { // abort or end
		park(t, nil)
		return
	}
	if nt == t {
		return
	}
	park(t, nt)
}

// park hands control to nt (or to the controller) and waits to be resumed.
//
//go:norace
func park(t *thread, nt *thread) {
	raceOff()
	if nt == nil {
		s.ctrl <- struct{}{}
	} else {
		s.cur = nt
		nt.wake <- struct{}{}
	}
	<-t.wake
	raceOn()
	if s.aborting {
		runtime.Goexit()
	}
}

//go:norace
func isReady(t *thread) bool {
	if t == nil || t.state != stReady {
		return false
	}
	if t.w == nil {
		return true
	}
	return t.w.Ready(t.kind)
}

// independent tells whether two pending operations commute.
//
//go:norace
func independent(k1 uint8, o1 int32, k2 uint8, o2 int32) bool {
	if k1 == KStart || k2 == KStart {
		return true
	}
	if k1 == KYield || k2 == KYield || k1 == KStmt || k2 == KStmt || k1 == KSelect || k2 == KSelect {
		return false
	}
	if o1 != o2 {
		return true
	}
	switch k1 {
	case KRead, KRLock, KRUnlock:
		return k2 == KRead || k2 == KRLock || k2 == KRUnlock
	case KDone, KCall, KRet:
		return k1 == k2
	}
	return false
}

// decide picks the thread to run next; nil ends or aborts the execution (with
// s.outcome set).
//
//go:norace
func decide(t *thread) *thread {
	s.steps++
	if s.once && s.steps < maxOnce {
		return s.plain(t)
	}
	var en uint64
	nspin := 0
	for i := 0; i < s.n; i++ {
		if isReady(s.threads[i]) {
			en |= 1 << uint(i)
			if s.threads[i].yielded {
				nspin++
			}
		}
	}
	if en == 0 {
		blockedRaces(0)
		all := true
		for i := 0; i < s.n; i++ {
			if s.threads[i].state != stDone {
				all = false
			}
		}
		if all {
			s.outcome = OK
		} else if s.foreign {
			s.outcome = Foreign
		} else {
			s.outcome = Deadlock
		}
		return nil
	}
	// spinners run only if nothing else can
	if nspin > 0 {
		s.impure = true
		var e2 uint64
		for i := 0; i < s.n; i++ {
			if en&(1<<uint(i)) != 0 && !s.threads[i].yielded {
				e2 |= 1 << uint(i)
			}
		}
		if e2 != 0 {
			en = e2
		}
	}
	if s.steps >= MaxPoints-1 {
		s.outcome = TooLong
		return nil
	}
	// fairness: a thread that keeps running while others could is asked to wait
	if t != nil && s.consec > 400 && en&^(1<<uint(t.id)) != 0 {
		en &^= 1 << uint(t.id)
		s.impure = true
	}
	d := s.depth
	nd := &s.nodes[d]
	run := int8(-1)
	runEn := false
	if t != nil && t.state == stReady {
		run = int8(t.id)
		runEn = en&(1<<uint(t.id)) != 0 && !t.yielded
	}
	if d < s.replay {
		if nd.enabled != en || nd.running != run || int(nd.nthreads) != s.n {
			s.outcome = Diverged
			return nil
		}
		for i := 0; i < s.n; i++ {
			if s.threads[i].state == stReady && (nd.kinds[i] != s.threads[i].kind || nd.objs[i] != s.threads[i].obj) {
				s.outcome = Diverged
				return nil
			}
		}
	} else {
		nd.enabled = en
		nd.running = run
		nd.runEn = runEn
		nd.pre = s.pre
		nd.done = 0
		nd.sleep = 0
		nd.alt, nd.nalt = 0, 0
		nd.nthreads = int8(s.n)
		nd.branch = s.branching
		for i := 0; i < s.n; i++ {
			nd.kinds[i] = s.threads[i].kind
			nd.objs[i] = s.threads[i].obj
		}
		if s.sleepMode && d > 0 && s.branching {
			p := &s.nodes[d-1]
			z := (p.sleep | p.done) &^ (1 << uint(p.chosen))
			for i := 0; i < int(p.nthreads); i++ {
				b := uint64(1) << uint(i)
				if z&b != 0 && independent(p.kinds[i], p.objs[i], p.kinds[p.chosen], p.objs[p.chosen]) {
					nd.sleep |= b
				}
			}
		}
		cand := en &^ nd.sleep
		if d < len(s.forced) {
			if cand&(1<<uint(s.forced[d]&255)) == 0 {
				s.outcome = Diverged
				return nil
			}
			cand = 1 << uint(s.forced[d]&255)
			nd.alt = int8(s.forced[d] >> 8)
		}
		if cand == 0 {
			blockedRaces(en)
			s.outcome = Pruned
			return nil
		}
		if runEn && cand&(1<<uint(t.id)) != 0 {
			nd.chosen = int8(t.id)
		} else {
			for i := 0; i < s.n; i++ {
				if cand&(1<<uint(i)) != 0 {
					nd.chosen = int8(i)
					break
				}
			}
		}
		nd.back = 1 << uint(nd.chosen)
	}
	c := int(nd.chosen)
	if s.reduce {
		// (what the harness itself does before and after the clients is not explored)
		if d >= s.replay-1 && (nd.branch || s.threads[c].worker >= 0) {
			stamp(s.threads[c], &nd.clk)
			races(s.threads[c])
		} else if d >= s.replay {
			nd.clk = zeroClock
		}
		s.threads[c].last = d
	}
	s.depth++
	if runEn && c != t.id {
		s.pre++
	}
	nt := s.threads[c]
	if nt == t {
		s.consec++
	} else {
		s.consec = 0
	}
	if s.tracing {
		s.trace[s.ntrace] = traceEnt{int8(c), nt.kind, nt.obj}
		s.ntrace++
	}
	s.cur = nt
	return nt
}

// plain decides when nothing is explored: no history is kept, and there may be
// more threads.
//
//go:norace
func (s *sched) plain(t *thread) *thread {
	var first, spin *thread // the first that can go on: any; one that only waits for others
	all := true
	run := false
	for i := 0; i < s.n; i++ {
		x := s.threads[i]
		if x.state != stDone {
			all = false
		}
		switch {
		case !isReady(x):
		case x.yielded:
			if spin == nil || t != nil && spin.id <= t.id && x.id > t.id { // in turn
				spin = x
			}
			s.impure = true
		case x == t && s.consec > 400: // only if nothing else can
			if spin == nil || spin.yielded {
				spin = x
			}
		default:
			if first == nil {
				first = x
			}
			run = run || x == t
		}
	}
	if run {
		first = t
	}
	if first == nil {
		first = spin
	}
	if first == nil {
		switch {
		case all:
			s.outcome = OK
		case s.foreign:
			s.outcome = Foreign
		default:
			s.outcome = Deadlock
		}
		return nil
	}
	if first == t {
		s.consec++
	} else {
		s.consec = 0
	}
	s.cur = first
	return first
}

// maxOnce bounds the steps of an execution that is not explored.
const maxOnce = 1 << 22

// races looks for earlier decisions that took an operation which conflicts with
// the pending one of t, is not ordered before t's previous operation, and could
// have come after it; there, a thread that can begin the other way round must be
// tried as well. (Dynamic partial order reduction with source sets, Abdulla,
// Aronis, Jonsson and Sagonas 2014.)
//
//go:norace
func races(t *thread) {
	pc := prevClock(t)
	for i := s.depth - 1; i >= 0; i-- {
		nd := &s.nodes[i]
		if !nd.branch {
			continue
		}
		q := int(nd.chosen)
		if q == t.id || int(pc[q]) > i {
			continue
		}
		k, o := nd.kinds[q], nd.objs[q]
		if independent(k, o, t.kind, t.obj) || neverTogether(k, o, t.kind, t.obj) {
			continue
		}
		if (t.kind == KRecv || t.kind == KSend) && k != KSelect && t.last < i && t.id < int(nd.nthreads) &&
			nd.enabled&(1<<uint(t.id)) == 0 && nd.kinds[t.id] == t.kind && nd.objs[t.id] == t.obj {
			continue // it was waiting for what the other one did
		}
		// threads that can begin the sequence of what does not depend on
		// decision i, followed by the pending operation
		var seen, ini uint64
		tclk := *pc // of the pending operation when it follows them
		for j := i + 1; j < s.depth; j++ {
			e := &s.nodes[j]
			if int(e.clk[q]) > i {
				continue
			}
			c := int(e.chosen)
			if t.kind == KJoin || !independent(e.kinds[c], e.objs[c], t.kind, t.obj) {
				for x := 0; x < s.n; x++ {
					tclk[x] = max(tclk[x], e.clk[x])
				}
			}
			if seen&(1<<uint(c)) == 0 {
				if begins(seen, &e.clk) {
					ini |= 1 << uint(c)
				}
				seen |= 1 << uint(c)
				firsts[c] = int16(j)
			}
		}
		if b := uint64(1) << uint(t.id); seen&b == 0 && begins(seen, &tclk) {
			ini |= b
		}
		if ini &= nd.enabled; ini == 0 {
			nd.back |= nd.enabled
		} else if ini&nd.back == 0 {
			nd.back |= ini & -ini
		}
	}
}

var firsts [MaxThreads]int16

//go:norace
func begins(seen uint64, clk *[MaxThreads]int16) bool {
	for x := 0; x < s.n; x++ {
		if seen&(1<<uint(x)) != 0 && clk[x] > firsts[x] {
			return false
		}
	}
	return true
}

var zeroClock [MaxThreads]int16

// prevClock is the clock of t before its pending operation: for every thread the
// number of the last decision (plus one) ordered before.
//
//go:norace
func prevClock(t *thread) *[MaxThreads]int16 {
	if t.last >= 0 {
		return &s.nodes[t.last].clk
	}
	if t.born >= 0 {
		return &s.nodes[t.born].clk
	}
	return &zeroClock
}

// stamp computes the clock of the pending operation of t.
//
//go:norace
func stamp(t *thread, clk *[MaxThreads]int16) {
	d := s.depth
	*clk = *prevClock(t)
	for i := d - 1; i >= 0; i-- {
		p := &s.nodes[i]
		q := int(p.chosen)
		if int(clk[q]) > i {
			continue
		}
		if t.kind == KJoin || !independent(p.kinds[q], p.objs[q], t.kind, t.obj) {
			for j := 0; j < s.n; j++ {
				if p.clk[j] > clk[j] {
					clk[j] = p.clk[j]
				}
			}
		}
	}
	clk[t.id] = int16(d + 1)
}

// blockedRaces does the same for the threads that cannot go on when the execution
// ends here.
//
//go:norace
func blockedRaces(en uint64) {
	if !s.reduce {
		return
	}
	for i := 0; i < s.n; i++ {
		if s.threads[i].state == stReady && en&(1<<uint(i)) == 0 {
			races(s.threads[i])
		}
	}
}

// neverTogether: no state has both operations possible (or the code is wrong
// already, whichever comes first).
//
//go:norace
func neverTogether(k1 uint8, o1 int32, k2 uint8, o2 int32) bool {
	if o1 != o2 {
		return false
	}
	switch k1 {
	case KUnlock:
		return k2 == KLock || k2 == KRLock || k2 == KLock2
	case KRUnlock, KLock, KRLock:
		return k2 == KLock2
	case KDone:
		return k2 == KWait
	}
	return false
}

//go:norace
func newThread(parent int) *thread {
	id := s.n
	for i := 1; i < s.n && (!s.branching || s.n > 48); i++ {
		if s.threads[i].state == stDone {
			if s.branching {
				s.impure = true
			}
			id = i
			break
		}
	}
	if id >= len(s.threads) {
		return nil
	}
	t := &thread{id: id, parent: parent, worker: -1, wake: make(chan struct{}, 1)}
	t.born, t.last = s.depth-1, -1
	if parent >= 0 {
		t.worker = s.threads[parent].worker
	}
	t.kind = KStart
	t.obj = t.own.ident()
	t.state = stReady
	s.threads[id] = t
	if id == s.n {
		s.n++
	}
	return t
}

// BeforeGo, AfterGo, Attach and Detach bracket a go statement of the code
// under test: the parent registers the child and waits until it exists.
//
//go:norace
func BeforeGo() {
	if !active || s.aborting {
		return
	}
	s.pendGo = true
}

//go:norace
func AfterGo() {
	if !active || s.aborting || !s.pendGo {
		return
	}
	raceOff()
	<-s.attached
	raceOn()
	s.pendGo = false
	if s.overflow {
		s.outcome = TooLong
		park(s.cur, nil)
	}
}

//go:norace
func Attach() int {
	if !active || s.aborting || !s.pendGo {
		return -1
	}
	par := s.cur.id
	t := newThread(par)
	if t == nil { // more threads than supported: give the execution up
		s.overflow = true
		raceOff()
		s.attached <- struct{}{}
		select {}
	}
	raceOff()
	s.attached <- struct{}{}
	<-t.wake
	raceOn()
	if s.aborting {
		// Detach is already deferred by the caller's evaluation order? No: the
		// argument of the deferred call is being evaluated, so mark it here.
		t.state = stDone
		raceOff()
		s.ctrl <- struct{}{}
		raceOn()
		runtime.Goexit()
	}
	return t.id
}

// Detach ends a thread. It must be deferred directly.
//
//go:norace
func Detach(id int) {
	r := recover()
	if id < 0 {
		if r != nil {
			panic(r)
		}
		return
	}
	finish(s.threads[id], r)
}

//go:norace
func finish(t *thread, r any) {
	ReleaseMerge(unsafe.Pointer(&s.endTok))
	t.state = stDone
	if s.aborting {
		raceOff()
		s.ctrl <- struct{}{}
		raceOn()
		return
	}
	var nt *thread
	if r != nil {
		s.outcome = Panicked
		s.panicMsg = fmt.Sprint(r)
		s.panicStk = string(debug.Stack())
		s.panicTid = t.id
	} else {
		nt = decide(t)
	}
	raceOff()
	if nt == nil {
		s.ctrl <- struct{}{}
	} else {
		s.cur = nt
		nt.wake <- struct{}{}
	}
	raceOn()
}

// Wrap is used for go statements whose function is not a literal; see reflect.go.

// --- harness side -------------------------------------------------------

type joinWaiter struct{ o Obj }

//go:norace
func (j *joinWaiter) Ready(uint8) bool {
	for i := 1; i < s.n; i++ {
		if s.threads[i].worker >= 0 && s.threads[i].parent == 0 && s.threads[i].state != stDone {
			return false
		}
	}
	return true
}

//go:norace
func (j *joinWaiter) Base() *Obj { return &j.o }

var clock clockObj

type clockObj struct {
	o Obj
	t int64
}

//go:norace
func (c *clockObj) Ready(uint8) bool { return true }

//go:norace
func (c *clockObj) Base() *Obj { return &c.o }

// Call marks the start of an operation and returns its time stamp.
//
//go:norace
func Call() int64 {
	Point(&clock, KCall)
	clock.t++
	return clock.t
}

// Ret marks the return of an operation.
//
//go:norace
func Ret() int64 {
	Point(&clock, KRet)
	clock.t++
	return clock.t
}

// host is a goroutine that carries harness threads, one per execution: the race
// detector never gives back all the memory of a goroutine. Hosts take part in
// nothing but their start and end, so reuse adds no order within an execution.
type host struct {
	jobs chan job
	dead bool
}

type job struct {
	t *thread
	f func()
}

var hosts [MaxThreads]*host

//go:norace
func startOn(i int, t *thread, f func()) {
	h := hosts[i]
	if h == nil || h.dead {
		h = &host{jobs: make(chan job, 1)}
		hosts[i] = h
		go h.loop()
	}
	h.jobs <- job{t, f}
}

func (h *host) loop() {
	for j := range h.jobs {
		h.carry(j.t, j.f)
	}
}

func (h *host) carry(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	normal := false
	defer func() {
		r := recover()
		h.left(!normal && r == nil) // through Goexit
		finish(t, r)
	}()
	if Active() {
		f()
	}
	normal = true
}

//go:norace
func (h *host) left(dead bool) { h.dead = dead }

// Spawn starts a harness worker (called by the main thread).
func Spawn(worker int, f func()) {
	t := newThread(0)
	t.worker = worker
	startOn(t.id, t, f)
}

var jw joinWaiter

// Join waits for all workers.
func Join() {
	Point(&jw, KJoin)
	Acquire(unsafe.Pointer(&s.endTok))
}

// SetBranching turns exploration of alternatives on or off from here on.
func SetBranching(b bool) { s.branching = b }

// CurWorker is the harness worker of the running thread.
//
//go:norace
func CurWorker() int { return s.cur.worker }

// LiveThreads counts threads that have not finished, except the caller.
//
//go:norace
func LiveThreads() int {
	k := 0
	for i := 0; i < s.n; i++ {
		if s.threads[i] != s.cur && s.threads[i].state != stDone {
			k++
		}
	}
	return k
}

// Sleep stands for time.Sleep: time does not pass, others go first.
func Sleep(d time.Duration) { Yield() }

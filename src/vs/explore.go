package vs

import (
	"fmt"
	"strings"
	"time"
	"unsafe"
)

// Config of one exploration.
type Config struct {
	Fine     bool // statement boundaries are points too
	Sleep    bool // sleep-set reduction, unbounded preemptions
	Bound    int  // preemption bound (ignored with Sleep)
	MaxExecs int  // 0: none
	Once     bool // a single execution: no history is kept
	Stop     func() bool
}

// Exec is one finished execution.
type Exec struct {
	Outcome  Outcome
	Panic    string
	Stack    string
	Choices  []int
	Steps    int
	Preempts int
	Where    string
	Races    int
	Trace    string
}

// Stats of an exploration.
type Stats struct {
	Execs, Pruned, Steps, Diverged, Capped, TooLong, Foreign int64
	Nodes                                                    int64 // nodes of the schedule tree visited
	MaxSteps                                                 int
}

func (a *Stats) Add(b Stats) {
	a.Execs += b.Execs
	a.Pruned += b.Pruned
	a.Steps += b.Steps
	a.Nodes += b.Nodes
	a.Diverged += b.Diverged
	a.Capped += b.Capped
	a.TooLong += b.TooLong
	a.Foreign += b.Foreign
	if b.MaxSteps > a.MaxSteps {
		a.MaxSteps = b.MaxSteps
	}
}

// Full turns the reduction to reversible races off (sleep sets remain).
var Full bool

var nodeBuf = make([]node, MaxPoints)
var traceBuf = make([]traceEnt, MaxPoints)

// runOne executes body once, replaying the first `replay` decisions of nodeBuf.
func runOne(cfg Config, replay int, body func(), forced ...int) (*sched, Exec) {
	epochCtr++
	s = &sched{ctrl: make(chan struct{}, 1), attached: make(chan struct{}, 1), nodes: nodeBuf, replay: replay,
		fine: cfg.Fine, sleepMode: cfg.Sleep, reduce: cfg.Sleep && !Full, epoch: epochCtr, trace: traceBuf, tracing: cfg.Bound < 0, once: cfg.Once, forced: forced}
	clock.t = 0
	s.threads = make([]*thread, MaxThreads)
	if cfg.Once {
		s.threads = make([]*thread, MaxPlain)
	}
	x := Exec{}
	races := RaceErrors()
	t := newThread(-1)
	active = true
	startOn(0, t, body)
	s.cur = t
	t.wake <- struct{}{}
	<-s.ctrl
	x.Outcome = s.outcome
	x.Panic, x.Stack = s.panicMsg, s.panicStk
	if s.outcome != OK {
		x.Where = describe()
		s.aborting = true
		for i := 0; i < s.n; i++ {
			th := s.threads[i]
			if th.state != stDone {
				th.wake <- struct{}{}
				<-s.ctrl
			}
		}
	}
	active = false
	Acquire(unsafe.Pointer(&s.endTok))
	x.Steps = s.depth
	x.Preempts = s.pre
	x.Races = RaceErrors() - races
	return s, x
}

// HangTimeout bounds the time between two scheduling points.
var HangTimeout = 120 * time.Second

// OnHang is called (from another goroutine) when a thread does not reach its
// next point in time.
var OnHang = func(where string) { panic("vs: hang: " + where) }

// Watch starts the watchdog.
//
//go:norace
func Watch() {
	go watchLoop()
}

//go:norace
func watchLoop() {
	var le uint32
	var ls int
	last := time.Now()
	for {
		time.Sleep(HangTimeout / 20)
		if !active || s == nil {
			last = time.Now()
			continue
		}
		e, st := s.epoch, s.steps
		if e != le || st != ls {
			le, ls, last = e, st, time.Now()
			continue
		}
		if time.Since(last) > HangTimeout {
			OnHang(describe())
		}
	}
}

func describe() string {
	var b strings.Builder
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.state == stDone {
			continue
		}
		r := "blocked"
		if isReady(t) {
			r = "ready"
		}
		fmt.Fprintf(&b, "[thread %d worker %d %s at %s obj %d]", t.id, t.worker, r, kindNames[t.kind], t.obj)
	}
	return b.String()
}

func choices(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = int(nodeBuf[i].chosen) | int(nodeBuf[i].alt)<<8
	}
	return r
}

// Explore runs body under every schedule of the strategy. visit is called for
// every complete (not pruned) execution and returns false to stop.
func Explore(cfg Config, body func(), visit func(x *Exec) bool) Stats {
	var st Stats
	replay := 0
	retries := 0
	for {
		sc, x := runOne(cfg, replay, body)
		if x.Outcome == Diverged {
			// some nondeterminism is not under our control; retry, then give
			// up on this branch (reported, never judged)
			retries++
			if retries < 20 {
				continue
			}
			retries = 0
			st.Diverged++
			sc.depth = min(sc.depth, replay)
		} else {
			retries = 0
			st.Steps += int64(x.Steps)
			st.Nodes += int64(x.Steps - max(replay-1, 0))
			if x.Steps > st.MaxSteps {
				st.MaxSteps = x.Steps
			}
			switch x.Outcome {
			case Pruned:
				st.Pruned++
			case TooLong:
				st.TooLong++
				st.Execs++
			case Foreign:
				st.Foreign++
				st.Execs++
			default:
				st.Execs++
				x.Choices = choices(sc.depth)
				if !visit(&x) {
					return st
				}
			}
		}
		if sc.reduce && (sc.impure || sc.foreign) {
			for i := 0; i < sc.depth; i++ {
				nodeBuf[i].back = nodeBuf[i].enabled
			}
		}
		// backtrack
		d := sc.depth - 1
		found := false
		for ; d >= 0; d-- {
			nd := &nodeBuf[d]
			if !nd.branch {
				continue
			}
			if nd.alt+1 < nd.nalt { // another outcome of the same operation
				nd.alt++
				found = true
				break
			}
			nd.alt, nd.nalt = 0, 0
			nd.done |= 1 << uint(nd.chosen)
			cand := nd.enabled &^ nd.done &^ nd.sleep
			if sc.reduce {
				cand &= nd.back
			}
			if !cfg.Sleep && nd.runEn && nd.pre+1 > cfg.Bound {
				// only the running thread is allowed here
				cand = 0
			}
			if cand != 0 {
				for i := 0; i < MaxThreads; i++ {
					if cand&(1<<uint(i)) != 0 {
						nd.chosen = int8(i)
						break
					}
				}
				found = true
				break
			}
		}
		if !found {
			return st
		}
		if (cfg.MaxExecs > 0 && st.Execs >= int64(cfg.MaxExecs)) || (cfg.Stop != nil && (st.Execs+st.Pruned)%64 == 0 && cfg.Stop()) {
			st.Capped++
			return st
		}
		replay = d + 1
	}
}

// Once runs body with the default schedule (no exploration).
func Once(body func()) Exec {
	_, x := runOne(Config{Once: true}, 0, body)
	return x
}

// Replay runs body along the given choices (default choice afterwards).
func Replay(fine bool, ch []int, body func()) Exec {
	_, x := runOne(Config{Fine: fine, Bound: -1}, 0, body, ch...)
	var b strings.Builder
	for i := 0; i < s.ntrace; i++ {
		e := s.trace[i]
		fmt.Fprintf(&b, "t%d:%s#%d ", e.tid, kindNames[e.kind], e.obj)
	}
	x.Trace = b.String()
	return x
}

// Again re-executes the execution just visited, from within visit, and leaves
// the exploration as it was.
func Again(fine bool, ch []int, body func()) Exec {
	saved := append([]node(nil), nodeBuf[:len(ch)]...)
	sc := s
	x := Replay(fine, ch, body)
	copy(nodeBuf, saved)
	s = sc
	return x
}

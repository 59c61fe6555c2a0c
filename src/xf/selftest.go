package main

import (
	"fmt"
	"strings"

	"github.com/sonirico/visigoth/zz_verif/vs"
	"github.com/sonirico/visigoth/zz_verif/vs/vatomic"
	"github.com/sonirico/visigoth/zz_verif/vs/vsync"
)

// The reduction of the "all schedules" mode, compared with plain sleep sets (which
// need no argument beyond independence) on small programs over every kind of
// synchronisation: both must see the same number of executions, deadlocks
// included, because each visits exactly one execution of every equivalence class.

type toys struct {
	a, b vsync.RWMutex
	m    vsync.Mutex
	c, d chan int
	n    vatomic.Int32
	o    vsync.Once
}

var moves = []struct {
	name string
	do   func(t *toys)
}{
	{"W", func(t *toys) { t.a.Lock(); t.a.Unlock() }},
	{"R", func(t *toys) { t.a.RLock(); t.a.RUnlock() }},
	{"Ww", func(t *toys) { t.a.Lock(); t.b.Lock(); t.b.Unlock(); t.a.Unlock() }},
	{"Rw", func(t *toys) { t.a.RLock(); t.b.Lock(); t.b.Unlock(); t.a.RUnlock() }},
	{"Rr", func(t *toys) { t.a.RLock(); t.b.RLock(); t.b.RUnlock(); t.a.RUnlock() }},
	{"RR", func(t *toys) { t.a.RLock(); t.a.RLock(); t.a.RUnlock(); t.a.RUnlock() }},
	{"wW", func(t *toys) { t.b.Lock(); t.a.Lock(); t.a.Unlock(); t.b.Unlock() }},
	{"m", func(t *toys) { t.m.Lock(); t.m.Unlock() }},
	{"try", func(t *toys) {
		if t.m.TryLock() {
			t.m.Unlock()
		}
	}},
	{"mW", func(t *toys) { t.m.Lock(); t.a.Lock(); t.a.Unlock(); t.m.Unlock() }},
	{"c<-", func(t *toys) { vs.ChS(t.c)(1) }},
	{"<-c", func(t *toys) { vs.ChR(t.c) }},
	{"d<-", func(t *toys) { vs.ChS(t.d)(1) }},
	{"<-d", func(t *toys) { vs.ChR(t.d) }},
	{"sel", func(t *toys) { vs.Select(false, vs.SR(t.c), vs.SR(t.d)) }},
	{"seld", func(t *toys) { vs.Select(true, vs.SR(t.c), vs.SS(t.d)(1)) }},
	{"n++", func(t *toys) { t.n.Add(1) }},
	{"n", func(t *toys) { t.n.Load() }},
	{"once", func(t *toys) { t.o.Do(func() { t.n.Add(1) }) }},
	{"wg", func(t *toys) {
		var wg vsync.WaitGroup
		wg.Add(2)
		for range 2 {
			vs.BeforeGo()
			go func() { defer vs.Detach(vs.Attach()); t.n.Load(); wg.Done() }()
			vs.AfterGo()
		}
		wg.Wait()
	}},
}

func toy(prog [][]int) func() {
	return func() {
		vs.SetBranching(false)
		t := &toys{c: vs.Made(make(chan int, 1)), d: vs.Made(make(chan int))}
		for w, p := range prog {
			vs.Spawn(w, func() {
				for _, k := range p {
					moves[k].do(t)
				}
			})
		}
		vs.SetBranching(true)
		vs.Join()
		vs.SetBranching(false)
	}
}

func toyName(prog [][]int) string {
	var l []string
	for _, p := range prog {
		var x []string
		for _, k := range p {
			x = append(x, moves[k].name)
		}
		l = append(l, strings.Join(x, ";"))
	}
	return strings.Join(l, " || ")
}

// compareToy returns the executions under both modes and how many of them deadlock.
func compareToy(prog [][]int) (n [2]int64, dead [2]int64, pruned [2]int64) {
	for full := range 2 {
		vs.Full = full == 1
		st := vs.Explore(vs.Config{Sleep: true}, toy(prog), func(x *vs.Exec) bool {
			if x.Outcome == vs.Deadlock {
				dead[full]++
			}
			return true
		})
		n[full], pruned[full] = st.Execs, st.Pruned
	}
	vs.Full = *fullF
	return
}

// selftest compares every program of the enumeration; size 0 is the small one.
func selftest(size int) int {
	var progs [][][]int
	k := len(moves)
	for i := range k {
		for j := i; j < k; j++ {
			for l := j; l < k; l++ {
				progs = append(progs, [][]int{{i}, {j}, {l}})
			}
		}
	}
	for i := range k * k {
		for j := i; j < k*k; j++ {
			if size == 0 && (i*7+j)%11 != 0 {
				continue
			}
			progs = append(progs, [][]int{{i / k, i % k}, {j / k, j % k}})
		}
	}
	if size > 1 {
		for i := range k * k {
			for j := range k {
				for l := j; l < k; l++ {
					progs = append(progs, [][]int{{i / k, i % k}, {j}, {l}})
				}
			}
		}
	}
	var execs, dead, cut, full, bad int64
	for i, p := range progs {
		if i%*shardsF != *shardF {
			continue
		}
		n, d, c := compareToy(p)
		execs += n[0]
		dead += d[0]
		cut += c[0]
		full += c[1]
		if n[0] != n[1] || d[0] != d[1] {
			bad++
			fmt.Println("DIFFERENT", n, d, toyName(p))
		}
	}
	fmt.Printf("%d programs, %d executions (%d deadlocks) under both, cut %d instead of %d, %d differences\n", len(progs), execs, dead, cut, full, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

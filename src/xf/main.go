// Command xf explores the transformed copy of the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"maps"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/sonirico/visigoth/zz_verif/vs"
)

// Result is what one shard reports.
type Result struct {
	Prop        string            `json:"prop"`
	Units       int               `json:"units"`
	UnitsTotal  int               `json:"units_total"`
	Stats       vs.Stats          `json:"stats"`
	Histories   int64             `json:"histories"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Traces      int64             `json:"traces"`
	Distinct    int64             `json:"distinct"`
	Samples     []string          `json:"samples"`
	Viols       []*Viol           `json:"viols"`
	Maybe       *Viol             `json:"-"` // seen once, not again in this process
	Unsteady    int64             `json:"unsteady"`
	Skipped     int               `json:"skipped"`
	Incomplete  map[string]int    `json:"incomplete"`
	Groups      map[string]*Group `json:"groups"`
	Crash       string            `json:"crash,omitempty"`
	Done        bool              `json:"done"`
}

// Group is the part of the work with one name.
type Group struct {
	Units, Done int
	Execs       int64
	MS          int64
	Complete    bool
}

type unit struct {
	group string
	run   func(out *Result) *Viol
	secs  int // time given at first; 0: the default
}

var (
	propF     = flag.String("prop", "", "")
	tierF     = flag.String("tier", "quick", "")
	shardF    = flag.Int("shard", 0, "")
	shardsF   = flag.Int("shards", 1, "")
	outF      = flag.String("out", "", "")
	progressF = flag.String("progress", "", "")
	stopF     = flag.String("stop", "", "")
	deadF     = flag.Int64("deadline", 0, "unix ms")
	replayF   = flag.String("replay", "", "")
	resumeF   = flag.String("resume", "", "continue from this file")
	fullF     = flag.Bool("full", false, "no reduction besides sleep sets")
	selfF     = flag.Int("selftest", -1, "compare the reduction with full exploration on small programs")
	perUnitF  = flag.Bool("per-unit", false, "print the executions of every unit")
	soloF     = flag.Bool("solo", false, "no other shards are running")
	onlyF     = flag.Int("only", -1, "run only this unit")
	raceF     = flag.Bool("norace-ok", false, "")
	deadline  time.Time
	maxExecs  = 0
	out       *Result
	curUnit   int
)

func thorough() bool { return *tierF == "thorough" }

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }

var (
	unitEnd  time.Time
	sliced   bool
	lastLook time.Time
	wasStop  bool
	looks    int
	micros   = map[*Group]int64{}
)

// stopped: another shard has found a violation.
func stopped() bool {
	if *stopF == "" || wasStop {
		return wasStop
	}
	if time.Since(lastLook) > 200*time.Millisecond {
		lastLook = time.Now()
		_, err := os.Stat(*stopF)
		wasStop = err == nil
	}
	return wasStop
}

// The race detector's memory grows with every goroutine that ever ran. Between
// units the process starts anew, keeping its results, when it has grown large.
const renewMB, abandonMB = 1000, 3000

func residentMB() int {
	if !vs.RaceEnabled {
		return 0
	}
	b, _ := os.ReadFile("/proc/self/statm")
	var a, r int
	_, _ = fmt.Sscan(string(b), &a, &r)
	return r * os.Getpagesize() >> 20
}

type saved struct {
	Out    *Result
	Maybe  *Viol
	Micros map[string]int64
	Left   []int
}

func renew(left []int) {
	if *outF == "" || residentMB() < renewMB {
		return
	}
	sv := saved{out, out.Maybe, map[string]int64{}, left}
	for g, us := range micros {
		for n, x := range out.Groups {
			if x == g {
				sv.Micros[n] = us
			}
		}
	}
	b, err := json.Marshal(sv)
	f := *outF + ".saved"
	if err != nil || os.WriteFile(f, b, 0o644) != nil {
		return
	}
	_ = syscall.Exec("/proc/self/exe", append(os.Args[:len(os.Args):len(os.Args)], "-resume", f), os.Environ())
}

// resume takes up what renew kept.
func resume(todo []int) []int {
	if *resumeF == "" {
		return todo
	}
	b, err := os.ReadFile(*resumeF)
	var sv saved
	if err == nil {
		err = json.Unmarshal(b, &sv)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "resume:", err)
		os.Exit(2)
	}
	_ = os.Remove(*resumeF)
	out = sv.Out
	out.Maybe = sv.Maybe
	for n, us := range sv.Micros {
		micros[out.Groups[n]] = us
	}
	return sv.Left
}

// stopNow ends the exploration of the current unit.
func stopNow() bool {
	if vs.RaceEnabled {
		if looks++; looks%16 == 0 && residentMB() > abandonMB {
			out.Incomplete["memory"]++
			return true
		}
	}
	if !unitEnd.IsZero() && time.Now().After(unitEnd) {
		sliced = true
		return true
	}
	return late() || stopped()
}

func flush() {
	b, _ := json.Marshal(out)
	if *outF != "" {
		_ = os.WriteFile(*outF+".tmp", b, 0o644)
		_ = os.Rename(*outF+".tmp", *outF)
	} else {
		fmt.Println(string(b))
	}
}

func main() {
	flag.Parse()
	runtime.GOMAXPROCS(1)
	vs.Full = *fullF
	if *selfF >= 0 {
		os.Exit(selftest(*selfF))
	}
	if *deadF > 0 {
		deadline = time.UnixMilli(*deadF)
	}
	out = &Result{Prop: *propF, Incomplete: map[string]int{}, Groups: map[string]*Group{}}
	vs.HangTimeout = 40 * time.Second
	vs.OnHang = func(where string) {
		out.Crash = "a call did not reach its next step within 40 s: " + where
		flush()
		os.Exit(5)
	}
	vs.Watch()
	if *replayF != "" {
		os.Exit(replay(*replayF))
	}
	units := unitsFor(*propF)
	out.UnitsTotal = len(units)
	var todo []int
	for i, u := range units {
		g := out.Groups[u.group]
		if g == nil {
			g = &Group{Complete: true}
			out.Groups[u.group] = g
		}
		if i%*shardsF != *shardF || *onlyF >= 0 && i != *onlyF {
			continue
		}
		g.Units++
		todo = append(todo, i)
	}
	runUnits(units, todo)
	for g, us := range micros {
		g.MS = us / 1000
	}
	if len(out.Viols) == 0 && out.Maybe != nil {
		out.Viols = append(out.Viols, out.Maybe)
	}
	out.Done = true
	flush()
}

// runUnits gives every unit of the shard a short time first. Units that need
// more go to a pool shared by the shards and are taken up again from the start
// with ten times the time, until they finish or the deadline passes.
func runUnits(units []unit, todo []int) {
	dir := *stopF + ".pool"
	need := *shardsF
	if *stopF == "" || *onlyF >= 0 || *soloF {
		dir, need = *outF+".pool", 1
		defer os.RemoveAll(dir)
	}
	_ = os.MkdirAll(dir, 0o755)
	todo = resume(todo)
	slice := 3
	if *onlyF >= 0 {
		slice = 1 << 20
	}
	// one group must not use up the time of the others: it gets a third of what
	// is left when its turn comes, what remains of it waits in the pool
	var turn string
	var turnEnd time.Time
	for k, i := range todo {
		u := units[i]
		renew(todo[k:])
		if u.group != turn && !deadline.IsZero() {
			turn, turnEnd = u.group, time.Now().Add(max(2*time.Second, time.Until(deadline)/3))
		}
		secs := max(slice, u.secs)
		if !deadline.IsZero() {
			if left := time.Until(turnEnd); left < 0 && !late() {
				_ = os.WriteFile(fmt.Sprintf("%s/u.%d.%d", dir, secs, i), nil, 0o644)
				continue
			} else if u.secs > slice {
				secs = max(slice, min(secs, int(left.Seconds())))
			}
		}
		if !runSlice(units, i, secs, dir) {
			return
		}
	}
	_ = os.WriteFile(fmt.Sprintf("%s/done.%d", dir, *shardF), nil, 0o644)
	for !late() && !stopped() {
		ents, _ := os.ReadDir(dir)
		left, ended := [][2]int{}, 0
		for _, e := range ents {
			var k [2]int
			if n, _ := fmt.Sscanf(e.Name(), "u.%d.%d", &k[0], &k[1]); n == 2 {
				left = append(left, k)
			} else if strings.HasPrefix(e.Name(), "done.") {
				ended++
			}
		}
		if len(left) == 0 {
			if ended >= need {
				return
			}
			time.Sleep(50 * time.Millisecond)
			continue
		}
		sort.Slice(left, func(a, b int) bool {
			return left[a][0] < left[b][0] || left[a][0] == left[b][0] && left[a][1] < left[b][1]
		})
		renew(nil)
		for _, k := range left {
			if os.Remove(fmt.Sprintf("%s/u.%d.%d", dir, k[0], k[1])) == nil { // claimed
				_ = os.Remove(fmt.Sprintf("%s/done.%d", dir, *shardF)) // it may come back
				ok := runSlice(units, k[1], k[0], dir)
				_ = os.WriteFile(fmt.Sprintf("%s/done.%d", dir, *shardF), nil, 0o644)
				if !ok {
					return
				}
				break
			}
		}
	}
}

// runSlice explores a unit for the given number of seconds; false ends the shard.
func runSlice(units []unit, i, secs int, dir string) bool {
	u := units[i]
	g := out.Groups[u.group]
	if late() || stopped() {
		out.Skipped++
		g.Complete = false
		return true
	}
	unitEnd = time.Now().Add(time.Duration(secs) * time.Second)
	curUnit = i
	if *progressF != "" {
		_ = os.WriteFile(*progressF, []byte(fmt.Sprint(i)), 0o644)
	}
	before := *out
	before.Incomplete = maps.Clone(out.Incomplete)
	t0 := time.Now()
	sliced = false
	vi := u.run(out)
	micros[g] += time.Since(t0).Microseconds()
	if vi != nil {
		vi.Unit = i
		out.Viols = append(out.Viols, vi)
		flush()
		if *stopF != "" {
			_ = os.WriteFile(*stopF, nil, 0o644)
		}
		g.Complete = false
		return false
	}
	if sliced && !late() && !stopped() {
		// counted when it is complete
		before.Samples, before.Maybe = out.Samples, out.Maybe
		*out = before
		_ = os.WriteFile(fmt.Sprintf("%s/u.%d.%d", dir, secs*10, i), nil, 0o644)
		return true
	}
	g.Execs += out.Stats.Execs - before.Stats.Execs
	if *perUnitF {
		fmt.Println("unit", i, g.Done, out.Stats.Execs-before.Stats.Execs)
	}
	g.Done++
	out.Units++
	if a, b := out.Stats, before.Stats; a.Capped+a.TooLong+a.Diverged+a.Foreign > b.Capped+b.TooLong+b.Diverged+b.Foreign || len(out.Incomplete) > len(before.Incomplete) {
		g.Complete = false
	}
	return true
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var vi Viol
	if err := json.Unmarshal(b, &vi); err != nil {
		fmt.Println(err)
		return 2
	}
	*propF = vi.Prop
	var d, tr string
	switch vi.Kind {
	case "conc":
		d, tr = replayScenario(&vi)
	default:
		d, tr = replaySeq(&vi)
	}
	if d == "" {
		fmt.Println("not reproduced\n" + tr)
		return 0
	}
	fmt.Println("REPRODUCED " + d + "\n" + tr)
	return 1
}

func unitsFor(prop string) []unit {
	var us []unit
	add := func(group string, scs ...*Scenario) {
		for _, sc := range scs {
			us = append(us, unit{group, func(out *Result) *Viol { return exploreScenario(prop, sc, out) }, 0})
		}
	}
	isPut := func(o Op) bool { return o.K == "put" }
	writes := func(a, b Op) bool { return !isReader(a) || !isReader(b) }
	all := concat(writers, readers)
	fineAll := func(l []*Scenario, b int) []*Scenario {
		r := make([]*Scenario, len(l))
		for i, sc := range l {
			r[i] = fine(sc, b)
		}
		return r
	}
	key := inits[:4]
	small := append(append([]initState{}, inits...), deepInits[1:5]...) // up to three indices behind an alias
	every := append(append([]initState{}, inits...), deepInits...)
	fineL := func(l []*Scenario) []*Scenario { return fineAll(l, 1) }
	switch prop {
	case "C01":
		not := func(f func(a, b Op) bool) func(a, b Op) bool {
			return func(a, b Op) bool {
				return (isPut(a) || isPut(b)) && a.K != "list" && a.K != "listaliases" && a.K != "has" && f(a, b)
			}
		}
		add("long documents and queries", pairs(longOps, every, not(long2))...)
		add("same identifiers", concatS(pairs(sameOps, every, same2), chains(sameOps, sameOps, every, same3), triples(sameOps[:6], sameOps, every, same3))...)
		add("crossed aliases", concatS(pairs(crossOps, crossInits, not(writes)), triples(crossOpsS[:5], crossOpsS, crossInits[:1], func(x, y, z Op) bool { return isPut(x) && isPut(y) }))...)
		add("large states", pairs(bigOps, bigInits, not(writes))...)
		want := func(a, b Op) bool { return (isPut(a) || isPut(b)) && !(isReader(b) && b.K != "search") }
		w3 := func(x, y, z Op) bool { return isPut(x) && isPut(y) || isPut(y) && isPut(z) || isPut(x) && isPut(z) }
		p3 := func(x, y, z Op) bool { return isPut(x) || isPut(y) || isPut(z) }
		w4 := func(a, b, c, d Op) bool { return isPut(a) || isPut(b) || isPut(c) || isPut(d) }
		ps := pairs(concat(writers, readers[:5]), every, want)
		psS := pairs(concat(writers, readers[:5]), small, want)
		add("pairs", ps...)
		add("chains", chains(writersS, writersS, every, p3)...)
		add("triples", triples(writersS, writersS, every, w3)...)
		add("squares", squares(writersT, key[:1], w4)...)
		add("fine pairs, 1 preemption", fineL(psS)...)
		add("fine chains, 1 preemption", fineL(chains(writersS, writersS, key[:1], p3))...)
		add("squares, more states", squares(writersT, every[1:], w4)...)
		add("triples of all calls", triples(writers, writersS, key, p3)...)
		add("quads", quads(writersT, key, w4)...)
		add("long", longs(writersT, writersT, every, w4)...)
		if thorough() {
			add("fine chains, 1 preemption, more states", fineL(chains(writersS, writersS, small[1:], p3))...)
			add("fine triples, 1 preemption", fineL(triples(writersT, writersT, key, p3))...)
			add("fine pairs, 2 preemptions", fineAll(psS, 2)...)
		}
	case "C02":
		add("long documents and queries", pairs(longOps, every, long2)...)
		add("same identifiers", concatS(pairs(sameOps, every, same2), chains(sameOps, sameOps, key, same3), triples(sameOps[:6], sameOps, key, same3))...)
		add("searches", concatS(pairs(searches, every, any2), chains(searches, searches, inits[:2], any3), chains(writersS, searches, inits[:1], any3), triples(searches, searches, inits[:1], any3))...)
		add("crossed aliases", concatS(pairs(crossOps, crossInits, writes), triples(crossOpsS, crossOpsS, crossInits[:1], any3), chains(crossOpsS, crossOpsS, crossInits[:1], any3))...)
		add("large states", pairs(bigOps, bigInits, writes)...)
		add("texts of every kind", textPairs()...)
		want := func(a, b Op) bool { return (!isReader(a) || !isReader(b)) && a.K != "string" && b.K != "string" }
		ps := pairs(all, every, want)
		psS := pairs(all, small, want)
		add("pairs", ps...)
		add("chains", chains(writersS, readersS, every, any3)...)
		add("writer chains", chains(writersS, writersS, key, any3)...)
		add("triples", triples(writersS, readersS, inits[:2], any3)...)
		add("fine pairs, 1 preemption", fineL(psS)...)
		add("fine chains, 1 preemption", fineL(chains(writersT, readersS, key[:1], any3))...)
		add("writer chains, all states", chains(writersS, writersS, every[4:], any3)...)
		add("triples, all states", triples(writersS, concat(writersS, readersS), every[2:], any3)...)
		add("squares", squares(mixedT, every, any4)...)
		add("quads", quads(mixedT, key, any4)...)
		add("long", longs(writersT, mixedT, every, any4)...)
		add("reader squares", longs(writersT, readersS[:5], every, any4)...)
		if thorough() {
			add("fine chains, 1 preemption, more states", fineL(chains(writersS, readersS, small, any3))...)
			add("fine triples, 1 preemption", fineL(triples(writersT, readersS, key, any3))...)
			add("fine pairs, 2 preemptions", fineAll(psS, 2)...)
		}
	case "C03":
		add("long documents and queries", pairs(longOps, every, long2)...)
		add("crossed aliases", concatS(pairs(crossOps, crossInits, any2), triples(crossOpsS, crossOpsS, crossInits[:1], any3), chains(crossOpsS, crossOpsS, crossInits[:1], any3))...)
		add("large states", pairs(bigOps, bigInits, any2)...)
		add("searches", concatS(pairs(searches, every, any2), triples(searches, searches, inits[:1], any3), pairs(bigSearches, bigInits[:1], any2))...)
		us = append(us, seqUnits(prop)...)
		ps := pairs(all, every, any2)
		psS := pairs(all, small, func(a, b Op) bool { return !isReader(a) || !isReader(b) })
		add("pairs", ps...)
		add("triples", triples(concat(writersS, readersS), readersS, inits[:1], any3)...)
		add("chains", chains(concat(writersS, readersS), writersS, key, any3)...)
		add("fine pairs, 1 preemption", fineL(psS)...)
		add("triples of more calls", triples(concat(writersS, readersS), writersS, inits[1:3], any3)...)
		add("quads", quads(mixedT, key, any4)...)
		add("squares", squares(mixedT, every, any4)...)
		if thorough() {
			add("triples, all states", triples(concat(writersS, readersS), concat(writersS, readersS), every[1:], any3)...)
			add("three searches at once", triples(bigSearches, bigSearches, bigInits[:1], any3)...)
			add("fine triples, 1 preemption", fineL(triples(mixedT, mixedT, key, any3))...)
			add("fine pairs, 2 preemptions", fineAll(psS, 2)...)
		}
	case "C04":
		add("long documents and queries", pairs(longOps, every, long2)...)
		add("crossed aliases", pairs(crossOps, crossInits, any2)...)
		add("large states", pairs(bigOps, bigInits, any2)...)
		add("same identifiers", pairs(sameOps, every, same2)...)
		add("searches", concatS(pairs(searches, every, any2), chains(searches, searches, inits[:1], any3), triples(searches, searches, inits[:1], any3))...)
		add("texts of every kind", textPairs()...)
		ps := pairs(all, every, any2)
		var sp []*Scenario
		for _, p := range pairs(concat(writersS, readers), every, any2) {
			sp = append(sp, spanish(p))
		}
		add("pairs", ps...)
		add("pairs, Spanish pipeline", sp...)
		add("triples", triples(writersS, concat(writersS, readersS), inits[:2], any3)...)
		add("chains", chains(concat(writersS, readers), concat(writersS, readersS), inits[:2], any3)...)
		add("triples, all states", triples(writersS, concat(writersS, readersS), every[2:], any3)...)
		if thorough() {
			add("chains, all states", chains(concat(writersS, readers), concat(writersS, readers), every[2:], any3)...)
		}
		add("squares", squares(mixedT, every, any4)...)
		add("quads", quads(mixedT, key, any4)...)
	case "C10":
		us = append(us, orderUnits()...)
	case "C18":
		us = append(us, indepUnits()...)
	case "C05", "C06", "C07":
		us = append(us, seqUnits(prop)...)
	default:
		fmt.Fprintln(os.Stderr, "no units for "+prop)
		os.Exit(2)
	}
	return us
}

var _ = strings.Join

// Command plain enumerates inputs and call sequences on the unmodified code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sync/atomic"
	"time"
)

type Viol struct {
	Prop   string `json:"property"`
	Kind   string `json:"kind"`
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Unit   int    `json:"unit"`
	Stack  string `json:"stack,omitempty"`
}

type Group struct {
	Units, Done int
	Execs       int64
	MS          int64
	Complete    bool
}

type Result struct {
	Prop       string            `json:"prop"`
	Units      int               `json:"units"`
	UnitsTotal int               `json:"units_total"`
	Evals      int64             `json:"evals"`
	Nontrivial int64             `json:"nontrivial"`
	Distinct   int64             `json:"distinct"`
	Samples    []string          `json:"samples"`
	Viols      []*Viol           `json:"viols"`
	Skipped    int               `json:"skipped"`
	Incomplete map[string]int    `json:"incomplete"`
	Groups     map[string]*Group `json:"groups"`
	Crash      string            `json:"crash,omitempty"`
	Done       bool              `json:"done"`
}

type unit struct {
	group string
	run   func(c *ctx)
}

var (
	propF     = flag.String("prop", "", "")
	tierF     = flag.String("tier", "quick", "")
	shardF    = flag.Int("shard", 0, "")
	shardsF   = flag.Int("shards", 1, "")
	outF      = flag.String("out", "", "")
	progressF = flag.String("progress", "", "")
	stopF     = flag.String("stop", "", "")
	deadF     = flag.Int64("deadline", 0, "unix ms")
	_         = flag.Bool("solo", false, "")
	onlyF     = flag.Int("only", -1, "")
	deadline  time.Time
	out       *Result
	beat      atomic.Int64
)

func thorough() bool { return *tierF == "thorough" }

func pick(q, t int) int {
	if thorough() {
		return t
	}
	return q
}

// ctx is handed to a unit.
type ctx struct {
	group    string
	bad      *Viol
	seen     map[uint64]struct{}
	sampleAt int64
	last     [3]kept
	next     int
}

// kept is an earlier result, to be looked at again after later calls.
type kept struct {
	what string
	l    []string
	want []string
	b    [][]byte
}

// keep looks at the results of the last calls once more and takes the place of
// the oldest.
func (c *ctx) keep(k kept) {
	for _, o := range c.last {
		if !sameTokens(o.l, o.want) && o.b == nil {
			c.failed("earlier result changed", "%s gave %q, which became %q after later calls", o.what, o.want, o.l)
		}
		for i, b := range o.b {
			if string(b) != o.want[i] {
				c.failed("earlier result changed", "%s gave %q, which became %q after later calls", o.what, o.want, o.b)
			}
		}
	}
	c.last[c.next] = k
	c.next = (c.next + 1) % len(c.last)
}

type stop struct{}

// eval counts one case. Cases are distinct by construction of the enumeration
// unless counted through evalKey.
func (c *ctx) eval(nontrivial bool) {
	n := beat.Add(1)
	out.Evals++
	if nontrivial {
		out.Nontrivial++
		out.Distinct++
	}
	if n%1024 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		panic(stop{})
	}
}

// evalKey counts one case with an identity: distinct ones are counted once.
func (c *ctx) evalKey(key uint64, nontrivial bool) {
	c.eval(false)
	if nontrivial {
		out.Nontrivial++
		if _, ok := c.seen[key]; !ok {
			c.seen[key] = struct{}{}
			out.Distinct++
		}
	}
}

// sample records a few cases.
var sampleCalls int

func (c *ctx) sample(f func() string) {
	sampleCalls++
	if len(out.Samples) < 4 && (sampleCalls == 40 || sampleCalls%4999 == 17) {
		out.Samples = append(out.Samples, c.group+": "+f())
	}
}

// failed reports a violation and ends the unit.
func (c *ctx) failed(key string, format string, a ...any) {
	if c.bad == nil {
		c.bad = &Viol{Prop: *propF, Kind: "plain", Key: c.group + ": " + key, Detail: fmt.Sprintf(format, a...)}
	}
	panic(stop{})
}

func fnvAdd(h uint64, s string) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return (h ^ 0xff) * 1099511628211
}

func flush() {
	b, _ := json.Marshal(out)
	if *outF == "" {
		fmt.Println(string(b))
		return
	}
	_ = os.WriteFile(*outF+".tmp", b, 0o644)
	_ = os.Rename(*outF+".tmp", *outF)
}

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }

var seenKeys = map[uint64]struct{}{}

func runUnit(u unit) (v *Viol) {
	c := &ctx{group: u.group, seen: seenKeys}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				v = c.bad
				if v == nil {
					out.Incomplete["deadline in "+u.group]++
				}
				return
			}
			v = &Viol{Prop: *propF, Kind: "plain", Key: u.group + ": panic", Detail: fmt.Sprint("panic: ", r), Stack: string(debug.Stack())}
		}
	}()
	u.run(c)
	return c.bad
}

func main() {
	flag.Parse()
	if *deadF > 0 {
		deadline = time.UnixMilli(*deadF)
	}
	out = &Result{Prop: *propF, Incomplete: map[string]int{}, Groups: map[string]*Group{}}
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(2 * time.Second)
			if b := beat.Load(); b != last {
				last, since = b, time.Now()
			} else if time.Since(since) > 60*time.Second {
				o := Result{Prop: *propF, Crash: "a call did not return within 60 s"}
				b, _ := json.Marshal(o)
				_ = os.WriteFile(*outF, b, 0o644)
				os.Exit(5)
			}
		}
	}()
	f, ok := props[*propF]
	if !ok {
		fmt.Fprintln(os.Stderr, "no units for "+*propF)
		os.Exit(2)
	}
	units := f()
	out.UnitsTotal = len(units)
	for i, u := range units {
		g := out.Groups[u.group]
		if g == nil {
			g = &Group{Complete: true}
			out.Groups[u.group] = g
		}
		if i%*shardsF != *shardF || *onlyF >= 0 && i != *onlyF {
			continue
		}
		g.Units++
		skip := late()
		if !skip && *stopF != "" {
			_, err := os.Stat(*stopF)
			skip = err == nil
		}
		if skip {
			out.Skipped++
			g.Complete = false
			continue
		}
		if *progressF != "" {
			_ = os.WriteFile(*progressF, []byte(fmt.Sprint(i)), 0o644)
		}
		t0 := time.Now()
		e0, inc := out.Evals, len(out.Incomplete)
		v := runUnit(u)
		beat.Add(1)
		g.MS += time.Since(t0).Milliseconds()
		g.Execs += out.Evals - e0
		g.Done++
		if len(out.Incomplete) != inc || v != nil {
			g.Complete = false
		}
		out.Units++
		if v != nil {
			v.Unit = i
			out.Viols = append(out.Viols, v)
			if len(out.Viols) >= 2 {
				break
			}
		}
	}
	out.Done = true
	flush()
	if *onlyF >= 0 && len(out.Viols) > 0 {
		os.Exit(1)
	}
}

var props = map[string]func() []unit{
	"C08": unitsC08, "C09": unitsC09, "C10": unitsC10, "C11": unitsC11, "C12": unitsC12,
	"C13": unitsC13, "C14": unitsC14, "C15": unitsC15, "C16": unitsC16, "C17": unitsC17,
	"C18": unitsC18, "C19": unitsC19,
}

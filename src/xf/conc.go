package main

import (
	"fmt"
	"strings"

	v "github.com/sonirico/visigoth"
	"github.com/sonirico/visigoth/zz_verif/model"
	"github.com/sonirico/visigoth/zz_verif/vs"
)

// Scenario is a concurrent client program.
type Scenario struct {
	Name    string `json:"name"`
	Init    []Op   `json:"init"`
	Threads [][]Op `json:"threads"`
	Pipe    string `json:"pipe,omitempty"`
	Repos   int    `json:"repos,omitempty"`
	Fine    bool   `json:"fine,omitempty"`
	Bound   int    `json:"bound,omitempty"`
	Sleep   bool   `json:"sleep,omitempty"`
	Direct  bool   `json:"direct,omitempty"` // drive indices made by the builder, not repositories
	Desc    bool   `json:"desc,omitempty"`   // maps iterate in descending order
}

func (s Scenario) String() string {
	var t []string
	for _, l := range s.Threads {
		t = append(t, "{"+model.OpsString(l)+"}")
	}
	mode := "all schedules"
	if !s.Sleep {
		mode = fmt.Sprintf("preemptions<=%d", s.Bound)
	}
	if s.Fine {
		mode += ", statement steps"
	}
	return fmt.Sprintf("%s: %s || %s (%s)", s.Name, model.OpsString(s.Init), strings.Join(t, " || "), mode)
}

// run holds what one execution produced.
type run struct {
	recs  [][]rec
	final []map[string]string
	probe string
}

var cur *run

func body(sc *Scenario) func() {
	nr := max(1, sc.Repos)
	un := univ(append([][]Op{sc.Init}, sc.Threads...)...)
	return func() {
		vs.SetBranching(false)
		r := &run{recs: make([][]rec, len(sc.Threads))}
		cur = r
		b := builder(sc.Pipe)
		vs.MapDesc = sc.Desc
		if sc.Direct {
			direct(sc, r, b)
			return
		}
		repos := make([]*v.IndexRepo, nr)
		for i := range repos {
			repos[i] = v.NewIndexRepo(b)
		}
		for _, o := range sc.Init {
			do(repos[o.R], o)
		}
		for w, ops := range sc.Threads {
			r.recs[w] = make([]rec, len(ops))
			vs.Spawn(w, func() {
				for i, o := range ops {
					rc := &r.recs[w][i]
					rc.Op = o
					rc.Call = vs.Call()
					x := do(repos[o.R], o)
					rc.Ret = vs.Ret()
					if x.text != "" {
						rc.text, rc.textC = x.text, strings.Clone(x.text)
					}
					rc.Res, rc.Seq = render(o, x)
					rc.done = true
				}
			})
		}
		vs.SetBranching(true)
		vs.Join()
		vs.SetBranching(false)
		if *propF == "C04" && vs.LiveThreads() == 0 {
			return // all is ordered before whatever follows
		}
		for _, p := range repos {
			r.final = append(r.final, facts(p, un))
		}
		if *propF == "C03" {
			for _, p := range repos {
				if s := probe(p); s != "" {
					r.probe = s
				}
			}
		}
	}
}

// direct drives bare indices: every call is a put or a search.
func direct(sc *Scenario, r *run, b v.Builder) {
	ix := make([]v.Index, sc.Repos)
	for i := range ix {
		ix[i] = b(fmt.Sprintf("a%d", i))
	}
	act := func(o Op) (x []v.SearchResult) {
		if o.K == "put" {
			ix[o.R].Put(v.NewDocRequest(idOf(o.D), content(o.D)))
			return nil
		}
		return ix[o.R].Search(queryOf(o.D), engine(o.D))
	}
	show := func(o Op, l []v.SearchResult) (string, string) {
		if o.K == "put" {
			return "", ""
		}
		var ids []string
		for _, e := range l {
			ids = append(ids, docStr(e.Document))
		}
		return "[" + model.Sorted(ids) + "]", strings.Join(ids, " ")
	}
	for _, o := range sc.Init {
		act(o)
	}
	for w, ops := range sc.Threads {
		r.recs[w] = make([]rec, len(ops))
		vs.Spawn(w, func() {
			for i, o := range ops {
				rc := &r.recs[w][i]
				rc.Op = o
				rc.Call = vs.Call()
				x := act(o)
				rc.Ret = vs.Ret()
				rc.Res, rc.Seq = show(o, x)
			}
		})
	}
	vs.SetBranching(true)
	vs.Join()
	vs.SetBranching(false)
	for i := range ix {
		s, _ := show(Op{K: "search"}, act(Op{K: "search", D: "all", R: i}))
		r.final = append(r.final, map[string]string{"search:a": s})
	}
}

// modelAfter applies the initial calls to the model of one repository.
func modelAfter(init []Op, repo int) *model.M {
	m := model.New()
	for _, o := range init {
		if o.R == repo {
			m.Apply(o)
		}
	}
	return m
}

// Viol is a violation found.
type Viol struct {
	Prop     string    `json:"property"`
	Kind     string    `json:"kind"`
	Key      string    `json:"key"`
	Detail   string    `json:"detail"`
	Scenario *Scenario `json:"scenario,omitempty"`
	Choices  []int     `json:"choices,omitempty"`
	Ops      []Op      `json:"ops,omitempty"`
	Extra    []Op      `json:"extra,omitempty"`
	Pipe     string    `json:"pipe,omitempty"`
	Desc     bool      `json:"desc,omitempty"`
	Unit     int       `json:"unit"`
	Stack    string    `json:"stack,omitempty"`
}

// judge decides one execution of a scenario for a property; "" means fine.
func judge(prop string, sc *Scenario, x *vs.Exec, memo map[string]bool) string {
	switch x.Outcome {
	case vs.Deadlock:
		return "deadlock: " + x.Where
	case vs.Panicked:
		return "panic: " + x.Panic
	case vs.OK:
	default:
		return "" // not judged; counted in the statistics
	}
	r := cur
	switch prop {
	case "C03":
		if r.probe != "" {
			return r.probe
		}
		return ""
	case "C04":
		if x.Races > 0 {
			return fmt.Sprintf("%d data race report(s)", x.Races)
		}
		for _, t := range r.recs {
			for _, rc := range t {
				if rc.text != rc.textC {
					return fmt.Sprintf("the text String returned changed from %q to %q while other calls ran", rc.textC, rc.text)
				}
			}
		}
		return ""
	case "C10":
		for i, t := range sc.Threads {
			for j := range t {
				rc := &r.recs[i][j]
				if rc.Op.K != "search" {
					continue
				}
				if w := reference(sc, rc.Op); rc.Seq != w {
					return fmt.Sprintf("%s returned %q, the same search on the same content returned %q before", rc.Op, rc.Seq, w)
				}
			}
		}
		return ""
	case "C18":
		if x.Races > 0 {
			return fmt.Sprintf("%d data race report(s)", x.Races)
		}
		fallthrough
	case "C01", "C02":
		for repo := 0; repo < max(1, sc.Repos); repo++ {
			var recs []rec
			un := univ(append([][]Op{sc.Init}, sc.Threads...)...)
			for _, t := range r.recs {
				for _, rc := range t {
					if rc.Op.R == repo {
						recs = append(recs, rc)
					}
				}
			}
			fin := r.final[repo]
			keep := func(Op) bool { return true }
			if prop == "C01" {
				keep = func(Op) bool { return false }
				for i := range recs {
					recs[i].Res = ""
				}
				f := map[string]string{}
				for k, w := range fin {
					if strings.HasPrefix(k, "search:") || k == "list" {
						f[k] = w
					}
				}
				fin = f
			}
			k := fmt.Sprint(repo) + histKey(recs, fin)
			ok, seen := memo[k]
			if !seen {
				base := modelAfter(sc.Init, repo)
				if sc.Direct && base.Idx["a"] == nil {
					base.Idx["a"] = nil // the index exists from the start
				}
				ok = linearize(base, recs, fin, un, keep)
				memo[k] = ok
			}
			if !ok {
				what := "no one-at-a-time order of the calls explains the results and the final content"
				if prop == "C01" {
					what = "no one-at-a-time order of the calls explains where the documents are"
				} else if prop == "C18" {
					what = "the repository does not behave as it would alone"
				}
				return fmt.Sprintf("%s: %sfinally %s", what, histStr(recs), strings.ReplaceAll(factStr(fin), "\n", "; "))
			}
		}
		return ""
	}
	panic("no judge for " + prop)
}

var refMemo = map[string]string{}

// reference is the sequence the first, undisturbed run of the search returned.
func reference(sc *Scenario, o Op) string {
	k := fmt.Sprintf("%v|%v|%v", sc.Init, sc.Pipe, o)
	if w, ok := refMemo[k]; ok {
		return w
	}
	var w string
	saved := cur
	vs.MapDesc = false
	vs.Once(func() {
		r := v.NewIndexRepo(builder(sc.Pipe))
		for _, o := range sc.Init {
			do(r, o)
		}
		_, w = render(o, do(r, o))
	})
	cur = saved
	refMemo[k] = w
	return w
}

// exploreScenario runs every schedule; it stops at the first violation.
func exploreScenario(prop string, sc *Scenario, out *Result) *Viol {
	memo := map[string]bool{}
	if prop == "C10" {
		for _, t := range sc.Threads {
			for _, o := range t {
				if o.K == "search" {
					reference(sc, o)
				}
			}
		}
	}
	var bad *Viol
	cfg := vs.Config{Fine: sc.Fine, Sleep: sc.Sleep, Bound: sc.Bound, MaxExecs: maxExecs, Stop: stopNow}
	st := vs.Explore(cfg, body(sc), func(x *vs.Exec) bool {
		if d := judge(prop, sc, x, memo); d != "" {
			bad = &Viol{Prop: prop, Kind: "conc", Key: keyOf(sc, d), Detail: d, Scenario: sc, Choices: x.Choices, Stack: x.Stack, Unit: curUnit}
			for range 3 {
				y := vs.Again(sc.Fine, x.Choices, body(sc))
				if judge(prop, sc, &y, map[string]bool{}) != "" {
					return false
				}
			}
			// it depends on something besides the schedule: look for a steady one first
			out.Unsteady++
			if out.Maybe == nil {
				out.Maybe = bad
			}
			bad = nil
			clear(memo)
			return true
		}
		if len(out.Samples) < 3 && x.Preempts > 0 {
			out.Samples = append(out.Samples, fmt.Sprintf("%s schedule %v: %s", sc, x.Choices, sample(cur)))
		}
		return true
	})
	if *perUnitF {
		fmt.Println(curUnit, st.Execs, sc)
	}
	out.Stats.Add(st)
	out.Histories += int64(len(memo))
	return bad
}

func sample(r *run) string {
	var b strings.Builder
	for _, t := range r.recs {
		b.WriteString(histStr(t))
	}
	return b.String()
}

func keyOf(sc *Scenario, d string) string {
	if i := strings.IndexByte(d, ':'); i > 0 {
		d = d[:i]
	}
	return sc.Name + " " + d
}

// replayScenario re-executes one schedule.
func replayScenario(vi *Viol) (string, string) {
	sc := vi.Scenario
	if vi.Prop == "C10" {
		for _, t := range sc.Threads {
			for _, o := range t {
				if o.K == "search" {
					reference(sc, o)
				}
			}
		}
	}
	x := vs.Replay(sc.Fine, vi.Choices, body(sc))
	d := judge(vi.Prop, sc, &x, map[string]bool{})
	return d, x.Trace + "\n" + sample(cur) + "\n" + x.Stack
}

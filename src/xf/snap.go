package main

import (
	"fmt"
	"strings"

	v "github.com/sonirico/visigoth"
	"github.com/sonirico/visigoth/zz_verif/model"
	"github.com/sonirico/visigoth/zz_verif/vs"
)

// held is a set of returned values, some looked at when they were returned and
// some kept unread.
type held struct {
	list, list2   []string
	al, al2       v.AliasesResult
	listS, alS    string
	text, textC   string // what String returned and a copy of it
	names         []string
	unread, unrd2 []stream
	half          []stream // one element read
	want          []string
	halfWant      []string
}

func rawList(l []string) string { return fmt.Sprintf("%q", l) }

func rawAl(a v.AliasesResult) string {
	var b strings.Builder
	for _, r := range a.Aliases {
		fmt.Fprintf(&b, "%q:%q;", r.Alias, r.Indices)
	}
	return b.String()
}

func hold(r *v.IndexRepo, names []string) *held {
	h := &held{names: names}
	h.list, h.list2 = r.List(), r.List()
	h.al, h.al2 = r.ListAliases(), r.ListAliases()
	h.listS, h.alS = rawList(h.list2), rawAl(h.al2)
	h.text = r.String()
	h.textC = strings.Clone(h.text)
	for _, n := range names {
		for _, e := range []string{"all", "hits", "linear"} {
			get := func() stream {
				s, err := r.Search(n, query, engine(e))
				if err != nil || s == nil {
					return nil
				}
				return s
			}
			a, b, c, d := get(), get(), get(), get()
			if a == nil || b == nil || c == nil || d == nil {
				continue
			}
			l, er := seqOf(d)
			h.unread = append(h.unread, a)
			h.unrd2 = append(h.unrd2, b)
			h.want = append(h.want, n+"/"+e+":"+strings.Join(l, " ")+er)
			first := ""
			if c.Next() {
				first = docStr(c.Data().Doc())
			}
			h.half = append(h.half, c)
			h.halfWant = append(h.halfWant, first)
		}
	}
	return h
}

// apart appends to every row of an alias list in turn, and to the list of names:
// the other rows must stay as they are.
func apart(r *v.IndexRepo) string {
	for i := range r.ListAliases().Aliases {
		a := r.ListAliases()
		if i >= len(a.Aliases) {
			break
		}
		before := make([]string, len(a.Aliases))
		for j, row := range a.Aliases {
			before[j] = fmt.Sprintf("%q", row)
		}
		row := a.Aliases[i]
		_ = append(row.Indices, "junk")
		full := row.Indices[:cap(row.Indices)]
		for j := len(row.Indices); j < len(full); j++ {
			full[j] = "junk"
		}
		for j := range row.Indices {
			row.Indices[j] = "junk"
		}
		for j, other := range a.Aliases {
			if g := fmt.Sprintf("%q", other); j != i && g != before[j] {
				return fmt.Sprintf("overwriting and extending the row of alias %q changed another row from %s to %s", row.Alias, before[j], g)
			}
		}
	}
	return ""
}

// check re-reads the values; lists come in two copies of which the first may
// have been overwritten by the client.
func (h *held) check() string {
	if g := rawList(h.list2); g != h.listS {
		return fmt.Sprintf("the list returned earlier changed from %s to %s", h.listS, g)
	}
	if g := rawAl(h.al2); g != h.alS {
		return fmt.Sprintf("the alias list returned earlier changed from %s to %s", h.alS, g)
	}
	if h.text != h.textC {
		return fmt.Sprintf("the text String returned earlier changed from %q to %q", h.textC, h.text)
	}
	return ""
}

func (h *held) checkStreams() string {
	for i := range h.unread {
		name, _, _ := strings.Cut(h.want[i], ":")
		// read two results alternately, after the half-read one
		var a, b []string
		c := []string{}
		if h.halfWant[i] != "" {
			c = append(c, h.halfWant[i])
		}
		na, nb, nc := true, true, true
		for n := 0; (na || nb || nc) && n < 10000; n++ {
			if na {
				if na = h.unread[i].Next(); na {
					a = append(a, docStr(h.unread[i].Data().Doc()))
				}
			}
			if nb {
				if nb = h.unrd2[i].Next(); nb {
					b = append(b, docStr(h.unrd2[i].Data().Doc()))
				}
			}
			if nc && h.halfWant[i] != "" {
				if nc = h.half[i].Next(); nc {
					c = append(c, docStr(h.half[i].Data().Doc()))
				}
			} else {
				nc = false
			}
		}
		for k, l := range [][]string{a, b, c} {
			if g := name + ":" + strings.Join(l, " "); g != h.want[i] {
				return fmt.Sprintf("search result %d obtained earlier reads %q now, it was %q at the time of the call", k, g, h.want[i])
			}
		}
	}
	return ""
}

// scribble overwrites the first copies and appends to them.
func (h *held) scribble() {
	junk := []string{"junk1", "junk2", "junk3", "junk4", "junk5", "junk6", "junk7", "junk8", "junk9"}
	for i := range h.list {
		h.list[i] = "junk"
	}
	_ = append(h.list, junk...)
	_ = append(h.list[:0], junk...)
	if cap(h.list) > len(h.list) {
		_ = append(h.list[:len(h.list)], "junk")
	}
	for i := range h.al.Aliases {
		row := &h.al.Aliases[i]
		full := row.Indices[:cap(row.Indices)]
		for j := range full {
			full[j] = "junk"
		}
		row.Alias = "junk"
		row.Indices = junk
	}
	fullr := h.al.Aliases[:cap(h.al.Aliases)]
	for j := range fullr {
		fullr[j] = v.AliasesResultRow{Alias: "junk", Indices: junk}
	}
	fl := h.list[:cap(h.list)]
	for j := range fl {
		fl[j] = "junk"
	}
}

// snapRun: reach a state, take snapshots, optionally overwrite them, perform
// further calls, and look at everything again.
func snapRun(init, ops []Op, un []string) (string, vs.Exec) {
	var bad string
	x := vs.Once(func() {
		vs.SetBranching(false)
		fail := func(s string) bool {
			if s != "" && bad == "" {
				bad = s
			}
			return bad != ""
		}
		for mode := 0; mode < 2; mode++ {
			r := v.NewIndexRepo(builder(""))
			m := model.New()
			for _, o := range init {
				call(r, o)
				m.Apply(o)
			}
			if d := diffFacts(m.Facts(un), facts(r, un)); d != "" {
				return // the state itself is wrong: judged by C05
			}
			h := hold(r, un)
			if mode == 0 {
				if fail(apart(r)) {
					return
				}
				h.scribble()
				if d := diffFacts(m.Facts(un), facts(r, un)); d != "" {
					fail("overwriting returned lists changed the repository: " + d)
					return
				}
				if fail(h.check()) {
					return
				}
			}
			for _, o := range ops {
				call(r, o)
				m.Apply(o)
				_ = r.String()
				if fail(h.check()) {
					return
				}
			}
			want := m.Facts(un)
			got := facts(r, un)
			same := diffFacts(want, got) == ""
			h.scribble()
			g2 := facts(r, un)
			if factStr(got) != factStr(g2) {
				fail("overwriting returned lists changed the repository: " + diffFacts(got, g2))
				return
			}
			if mode == 0 && !same {
				// was it the overwriting before the calls?
				r2 := v.NewIndexRepo(builder(""))
				for _, o := range concat(init, ops) {
					call(r2, o)
				}
				if f2 := facts(r2, un); factStr(f2) != factStr(got) {
					fail("overwriting returned lists changed what later calls do: " + diffFacts(f2, got))
					return
				}
			}
			if fail(h.check()) || fail(h.checkStreams()) {
				return
			}
		}
	})
	if bad == "" && (x.Outcome == vs.Panicked || x.Outcome == vs.Deadlock) {
		// the same calls without holding or overwriting anything
		if _, y := runHistory(concat(init, ops), un, "", false, false); y.Outcome == vs.OK {
			bad = "with results held and overwritten a call fails that otherwise does not: " + x.Outcome.String() + " " + x.Panic + x.Where
		}
	}
	return bad, x
}

func snapUnits(prop string) []unit {
	var us []unit
	ops := seqOps([]string{"a", "b"}, []string{"x"}, []string{"p"})
	ops = append(ops, alias("y", "a"), alias("x", "c"), put("c", "q"))
	var bases [][]Op
	for _, s := range inits {
		bases = append(bases, s.ops)
	}
	for k := 1; k <= 9; k++ {
		var l []Op
		for i := 0; i < k; i++ {
			l = append(l, put(fmt.Sprintf("i%d", i), fmt.Sprintf("d%d", i)))
		}
		for i := 0; i < k; i++ {
			l = append(l, alias("x", fmt.Sprintf("i%d", k-1-i)))
		}
		bases = append(bases, concat(l, []Op{put("a", "p"), put("b", "q")}), concat(l, []Op{put("a", "p"), alias("x", "a"), unal("x", "i0"), put("x", "r")}))
		var ds []Op
		for i := 0; i < k; i++ {
			ds = append(ds, put("a", fmt.Sprintf("d%d", i)))
		}
		bases = append(bases, concat(ds, []Op{put("b", "q"), alias("x", "a")}))
	}
	// several aliases of several indices each
	for k := 2; k <= pick(6, 9); k++ {
		for m := 2; m <= 4; m++ {
			var l []Op
			for i := 0; i < k; i++ {
				l = append(l, put(fmt.Sprintf("i%d", i), fmt.Sprintf("d%d", i)))
			}
			for j := 0; j < m; j++ {
				for i := 0; i < k; i++ {
					if m < 4 || i <= j+1 { // of different lengths
						l = append(l, alias([]string{"x", "y", "z", "w"}[j], fmt.Sprintf("i%d", i)))
					}
				}
			}
			bases = append(bases, concat(l, []Op{put("a", "p"), put("b", "q")}))
		}
	}
	snap := func(group string, init []Op, tails func(yield func([]Op) bool)) {
		us = append(us, unit{group, func(out *Result) *Viol {
			var bad *Viol
			out.States++
			tails(func(t []Op) bool {
				if stopNow() {
					out.Incomplete["deadline in "+group]++
					return false
				}
				un := univ(init, t)
				d, x := snapRun(init, t, un)
				out.Transitions++
				out.Traces++
				out.Stats.Execs++
				out.Stats.Steps += int64(x.Steps)
				if x.Outcome != vs.OK && d == "" {
					out.Incomplete[x.Outcome.String()]++
					return true
				}
				if len(out.Samples) < 3 && out.Transitions%997 == 1 {
					out.Samples = append(out.Samples, "hold results after "+model.OpsString(init)+", then "+model.OpsString(t))
				}
				if d != "" {
					bad = &Viol{Prop: prop, Kind: "snap", Key: "snapshot " + d[:min(len(d), 40)], Detail: "after " + model.OpsString(init) + " then " + model.OpsString(t) + ": " + d, Ops: init, Extra: t}
					return false
				}
				return true
			})
			return bad
		}, 0})
	}
	for _, b := range bases {
		snap("every state, one later call", b, func(yield func([]Op) bool) {
			if !yield(nil) {
				return
			}
			for _, o := range ops {
				if !yield([]Op{o}) {
					return
				}
			}
		})
		for _, o1 := range ops {
			snap("every state, two later calls", b, func(yield func([]Op) bool) {
				for _, o2 := range ops {
					if !yield([]Op{o1, o2}) {
						return
					}
				}
			})
		}
	}
	if thorough() {
		for _, s := range inits {
			for _, o1 := range ops {
				for _, o2 := range ops {
					snap("small states, three later calls", s.ops, func(yield func([]Op) bool) {
						for _, o3 := range ops {
							if !yield([]Op{o1, o2, o3}) {
								return
							}
						}
					})
				}
			}
		}
	}
	for _, k := range []int{3, 7, 8, 15, 16, 17, 31, 40} {
		snap("long runs of later calls", bases[0], func(yield func([]Op) bool) {
			var ps, as []Op
			for i := 0; i < k; i++ {
				ps = append(ps, put("x", fmt.Sprintf("n%d", i)))
				as = append(as, put(fmt.Sprintf("j%d", i), "z"), alias("x", fmt.Sprintf("j%d", i)))
			}
			_ = yield(ps) && yield(as) && yield(concat(as, []Op{unal("x", "a"), drop("b"), ren("j0", "zz")}))
		})
	}
	for _, n := range []int{12, 16, 17, 20, 24, 25, 32, 33, 48, 64, 65, 100, pick(130, 260)} {
		var l, m []Op
		for i := 0; i < n; i++ {
			l = append(l, put(fmt.Sprint("i", i), fmt.Sprint("d", i)), alias("x", fmt.Sprint("i", i)))
			if i%2 == 0 {
				l = append(l, alias("y", fmt.Sprint("i", i)))
			}
			m = append(m, put("a", ""), put("b", ""), alias(fmt.Sprint("z", i), "a"), alias(fmt.Sprint("z", i), "b"))
		}
		later := [][]Op{{}, {list}, {lista}, {srch("x", "all")}, {put("x", "new")}, {put("n", "new")}, {alias("y", "i1")}, {alias("z", "i3")}, {unal("x", "i3")}, {unal("x", fmt.Sprint("i", n-1))}, {unal("x", "i3"), alias("x", "i3")}, {ren("i3", "zz")}, {ren("i0", "i5")}, {ren("i5", "i0")}, {drop("i0")}, {drop("i4"), put("i4", "new"), alias("x", "i4")}}
		snap("many names and links", l, func(yield func([]Op) bool) {
			for _, t := range later {
				if !yield(t) {
					return
				}
			}
		})
		snap("many names and links", m, func(yield func([]Op) bool) {
			for _, t := range [][]Op{{}, {list}, {lista}, {ren("a", "c")}, {ren("a", "b")}, {drop("b")}, {unal("z3", "a")}, {unal("z3", "")}, {alias("new", "a")}, {put("c", ""), alias("z1", "c")}} {
				if !yield(t) {
					return
				}
			}
		})
	}
	for _, n := range []int{20, 40, 70, 140, 300} {
		var l []Op
		for i := 0; i < n; i++ {
			l = append(l, put("a", fmt.Sprint("a", i)), put("b", fmt.Sprint("b", i)))
		}
		l = append(l, put("c", "c0"), alias("x", "a"), alias("x", "c"), alias("y", "c"), alias("y", "b"), alias("z", "a"), alias("z", "b"))
		snap("large results", l, func(yield func([]Op) bool) {
			for _, t := range [][]Op{{}, {srch("x", "all")}, {srch("y", "hits")}, {srch("z", "linear")}, {srch("b", "all")}, {put("a", "new")}, {put("z", "new")}, {unal("x", "a")}, {drop("a")}, {ren("b", "a")}, {lista}} {
				if !yield(t) {
					return
				}
			}
		})
	}
	for _, n := range []int{70, 300, pick(1100, 5000)} {
		for _, b := range [][]Op{bases[0], inits[2].ops, inits[9].ops} {
			snap("long runs of later calls", b, func(yield func([]Op) bool) {
				for _, o := range []Op{srch("x", "all"), srch("x", "hits"), srch("x", "linear"), srch("a", "all"), srch("x", "miss"), lista, list, put("x", "n"), put("a", "n")} {
					if o.K == "put" && n > 300 {
						continue
					}
					var l []Op
					for i := 0; i < n; i++ {
						l = append(l, o)
					}
					if !yield(l) || !yield(append([]Op{put("x", "r"), put("a", "s")}, l...)) {
						return
					}
				}
			})
		}
	}
	return us
}

func replaySnap(vi *Viol) (string, string) {
	d, x := snapRun(vi.Ops, vi.Extra, univ(vi.Ops, vi.Extra))
	return d, x.Stack
}

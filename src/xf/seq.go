package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	v "github.com/sonirico/visigoth"
	"github.com/sonirico/visigoth/zz_verif/model"
	"github.com/sonirico/visigoth/zz_verif/vs"
)

// SeqConf is one sequential state space.
type SeqConf struct {
	name    string
	init    []Op
	ops     []Op
	maxDocs int  // per index
	dedup   bool // identify states with equal object graphs
	depth   int  // 0: to closure
	pipe    string
	desc    bool // maps iterate in descending order
}

// step is the outcome of one history on the real code.
type step struct {
	res   []string
	state string
	facts map[string]string
	probe string
}

// runHistory executes the calls one after another in a fresh repository.
func runHistory(ops []Op, un []string, pipe string, withState, withProbe bool) (step, vs.Exec) {
	var st step
	x := vs.Once(func() {
		vs.SetBranching(false)
		r := v.NewIndexRepo(builder(pipe))
		for _, o := range ops {
			st.res = append(st.res, call(r, o))
		}
		if withState {
			st.state = deepState(r)
		}
		st.facts = facts(r, un)
		if withProbe {
			st.probe = probe(r)
		}
	})
	return st, x
}

// checkHistory compares a history with the model; "" means it conforms.
func checkHistory(ops []Op, un []string, st *step, x *vs.Exec) (what, detail string) {
	switch x.Outcome {
	case vs.OK:
	case vs.Deadlock:
		return "blocks", fmt.Sprintf("after %s: a call blocks forever: %s", model.OpsString(ops[:min(len(ops), len(st.res)+1)]), x.Where)
	case vs.Panicked:
		return "panics", fmt.Sprintf("after %s: panic: %s", model.OpsString(ops[:min(len(ops), len(st.res)+1)]), x.Panic)
	default:
		return "", ""
	}
	m := model.New()
	for i, o := range ops {
		w := m.Apply(o)
		if !model.Match(w, st.res[i]) {
			return "result", fmt.Sprintf("%s => %s, expected %s; history: %s", o, st.res[i], w, model.OpsString(ops[:i]))
		}
	}
	if d := diffFacts(m.Facts(un), st.facts); d != "" {
		return "content", fmt.Sprintf("after %s: %s", model.OpsString(ops), d)
	}
	if st.probe != "" {
		return "probe", fmt.Sprintf("after %s: %s", model.OpsString(ops), st.probe)
	}
	return "", ""
}

// relevant tells whether a failed history is a violation of the property.
func relevant(prop, what string, ops []Op) bool {
	switch prop {
	case "C03":
		return what == "blocks" || what == "panics" || what == "probe"
	case "C06":
		for _, o := range ops {
			if o.K == "rename" || o.K == "drop" {
				return true
			}
		}
		return false
	}
	return true
}

func hist(prop string, cf *SeqConf, ops []Op, un []string, out *Result) (*Viol, string) {
	st, x := runHistory(ops, un, cf.pipe, cf.dedup, prop == "C03")
	out.Stats.Execs++
	out.Stats.Steps += int64(x.Steps)
	out.Transitions++
	out.Traces++
	what, d := checkHistory(ops, un, &st, &x)
	if what != "" {
		if relevant(prop, what, ops) {
			return &Viol{Prop: prop, Kind: "seq", Key: cf.name + " " + what + " " + model.OpsString(ops), Detail: d, Ops: ops, Pipe: cf.pipe, Stack: x.Stack, Desc: vs.MapDesc}, ""
		}
		return nil, ""
	}
	if x.Outcome != vs.OK {
		out.Incomplete[x.Outcome.String()]++
		return nil, ""
	}
	return nil, st.state
}

func (cf *SeqConf) allowed(m *model.M, o Op) bool {
	if o.K != "put" || cf.maxDocs == 0 {
		return true
	}
	l, ok := m.Resolve(o.A)
	if !ok {
		return true
	}
	for _, i := range l {
		if len(m.Idx[i]) >= cf.maxDocs {
			return false
		}
	}
	return true
}

// bfs explores the state space breadth first, one transition per (state, op).
func bfs(prop string, cf *SeqConf, out *Result) *Viol {
	un := univ(cf.init, cf.ops)
	vs.MapDesc = cf.desc
	defer func() { vs.MapDesc = false }()
	type nd struct {
		ops []Op
		m   *model.M
	}
	m0 := model.New()
	for _, o := range cf.init {
		m0.Apply(o)
	}
	if vi, _ := hist(prop, cf, cf.init, un, out); vi != nil {
		return vi
	}
	level := []nd{{cf.init, m0}}
	seen := map[[2]uint64]bool{}
	for depth := 0; len(level) > 0; depth++ {
		if cf.depth > 0 && depth >= cf.depth {
			break
		}
		var next []nd
		for _, n := range level {
			if stopNow() {
				out.Incomplete["deadline in "+cf.name]++
				return nil
			}
			for _, o := range cf.ops {
				if !cf.allowed(n.m, o) {
					continue
				}
				ops := append(append(make([]Op, 0, len(n.ops)+1), n.ops...), o)
				vi, state := hist(prop, cf, ops, un, out)
				if vi != nil {
					return vi
				}
				if len(out.Samples) < 3 && out.Transitions%5000 == 777 {
					out.Samples = append(out.Samples, model.OpsString(ops))
				}
				m := n.m.Clone()
				m.Apply(o)
				if cf.dedup {
					if state == "" {
						continue
					}
					h := fnv.New128a()
					h.Write([]byte(state))
					h.Write([]byte(m.Key()))
					var k [2]uint64
					for i, b := range h.Sum(nil) {
						k[i/8] = k[i/8]<<8 | uint64(b)
					}
					if seen[k] {
						continue
					}
					seen[k] = true
				}
				out.States++
				next = append(next, nd{ops, m})
			}
		}
		level = next
	}
	return nil
}

func seqOps(idx, al []string, docs []string) []Op {
	var r []Op
	names := append(append([]string{}, idx...), al...)
	for _, n := range names {
		for _, d := range docs {
			r = append(r, put(n, d))
		}
	}
	for _, a := range al {
		for _, i := range append(append([]string{}, idx...), "nope") {
			r = append(r, alias(a, i), unal(a, i))
		}
		r = append(r, unal(a, ""))
	}
	for _, i := range names {
		for _, j := range names {
			r = append(r, ren(i, j))
		}
		r = append(r, drop(i))
	}
	r = append(r, ren("nope", names[0]), drop("nope"), unal("nope", idx[0]), unal("nope", ""), alias("nope2", "nope"))
	return r
}

func seqUnits(prop string) []unit {
	if prop == "C07" {
		return snapUnits(prop)
	}
	var us []unit
	add := func(group string, cf *SeqConf) {
		cf.name = group
		us = append(us, unit{group, func(out *Result) *Viol { return bfs(prop, cf, out) }, 120})
	}
	// split a state space by its first call so that it spreads over the shards
	split := func(group string, cf *SeqConf, depth int) {
		var rec func(init []Op, d int)
		rec = func(init []Op, d int) {
			c := *cf
			c.init = init
			if d == 0 {
				add(group, &c)
				return
			}
			for _, o := range cf.ops {
				rec(append(append([]Op{}, init...), o), d-1)
			}
		}
		rec(cf.init, depth)
	}
	ab, abc := []string{"a", "b"}, []string{"a", "b", "c"}
	add("closure: indices a b, alias x, documents p q", &SeqConf{ops: seqOps(ab, []string{"x"}, []string{"p", "q"}), maxDocs: 1, dedup: true})
	add("closure: indices a b, aliases x y", &SeqConf{ops: seqOps(ab, []string{"x", "y"}, []string{"p"}), maxDocs: 1, dedup: true, depth: pick(8, 0)})
	add("closure: indices a b, alias x, two documents each", &SeqConf{ops: seqOps(ab, []string{"x"}, []string{"p"}), maxDocs: 2, dedup: true})
	add("closure: names used as index and alias", &SeqConf{ops: seqOps([]string{"a", "b"}, []string{"a", "b"}, []string{"p"}), maxDocs: 1, dedup: true})
	add("closure: indices a b c, alias x", &SeqConf{ops: seqOps(abc, []string{"x"}, []string{"p"}), maxDocs: 1, dedup: true, depth: pick(8, 0)})
	add("closure: indices that may be empty", &SeqConf{ops: seqOps(ab, []string{"x"}, []string{"p", "void"}), maxDocs: 1, dedup: true, pipe: "picky"})
	add("closure: indices that may be empty, maps in descending order", &SeqConf{ops: seqOps(ab, []string{"x"}, []string{"p", "void"}), maxDocs: 1, dedup: true, pipe: "picky", desc: true})
	add("closure: equal documents", &SeqConf{ops: seqOps(ab, []string{"x"}, []string{"s#1", "s#2"}), maxDocs: 2, dedup: true, depth: pick(5, 7)})
	add("closure: indices a b, alias x, maps in descending order", &SeqConf{ops: seqOps(ab, []string{"x"}, []string{"p"}), maxDocs: 1, dedup: true, desc: true})
	long := strings.Repeat("indice-largo/", 25)
	for _, n := range [][3]string{
		{"a", "ab", "abc"}, {"b", "ab", "cab"}, {"log", "log-1", "log-"}, {"i1", "i10", "i"}, {"x", "xx", "xxx"}, {"a", "A", "aA"},
		{"a", "a ", " a"}, {"", " ", "a"}, {"a:b", "a", "b"}, {"a,b", "a", "b"}, {"a.b", "a", "b"}, {"a/b", "a", "/b"}, {"a|b", "a", "b|"}, {"*", "a*", "a"},
		{"\u00e9", "e\u0301", "e"}, {"s", "\u017f", "S"}, {"k", "\u212a", "K"}, {"\xff", "\xfe", "\ufffd"}, {"a\x00", "a", "a\x00b"}, {"\u00df", "ss", "SS"},
		{long + "1", long + "2", long}, {"0", "00", "-0"}, {"nil", "null", "<nil>"}, {"_all", "all", "*"}, {"index:a", "a", "alias:a"},
		// pairs that common short digests do not tell apart
		{"costarring", "liquid", "Aa"}, {"Aa", "BB", "AaBB"}, {"plumless", "buckeroo", "BBAa"}, {"hetairas", "mentioner", "ab"}, {"declinate", "macallums", "ba"},
		{"ab", "ba", "aab"}, {"abc", "axc", "acb"}, {long + "ab" + long, long + "cd" + long, long + long}, {"12345678a", "12345678b", "12345678"}, {"a12345678", "b12345678", "12345678"},
	} {
		add("closure: related names", &SeqConf{ops: seqOps(n[:2], n[2:], []string{"p"}), maxDocs: 1, dedup: true})
		if thorough() {
			add("closure: related names", &SeqConf{ops: seqOps([]string{n[2], n[0]}, n[1:2], []string{"p"}), maxDocs: 1, dedup: true})
		}
	}
	for _, sep := range []string{":", "/", "\x00", ",", ".", " ", "|", "-", "->", "=", "_", "\n", "", "\t", ";", "#", "@", "\xff", "::", "=>"} {
		us = append(us, unit{"names that spell the same together", func(out *Result) *Viol { return spelled(prop, sep, out) }, 0})
	}
	for _, k := range []int{2, 3, 4, 5, 6, 9} {
		for order := 0; order < 5; order++ {
			us = append(us, unit{"aliases with the same links", func(out *Result) *Viol { return twins(prop, k, order, out) }, 0})
		}
	}
	split("odd names, all histories to depth 3", &SeqConf{ops: concat(seqOps([]string{"a", "A"}, []string{"", "á"}, []string{"p"}), []Op{put(" ", "p"), alias(" ", "a"), alias("", "")}), depth: 2}, 1)
	split("all histories to depth "+fmt.Sprint(pick(4, 5))+" without state matching", &SeqConf{ops: concat(seqOps(ab, []string{"x"}, []string{"p"}), []Op{has("a"), hasal("x"), list, lista, str, srch("x", "hits"), srch("x", "miss")}), depth: pick(2, 3)}, 2)
	for _, k := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33} {
		us = append(us, unit{"growing families", func(out *Result) *Viol { return families(prop, k, out) }, 0})
	}
	for _, k := range []int{2, 3, 4, 5, 6, 7, 8, 9, 12, 17} {
		if k > 8 && prop == "C03" {
			continue
		}
		for order := 0; order < 3; order++ {
			us = append(us, unit{"pairs of calls on an alias of many indices", func(out *Result) *Viol { return widePairs(prop, k, order, out) }, 0})
		}
	}
	for _, k := range []int{11, 13, 14, 15, 18, 19, 23, 24, 25, 31, 32, 34, 40, 48, 49, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 257} {
		us = append(us, unit{"large families", func(out *Result) *Viol { return largeFamilies(prop, k, out) }, 0})
	}
	for _, f := range turns {
		for _, n := range []int{256, 1024, 4096, 33000} {
			us = append(us, unit{"thousands of calls", func(out *Result) *Viol { return scaled(prop, n, f, out) }, 0})
		}
	}
	for _, f := range turns[:13] {
		for k := 4; k <= pick(8, 10); k++ {
			us = append(us, unit{"calls around a power of two between two looks", func(out *Result) *Viol { return counted(prop, k, f, out) }, 0})
		}
		us = append(us, unit{"calls around a power of two between two looks", func(out *Result) *Viol { return counted(prop, 16, f, out) }, 0})
	}
	for _, f := range growing {
		for _, n := range []int{1025, 4097, pick(9000, 70000)} {
			us = append(us, unit{"thousands of calls", func(out *Result) *Viol { return scaled(prop, n, f, out) }, 0})
		}
	}
	for _, n := range []int{2, 3, 9, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537} {
		us = append(us, unit{"long names", func(out *Result) *Viol { return longNames(prop, n, out) }, 0})
	}
	rep := concat(seqOps(ab, []string{"x"}, []string{"p"}), []Op{put("c", "p"), alias("x", "c"), srch("a", "all"), srch("x", "hits"), srch("x", "miss"), srch("nope", "all"), has("a"), hasal("x"), list, lista, str})
	for _, in := range inits {
		for _, o := range rep {
			us = append(us, unit{"one or two calls over and over", func(out *Result) *Viol { return repeated(prop, in.ops, o, rep, out) }, 0})
		}
	}
	return us
}

// spelled: pairs of an alias and an index that give the same text when joined
// by a separator; all short histories of calls on them.
func spelled(prop, sep string, out *Result) *Viol {
	cf := &SeqConf{name: fmt.Sprintf("joined by %q", sep)}
	i1, i2, a1, a2 := "c", "b"+sep+"c", "a", "a"+sep+"b"
	// (a1, i2) and (a2, i1) spell the same, and so do (i2, a1) and (i1 ...) the other way round
	i3, a3 := "a"+sep+"b", "c"+sep+"a"
	base := []Op{put("o", "O"), put(i1, "p"), put(i2, "q")}
	starts := [][]Op{base, concat(base, []Op{alias(a1, "o"), alias(a2, "o")}), concat(base, []Op{alias(a1, i2), alias(a2, i1)}), concat(base, []Op{put(i3, "r"), alias(a3, "o"), alias(a1, "o")})}
	ops := []Op{alias(a1, i2), alias(a2, i1), alias(a1, i1), alias(a2, i2), unal(a1, i2), unal(a2, i1), unal(a1, ""), drop(i1), drop(i2), ren(i1, i2), ren(i2, "n"), put(a1, "x"), put(a2, "y"), alias(a3, i3), alias(i2+sep+"d", i3)}
	var rec func(h []Op, d int) *Viol
	rec = func(h []Op, d int) *Viol {
		if stopNow() {
			out.Incomplete["deadline in names"]++
			return nil
		}
		out.States++
		if vi, _ := hist(prop, cf, h, univ(h), out); vi != nil {
			return vi
		}
		if d == 0 {
			return nil
		}
		for _, o := range ops {
			if vi := rec(append(append([]Op{}, h...), o), d-1); vi != nil {
				return vi
			}
		}
		return nil
	}
	for _, s := range starts {
		if vi := rec(s, pick(2, 3)); vi != nil {
			return vi
		}
	}
	return nil
}

// twins: two aliases that list the same k indices, and a third that lists all
// but the last; all short histories of calls on them.
func twins(prop string, k, order int, out *Result) *Viol {
	cf := &SeqConf{name: fmt.Sprintf("twins %d", k)}
	ix := func(i int) string { return fmt.Sprintf("i%d", i) }
	var base []Op
	for i := 0; i < k; i++ {
		base = append(base, put(ix(i), fmt.Sprintf("d%d", i)))
	}
	base = append(base, put("o", "O"))
	switch order {
	case 0, 3, 4: // link by link
		for i := 0; i < k; i++ {
			base = append(base, alias("x", ix(i)), alias("y", ix(i)))
			if i < k-1 {
				base = append(base, alias("z", ix(i)))
			}
		}
	case 1: // one alias after the other
		for _, a := range []string{"x", "y"} {
			for i := 0; i < k; i++ {
				base = append(base, alias(a, ix(i)))
			}
		}
	case 2: // the other way round
		for i := 0; i < k; i++ {
			base = append(base, alias("x", ix(i)), alias("y", ix(k-1-i)))
		}
	}
	switch order {
	case 3: // more links at first
		base = append(base, alias("x", "o"), alias("y", "o"), unal("x", "o"), unal("y", "o"))
	case 4: // looked at before
		base = append(base, srch("x", "all"), srch("y", "all"), put("x", "X"), put("y", "Y"))
	}
	ops := []Op{put("x", "n"), put("y", "m"), alias("x", "o"), alias("y", "o"), unal("x", ""), drop("o"), ren("o", ix(0)), ren(ix(0), "n"), ren("n", ix(0)), drop("n"), put(ix(0), "again"), alias("z", ix(k-1))}
	for _, i := range []int{0, k / 2, k - 1} {
		ops = append(ops, unal("x", ix(i)), unal("y", ix(i)), drop(ix(i)), ren(ix(i), ix((i+1)%k)), alias("x", ix(i)))
	}
	var rec func(h []Op, d int) *Viol
	rec = func(h []Op, d int) *Viol {
		if stopNow() {
			out.Incomplete["deadline in twins"]++
			return nil
		}
		out.States++
		if vi, _ := hist(prop, cf, h, univ(concat(h, ops)), out); vi != nil {
			return vi
		}
		if d == 0 {
			return nil
		}
		for _, o := range ops {
			if vi := rec(append(append([]Op{}, h...), o), d-1); vi != nil {
				return vi
			}
		}
		return nil
	}
	return rec(base, pick(2, 3))
}

// repeated: a call over and over, alone and in turns with every other call.
func repeated(prop string, init []Op, o Op, all []Op, out *Result) *Viol {
	cf := &SeqConf{name: "repeated"}
	run := func(n int, turn ...Op) *Viol {
		ops := append([]Op(nil), init...)
		for i := 0; i < n; i++ {
			for _, x := range turn {
				if x.K == "put" {
					x.D = fmt.Sprint("d", i)
				}
				ops = append(ops, x)
			}
		}
		out.States++
		vi, _ := hist(prop, cf, ops, univ(ops), out)
		return vi
	}
	for _, n := range []int{5, 9, 17, 33, 70, 140, pick(300, 1100)} {
		if vi := run(n, o); vi != nil {
			return vi
		}
	}
	for _, x := range all {
		if stopNow() {
			out.Incomplete["deadline in repeated calls"]++
			return nil
		}
		if vi := run(pick(20, 70), o, x); vi != nil {
			return vi
		}
		if x.K != "search" && x.K != "list" && x.K != "string" {
			if vi := run(11, o, x, put("a", "")); vi != nil {
				return vi
			}
		}
	}
	return nil
}

// widePairs: k indices behind one alias, attached in some order; every call on
// one of them followed by every call on another.
func widePairs(prop string, k, order int, out *Result) *Viol {
	cf := &SeqConf{name: fmt.Sprintf("pairs on %d", k)}
	ix := func(i int) string { return fmt.Sprintf("i%02d", i) }
	var base []Op
	for i := 0; i < k; i++ {
		base = append(base, put(ix(i), fmt.Sprintf("d%d", i)))
	}
	for i := 0; i < k; i++ {
		at := i
		switch order {
		case 1:
			at = k - 1 - i
		case 2: // from the middle outwards
			at = k/2 + (i+1)/2*(1-2*(i%2))
			at = (at + k) % k
		}
		base = append(base, alias("x", ix(at)))
	}
	run := func(ops []Op) *Viol {
		out.States++
		vi, _ := hist(prop, cf, ops, univ(ops), out)
		return vi
	}
	for i := 0; i < k; i++ {
		if k > 9 && i%3 != 0 && !thorough() {
			continue
		}
		n := ix(i)
		for _, first := range []Op{ren(n, "a"), ren(n, "i03x"), ren(n, "z"), unal("x", n), drop(n), alias("x", n), ren(n, ix((i+2)%k))} {
			if stopNow() {
				out.Incomplete["deadline in pairs"]++
				return nil
			}
			now := n
			if first.K == "rename" {
				now = first.B
			}
			for j := 0; j < k; j++ {
				o := ix(j)
				if o == n {
					o = now
				}
				tails := [][]Op{{alias("x", o)}, {unal("x", o), alias("x", o)}, {drop(o), put("x", "n")}, {ren(o, "m"), alias("x", "m"), unal("x", "m")}}
				if o == now {
					tails = append(tails, []Op{ren(now, n), alias("x", n)}, []Op{put(n, "n"), alias("x", n), put("x", "m")}, []Op{alias("x", n), put("x", "m"), unal("x", now), drop(now)})
				}
				for _, t := range tails {
					if vi := run(concat(base, []Op{first}, t)); vi != nil {
						return vi
					}
				}
			}
		}
	}
	return nil
}

// largeFamilies: k indices behind one alias, k aliases over one index, k
// indices with an alias each, an index of k documents.
func largeFamilies(prop string, k int, out *Result) *Viol {
	cf := &SeqConf{name: fmt.Sprintf("large family %d", k)}
	ix := func(i int) string { return fmt.Sprintf("i%02d", i) }
	al := func(i int) string { return fmt.Sprintf("x%02d", i) }
	var wide, single, many, docs []Op
	for i := 0; i < k; i++ {
		wide = append(wide, put(ix(i), fmt.Sprintf("d%d", i)), alias("x", ix(i)))
		single = append(single, put(ix(i), "p"), alias(al(i), ix(i)))
		docs = append(docs, put("a", fmt.Sprintf("d%d", i)))
	}
	many = append(many, put("a", "p"), put("b", "q"))
	for i := 0; i < k; i++ {
		many = append(many, alias(al(i), "a"))
		if i%3 == 0 {
			many = append(many, alias(al(i), "b"))
		}
	}
	docs = append(docs, put("b", "q"), alias("x", "b"), alias("x", "a"))
	var hs [][]Op
	h := func(base []Op, tail ...Op) { hs = append(hs, concat(base, tail)) }
	first, mid, last := ix(0), ix(k/2), ix(k-1)
	h(wide, put("x", "n"), srch("x", "linear"), srch("x", "miss"))
	for _, n := range []string{first, mid, last} {
		h(wide, unal("x", n), put("x", "n"), alias("x", n))
		h(wide, drop(n), put("x", "n"), put(n, "m"), alias("x", n))
		h(wide, ren(n, "new"), put("x", "n"), ren("new", n))
		h(wide, ren(n, ix(k/3)), put("x", "n"))
	}
	for _, m := range []int{9, 17, 33, 65, k/2 + 1, k} {
		if m > k {
			continue
		}
		var drops, dropsDown, rens, unals, unalsX, puts []Op
		for i := 0; i < m; i++ {
			drops = append(drops, drop(ix(i)))
			dropsDown = append(dropsDown, drop(ix(k-1-i)))
			rens = append(rens, ren(ix(i), "new"+ix(i)))
			unals = append(unals, unal(al(i), ix(i)))
			unalsX = append(unalsX, unal("x", ix(i)))
			puts = append(puts, put(al(i), "m"))
		}
		h(wide, concat(drops, []Op{put("x", "n")})...)
		h(wide, concat(unalsX, []Op{put("x", "n")})...)
		h(wide, concat(rens, []Op{put("x", "n"), unal("x", "")})...)
		h(single, drops...)
		h(single, dropsDown...)
		h(single, concat(rens, drops, []Op{put(al(0), "n")})...)
		h(single, unals...)
		h(single, concat(puts, drops[:m/2])...)
	}
	h(many, drop("a"), put(al(0), "n"))
	h(many, drop("b"), put(al(0), "n"))
	h(many, ren("a", "z"), put(al(k-1), "n"))
	h(many, ren("a", "b"), put(al(0), "n"))
	h(many, ren("b", "a"), unal(al(0), "a"), unal(al(k-1), ""))
	h(docs, ren("a", "z"))
	h(docs, ren("a", "b"), put("x", "n"))
	h(docs, ren("b", "a"), put("x", "n"))
	h(docs, put("x", "n"), drop("b"), put("b", "n"))
	h(docs, drop("a"), put("a", "n"), alias("x", "a"))
	for _, ops := range hs {
		if stopNow() {
			out.Incomplete["deadline in large families"]++
			return nil
		}
		if vi, _ := hist(prop, cf, ops, univ(ops), out); vi != nil {
			return vi
		}
		out.States++
	}
	return nil
}

func pick(q, t int) int {
	if thorough() {
		return t
	}
	return q
}

// families: aliases over k indices (and k aliases over one index), with every
// call at every position.
func families(prop string, k int, out *Result) *Viol {
	cf := &SeqConf{name: fmt.Sprintf("family %d", k)}
	ix := func(i int) string { return fmt.Sprintf("i%02d", i) }
	var wide, many, docs []Op
	for i := 0; i < k; i++ {
		wide = append(wide, put(ix(i), fmt.Sprintf("d%d", i)))
	}
	for i := k - 1; i >= 0; i-- {
		wide = append(wide, alias("x", ix(i)))
	}
	wide = append(wide, alias("y", ix(0)))
	many = append(many, put("a", "p"), put("b", "q"), put("c", "r"))
	for i := 0; i < k; i++ {
		many = append(many, alias(fmt.Sprintf("x%d", i), "a"))
		if i%2 == 0 {
			many = append(many, alias(fmt.Sprintf("x%d", i), "b"))
		}
	}
	docs = append(docs, put("a", "p"), put("b", "q"), alias("x", "b"), alias("x", "a"))
	for i := 0; i < k; i++ {
		docs = append(docs, put("x", fmt.Sprintf("e%d", i%5)))
	}
	var hs [][]Op
	h := func(base []Op, tail ...Op) { hs = append(hs, concat(base, tail)) }
	h(wide, put("x", "n"))
	h(wide, srch("x", "miss"), srch("x", "none"), srch("x", "linear"))
	h(wide, drop(ix(0)), srch("x", "miss"), put("x", "n"), srch("x", "miss"))
	h(many, srch("x0", "miss"), srch("a", "none"), srch("x0", "linear"))
	h(wide, put("x", "n"), unal("x", ""), put("x", "m"))
	for i := 0; i < k; i++ {
		n := ix(i)
		h(wide, unal("x", n), put("x", "n"))
		h(wide, drop(n), put("x", "n"), put(n, "again"), alias("x", n))
		h(wide, ren(n, "new"), put("x", "n"))
		h(wide, ren(n, n))
		h(wide, alias("x", n), unal("x", n), alias("x", n), put("x", "n"))
		j := ix((i + 1) % k)
		h(wide, ren(n, j), put("x", "n"), drop(j))
		h(wide, ren(n, "x"), put("x", "n"))
		h(wide, unal("x", n), ren(n, j), unal("y", j))
		h(wide, ren(n, "new"), ren("new", n), drop(n), drop(j))
		h(many, unal(fmt.Sprintf("x%d", i), "a"), drop("b"))
		h(many, unal(fmt.Sprintf("x%d", i), ""), ren("a", "b"))
		h(many, put(fmt.Sprintf("x%d", i), "n"), ren("c", "a"))
	}
	// empty the alias link by link, in both directions
	var down, up []Op
	for i := 0; i < k; i++ {
		down = append(down, unal("x", ix(i)))
		up = append(up, drop(ix(k-1-i)))
	}
	for i := 1; i <= k; i++ {
		h(wide, concat(down[:i], []Op{put("x", "n")})...)
		h(wide, concat(up[:i], []Op{put("x", "n")})...)
	}
	h(many, drop("a"), put("x0", "n"))
	h(many, ren("a", "z"), put("x0", "n"))
	h(many, ren("a", "b"), put("x0", "n"))
	h(many, ren("b", "a"), drop("a"))
	h(docs, ren("a", "z"))
	h(docs, ren("a", "b"))
	h(docs, drop("a"), put("x", "n"))
	h(docs, drop("b"), put("b", "n"), alias("x", "b"))
	for _, ops := range hs {
		if stopNow() {
			out.Incomplete["deadline in families"]++
			return nil
		}
		if vi, _ := hist(prop, cf, ops, univ(ops), out); vi != nil {
			return vi
		}
		out.States++
	}
	return nil
}

func replaySeq(vi *Viol) (string, string) {
	vs.MapDesc = vi.Desc
	if vi.Kind == "snap" {
		return replaySnap(vi)
	}
	st, x := runHistory(vi.Ops, univ(vi.Ops), vi.Pipe, false, vi.Prop == "C03")
	_, d := checkHistory(vi.Ops, univ(vi.Ops), &st, &x)
	return tail(d), strings.Join(st.res, "\n") + "\n" + x.Stack
}

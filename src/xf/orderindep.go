package main

import "fmt"

// orderUnits: multi-index searches under every schedule (and both map orders)
// return the sequence of the undisturbed search.
func orderUnits() []unit {
	var us []unit
	add := func(group string, scs ...*Scenario) {
		for _, sc := range scs {
			for _, desc := range []bool{false, true} {
				c := *sc
				c.Desc = desc
				us = append(us, unit{group, func(out *Result) *Viol { return exploreScenario("C10", &c, out) }, 0})
			}
		}
	}
	for k := 1; k <= 20; k++ {
		for shape := 0; shape < 4; shape++ {
			var in []Op
			for i := 0; i < k; i++ {
				n := fmt.Sprintf("i%d", i)
				docs := 1
				switch shape {
				case 1:
					docs = 1 + i%2
				case 2:
					docs = k - i
				}
				for d := 0; d < docs; d++ {
					id := fmt.Sprintf("%c%d", 'z'-rune(i), d)
					if shape == 3 {
						id = "same"
					}
					in = append(in, put(n, id))
				}
			}
			for i := 0; i < k; i++ {
				at := i
				if shape%2 == 1 {
					at = k - 1 - i
				}
				in = append(in, alias("x", fmt.Sprintf("i%d", at)))
			}
			if shape == 2 {
				in = append(in, put("x", "late"), ren("i0", "zz"))
			}
			st := initState{fmt.Sprintf("k%d shape%d", k, shape), in}
			for _, e := range []string{"all", "hits", "linear", "none"} {
				one := prog("search", st, []Op{srch("x", e)})
				add("one search, all schedules", one)
				if k > pick(4, 6) {
					continue
				}
				if e != "none" {
					add("one search, statement steps, 1 preemption", fine(one, 1))
				}
				if k <= 3 {
					add("two searches, all schedules", prog("search2", st, []Op{srch("x", e)}, []Op{srch("x", "all"), srch("x", e)}))
					for _, r := range []Op{list, lista, has("a"), hasal("x"), str, srch("i0", "all")} {
						add("search and reader, all schedules", prog("search+reader", st, []Op{srch("x", e)}, []Op{r}))
					}
				}
				if k == 2 {
					add("one search, statement steps, 2 preemptions", fine(one, 2))
				}
				if k == 2 || k == 3 {
					add("Spanish pipeline", spanish(one))
				}
				if thorough() && k == 3 {
					add("one search, statement steps, 2 preemptions", fine(one, 2))
				}
			}
		}
	}
	for _, k := range []int{24, 25, 31, 32, 33, 40, 64, 65, pick(70, 130)} {
		var in []Op
		for i := 0; i < k; i++ {
			in = append(in, put(fmt.Sprintf("i%d", i), fmt.Sprintf("d%03d", (i*7)%k)))
		}
		for i := 0; i < k; i++ {
			in = append(in, alias("x", fmt.Sprintf("i%d", i)))
		}
		for _, e := range []string{"all", "hits", "linear"} {
			add("one search of many indices", prog("search", initState{fmt.Sprintf("k%d", k), in}, []Op{srch("x", e)}))
		}
	}
	return us
}

// indepUnits: two repositories (or two indices) from one builder used at the
// same time, under the race detector.
func indepUnits() []unit {
	var us []unit
	add := func(group string, scs ...*Scenario) {
		for _, sc := range scs {
			us = append(us, unit{group, func(out *Result) *Viol { return exploreScenario("C18", sc, out) }, 0})
		}
	}
	on := func(l []Op, r int) []Op {
		var c []Op
		for _, o := range l {
			o.R = r
			c = append(c, o)
		}
		return c
	}
	ws := concat(writersS, readers)
	for _, base := range []initState{inits[0], inits[1], inits[3]} {
		st := initState{base.name, concat(on(base.ops, 0), on(base.ops, 1))}
		for _, a := range ws {
			for _, b := range ws {
				sc := prog("two repositories", st, on([]Op{a}, 0), on([]Op{b}, 1))
				sc.Repos = 2
				add("two repositories, all schedules", sc)
				if base.name == "two+alias" {
					add("two repositories, Spanish pipeline", spanish(sc))
				}
			}
		}
	}
	for k := range texts {
		d := fmt.Sprint("oldT", k)
		base := []Op{put("a", d), put("b", d), alias("x", "a"), alias("x", "b")}
		for _, a := range textOps(k) {
			for _, b := range textOps(k) {
				sc := prog("two repositories", initState{d, concat(on(base, 0), on(base, 1))}, on([]Op{a}, 0), on([]Op{b}, 1))
				sc.Repos = 2
				add("texts of every kind", piped(sc)...)
				if a.A == "a" && b.A == "a" {
					sc := prog("two indices", initState{d, concat(on(base[:1], 0), on(base[:1], 1))}, on([]Op{a}, 0), on([]Op{b}, 1))
					sc.Repos, sc.Direct = 2, true
					add("texts of every kind", piped(sc)...)
				}
			}
		}
	}
	dops := []Op{put("a", ""), srch("a", "all"), srch("a", "hits"), srch("a", "two")}
	for _, base := range [][]Op{nil, {put("a", "A1")}, {put("a", "A1"), put("a", "A2"), put("a", "A3")}} {
		st := initState{fmt.Sprintf("%d documents", len(base)), concat(on(base, 0), on(base, 1))}
		for _, a := range dops {
			for _, b := range dops {
				for _, c := range dops {
					for _, d := range dops {
						for _, pipe := range []bool{false, true} {
							sc := prog("two indices", st, on([]Op{a, b}, 0), on([]Op{c, d}, 1))
							sc.Repos, sc.Direct = 2, true
							if pipe {
								sc = spanish(sc)
							}
							add("two indices, all schedules", sc)
							if thorough() || len(base) == 1 && !pipe {
								add("two indices, statement steps, 1 preemption", fine(sc, 1))
							}
						}
					}
				}
			}
		}
	}
	return us
}

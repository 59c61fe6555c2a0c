package main

import (
	"fmt"
	"strings"
)

func put(n, d string) Op   { return Op{K: "put", A: n, D: d} }
func alias(a, i string) Op { return Op{K: "alias", A: a, B: i} }
func unal(a, i string) Op  { return Op{K: "unalias", A: a, B: i} }
func ren(a, b string) Op   { return Op{K: "rename", A: a, B: b} }
func drop(a string) Op     { return Op{K: "drop", A: a} }
func has(a string) Op      { return Op{K: "has", A: a} }
func hasal(a string) Op    { return Op{K: "hasalias", A: a} }
func srch(a, e string) Op  { return Op{K: "search", A: a, D: e} }

var list, lista, str = Op{K: "list"}, Op{K: "listaliases"}, Op{K: "string"}

type initState struct {
	name string
	ops  []Op
}

var inits = []initState{
	{"two+alias", []Op{put("a", "A1"), put("b", "B1"), alias("x", "a"), alias("x", "b")}},
	{"empty", nil},
	{"one", []Op{put("a", "A1")}},
	{"one+alias", []Op{put("a", "A1"), alias("x", "a")}},
	{"two+alias-one", []Op{put("a", "A1"), put("b", "B1"), alias("x", "a")}},
	{"two", []Op{put("a", "A1"), put("b", "B1")}},
	{"two+two-aliases", []Op{put("a", "A1"), put("b", "B1"), alias("x", "a"), alias("x", "b"), alias("y", "a")}},
	{"alias-named-as-index", []Op{put("a", "A1"), alias("b", "a")}},
	{"shadowed-alias", []Op{put("a", "A1"), put("b", "B1"), alias("a", "b"), alias("x", "b")}},
	{"three+alias", []Op{put("a", "A1"), put("b", "B1"), put("c", "C1"), alias("x", "c"), alias("x", "a"), alias("x", "b")}},
}

// states with more behind them: larger ones, and ones reached through renames and drops
var deepInits = []initState{
	{"five", []Op{put("a", "A1"), put("b", "B1"), put("c", "C1"), put("d", "D1"), put("e", "E1"), alias("x", "e"), alias("x", "a"), alias("x", "d"), alias("x", "b"), alias("x", "c"), alias("y", "a"), alias("y", "b")}},
	{"recreated", []Op{put("a", "A1"), put("b", "B1"), alias("x", "a"), alias("x", "b"), drop("a"), put("a", "A2")}},
	{"renamed", []Op{put("c", "C1"), put("b", "B1"), alias("x", "c"), alias("x", "b"), ren("c", "a"), alias("y", "a"), put("x", "X1")}},
	{"replaced", []Op{put("c", "C1"), put("a", "A1"), put("b", "B1"), alias("x", "a"), alias("x", "c"), ren("c", "a"), put("a", "A2")}},
	{"emptied", []Op{put("a", "A1"), put("b", "B1"), put("c", "C1"), alias("x", "c"), alias("x", "b"), alias("x", "a"), unal("x", "b"), drop("c")}},
	{"filled", []Op{put("a", "A1"), put("a", "A2"), put("a", "A3"), put("a", "A4"), put("b", "B1"), put("b", "B2"), put("b", "B3"), alias("x", "a"), alias("x", "b"), put("x", "X1")}},
	{"three after four", []Op{put("a", "A1"), put("b", "B1"), put("c", "C1"), put("d", "D1"), alias("x", "a"), alias("x", "b"), alias("x", "c"), alias("x", "d"), unal("x", "d"), drop("d"), alias("y", "c")}},
}

// aliases that list the same indices in different orders
var crossInits = []initState{
	{"crossed", []Op{put("a", "A1"), put("b", "B1"), put("c", "C1"), alias("x", "a"), alias("x", "b"), alias("y", "b"), alias("y", "a")}},
	{"ring", []Op{put("a", "A1"), put("b", "B1"), put("c", "C1"), alias("x", "a"), alias("x", "b"), alias("x", "c"), alias("y", "c"), alias("y", "b"), alias("y", "a"), alias("z", "b"), alias("z", "c"), alias("z", "a")}},
}
var crossOps = []Op{put("x", ""), put("y", ""), put("z", ""), srch("x", "all"), srch("y", "hits"), put("a", ""), alias("x", "c"), unal("y", "a"), ren("a", "n"), ren("b", "a"), drop("b"), lista}
var crossOpsS = []Op{put("x", ""), put("y", ""), put("z", ""), srch("x", "all"), srch("y", "all"), ren("a", "b"), drop("b")}

// large states
var bigInits = func() []initState {
	wide := []Op{}
	for i := 0; i < 18; i++ {
		wide = append(wide, put(fmt.Sprintf("w%02d", i), fmt.Sprintf("W%d", i)))
	}
	wide = append(wide, put("a", "A1"), put("b", "B1"), alias("x", "a"))
	for i := 17; i >= 0; i-- {
		wide = append(wide, alias("x", fmt.Sprintf("w%02d", i)))
	}
	many := []Op{put("b", "B1"), alias("x", "a"), put("a", "A1"), alias("x", "a")}
	for i := 0; i < 66; i++ {
		many = append(many, put("a", fmt.Sprintf("M%d", i)))
	}
	aliases := []Op{put("a", "A1"), put("b", "B1"), alias("x", "a")}
	for i := 0; i < 70; i++ {
		aliases = append(aliases, alias(fmt.Sprintf("l%02d", i), "a"))
	}
	busy := []Op{put("a", "A1"), put("b", "B1")}
	for i := 0; i < 40; i++ {
		busy = append(busy, alias("x", "a"), srch("x", "hits"), unal("x", "a"), alias("x", "b"), unal("x", ""), put("n", "N"), drop("n"), ren("b", "n"), ren("n", "b"))
	}
	busy = append(busy, alias("x", "a"))
	return []initState{{"wide", wide}, {"many documents", many}, {"many aliases", aliases}, {"long history", busy}}
}()

// alphabets
var writers = []Op{
	put("a", ""), put("x", ""), put("b", ""), put("n", ""),
	alias("x", "a"), alias("x", "b"), alias("y", "a"), alias("x", "n"), alias("n", "a"),
	unal("x", "a"), unal("x", "b"), unal("x", ""), unal("y", "a"), unal("n", "a"), unal("x", "n"),
	ren("a", "b"), ren("b", "a"), ren("a", "n"), ren("n", "a"), ren("a", "a"), ren("a", "x"), ren("b", "n"),
	drop("a"), drop("b"), drop("n"),
}
var readers = []Op{
	srch("a", "all"), srch("x", "all"), srch("n", "all"), srch("x", "hits"), srch("b", "two"), srch("x", "miss"),
	has("a"), has("n"), hasal("x"), list, lista, str,
}

// smaller alphabets for larger programs
var writersS = []Op{
	put("a", ""), put("x", ""), put("n", ""), alias("x", "a"), alias("x", "b"), unal("x", "a"), unal("x", ""),
	ren("a", "n"), ren("a", "b"), ren("n", "a"), drop("a"), drop("b"),
}
var readersS = []Op{srch("a", "all"), srch("x", "all"), srch("n", "all"), has("a"), has("n"), list, lista, hasal("x")}

func isReader(o Op) bool {
	switch o.K {
	case "search", "has", "hasalias", "list", "listaliases", "string":
		return true
	}
	return false
}

// prog makes a scenario and names the documents of its puts.
func prog(name string, in initState, threads ...[]Op) *Scenario {
	sc := &Scenario{Name: name + "/" + in.name, Init: in.ops, Sleep: true}
	for t, l := range threads {
		var c []Op
		for i, o := range l {
			if o.K == "put" {
				switch o.D {
				case "S": // the same identifier
					o.D = fmt.Sprintf("s#t%d%d", t, i)
				case "E": // the same identifier and content
					o.D = "s#e"
				default:
					o.D = fmt.Sprintf("t%d%d%s", t, i, o.D)
				}
			}
			c = append(c, o)
		}
		sc.Threads = append(sc.Threads, c)
	}
	return sc
}

func fine(sc *Scenario, bound int) *Scenario {
	c := *sc
	c.Fine, c.Sleep, c.Bound = true, false, bound
	c.Name = "fine " + c.Name
	return &c
}

func bounded(sc *Scenario, bound int) *Scenario {
	c := *sc
	c.Sleep, c.Bound = false, bound
	return &c
}

func spanish(sc *Scenario) *Scenario {
	c := *sc
	c.Pipe = "spanish"
	c.Name = "spanish " + c.Name
	return &c
}

// pairs: every unordered pair of calls, in every initial state.
func pairs(al []Op, in []initState, want func(a, b Op) bool) []*Scenario {
	var r []*Scenario
	for _, s := range in {
		for i, a := range al {
			for _, b := range al[i:] {
				if want(a, b) {
					r = append(r, prog("pair", s, []Op{a}, []Op{b}))
				}
			}
		}
	}
	return r
}

// chains: one call against two consecutive calls of another client.
func chains(xs, ys []Op, in []initState, want func(x, y, z Op) bool) []*Scenario {
	var r []*Scenario
	for _, s := range in {
		for _, x := range xs {
			for _, y := range ys {
				for _, z := range ys {
					if want(x, y, z) {
						r = append(r, prog("chain", s, []Op{x}, []Op{y, z}))
					}
				}
			}
		}
	}
	return r
}

// squares: two clients with two calls each.
func squares(al []Op, in []initState, want func(a, b, c, d Op) bool) []*Scenario {
	var r []*Scenario
	for _, s := range in {
		for i, a := range al {
			for j, b := range al {
				for k, c := range al {
					for l, d := range al {
						if i*len(al)+j <= k*len(al)+l && want(a, b, c, d) {
							r = append(r, prog("square", s, []Op{a, b}, []Op{c, d}))
						}
					}
				}
			}
		}
	}
	return r
}

// quads: four clients with one call each.
func quads(al []Op, in []initState, want func(a, b, c, d Op) bool) []*Scenario {
	var r []*Scenario
	for _, s := range in {
		for i, a := range al {
			for j, b := range al[i:] {
				for k, c := range al[i+j:] {
					for _, d := range al[i+j+k:] {
						if want(a, b, c, d) {
							r = append(r, prog("quad", s, []Op{a}, []Op{b}, []Op{c}, []Op{d}))
						}
					}
				}
			}
		}
	}
	return r
}

// long: one call against three consecutive calls of another client.
func longs(xs, ys []Op, in []initState, want func(a, b, c, d Op) bool) []*Scenario {
	var r []*Scenario
	for _, s := range in {
		for _, a := range xs {
			for _, b := range ys {
				for _, c := range ys {
					for _, d := range ys {
						if want(a, b, c, d) {
							r = append(r, prog("long", s, []Op{a}, []Op{b, c, d}))
						}
					}
				}
			}
		}
	}
	return r
}

// triples: three clients with one call each.
func triples(xs, zs []Op, in []initState, want func(x, y, z Op) bool) []*Scenario {
	var r []*Scenario
	for _, s := range in {
		for i, x := range xs {
			for _, y := range xs[i:] {
				for _, z := range zs {
					if want(x, y, z) {
						r = append(r, prog("triple", s, []Op{x}, []Op{y}, []Op{z}))
					}
				}
			}
		}
	}
	return r
}

// the smallest alphabets
var writersT = []Op{put("a", ""), put("x", ""), alias("x", "b"), unal("x", "a"), ren("a", "n"), ren("n", "a"), drop("a")}
var mixedT = []Op{put("a", ""), put("x", ""), alias("x", "b"), unal("x", "a"), ren("a", "n"), drop("a"), srch("x", "all"), srch("a", "all")}

// long documents and queries
var longOps = []Op{put("a", "L"), put("x", "L"), put("n", "L"), put("a", ""), srch("a", "long"), srch("x", "longl"), srch("x", "long"), drop("a"), alias("x", "b"), unal("x", "a"), ren("a", "n")}

func isLong(o Op) bool { return o.D == "L" || strings.HasPrefix(o.D, "long") }

func long2(a, b Op) bool    { return (isLong(a) || isLong(b)) && !(isReader(a) && isReader(b)) }
func long3(a, b, c Op) bool { return long2(a, b) || long2(b, c) || long2(a, c) }

// documents that share their identifier, and equal documents
var sameOps = []Op{put("a", "S"), put("x", "S"), put("n", "S"), put("a", "E"), put("x", "E"), put("n", "E"), alias("x", "b"), unal("x", "a"), ren("a", "n"), drop("a"), srch("a", "hits"), srch("x", "linear")}

func isSame(o Op) bool      { return o.D == "S" || o.D == "E" }
func same2(a, b Op) bool    { return isSame(a) && isSame(b) }
func same3(a, b, c Op) bool { return same2(a, b) || same2(b, c) || same2(a, c) }

// texts of every kind
func textOps(k int) []Op {
	t := fmt.Sprint("T", k)
	return []Op{put("a", t), put("x", t), put("n", t), srch("a", t+"hits"), srch("x", t+"linear")}
}

// textPairs: pairs of calls with texts of one kind, under every pipeline.
func textPairs() []*Scenario {
	var r []*Scenario
	for k := range texts {
		d := fmt.Sprint("oldT", k)
		in := initState{d, []Op{put("a", d), put("b", d), alias("x", "a"), alias("x", "b")}}
		for _, sc := range pairs(textOps(k), []initState{in}, any2) {
			r = append(r, piped(sc)...)
		}
	}
	return r
}

// piped: the scenario under every pipeline.
func piped(sc *Scenario) []*Scenario {
	p := *sc
	p.Pipe, p.Name = "parts", "parts "+sc.Name
	return []*Scenario{sc, spanish(sc), &p}
}

// searches of every kind, for searches at the same time
var searches = []Op{srch("a", "all"), srch("a", "hits"), srch("a", "linear"), srch("a", "two"), srch("a", "miss"), srch("a", "none"), srch("a", "long"), srch("x", "all"), srch("x", "hits"), srch("x", "linear"), srch("x", "miss"), srch("x", "longl"), srch("b", "all"), srch("b", "hits"), srch("n", "all"), list, lista, has("a"), hasal("x"), str}

// calls on large states
var bigOps = []Op{put("a", ""), put("x", ""), put("n", ""), put("zz", ""), alias("x", "b"), unal("x", "a"), unal("x", ""), ren("a", "n"), ren("a", "b"), drop("a"), srch("x", "all"), srch("a", "hits"), list, lista, has("a")}

var bigSearches = []Op{srch("x", "all"), srch("x", "hits"), srch("a", "all"), lista}

func any4(a, b, c, d Op) bool { return true }

func any2(a, b Op) bool    { return true }
func any3(a, b, c Op) bool { return true }

func concatS(l ...[]*Scenario) []*Scenario {
	var r []*Scenario
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

func concat(l ...[]Op) []Op {
	var r []Op
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

package main

import (
	"fmt"
	"strings"

	"github.com/sonirico/visigoth/zz_verif/model"
)

// scaled: tens of thousands of calls in one history.
func scaled(prop string, n int, turn func(i int) []Op, out *Result) *Viol {
	cf := &SeqConf{name: fmt.Sprintf("%d rounds", n)}
	ops := []Op{put("a", "A"), put("b", "B"), put("c", "C"), alias("x", "a"), alias("x", "b"), alias("y", "b")}
	for i := 0; i < n; i++ {
		ops = append(ops, turn(i)...)
	}
	names := univ(ops[:40], ops[len(ops)-40:], []Op{drop("n"), drop("m"), drop("t"), drop("z")})
	for _, end := range [][]Op{{alias("x", "c"), put("x", "X"), unal("x", "a"), ren("b", "m"), drop("c"), put("new", "N"), alias("z", "new")}} {
		if stopNow() {
			out.Incomplete["deadline in thousands of calls"]++
			return nil
		}
		out.States++
		if vi, _ := hist(prop, cf, concat(ops, end), names, out); vi != nil {
			vi.Detail = tail(vi.Detail)
			vi.Key = fmt.Sprintf("%s %s...", cf.name, model.OpsString(ops[:12]))
			return vi
		}
	}
	return nil
}

var turns = []func(i int) []Op{
	func(int) []Op { return []Op{alias("x", "c"), unal("x", "c")} },
	func(int) []Op { return []Op{alias("z", "a"), unal("z", "")} },
	func(int) []Op { return []Op{alias("z", "a"), unal("z", "a")} },
	func(int) []Op { return []Op{alias("x", "a"), unal("x", "c")} },
	func(int) []Op { return []Op{ren("c", "n"), ren("n", "c")} },
	func(int) []Op { return []Op{ren("a", "n"), ren("n", "a")} },
	func(int) []Op { return []Op{ren("a", "a"), ren("nope", "a")} },
	func(int) []Op { return []Op{put("t", "T"), drop("t")} },
	func(int) []Op { return []Op{put("t", "T"), ren("t", "c")} },
	func(int) []Op { return []Op{put("t", "T"), alias("x", "t"), drop("t")} },
	func(i int) []Op { return []Op{put(fmt.Sprint("t", i), "T"), drop(fmt.Sprint("t", i))} },
	func(i int) []Op {
		return []Op{ren(fmt.Sprint("t", i-1), fmt.Sprint("t", i)), put(fmt.Sprint("t", i), "T"), drop(fmt.Sprint("t", i-2))}
	},
	func(i int) []Op { return []Op{alias(fmt.Sprint("z", i), "a"), unal(fmt.Sprint("z", i), "a")} },
	func(i int) []Op { return []Op{alias(fmt.Sprint("z", i), "a"), unal(fmt.Sprint("z", i), "")} },
	func(i int) []Op { return []Op{has(fmt.Sprint("z", i)), hasal(fmt.Sprint("z", i))} },
	func(i int) []Op { return []Op{srch(fmt.Sprint("z", i), "all"), drop(fmt.Sprint("z", i))} },
	func(int) []Op { return []Op{has("a"), hasal("x")} },
	func(int) []Op { return []Op{srch("x", "hits"), srch("a", "miss")} },
	func(int) []Op { return []Op{srch("nope", "all"), srch("y", "linear")} },
	func(int) []Op { return []Op{list, lista} },
	func(int) []Op { return []Op{drop("nope"), unal("nope", "a"), alias("z", "nope")} },
}

// growing states: what n rounds leave behind stays.
var growing = []func(i int) []Op{
	func(i int) []Op { return []Op{put("a", fmt.Sprint("d", i))} },
	func(i int) []Op { return []Op{put("x", "same")} },
	func(i int) []Op { return []Op{put("x", fmt.Sprint("d", i)), put("y", fmt.Sprint("e", i))} },
	func(i int) []Op { return []Op{put(fmt.Sprint("t", i), "T")} },
	func(i int) []Op { return []Op{alias(fmt.Sprint("z", i), "a"), alias(fmt.Sprint("z", i), "b")} },
}

// longNames: names of n bytes that differ in one place.
func longNames(prop string, n int, out *Result) *Viol {
	cf := &SeqConf{name: fmt.Sprintf("names of %d bytes", n)}
	for _, at := range []int{0, n / 2, n - 1} {
		name := func(c string) string { return strings.Repeat("n", at) + c + strings.Repeat("n", n-1-at) }
		a, b, x, y := name("a"), name("b"), name("x"), name("y")
		base := []Op{put(a, "A"), put(b, "B"), alias(x, a), alias(y, b)}
		for _, o := range []Op{put(x, "X"), put(name("c"), "C"), alias(x, b), alias(y, name("c")), unal(x, b), unal(x, a), unal(y, ""), ren(a, b), ren(a, name("c")), ren(b, x), drop(a), drop(b), drop(x)} {
			for _, p := range []Op{put(y, "Y"), alias(y, a), unal(y, b), ren(b, a), drop(b), list} {
				if stopNow() {
					out.Incomplete["deadline in long names"]++
					return nil
				}
				out.States++
				ops := concat(base, []Op{o, p})
				if vi, _ := hist(prop, cf, ops, univ(ops), out); vi != nil {
					return vi
				}
			}
		}
	}
	return nil
}

// counted: exactly so many changes between two looks that a narrow counter of
// them has come round.
func counted(prop string, k int, turn func(i int) []Op, out *Result) *Viol {
	cf := &SeqConf{name: fmt.Sprintf("around %d calls", 1<<k)}
	base := []Op{put("a", "A"), put("b", "B"), put("c", "C"), alias("x", "a"), alias("x", "b"), alias("y", "b"), srch("y", "all"), has("a"), hasal("z"), has("t"), has("n"), list, lista, srch("x", "all")}
	run := func(ops []Op) *Viol {
		out.States++
		vi, _ := hist(prop, cf, ops, univ(base, ops[len(ops)-12:], []Op{drop("n"), drop("t"), drop("z")}), out)
		if vi != nil {
			vi.Detail = tail(vi.Detail)
			vi.Key = fmt.Sprintf("%s %s...", cf.name, model.OpsString(ops[len(base):len(base)+4]))
		}
		return vi
	}
	for _, end := range [][]Op{nil, {unal("x", "a")}, {ren("b", "m"), drop("a")}, {alias("x", "c"), drop("b")}, {drop("a"), put("a", "new")}} {
		for n := 1<<k - 8; n <= 1<<k+1; n++ {
			if stopNow() {
				out.Incomplete["deadline in counted calls"]++
				return nil
			}
			if k > 12 && (len(end) != 2 || n&1 == 1) {
				continue
			}
			ops := append([]Op{}, base...)
			for i := 0; len(ops) < len(base)+n; i++ {
				ops = append(ops, turn(i)...)
			}
			ops = append(ops[:len(base)+n], end...)
			if vi := run(append(ops, srch("x", "all"))); vi != nil {
				return vi
			}
		}
	}
	return nil
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[:1000] + " ... " + s[len(s)-2000:]
	}
	return s
}

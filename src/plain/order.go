package main

import (
	"fmt"
	"sort"
	"strings"

	v "github.com/sonirico/visigoth"
)

func perms(n int) [][]int {
	var r [][]int
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			r = append(r, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
	return r
}

func sequence(l []v.SearchResult) string {
	var b strings.Builder
	for _, r := range l {
		fmt.Fprintf(&b, "(%q %q %d)", r.Document.ID(), r.Document.Raw(), r.Hits)
	}
	return b.String()
}

// checkOrder decides the order of one search of an index.
func checkOrder(c *ctx, cp corpus, ix *v.MemoryIndex, q []string) {
	l := newLookup(cp)
	text := strings.Join(q, " ")
	c.eval(len(cp) > 1)
	c.sample(func() string { return fmt.Sprintf("index of %s query %q", cp, q) })
	for _, e := range []engineCase{{"hits", v.HitsSearch}, {"linear", v.LinearSearch}, {"match-all", v.NoopAllSearch}} {
		res := ix.Search(text, e.fn)
		first := sequence(res)
		for k := 0; k < 2; k++ {
			if g := sequence(ix.Search(text, e.fn)); g != first {
				c.failed(e.name+" not repeatable", "index of %s, query %q, engine %s: first %s, then %s", cp, q, e.name, first, g)
			}
		}
		if e.name == "hits" {
			for i := 1; i < len(res); i++ {
				a, b := res[i-1], res[i]
				if a.Hits < b.Hits || a.Hits == b.Hits && a.Document.ID() > b.Document.ID() {
					c.failed("hits order", "index of %s, query %q: hit-counting search returns %q (%d hits) before %q (%d hits)", cp, q, a.Document.ID(), a.Hits, b.Document.ID(), b.Hits)
				}
			}
			continue
		}
		p := l.positions(res)
		if !sort.IntsAreSorted(p) {
			c.failed(e.name+" order", "index of %s, query %q: %s search returns documents in the order of positions %v", cp, q, e.name, p)
		}
	}
}

func unitsC10() []unit {
	var us []unit
	pool := []string{"a", "b", "c", "B", "ab", "á"}
	for n := 1; n <= 6; n++ {
		ps := perms(n)
		us = append(us, unit{"every insertion order of distinct identifiers", func(c *ctx) {
			for _, p := range ps {
				var cp corpus
				for i, x := range p {
					t := []string{"w"}
					if i%2 == 0 {
						t = append(t, "u", "w")
					}
					cp = append(cp, sdoc{pool[x], t})
				}
				ix := cp.index()
				for _, q := range [][]string{{"w"}, {"u"}, {"w", "u"}, {"u", "w", "w"}, {"u", "u"}, {}} {
					checkOrder(c, cp, ix, q)
				}
			}
		}})
	}
	ids := []string{"a", "b", "B", ""}
	for _, first := range ids {
		us = append(us, unit{"every assignment of shared identifiers", func(c *ctx) {
			for _, rest := range seqs(ids, 0, 4) {
				for m := 0; m < 1<<min(len(rest)+1, pick(4, 5)); m++ {
					var cp corpus
					for i, id := range append([]string{first}, rest...) {
						t := []string{"w"}
						if m>>i&1 == 1 {
							t = []string{"u", "w"}
						}
						cp = append(cp, sdoc{id, t})
					}
					ix := cp.index()
					for _, q := range [][]string{{"w"}, {"u"}, {"w", "u"}, {"u", "w"}} {
						checkOrder(c, cp, ix, q)
					}
				}
			}
		}})
	}
	for n := 2; n <= pick(70, 300); n++ {
		us = append(us, unit{"growing number of documents", func(c *ctx) {
			for kind := 0; kind < 4; kind++ {
				cp := family(n, kind)
				ix := cp.index()
				for _, q := range familyQueries {
					checkOrder(c, cp, ix, q)
				}
			}
			// insertion orders that are neither ascending nor descending
			for _, step := range []int{1, 3, 7, 11} {
				var cp corpus
				for i := 0; i < n; i++ {
					t := []string{"all"}
					if i%3 != 0 {
						t = append(t, "some")
					}
					cp = append(cp, sdoc{fmt.Sprintf("d%d", (i*step+5)%n), t})
				}
				ix := cp.index()
				checkOrder(c, cp, ix, []string{"all"})
				checkOrder(c, cp, ix, []string{"some", "all"})
			}
		}})
	}
	for _, n := range []int{100, 128, 256, 257, 300, 500, 1000} {
		us = append(us, unit{"many documents", func(c *ctx) {
			for kind := 0; kind < 4; kind++ {
				cp := family(n, kind)
				ix := cp.index()
				for _, q := range [][]string{{"all"}, {"even"}, {"even", "third"}, {"odd", "all"}} {
					checkOrder(c, cp, ix, q)
				}
			}
		}})
	}
	for _, n := range []int{40, 100, 300, 520, 1100, pick(2100, 5000)} {
		for _, p := range []int{4, 8, 12, 16, 20, 24, 28, 32, 64, 128, 250} {
			us = append(us, unit{"many documents, identifiers alike up to some byte", func(c *ctx) {
				for _, step := range []int{1, 7, 11} {
					var cp corpus
					for i := 0; i < n; i++ {
						t := []string{"all"}
						if i%3 != 0 {
							t = append(t, "some")
						}
						cp = append(cp, sdoc{fmt.Sprintf("%s%d", strings.Repeat("k", p), (n*step-i*step)%n), t})
					}
					ix := cp.index()
					checkOrder(c, cp, ix, []string{"all"})
					checkOrder(c, cp, ix, []string{"some", "all"})
				}
			}})
		}
	}
	us = append(us, unit{"the same searches again and again", func(c *ctx) {
		for _, n := range []int{1, 3, 20, 130} {
			cp := family(n, 2)
			ix := cp.index()
			first := map[string]string{}
			for i := 0; i < pick(2600, 40000); i++ {
				q := []string{"all", "even all", "odd", "all"}[i%4]
				for _, e := range []engineCase{{"hits", v.HitsSearch}, {"linear", v.LinearSearch}, {"match-all", v.NoopAllSearch}} {
					c.eval(true)
					g := sequence(ix.Search(q, e.fn))
					if w, ok := first[e.name+q]; !ok {
						first[e.name+q] = g
					} else if w != g {
						c.failed(e.name+" not repeatable", "index of %s, query %q, engine %s: first %s, after %d searches %s", cp, q, e.name, w, i, g)
					}
				}
			}
		}
	}})
	us = append(us, unit{"ordering of result lists with mixed hit counts", func(c *ctx) {
		docs := []string{"", "a", "b", "B", "ab", "á", "a"}
		var pool []v.SearchResult
		for i, d := range docs {
			for h := -1; h <= 3; h++ {
				pool = append(pool, v.SearchResult{Document: v.NewDoc(d, fmt.Sprint(i, h)), Hits: h})
			}
		}
		less := func(a, b v.SearchResult) bool {
			return a.Hits > b.Hits || a.Hits == b.Hits && a.Document.ID() < b.Document.ID()
		}
		for _, a := range pool {
			for _, b := range pool {
				c.eval(a != b)
				rs := v.SearchResults{a, b}
				if rs.Len() != 2 || rs.Less(0, 1) != less(a, b) || rs.Less(1, 0) != less(b, a) {
					c.failed("Less", "SearchResults of %v and %v: Less is %v/%v", a, b, rs.Less(0, 1), rs.Less(1, 0))
				}
				for _, d := range pool {
					c.eval(true)
					l := v.SearchResults{a, b, d}
					sort.Sort(l)
					for i := 1; i < 3; i++ {
						if less(l[i], l[i-1]) {
							c.failed("sorting", "sorting %v %v %v gives %v", a, b, d, l)
						}
					}
					if bag(l) != bag([]v.SearchResult{a, b, d}) {
						c.failed("sorting loses results", "sorting %v %v %v gives %v", a, b, d, l)
					}
				}
			}
		}
		for n := 3; n <= 120; n++ {
			for step := 1; step <= 12; step++ {
				var l v.SearchResults
				for i := 0; i < n; i++ {
					l = append(l, pool[(i*step)%len(pool)])
				}
				before := bag(l)
				sort.Sort(l)
				c.eval(true)
				for i := 1; i < n; i++ {
					if less(l[i], l[i-1]) {
						c.failed("sorting", "sorting %d results: %v before %v", n, l[i-1], l[i])
					}
				}
				if bag(l) != before {
					c.failed("sorting loses results", "%d results", n)
				}
			}
		}
	}})
	// identifiers that are alike up to some byte, or from some byte on
	for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256} {
		us = append(us, unit{"identifiers alike up to some byte", func(c *ctx) {
			p := strings.Repeat("k", n)
			for _, tails := range [][]string{{"b", "a", "c", ""}, {"1", "10", "9", "2"}, {"ab", "a", "aa", "b"}, {"B", "a", "b", "A"}, {"\xff", "é", "z", "\x00"}, {"b" + p, "a" + p, "c", p}} {
				for _, o := range perms(len(tails)) {
					var cp corpus
					for _, i := range o {
						t := []string{"w"}
						if i == 2 {
							t = []string{"u", "w"}
						}
						cp = append(cp, sdoc{p + tails[i], t})
					}
					ix := cp.index()
					checkOrder(c, cp, ix, []string{"w"})
					checkOrder(c, cp, ix, []string{"u", "w"})
				}
			}
		}})
	}
	us = append(us, unit{"pairs of identifiers that short digests confuse", func(c *ctx) {
		for _, k := range collidingPairs() {
			for _, cp := range []corpus{{{k[0], []string{"w"}}, {k[1], []string{"w"}}}, {{k[1], []string{"w"}}, {k[0], []string{"w"}}}} {
				checkOrder(c, cp, cp.index(), []string{"w"})
			}
		}
	}})
	// engines over an Indexer whose documents match different numbers of tokens
	us = append(us, unit{"repeated searches through an alias", func(c *ctx) {
		for k := 2; k <= 40; k++ {
			for _, e := range []engineCase{{"hits", v.HitsSearch}, {"linear", v.LinearSearch}, {"match-all", v.NoopAllSearch}} {
				r := v.NewIndexRepo(v.NewMemoryIndexBuilder(words{}))
				for i := 0; i < k; i++ {
					for d := 0; d <= (i*5)%4; d++ {
						r.Put(fmt.Sprintf("i%d", i), v.NewDocRequestWith(fmt.Sprintf("%c%d", 'z'-i, d), fmt.Sprint(i, d), "w all"))
					}
				}
				for i := 0; i < k; i++ {
					r.Alias("x", fmt.Sprintf("i%d", (i*3+1)%k))
				}
				read := func() string {
					s, err := r.Search("x", "w all", e.fn)
					if err != nil {
						return err.Error()
					}
					var l []v.SearchResult
					for s.Next() {
						l = append(l, s.Data())
					}
					return sequence(l)
				}
				first := read()
				for n := 0; n < pick(40, 400); n++ {
					c.eval(true)
					if g := read(); g != first {
						c.failed("alias search not repeatable", "alias over %d indices, engine %s: first %s, then %s", k, e.name, first, g)
					}
				}
			}
		}
	}})
	return us
}

package main

import (
	"fmt"
	"sort"
	"strings"

	v "github.com/sonirico/visigoth"
)

// words is the simplest tokenizer: white space separates tokens.
type words struct{}

func (words) Tokenize(s string) []string { return strings.Fields(s) }

type sdoc struct {
	id     string
	tokens []string
}

// corpus is a list of documents; the content of document i is unique to it, so
// that results identify stored documents even when identifiers are shared.
type corpus []sdoc

func (c corpus) content(i int) string { return fmt.Sprintf("content-%d of %s", i, c[i].id) }

func (c corpus) String() string {
	var s []string
	for _, d := range c {
		s = append(s, fmt.Sprintf("%q:%q", d.id, strings.Join(d.tokens, " ")))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (c corpus) index() *v.MemoryIndex {
	ix := v.NewMemoryIndex("ix", words{})
	for i, d := range c {
		ix.Put(v.NewDocRequestWith(d.id, c.content(i), strings.Join(d.tokens, " ")))
	}
	return ix
}

// expect: positions of the documents containing every token of q.
func (c corpus) expect(q []string) []int {
	if len(q) == 0 {
		return nil
	}
	var r []int
	for i, d := range c {
		ok := true
		if len(d.tokens) > 64 {
			has := make(map[string]bool, len(d.tokens))
			for _, t := range d.tokens {
				has[t] = true
			}
			for _, t := range q {
				ok = ok && has[t]
			}
			if ok {
				r = append(r, i)
			}
			continue
		}
		for _, t := range q {
			f := false
			for _, u := range d.tokens {
				if u == t {
					f = true
					break
				}
			}
			if !f {
				ok = false
				break
			}
		}
		if ok {
			r = append(r, i)
		}
	}
	return r
}

// posOf maps results back to document positions; -1 if a result is not a stored document.
func (c corpus) posOf(l []v.SearchResult) []int {
	r := make([]int, 0, len(l))
	for _, e := range l {
		p := -1
		var n int
		if k, err := fmt.Sscanf(e.Document.Raw(), "content-%d of", &n); k == 1 && err == nil && n < len(c) && c.content(n) == e.Document.Raw() && c[n].id == e.Document.ID() {
			p = n
		}
		r = append(r, p)
	}
	return r
}

// fast variant: contents are looked up in a table
type lookup struct {
	c   corpus
	pos map[string]int
}

func newLookup(c corpus) *lookup {
	l := &lookup{c, make(map[string]int, len(c))}
	for i := range c {
		l.pos[c.content(i)] = i
	}
	return l
}

func (l *lookup) at(e v.SearchResult) int {
	p, ok := l.pos[e.Document.Raw()]
	if !ok || l.c[p].id != e.Document.ID() {
		return -1
	}
	return p
}

func (l *lookup) positions(r []v.SearchResult) []int {
	p := make([]int, len(r))
	for i, e := range r {
		p[i] = l.at(e)
	}
	return p
}

func sameSet(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	if sort.IntsAreSorted(a) {
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	x := append([]int(nil), a...)
	sort.Ints(x)
	for i := range x {
		if x[i] != b[i] {
			return false
		}
	}
	return true
}

type engineCase struct {
	name string
	fn   v.Engine
}

var engines = []engineCase{{"hits", v.HitsSearch}, {"linear", v.LinearSearch}}

// seqs lists all sequences over voc with length lo..hi.
func seqs[T any](voc []T, lo, hi int) [][]T {
	var r [][]T
	var rec func(p []T)
	rec = func(p []T) {
		if len(p) >= lo {
			r = append(r, append([]T(nil), p...))
		}
		if len(p) == hi {
			return
		}
		for _, w := range voc {
			rec(append(p, w))
		}
	}
	rec(nil)
	return r
}

func allDistinct(q []string) bool {
	if len(q) > 16 {
		seen := make(map[string]bool, len(q))
		for _, t := range q {
			if seen[t] {
				return false
			}
			seen[t] = true
		}
		return true
	}
	for i := range q {
		for j := range q[:i] {
			if q[i] == q[j] {
				return false
			}
		}
	}
	return true
}

// judgeEngines decides C08 or C09 for one corpus and query.
type searcher func(q []string, e v.Engine) []v.SearchResult

func judgeEngines(c *ctx, prop string, l *lookup, q []string, search searcher, describe func() string) {
	exp := l.c.expect(q)
	beat.Add(1)
	nontrivial := len(exp) > 0 && len(exp) < len(l.c)
	if prop == "C09" {
		nontrivial = len(exp) > 0
	}
	c.eval(nontrivial)
	c.sample(func() string { return fmt.Sprintf("%s query %q expects positions %v", describe(), q, exp) })
	var first []v.SearchResult
	for k, e := range engines {
		res := search(q, e.fn)
		if prop == "C08" {
			if got := l.positions(res); !sameSet(got, exp) {
				c.failed(e.name+" result set", "%s, query %q: the %s engine returned the documents at positions %v, expected %v (results %v)", describe(), q, e.name, got, exp, res)
			}
			continue
		}
		distinct := allDistinct(q)
		if distinct {
			for _, r := range res {
				if r.Hits != len(q) || r.GetHits() != len(q) {
					c.failed(e.name+" hit count", "%s, query %q: the %s engine reports %d hits for %v, expected %d", describe(), q, e.name, r.Hits, r.Document, len(q))
				}
			}
		}
		if k == 0 {
			first = res
		} else {
			a, b := bag(first), bag(res)
			if a != b {
				c.failed("engines disagree", "%s, query %q: hit-counting returned %s, linear %s", describe(), q, a, b)
			}
		}
	}
}

func bag(l []v.SearchResult) string {
	s := make([]string, len(l))
	for i, r := range l {
		s[i] = fmt.Sprintf("(%q %q %d)", r.Document.ID(), r.Document.Raw(), r.Hits)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// mock is an Indexer given by posting lists.
type mock struct {
	docs  []v.Doc
	post  map[string][]int
	empty bool // unknown tokens give an empty list instead of nil
}

func (m *mock) Len() int             { return len(m.docs) }
func (m *mock) Document(i int) v.Doc { return m.docs[i] }
func (m *mock) Indexed(k string) []int {
	l, ok := m.post[k]
	if !ok || len(l) == 0 {
		if m.empty {
			return []int{}
		}
		return nil
	}
	return append([]int(nil), l...)
}

func mockOf(c corpus, empty bool) *mock {
	m := &mock{post: map[string][]int{}, empty: empty}
	for i, d := range c {
		m.docs = append(m.docs, v.NewDoc(d.id, c.content(i)))
		for _, t := range d.tokens {
			l := m.post[t]
			if len(l) == 0 || l[len(l)-1] != i {
				m.post[t] = append(l, i)
			}
		}
	}
	return m
}

func subsets(voc []string) [][]string {
	var r [][]string
	for b := 0; b < 1<<len(voc); b++ {
		var s []string
		for i, w := range voc {
			if b>>i&1 == 1 {
				s = append(s, w)
			}
		}
		r = append(r, s)
	}
	return r
}

func unitsC08() []unit { return engineUnits("C08") }
func unitsC09() []unit { return engineUnits("C09") }

func engineUnits(prop string) []unit {
	var us []unit
	voc := []string{"a", "b", "c"}
	queries := seqs([]string{"a", "b", "c", "zz"}, 0, 3)
	onIndex := func(c *ctx, cp corpus, qs [][]string) {
		ix := cp.index()
		l := newLookup(cp)
		for _, q := range qs {
			judgeEngines(c, prop, l, q, func(q []string, e v.Engine) []v.SearchResult {
				return ix.Search(strings.Join(q, " "), e)
			}, func() string { return "index of " + cp.String() })
		}
	}
	// 1. every corpus of up to three documents
	texts := append(subsets(voc), []string{"a", "a"}, []string{"b", "a", "b"}, []string{"c", "b", "a"}, []string{"b", "b", "c", "c"})
	ids := []string{"X", "Y"}
	if thorough() {
		texts = seqs(voc, 0, 3)
	}
	var docs []sdoc
	for _, id := range ids {
		for _, t := range texts {
			docs = append(docs, sdoc{id, t})
		}
	}
	us = append(us, unit{"every corpus of up to two documents", func(c *ctx) {
		onIndex(c, corpus{}, queries)
		for _, a := range docs {
			onIndex(c, corpus{a}, queries)
			for _, b := range docs {
				onIndex(c, corpus{a, b}, queries)
			}
		}
	}})
	for _, a := range docs {
		us = append(us, unit{"every corpus of three documents", func(c *ctx) {
			for _, b := range docs {
				for _, d := range docs {
					onIndex(c, corpus{a, b, d}, queries)
				}
			}
		}})
	}
	// 2. every posting-list assignment over up to five documents, any Indexer
	for n := 0; n <= 5; n++ {
		for ip, pat := range idPatterns(n) {
			if !thorough() && n == 5 && ip%9 != 0 {
				continue
			}
			us = append(us, unit{"every posting-list assignment, any Indexer", func(c *ctx) {
				ss := subsets(voc)
				total := 1
				for i := 0; i < n; i++ {
					total *= len(ss)
				}
				qs := queries
				if n >= 4 {
					qs = [][]string{{}, {"a"}, {"a", "b"}, {"b", "a"}, {"c", "b", "a"}, {"a", "c", "b"}, {"a", "a"}, {"a", "b", "a"}, {"b", "zz"}, {"zz"}}
				}
				for k := 0; k < total; k++ {
					cp := make(corpus, n)
					x := k
					for i := range cp {
						cp[i] = sdoc{pat[i], ss[x%len(ss)]}
						x /= len(ss)
					}
					l := newLookup(cp)
					m := mockOf(cp, k%2 == 1)
					for _, q := range qs {
						judgeEngines(c, prop, l, q, func(q []string, e v.Engine) []v.SearchResult {
							return e(append([]string(nil), q...), m)
						}, func() string { return "posting lists of " + cp.String() })
					}
				}
			}})
		}
	}
	// 3. growing families
	sizes := []int{}
	for n := 1; n <= 70; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300)
	if thorough() {
		sizes = append(sizes, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4097)
	}
	for _, n := range sizes {
		for kind := 0; kind < 4; kind++ {
			us = append(us, unit{"growing number of documents", func(c *ctx) {
				cp := family(n, kind)
				onIndex(c, cp, familyQueries)
			}})
		}
	}
	ks := []int{99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258}
	for k := 1; k <= pick(70, 140); k++ {
		ks = append(ks, k)
	}
	for _, n := range []int{300, 511, 512, 513, 1000, 1024, 5000, 65535, 65536, 65537} {
		us = append(us, unit{"growing query length", func(c *ctx) {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprint("t", i))
			}
			cp := corpus{{"all", l}, {"but the last", l[:n-1]}, {"but the first", l[1:]}, {"all", append([]string{"u"}, l...)}}
			qs := [][]string{l, l[1:], l[:n-1], append(append([]string{}, l...), "u"), append([]string{"v"}, l...)}
			same := make([]string, n)
			for i := range same {
				same[i] = "t0"
			}
			qs = append(qs, same, append(same[:n:n], "u"))
			onIndex(c, cp, qs)
		}})
	}
	us = append(us, unit{"more than 65536 documents", func(c *ctx) {
		var cp corpus
		for i := 0; i < 66000; i++ {
			t := []string{fmt.Sprint("c", i/40), fmt.Sprint("d", i%3000)}
			if i == 3 || i == 65535 || i == 65536+3 || i == 65537 {
				t = append(t, "rare", "c0")
			}
			if i == 65536+3 || i == 5 || i == 65536+6 {
				t = append(t, "odd")
			}
			cp = append(cp, sdoc{fmt.Sprint(i), t})
		}
		onIndex(c, cp, [][]string{{"rare"}, {"odd"}, {"c0"}, {"c1638"}, {"rare", "odd"}, {"odd", "rare"}, {"c0", "rare"}, {"c0", "d3"}, {"d2536", "c1638"}, {"d5"}, {"none"}})
	}})
	for _, n := range []int{1000, 5000, 20000, 66000, pick(100000, 300000)} {
		for order := 0; order < 2; order++ {
			us = append(us, unit{"few among many", func(c *ctx) {
				cp := make(corpus, n)
				for i := range cp {
					cp[i] = sdoc{fmt.Sprint(i), []string{"all"}}
				}
				var qs [][]string
				at := func(w string, from, step int) {
					if from < 0 || from >= n {
						return
					}
					for i := from; i < n; i += step {
						cp[i].tokens = append(cp[i].tokens, w)
					}
					if q := []string{"all", w}; order == 0 {
						qs = append(qs, q)
					} else {
						qs = append(qs, []string{w, "all"})
					}
				}
				for g := 2; g < n; g *= 2 {
					for d := -1; d <= 1; d++ {
						at(fmt.Sprint("one", g+d), g+d, n)
						at(fmt.Sprint("end", g+d), n-g-d, n)
						for from := 0; from < 3 && g+d >= 16; from++ {
							at(fmt.Sprint("step", g+d, ":", from), from, g+d)
						}
					}
				}
				for g := 10; g < n; g *= 10 {
					at(fmt.Sprint("ten", g), g, n)
					at(fmt.Sprint("tens", g), 1, g)
				}
				at("first", 0, n)
				at("last", n-1, n)
				onIndex(c, cp, qs)
			}})
		}
	}
	for _, k := range ks {
		us = append(us, unit{"growing query length", func(c *ctx) { queryLength(c, k, forms[0], onIndex) }})
	}
	for fi, f := range forms[1:] {
		us = append(us, unit{"growing queries of tokens that are alike", func(c *ctx) {
			for _, k := range []int{2, 3, 5, 8, 9, 12, 16, 17, 18, 20, 24, 32, 33, 34, 40, 64, 65, 66} {
				if k < 40 || fi%3 == 0 || thorough() {
					queryLength(c, k, f, onIndex)
				}
			}
		}})
	}
	us = append(us, unit{"tokens and queries cut from one text", func(c *ctx) {
		text := strings.Repeat("ab", 20)
		var cp corpus
		var qs [][]string
		for i := 0; i < 12; i++ {
			for j := i + 1; j <= 24; j++ {
				cp = append(cp, sdoc{text[i%2 : j], []string{text[i:j] + "", text[:j]}})
				qs = append(qs, []string{text[i:j]}, []string{text[:j], text[i:j]})
			}
		}
		onIndex(c, cp, qs)
	}})
	us = append(us, unit{"long and odd tokens", func(c *ctx) {
		for _, n := range []int{1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000, 70000} {
			base := strings.Repeat("ñ", n)
			cp := corpus{
				{"1", []string{base}}, {"2", []string{base + "a"}}, {"3", []string{base + "b", base}}, {"4", []string{"a" + base}},
				{"5", []string{strings.ToUpper(base)}}, {"6", []string{base[:len(base)-1]}},
			}
			onIndex(c, cp, [][]string{{base}, {base + "a"}, {base + "b"}, {"a" + base}, {base, base + "b"}, {base, base + "a"}, {base + "c"}})
		}
		odd := []string{"\x00", "a\x00", "\xff", "\xff\xfe", "é", "é", "É", "0", "00", "-", "\"", "ß", "ss", "K", "k", "ſ", "s"}
		var cp corpus
		for i, w := range odd {
			cp = append(cp, sdoc{fmt.Sprint(i), []string{w}})
			cp = append(cp, sdoc{"shared", []string{w, odd[(i+1)%len(odd)]}})
		}
		onIndex(c, cp, seqs(odd, 1, 2))
	}})
	empty := []string{"", "a", "b"}
	var edocs []sdoc
	for _, t := range seqs(empty, 0, 2) {
		edocs = append(edocs, sdoc{"X", t})
	}
	edocs = append(edocs, sdoc{"", []string{"", "", "a"}}, sdoc{"Y", []string{"a", "", "b"}})
	for _, a := range edocs {
		us = append(us, unit{"the empty string as a token", func(c *ctx) {
			qs := seqs([]string{"", "a", "b", "zz"}, 0, 4)
			for _, x := range seqs([]string{"", "a"}, 5, 6) {
				qs = append(qs, x)
			}
			for _, b := range edocs {
				cp := corpus{a, b, {"Z", []string{"b"}}}
				l, m := newLookup(cp), mockOf(cp, len(a.tokens)%2 == 0)
				ix := v.NewMemoryIndex("ix", splitTok{})
				for i, d := range cp {
					if len(d.tokens) == 0 {
						d.tokens = []string{""} // what splitting an empty statement gives
					}
					ix.Put(v.NewDocRequestWith(d.id, cp.content(i), strings.Join(d.tokens, " ")))
				}
				for _, q := range qs {
					judgeEngines(c, prop, l, q, func(q []string, e v.Engine) []v.SearchResult {
						return e(append([]string(nil), q...), m)
					}, func() string { return "posting lists of " + cp.String() })
					if len(a.tokens) > 0 && len(b.tokens) > 0 && len(q) > 0 {
						judgeEngines(c, prop, l, q, func(q []string, e v.Engine) []v.SearchResult {
							return ix.Search(strings.Join(q, " "), e)
						}, func() string { return "index splitting at blanks of " + cp.String() })
					}
				}
			}
		}})
	}
	us = append(us, unit{"tokens and identifiers that short digests confuse", func(c *ctx) {
		for _, k := range collidingPairs() {
			x, y := k[0], k[1]
			onIndex(c, corpus{{x, []string{x}}, {y, []string{y}}, {"both", []string{y, x}}, {y, []string{"z"}}, {x, []string{"z", x}}},
				[][]string{{x}, {y}, {x, y}, {y, x}, {"z"}, {"z", x}, {"z", y}, {y, "z"}})
		}
	}})
	us = append(us, unit{"identifiers of every kind", func(c *ctx) {
		// pairs of documents whose identifiers are prefixes, case variants, ...
		odd := []string{"", "a", "A", "aa", "ab", "b", "á", "\x00", "a\x00", "\xff", " ", strings.Repeat("a", 300), strings.Repeat("a", 299) + "b"}
		for _, x := range odd {
			for _, y := range odd {
				onIndex(c, corpus{{x, []string{"a"}}, {y, []string{"b"}}, {x, []string{"a", "b"}}, {y, []string{"a", "b", "c"}}}, queries)
			}
		}
	}})
	return us
}

// idPatterns: all ways to share identifiers among n documents.
func idPatterns(n int) [][]string {
	var r [][]string
	var rec func(p []string, used int)
	rec = func(p []string, used int) {
		if len(p) == n {
			r = append(r, append([]string(nil), p...))
			return
		}
		for k := 0; k <= used; k++ {
			rec(append(p, string(rune('A'+k))), max(used, k+1))
		}
	}
	rec(nil, 0)
	return r
}

var familyQueries = [][]string{
	{}, {"all"}, {"even"}, {"third"}, {"fifth"}, {"first"}, {"last"}, {"none"}, {"half"}, {"tail"},
	{"all", "even"}, {"even", "third"}, {"third", "even"}, {"half", "tail"}, {"tail", "half"}, {"even", "odd"},
	{"all", "last"}, {"last", "all"}, {"first", "last"}, {"first", "all"}, {"odd", "third", "fifth"}, {"fifth", "third", "odd", "all"},
	{"all", "all"}, {"even", "all", "even"}, {"all", "none"}, {"none", "all"}, {"half", "even", "third"}, {"tail", "last", "all"},
}

// family: n documents with regular token patterns; kind selects how
// identifiers relate to insertion order and how tokens repeat.
func family(n, kind int) corpus {
	var cp corpus
	for i := 0; i < n; i++ {
		var t []string
		t = append(t, "all")
		if i%2 == 0 {
			t = append(t, "even")
		} else {
			t = append(t, "odd")
		}
		if i%3 == 0 {
			t = append(t, "third")
		}
		if i%5 == 0 {
			t = append(t, "fifth")
		}
		if i == 0 {
			t = append(t, "first")
		}
		if i == n-1 {
			t = append(t, "last")
		}
		if i < n/2 {
			t = append(t, "half")
		}
		if i >= n-n/4-1 {
			t = append(t, "tail")
		}
		t = append(t, fmt.Sprintf("own%d", i))
		id := ""
		switch kind {
		case 0:
			id = fmt.Sprintf("doc%d", i)
		case 1:
			id = fmt.Sprintf("doc%05d", n-i)
		case 2:
			id = fmt.Sprintf("doc%d", i%3)
			for j := 0; j < i%7; j++ {
				t = append(t, "all", "odd"+fmt.Sprint(j))
			}
		case 3:
			id = "same"
			for l, r := 0, len(t)-1; l < r; l, r = l+1, r-1 {
				t[l], t[r] = t[r], t[l]
			}
		}
		cp = append(cp, sdoc{id, t})
	}
	return cp
}

// forms of tokens: how many different ones are told apart.
var forms = func() []func(i int) string {
	r := []func(int) string{func(i int) string { return fmt.Sprintf("t%d", i) }}
	for _, w := range []string{"x", "ñ"} {
		for _, n := range []int{8, 16, 33, 130} {
			p := strings.Repeat(w, n)
			r = append(r,
				func(i int) string { return fmt.Sprintf("%s%04d", p, i) },
				func(i int) string { return fmt.Sprintf("%04d%s", i, p) },
				func(i int) string { return fmt.Sprintf("%s%04d%s", p, i, p) },
				func(i int) string { return p + strings.Repeat("y", i) })
		}
	}
	return append(r, func(i int) string { return string(rune(0x4e00 + i)) }, func(i int) string { return fmt.Sprintf("%04d", i) },
		func(i int) string { return fmt.Sprintf("%b", 1<<12+i) }, // the same letters, mostly
		func(i int) string { return strings.Repeat("ab", i+1) })
}()

// queryLength: documents with k tokens, and queries of k tokens in several
// orders, complete, with one missing at each position, and with repetitions.
func queryLength(c *ctx, k int, tok func(i int) string, onIndex func(*ctx, corpus, [][]string)) {
	full := make([]string, k)
	for i := range full {
		full[i] = tok(i)
	}
	cp := corpus{{"full", full}, {"other", []string{"other"}}}
	for i := 0; i < k; i++ { // lacks token i
		var t []string
		for j := 0; j < k; j++ {
			if j != i {
				t = append(t, tok(j))
			}
		}
		cp = append(cp, sdoc{fmt.Sprintf("lacks%d", i%4), t})
	}
	var rev []string
	for i := k - 1; i >= 0; i-- {
		rev = append(rev, tok(i))
	}
	cp = append(cp, sdoc{"full", rev}, sdoc{"more", append(append([]string{}, full...), "extra", "t0", "extra")})
	qs := [][]string{full, rev, append(append([]string{}, full...), "extra"), append(append([]string{}, full...), "missing"), append([]string{"missing"}, full...)}
	qs = append(qs, append(append([]string{}, full...), full...), append(append([]string{}, full...), tok(0)))
	for i := 0; i < k; i++ {
		var q []string
		for j := 0; j < k; j++ {
			if j != i {
				q = append(q, tok((j+i)%k))
			}
		}
		qs = append(qs, q, append(append([]string{}, full[i:]...), full[:i]...))
		// the token at position i repeated
		qs = append(qs, append(append([]string{}, full[:i+1]...), tok(i)))
		if i > 0 { // and next to itself, and at the start
			qs = append(qs, append(append(append([]string{}, full[:i]...), tok(i-1)), full[i:]...), append([]string{tok(i)}, full...))
		}
	}
	onIndex(c, cp, qs)
}

var _ = sort.Ints

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	vslices "github.com/sonirico/vago/slices"
	v "github.com/sonirico/visigoth"
)

// snapshot describes everything an index shows.
func snapshot(ix *v.MemoryIndex, voc []string, queries []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "len %d\n", ix.Len())
	for i := 0; i < ix.Len(); i++ {
		d := ix.Document(i)
		fmt.Fprintf(&b, "%d %q %q\n", i, d.ID(), d.Raw())
	}
	for _, w := range voc {
		fmt.Fprintf(&b, "%q %v\n", w, ix.Indexed(w))
	}
	for _, q := range queries {
		for _, e := range []v.Engine{v.HitsSearch, v.LinearSearch, v.NoopAllSearch, v.NoopZeroSearch} {
			b.WriteString(sequence(ix.Search(q, e)))
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func snapDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			g := ""
			if i < len(y) {
				g = y[i]
			}
			return fmt.Sprintf("before %q, after %q", x[i], g)
		}
	}
	return "longer"
}

func scribbleInts(l []int) {
	full := l[:cap(l)]
	for i := range full {
		full[i] = 0
	}
	_ = append(l[:0], 7, 7, 7, 7)
	_ = append(l, 7, 7, 7)
}

func scribbleResults(l vslices.Slice[v.SearchResult]) {
	full := l[:cap(l)]
	for i := range full {
		full[i] = v.SearchResult{Document: v.NewDoc("junk", "junk"), Hits: 99}
	}
	_ = append(l, v.SearchResult{Document: v.NewDoc("junk2", "junk"), Hits: 98})
}

func unitsC11() []unit {
	var us []unit
	voc := []string{"a", "b", "zz"}
	texts := [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a", "b"}}
	var queries []string
	for _, q := range seqs(voc, 0, 2) {
		queries = append(queries, strings.Join(q, " "))
	}
	kinds := []string{"hits", "linear", "all", "none", "overwriting", "appending", "mixing"}
	run := func(c *ctx, ix *v.MemoryIndex, cp corpus, q, kind string) {
		want := strings.Fields(q)
		var e v.Engine
		switch kind {
		case "hits":
			e = v.HitsSearch
		case "linear":
			e = v.LinearSearch
		case "all":
			e = v.NoopAllSearch
		case "none":
			e = v.NoopZeroSearch
		default:
			e = func(tokens []string, in v.Indexer) vslices.Slice[v.SearchResult] {
				if fmt.Sprint(tokens) != fmt.Sprint(want) || len(tokens) != len(want) {
					c.failed("tokens given to an engine", "index of %s, query %q: the engine received the tokens %q", cp, q, tokens)
				}
				if in.Len() != len(cp) {
					c.failed("documents given to an engine", "index of %s: the engine sees %d documents", cp, in.Len())
				}
				for i := 0; i < in.Len(); i++ {
					if d := in.Document(i); d.ID() != cp[i].id || d.Raw() != cp.content(i) {
						c.failed("documents given to an engine", "index of %s: the engine sees document %d as %v", cp, i, d)
					}
				}
				var held [][]int
				for _, w := range append(append([]string{}, tokens...), voc...) {
					l := in.Indexed(w)
					if g, x := fmt.Sprint(l), fmt.Sprint(cp.expect([]string{w})); g != x {
						c.failed("posting list given to an engine", "index of %s: the engine sees %s for %q, expected %s", cp, g, w, x)
					}
					switch kind {
					case "overwriting":
						scribbleInts(l)
						if g, x := fmt.Sprint(in.Indexed(w)), fmt.Sprint(cp.expect([]string{w})); g != x {
							c.failed("posting list changed by an engine", "index of %s: after overwriting a received list, %q is %s, expected %s", cp, w, g, x)
						}
					case "appending":
						_ = append(l, 41, 42, 43)
						_ = append(l, 44)
					case "mixing":
						held = append(held, l)
					}
				}
				for i := range held {
					for j := range held[i] {
						held[i][j] = -1
					}
				}
				for i := range tokens {
					tokens[i] = "junk"
				}
				tokens = append(tokens, "junk")
				if in.Len() == 0 {
					return nil
				}
				return vslices.Slice[v.SearchResult]{{Document: in.Document(0), Hits: 1}}
			}
		}
		res := ix.Search(q, e)
		n := -1
		switch kind {
		case "hits", "linear":
			n = len(cp.expect(want))
		case "all":
			n = len(cp)
		case "none":
			n = 0
		}
		if n >= 0 && n != len(res) {
			c.failed("result of a later search", "index of %s: after other searches, searching %q (%s engine) returns %d documents, expected %d", cp, q, kind, len(res), n)
		}
		scribbleResults(res)
	}
	var docs []sdoc
	for _, id := range []string{"X", "Y"} {
		for _, t := range texts {
			docs = append(docs, sdoc{id, t})
		}
	}
	pairsOf := func(c *ctx, cp corpus, qs []string, light bool) {
		ix := cp.index()
		mid, before := storedAnd(ix, func() string { return snapshot(ix, voc, queries) })
		for _, q1 := range qs {
			for _, k1 := range kinds {
				for _, q2 := range qs {
					for _, k2 := range kinds {
						if light && k2 != "linear" && k2 != "overwriting" {
							continue
						}
						c.eval(len(cp) > 0)
						run(c, ix, cp, q1, k1)
						run(c, ix, cp, q2, k2)
						if g := stored(ix); g != mid {
							c.failed("index changed", "index of %s: after searching %q (%s engine) and %q (%s engine) the stored data changed from %s to %s", cp, q1, k1, q2, k2, mid, g)
						}
					}
				}
				if g := snapshot(ix, voc, queries); g != before {
					c.failed("answers changed", "index of %s: after searching %q (%s engine) and others: %s", cp, q1, k1, snapDiff(before, g))
				}
			}
		}
		c.sample(func() string { return fmt.Sprintf("index of %s, all pairs of searches over %q", cp, qs) })
		// the index still accepts documents
		ix.Put(v.NewDocRequestWith("later", "content-later", "a late"))
		if g := fmt.Sprint(ix.Indexed("late"), ix.Len(), ix.Document(len(cp)).Raw()); g != fmt.Sprint([]int{len(cp)}, len(cp)+1, "content-later") {
			c.failed("put after searches", "index of %s: after searches a further put gives %s", cp, g)
		}
		exp := append(cp.expect([]string{"a"}), len(cp))
		if g := fmt.Sprint(ix.Indexed("a")); g != fmt.Sprint(exp) {
			c.failed("put after searches", "index of %s: after searches and a further put the list of %q is %s, expected %v", cp, "a", g, exp)
		}
	}
	for _, a := range docs {
		us = append(us, unit{"every corpus of up to two documents, every pair of searches", func(c *ctx) {
			pairsOf(c, corpus{a}, queries, false)
			for _, b := range docs {
				pairsOf(c, corpus{a, b}, queries, !thorough())
			}
		}})
		for _, b := range docs {
			us = append(us, unit{"every corpus of three documents, pairs of searches", func(c *ctx) {
				for _, d := range docs {
					pairsOf(c, corpus{a, b, d}, []string{"a", "b a"}, true)
				}
			}})
		}
	}
	us = append(us, unit{"empty index", func(c *ctx) { pairsOf(c, corpus{}, queries, false) }})
	for n := 0; n < pick(300, 1100); n++ {
		us = append(us, unit{"queries of any length, as an engine sees them", func(c *ctx) {
			var q []string
			for i := 0; i < n; i++ {
				q = append(q, []string{"all", "even", "zz", "all", fmt.Sprint("own", i)}[(i+i/5)%5])
			}
			for kind := 0; kind < 4; kind++ {
				cp := family(5, kind)
				ix := cp.index()
				r := v.NewIndexRepo(v.NewMemoryIndexBuilder(words{}))
				for i := range cp {
					r.Put(fmt.Sprint("n", i%2), v.NewDocRequestWith(cp[i].id, cp.content(i), strings.Join(cp[i].tokens, " ")))
				}
				r.Alias("x", "n0")
				r.Alias("x", "n1")
				for _, q := range [][]string{q, strings.Fields(strings.Repeat("zz ", n) + "all"), strings.Fields("own1 " + strings.Repeat("even all zz ", n/3))} {
					var mu sync.Mutex
					see := func(tokens []string, in v.Indexer) vslices.Slice[v.SearchResult] {
						mu.Lock()
						defer mu.Unlock()
						if !sameTokens(tokens, q) {
							c.bad = &Viol{Prop: *propF, Kind: "plain", Key: c.group + ": tokens given to an engine", Detail: fmt.Sprintf("index of %s, query %q: the engine received the tokens %q", cp, q, tokens)}
						}
						return nil
					}
					s := strings.Join(q, " ")
					for i := 0; i < 2; i++ {
						c.eval(n > 0)
						ix.Search(s, see)
						_, _ = r.Search("x", s, see)
					}
					if c.bad != nil {
						panic(stop{})
					}
				}
			}
		}})
	}
	for _, n := range []int{3, 6, 12, 30, 130} {
		us = append(us, unit{"long words and long queries, pairs of searches", func(c *ctx) {
			x, y, z := strings.Repeat("x", n), strings.Repeat("xy", n), strings.Repeat("z", n)+"a"
			qs := []string{x, y + " " + x, x + " " + y + " " + z, strings.Repeat(x+" ", 9) + y, z, "a " + x}
			for _, cp := range []corpus{{{"X", []string{x, y}}}, {{"X", []string{x, y, z}}, {"Y", []string{y, "a", x}}, {"X", []string{z, x}}}} {
				pairsOf(c, cp, qs, false)
			}
		}})
	}
	for n := 1; n <= pick(40, 140); n++ {
		us = append(us, unit{"growing number of documents, puts and searches alternating", func(c *ctx) {
			var cp corpus
			ix := v.NewMemoryIndex("ix", words{})
			for i := 0; i < n; i++ {
				t := []string{"a"}
				if i%2 == 0 {
					t = append(t, "b")
				}
				cp = append(cp, sdoc{fmt.Sprint("d", i), t})
				ix.Put(v.NewDocRequestWith(cp[i].id, cp.content(i), strings.Join(t, " ")))
				c.eval(true)
				for _, k := range kinds {
					run(c, ix, cp, "a b", k)
					run(c, ix, cp, "b", k)
				}
				if g := fmt.Sprint(ix.Indexed("a"), ix.Indexed("b")); g != fmt.Sprint(cp.expect([]string{"a"}), cp.expect([]string{"b"})) {
					c.failed("posting lists changed", "after %d documents with searches in between: %s", i+1, g)
				}
			}
			pairsOf(c, cp, []string{"a b"}, true)
		}})
	}
	for _, n := range []int{64, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, pick(2049, 4097)} {
		us = append(us, unit{"many documents", func(c *ctx) {
			for kind := 0; kind < 4; kind++ {
				cp := family(n, kind)
				for i := range cp { // the words the engines look at
					cp[i].tokens = append([]string{"a"}, cp[i].tokens...)
					if i%2 == 1 || i < 3 {
						cp[i].tokens = append(cp[i].tokens, "b")
					}
				}
				ix := cp.index()
				ws, qs := []string{"a", "b", "all", "even", "odd", "own1"}, []string{"a", "a b", "b", "all even", "own1 a", "zz", "all even all even all even a a a a b", "own1 all a odd b all"}
				mid, before := storedAnd(ix, func() string { return snapshot(ix, ws, qs) })
				for _, q := range qs {
					for _, k := range kinds {
						c.eval(true)
						run(c, ix, cp, q, k)
					}
					if g := stored(ix); g != mid {
						c.failed("index changed", "family %d of %d documents: after searching %q the stored data changed", kind, n, q)
					}
					if g := snapshot(ix, ws, qs); g != before {
						c.failed("answers changed", "family %d of %d documents: after searching %q: %s", kind, n, q, snapDiff(before, g))
					}
				}
			}
		}})
	}
	for _, kind := range kinds[4:] {
		us = append(us, unit{"one document after the other, thousands", func(c *ctx) {
			ix := v.NewMemoryIndex("ix", words{})
			cp := corpus{}
			for i := 0; i < pick(2200, 9000); i++ {
				t := []string{"a"}
				if i%2 == 0 {
					t = append(t, "b")
				}
				cp = append(cp, sdoc{fmt.Sprint("d", i), t})
				ix.Put(v.NewDocRequestWith(cp[i].id, fmt.Sprint("content ", i), strings.Join(t, " ")))
				if i < 200 {
					continue
				}
				c.eval(true)
				mess := func(_ []string, in v.Indexer) vslices.Slice[v.SearchResult] {
					for _, w := range []string{"a", "b"} {
						l := in.Indexed(w)
						for j := range l {
							if kind == "overwriting" || kind == "mixing" {
								l[j] = 0
							}
						}
						if kind != "overwriting" {
							_ = append(l, 0, 0, 0)
						}
					}
					return nil
				}
				ix.Search("a b", mess)
				for wi, w := range []string{"a", "b"} {
					l := ix.Indexed(w)
					good := len(l) == i/(wi+1)+1
					for j := range l {
						good = good && l[j] == j*(wi+1)
					}
					if !good {
						c.failed("posting lists changed", "after %d documents, each followed by a search with the %s engine: the posting list of %q is wrong", i+1, kind, w)
					}
				}
				if i%16 == 0 || i < 300 {
					for _, e := range engines {
						if l := ix.Search("b a", e.fn); len(l) != i/2+1 {
							c.failed("answers changed", "after %d documents, each followed by a search with the %s engine: %d results", i+1, kind, len(l))
						}
					}
				}
			}
		}})
	}
	for _, kind := range kinds {
		us = append(us, unit{"the same searches again and again", func(c *ctx) {
			for _, cp := range []corpus{{{"X", []string{"a", "b"}}}, {{"X", []string{"a", "b"}}, {"Y", []string{"b"}}, {"X", []string{"b", "a", "b"}}}, family(20, 0)} {
				ix := cp.index()
				mid, before := storedAnd(ix, func() string { return snapshot(ix, voc, queries) })
				for i := 0; i < pick(2600, 20000); i++ {
					c.eval(true)
					run(c, ix, cp, []string{"a b", "b", "a b", "zz", ""}[i%5], kind)
					if i%64 == 0 || i < 20 {
						if g := stored(ix); g != mid {
							c.failed("index changed", "index of %s: after %d searches (%s engine) the stored data changed from %s to %s", cp, i+1, kind, mid, g)
						}
						if g := snapshot(ix, voc, queries); g != before {
							c.failed("answers changed", "index of %s: after %d searches (%s engine): %s", cp, i+1, kind, snapDiff(before, g))
						}
					}
				}
			}
		}})
	}
	us = append(us, unit{"custom engines through a repository", func(c *ctx) {
		for kk := 1; kk <= 8; kk++ {
			k, more := (kk-1)%4+1, 0
			r := v.NewIndexRepo(v.NewMemoryIndexBuilder(words{}))
			if kk > 4 {
				more = 140 * k
			}
			for i := 0; i < k; i++ {
				n := fmt.Sprint("i", i)
				for j := 0; j < more; j++ {
					r.Put(n, v.NewDocRequestWith(fmt.Sprint("m", j), fmt.Sprint("more ", j, n), "a b"))
				}
				r.Put(n, v.NewDocRequestWith("X", "content 1 "+n, "a b"))
				r.Put(n, v.NewDocRequestWith("X", "content 2 "+n, "b"))
				r.Alias("x", n)
			}
			read := func(e v.Engine) string {
				s, err := r.Search("x", "a b", e)
				if err != nil {
					return err.Error()
				}
				var l []v.SearchResult
				for s.Next() {
					l = append(l, s.Data())
				}
				return sequence(l)
			}
			all := func() string { return read(v.HitsSearch) + read(v.LinearSearch) + read(v.NoopAllSearch) }
			before := all()
			for n := 0; n < 3; n++ {
				c.eval(true)
				read(func(tokens []string, in v.Indexer) vslices.Slice[v.SearchResult] {
					for _, w := range []string{"a", "b"} {
						scribbleInts(in.Indexed(w))
					}
					for i := range tokens {
						tokens[i] = "junk"
					}
					return nil
				})
				if g := all(); g != before {
					c.failed("engine changed a repository's index", "alias over %d indices: before %s, after %s", k, before, g)
				}
			}
		}
	}})
	return us
}

// stored describes the exported fields of an index.
func stored(ix *v.MemoryIndex) string {
	r := reflect.ValueOf(ix).Elem()
	var b strings.Builder
	for i := 0; i < r.NumField(); i++ {
		f := r.Type().Field(i)
		if f.IsExported() && (f.Type.Kind() == reflect.Map || f.Type.Kind() == reflect.Slice || f.Type.Kind() == reflect.String) {
			fmt.Fprintf(&b, "%s %v ", f.Name, r.Field(i)) // maps print in key order
		}
	}
	return b.String()
}

// storedAnd: the stored data before the first searches, which look makes; after
// them if the index puts off its posting lists till then.
func storedAnd(ix *v.MemoryIndex, look func() string) (string, string) {
	s, eager := stored(ix), len(indexedWords(ix)) > 0
	l := look()
	if !eager {
		s = stored(ix)
	}
	return s, l
}

// indexedWords lists the words that have entries in the exported inverted
// index, if it still is a map from words to lists.
func indexedWords(ix *v.MemoryIndex) []string {
	f := reflect.ValueOf(ix).Elem().FieldByName("InvertedIndex")
	if !f.IsValid() || f.Kind() != reflect.Map || f.Type().Key().Kind() != reflect.String || f.Type().Elem().Kind() != reflect.Slice {
		return nil
	}
	var r []string
	for it := f.MapRange(); it.Next(); {
		if it.Value().Len() > 0 {
			r = append(r, it.Key().String())
		}
	}
	sort.Strings(r)
	return r
}

// --- C17 ---------------------------------------------------------------

type putReq struct {
	how             string // plain, with, mime
	id, raw, tokens string
}

func (p putReq) String() string { return fmt.Sprintf("%s(%q,%q,%q)", p.how, p.id, p.raw, p.tokens) }

func (p putReq) make(c *ctx) v.DocRequest {
	var d v.DocRequest
	st, mime := p.raw, v.MimeText
	switch p.how {
	case "plain":
		d = v.NewDocRequest(p.id, p.raw)
	case "with":
		d = v.NewDocRequestWith(p.id, p.raw, p.tokens)
		st = p.tokens
	case "text":
		d = v.NewDocRequestWithMime(p.id, p.raw, v.MimeText)
	case "json":
		d = v.NewDocRequestWithMime(p.id, p.raw, v.MimeJSON)
		mime = v.MimeJSON
	}
	if d.ID() != p.id || d.Raw() != p.raw || d.Statement() != st || d.Mime() != mime {
		c.failed("request", "%s gives id %q raw %q statement %q mime %v", p, d.ID(), d.Raw(), d.Statement(), d.Mime())
	}
	return d
}

func (p putReq) statement() string {
	if p.how == "with" {
		return p.tokens
	}
	return p.raw
}

func checkIndexState(c *ctx, ix *v.MemoryIndex, puts []putReq, voc []string, describe func() string) {
	if ix.Len() != len(puts) {
		c.failed("number of documents", "%s: Len %d, expected %d", describe(), ix.Len(), len(puts))
	}
	toks := map[string][]int{}
	for i, p := range puts {
		d := ix.Document(i)
		if d.ID() != p.id || d.Raw() != p.raw || d.Name != p.id || d.Content != p.raw {
			c.failed("stored document", "%s: document %d is %q %q", describe(), i, d.ID(), d.Raw())
		}
		for _, t := range strings.Fields(p.statement()) {
			l := toks[t]
			if len(l) == 0 || l[len(l)-1] != i {
				toks[t] = append(l, i)
			}
		}
	}
	for _, w := range voc {
		if g := ix.Indexed(w); fmt.Sprint(g) != fmt.Sprint(toks[w]) {
			c.failed("posting list", "%s: posting list of %q is %v, expected %v", describe(), w, g, toks[w])
		}
	}
	for w, l := range toks {
		if g := ix.Indexed(w); fmt.Sprint(g) != fmt.Sprint(l) {
			c.failed("posting list", "%s: posting list of %q is %v, expected %v", describe(), w, g, l)
		}
	}
	for _, w := range indexedWords(ix) {
		if toks[w] == nil {
			c.failed("posting list", "%s: %q, which no statement contains, has a posting list", describe(), w)
		}
	}
	for _, q := range []string{"", "a", "none of these"} {
		all := ix.Search(q, v.NoopAllSearch)
		if len(all) != len(puts) {
			c.failed("match-all", "%s: match-all search returns %d documents", describe(), len(all))
		}
		for i, r := range all {
			if r.Hits != 0 || r.GetHits() != 0 || r.Document.ID() != puts[i].id || r.GetDoc() != r.Document || r.Doc() != r.Document || r.Document.Raw() != puts[i].raw {
				c.failed("match-all", "%s: match-all search returns %v at position %d", describe(), r, i)
			}
		}
		if l := ix.Search(q, v.NoopZeroSearch); len(l) != 0 {
			c.failed("match-none", "%s: match-none search returns %v", describe(), l)
		}
	}
}

func unitsC17() []unit {
	var us []unit
	voc := []string{"a", "b", "A", "zz", "", "new"}
	var small, more []putReq
	for _, id := range []string{"X", "Y"} {
		small = append(small, putReq{"plain", id, "a", ""}, putReq{"plain", id, "b a b", ""}, putReq{"with", id, "a", "b"}, putReq{"with", id, "", "a"}, putReq{"json", id, "a A", ""})
	}
	for _, id := range []string{"", "X", "x", "\xff\x00"} {
		for _, raw := range []string{"", "a", " a  b\t", "a\x00\xff", "b b b"} {
			more = append(more, putReq{"plain", id, raw, ""}, putReq{"text", id, raw, ""}, putReq{"json", id, raw, ""}, putReq{"with", id, raw, ""}, putReq{"with", id, raw, "b"}, putReq{"with", id, raw, raw})
		}
	}
	seq := func(c *ctx, l []putReq) {
		c.eval(len(l) > 1)
		c.sample(func() string { return fmt.Sprint(l) })
		ix := v.NewMemoryIndex("ix", words{})
		var cur v.Index = ix
		for i, p := range l {
			cur = cur.Put(p.make(c)) // the index returned by Put is the index
			if i == len(l)-1 || i == 0 {
				checkIndexState(c, ix, l[:i+1], voc, func() string { return fmt.Sprintf("after %v", l[:i+1]) })
			}
		}
		if cur != nil && len(l) > 0 {
			if g := cur.Search("", v.NoopAllSearch); len(g) != len(l) {
				c.failed("index returned by Put", "after %v the index returned by Put holds %d documents", l, len(g))
			}
		}
	}
	var rec func(c *ctx, pool, p []putReq, n int)
	rec = func(c *ctx, pool, p []putReq, n int) {
		if len(p) == n {
			seq(c, p)
			return
		}
		for _, x := range pool {
			rec(c, pool, append(p[:len(p):len(p)], x), n)
		}
	}
	for _, x := range small {
		for _, y := range small {
			us = append(us, unit{"every sequence of up to four puts", func(c *ctx) {
				rec(c, small, []putReq{x, y}, 2)
				rec(c, small, []putReq{x, y}, 3)
				rec(c, small, []putReq{x, y}, 4)
				if thorough() {
					rec(c, small, []putReq{x, y}, 5)
				}
			}})
		}
	}
	us = append(us, unit{"empty index", func(c *ctx) { seq(c, nil) }})
	for _, x := range more {
		us = append(us, unit{"every pair of puts over odd identifiers and contents", func(c *ctx) {
			rec(c, more, []putReq{x}, 1)
			rec(c, more, []putReq{x}, 2)
		}})
	}
	for n := 5; n <= pick(80, 200); n++ {
		us = append(us, unit{"growing number of documents", func(c *ctx) {
			for kind := 0; kind < 4; kind++ {
				ix := v.NewMemoryIndex("ix", words{})
				var l []putReq
				for i := 0; i < n; i++ {
					p := putReq{"plain", fmt.Sprint("d", i), fmt.Sprintf("a t%d b", i), ""}
					switch kind {
					case 1:
						p = putReq{"with", "same", fmt.Sprint("raw ", i), "a " + strings.Repeat("b ", i%5)}
					case 2:
						p = putReq{"plain", fmt.Sprint("d", i%3), strings.Repeat("a b c ", 1+i%4), ""}
					case 3:
						p = putReq{"json", fmt.Sprint(n - i), fmt.Sprintf("w%d w%d w%d", i%2, i%3, i%5), ""}
					}
					l = append(l, p)
					ix.Put(p.make(c))
					c.eval(true)
					if i > n-3 || i == n/2 {
						checkIndexState(c, ix, l, voc, func() string { return fmt.Sprintf("family %d of %d documents", kind, i+1) })
					}
				}
			}
		}})
	}
	for _, n := range []int{1, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 5000, 8193, 16385, 32769, 65535, 65536, 65537, 70000, pick(140000, 1100000)} {
		us = append(us, unit{"growing statements", func(c *ctx) {
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "t%d ", i%((n+1)/2))
			}
			var d strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&d, "u%d ", i)
			}
			// words of every length, as long as all of them together stay small
			for i, left := 1, 40*n; i < 2*n && left > 0; i++ {
				k := i % 1100
				fmt.Fprintf(&d, "%s%d z%s %s\n", strings.Repeat("x", k), i, strings.Repeat("é", k), strings.Repeat("x", k))
				left -= 4 * k
			}
			l := []putReq{{"plain", "1", b.String(), ""}, {"plain", "d", d.String() + "a", ""}, {"plain", "2", strings.Repeat("a ", n), ""}, {"with", "3", strings.Repeat("x", n), strings.Repeat("y", n)}, {"plain", strings.Repeat("i", n), strings.Repeat("y", n) + " t0", ""}}
			ix := v.NewMemoryIndex("ix", words{})
			for i, p := range l {
				ix.Put(p.make(c))
				c.eval(true)
				checkIndexState(c, ix, l[:i+1], voc, func() string { return fmt.Sprintf("statements of %d tokens, %d documents", n, i+1) })
			}
		}})
	}
	// every byte at every edge of identifier, content and statement
	for lo := 0; lo < 256; lo += 8 {
		us = append(us, unit{"every byte at the start, the end and inside", func(c *ctx) {
			for x := lo; x < lo+8; x++ {
				b := string([]byte{byte(x)})
				for _, t := range []string{b, b + "a", "a" + b, "a" + b + "b", b + b + "a b" + b + b, "é" + b, b + "\u00a0", " " + b + " "} {
					for _, p := range []putReq{{"plain", "i", t, ""}, {"json", "i", t, ""}, {"with", "i", t, "a"}, {"with", "i", "raw", t}, {"plain", t, "a", ""}, {"with", t, t, t}} {
						seq(c, []putReq{p, {"plain", "i", "a", ""}})
					}
				}
			}
		}})
		us = append(us, unit{"every content and identifier of two bytes", func(c *ctx) {
			ix := v.NewMemoryIndex("ix", words{})
			var l []putReq
			for x := lo; x < lo+8; x++ {
				for y := 0; y < 256; y++ {
					t := string([]byte{byte(x), byte(y)})
					p := putReq{"with", t, t, "a"}
					if y%2 == 1 {
						p = putReq{"plain", t, t, ""}
					}
					l = append(l, p)
					ix.Put(p.make(c))
					c.eval(true)
				}
			}
			checkIndexState(c, ix, l, voc, func() string { return fmt.Sprintf("contents of two bytes starting with %#x..%#x", lo, lo+7) })
		}})
	}
	us = append(us, unit{"structured contents under every kind of request", func(c *ctx) {
		for _, t := range []string{
			`{}`, `[]`, `null`, `true`, `0`, `-1.5e3`, `""`, `"a"`, `{"a":"b"}`, `{"a": "b", "b": "a zz"}`, `{ "a" : { "b" : [ 1 , 2 ] } }`, `["a", "b"]`, `[ "a" , { "a" : null } ]`, `{"a":"b"`, ` {"a":"b"} `, `{"a":"\u0061"}`, `{"id":"X","raw":"a"}`, `{"name":"X","content":"a b","statement":"zz"}`, "{\n  \"a\": 1\n}",
			"<a>b</a>", "<html><body> a </body></html>", "&amp; a &lt;", "a%20b", "%s %d a %", "a\\nb", "a: b\nb: a", "# a\n* b", "a;b;c", "a,b\n1,2", "http://a/b?a=b a", "\ufeffa b", "a\r\nb\r\n", "a\u2028b \u200ba", "YQ== a", "'a' \"b\" `a`", "$a ${b} $(a)", "../a /b", "SELECT a FROM b", "aaaa" + strings.Repeat(" b", 50),
		} {
			for _, how := range []string{"plain", "text", "json", "with"} {
				for _, how2 := range []string{"plain", "json"} {
					seq(c, []putReq{{how, "X", t, "a b"}, {how2, t, t, ""}, {"plain", "Y", "a", ""}})
				}
			}
		}
	}})
	us = append(us, unit{"contents and identifiers that short digests confuse", func(c *ctx) {
		for _, k := range collidingPairs() {
			x, y := k[0], k[1]
			seq(c, []putReq{{"plain", x, x, ""}, {"plain", y, y, ""}, {"with", x, y, x}})
			seq(c, []putReq{{"json", "i", y, ""}, {"with", "i", x, y}, {"plain", y, y + " " + x, ""}})
		}
	}})
	us = append(us, unit{"many documents", func(c *ctx) {
		ix := v.NewMemoryIndex("ix", words{})
		var l []putReq
		for i := 0; i < pick(3000, 20000); i++ {
			p := putReq{"plain", fmt.Sprint(i % 100), fmt.Sprintf("a t%d u%d", i%50, i), ""}
			l = append(l, p)
			ix.Put(p.make(c))
			c.eval(true)
			if i%1000 == 999 || i == 1023 || i == 1024 {
				checkIndexState(c, ix, l, voc, func() string { return fmt.Sprintf("%d documents", i+1) })
			}
		}
	}})
	us = append(us, unit{"more than 65536 documents", func(c *ctx) {
		ix := v.NewMemoryIndex("ix", words{})
		in := map[string]func(i int) bool{
			"w": func(i int) bool { return true },
			"e": func(i int) bool { return i%2 == 0 },
			"s": func(i int) bool { return i%7 == 3 },
			"l": func(i int) bool { return i >= 1000 },
			"f": func(i int) bool { return i <= 40000 },
			"g": func(i int) bool { return i>>12&1 == 1 },
		}
		order := []string{"w", "e", "s", "l", "f", "g"}
		want := map[string][]int{}
		look := func(n int) {
			if ix.Len() != n {
				c.failed("number of documents", "after %d documents Len is %d", n, ix.Len())
			}
			for _, w := range order {
				got := ix.Indexed(w)
				if len(got) != len(want[w]) {
					c.failed("posting list", "after %d documents the posting list of %q has %d entries, expected %d", n, w, len(got), len(want[w]))
				}
				for i := range got {
					if got[i] != want[w][i] {
						c.failed("posting list", "after %d documents entry %d of the posting list of %q is %d, expected %d", n, i, w, got[i], want[w][i])
					}
				}
			}
			all := ix.Search("", v.NoopAllSearch)
			if len(all) != n {
				c.failed("match-all", "after %d documents match-all returns %d", n, len(all))
			}
			for i := 0; i < n; i++ {
				if d := ix.Document(i); d.ID() != fmt.Sprint("d", i%1000) || all[i].Document != d {
					c.failed("stored document", "after %d documents document %d is %v, match-all returns %v", n, i, d, all[i])
				}
			}
		}
		for i := 0; i < pick(70000, 300000); i++ {
			var t []string
			for _, w := range order {
				if in[w](i) {
					t = append(t, w)
					want[w] = append(want[w], i)
				}
			}
			ix.Put(v.NewDocRequest(fmt.Sprint("d", i%1000), strings.Join(t, " ")))
			c.eval(true)
			if i > 500 && ((i+1)&i == 0 || (i+2)&(i+1) == 0 || i&(i-1) == 0 || i%5000 == 0) {
				look(i + 1)
			}
		}
		look(ix.Len())
	}})
	// documents sent again
	for kind := 0; kind < 8; kind++ {
		us = append(us, unit{"documents put again and again", func(c *ctx) {
			ix := v.NewMemoryIndex("ix", words{})
			var l []putReq
			for i := 0; i < pick(1100, 5000); i++ {
				p := putReq{"plain", "X", "a b", ""}
				switch kind {
				case 1:
					p = putReq{"with", "X", "raw", "b a b"}
				case 2:
					p.id = fmt.Sprint(i % 2)
				case 3:
					p.raw = fmt.Sprint("a ", i/2)
				case 4:
					p.id = fmt.Sprint(i / 3)
				case 5:
					p = putReq{"json", "", "", ""}
				case 6:
					p.raw = []string{"a b", "b a", "a  b", "a b ", "A b"}[i/2%5]
				case 7:
					p = putReq{"with", "X", "a", []string{"a", "b"}[i&1]}
				}
				l = append(l, p)
				ix.Put(p.make(c))
				c.eval(true)
				if ix.Len() != i+1 || ix.Document(i).ID() != p.id || ix.Document(i).Raw() != p.raw {
					c.failed("document put again", "family %d: after %d puts Len is %d", kind, i+1, ix.Len())
				}
				if i < 40 || i%50 == 0 || i&(i-1) == 0 || i&(i+1) == 0 || (i-1)&(i-2) == 0 {
					checkIndexState(c, ix, l, voc, func() string { return fmt.Sprintf("family %d of %d documents put again and again", kind, i+1) })
				}
			}
		}})
	}
	for lo := rune(0); lo < 0x10000; lo += 0x800 {
		us = append(us, unit{"every code point in identifier, content and statement", func(c *ctx) {
			ix := v.NewMemoryIndex("ix", words{})
			var l []putReq
			for r := lo; r < lo+0x800; r++ {
				s := string(r)
				for _, p := range []putReq{{"plain", "i" + s, "ca" + s + "sa b" + s, ""}, {"with", s + "a", s, s + "a b"}} {
					l = append(l, p)
					ix.Put(p.make(c))
					c.eval(true)
				}
			}
			checkIndexState(c, ix, l, voc, func() string { return fmt.Sprintf("code points %#x..%#x", lo, lo+0x7ff) })
		}})
	}
	// the real pipeline: token sets computed independently
	us = append(us, unit{"statements under the Spanish pipeline", func(c *ctx) {
		p := spanishPipe()
		texts := []string{"Hola, MUNDO!", "programación en Go", "la casa, las casas y el caserío", "", "...", "niño Niños NIÑA", "uno-dos_tres 4x4 áÉ"}
		ix := v.NewMemoryIndexBuilder(p)("es").(interface {
			v.Index
			v.Indexer
		})
		want := map[string][]int{}
		for i, t := range append(append([]string{}, texts...), texts...) {
			ix.Put(v.NewDocRequest(fmt.Sprint(i%4), t))
			for _, tok := range refAnalyse(t, true) {
				if l := want[tok]; len(l) == 0 || l[len(l)-1] != i {
					want[tok] = append(l, i)
				}
			}
			for tok, l := range want {
				c.eval(true)
				if g := ix.Indexed(tok); fmt.Sprint(g) != fmt.Sprint(l) {
					c.failed("posting list", "after %d texts the list of %q is %v, expected %v", i+1, tok, g, l)
				}
			}
		}
	}})
	return us
}

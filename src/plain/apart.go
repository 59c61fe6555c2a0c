package main

import (
	"fmt"
	"sort"
	"strings"

	vslices "github.com/sonirico/vago/slices"
	v "github.com/sonirico/visigoth"
)

// object is one of two or more independent things acted on in turns.
type object interface {
	do(op string)
	show() string
}

type indexObj struct {
	ix      v.Index
	tag     string
	queries []string
}

func (o *indexObj) do(op string) {
	switch {
	case strings.HasPrefix(op, "put "):
		f := strings.SplitN(op, " ", 3)
		nx := o.ix.Put(v.NewDocRequestWith(f[1], o.tag+" "+f[2], f[2]))
		if nx != nil {
			o.ix = nx
		}
	case strings.HasPrefix(op, "search "):
		q := strings.TrimPrefix(op, "search ")
		scribbleResults(o.ix.Search(q, v.HitsSearch))
		scribbleResults(o.ix.Search(q, v.LinearSearch))
		scribbleResults(o.ix.Search(q, v.NoopAllSearch))
	case op == "engine":
		o.ix.Search("a b", func(tokens []string, in v.Indexer) (r vslices.Slice[v.SearchResult]) { return nil })
	}
}

func (o *indexObj) show() string {
	var b strings.Builder
	for _, q := range o.queries {
		for _, e := range []v.Engine{v.HitsSearch, v.LinearSearch} {
			for _, r := range o.ix.Search(q, e) {
				fmt.Fprintf(&b, "%q=%s/%s:%d ", q, r.Document.ID(), r.Document.Raw(), r.Hits)
			}
		}
	}
	for _, r := range o.ix.Search("", v.NoopAllSearch) {
		fmt.Fprintf(&b, "%s/%s ", r.Document.ID(), r.Document.Raw())
	}
	return b.String()
}

type repoObj struct {
	r   v.Repo
	tag string
}

func (o *repoObj) do(op string) {
	f := strings.Fields(op)
	switch f[0] {
	case "put":
		o.r.Put(f[1], v.NewDocRequestWith(f[2], o.tag+" "+f[2], strings.Join(f[3:], " ")))
	case "alias":
		o.r.Alias(f[1], f[2])
	case "unalias":
		o.r.UnAlias(f[1], f[2])
	case "rename":
		o.r.Rename(f[1], f[2])
	case "drop":
		o.r.Drop(f[1])
	}
}

func (o *repoObj) show() string {
	var b strings.Builder
	l := append([]string{}, o.r.List()...)
	sort.Strings(l)
	fmt.Fprintf(&b, "%q", l)
	var al []string
	for _, a := range o.r.ListAliases().Aliases {
		x := append([]string{}, a.Indices...)
		sort.Strings(x)
		al = append(al, fmt.Sprintf("%s:%q", a.Alias, x))
	}
	sort.Strings(al)
	fmt.Fprintf(&b, "%q", al)
	for _, n := range []string{"i", "j", "x"} {
		fmt.Fprintf(&b, " %s %v %v", n, o.r.Has(n), o.r.HasAlias(n))
		for _, e := range []v.Engine{v.HitsSearch, v.NoopAllSearch} {
			s, err := o.r.Search(n, "a", e)
			if err != nil {
				b.WriteString(" none")
				continue
			}
			var ds []string
			for s.Next() {
				d := s.Data()
				ds = append(ds, fmt.Sprintf("%s/%s:%d", d.Document.ID(), d.Document.Raw(), d.Hits))
			}
			sort.Strings(ds)
			fmt.Fprint(&b, ds)
		}
	}
	return b.String()
}

// alone: what an object shows after each prefix of a history run by itself.
type aloneTable struct {
	mk  func(tag string) object
	tab map[string]string
}

func (a *aloneTable) after(tag string, h []string) string {
	k := tag + "|" + strings.Join(h, "|")
	if s, ok := a.tab[k]; ok {
		return s
	}
	o := a.mk(tag)
	for _, op := range h {
		o.do(op)
	}
	s := o.show()
	a.tab[k] = s
	return s
}

func merges(a, b int, f func(p []int)) {
	var rec func(p []int, x, y int)
	rec = func(p []int, x, y int) {
		if x == a && y == b {
			f(p)
			return
		}
		if x < a {
			rec(append(p, 0), x+1, y)
		}
		if y < b {
			rec(append(p, 1), x, y+1)
		}
	}
	rec(make([]int, 0, a+b), 0, 0)
}

func unitsC18() []unit {
	var us []unit
	run := func(c *ctx, name string, alone *aloneTable, mk func() (object, object), h0, h1 []string) {
		merges(len(h0), len(h1), func(p []int) {
			c.eval(len(h0) > 0 && len(h1) > 0)
			var o [2]object
			o[0], o[1] = mk()
			h := [2][]string{h0, h1}
			tags := [2]string{"one", "two"}
			var at [2]int
			for step, w := range p {
				o[w].do(h[w][at[w]])
				at[w]++
				if step < len(p)-1 && w == p[step+1] {
					continue // shown after each run of calls on one object
				}
				for k := 0; k < 2; k++ {
					if g, x := o[k].show(), alone.after(tags[k], h[k][:at[k]]); g != x {
						c.failed("influence", "%s: first object ran %q, second ran %q, order %v up to step %d: object %d shows %s, alone it shows %s", name, h0[:at[0]], h1[:at[1]], p, step, k+1, g, x)
					}
				}
			}
			c.sample(func() string { return fmt.Sprintf("%s: %q and %q in order %v", name, h0, h1, p) })
		})
	}
	iops := []string{"put X a", "put Y a b", "put X b", "search a b"}
	sops := []string{"put X La casa", "put Y casas verdes", "search CASA"}
	rops := []string{"put i X a", "put j Y a b", "alias x i", "alias x j", "unalias x i", "rename i j", "drop i"}
	iq := []string{"a", "b", "b a"}
	sq := []string{"casa", "verde CASAS"}
	tables := func() (map[string]*aloneTable, map[string]func() (object, object)) {
		t := map[string]*aloneTable{}
		m := map[string]func() (object, object){}
		idx := func(tag string) object {
			return &indexObj{v.NewMemoryIndexBuilder(words{})("ix"), tag, iq}
		}
		sp := func(tag string) object {
			return &indexObj{v.NewMemoryIndexBuilder(spanishPipe())("ix"), tag, sq}
		}
		t["same builder, same name"] = &aloneTable{idx, map[string]string{}}
		m["same builder, same name"] = func() (object, object) {
			b := v.NewMemoryIndexBuilder(words{})
			return &indexObj{b("ix"), "one", iq}, &indexObj{b("ix"), "two", iq}
		}
		t["same builder, two names"] = t["same builder, same name"]
		m["same builder, two names"] = func() (object, object) {
			b := v.NewMemoryIndexBuilder(words{})
			return &indexObj{b("ix"), "one", iq}, &indexObj{b("iy"), "two", iq}
		}
		t["shared pipeline"] = &aloneTable{sp, map[string]string{}}
		m["shared pipeline"] = func() (object, object) {
			p := spanishPipe()
			return &indexObj{v.NewMemoryIndex("ix", p), "one", sq}, &indexObj{v.NewMemoryIndex("ix", p), "two", sq}
		}
		t["two repositories of one builder"] = &aloneTable{func(tag string) object {
			return &repoObj{v.NewIndexRepo(v.NewMemoryIndexBuilder(words{})), tag}
		}, map[string]string{}}
		m["two repositories of one builder"] = func() (object, object) {
			b := v.NewMemoryIndexBuilder(words{})
			return &repoObj{v.NewIndexRepo(b), "one"}, &repoObj{v.NewIndexRepo(b), "two"}
		}
		return t, m
	}
	kinds := []struct {
		name string
		ops  []string
		n    int
	}{
		{"same builder, same name", iops, 3},
		{"same builder, two names", iops, pick(2, 3)},
		{"shared pipeline", sops, 3},
		{"two repositories of one builder", rops, pick(2, 3)},
	}
	for _, k := range kinds {
		hs := seqs(k.ops, 0, k.n)
		for i := 0; i < len(hs); i++ {
			us = append(us, unit{"every interleaving of two histories: " + k.name, func(c *ctx) {
				t, m := tables()
				for _, h1 := range hs {
					run(c, k.name, t[k.name], m[k.name], hs[i], h1)
				}
			}})
		}
	}
	us = append(us, unit{"many objects of one builder, one after the other", func(c *ctx) {
		b := v.NewMemoryIndexBuilder(words{})
		t, _ := tables()
		tab := t["same builder, same name"]
		hs := seqs(iops, 0, 4)
		var os []*indexObj
		for _, h := range hs {
			c.eval(len(h) > 0)
			o := &indexObj{b("ix"), "one", iq}
			for _, op := range h {
				o.do(op)
			}
			os = append(os, o)
		}
		for i, o := range os {
			if g, x := o.show(), tab.after("one", hs[i]); g != x {
				c.failed("influence", "an index that ran %q shows %s after the others ran, alone %s", hs[i], g, x)
			}
		}
	}})
	// the same texts and names under different pipelines
	cfgs := pipelines()
	for _, sep := range []string{",", " ", "-"} {
		st := sepTok{sep}
		cfgs = append(cfgs, pipeCfg{name: "split at " + sep, p: v.NewTokenizationPipeline(st), ref: st.Tokenize})
	}
	for _, n := range []int{8, 16, 32, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 5000, 8192, 20000, pick(66000, 300000)} {
		us = append(us, unit{"long texts, names and queries under different pipelines", func(c *ctx) {
			t := (strings.Repeat("La Casa-verde, casas de ", n/24) + strings.Repeat("X", n))[:n]
			for _, order := range [][]int{{0, 1, 2}, {2, 1, 0}} {
				for from := 0; from < len(cfgs); from += 3 {
					var ix [3]*v.MemoryIndex
					at := func(k int) pipeCfg { return cfgs[(from+k)%len(cfgs)] }
					for _, k := range order {
						ix[k] = v.NewMemoryIndex("ix", at(k).p)
					}
					for round := 0; round < 2; round++ {
						for _, k := range order {
							ix[k].Put(v.NewDocRequest(t, t))
						}
					}
					for _, q := range []string{t, t[:n/2], "casas", "Casa", "verde la"} {
						for _, k := range order {
							c.eval(true)
							set := tokenSet(at(k).ref(t))
							want := 2
							ws := at(k).ref(q)
							for _, w := range ws {
								if !set[w] {
									want = 0
								}
							}
							if len(ws) == 0 {
								want = 0
							}
							if l := ix[k].Search(q, v.LinearSearch); len(l) != want {
								c.failed("long texts", "a text of %d bytes in indices of three pipelines: a search in that of %s returns %d documents, expected %d", n, at(k).name, len(l), want)
							}
						}
					}
					for _, k := range order {
						set := tokenSet(at(k).ref(t))
						for _, w := range indexedWords(ix[k]) {
							if !set[w] {
								c.failed("long texts", "a text of %d bytes in indices of three pipelines: that of %s has the token %q", n, at(k).name, w)
							}
						}
					}
				}
			}
		}})
	}
	for i := range cfgs {
		us = append(us, unit{"the same texts and names under different pipelines", func(c *ctx) {
			texts := []string{"La casa-verde, casas", "de,la y-a", "Niños " + strings.Repeat("CASA la verde,", 12), strings.Repeat("programar y ", 30) + "fin", "", "casa", "verde casas " + strings.Repeat("é", 80)}
			var qs []string
			for _, t := range texts {
				qs = append(qs, t)
				qs = append(qs, cfgs[i].ref(t)...)
			}
			qs = append(qs, "CASA", "la", "casas verde", "programas", "de,la", "a")
			if len(qs) > 60 {
				qs = qs[:60]
			}
			for j := range cfgs {
				two := []pipeCfg{cfgs[i], cfgs[j]}
				var ix [2]*v.MemoryIndex
				var rs [2]*v.IndexRepo
				var sets [2][]map[string]bool
				for k, cfg := range two {
					ix[k] = v.NewMemoryIndex("ix", cfg.p)
					rs[k] = v.NewIndexRepo(v.NewMemoryIndexBuilder(cfg.p))
				}
				for d, t := range texts {
					for k, cfg := range two {
						ix[k].Put(v.NewDocRequest(fmt.Sprint("d", d), t))
						rs[k].Put("ix", v.NewDocRequest(fmt.Sprint("d", d), t))
						sets[k] = append(sets[k], tokenSet(cfg.ref(t)))
					}
				}
				for _, q := range qs {
					for k, cfg := range two {
						ask(c, cfg, ix[k], texts, sets[k], q, -1)
						s, err := rs[k].Search("ix", q, v.LinearSearch)
						if err != nil {
							c.failed("search", "%v", err)
						}
						var l []v.SearchResult
						for s.Next() {
							l = append(l, s.Data())
						}
						if g, x := sequence(l), sequence(ix[k].Search(q, v.LinearSearch)); g != x {
							c.failed("influence", "pipelines %s and %s: repository %d finds %s for %q, an index of its own %s", two[0].name, two[1].name, k+1, g, q, x)
						}
					}
				}
			}
		}})
	}
	us = append(us, unit{"words that short digests confuse, in two indices", func(c *ctx) {
		b := v.NewMemoryIndexBuilder(words{})
		p := spanishPipe()
		for _, k := range collidingPairs() {
			for _, mk := range []func(n string) v.Index{func(n string) v.Index { return b(n) }, func(n string) v.Index { return v.NewMemoryIndex(n, p) }} {
				c.eval(true)
				o := []v.Index{mk(k[0]), mk(k[1])}
				for i := range o {
					o[i].Put(v.NewDocRequest(k[i], k[i]))
				}
				same := fmt.Sprint(refAnalyse(k[0], true)) == fmt.Sprint(refAnalyse(k[1], true)) // one stem
				for i := range o {
					if g := o[i].Search(k[i], v.HitsSearch); len(g) != 1 || g[0].Document.ID() != k[i] || g[0].Document.Raw() != k[i] {
						if len(refAnalyse(k[i], true)) > 0 {
							c.failed("influence", "index %d holds only %q, searching for it returns %v", i, k[i], g)
						}
					}
					if g := o[i].Search(k[1-i], v.LinearSearch); len(g) != 0 && !same {
						c.failed("influence", "index %d holds only %q, searching for %q returns %v", i, k[i], k[1-i], g)
					}
				}
			}
		}
	}})
	us = append(us, unit{"growing numbers of documents in turns", func(c *ctx) {
		for n := 1; n <= pick(80, 200); n++ {
			c.eval(true)
			p := spanishPipe()
			var o [3]*v.MemoryIndex
			for k := range o {
				o[k] = v.NewMemoryIndex("ix", p)
			}
			var cnt [3]int
			for i := 0; i < n; i++ {
				k := (i*i + i/2) % 3
				o[k].Put(v.NewDocRequest(fmt.Sprint("d", i), fmt.Sprintf("casas t%dx de %s", i, []string{"uno", "ocho", "tigre"}[k])))
				cnt[k]++
			}
			for k := range o {
				if g := o[k].Search("CASA", v.HitsSearch); len(g) != cnt[k] || o[k].Len() != cnt[k] {
					c.failed("influence", "after %d documents in turns index %d finds %d, holds %d, expected %d", n, k, len(g), o[k].Len(), cnt[k])
				}
				if g := o[k].Search("tigre", v.LinearSearch); (len(g) == cnt[k]) != (k == 2 || cnt[k] == 0) {
					c.failed("influence", "after %d documents in turns index %d finds %d by another index's word", n, k, len(g))
				}
			}
		}
	}})
	return us
}

// sepTok is a tokenizer with a setting.
type sepTok struct{ sep string }

func (t sepTok) Tokenize(s string) []string { return strings.Split(s, t.sep) }

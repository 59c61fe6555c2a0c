package main

import (
	"fmt"
	"strings"

	snow "github.com/kljensen/snowball/spanish"
	v "github.com/sonirico/visigoth"
)

// pipeCfg is one pipeline made of the package's parts and its definition.
type pipeCfg struct {
	name  string
	p     *v.TokenizationPipeline
	ref   func(string) []string
	stop  map[string]struct{}
	lower bool // upper and lower case do not matter
}

func pipelines() []pipeCfg {
	custom := v.StopWords{"casa": {}, "y": {}, "ño": {}}
	step := func(lower bool, sw v.StopWords, stem int) pipeCfg {
		var fs []v.Filter
		name := "alphanumeric"
		if lower {
			fs = append(fs, v.NewLowerCaseTokenizer())
			name += ", lower case"
		}
		if sw != nil {
			fs = append(fs, v.NewStopWordsFilter(sw))
			name += fmt.Sprintf(", %d stop words", len(sw))
		}
		if stem > 0 {
			fs = append(fs, v.NewSpanishStemmer(stem == 1))
			name += fmt.Sprintf(", stemmer(%v)", stem == 1)
		}
		return pipeCfg{name, v.NewTokenizationPipeline(v.NewKeepAlphanumericTokenizer(), fs...), func(s string) []string {
			var r []string
			for _, t := range refTokens(s, alnum) {
				if lower {
					t = refLower(t)
				}
				if _, ok := sw[t]; ok {
					continue
				}
				if stem > 0 {
					t = snow.Stem(t, stem == 1)
				}
				r = append(r, t)
			}
			return r
		}, sw, lower || stem > 0}
	}
	return []pipeCfg{
		step(true, v.SpanishStopWords, 1), // the documented one
		step(true, v.SpanishStopWords, 2),
		step(true, custom, 1),
		step(true, v.SpanishStopWords, 0),
		step(true, nil, 1),
		step(true, nil, 2),
		step(true, custom, 0),
		step(true, nil, 0),
		step(false, v.SpanishStopWords, 1),
		step(false, custom, 0),
		step(false, nil, 0),
	}
}

func upperOf(s string) string { return strings.ToUpper(s) }

// caseVariants lists every assignment of upper and lower case to the letters of w.
func caseVariants(w string, max int) []string {
	rs := []rune(w)
	if len(rs) > max {
		alt, alt2 := []rune(w), []rune(w)
		for i := range rs {
			u := []rune(upperOf(string(rs[i])))[0]
			if i%2 == 0 {
				alt[i] = u
			} else {
				alt2[i] = u
			}
		}
		t := append([]rune(upperOf(string(rs[:1]))), rs[1:]...)
		l := append(append([]rune{}, rs[:len(rs)-1]...), []rune(upperOf(string(rs[len(rs)-1:])))...)
		return []string{w, upperOf(w), string(t), string(l), string(alt), string(alt2)}
	}
	var r []string
	for m := 0; m < 1<<len(rs); m++ {
		x := append([]rune{}, rs...)
		for i := range x {
			if m>>i&1 == 1 {
				x[i] = []rune(upperOf(string(x[i])))[0]
			}
		}
		r = append(r, string(x))
	}
	return r
}

func containsAll(doc map[string]bool, q []string) bool {
	for _, t := range q {
		if !doc[t] {
			return false
		}
	}
	return len(q) > 0
}

func tokenSet(l []string) map[string]bool {
	m := make(map[string]bool, len(l))
	for _, t := range l {
		m[t] = true
	}
	return m
}

// ask runs one query on an index holding texts and compares with the definition.
func ask(c *ctx, cfg pipeCfg, ix *v.MemoryIndex, texts []string, sets []map[string]bool, q string, mustFind int) {
	want := cfg.ref(q)
	nt := 0
	for _, e := range engines {
		got := ix.Search(q, e.fn)
		n := 0
		for d := range texts {
			exp := containsAll(sets[d], want)
			if exp {
				nt++
			}
			if d == mustFind && !exp {
				c.failed("own word", "pipeline %s: the definition itself does not find %q by %q", cfg.name, texts[d], q)
			}
			found := 0
			for _, r := range got {
				if r.Document.ID() == fmt.Sprint("d", d) && r.Document.Raw() == texts[d] {
					found++
				}
			}
			n += found
			if exp && found != 1 || !exp && found != 0 {
				c.failed("found", "pipeline %s, document %q, query %q, %s engine: returned %d times, expected to be found: %v (query words %q)", cfg.name, texts[d], q, e.name, found, exp, want)
			}
		}
		if n != len(got) {
			c.failed("found", "pipeline %s, query %q, %s engine: %d results are not stored documents", cfg.name, q, e.name, len(got)-n)
		}
	}
	c.eval(nt > 0)
	c.sample(func() string { return fmt.Sprintf("%s: texts %q, query %q", cfg.name, texts, q) })
}

func build(cfg pipeCfg, texts []string) (*v.MemoryIndex, []map[string]bool) {
	ix := v.NewMemoryIndex("ix", cfg.p)
	var sets []map[string]bool
	for i, t := range texts {
		ix.Put(v.NewDocRequest(fmt.Sprint("d", i), t))
		sets = append(sets, tokenSet(cfg.ref(t)))
	}
	return ix, sets
}

func unitsC14() []unit {
	var us []unit
	cfgs := pipelines()
	letters := []string{"a", "e", "o", "r", "s", "n", "ñ", "á", "ü", "7"}
	for _, cfg := range cfgs {
		for _, x := range letters {
			us = append(us, unit{"every short word in every case variant", func(c *ctx) {
				for _, l := range seqs(letters, 0, pick(2, 3)) {
					w := x + strings.Join(l, "")
					ix, sets := build(cfg, []string{"pues " + w + ", fin.", "zzz"})
					_, isStop := cfg.stop[w]
					for _, q := range caseVariants(w, 4) {
						must := -1
						if !isStop && (cfg.lower && cfg.name[:12] == "alphanumeric" && strings.Contains(cfg.name, "lower case") || q == w) {
							must = 0
						}
						ask(c, cfg, ix, []string{"pues " + w + ", fin.", "zzz"}, sets, q, must)
					}
				}
			}})
		}
	}
	pool := wordPool()
	nf := func(w string) bool { return strings.TrimSpace(w) != "" }
	for k := 0; k < 16; k++ {
		us = append(us, unit{"every word of a suffix table and every stop word, in case variants", func(c *ctx) {
			for ci, cfg := range cfgs {
				if ci > 3 && !thorough() && ci%2 == 1 {
					continue
				}
				for i, w := range pool {
					if i%16 != k || !nf(w) {
						continue
					}
					other := pool[(i+1)%len(pool)]
					texts := []string{upperOf(w) + " gato", w, other + " " + w + "x", "¡" + w + "!gato " + w}
					ix, sets := build(cfg, texts)
					_, isStop := cfg.stop[w]
					multi := len(refTokens(w, alnum)) != 1
					for _, q := range caseVariants(w, pick(3, 7)) {
						must := -1
						if !isStop && !multi && (strings.Contains(cfg.name, "lower case") || q == w) {
							must = 3
						}
						ask(c, cfg, ix, texts, sets, q, must)
						if must >= 0 {
							ask(c, cfg, ix, texts, sets, "gato-"+q, must)
						}
					}
				}
			}
		}})
	}
	// every ordered choice of words of a text
	texts := []string{
		"La casa de los niños está en Ávila",
		"PROGRAMAR en Java: programación, programador y programas",
		"el 42 responde; ¿por qué? Niñas cantando canciones",
		"Está Estaba y éramos agüeros, pingüino PINGÜINO ñandú Ñu",
		"nación NACIONES nacionalmente, la la la corazón",
		"x1 y2 z3 4w año AÑO\tárbol\nÓptimo",
	}
	seps := []string{" ", ", ", "\n", "-", "¡", " ... ", "\u00a0"}
	for ci, cfg := range cfgs {
		for ti, text := range texts {
			us = append(us, unit{"every ordered choice of up to three words of a text, with separators and stop words", func(c *ctx) {
				ix, sets := build(cfg, texts)
				own := refTokens(text, alnum)
				var stopList []string
				for _, w := range []string{"la", "de", "y", "casa", "ño", "está", "pero"} {
					if _, ok := cfg.stop[w]; ok {
						stopList = append(stopList, w)
					}
				}
				for _, l := range seqs(own, 1, 3) {
					for si, sep := range seps {
						if len(l) == 3 && !thorough() && si != (len(l[0])+ci+ti)%len(seps) {
							continue
						}
						variants := []string{strings.Join(l, sep)}
						if strings.Contains(cfg.name, "lower case") {
							variants = append(variants, upperOf(strings.Join(l, sep)), refLower(strings.Join(l, sep)))
						}
						for vi, q := range variants {
							must := -1
							if len(cfg.ref(q)) > 0 {
								must = ti
							}
							ask(c, cfg, ix, texts, sets, q, must)
							if si == 0 || vi == 0 && thorough() {
								for _, st := range stopList {
									for _, q2 := range []string{st + sep + q, q + sep + st} {
										if strings.Contains(cfg.name, "lower case") {
											q2 = strings.Replace(q2, st, upperOf(st), 1)
										}
										ask(c, cfg, ix, texts, sets, q2, must)
									}
								}
							}
						}
					}
				}
			}})
		}
	}
	us = append(us, unit{"every pair of words, one document each", func(c *ctx) {
		ws := strings.Fields("casa casas Casa casita caso cazar la los niño NIÑA niños cantar cantando canción canciones está estás era 1 12 x")
		for _, cfg := range cfgs {
			for _, a := range ws {
				for _, b := range ws {
					ts := []string{a, b, a + "-" + b}
					ix, sets := build(cfg, ts)
					for _, q := range []string{a, b, a + " " + b, b + "," + a, upperOf(a), a + b} {
						ask(c, cfg, ix, ts, sets, q, -1)
					}
				}
			}
		}
	}})
	// every window of a list of words as a query; texts that lack one of the words
	for ci, cfg := range cfgs {
		us = append(us, unit{"every run of words of a text as a query", func(c *ctx) {
			ws := strings.Fields("z palabra é la 7 K casas x niño Ñu la a1 42 corriendo i CASITAS o u gato z é verde 0 B2 habla el y perro q canciones m l sol á ü árbol h 99 fin")
			full := strings.Join(ws, " ")
			ts := []string{full, strings.Join(ws, ",\n")}
			for j := 0; j < len(ws); j += pick(5, 1) {
				var l []string
				for _, w := range ws {
					if w != ws[j] {
						l = append(l, w)
					}
				}
				ts = append(ts, strings.Join(l, " "))
			}
			ix, sets := build(cfg, ts)
			for i := range ws {
				for n := 1; i+n <= len(ws); n++ {
					if ci > 1 && !thorough() && (i+n)%3 > 0 {
						continue
					}
					q := strings.Join(ws[i:i+n], " ")
					must := -1
					if len(cfg.ref(q)) > 0 {
						must = n % 2
					}
					ask(c, cfg, ix, ts, sets, q, must)
					if n < 8 {
						ask(c, cfg, ix, ts, sets, upperOf(q)+" y", -1)
						for _, w := range []string{"z", "7", "nada", "é"} { // a last or first word besides
							ask(c, cfg, ix, ts, sets, q+" "+w, -1)
							ask(c, cfg, ix, ts, sets, w+"-"+q, -1)
						}
					}
				}
			}
		}})
	}
	for k := 0; k < 8; k++ {
		us = append(us, unit{"long words with any letter anywhere, in case variants", func(c *ctx) {
			base := "electroencefalografistamenteymuchomas"
			for n := 1 + k; n <= pick(37, 150); n += 8 {
				w := strings.Repeat(base, n/len(base)+1)[:n]
				at := map[int]bool{0: true, 1: true, n / 3: true, n / 2: true, n - 2: true, n - 1: true}
				for i := 0; i < n; i++ {
					if !at[i] && !thorough() {
						continue
					}
					for _, x := range []string{"á", "é", "í", "ó", "ú", "ü", "ñ", "7", "b"} {
						word := w[:i] + x + w[i+1:]
						for _, cfg := range cfgs {
							if !strings.Contains(cfg.name, "lower case") || (i+n+len(cfg.name))%4 > 0 && !thorough() && x != "á" && x != "ñ" {
								continue
							}
							texts := []string{upperOf(word) + " fin", word}
							ix, sets := build(cfg, texts)
							for _, q := range caseVariants(word, 0) {
								ask(c, cfg, ix, texts, sets, q, 0)
								ask(c, cfg, ix, texts, sets, q, 1)
							}
						}
					}
				}
			}
		}})
	}
	us = append(us, unit{"words that short digests confuse", func(c *ctx) {
		for _, k := range collidingPairs() {
			for _, cfg := range cfgs[:3] {
				ts := []string{k[0] + " fin", k[1] + " fin", k[1] + "," + k[0]}
				ix, sets := build(cfg, ts)
				for _, q := range []string{k[0], k[1], upperOf(k[0]), "fin " + k[1], k[1] + " " + k[0], k[0] + "s", k[1] + "s"} {
					ask(c, cfg, ix, ts, sets, q, -1)
				}
			}
		}
	}})
	for _, set := range alike {
		us = append(us, unit{"letters that are equal under folding, next to each other", func(c *ctx) {
			for _, cfg := range cfgs {
				for _, pre := range []string{"", "cas"} {
					for _, post := range []string{"", "os"} {
						var ws []string
						for _, x := range set {
							ws = append(ws, pre+x+post)
						}
						ls := seqs(ws, 1, 2)
						var ts []string
						for _, l := range ls {
							ts = append(ts, strings.Join(l, " "))
						}
						ix, sets := build(cfg, ts)
						for _, l := range seqs(ws, 1, pick(2, 3)) {
							ask(c, cfg, ix, ts, sets, strings.Join(l, " "), -1)
						}
						for i, t := range ts {
							ask(c, cfg, ix, ts, sets, upperOf(t), -1)
							if len(cfg.ref(t)) > 0 {
								ask(c, cfg, ix, ts, sets, t, i)
							}
						}
					}
				}
			}
		}})
	}
	for _, n := range longSizes() {
		us = append(us, unit{"long texts with something short at one place", func(c *ctx) {
			for ci, cfg := range cfgs[:4] {
				for bi := range backgrounds {
					if (ci > 0 || n > 5000 && bi%2 == 1) && !thorough() && (bi+ci)%4 != 0 {
						continue
					}
					i := 0
					longTexts(n, bi, func(t string) {
						if i++; n > 1000 && i%(1+n/4000) != 0 && !thorough() {
							return
						}
						ix, sets := build(cfg, []string{t})
						for _, q := range []string{"z", "Z9", "q", "x", "é", "dos", "do", "uno", "ab", "a", "b", "y"} {
							ask(c, cfg, ix, []string{t}, sets, q, -1)
						}
						ask(c, cfg, ix, []string{t}, sets, t, -1)
					})
				}
			}
		}})
	}
	us = append(us, unit{"through a repository, by name and by alias", func(c *ctx) {
		for _, cfg := range cfgs {
			r := v.NewIndexRepo(v.NewMemoryIndexBuilder(cfg.p))
			sets := make([]map[string]bool, len(texts))
			for i, t := range texts {
				r.Put("ix", v.NewDocRequest(fmt.Sprint("d", i), t))
				r.Put(fmt.Sprint("i", i), v.NewDocRequest(fmt.Sprint("d", i), t))
				r.Alias("x", fmt.Sprint("i", i))
				sets[i] = tokenSet(cfg.ref(t))
			}
			r.Rename("ix", "iy")
			for ti, text := range texts {
				for _, l := range seqs(refTokens(text, alnum), 1, 2) {
					q := strings.Join(l, " ")
					want := cfg.ref(q)
					for _, name := range []string{"iy", "x", fmt.Sprint("i", ti)} {
						for _, e := range engines {
							c.eval(len(want) > 0)
							s, err := r.Search(name, q, e.fn)
							if err != nil {
								c.failed("search", "search of %q: %v", name, err)
							}
							got := map[string]int{}
							n := 0
							for s.Next() {
								d := s.Data().Document
								got[d.ID()+" "+d.Raw()]++
								n++
							}
							exp := 0
							for d := range texts {
								if name != "iy" && name != "x" && d != ti {
									continue
								}
								if containsAll(sets[d], want) {
									exp++
									if got[fmt.Sprint("d", d)+" "+texts[d]] != 1 {
										c.failed("found in repository", "pipeline %s: %q of document %q returned %d times by a search of %s, %s engine", cfg.name, q, texts[d], got[fmt.Sprint("d", d)+" "+texts[d]], name, e.name)
									}
								}
							}
							if n != exp {
								c.failed("found in repository", "pipeline %s: query %q on %s, %s engine returns %d documents, expected %d", cfg.name, q, name, e.name, n, exp)
							}
						}
					}
				}
			}
		}
	}})
	for _, n := range []int{63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 5000} {
		us = append(us, unit{"long texts: every word of a text, first and last words together", func(c *ctx) {
			for ci, cfg := range cfgs {
				if ci > 2 && n > 300 && !thorough() {
					continue
				}
				var a, b []string
				for i := 0; i < n; i++ {
					a = append(a, fmt.Sprintf("pal%da", i))
					b = append(b, []string{"la", "casa", "y", "de", fmt.Sprintf("otra%d", i)}[i%5])
				}
				tx := []string{strings.Join(a, " "), "Última " + strings.Join(b, ", ") + " FINAL", strings.Repeat("la ", n) + "solo", strings.Repeat("x", n) + " fin"}
				ix, sets := build(cfg, tx)
				low := strings.Contains(cfg.name, "lower case")
				one := func(q string, must int) {
					if len(cfg.ref(q)) == 0 || !low {
						must = -1
					}
					ask(c, cfg, ix, tx, sets, q, must)
				}
				for i := 0; i < n; i++ {
					one(a[i], 0)
				}
				one("final última", 1)
				one("otra"+fmt.Sprint(n/5*5-1), 1)
				one("solo", 2)
				one("LA solo", 2)
				one(strings.Repeat("x", n), 3)
				one("fin", 3)
				one(a[0]+" "+a[n-1], 0)
				one(upperOf(a[n-1])+" "+a[n/2], 0)
				one(strings.Join(a, ";"), 0)
				one(strings.Repeat(a[n-1]+" ", n), 0)
				one(strings.Join(b, " ")+" final", 1)
			}
		}})
	}
	for _, n := range []int{8192, 16384, 32768, 65536, pick(131072, 1<<20)} {
		us = append(us, unit{"very long texts: words around powers of two", func(c *ctx) {
			for _, cfg := range cfgs[:3] {
				low := strings.Contains(cfg.name, "lower case")
				var b strings.Builder
				for i := 0; i < n+9; i++ {
					fmt.Fprintf(&b, "p%dq ", i)
				}
				byBytes := strings.Repeat("casa ", n/5) + " unos largos gatos"
				tx := []string{b.String(), byBytes, strings.Repeat("ñ", n/2) + " remate"}
				ix, sets := build(cfg, tx)
				one := func(q string, must int) {
					if !low {
						must = -1
					}
					ask(c, cfg, ix, tx, sets, q, must)
				}
				for i := 1; i <= n; i *= 2 {
					for _, j := range []int{i - 1, i, i + 1} {
						one(fmt.Sprintf("p%dq", j), 0)
						one(fmt.Sprintf("P%dQ p%dq", j, n+8), 0)
					}
				}
				for _, q := range []string{"gatos", "largos", "largos CASA", "gato"} {
					one(q, -1)
				}
				one("remate", 2)
				one(strings.Repeat("Ñ", n/2), 2)
			}
		}})
	}
	for n := 1; n <= pick(60, 300); n++ {
		us = append(us, unit{"growing texts and growing numbers of documents", func(c *ctx) {
			for _, cfg := range cfgs[:3] {
				var ws, ts []string
				for i := 0; i < n; i++ {
					ws = append(ws, fmt.Sprintf("pal%da", i))
					ts = append(ts, fmt.Sprintf("común pal%da niños%d", i, i%3))
				}
				ix, sets := build(cfg, []string{strings.Join(ws, " "), strings.Repeat("Ñ", n) + " x", "la " + strings.Repeat("casas ", n)})
				tx := []string{strings.Join(ws, " "), strings.Repeat("Ñ", n) + " x", "la " + strings.Repeat("casas ", n)}
				for i := 0; i < n; i += 1 + n/7 {
					ask(c, cfg, ix, tx, sets, upperOf(ws[i]), 0)
					ask(c, cfg, ix, tx, sets, ws[n-1]+" "+ws[i], 0)
				}
				ask(c, cfg, ix, tx, sets, strings.Join(ws, ","), 0)
				ask(c, cfg, ix, tx, sets, strings.Repeat("ñ", n), 1)
				ask(c, cfg, ix, tx, sets, "casas", -1)
				ix, sets = build(cfg, ts)
				for i := 0; i < n; i += 1 + n/7 {
					ask(c, cfg, ix, ts, sets, fmt.Sprintf("PAL%dA", i), i)
					ask(c, cfg, ix, ts, sets, fmt.Sprintf("niños%d COMÚN", i%3), i)
				}
			}
		}})
	}
	return us
}

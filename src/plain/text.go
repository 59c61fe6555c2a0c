package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	snow "github.com/kljensen/snowball/spanish"
	v "github.com/sonirico/visigoth"
)

func spanishPipe() *v.TokenizationPipeline {
	return v.NewTokenizationPipeline(v.NewKeepAlphanumericTokenizer(), v.NewLowerCaseTokenizer(), v.NewStopWordsFilter(v.SpanishStopWords), v.NewSpanishStemmer(true))
}

// refTokens splits text by definition: maximal runs of kept characters.
func refTokens(s string, keep func(rune) bool) []string {
	var r []string
	start := -1
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if keep(c) {
			if start < 0 {
				start = i
			}
		} else if start >= 0 {
			r = append(r, s[start:i])
			start = -1
		}
		i += n
	}
	if start >= 0 {
		r = append(r, s[start:])
	}
	return r
}

// alnum: Unicode categories L* and N*, from the tables.
func alnum(c rune) bool { return unicode.Is(unicode.L, c) || unicode.Is(unicode.N, c) }

// refLower: character by character.
func refLower(s string) string {
	var b strings.Builder
	for _, c := range s {
		b.WriteRune(unicode.ToLower(c))
	}
	return b.String()
}

// refAnalyse: the documented pipeline.
func refAnalyse(s string, stemStop bool) []string {
	var r []string
	for _, t := range refTokens(s, alnum) {
		t = refLower(t)
		if _, stop := v.SpanishStopWords[t]; stop {
			continue
		}
		r = append(r, snow.Stem(t, stemStop))
	}
	return r
}

func sameTokens(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func tokCheck(c *ctx, tk v.Tokenizer, s string, keep func(rune) bool) {
	want := refTokens(s, keep)
	c.eval(len(want) > 0)
	got := tk.Tokenize(s)
	if !sameTokens(got, want) {
		c.failed("tokens", "text %q gives %q, expected %q", s, got, want)
	}
	c.keep(kept{what: "a text", l: got, want: want})
}

func unitsC12() []unit {
	var us []unit
	// every code point
	const step = 0x4000
	for lo := rune(0); lo <= unicode.MaxRune; lo += step {
		us = append(us, unit{"every code point in every position", func(c *ctx) {
			tk := v.NewKeepAlphanumericTokenizer()
			for r := lo; r < lo+step && r <= unicode.MaxRune; r++ {
				s := string(r)
				for _, p := range []string{s, "x" + s, s + "x", "x" + s + "y", " " + s + " ", s + s, "é" + s + "ñ"} {
					tokCheck(c, tk, p, alnum)
				}
			}
		}})
	}
	for lo := rune(0); lo <= unicode.MaxRune; lo += step / 2 {
		us = append(us, unit{"every code point in a long text", func(c *ctx) {
			tk := v.NewKeepAlphanumericTokenizer()
			ascii, run, wide := strings.Repeat("ab cD, 7", 8), strings.Repeat("xY9", 23), strings.Repeat("é ñ", 18)
			for r := lo; r < lo+step/2 && r <= unicode.MaxRune; r++ {
				s := string(r)
				tokCheck(c, tk, ascii+s+"z end", alnum)
				tokCheck(c, tk, "a"+s+run, alnum)
				if r < 0x3000 || thorough() {
					tokCheck(c, tk, wide+"a"+s+"z", alnum)
					tokCheck(c, tk, run+s, alnum)
					tokCheck(c, tk, s+ascii+s+run+s+s, alnum)
					for n := 8; r < 0x400 && n <= 140; n++ {
						tokCheck(c, tk, strings.Repeat("ab", n)[:n]+s+"b", alnum)
						tokCheck(c, tk, strings.Repeat("a,", n)[:n]+s, alnum)
					}
				}
			}
		}})
	}
	for b := 0; b < 256; b += 4 {
		us = append(us, unit{"every byte string up to three bytes", func(c *ctx) {
			tk := v.NewKeepAlphanumericTokenizer()
			for x := b; x < b+4; x++ {
				tokCheck(c, tk, string([]byte{byte(x)}), alnum)
				for y := 0; y < 256; y++ {
					tokCheck(c, tk, string([]byte{byte(x), byte(y)}), alnum)
					for z := 0; z < 256; z++ {
						tokCheck(c, tk, string([]byte{byte(x), byte(y), byte(z)}), alnum)
					}
				}
			}
		}})
	}
	classes := []string{"a", "Á", "7", "Ⅷ", " ", "-", "😀", "\u0301", "\xff", "\x00", "字", "𝒜"}
	for i, x := range classes {
		for _, y := range classes {
			us = append(us, unit{"every string over character classes", func(c *ctx) {
				tk := v.NewKeepAlphanumericTokenizer()
				for _, l := range seqs(classes, 0, pick(3, 4)) {
					tokCheck(c, tk, x+y+strings.Join(l, ""), alnum)
					c.sample(func() string { return fmt.Sprintf("%q", x+y+strings.Join(l, "")) })
				}
				if i == 0 && y == "a" {
					tokCheck(c, tk, "", alnum)
				}
			}})
		}
	}
	// predicates
	preds := []func(rune) bool{
		unicode.IsLetter, unicode.IsDigit, func(r rune) bool { return r == '_' || r == utf8.RuneError }, func(r rune) bool { return r == '-' || r == 'a' || r == 0 }, unicode.IsSpace,
	}
	pclasses := []string{"a", "ñ", "3", "_", "-", " ", "\xff", "\uFFFD", "\x00"}
	for m := 0; m < 1<<len(preds); m++ {
		us = append(us, unit{"every subset of predicates", func(c *ctx) {
			var fns []func(rune) bool
			for i, p := range preds {
				if m>>i&1 == 1 {
					fns = append(fns, p)
				}
			}
			keep := func(r rune) bool {
				for _, f := range fns {
					if f(r) {
						return true
					}
				}
				return false
			}
			tks := []v.CleanTokenizer{cleanTokenizer(fns)}
			// order and repetition of predicates do not matter
			var rev []func(rune) bool
			for i := len(fns) - 1; i >= 0; i-- {
				rev = append(rev, fns[i], fns[i])
			}
			tks = append(tks, cleanTokenizer(rev))
			for i := range tks {
				for _, l := range seqs(pclasses, 0, pick(4, 5)) {
					tokCheck(c, &tks[i], strings.Join(l, ""), keep)
				}
			}
		}})
	}
	for _, text := range []string{"ab cd,ef ñandú 字字 x\xffy ", "aaaaaaaaaaaa bbbb", "é-é-é--éé  \xff\xff  "} {
		us = append(us, unit{"texts cut from one text, one after the other", func(c *ctx) {
			text := strings.Repeat(text, 3)
			tk := v.NewKeepAlphanumericTokenizer()
			pt := cleanTokenizer([]func(rune) bool{unicode.IsLetter})
			for i := 0; i <= len(text); i++ {
				for j := i; j <= len(text); j++ {
					tokCheck(c, tk, text[i:j], alnum)
					tokCheck(c, &pt, text[i:j], unicode.IsLetter)
				}
			}
			for j := len(text); j >= 0; j-- {
				for i := 0; i <= j; i++ {
					tokCheck(c, tk, text[i:j], alnum)
				}
			}
		}})
	}
	us = append(us, unit{"growing number of predicates", func(c *ctx) {
		for n := 1; n <= pick(140, 600); n++ {
			var fns []func(rune) bool
			for i := 0; i < n; i++ {
				fns = append(fns, func(r rune) bool { return r == rune(0x4e00+2*i) })
			}
			tk := cleanTokenizer(fns)
			keep := func(r rune) bool { return r >= 0x4e00 && r < rune(0x4e00+2*n) && r%2 == 0 }
			var all, gaps strings.Builder
			for i := -1; i <= 2*n; i++ {
				gaps.WriteRune(rune(0x4e00 + i))
				if i >= 0 && i%2 == 0 && i < 2*n {
					all.WriteRune(rune(0x4e00 + i))
				}
			}
			tokCheck(c, &tk, all.String(), keep)
			tokCheck(c, &tk, gaps.String(), keep)
			tokCheck(c, &tk, all.String()+"a"+all.String(), keep)
		}
	}})
	// joining, repetition, no memory of earlier texts
	pieces := []string{"", "a", "áb", "a b", " x", "y ", "7,8", "\xff", "z\xfe", "字", "--", "é", "A1"}
	us = append(us, unit{"joined texts and repeated use", func(c *ctx) {
		tk := v.NewKeepAlphanumericTokenizer()
		pt := cleanTokenizer([]func(rune) bool{unicode.IsLetter})
		for _, s := range []v.Tokenizer{tk, &pt} {
			var held [][]string
			var want []string
			for _, x := range pieces {
				for _, sep := range []string{" ", "\n", ", ", "\x00", "\xff", "¿", "--"} {
					for _, y := range pieces {
						c.eval(true)
						a := s.Tokenize(x)
						b := s.Tokenize(y)
						j := s.Tokenize(x + sep + y)
						if !sameTokens(append(append([]string{}, a...), b...), j) {
							c.failed("joined texts", "%q and %q joined by %q give %q", x, y, sep, j)
						}
						if k := s.Tokenize(x + sep + y); !sameTokens(j, k) {
							c.failed("not repeatable", "%q gives %q, then %q", x+sep+y, j, k)
						}
						held = append(held, j)
						want = append(want, fmt.Sprintf("%q", j))
						for i := range a { // results belong to the caller
							a[i] = "junk"
						}
						_ = append(a, "junk")
					}
				}
			}
			for i := range held {
				if fmt.Sprintf("%q", held[i]) != want[i] {
					c.failed("earlier result changed", "a result %s became %q after later texts", want[i], held[i])
				}
			}
		}
	}})
	for _, n := range []int{1, 2, 3, 5, 8, 16, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65536, 70000} {
		us = append(us, unit{"growing lengths", func(c *ctx) {
			tk := v.NewKeepAlphanumericTokenizer()
			for _, w := range []string{"a", "ñ", "字", "7", "𝒜"} {
				for _, sep := range []string{" ", ", ", "\xff", "—"} {
					for _, pre := range []string{"", sep} {
						tokCheck(c, tk, pre+strings.Repeat(w, n)+sep+w, alnum)
						tokCheck(c, tk, pre+strings.Repeat(w+sep, n), alnum)
						tokCheck(c, tk, pre+strings.Repeat(sep, n)+w, alnum)
						tokCheck(c, tk, w+strings.Repeat(sep, n)+w+pre, alnum)
					}
				}
			}
		}})
	}
	// long texts with something short at one place
	for _, n := range longSizes() {
		for bi := range backgrounds {
			us = append(us, unit{"long texts with something short at one place", func(c *ctx) {
				tk := v.NewKeepAlphanumericTokenizer()
				all := v.NewCleanTokenizer(func(rune) bool { return true })
				none := v.NewCleanTokenizer(func(rune) bool { return false })
				bad := v.NewCleanTokenizer(unicode.IsLetter, func(r rune) bool { return r == utf8.RuneError })
				longTexts(n, bi, func(s string) {
					tokCheck(c, tk, s, alnum)
					tokCheck(c, &bad, s, func(r rune) bool { return unicode.IsLetter(r) || r == utf8.RuneError })
					if n < 5000 {
						tokCheck(c, &all, s, func(rune) bool { return true })
						tokCheck(c, &none, s, func(rune) bool { return false })
					}
				})
			}})
		}
	}
	for k := 17; k <= pick(20, 23); k++ {
		us = append(us, unit{"very long texts", func(c *ctx) {
			tk := v.NewKeepAlphanumericTokenizer()
			for _, n := range []int{1<<k - 2, 1<<k - 1, 1 << k, 1<<k + 1} {
				for _, w := range []string{"ab ", "a", "ñ", "uno, dos\n"} {
					tokCheck(c, tk, strings.Repeat(w, n/len(w)+2)+"-z", alnum)
				}
			}
		}})
	}
	// texts alike everywhere but at one place, one after the other
	for n := 1; n <= pick(140, 600); n++ {
		us = append(us, unit{"texts that differ in one place, one after the other", func(c *ctx) {
			tk := v.NewKeepAlphanumericTokenizer()
			for _, w := range []string{"a ", "ab", "ñ,"} {
				s := strings.Repeat(w, n/len(w)+1)[:n]
				for at := 0; at < n; at += 1 + n/80 {
					for _, x := range []string{"x", " ", "7", "-"} {
						tokCheck(c, tk, s, alnum)
						tokCheck(c, tk, s[:at]+x+s[at+1:], alnum)
					}
				}
			}
		}})
	}
	us = append(us, unit{"texts that short digests confuse, one after the other", func(c *ctx) {
		tk := v.NewKeepAlphanumericTokenizer()
		for _, k := range collidingPairs() {
			for _, pre := range []string{"", "uno ", strings.Repeat("dos ", 40)} {
				for _, post := range []string{"", " tres", strings.Repeat(" dos", 40)} {
					tokCheck(c, tk, pre+k[0]+post, alnum)
					tokCheck(c, tk, pre+k[1]+post, alnum)
				}
			}
		}
	}})
	return us
}

// backgrounds fill long texts.
var backgrounds = []string{"a", "ab ", "ñ", "字,", "\n", "\xff", "uno,dos\n", "\xe5", "7x "}

var shorts = []string{"", "z", " ", "Z9", " q ", "\xff", "\x80", "é", "\u0301", "字", "\U0001D49C", "-x-", " \xfe", "\xe5y", "\n\n", "\x00"}

func longSizes() []int {
	r := []int{60, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 4160, 8192, 16384, 32768, 33000, 65536, 70000}
	if thorough() {
		r = append(r, 100, 300, 1500, 3000, 5000, 10000, 20000, 40000, 100000, 131072, 200000)
	}
	return r
}

// longTexts gives texts of about n bytes: one background, with something short
// at the start, the end, and around every power of two (in bytes).
func longTexts(n, bi int, f func(string)) {
	bg := backgrounds[bi]
	s := strings.Repeat(bg, n/len(bg)+2)[:n]
	at := []int{0, 1, n - 1, n, n / 2}
	for p := 32; p < n; p *= 2 {
		if n > 5000 && p < 512 {
			continue
		}
		for _, q := range []int{p - 2, p - 1, p, p + 1} {
			if q > 0 && q < n {
				at = append(at, q)
			}
		}
	}
	for i, x := range shorts {
		for j, p := range at {
			if n > 5000 && !thorough() && (i+j+bi)%4 != 0 && p != 0 && p != n {
				continue
			}
			f(s[:p] + x + s[p:])
		}
	}
}

// sets of letters that are equal under some folding or normal form.
var alike = [][]string{
	{"σ", "ς", "Σ"}, {"k", "K", "\u212A"}, {"ſ", "s", "S"}, {"ß", "ẞ", "ss", "SS"}, {"i", "İ", "I", "ı", "i̇"}, {"å", "Å", "\u212B", "a\u030A"},
	{"ǆ", "ǅ", "Ǆ"}, {"θ", "ϑ", "ϴ", "Θ"}, {"µ", "μ", "Μ"}, {"é", "É", "e\u0301", "E\u0301"}, {"ñ", "Ñ", "n\u0303", "n"}, {"ﬁ", "fi", "FI"}, {"Ω", "ω", "\u2126"},
	{"1", "１", "¹"}, {"ª", "a", "A", "Ａ"}, {"ü", "Ü", "u", "ú"}, {"ꭰ", "Ꭰ"}, {"ა", "Ა"}, {"ⅰ", "Ⅰ"}, {"ⓐ", "Ⓐ"}, {"ᲀ", "в", "В"}, {"ẛ", "ṡ", "Ṡ"}, {"\ufeff", ""}, {"\u00ad", ""},
}

func cleanTokenizer(fns []func(rune) bool) v.CleanTokenizer {
	return withPredicates(v.NewCleanTokenizer, fns)
}

func withPredicates[F ~func(rune) bool](make func(...F) v.CleanTokenizer, fns []func(rune) bool) v.CleanTokenizer {
	var l []F
	for _, f := range fns {
		l = append(l, F(f))
	}
	return make(l...)
}

// --- C13 ---------------------------------------------------------------

// apply runs a filter on a window of a larger list and checks that nothing but
// the result is produced.
func apply(c *ctx, name string, f v.Filter, in []string) []string {
	pad := make([]string, 0, len(in)+8)
	pad = append(pad, "before")
	pad = append(pad, in...)
	pad = append(pad, "after1", "after2", "after3")
	w := pad[1 : 1+len(in)]
	o := f.Filter(w)
	for i, t := range in {
		if pad[1+i] != t {
			c.failed(name+" altered its input", "input %q became %q", in, pad[1:1+len(in)])
		}
	}
	if pad[0] != "before" || pad[1+len(in)] != "after1" || pad[2+len(in)] != "after2" || pad[3+len(in)] != "after3" {
		c.failed(name+" wrote outside its input", "input %q: surroundings became %q", in, pad)
	}
	return o
}

func expectFilter(c *ctx, name string, f v.Filter, in, want []string) {
	c.eval(len(in) > 0)
	got := apply(c, name, f, in)
	if !sameTokens(got, want) {
		c.failed(name+" result", "%q gives %q, expected %q", in, got, want)
	}
	c.keep(kept{what: name, l: got, want: want})
}

func mapTok(in []string, f func(string) string) []string {
	r := make([]string, len(in))
	for i, t := range in {
		r[i] = f(t)
	}
	return r
}

func without(in []string, sw map[string]struct{}) []string {
	var r []string
	for _, t := range in {
		if _, ok := sw[t]; !ok {
			r = append(r, t)
		}
	}
	return r
}

var suffixes = strings.Fields("s es os as a o e amos aba ando iendo ado ido mente ción ciones idad able ible ísimo ito ita azo ería ero era ista oso osa ivo iva anza logía ucción encia ente me te se lo la le los las les nos selo sela ándolo iéndola arse erse irse aré ería íamos aron ieron iste ó í é gue gué yendo ya uyendo ü")

func wordPool() []string {
	var r []string
	stems := strings.Fields("cas program com viv niñ corr lej az abog habl pagu segu u a o n é")
	for _, s := range stems {
		for _, x := range suffixes {
			r = append(r, s+x)
		}
	}
	n := len(r)
	for w := range v.SpanishStopWords {
		r = append(r, w)
	}
	sort.Strings(r[n:]) // every process must see the same list
	return r
}

func unitsC13() []unit {
	var us []unit
	lower := v.NewLowerCaseTokenizer()
	const step = 0x8000
	for lo := rune(0); lo <= unicode.MaxRune; lo += step {
		us = append(us, unit{"every code point", func(c *ctx) {
			none := v.NewStopWordsFilter(v.StopWords{"x": {}})
			for r := lo; r < lo+step && r <= unicode.MaxRune; r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				s := string(r)
				for _, l := range [][]string{{s}, {"X" + s + "Y"}, {"EsternocleidomastoideoYalgoMasAun" + s + "Z"}, {"ÀÑÁÉÍÓÚÜÀÑÁÉÍÓÚÜ" + s + "ñ", s}} {
					expectFilter(c, "lower case", lower, l, mapTok(l, refLower))
					expectFilter(c, "stop words", none, l, without(l, map[string]struct{}{"x": {}}))
				}
			}
		}})
	}
	alpha := []string{"a", "o", "r", "s", "n", "c", "i", "á", "ñ", "e"}
	for _, x := range alpha {
		us = append(us, unit{"stem of every short word", func(c *ctx) {
			for _, l := range seqs(alpha, 0, pick(4, 5)) {
				w := x + strings.Join(l, "")
				for _, flag := range []bool{true, false} {
					expectFilter(c, "stem", v.NewSpanishStemmer(flag), []string{w}, []string{snow.Stem(w, flag)})
				}
			}
		}})
	}
	us = append(us, unit{"stem of common words, suffixes and stop words", func(c *ctx) {
		for _, flag := range []bool{true, false} {
			f := v.NewSpanishStemmer(flag)
			for _, w := range wordPool() {
				for _, x := range []string{w, strings.ToUpper(w), "re" + w} {
					expectFilter(c, "stem", f, []string{x}, []string{snow.Stem(x, flag)})
				}
			}
		}
	}})
	us = append(us, unit{"every stop word of the list", func(c *ctx) {
		f := v.NewStopWordsFilter(v.SpanishStopWords)
		for w := range v.SpanishStopWords {
			l := []string{w, w + "x", "casa", w, strings.ToUpper(w), "x" + w, ""}
			expectFilter(c, "stop words", f, l, without(l, v.SpanishStopWords))
		}
	}})
	for k := 0; k < 8; k++ {
		us = append(us, unit{"lists of one stop word of any length", func(c *ctx) {
			for n := k; n <= pick(200, 1000); n += 8 {
				for _, x := range []string{"x", "ñ", "A", "\xff", "7"} {
					w := strings.Repeat(x, n)
					l := []string{w, w + "x", "casa", "x" + w, w, strings.ToUpper(w), strings.ToLower(w), "", w + w}
					for _, sw := range []map[string]struct{}{{w: {}}, {w: {}, "y": {}, w + "y": {}}, {w + "x": {}, "": {}}} {
						expectFilter(c, "stop words", v.NewStopWordsFilter(sw), l, without(l, sw))
					}
				}
			}
		}})
	}
	// a token's result does not depend on its neighbours, however alike they are
	pool := wordPool()
	for k := 0; k < 16; k++ {
		us = append(us, unit{"every word next to its variants", func(c *ctx) {
			st, sf := v.NewSpanishStemmer(true), v.NewSpanishStemmer(false)
			stop := v.NewStopWordsFilter(v.SpanishStopWords)
			s1 := func(s string) string { return snow.Stem(s, true) }
			s2 := func(s string) string { return snow.Stem(s, false) }
			for i := k; i < len(pool); i += 16 {
				w := pool[i]
				rs := []rune(w)
				vs := []string{w + "s", w + "es", w + w, strings.ToUpper(w), string(rs[1:]), string(rs[:len(rs)-1]), s1(w), "re" + w, w + "mente", w + "a", w + "o", strings.NewReplacer("á", "a", "é", "e", "í", "i", "ó", "o", "ú", "u", "ñ", "n").Replace(w)}
				if thorough() {
					for _, x := range suffixes {
						vs = append(vs, w+x)
					}
				}
				for _, x := range vs {
					for _, l := range [][]string{{w, x}, {x, w}, {w, x, w, x}, {"z", w, "z", x, x, w}} {
						expectFilter(c, "stem", st, l, mapTok(l, s1))
						expectFilter(c, "stem", sf, l, mapTok(l, s2))
						expectFilter(c, "lower case", lower, l, mapTok(l, refLower))
						expectFilter(c, "stop words", stop, l, without(l, v.SpanishStopWords))
					}
				}
			}
		}})
	}
	us = append(us, unit{"all words in one list, and every window of it", func(c *ctx) {
		l := append([]string(nil), pool...)
		sort.Strings(l)
		for _, flag := range []bool{true, false} {
			f := v.NewSpanishStemmer(flag)
			ref := func(s string) string { return snow.Stem(s, flag) }
			expectFilter(c, "stem", f, l, mapTok(l, ref))
			for n := 1; n <= 6; n++ {
				for i := 0; i+n <= len(l); i++ {
					expectFilter(c, "stem", f, l[i:i+n], mapTok(l[i:i+n], ref))
				}
			}
		}
	}})
	for lo := rune(0); lo < 0x3000; lo += 0x400 {
		us = append(us, unit{"stem of words with any letter in them", func(c *ctx) {
			for _, flag := range []bool{true, false} {
				f := v.NewSpanishStemmer(flag)
				for r := lo; r < lo+0x400; r++ {
					if !utf8.ValidRune(r) {
						continue
					}
					s := string(r)
					for _, w := range []string{s, s + "as", "cas" + s + "s", "CAN" + s + "amos", "habl" + s + "ndo", strings.Repeat("ar", 20) + s + "mente"} {
						expectFilter(c, "stem", f, []string{w}, []string{snow.Stem(w, flag)})
					}
				}
			}
		}})
	}
	for k := 0; k < 8; k++ {
		us = append(us, unit{"long lists of words that are alike", func(c *ctx) {
			l := append([]string(nil), pool...)
			sort.Strings(l)
			for i := 0; i < len(pool); i += 3 {
				w := pool[i]
				l = append(l, strings.ToUpper(w), w+"s", w, w+w, "re"+w)
			}
			l = append(l, l[:40]...)
			stop := v.NewStopWordsFilter(v.SpanishStopWords)
			for _, flag := range []bool{true, false} {
				f := v.NewSpanishStemmer(flag)
				m := map[string]string{}
				want := make([]string, len(l))
				for i, w := range l {
					if _, ok := m[w]; !ok {
						m[w] = snow.Stem(w, flag)
					}
					want[i] = m[w]
				}
				low := mapTok(l, refLower)
				for _, n := range []int{16, 65, 100, 129, 300, 1030} {
					for i := k; i+n <= len(l); i += 8 {
						expectFilter(c, "stem", f, l[i:i+n], want[i:i+n])
						if flag && i%(n/8) == 0 {
							expectFilter(c, "lower case", lower, l[i:i+n], low[i:i+n])
							expectFilter(c, "stop words", stop, l[i:i+n], without(l[i:i+n], v.SpanishStopWords))
						}
					}
				}
			}
		}})
	}
	// token lists
	voc := []string{"la", "casa", "LA", "Casas", "niños", "Ñu", "", "x"}
	custom := []v.StopWords{{}, {"la": {}}, {"casa": {}, "": {}}, {"la": {}, "casa": {}, "x": {}}, {"LA": {}, "Ñu": {}}, {"nada": {}}}
	for _, x := range voc {
		us = append(us, unit{"every short token list", func(c *ctx) {
			st, sf := v.NewSpanishStemmer(true), v.NewSpanishStemmer(false)
			type keep struct {
				l []string
				s string
			}
			var held []keep
			hold := func(l []string) {
				held = append(held, keep{l, fmt.Sprintf("%q", l)})
			}
			for _, rest := range seqs(voc, 0, 3) {
				l := append([]string{x}, rest...)
				expectFilter(c, "lower case", lower, l, mapTok(l, refLower))
				expectFilter(c, "stem", st, l, mapTok(l, func(s string) string { return snow.Stem(s, true) }))
				expectFilter(c, "stem", sf, l, mapTok(l, func(s string) string { return snow.Stem(s, false) }))
				hold(lower.Filter(l))
				hold(st.Filter(l))
				for _, sw := range custom {
					expectFilter(c, "stop words", v.NewStopWordsFilter(sw), l, without(l, sw))
				}
				hold(v.NewStopWordsFilter(custom[1]).Filter(l))
				c.sample(func() string { return fmt.Sprintf("%q", l) })
			}
			for _, h := range held {
				if fmt.Sprintf("%q", h.l) != h.s {
					c.failed("earlier result changed", "a result %s became %q", h.s, h.l)
				}
			}
		}})
	}
	// a word's result does not depend on the words before it
	type follower struct {
		name string
		f    v.Filter
		ref  func(string) (string, bool)
	}
	memo := func(f func(string) string) func(string) (string, bool) {
		m := map[string]string{}
		return func(s string) (string, bool) {
			r, ok := m[s]
			if !ok {
				r = f(s)
				m[s] = r
			}
			return r, true
		}
	}
	followers := func() []follower {
		return []follower{
			{"stem", v.NewSpanishStemmer(true), memo(func(s string) string { return snow.Stem(s, true) })},
			{"stem", v.NewSpanishStemmer(false), memo(func(s string) string { return snow.Stem(s, false) })},
			{"lower case", lower, memo(refLower)},
			{"stop words", v.NewStopWordsFilter(custom[3]), func(s string) (string, bool) {
				_, ok := custom[3][s]
				return s, !ok
			}},
		}
	}
	after := func(c *ctx, fs []follower, a, b string) {
		in := []string{a, b}
		for _, f := range fs {
			c.eval(true)
			got := f.f.Filter(in)
			i := 0
			for _, w := range in {
				want, ok := f.ref(w)
				if !ok {
					continue
				}
				if i >= len(got) || got[i] != want {
					c.failed(f.name+" result after another word", "%q gives %q, %q expected for %q", in, got, want, w)
				}
				i++
			}
			if i != len(got) {
				c.failed(f.name+" result after another word", "%q gives %q", in, got)
			}
		}
	}
	letters := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	for _, x := range letters {
		us = append(us, unit{"every two-letter word after every other", func(c *ctx) {
			fs := followers()[1:3]
			if thorough() {
				fs = followers()
			}
			for _, y := range letters {
				a := string(x) + string(y)
				for _, z := range letters {
					for _, w := range letters {
						after(c, fs, a, string(z)+string(w))
					}
				}
			}
		}})
	}
	for _, x := range "abnosABRá" {
		us = append(us, unit{"every short word after every other", func(c *ctx) {
			fs := followers()
			var ws []string
			for _, l := range seqs(strings.Split("abnosABRá", ""), 2, 2) {
				ws = append(ws, string(x)+strings.Join(l, ""))
			}
			var all []string
			for _, l := range seqs(strings.Split("abnosABRá", ""), 3, 3) {
				all = append(all, strings.Join(l, ""))
			}
			for _, a := range ws {
				for _, b := range all {
					after(c, fs, a, b)
				}
			}
		}})
	}
	us = append(us, unit{"words that short digests confuse, one after the other", func(c *ctx) {
		fs := followers()
		for _, k := range collidingPairs() {
			for _, suffix := range []string{"", "s", "mente", "aba"} {
				after(c, fs, k[0]+suffix, k[1]+suffix)
				after(c, fs, k[1]+suffix, k[0]+suffix)
			}
		}
		for _, w := range []string{"casas", "niños", "perro", "LeÑos"} {
			rs := []rune(w)
			for _, p := range perms(len(rs)) {
				for _, q := range perms(len(rs)) {
					a, b := make([]rune, len(rs)), make([]rune, len(rs))
					for i := range rs {
						a[i], b[i] = rs[p[i]], rs[q[i]]
					}
					after(c, fs, string(a), string(b))
				}
			}
		}
	}})
	for _, set := range alike {
		us = append(us, unit{"letters that are equal under folding, next to each other", func(c *ctx) {
			st, sf := v.NewSpanishStemmer(true), v.NewSpanishStemmer(false)
			for _, pre := range []string{"", "cas", "Ca"} {
				for _, post := range []string{"", "os", "AS"} {
					var ws []string
					for _, x := range set {
						ws = append(ws, pre+x+post)
					}
					sw := v.StopWords{ws[0]: {}, refLower(ws[1]): {}}
					stop := v.NewStopWordsFilter(sw)
					for _, l := range seqs(ws, 1, pick(4, 5)) {
						expectFilter(c, "lower case", lower, l, mapTok(l, refLower))
						expectFilter(c, "stem", st, l, mapTok(l, func(s string) string { return snow.Stem(s, true) }))
						expectFilter(c, "stem", sf, l, mapTok(l, func(s string) string { return snow.Stem(s, false) }))
						expectFilter(c, "stop words", stop, l, without(l, sw))
					}
				}
			}
		}})
	}
	us = append(us, unit{"empty lists and long lists", func(c *ctx) {
		for _, f := range []v.Filter{lower, v.NewSpanishStemmer(true), v.NewSpanishStemmer(false), v.NewStopWordsFilter(custom[1])} {
			expectFilter(c, "filter", f, nil, nil)
			expectFilter(c, "filter", f, []string{}, nil)
		}
		for _, n := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10007, 32767, 32768, 32769, 65535, 65536, 65537, 70003} {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, []string{"La", "la", "casas", fmt.Sprint("W", i)}[(i*i+i/3)%4])
			}
			expectFilter(c, "lower case", lower, l, mapTok(l, refLower))
			expectFilter(c, "stem", v.NewSpanishStemmer(true), l, mapTok(l, func(s string) string { return snow.Stem(s, true) }))
			for _, sw := range custom {
				expectFilter(c, "stop words", v.NewStopWordsFilter(sw), l, without(l, sw))
			}
			w := strings.Repeat("Á", n)
			expectFilter(c, "lower case", lower, []string{w, "B"}, []string{strings.Repeat("á", n), "b"})
			for _, sw := range []v.StopWords{{"ñu": {}, "a": {}}, {"é": {}}, {"": {}, "áéíóú": {}, "la": {}}, {"\xff": {}, "字": {}}, {strings.Repeat("ñ", 40): {}, "A": {}}} {
				ws := []string{"casa", strings.Repeat("ñ", 40) + "a", "ÑU", "La"}
				for w := range sw {
					ws = append(ws, w, w+"a", "z"+w)
				}
				sort.Strings(ws)
				l := make([]string, n)
				for i := range l {
					l[i] = ws[(i*7+i/5)%len(ws)]
				}
				expectFilter(c, "stop words", v.NewStopWordsFilter(sw), l, without(l, sw))
				expectFilter(c, "lower case", lower, l, mapTok(l, refLower))
				expectFilter(c, "stem", v.NewSpanishStemmer(false), l, mapTok(l, func(s string) string { return snow.Stem(s, false) }))
			}
			big := v.StopWords{}
			for i := 0; i < n; i += 2 {
				big[fmt.Sprint("W", i)] = struct{}{}
			}
			expectFilter(c, "stop words", v.NewStopWordsFilter(big), l, without(l, big))
		}
	}})
	ends := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 32, 33, 64}
	for _, h := range ends {
		us = append(us, unit{"words that are alike at both ends", func(c *ctx) {
			for _, t := range ends {
				for k, tail := range []string{"arlos", "mente", "s"} {
					end := strings.Repeat("r", t) + tail
					if t < len(tail) {
						end = tail[:t]
					}
					var ws []string
					for _, m := range []string{"ca", "qo", "tt", "ñ", "á", "é", "CA", "Qo"} {
						ws = append(ws, strings.Repeat("p", h)+m+end)
					}
					sw := v.StopWords{ws[1]: {}, ws[6]: {}}
					for _, n := range []int{0, 60, pick(250, 1020)} {
						if k > 0 && n > 60 {
							continue
						}
						var l []string
						for i := 0; i < n; i++ {
							l = append(l, "w")
						}
						l = append(append(l, ws...), ws[7], ws[6], ws[5], ws[4], ws[3], ws[2], ws[1], ws[0])
						expectFilter(c, "stop words", v.NewStopWordsFilter(sw), l, without(l, sw))
						expectFilter(c, "lower case", lower, l, mapTok(l, refLower))
						expectFilter(c, "stem", v.NewSpanishStemmer(false), l, mapTok(l, func(s string) string { return snow.Stem(s, false) }))
						expectFilter(c, "stem", v.NewSpanishStemmer(true), l, mapTok(l, func(s string) string { return snow.Stem(s, true) }))
					}
				}
			}
		}})
	}
	// pipelines
	type fc struct {
		name string
		f    v.Filter
		ref  func([]string) []string
	}
	fs := []fc{
		{"lower", lower, func(l []string) []string { return mapTok(l, refLower) }},
		{"stop", v.NewStopWordsFilter(v.SpanishStopWords), func(l []string) []string { return without(l, v.SpanishStopWords) }},
		{"stem", v.NewSpanishStemmer(true), func(l []string) []string {
			return mapTok(l, func(s string) string { return snow.Stem(s, true) })
		}},
		{"stem keeping stop words", v.NewSpanishStemmer(false), func(l []string) []string {
			return mapTok(l, func(s string) string { return snow.Stem(s, false) })
		}},
		{"mark", markFilter("+"), func(l []string) []string { return mapTok(l, func(s string) string { return s + "+" }) }},
		{"double", doubleFilter{}, func(l []string) []string { return doubleFilter{}.Filter(l) }},
		{"append a token", addFilter("x"), func(l []string) []string { return addFilter("x").Filter(l) }},
		{"drop casa", v.NewStopWordsFilter(v.StopWords{"casa": {}, "cas": {}}), func(l []string) []string { return without(l, v.StopWords{"casa": {}, "cas": {}}) }},
	}
	texts := []string{"", "La casa de los niños", "CASAS, casa; Para nada", "xYz\xffñandú 42 veces", "la LA La", "   ", "está Está ESTÁ éramos"}
	var chains [][]fc
	var rec func(p []fc, n int)
	rec = func(p []fc, n int) {
		chains = append(chains, append([]fc(nil), p...))
		if n == 0 {
			return
		}
		for _, f := range fs {
			rec(append(p[:len(p):len(p)], f), n-1)
		}
	}
	rec(nil, pick(3, 4))
	for k := 0; k < 8; k++ {
		us = append(us, unit{"every pipeline of up to three filters", func(c *ctx) {
			for i, ch := range chains {
				if i%8 != k {
					continue
				}
				var ff []v.Filter
				names := []string{}
				for _, f := range ch {
					ff = append(ff, f.f)
					names = append(names, f.name)
				}
				p := v.NewTokenizationPipeline(v.NewKeepAlphanumericTokenizer(), ff...)
				nested := v.NewTokenizationPipeline(v.NewTokenizationPipeline(v.NewKeepAlphanumericTokenizer()), ff...)
				other := v.NewTokenizationPipeline(splitTok{}, ff...)
				for _, t := range texts {
					want := refTokens(t, alnum)
					wo := strings.Split(t, " ")
					for _, f := range ch {
						want = f.ref(want)
						wo = f.ref(wo)
					}
					for n := 0; n < 2; n++ {
						c.eval(len(want) > 0)
						if g := p.Tokenize(t); !sameTokens(g, want) {
							c.failed("pipeline", "filters %q on %q give %q, expected %q", names, t, g, want)
						}
						if g := nested.Tokenize(t); !sameTokens(g, want) {
							c.failed("nested pipeline", "filters %q on %q give %q, expected %q", names, t, g, want)
						}
						if g := other.Tokenize(t); !sameTokens(g, wo) {
							c.failed("pipeline with another tokenizer", "filters %q on %q give %q, expected %q", names, t, g, wo)
						}
					}
				}
			}
		}})
	}
	us = append(us, unit{"pipelines made from one pipeline", func(c *ctx) {
		for n := 0; n <= 9; n++ {
			for spare := 0; spare <= 8; spare++ {
				given := make([]v.Filter, 0, n+spare)
				for i := 0; i < n; i++ {
					given = append(given, markFilter(fmt.Sprint("+", i)))
				}
				base := v.NewTokenizationPipeline(v.NewKeepAlphanumericTokenizer(), given...)
				type made struct {
					p  v.Tokenizer
					ff []v.Filter
				}
				all := []made{{base, given}}
				for depth := 0; depth < 2; depth++ {
					for _, m := range all[:len(all):len(all)] {
						if depth == 1 && len(m.ff) == n {
							continue
						}
						for k := 1; k <= 3; k++ {
							more := make([]v.Filter, 0, k+spare)
							for i := 0; i < k; i++ {
								more = append(more, markFilter(fmt.Sprintf("-%d.%d.%d", depth, k, i)))
							}
							all = append(all, made{v.NewTokenizationPipeline(m.p, more...), append(m.ff[:len(m.ff):len(m.ff)], more...)})
						}
					}
				}
				for i, m := range all {
					for _, t := range texts {
						want := refTokens(t, alnum)
						for _, f := range m.ff {
							want = f.Filter(want)
						}
						c.eval(len(want) > 0)
						if g := m.p.Tokenize(t); !sameTokens(g, want) {
							c.failed("pipelines made from one pipeline", "pipeline %d of %d, made from one of %d filters, gives %q on %q, expected %q", i, len(all), n, g, t, want)
						}
					}
				}
			}
		}
	}})
	us = append(us, unit{"long pipelines", func(c *ctx) {
		lens := []int{64, 65, 100, 128, 129, 256, 257, 300}
		for n := 1; n <= 40; n++ {
			lens = append(lens, n)
		}
		for _, n := range lens {
			var ff []v.Filter
			var deep v.Tokenizer = v.NewKeepAlphanumericTokenizer()
			for i := 0; i < n; i++ {
				var f v.Filter = markFilter(fmt.Sprintf("+%d", i))
				if i%9 == 8 {
					f = addFilter(fmt.Sprint("x", i))
				}
				ff = append(ff, f)
				deep = v.NewTokenizationPipeline(deep, f)
			}
			p := v.NewTokenizationPipeline(v.NewKeepAlphanumericTokenizer(), ff...)
			e := v.NewTokenizationPipeline(noTok{}, ff...)
			for round := 0; round < 2; round++ {
				for _, t := range texts {
					want, none := refTokens(t, alnum), []string(nil)
					for _, f := range ff {
						want, none = f.Filter(want), f.Filter(none)
					}
					c.eval(len(want) > 0)
					if g := p.Tokenize(t); !sameTokens(g, want) {
						c.failed("long pipeline", "%d filters on %q give %q, expected %q", n, t, g, want)
					}
					if g := deep.Tokenize(t); !sameTokens(g, want) {
						c.failed("deeply nested pipeline", "%d filters on %q give %q, expected %q", n, t, g, want)
					}
					if g := e.Tokenize(t); !sameTokens(g, none) {
						c.failed("pipeline over a tokenizer without tokens", "%d filters on %q give %q, expected %q", n, t, g, none)
					}
				}
			}
		}
	}})
	return us
}

// addFilter appends a token of its own, to an empty list too.
type addFilter string

func (a addFilter) Filter(l []string) []string {
	return append(append([]string(nil), l...), string(a))
}

// noTok finds no tokens.
type noTok struct{}

func (noTok) Tokenize(string) []string { return nil }

type splitTok struct{}

func (splitTok) Tokenize(s string) []string { return strings.Split(s, " ") }

type markFilter string

func (m markFilter) Filter(l []string) []string {
	return mapTok(l, func(s string) string { return s + string(m) })
}

type doubleFilter struct{}

func (doubleFilter) Filter(l []string) []string {
	r := []string{}
	for _, t := range l {
		r = append(r, t, t)
	}
	return r
}

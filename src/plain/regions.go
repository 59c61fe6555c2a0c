package main

import (
	"fmt"
	"strings"

	v "github.com/sonirico/visigoth"
)

const spanishVowels = "aeiouáéíóúü"

func refVowel(r rune) bool { return strings.ContainsRune(spanishVowels, r) }

// refR1: the position after the first non-vowel following a vowel, in runes.
func refAfter(w []rune, from int) int {
	for i := from + 1; i < len(w); i++ {
		if !refVowel(w[i]) && refVowel(w[i-1]) {
			return i + 1
		}
	}
	return len(w)
}

func refRegions(s string) (string, string, string) {
	w := []rune(s)
	n := len(w)
	r1 := refAfter(w, 0)
	r2 := refAfter(w, r1)
	if r1 >= n {
		r1, r2 = n, n
	}
	rv := n
	if n >= 2 {
		switch {
		case !refVowel(w[1]):
			for i := 2; i < n; i++ {
				if refVowel(w[i]) {
					rv = i + 1
					break
				}
			}
		case refVowel(w[0]):
			for i := 2; i < n; i++ {
				if !refVowel(w[i]) {
					rv = i + 1
					break
				}
			}
		default:
			if n >= 3 {
				rv = 3
			}
		}
	}
	return string(w[r1:]), string(w[r2:]), string(w[rv:])
}

func regionCheck(c *ctx, w string) {
	buf := make([]byte, 0, len(w)+8)
	buf = append(buf, w...)
	full := buf[:cap(buf)]
	for i := len(w); i < len(full); i++ {
		full[i] = '#'
	}
	r1, r2, rv := v.R1R2RV(buf)
	e1, e2, ev := refRegions(w)
	c.eval(e1 != "" || e2 != "" || ev != "")
	if string(r1) != e1 || string(r2) != e2 || string(rv) != ev {
		c.failed("regions", "%q: R1 %q R2 %q RV %q, expected R1 %q R2 %q RV %q", w, r1, r2, rv, e1, e2, ev)
	}
	if string(buf) != w {
		c.failed("word modified", "%q became %q", w, buf)
	}
	for i := len(w); i < len(full); i++ {
		if full[i] != '#' {
			c.failed("word modified", "bytes behind %q were overwritten", w)
		}
	}
	c.keep(kept{what: "a word", b: [][]byte{r1, r2, rv, buf}, want: []string{e1, e2, ev, w}})
	c.sample(func() string { return fmt.Sprintf("%q: R1 %q R2 %q RV %q", w, r1, r2, rv) })
}

func unitsC15() []unit {
	var us []unit
	each := func(group string, alpha []string, lo, hi, split int) {
		var pre [][]string = seqs(alpha, split, split)
		for _, p := range pre {
			us = append(us, unit{group, func(c *ctx) {
				var rec func(w string, n int)
				rec = func(w string, n int) {
					if n >= lo {
						regionCheck(c, w)
					}
					if n == hi {
						return
					}
					for _, x := range alpha {
						rec(w+x, n+1)
					}
				}
				rec(strings.Join(p, ""), split)
			}})
		}
	}
	short := func(group string, alpha []string, split int) {
		us = append(us, unit{group, func(c *ctx) {
			for _, l := range seqs(alpha, 0, split-1) {
				regionCheck(c, strings.Join(l, ""))
			}
		}})
	}
	four := []string{"a", "á", "r", "ñ"}
	short("every word over plain and accented vowels, one- and two-byte consonants", four, 2)
	each("every word over plain and accented vowels, one- and two-byte consonants", four, 2, pick(9, 12), 2)
	all := strings.Split("abcdefghijklmnopqrstuvwxyzáéíóúüñ", "")
	g := "every word of up to three Spanish letters, continued in every class"
	us = append(us, unit{g, func(c *ctx) {
		for _, l := range seqs(all, 0, 2) {
			regionCheck(c, strings.Join(l, ""))
		}
	}})
	for _, x := range all {
		us = append(us, unit{g, func(c *ctx) {
			for _, l := range seqs(all, 2, 2) {
				w := x + strings.Join(l, "")
				for _, s := range seqs([]string{"e", "t"}, 0, pick(3, 5)) {
					regionCheck(c, w+strings.Join(s, ""))
				}
				if thorough() {
					for _, y := range all {
						regionCheck(c, w+y)
						for _, z := range all {
							regionCheck(c, w+y+z)
						}
					}
				}
			}
		}})
	}
	us = append(us, unit{"every letter in every position of every pattern", func(c *ctx) {
		for _, l := range seqs([]string{"a", "r"}, 1, pick(6, 8)) {
			for i := range l {
				for _, x := range all {
					m := append([]string{}, l...)
					m[i] = x
					regionCheck(c, strings.Join(m, ""))
				}
			}
		}
	}})
	each("every long word over a vowel and a consonant", []string{"o", "l"}, 5, pick(16, 20), 5)
	each("every long word over an accented vowel and ñ", []string{"é", "ñ"}, 5, pick(13, 17), 5)
	us = append(us, unit{"growing words", func(c *ctx) {
		for n := 1; n <= pick(300, 1100); n++ {
			for _, x := range []string{"a", "é", "t", "ñ"} {
				for _, y := range []string{"u", "ü", "s", "ñ", ""} {
					for _, z := range []string{"", "ca", "í", "añe"} {
						regionCheck(c, strings.Repeat(x, n)+y+z)
						regionCheck(c, z+strings.Repeat(x, n)+y)
						regionCheck(c, strings.Repeat(x+y, n)+z)
					}
				}
			}
		}
	}})
	for _, n := range []int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 70001} {
		us = append(us, unit{"growing words", func(c *ctx) {
			for _, x := range []string{"a", "é", "t", "ñ", "ta", "ña", "téna", "ea"} {
				for _, z := range []string{"", "u", "ü", "s", "ñ", "ca", "í", "añe", "arto"} {
					regionCheck(c, strings.Repeat(x, n)+z)
					regionCheck(c, z+strings.Repeat(x, n))
					regionCheck(c, "c"+strings.Repeat(x, n)+"e"+z)
					regionCheck(c, strings.Repeat("t", n)+x+z+x+z)
				}
			}
		}})
	}
	us = append(us, unit{"one buffer for all words", func(c *ctx) {
		buf := make([]byte, 64)
		for _, ws := range [][]string{{"a", "é", "s", "ñ"}, {"o", "l"}} {
			for _, l := range seqs(ws, 0, pick(7, 9)) {
				for _, at := range []int{0, 1, 20} {
					w := strings.Join(l, "")
					b := buf[at : at+len(w)]
					copy(b, w)
					c.eval(true)
					x, y, z := v.R1R2RV(b)
					p, q, r := refRegions(w)
					if string(x) != p || string(y) != q || string(z) != r || string(b) != w {
						c.failed("regions in a buffer used again", "word %q gives %q %q %q, expected %q %q %q", w, x, y, z, p, q, r)
					}
				}
			}
		}
	}})
	us = append(us, unit{"suffix table and stop words", func(c *ctx) {
		for _, w := range wordPool() {
			if !strings.Contains(w, " ") {
				regionCheck(c, w)
			}
		}
	}})
	us = append(us, unit{"words that short digests confuse, one after the other", func(c *ctx) {
		for _, k := range collidingPairs() {
			for _, pre := range []string{"", "ca", "é", "tr"} {
				for _, post := range []string{"", "s", "aron"} {
					regionCheck(c, pre+k[0]+post)
					regionCheck(c, pre+k[1]+post)
					regionCheck(c, pre+k[0]+post)
				}
			}
		}
	}})
	us = append(us, unit{"one after the other, results kept", func(c *ctx) {
		type regs struct{ a, b, d []byte }
		var ks []regs
		var ws []string
		for _, l := range seqs([]string{"a", "é", "s", "ñ"}, 0, 6) {
			w := strings.Join(l, "")
			c.eval(w != "")
			a, b, d := v.R1R2RV([]byte(w))
			ks, ws = append(ks, regs{a, b, d}), append(ws, w)
		}
		for i, k := range ks {
			a, b, d := refRegions(ws[i])
			if string(k.a) != a || string(k.b) != b || string(k.d) != d {
				c.failed("earlier result changed", "regions of %q became %q %q %q after later words", ws[i], k.a, k.b, k.d)
			}
		}
	}})
	return us
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/mailru/easyjson"
	v "github.com/sonirico/visigoth"
)

// the same shape for the standard library: the reference decoder
type refDoc struct {
	ID  string `json:"id"`
	Raw string `json:"raw"`
}
type refResult struct {
	Doc  refDoc `json:"doc"`
	Hits int    `json:"hits"`
}

func result(id, raw string, hits int) v.SearchResult {
	return v.SearchResult{Document: v.NewDoc(id, raw), Hits: hits}
}

// roundTrip encodes in every way and decodes in every way.
func roundTrip(c *ctx, r v.SearchResult, deep bool) {
	c.eval(true)
	a, err := json.Marshal(r)
	if err != nil {
		c.failed("encode", "%+v: %v", r, err)
	}
	b, err := r.MarshalJSON()
	if err != nil || !json.Valid(b) {
		c.failed("encode", "%+v: error %v, encoded as %q", r, err, b)
	}
	encs := [][]byte{a, b}
	if deep {
		if b, err = easyjson.Marshal(r); err != nil || !json.Valid(b) {
			c.failed("encode", "%+v: easyjson error %v, encoded as %q", r, err, b)
		}
		encs = append(encs, b)
		if b, err = json.Marshal(&r); err != nil {
			c.failed("encode", "%+v: %v", r, err)
		}
		encs = append(encs, b)
	}
	var ref refResult
	for _, e := range encs {
		ref = refResult{}
		if err := json.Unmarshal(e, &ref); err != nil || ref.Doc.ID != r.Document.ID() || ref.Doc.Raw != r.Document.Raw() || ref.Hits != r.Hits {
			c.failed("encode", "%+v is encoded as %s: read back by the standard library as %+v, %v", r, e, ref, err)
		}
		if deep {
			var m map[string]json.RawMessage
			var n map[string]json.RawMessage
			if json.Unmarshal(e, &m) != nil || len(m) != 2 || m["hits"] == nil || json.Unmarshal(m["doc"], &n) != nil || len(n) != 2 || n["id"] == nil || n["raw"] == nil {
				c.failed("fields", "%+v is encoded as %s", r, e)
			}
		}
		// decode directly, then overwrite the buffer
		var d v.SearchResult
		buf := append([]byte(nil), e...)
		err := d.UnmarshalJSON(buf)
		for i := range buf {
			buf[i] = '#'
		}
		if err != nil || d != r {
			c.failed("decode", "%+v is encoded as %s: decoded as %+v, %v", r, e, d, err)
		}
		if !deep {
			break
		}
		d = result("old", "older", 77)
		if err := json.Unmarshal(e, &d); err != nil || d != r {
			c.failed("decode", "%+v is encoded as %s: decoded over another result as %+v, %v", r, e, d, err)
		}
		d = v.SearchResult{}
		if err := easyjson.Unmarshal(e, &d); err != nil || d != r {
			c.failed("decode", "%+v is encoded as %s: decoded by easyjson as %+v, %v", r, e, d, err)
		}
		var l []v.SearchResult
		if err := json.Unmarshal([]byte(fmt.Sprintf("[%s , %s]", e, e)), &l); err != nil || len(l) != 2 || l[0] != r || l[1] != r {
			c.failed("decode", "a list of two %s is decoded as %+v, %v", e, l, err)
		}
		// the standard encoding of the same value
		s, _ := json.Marshal(refResult{refDoc{r.Document.ID(), r.Document.Raw()}, r.Hits})
		d = v.SearchResult{}
		if err := d.UnmarshalJSON(s); err != nil || d != r {
			c.failed("decode", "%s is decoded as %+v, %v", s, d, err)
		}
	}
	c.sample(func() string { return string(a) })
}

// decode compares a text with the standard library's reading of it.
func decode(c *ctx, s string) {
	var ref refResult
	e1 := json.Unmarshal([]byte(s), &ref)
	c.eval(e1 == nil)
	buf := []byte(s)
	var d v.SearchResult
	e2 := json.Unmarshal(buf, &d)
	for i := range buf {
		buf[i] = '#'
	}
	if (e1 == nil) != (e2 == nil) {
		c.failed("malformed", "%s: error %v, expected error: %v", s, e2, e1)
	}
	if e1 == nil && (d.Document.ID() != ref.Doc.ID || d.Document.Raw() != ref.Doc.Raw || d.Hits != ref.Hits) {
		c.failed("decode", "%s: decoded as %+v, expected %+v", s, d, ref)
	}
	if e1 == nil {
		var x v.SearchResult
		if err := x.UnmarshalJSON([]byte(s)); err != nil || x != d {
			c.failed("decode", "%s: decoded directly as %+v, %v", s, x, err)
		}
	}
	c.sample(func() string { return fmt.Sprintf("%s, error %v", s, e2) })
}

func unitsC16() []unit {
	var us []unit
	const step = 0x2000
	for lo := rune(0); lo <= utf8.MaxRune; lo += step {
		us = append(us, unit{"every code point in each field", func(c *ctx) {
			for r := lo; r < lo+step && r <= utf8.MaxRune; r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				s := string(r)
				roundTrip(c, result(s, "", 1), thorough())
				roundTrip(c, result("x", "y"+s+"z", 0), thorough())
			}
		}})
	}
	chars := []string{"a", "\"", "\\", "/", "u", "0", "\n", "\x00", "\x1f", "\x7f", "<", "&", " ", "{", "}", "[", ":", ",", "é", "字", "😀", "\u2028", "\uFFFD", "\uFEFF", "'"}
	for _, x := range chars {
		us = append(us, unit{"every string of up to three JSON-relevant characters", func(c *ctx) {
			for _, l := range seqs(chars, 0, pick(2, 3)) {
				w := x + strings.Join(l, "")
				roundTrip(c, result(w, "r", 2), len(l) < 2)
				roundTrip(c, result("i", w, 3), len(l) < 2)
				roundTrip(c, result(w, w, len(w)), len(l) < 2)
			}
			roundTrip(c, result("", x, 0), true)
			for _, y := range chars {
				roundTrip(c, result(x, y, 5), true)
			}
		}})
	}
	us = append(us, unit{"hit counts at every power of two", func(c *ctx) {
		roundTrip(c, result("", "", 0), true)
		for k := 0; k < 64; k++ {
			for d := -2; d <= 2; d++ {
				for _, s := range []int{1, -1} {
					roundTrip(c, result("d", "raw", s*(int(uint64(1)<<k)+d)), true)
				}
			}
		}
		for n, k := 1, 0; k < 19; n, k = n*10, k+1 {
			for d := -1; d <= 1; d++ {
				roundTrip(c, result("d", "raw", n+d), true)
				roundTrip(c, result("d", "raw", -n+d), true)
			}
		}
		roundTrip(c, result("d", "raw", math.MaxInt), true)
		roundTrip(c, result("d", "raw", math.MinInt), true)
		for n := -3000; n < 3000; n++ {
			roundTrip(c, result("d", "raw", n), false)
		}
	}})
	for k := 0; k < 8; k++ {
		us = append(us, unit{"growing strings", func(c *ctx) {
			for n := 1 + k; n <= pick(1200, 5000); n += 8 {
				for _, w := range []string{"a", "é", "\"", "\x01", "😀"} {
					roundTrip(c, result(strings.Repeat(w, n), "r", 1), false)
					roundTrip(c, result("i", strings.Repeat("x", n)+w, 1), false)
					roundTrip(c, result("i", w+strings.Repeat("x", n), 1), false)
				}
			}
			for _, n := range []int{4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001} {
				roundTrip(c, result(strings.Repeat("\\é", n), strings.Repeat("\"", n), n), k == 0)
			}
		}})
	}
	for k := 10; k <= pick(17, 21); k++ {
		us = append(us, unit{"long strings with something short around a power of two", func(c *ctx) {
			for n := 1<<k - 5; n <= 1<<k+2; n++ {
				for _, w := range []string{"é", "字", "😀", "\"", "\\", "\x01", "\u2028", "\n", "<"} {
					for _, fill := range []string{"x", "é"} {
						s := strings.Repeat(fill, n/len(fill)) + w
						roundTrip(c, result("i", s+"yz", 1), false)
						roundTrip(c, result(s, "r", 1), false)
					}
				}
			}
		}})
	}
	for k := 18; k <= pick(22, 24); k++ {
		us = append(us, unit{"strings of megabytes", func(c *ctx) {
			for n := 1<<k - 2; n <= 1<<k+2; n++ {
				s := strings.Repeat("x", n) + "é"
				roundTrip(c, result("i", s+"yz", 1), false)
				roundTrip(c, result(s, "r", 1), false)
			}
		}})
	}
	// field orders, subsets, repetitions, unknown and null fields
	docs := []string{`{"id":"A","raw":"B"}`, `{"raw":"B","id":"A"}`, `{"id":"A"}`, `{"raw":"B"}`, `{}`, `null`, `{"id":null,"raw":"B"}`, `{"id":"A","raw":null}`, `{"x":{"id":"Q"},"id":"A","y":[{"raw":"Q"}],"raw":"B"}`, `{"id":"A","Z":"hits","raw":"B","w":null}`, ` { "id" : "\u0041" , "raw" : "\u00e9\n\ud83d\ude00" } `}
	fields := []string{`"x":1`, `"x":"doc"`, `"x":{"doc":{"id":"N"},"hits":9}`, `"x":[1,[{"hits":5}],null,true,false,1.5e3]`, `"x":null`, `"x":""`, `"x":{}`, `"x":"}\"{"`, `"hits":0`, `"hits":7`, `"hits":-3`, `"hits":null`, `"doc":null`, `"":3`, `"x\"y":2`}
	for i, d := range docs {
		us = append(us, unit{"every order and subset of fields, unknown and null fields", func(c *ctx) {
			all := append([]string{`"doc":` + d}, fields...)
			for _, l := range seqs(all, 0, pick(3, 4)) {
				n := 0
				for _, f := range l {
					if strings.HasPrefix(f, `"doc"`) {
						n++
					}
				}
				if i > 0 && n == 0 {
					continue
				}
				decode(c, "{"+strings.Join(l, ",")+"}")
				if len(l) <= 2 {
					decode(c, " {\n"+strings.Join(l, " ,\t")+"\r} \n")
				}
			}
		}})
	}
	// every sequence of tokens
	toks := []string{`{`, `}`, `:`, `,`, `"doc"`, `"id"`, `"hits"`, `"x"`, `1`, `null`, `[`, `]`}
	for _, x := range toks {
		for _, y := range toks {
			us = append(us, unit{"every sequence of JSON tokens", func(c *ctx) {
				for _, l := range seqs(toks, 0, pick(3, 4)) {
					decode(c, x+y+strings.Join(l, ""))
				}
				for _, l := range seqs(toks, 2, pick(3, 4)) {
					decode(c, `{"doc":{"id":"A"`+x+y+strings.Join(l, ""))
					decode(c, `{"hits":3`+x+y+strings.Join(l, ""))
				}
			}})
		}
	}
	us = append(us, unit{"single tokens, truncations, insertions and trailing bytes", func(c *ctx) {
		for _, t := range append(append([]string{}, toks...), "", " ", "true", "[{}]", "{} {}", "nul", "-", `"\u12"`) {
			decode(c, t)
		}
		for _, r := range []v.SearchResult{result("A", "B", 1), result("é\"\\", "\n😀<", -12), result("", "", 0), result("字", "u\u2028", math.MinInt)} {
			e, err := json.Marshal(r)
			if err != nil {
				c.failed("encode", "%+v: %v", r, err)
			}
			var d v.SearchResult
			for i := 0; i < len(e); i++ {
				c.eval(true)
				for _, f := range []func([]byte) error{d.UnmarshalJSON, func(b []byte) error { return json.Unmarshal(b, &d) }, func(b []byte) error { return easyjson.Unmarshal(b, &d) }} {
					if err := f(append([]byte(nil), e[:i]...)); err == nil && i > 0 {
						c.failed("truncated", "the truncation %s of %s is decoded without an error", e[:i], e)
					}
				}
				decode(c, string(e[:i]))
				for b := 0; b < 256; b++ {
					m := string(e[:i]) + string([]byte{byte(b)}) + string(e[i:])
					if utf8.ValidString(m) {
						decodeMalformed(c, m)
					}
					m = string(e[:i]) + string([]byte{byte(b)}) + string(e[i+1:])
					if utf8.ValidString(m) {
						decodeMalformed(c, m)
					}
				}
			}
			for b := 0; b < 128; b++ {
				decode(c, string(e)+string(rune(b)))
				decode(c, string(rune(b))+string(e))
			}
		}
	}})
	us = append(us, unit{"values of the wrong type", func(c *ctx) {
		vals := []string{`1`, `"s"`, `true`, `false`, `[]`, `[1]`, `{}`, `1.5`, `1e3`, `-1`, `99999999999999999999`, `-0`}
		for _, x := range vals {
			decode(c, `{"doc":`+x+`}`)
			decode(c, x)
			for _, y := range vals {
				if strings.HasPrefix(x, "{") {
					continue
				}
				decode(c, `{"doc":{"id":`+x+`,"raw":`+y+`},"hits":1}`)
				decode(c, `{"hits":`+x+`,"doc":{"id":`+y+`}}`)
			}
		}
	}})
	us = append(us, codecHistories()...)
	us = append(us, unitsIndexCodec()...)
	return us
}

// codecHistories: every sequence of encodings and decodings; each gives what it
// gives alone, and what earlier ones gave stays as it is.
func codecHistories() []unit {
	long := strings.Repeat("long ", 300)
	results := []v.SearchResult{result("a", "b", 1), result("", "", 0), result("é\"\n", "😀<\u2028", -7), result(long, "c", 3), result("d", long, math.MaxInt)}
	texts := []string{
		`{"hits":5,"doc":{"raw":"r","id":"i"}}`, `{"doc":{"id":"i\u00e9\n"}}`, `{}`, `null`, `{"doc":null,"hits":null}`,
		`{"x":[1,{"y":"` + long + `"}],"hits":9}`, `{"doc":{"raw":"` + long + `"}}`,
		`{"doc":{"id":"A","raw":"B"`, `{"hits":"x"}`, `{"hits":1}}`, `{"doc":{"id":"\ud83d"}}`, `[`,
	}
	type step struct {
		name string
		f    func() (any, error)
	}
	var steps []step
	for _, r := range results {
		steps = append(steps,
			step{fmt.Sprintf("encode %.40v", r), func() (any, error) { return r.MarshalJSON() }},
			step{fmt.Sprintf("easyjson %.40v", r), func() (any, error) { return easyjson.Marshal(r) }})
	}
	for _, t := range texts {
		steps = append(steps, step{fmt.Sprintf("decode %.60s", t), func() (any, error) {
			buf := []byte(t)
			var d v.SearchResult
			err := d.UnmarshalJSON(buf)
			clear(buf)
			return d, err
		}})
	}
	show := func(x any, err error) string {
		b, ok := x.([]byte)
		if ok {
			return fmt.Sprintf("%s, error %v", b, err != nil)
		}
		return fmt.Sprintf("%+v, error %v", x, err != nil)
	}
	var us []unit
	for first := range steps {
		us = append(us, unit{"every sequence of encodings and decodings", func(c *ctx) {
			alone := make([]string, len(steps))
			for i, s := range steps {
				alone[i] = show(s.f())
			}
			idx := make([]int, len(steps))
			for i := range idx {
				idx[i] = i
			}
			for _, l := range seqs(idx, 0, pick(2, 3)) {
				l = append([]int{first}, l...)
				c.eval(true)
				type kept struct {
					x   any
					err error
				}
				var got []kept
				for n, i := range l {
					x, err := steps[i].f()
					got = append(got, kept{x, err})
					for k := range got {
						if g := show(got[k].x, got[k].err); g != alone[l[k]] {
							var names []string
							for _, j := range l[:n+1] {
								names = append(names, steps[j].name)
							}
							c.failed("history", "%s: step %d gave %.200s, alone it gives %.200s", strings.Join(names, "; "), k+1, g, alone[l[k]])
						}
					}
				}
				// the caller may do as it likes with the bytes it got
				for _, k := range got {
					if b, ok := k.x.([]byte); ok {
						for j := range b {
							b[j] = '#'
						}
					}
				}
			}
		}})
	}
	return us
}

// decodeMalformed: only malformed texts have to be told apart here; a changed
// field name may still be accepted by one decoder only (letter case).
func decodeMalformed(c *ctx, s string) {
	if !json.Valid([]byte(s)) {
		decode(c, s)
	}
}

// --- indices -------------------------------------------------------------

func unitsIndexCodec() []unit {
	var us []unit
	voc := []string{"a", "b", "ñ\"", "zz"}
	var queries []string
	for _, q := range seqs(voc, 0, 2) {
		queries = append(queries, strings.Join(q, " "))
	}
	pipe := func(k int) interface{ Tokenize(string) []string } {
		if k == 0 {
			return words{}
		}
		return spanishPipe()
	}
	trip := func(c *ctx, k int, docs []v.DocRequest, qs []string) {
		c.eval(len(docs) > 0)
		mk := func() *v.MemoryIndex {
			if k == 0 {
				return v.NewMemoryIndex("ix", words{})
			}
			return v.NewMemoryIndex("ix", spanishPipe())
		}
		_ = pipe
		ix := mk()
		for _, d := range docs {
			ix.Put(d)
		}
		before := snapshot(ix, voc, qs)
		e, err := json.Marshal(ix)
		if err != nil || !json.Valid(e) {
			c.failed("index encode", "index of %v: %v", docs, err)
		}
		var shape struct {
			Indexed  []refDoc         `json:"indexed"`
			Inverted map[string][]int `json:"inverted"`
		}
		if err := json.Unmarshal(e, &shape); err != nil || len(shape.Indexed) != len(docs) {
			c.failed("index encode", "index of %v is encoded as %s: %v", docs, e, err)
		}
		for i, d := range docs {
			if shape.Indexed[i].ID != d.ID() || shape.Indexed[i].Raw != d.Raw() {
				c.failed("index encode", "index of %v is encoded as %s", docs, e)
			}
		}
		cp := mk()
		buf := append([]byte(nil), e...)
		if err := json.Unmarshal(buf, cp); err != nil {
			c.failed("index decode", "index of %v encoded as %s: %v", docs, e, err)
		}
		for i := range buf {
			buf[i] = '#'
		}
		if g := snapshot(ix, voc, qs); g != before {
			c.failed("index encode", "encoding changed the index of %v: %s", docs, snapDiff(before, g))
		}
		if g := snapshot(cp, voc, qs); g != before {
			c.failed("index decode", "index of %v: the decoded index answers differently: %s", docs, snapDiff(before, g))
		}
		for n := 0; n < 2; n++ { // both accept further documents, independently
			x := v.NewDocRequestWith(fmt.Sprint("more", n), "more", "a zz b")
			cp.Put(x)
			if n == 0 {
				if g := snapshot(ix, voc, qs); g != before {
					c.failed("index decode", "a document put into the decoded index changed the original of %v: %s", docs, snapDiff(before, g))
				}
			}
			ix.Put(x)
			if a, b := snapshot(ix, voc, qs), snapshot(cp, voc, qs); a != b {
				c.failed("index decode", "index of %v: after a further document the decoded index answers differently: %s", docs, snapDiff(a, b))
			}
			before = snapshot(ix, voc, qs)
		}
		if e2, err := json.Marshal(cp); err == nil {
			third := mk()
			if err := json.Unmarshal(e2, third); err != nil || snapshot(third, voc, qs) != before {
				c.failed("index decode", "index of %v: a second round trip loses something (%v)", docs, err)
			}
		} else {
			c.failed("index encode", "index of %v with further documents: %v", docs, err)
		}
		c.sample(func() string { return string(e) })
	}
	ids := []string{"", "X", "Y\"\\\n"}
	texts := []string{"", "a", "b a", "a ñ\" b", "b \u2028 a\x00"}
	var docs []v.DocRequest
	for _, id := range ids {
		for _, t := range texts {
			docs = append(docs, v.NewDocRequest(id, t))
		}
	}
	docs = append(docs, v.NewDocRequestWith("X", "other content", "a b"), v.NewDocRequestWithMime("Y", "b", v.MimeJSON))
	for k := 0; k < 2; k++ {
		us = append(us, unit{"index: every small corpus", func(c *ctx) {
			trip(c, k, nil, queries)
			for _, d := range docs {
				trip(c, k, []v.DocRequest{d}, queries)
			}
		}})
		for _, d := range docs {
			us = append(us, unit{"index: every small corpus", func(c *ctx) {
				for _, x := range docs {
					trip(c, k, []v.DocRequest{d, x}, queries[:8])
					if k == 0 {
						for _, y := range docs {
							trip(c, k, []v.DocRequest{d, x, y}, queries[:4])
						}
					}
				}
			}})
		}
	}
	us = append(us, unit{"index: growing", func(c *ctx) {
		for n := 1; n <= pick(80, 250); n++ {
			var l []v.DocRequest
			for i := 0; i < n; i++ {
				l = append(l, v.NewDocRequest(fmt.Sprint("d", i%(n/2+1)), fmt.Sprintf("a t%d %s", i, strings.Repeat("b ", i%3))))
			}
			trip(c, 0, l, []string{"a", "b a", "t1"})
		}
	}})
	us = append(us, unit{"index: several decoded side by side", func(c *ctx) {
		// decoding in one call does not tie the decoded indices to each other
		for n := 1; n <= 4; n++ {
			c.eval(true)
			ix := v.NewMemoryIndex("ix", words{})
			for i := 0; i < n; i++ {
				ix.Put(v.NewDocRequest("d", "a b"))
			}
			e, _ := json.Marshal(ix)
			x, y := v.NewMemoryIndex("x", words{}), v.NewMemoryIndex("y", words{})
			if json.Unmarshal(e, x) != nil || json.Unmarshal(e, y) != nil {
				c.failed("index decode", "%s: error", e)
			}
			x.Put(v.NewDocRequest("e", "a"))
			if g := y.Search("a", v.HitsSearch); len(g) != n {
				c.failed("index decode", "two indices decoded from %s share documents", e)
			}
			e2, _ := json.Marshal(ix)
			if !bytes.Equal(e, e2) && !sameJSON(e, e2) {
				c.failed("index encode", "encoding twice gives %s and %s", e, e2)
			}
		}
	}})
	return us
}

func sameJSON(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return fmt.Sprint(x) == fmt.Sprint(y)
}

package main

import (
	"fmt"
	"strings"

	v "github.com/sonirico/visigoth"
)

func unitsC19() []unit {
	var us []unit
	us = append(us, unit{"every identifier of up to three bytes", func(c *ctx) {
		seen := make(map[v.HashKey]uint32, 1<<24+1<<17)
		add := func(id []byte) {
			c.eval(true)
			h := v.NewDoc(string(id), "x").Hash()
			n := uint32(len(id)) << 24
			for i, b := range id {
				n |= uint32(b) << (8 * i)
			}
			if o, ok := seen[h]; ok {
				var ob []byte
				for i := 0; i < int(o>>24); i++ {
					ob = append(ob, byte(o>>(8*i)))
				}
				c.failed("collision", "identifiers %q and %q have the same hash", ob, id)
			}
			seen[h] = n
		}
		add(nil)
		for x := 0; x < 256; x++ {
			add([]byte{byte(x)})
			for y := 0; y < 256; y++ {
				add([]byte{byte(x), byte(y)})
				for z := 0; z < 256; z++ {
					add([]byte{byte(x), byte(y), byte(z)})
				}
			}
		}
	}})
	// the same identifier, whatever the content and however obtained
	contents := []string{"", "x", "y", "\x00", "id", "a\xffb", strings.Repeat("long ", 50)}
	same := func(c *ctx, id string) {
		c.eval(true)
		h := v.NewDoc(id, "first").Hash()
		for _, k := range contents {
			d := v.NewDoc(strings.Clone(id), k)
			if d.Hash() != h || (v.Doc{Name: id, Content: k}).Hash() != h || v.NewDoc(id, id).Hash() != h {
				c.failed("content", "identifier %q: the hash depends on the content (%q)", id, k)
			}
			if d.ID() != id || d.Raw() != k {
				c.failed("content", "identifier %q content %q became %q %q", id, k, d.ID(), d.Raw())
			}
		}
		if v.NewDoc(id, "first").Hash() != h {
			c.failed("repetition", "identifier %q: the hash changes when computed again", id)
		}
		var hs v.Hashable = v.NewDoc(id, "other")
		if hs.Hash() != h {
			c.failed("repetition", "identifier %q: the hash differs through the interface", id)
		}
	}
	for x := 0; x < 256; x += 8 {
		us = append(us, unit{"every identifier of up to two bytes with several contents", func(c *ctx) {
			for a := x; a < x+8; a++ {
				same(c, string([]byte{byte(a)}))
				for b := 0; b < 256; b++ {
					same(c, string([]byte{byte(a), byte(b)}))
				}
			}
			if thorough() {
				for a := x; a < x+8; a++ {
					for b := 0; b < 256; b++ {
						for d := 0; d < 256; d++ {
							id := string([]byte{byte(a), byte(b), byte(d)})
							c.eval(true)
							if v.NewDoc(id, "x").Hash() != v.NewDoc(id, "").Hash() {
								c.failed("content", "identifier %q: the hash depends on the content", id)
							}
						}
					}
				}
			}
		}})
	}
	for _, text := range []string{strings.Repeat("ab", 20), "abcabdabe" + strings.Repeat("xyz", 9), strings.Repeat("\x00\xff", 12), "ñandúñandú áéí"} {
		us = append(us, unit{"identifiers cut from one text, one after the other", func(c *ctx) {
			n := len(text)
			want := map[string]v.HashKey{}
			look := func(id string) {
				c.eval(true)
				h := v.NewDoc(id, text).Hash()
				if o, ok := want[id]; ok && o != h {
					c.failed("cut identifiers", "identifier %q, cut from %q: another hash than before", id, text)
				}
				want[strings.Clone(id)] = h
			}
			for i := 0; i <= n; i++ {
				for j := i; j <= n; j++ {
					look(text[i:j])
				}
			}
			for j := n; j >= 0; j-- {
				for i := 0; i <= j; i++ {
					look(text[i:j])
					look(strings.Clone(text[i:j]))
				}
			}
			for i := 0; i+8 <= n; i += 2 {
				for k := 0; k < 8; k++ {
					for l := 0; l < 8; l++ {
						look(text[i : i+k])
						look(text[i : i+l])
					}
				}
			}
			byHash := map[v.HashKey]string{}
			for id, h := range want {
				if len(id) > 3 {
					continue
				}
				if o, ok := byHash[h]; ok {
					c.failed("collision", "identifiers %q and %q, cut from %q, have the same hash", o, id, text)
				}
				byHash[h] = id
			}
		}})
	}
	us = append(us, unit{"long identifiers and contents", func(c *ctx) {
		for n := 0; n <= pick(600, 3000); n++ {
			for _, w := range []string{"a", "ñ", "\xff", "/doc"} {
				same(c, strings.Repeat(w, n))
			}
			id := fmt.Sprint("doc-", n)
			h := v.NewDoc(id, "").Hash()
			c.eval(true)
			for _, k := range []int{0, 1, n, 4096, 70000} {
				if v.NewDoc(id, strings.Repeat("c", k)).Hash() != h {
					c.failed("content", "identifier %q: the hash depends on a content of length %d", id, k)
				}
			}
		}
	}})
	us = append(us, unit{"every pair of identifiers alternating", func(c *ctx) {
		ids := []string{"", "a", "b", "ab", "ba", "a\x00", "\x00", "ñ", "A"}
		ids = append(ids, "12345678", "123456789abcdefgh", strings.Repeat("é", 50))
		first := map[string]v.HashKey{}
		for _, id := range ids {
			first[id] = v.NewDoc(id, "x").Hash()
		}
		for _, l := range seqs(ids, 1, pick(4, 5)) {
			c.eval(true)
			for _, id := range l {
				x := v.NewDoc(id, "x").Hash()
				if x != first[id] || x != v.NewDoc(id, "y").Hash() {
					c.failed("repetition", "hashing %q: the identifier %q has two hashes", l, id)
				}
			}
		}
	}})
	return us
}

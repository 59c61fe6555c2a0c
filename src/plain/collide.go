package main

import (
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"slices"
	"strings"
	"sync"
)

var collisions struct {
	once sync.Once
	l    [][2]string
}

// collidingPairs lists pairs of different words that common short digests do
// not tell apart: whatever identifies words by such a digest treats the two as
// one.
func collidingPairs() [][2]string {
	collisions.once.Do(func() {
		poly := func(m, init uint32) func(string) uint32 {
			return func(s string) uint32 {
				h := init
				for i := 0; i < len(s); i++ {
					h = h*m + uint32(s[i])
				}
				return h
			}
		}
		polyx := func(m, init uint32) func(string) uint32 {
			return func(s string) uint32 {
				h := init
				for i := 0; i < len(s); i++ {
					h = h*m ^ uint32(s[i])
				}
				return h
			}
		}
		castagnoli := crc32.MakeTable(crc32.Castagnoli)
		fns := []func(string) uint32{
			func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() },
			func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() },
			func(s string) uint32 {
				h := fnv.New64a()
				h.Write([]byte(s))
				return uint32(h.Sum64())
			},
			func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) },
			func(s string) uint32 { return crc32.Checksum([]byte(s), castagnoli) },
			func(s string) uint32 { return adler32.Checksum([]byte(s)) },
			poly(31, 0), poly(31, 17), poly(33, 5381), polyx(33, 5381), poly(37, 0), poly(131, 0), poly(65599, 0), poly(17, 0), poly(257, 0),
			func(s string) uint32 { // sum
				h := uint32(0)
				for i := 0; i < len(s); i++ {
					h += uint32(s[i])
				}
				return h
			},
			func(s string) uint32 { // xor
				h := uint32(0)
				for i := 0; i < len(s); i++ {
					h ^= uint32(s[i])
				}
				return h<<8 | uint32(len(s))
			},
			func(s string) uint32 { // length, first and last byte
				return uint32(len(s))<<16 | uint32(s[0])<<8 | uint32(s[len(s)-1])
			},
			func(s string) uint32 { // first bytes only
				return uint32(s[0])<<16 | uint32(s[1])<<8 | uint32(s[2])
			},
			func(s string) uint32 { // last bytes only
				n := len(s)
				return uint32(s[n-1])<<16 | uint32(s[n-2])<<8 | uint32(s[n-3])
			},
		}
		var pool []string
		const letters = "abcdefghijklmnopqrstuvwxyz"
		for _, suffix := range []string{"", "os"} {
			for a := 0; a < 26; a++ {
				for b := 0; b < 26; b++ {
					for c := 0; c < 26; c++ {
						for d := 0; d < 26; d++ {
							pool = append(pool, string([]byte{letters[a], letters[b], letters[c], letters[d]})+suffix)
						}
					}
				}
			}
		}
		for _, a := range "aebmzABMZ_ñ" {
			for _, b := range "aebmzABMZ" + "SsTt" {
				for _, c := range "aeosABCOS" {
					pool = append(pool, string(a)+string(b)+string(c), "w"+string(a)+string(b)+string(c))
				}
			}
		}
		seen := map[[2]string]bool{}
		for _, f := range fns {
			at := make(map[uint32]string, len(pool))
			n := 0
			for _, w := range pool {
				h := f(w)
				if o, ok := at[h]; ok && o != w {
					k := [2]string{o, w}
					if !seen[k] {
						seen[k] = true
						collisions.l = append(collisions.l, k)
						if n++; n >= 8 {
							break
						}
					}
					continue
				}
				at[h] = w
			}
		}
		// words of seven letters
		const few = "aeorsntl"
		long := make([]string, 0, 1<<20)
		for i := 0; i < 1<<20; i++ {
			b := []byte{'p', 0, 0, 0, 0, 0, 0, 'o'}
			x := i
			for j := 1; j < 7; j++ {
				b[j] = few[x&7]
				x >>= 3
			}
			b[0] = "pame"[x&3]
			long = append(long, string(b))
		}
		hs := make([]uint64, len(long))
		for _, f := range fns {
			for i, w := range long {
				hs[i] = uint64(f(w))<<32 | uint64(i)
			}
			slices.Sort(hs)
			n := 0
			for i := 1; i < len(hs) && n < 24; i++ {
				if hs[i]>>32 == hs[i-1]>>32 && (n < 4 || i%7 == 0 || i > len(hs)/2) {
					collisions.l = append(collisions.l, [2]string{long[uint32(hs[i-1])], long[uint32(hs[i])]})
					n++
				}
			}
		}
		// known pairs of other lengths, and long words alike at both ends
		for _, k := range []string{"costarring liquid", "declinate macallums", "altarage zinke", "plumless buckeroo", "hetairas mentioner", "heliotropes neurospora", "Aa BB", "AaAa BBBB", "AaBB BBAa", "hetairas hetairaS"} {
			f := strings.Fields(k)
			collisions.l = append(collisions.l, [2]string{f[0], f[1]})
		}
		for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257} {
			p := strings.Repeat("x", n)
			collisions.l = append(collisions.l, [2]string{p + "casa", p + "mesa"}, [2]string{"casa" + p, "mesa" + p}, [2]string{p + "ca" + p, p + "me" + p}, [2]string{p, p + "x"})
		}
	})
	return collisions.l
}

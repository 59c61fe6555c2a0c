// Package model is the reference model of the repository: maps and lists, one
// call at a time, no locks.
package model

import (
	"fmt"
	"sort"
	"strings"
)

// Op is one repository call.
type Op struct {
	K string `json:"k"`           // put search alias unalias rename drop has hasalias list listaliases string
	A string `json:"a,omitempty"` // index or alias name
	B string `json:"b,omitempty"` // second name
	D string `json:"d,omitempty"` // put: document identifier; search: engine (all, hits, linear, none) or miss
	R int    `json:"r,omitempty"` // repository (scenarios with several)
}

func (o Op) String() string {
	switch o.K {
	case "put":
		return fmt.Sprintf("Put(%q,%s)", o.A, o.D)
	case "search":
		return fmt.Sprintf("Search(%q,%s)", o.A, o.D)
	case "alias":
		return fmt.Sprintf("Alias(%q->%q)", o.A, o.B)
	case "unalias":
		return fmt.Sprintf("UnAlias(%q,%q)", o.A, o.B)
	case "rename":
		return fmt.Sprintf("Rename(%q,%q)", o.A, o.B)
	case "list", "listaliases", "string":
		return o.K + "()"
	}
	return fmt.Sprintf("%s(%q)", o.K, o.A)
}

// OpsString prints a history.
func OpsString(ops []Op) string {
	s := make([]string, len(ops))
	for i, o := range ops {
		s[i] = o.String()
	}
	return strings.Join(s, "; ")
}

// M is the state: documents of each index in insertion order, and the indices
// attached to each alias in order of attachment.
type M struct {
	Idx map[string][]string
	Al  map[string][]string
}

func New() *M { return &M{map[string][]string{}, map[string][]string{}} }

func (m *M) Clone() *M {
	c := New()
	for k, v := range m.Idx {
		c.Idx[k] = append([]string(nil), v...)
	}
	for k, v := range m.Al {
		c.Al[k] = append([]string(nil), v...)
	}
	return c
}

// Resolve gives the indices a name stands for.
func (m *M) Resolve(n string) ([]string, bool) {
	if _, ok := m.Idx[n]; ok {
		return []string{n}, true
	}
	l, ok := m.Al[n]
	return l, ok
}

func without(l []string, x string) []string {
	var r []string
	for _, e := range l {
		if e != x {
			r = append(r, e)
		}
	}
	return r
}

func has(l []string, x string) bool { return len(without(l, x)) != len(l) }

func boolS(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// Any is a result the specification leaves open.
const Any = "*"

// Sorted joins a sorted copy.
func Sorted(l []string) string {
	c := append([]string(nil), l...)
	sort.Strings(c)
	return strings.Join(c, " ")
}

// Aliases renders an alias table: alias and its indices as a multiset.
func Aliases(t map[string][]string) string {
	var r []string
	for k, v := range t {
		r = append(r, fmt.Sprintf("%s=[%s]", k, Sorted(v)))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// Apply performs one call and returns its result.
func (m *M) Apply(o Op) string {
	switch o.K {
	case "put":
		l, ok := m.Resolve(o.A)
		if !ok {
			l = []string{o.A}
		}
		for _, i := range l {
			if o.D == "void" { // an index that takes no documents of this name
				m.Idx[i] = m.Idx[i][:len(m.Idx[i]):len(m.Idx[i])]
				continue
			}
			m.Idx[i] = append(m.Idx[i], o.D)
		}
		return ""
	case "search":
		l, ok := m.Resolve(o.A)
		if !ok {
			return "error"
		}
		if o.D == "miss" || o.D == "none" {
			return "[]" // a word no document contains; the engine that returns nothing
		}
		var r []string
		for _, i := range l {
			if strings.HasPrefix(o.D, "T") { // the words of one kind of text
				for _, d := range m.Idx[i] {
					if strings.HasSuffix(d, o.D[:2]) {
						r = append(r, d)
					}
				}
				continue
			}
			r = append(r, m.Idx[i]...)
		}
		return "[" + Sorted(r) + "]"
	case "alias":
		if _, ok := m.Idx[o.B]; !ok || has(m.Al[o.A], o.B) {
			return "false"
		}
		m.Al[o.A] = append(m.Al[o.A], o.B)
		return "true"
	case "unalias":
		l, ok := m.Al[o.A]
		if o.B == "" {
			delete(m.Al, o.A)
			return boolS(ok)
		}
		if _, iok := m.Idx[o.B]; !iok || !ok {
			return "false"
		}
		if !has(l, o.B) {
			return Any // detaching an index that is not attached: reported either way
		}
		m.detach(o.A, o.B)
		return "true"
	case "rename":
		d, ok := m.Idx[o.A]
		if !ok {
			return "false"
		}
		if o.A == o.B {
			return "true"
		}
		m.Idx[o.B] = d
		delete(m.Idx, o.A)
		for k, l := range m.Al {
			if !has(l, o.A) {
				continue
			}
			var n []string
			for _, e := range l {
				if e == o.A {
					e = o.B
				}
				if !has(n, e) {
					n = append(n, e)
				}
			}
			m.Al[k] = n
		}
		return "true"
	case "drop":
		if _, ok := m.Idx[o.A]; !ok {
			return "false"
		}
		for k := range m.Al {
			m.detach(k, o.A)
		}
		delete(m.Idx, o.A)
		return "true"
	case "has":
		_, ok := m.Idx[o.A]
		return boolS(ok)
	case "hasalias":
		_, ok := m.Al[o.A]
		return boolS(ok)
	case "list":
		return "[" + Sorted(m.Names()) + "]"
	case "listaliases":
		return Aliases(m.Al)
	case "string":
		return Any
	}
	panic("model: unknown op " + o.K)
}

func (m *M) detach(alias, index string) {
	l := without(m.Al[alias], index)
	if len(l) == 0 {
		delete(m.Al, alias)
	} else {
		m.Al[alias] = l
	}
}

func (m *M) Names() []string {
	var r []string
	for k := range m.Idx {
		r = append(r, k)
	}
	return r
}

// Match compares a model result with a real one.
func Match(model, real string) bool { return model == Any || model == real }

// Key is a canonical form of the state.
func (m *M) Key() string {
	var r []string
	for k, v := range m.Idx {
		r = append(r, fmt.Sprintf("%q:%q", k, v))
	}
	for k, v := range m.Al {
		r = append(r, fmt.Sprintf("%q>%q", k, v))
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

// Facts describes everything observable about the state, given the names of
// interest: fact name -> value. Used to compare with the implementation.
func (m *M) Facts(univ []string) map[string]string {
	f := map[string]string{}
	f["list"] = m.Apply(Op{K: "list"})
	f["aliases"] = m.Apply(Op{K: "listaliases"})
	for _, n := range univ {
		f["has:"+n] = m.Apply(Op{K: "has", A: n})
		f["hasalias:"+n] = m.Apply(Op{K: "hasalias", A: n})
		f["search:"+n] = m.Apply(Op{K: "search", A: n, D: "all"})
	}
	return f
}

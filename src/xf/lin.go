package main

import (
	"fmt"
	"strings"

	"github.com/sonirico/visigoth/zz_verif/model"
)

// rec is one completed call of a concurrent run.
type rec struct {
	Op        Op
	Call, Ret int64
	Res, Seq  string
	done      bool

	text, textC string // what String returned and a copy of it
}

// linearize looks for an order of the calls, consistent with real time, whose
// model results equal the observed ones and which ends in the observed facts
// (final may hold a subset of the facts). Results are compared where keep says so.
func linearize(base *model.M, recs []rec, final map[string]string, un []string, keep func(Op) bool) bool {
	n := len(recs)
	used := make([]bool, n)
	var try func(m *model.M, k int) bool
	try = func(m *model.M, k int) bool {
		if k == n {
			mf := m.Facts(un)
			for f, g := range final {
				if w, ok := mf[f]; ok && !model.Match(w, g) {
					return false
				}
			}
			return true
		}
	next:
		for i := range recs {
			if used[i] {
				continue
			}
			for j := range recs {
				if !used[j] && j != i && recs[j].Ret < recs[i].Call {
					continue next
				}
			}
			c := m.Clone()
			r := c.Apply(recs[i].Op)
			if keep(recs[i].Op) && !model.Match(r, recs[i].Res) {
				continue
			}
			used[i] = true
			ok := try(c, k+1)
			used[i] = false
			if ok {
				return true
			}
		}
		return false
	}
	return try(base, 0)
}

func histKey(recs []rec, final map[string]string) string {
	var b strings.Builder
	for i := range recs {
		for j := range recs {
			if recs[i].Ret < recs[j].Call {
				fmt.Fprintf(&b, "%d<%d,", i, j)
			}
		}
		b.WriteString(recs[i].Res)
		b.WriteByte('|')
	}
	b.WriteString(factStr(final))
	return b.String()
}

func histStr(recs []rec) string {
	var b strings.Builder
	for _, r := range recs {
		fmt.Fprintf(&b, "[%d..%d] %s => %s; ", r.Call, r.Ret, r.Op, r.Res)
	}
	return b.String()
}

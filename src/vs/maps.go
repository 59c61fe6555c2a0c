package vs

import (
	"fmt"
	"iter"
	"sort"
)

// MapDesc selects descending instead of ascending iteration order.
var MapDesc bool

// Map iterates over a map in a defined order (Go leaves it unspecified):
// ascending or descending by key. Keys deleted during the iteration are
// skipped, keys added are not visited; both are allowed by the language.
func Map[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range SortedKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// SortedKeys lists the keys in the defined order.
func SortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
	case []int:
		sort.Ints(x)
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
	if MapDesc {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

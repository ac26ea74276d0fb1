package simrt

import (
	"fmt"
	"sort"
)

// MapVisits counts map iterations with more than one entry, and MapShuffled
// those whose order differed from the canonical one.
var MapVisits, MapShuffled int64

// Iter replaces "range m" over a map: the visiting order is a choice of the
// simulator over a canonical base order.
type Iter[K comparable, V any] struct {
	K  K
	V  V
	ks []K
	m  map[K]V
	i  int
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	for k := range m {
		it.ks = append(it.ks, k)
	}
	ks := it.ks
	sortKeys(ks)
	if n := len(ks); n > 1 {
		countVisit()
		moved := false
		for i := 0; i < n-1; i++ {
			j := i + int(Draw(StreamMap, int64(n-i)))
			if j != i {
				moved = true
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		if moved {
			countShuffled()
		}
	}
	return it
}

//go:norace
func countVisit() { MapVisits++ }

//go:norace
func countShuffled() { MapShuffled++ }

func sortKeys[K comparable](ks []K) {
	switch a := any(ks).(type) {
	case []string:
		sort.Strings(a)
	case []int:
		sort.Ints(a)
	case []rune:
		sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	default:
		sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
}

// Next advances to the next entry still present.
func (it *Iter[K, V]) Next() bool {
	for it.i < len(it.ks) {
		k := it.ks[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		it.K, it.V = k, v
		return true
	}
	return false
}

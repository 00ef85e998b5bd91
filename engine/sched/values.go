//go:build go1.21

package sched

import (
	"fmt"
	"sort"
)

// MapIter iterates over a map in a controlled order. The default order is the
// sorted one; other orders are KMap choices.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// Iter replaces "range m".
func Iter[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	it := &MapIter[K, V]{m: map[K]V(m)}
	it.keys = orderedKeys(map[K]V(m))
	return it, k, v
}

func orderedKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sortKeys(keys)
		permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	return keys
}

// Next advances.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue // deleted meanwhile
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		strs := make(map[K]string, len(keys))
		for _, k := range keys {
			strs[k] = fmt.Sprint(k)
		}
		sort.SliceStable(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
	}
}

// permute applies an enumerated order to n sorted items: every permutation for
// n <= 3, otherwise identity, reversal and every rotation.
func permute(n int, swap func(i, j int)) {
	if cur == nil || cur.ex == nil || cur.ex.Bound[KMap] == 0 {
		return
	}
	rev := func(a, b int) {
		for a < b {
			swap(a, b)
			a++
			b--
		}
	}
	if n <= 3 {
		f := 2
		if n == 3 {
			f = 6
		}
		c := Choose(KMap, f)
		if n == 2 {
			if c == 1 {
				swap(0, 1)
			}
			return
		}
		switch c {
		case 1:
			swap(0, 2)
		case 2:
			swap(0, 1)
		case 3:
			swap(1, 2)
		case 4:
			swap(0, 1)
			swap(1, 2)
		case 5:
			swap(0, 1)
			swap(0, 2)
		}
		return
	}
	c := Choose(KMap, n+1)
	switch {
	case c == 0:
	case c == 1:
		rev(0, n-1)
	default: // rotate by c-1 (1..n-1)
		k := c - 1
		rev(0, k-1)
		rev(k, n-1)
		rev(0, n-1)
	}
}

// --- math/rand ---------------------------------------------------------------

var rng uint64

func resetRand() {
	rng = 0x9E3779B97F4A7C15
	RandWeight, RandChoices, RandDraws = 1, 0, 0
}

// RandWeight is the probability of the random choices enumerated since the
// generator was restarted, RandChoices their number, and RandDraws the number
// of random values that were not enumerated.
var (
	RandWeight             float64
	RandChoices, RandDraws int
)

// SeededSources makes the local sources and Seed depend on their seed.
var SeededSources bool

// SeedRand restarts the generator from a seed.
func SeedRand(seed int64) {
	rng = uint64(seed)*0xBF58476D1CE4E5B9 ^ 0x9E3779B97F4A7C15
	if rng == 0 {
		rng = 1
	}
}

func chooseRand(n int) int {
	RandChoices++
	RandWeight /= float64(n)
	return Choose(KRand, n)
}

// RandNext is a deterministic generator, restarted at each execution.
func RandNext() uint64 {
	RandDraws++
	rng ^= rng << 13
	rng ^= rng >> 7
	rng ^= rng << 17
	return rng
}

// RandIntn is an enumerated choice when the range is small and randomness is
// enumerated, and a deterministic value otherwise.
func RandIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if cur != nil && cur.ex != nil && cur.ex.Bound[KRand] != 0 && n <= 64 {
		return chooseRand(n)
	}
	return int(RandNext() % uint64(n))
}

// ShuffleMode selects the default permutation of Shuffle.
var ShuffleMode int

// Shuffle enumerates every permutation when randomness is enumerated; otherwise
// the permutation is fixed by ShuffleMode (0: identity, 1: reversal,
// 2: deterministic pseudo-random).
func Shuffle(n int, swap func(i, j int)) {
	if cur != nil && cur.ex != nil && cur.ex.Bound[KRand] != 0 {
		for i := n - 1; i > 0; i-- {
			// option 0 leaves i in place
			j := i - chooseRand(i+1)
			if j != i {
				swap(i, j)
			}
		}
		return
	}
	switch ShuffleMode {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case 2:
		for i := n - 1; i > 0; i-- {
			j := int(RandNext() % uint64(i+1))
			if j != i {
				swap(i, j)
			}
		}
	}
}

// ResetRand restarts the generator.
func ResetRand() { resetRand() }

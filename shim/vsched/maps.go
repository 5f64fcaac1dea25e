//go:build go1.24

package vsched

import (
	"fmt"
	"sort"
)

// MapReverse makes map iterations run in descending key order.
var MapReverse bool

// Pair is one entry of a map iteration.
type Pair[K comparable, V any] struct {
	K K
	m map[K]V
}

// V is the current value.
func (p Pair[K, V]) V() V { return p.m[p.K] }

// Live reports whether the entry still exists.
func (p Pair[K, V]) Live() bool { _, ok := p.m[p.K]; return ok }

// MapPairs lists a map in a fixed order, so that runs are repeatable.
func MapPairs[M ~map[K]V, K comparable, V any](m M) []Pair[K, V] {
	out := make([]Pair[K, V], 0, len(m))
	ks := make([]string, 0, len(m))
	for k := range m {
		out = append(out, Pair[K, V]{k, m})
		ks = append(ks, fmt.Sprintf("%020v", k))
	}
	sort.Sort(&byKey[K, V]{out, ks})
	return out
}

type byKey[K comparable, V any] struct {
	p []Pair[K, V]
	k []string
}

func (b *byKey[K, V]) Len() int { return len(b.p) }
func (b *byKey[K, V]) Less(i, j int) bool {
	if MapReverse {
		i, j = j, i
	}
	return b.k[i] < b.k[j]
}
func (b *byKey[K, V]) Swap(i, j int) {
	b.p[i], b.p[j] = b.p[j], b.p[i]
	b.k[i], b.k[j] = b.k[j], b.k[i]
}

// ChanLen and ChanCap replace len and cap of channels.
func ChanLen(ch any) int {
	if s == nil {
		return reflectLen(ch)
	}
	sh := shadowOf(ch)
	if sh == nil {
		return 0
	}
	return len(sh.buf)
}

func ChanCap(ch any) int {
	if s == nil {
		return reflectCap(ch)
	}
	sh := shadowOf(ch)
	if sh == nil {
		return 0
	}
	return sh.cap
}

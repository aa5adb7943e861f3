// Package vrt is the controlled runtime that instrumented packages run on: it decides which thread
// runs at every synchronisation operation and in which order maps are visited.
package vrt

import (
	"fmt"
	"sort"
	"sync/atomic"
)

// order is the number of the permutation in which maps are visited (0: sorted keys).
var order atomic.Int64

// SetOrder chooses the order in which instrumented ranges visit maps: 0 is the order of the sorted
// keys, n is the n-th permutation (modulo the number of permutations) of them.
func SetOrder(n int) { order.Store(int64(n)) }

// Entry of a map that is visited.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// V is the present value.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// Has tells whether the entry still exists.
func (e Entry[K, V]) Has() bool { _, ok := e.m[e.K]; return ok }

// Entries of m in the chosen order.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	type ent struct {
		s string
		e Entry[K, V]
	}
	l := make([]ent, 0, len(m))
	for k := range m {
		l = append(l, ent{fmt.Sprintf("%v", k), Entry[K, V]{k, m}})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	n := int(order.Load())
	res := make([]Entry[K, V], 0, len(l))
	for len(l) > 0 {
		i := 0
		if n > 0 {
			i = n % len(l)
			n /= len(l)
		}
		res = append(res, l[i].e)
		l = append(l[:i:i], l[i+1:]...)
	}
	return res
}

// Keys of m in the chosen order.
func Keys[K comparable, V any](m map[K]V) []K {
	l := make([]K, 0, len(m))
	for _, e := range Entries(m) {
		l = append(l, e.K)
	}
	return l
}

// Values of m in the chosen order.
func Values[K comparable, V any](m map[K]V) []V {
	l := make([]V, 0, len(m))
	for _, e := range Entries(m) {
		l = append(l, e.V())
	}
	return l
}

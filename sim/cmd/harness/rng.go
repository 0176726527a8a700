package main

import (
	"hash/fnv"
	"sort"
)

// RNG is the only source of randomness of the harness (splitmix64)
type RNG struct{ s uint64 }

func newRNG(seed uint64) *RNG { return &RNG{seed} }

// seedFor derives the seed of run i of a property
func seedFor(base uint64, prop string, i uint64) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	r := RNG{base*0x9e3779b97f4a7c15 ^ h.Sum64()}
	r.next()
	r.s ^= i * 0xd1342543de82ef95
	return r.next()
}

func (r *RNG) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// between lo and hi, inclusive
func (r *RNG) between(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p is true with probability num/den
func (r *RNG) p(num, den int) bool { return r.n(den) < num }

func (r *RNG) pick(ss []string) string { return ss[r.n(len(ss))] }

// weighted picks an index by weight
func (r *RNG) weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= 0xff
	h *= 1099511628211
	return h
}

func hashInt(h uint64, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	return h
}

const hash0 = 14695981039346656037

func sortStrings(ss []string) { sort.Strings(ss) }

// Package pbt is the property-testing engine: seeded generation, cases as data,
// shrinking, and the linearizability checker. It does not import the code under test.
package pbt

import "math/bits"

// Rng is a splitmix64 generator; every random choice of a case comes from one.
type Rng struct{ s uint64 }

func Mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

// NewRng derives an independent stream from the given numbers.
func NewRng(xs ...uint64) *Rng {
	h := uint64(0x1234567)
	for _, x := range xs {
		h = Mix(h ^ Mix(x))
	}
	return &Rng{h}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

// N is uniform in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// In is uniform in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

// Geo is geometric: number of successes (probability num/den) before the first failure.
func (r *Rng) Geo(num, den, max int) int {
	k := 0
	for k < max && r.P(num, den) {
		k++
	}
	return k
}

// W picks an index with the given weights.
func (r *Rng) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := r.N(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

// Package mon is the monitoring framework: deterministic workloads, the
// boundary at which calls into libsv are observed, and the bookkeeping of what
// was observed.
package mon

import "math/bits"

// R is a splitmix64 generator. Every case has its own, seeded from the run's
// seed, the property, the stage and the index of the case.
type R struct {
	s   uint64
	rec *recorder

	// Fixed asks generators for the same values whatever libsv's source says.
	Fixed bool
}

func NewR(parts ...uint64) *R {
	r := &R{s: 0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= mix(p + r.s)
		r.s += 0x9e3779b97f4a7c15
	}
	return r
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *R) U64() uint64 {
	if r.rec != nil {
		return r.next(0)
	}
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

func (r *R) U32() uint32 { return uint32(r.U64() >> 32) }

// N returns a number in [0, n).
func (r *R) N(n int) int {
	var v uint64
	if r.rec != nil {
		v = r.next(uint64(n))
	} else {
		v = r.U64()
	}
	hi, _ := bits.Mul64(v, uint64(n))
	return int(hi)
}

// In returns a number in [lo, hi].
func (r *R) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

func (r *R) Bool() bool     { return r.U64()&1 == 0 }
func (r *R) P(pct int) bool { return r.N(100) < pct }

func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Fill(b)
	return b
}

func (r *R) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.U64()
		for k := i; k < len(b) && k < i+8; k++ {
			b[k] = byte(v)
			v >>= 8
		}
	}
}

func Pick[T any](r *R, xs ...T) T { return xs[r.N(len(xs))] }

// Perm is a random permutation of 0..n-1.
func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Hash64 is FNV-1a with a final mix.
func Hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return mix(h)
}

func HashStr(s string) uint64 { return Hash64([]byte(s)) }

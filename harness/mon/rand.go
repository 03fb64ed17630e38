package mon

import "math/bits"

// Rand is a small deterministic generator (xoshiro256**), seeded per case so
// that every case can be replayed on its own.
type Rand struct{ s [4]uint64 }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewRand(seed uint64) *Rand {
	r := &Rand{}
	for i := range r.s {
		r.s[i] = splitmix(&seed)
	}
	return r
}

func (r *Rand) U64() uint64 {
	s := &r.s
	res := bits.RotateLeft64(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = bits.RotateLeft64(s[3], 45)
	return res
}

// N returns a value in [0, n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// In returns a value in [lo, hi].
func (r *Rand) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

func (r *Rand) Bool() bool       { return r.U64()&(1<<40) != 0 }
func (r *Rand) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

// Size returns a length biased to small values but reaching max.
func (r *Rand) Size(max int) int {
	switch r.N(6) {
	case 0:
		return r.N(min(3, max+1))
	case 1, 2:
		return r.N(min(9, max+1))
	case 3, 4:
		return r.N(min(40, max+1))
	}
	return r.N(max + 1)
}

// Word returns a 64-bit pattern biased to boundaries: small magnitudes,
// powers of two and their neighbours, runs of ones, sparse bits, random.
func (r *Rand) Word() uint64 {
	var v uint64
	switch r.N(9) {
	case 0:
		v = uint64(r.N(4))
	case 1:
		v = uint64(r.N(300))
	case 2:
		v = 1 << r.N(64)
	case 3:
		v = 1<<r.N(64) - 1
	case 4:
		v = ^uint64(0) << r.N(64)
	case 5:
		v = 1<<r.N(64) | 1<<r.N(64)
	case 6:
		v = r.U64() >> r.N(64)
	case 7:
		v = r.U64()
	case 8:
		v = uint64(1) << 63
	}
	switch r.N(6) {
	case 0:
		v++
	case 1:
		v--
	case 2:
		v = -v
	}
	return v
}

func Pick[T any](r *Rand, xs ...T) T { return xs[r.N(len(xs))] }

func Shuffle[T any](r *Rand, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

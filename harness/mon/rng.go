package mon

import "math/bits"

// Rng is a small deterministic generator (xoshiro256**). It is not
// math/rand so that a case depends on its seed alone, in every Go version.
type Rng struct {
	s    [4]uint64
	Hook func() // see Call
}

// Call calls the hook if there is one: workloads do that in the functions they
// give to the library.
func (r *Rng) Call() {
	if r.Hook != nil {
		r.Hook()
	}
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewRng returns a generator for the given seed.
func NewRng(seed uint64) *Rng {
	r := &Rng{}
	for i := range r.s {
		r.s[i] = splitmix(&seed)
	}
	return r
}

// Uint64 returns 64 random bits.
func (r *Rng) Uint64() uint64 {
	s := &r.s
	res := bits.RotateLeft64(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = bits.RotateLeft64(s[3], 45)
	return res
}

// Intn returns a number in [0, n); 0 if n <= 0.
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	hi, _ := bits.Mul64(r.Uint64(), uint64(n))
	return int(hi)
}

// Range returns a number in [lo, hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Bool returns true with probability 1/2.
func (r *Rng) Bool() bool { return r.Uint64()>>63 == 1 }

// Chance returns true with probability num/den.
func (r *Rng) Chance(num, den int) bool { return r.Intn(den) < num }

// Perm returns a random permutation of [0, n).
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Weighted returns an index with probability proportional to its weight.
func (r *Rng) Weighted(w []int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := r.Intn(sum)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return len(w) - 1
}

// Mix hashes a and b.
func Mix(a, b uint64) uint64 {
	x := a ^ bits.RotateLeft64(b*0x9e3779b97f4a7c15, 31)
	return splitmix(&x)
}

// HashStr hashes s.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

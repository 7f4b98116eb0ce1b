package tm

import "math/bits"

// Rng is a splitmix64 generator; every case owns one, derived from the seed,
// the property and the case number, so that a case replays on its own.
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{s: 0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= mix(p + 0x9e3779b97f4a7c15 + r.s<<6 + r.s>>2)
		r.U64()
	}
	return r
}

func mix(z uint64) uint64 {
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// P is true with probability 1 in n... percent.
func (r *Rng) P(percent int) bool { return r.N(100) < percent }

func (r *Rng) Between(a, b int) int { return a + r.N(b-a+1) }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}

// Edge returns a 64-bit pattern biased towards boundaries of every width.
func (r *Rng) Edge() uint64 {
	switch r.N(7) {
	case 0:
		return uint64(r.N(4))
	case 1:
		return ^uint64(0) - uint64(r.N(3))
	case 2, 3:
		x := uint64(1) << uint(r.N(64))
		switch r.N(3) {
		case 0:
			return x - 1
		case 1:
			return x + 1
		}
		return x
	case 4: // negative powers of two, sign extended
		return -(uint64(1) << uint(r.N(64))) + uint64(r.N(3)) - 1
	case 5:
		return r.U64() >> uint(r.N(64))
	}
	return r.U64()
}

// Perm is a random order of 0 to n-1.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i], p[j] = p[j], i
	}
	return p
}

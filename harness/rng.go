package main

// Rng is a splitmix64 generator: every choice of a case is a function of
// (seed, property, sub-workload, case index), so that a case replays alone.
type Rng struct{ s uint64 }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a number in [lo,hi].
func (r *Rng) R(lo, hi int) int        { return lo + r.N(hi-lo+1) }
func (r *Rng) Bool() bool              { return r.U64()&1 == 1 }
func (r *Rng) P(num, den int) bool     { return r.N(den) < num }
func (r *Rng) Byte() byte              { return byte(r.U64()) }
func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }
func (r *Rng) Bytes(n int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = r.Byte()
	}
	return p
}

func hash64(ss ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xFF) * 1099511628211
	}
	return h
}

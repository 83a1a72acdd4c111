// Package simkit is the deterministic simulation kernel: seeded randomness, traces,
// execution with violation capture, minimisation, replay, worker processes and evidence.
package simkit

// Rng is the simulator's only source of choices (never math/rand, which belongs
// to the code under test).
type Rng struct{ s uint64 }

// Mix derives a seed from several integers.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		h ^= x
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

// HashStr derives a seed from a string.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0, n); 0 if n <= 0.
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Between returns a number in [lo, hi].
func (r *Rng) Between(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.F() < p }

// Pick returns one of the given strings.
func (r *Rng) Pick(xs ...string) string { return xs[r.Intn(len(xs))] }

// Weighted returns an index with probability proportional to its weight.
func (r *Rng) Weighted(w []int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := r.Intn(sum)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

// Perm returns a permutation of 0..n-1.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

package h

// Rng is the generator every choice of a run is drawn from.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

// Derive mixes several numbers into a seed.
func Derive(xs ...uint64) uint64 {
	h := uint64(0x243F6A8885A308D3)
	for _, x := range xs {
		h ^= x + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		r := Rng{h}
		h = r.U64()
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Between returns a number in [a, b].
func (r *Rng) Between(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }

func (r *Rng) PickI(s ...int) int { return s[r.N(len(s))] }

func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}

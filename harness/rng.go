package main

// RNG is splitmix64: tiny, fast, and reproducible from a single word.
type RNG struct{ s uint64 }

func NewRNG(parts ...uint64) *RNG {
	r := &RNG{0x9E3779B97F4A7C15}
	for _, p := range parts {
		r.s ^= p
		r.U64()
		r.s = r.s*0xD1342543DE82EF95 + p
		r.U64()
	}
	return r
}

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) Bool() bool          { return r.U64()&1 == 1 }
func (r *RNG) P(num, den int) bool { return r.Intn(den) < num }
func (r *RNG) Range(a, b int) int  { return a + r.Intn(b-a+1) }
func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 17)
	}
	return b
}
func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

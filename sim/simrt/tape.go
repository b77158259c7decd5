package simrt

import "math/bits"

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.Uint64(), uint64(n))
	return int(hi)
}

func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// Mix derives a seed from parts.
func Mix(parts ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		h ^= p
		r := Rand{h}
		h = r.Uint64()
	}
	return h
}

// HashString is FNV-1a.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Tape is a sequence of bounded choices.  Generating, it draws from its
// generator and records; replaying, it repeats the recorded values and yields
// 0 (the benign choice) past their end.
type Tape struct {
	Rng    *Rand
	Replay bool
	vals   []uint32
	pos    int
	Rec    []uint32
}

func NewTape(seed uint64) *Tape { return &Tape{Rng: NewRand(seed)} }

func ReplayTape(vals []uint32) *Tape {
	return &Tape{Rng: NewRand(1), Replay: true, vals: vals}
}

// Draw returns a choice in [0,n).  gen, if not nil, picks it when generating.
func (t *Tape) Draw(n int, gen func(r *Rand) int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if t.Replay {
		if t.pos < len(t.vals) {
			v = int(t.vals[t.pos])
			if v >= n {
				v = v % n
			}
		}
		t.pos++
	} else if gen != nil {
		v = gen(t.Rng)
	} else {
		v = t.Rng.Intn(n)
	}
	t.Rec = append(t.Rec, uint32(v))
	return v
}

// Int draws uniformly from [0,n).
func (t *Tape) Int(n int) int { return t.Draw(n, nil) }

// Bool is true with probability p; false is the benign choice.
func (t *Tape) Bool(p float64) bool {
	return t.Draw(2, func(r *Rand) int {
		if r.Float() < p {
			return 1
		}
		return 0
	}) == 1
}

// Range draws from [lo,hi].
func (t *Tape) Range(lo, hi int) int { return lo + t.Int(hi-lo+1) }

// Weighted draws an index with the given weights; 0 is the benign choice.
func (t *Tape) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	return t.Draw(len(w), func(r *Rand) int {
		k := r.Intn(sum)
		for i, x := range w {
			if k < x {
				return i
			}
			k -= x
		}
		return 0
	})
}

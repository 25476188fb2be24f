// Package eng is a small property-based testing engine: choice-sequence
// generators with replay and shrinking, exhaustive suites, parallel runs that
// are a pure function of the code and the seed, and a supervisor which turns
// crashes, hangs and memory blow-ups of the code under test into replayable
// failures.
package eng

// Src is the only source of randomness of a generator. Every decision is a
// choice in [0,n); 0 is the simplest one, so shrinking lowers and deletes
// choices.
type Src struct {
	state  uint64
	replay []uint32
	pos    int
	isRep  bool
	Rec    []uint32
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewSrc makes a random source for one case.
func NewSrc(seed uint64, name string, index uint64) *Src {
	h := uint64(14695981039346656037)
	for i := 0; i < len(name); i++ {
		h ^= uint64(name[i])
		h *= 1099511628211
	}
	st := seed*0x9e3779b97f4a7c15 ^ h
	splitmix(&st)
	st ^= index * 0xd1342543de82ef95
	splitmix(&st)
	return &Src{state: st}
}

// ReplaySrc replays recorded choices.
func ReplaySrc(ch []uint32) *Src { return &Src{replay: ch, isRep: true} }

// Intn is a choice in [0,n).
func (s *Src) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			s.pos++
		}
		if v >= uint32(n) {
			v = uint32(n - 1)
		}
	} else {
		v = uint32(splitmix(&s.state) % uint64(n))
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// Range is a choice in [lo,hi].
func (s *Src) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.Intn(hi-lo+1)
}

// Prob is true in pct percent of the cases (false is the simple choice).
func (s *Src) Prob(pct int) bool {
	return s.Intn(100) >= 100-pct
}

// Rare is true in one of n cases (false is the simple choice).
func (s *Src) Rare(n int) bool {
	return s.Intn(n) == n-1
}

// Weighted picks an alternative, the first one being the simplest.
func (s *Src) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.Intn(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Pick chooses one element.
func Pick[T any](s *Src, a []T) T { return a[s.Intn(len(a))] }

// Perm is a permutation of [0,n) (identity is the simplest).
func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.Intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Size draws a length in [lo,hi] with small values preferred.
func (s *Src) Size(lo, hi int) int {
	switch s.Weighted(70, 25, 5) {
	case 0:
		m := lo + (hi-lo)/4
		if m == lo && hi > lo {
			m = lo + 1
		}
		return s.Range(lo, m)
	case 1:
		return s.Range(lo, lo+(hi-lo)/2)
	default:
		return s.Range(lo, hi)
	}
}

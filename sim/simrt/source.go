package simrt

// Source is a recorded sequence of choices. Fresh sources draw from a PRNG;
// replayed sources repeat recorded values and then answer 0, the simplest choice.
type Source struct {
	Vals   []uint32
	pos    int
	state  uint64
	replay bool
}

// NewSource returns a source drawing from a PRNG seeded with seed.
func NewSource(seed uint64) *Source { return &Source{state: seed} }

// ReplaySource returns a source repeating vals.
func ReplaySource(vals []uint32) *Source { return &Source{Vals: vals, replay: true} }

// Mix derives a new seed.
func Mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Source) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Replaying reports whether the source repeats recorded choices.
func (s *Source) Replaying() bool { return s.replay }

// Used returns the number of choices drawn so far.
func (s *Source) Used() int { return s.pos }

// N draws a number in [0,n).
func (s *Source) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(uint32(n), 0))
}

// draw returns a value in [0,n). In fresh mode values below lo are never drawn,
// so that 0..lo-1 can stand for choices only the minimiser makes.
func (s *Source) draw(n, lo uint32) uint32 {
	var v uint32
	if s.replay {
		if s.pos < len(s.Vals) {
			v = s.Vals[s.pos] % n
		}
		s.pos++
		return v
	}
	v = lo + uint32(s.next()%uint64(n-lo))
	s.Vals = append(s.Vals, v)
	s.pos++
	return v
}

// Bool draws true with probability num/den; false is the simplest choice.
func (s *Source) Bool(num, den int) bool {
	if num <= 0 {
		return false
	}
	// true is represented by the high values so that 0 means false
	return s.N(den) >= den-num
}

// Range draws a number in [lo,hi].
func (s *Source) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Pick draws an index weighted by w; index 0 is the simplest choice.
func (s *Source) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

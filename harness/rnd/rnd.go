// Package rnd provides random sources controlled by a harness.
package rnd

import "github.com/mmcloughlin/trunnel/vfw/vf"

// Source implements the random interface on top of a function giving 64 bits.
type Source struct {
	next func() uint64
	any  bool
	n    int
	max  int

	// Short takes bounded numbers up to 20 from the smallest and largest
	// ones, for the first few; Few leaves out the largest.
	Short, Few bool
	short      int

	// With a Width only the wide values From..From+Width-1 are arbitrary, and
	// there is no limit to their number.
	From, Width int
	wide        int

	// Free is the number of payload bytes of a fixed sequence that are
	// arbitrary.
	Free int
}

// Fix makes the source a fixed sequence from now on.
func (s *Source) Fix() {
	if s.any {
		s.any, s.max, s.next = false, 0, Seq(1, 0).next
	}
}

// Any is a source whose every outcome is possible; a path that asks for more
// than max values is abandoned.
func Any(max int) *Source {
	return &Source{any: true, max: max, next: Seq(2, 0).next}
}

// Seq is a fixed pseudo-random sequence.
func Seq(seed uint64, max int) *Source {
	s := &Source{max: max}
	x := seed
	s.next = func() uint64 {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31
	}
	return s
}

// Draws is the number of values handed out.
func (s *Source) Draws() int { return s.n }

func (s *Source) count() {
	s.n++
	if s.max > 0 && s.n > s.max {
		if s.any {
			vf.Stop()
		}
		vf.Fail("bounded number of draws")
	}
}

// Seed does nothing.
func (s *Source) Seed(int64) {}

// Uint64 is 64 random bits.
func (s *Source) Uint64() uint64 {
	s.count()
	if s.any && s.Width == 0 {
		return vf.U64("rnd")
	}
	if s.any {
		k := s.wide - s.From
		s.wide++
		if k >= 0 && k < s.Width {
			return vf.U64("rnd")
		}
	}
	return s.next()
}

// Int63 is 63 random bits.
func (s *Source) Int63() int64 { return int64(s.Uint64() >> 1) }

// Uint32 is 32 random bits.
func (s *Source) Uint32() uint32 { return uint32(s.Uint64() >> 32) }

// Int31 is 31 random bits.
func (s *Source) Int31() int32 { return int32(s.Uint64() >> 33) }

// Int is a nonnegative int.
func (s *Source) Int() int { return int(s.Int63()) }

// Int63n is below n.
func (s *Source) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	s.count()
	if s.any && s.Short && n <= 20 {
		s.short++
		if s.short > 2 {
			return int64(s.short) % 2 % n
		}
		k := 3
		if s.Few {
			k = 2
		}
		if n < int64(k) {
			k = int(n)
		}
		c := int64(vf.Choose("rnds", k))
		if c == 2 {
			c = n - 1
		}
		return c
	}
	if s.any {
		v := vf.I64("rndn")
		vf.Assume(v >= 0)
		vf.Assume(v < n)
		return v
	}
	return int64(s.next() >> 1 % uint64(n))
}

// Int31n is below n.
func (s *Source) Int31n(n int32) int32 { return int32(s.Int63n(int64(n))) }

// Intn is below n.
func (s *Source) Intn(n int) int { return int(s.Int63n(int64(n))) }

// Float64 is in [0,1).
func (s *Source) Float64() float64 { return 0.5 }

// Float32 is in [0,1).
func (s *Source) Float32() float32 { return 0.5 }

// NormFloat64 is a constant.
func (s *Source) NormFloat64() float64 { return 0 }

// ExpFloat64 is a constant.
func (s *Source) ExpFloat64() float64 { return 1 }

// Perm is a permutation.
func (s *Source) Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	s.Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

// Shuffle permutes.
func (s *Source) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		var j int
		if s.any {
			j = vf.Choose("perm", i+1)
		} else {
			j = s.Intn(i + 1)
		}
		swap(i, j)
	}
}

// Read fills p.
func (s *Source) Read(p []byte) (int, error) {
	for i := range p {
		if s.any || s.Free > 0 {
			p[i] = vf.Byte("rndb")
			s.Free--
		} else {
			p[i] = byte(s.next())
		}
	}
	s.count()
	return len(p), nil
}

// Tape remembers what a source gave and gives it again.
type Tape struct {
	*Source
	vals []uint64
	pos  int
}

// Record makes a tape of a source.
func Record(s *Source) *Tape { return &Tape{Source: s} }

// Again starts over.
func (t *Tape) Again() { t.pos = 0 }

func (t *Tape) get(f func() uint64) uint64 {
	if t.pos == len(t.vals) {
		t.vals = append(t.vals, f())
	}
	t.pos++
	return t.vals[t.pos-1]
}

// Uint64 is 64 random bits.
func (t *Tape) Uint64() uint64 { return t.get(t.Source.Uint64) }

// Int63 is 63 random bits.
func (t *Tape) Int63() int64 { return int64(t.Uint64() >> 1) }

// Uint32 is 32 random bits.
func (t *Tape) Uint32() uint32 { return uint32(t.Uint64() >> 32) }

// Int31 is 31 random bits.
func (t *Tape) Int31() int32 { return int32(t.Uint64() >> 33) }

// Int is a nonnegative int.
func (t *Tape) Int() int { return int(t.Int63()) }

// Int63n is below n.
func (t *Tape) Int63n(n int64) int64 {
	v := int64(t.get(func() uint64 { return uint64(t.Source.Int63n(n)) }))
	if v < 0 || v >= n {
		return 0
	}
	return v
}

// Int31n is below n.
func (t *Tape) Int31n(n int32) int32 { return int32(t.Int63n(int64(n))) }

// Intn is below n.
func (t *Tape) Intn(n int) int { return int(t.Int63n(int64(n))) }

// Read fills p.
func (t *Tape) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(t.get(func() uint64 {
			var b [1]byte
			_, _ = t.Source.Read(b[:])
			return uint64(b[0])
		}))
	}
	return len(p), nil
}

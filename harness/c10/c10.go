// Package c10 checks random draws from integer sets.
package c10

import (
	"github.com/mmcloughlin/random"
	"github.com/mmcloughlin/trunnel/internal/intervals"
	"github.com/mmcloughlin/trunnel/vfw/rnd"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c10.Member", F: Member, Quick: []int{1, 2, 3}, Full: []int{1, 2, 3, 4}, Reach: []string{"drawn", "wide"}})
	vf.Add(vf.Spec{Name: "c10.Subtracted", F: Subtracted, Quick: []int{0, 1}})
	vf.Add(vf.Spec{Name: "c10.Finishes", F: Finishes, Quick: []int{1, 2}, Full: []int{1, 2, 3, 11, 12, 21, 22}, Ends: true, MaxSteps: 4000000})
	vf.Add(vf.Spec{Name: "c10.Covers", F: Covers, Quick: goals(), Cover: []string{"member drawn"}, Sampler: "c10.Sample"})
	vf.Add(vf.Spec{Name: "c10.Sample", F: Sample})
	vf.Add(vf.Spec{Name: "c10.Many", F: Many, Quick: []int{20, 70, 270}, Reach: []string{"first", "last"}})
	vf.Add(vf.Spec{Name: "c10.Default", F: Default, Quick: []int{1, 2}})
}

// some makes n disjoint ascending intervals.
func some(n int) ([]intervals.Interval, func(uint64) bool) {
	var is []intervals.Interval
	var lo, hi []uint64
	for i := 0; i < n; i++ {
		l, h := vf.U64("lo"), vf.U64("hi")
		vf.Assume(l <= h)
		if i > 0 {
			vf.Assume(hi[i-1] < l)
		}
		lo, hi = append(lo, l), append(hi, h)
		is = append(is, intervals.Range(l, h))
	}
	return is, func(x uint64) bool {
		r := false
		for i := range lo {
			r = vf.Or(r, vf.And(lo[i] <= x, x <= hi[i]))
		}
		return r
	}
}

// Member: whatever is drawn lies in the set.
func Member(n int) {
	is, has := some(n)
	s := intervals.NewSet(is...)
	x := s.RandomWithGenerator(rnd.Any(4))
	vf.Reach("drawn")
	if x > 1<<63 {
		vf.Reach("wide")
	}
	vf.Assert(has(x), "drawn value is a member")
	vf.Observe("x", x)
}

// Many: whatever is drawn from a set of n intervals lies in the set.
func Many(n int) {
	var is []intervals.Interval
	var lo, hi []uint64
	for i := 0; i < n; i++ {
		l := 100*uint64(i) + 3
		h := l + uint64(i*i%17)
		is, lo, hi = append(is, intervals.Range(l, h)), append(lo, l), append(hi, h)
	}
	x := intervals.NewSet(is...).RandomWithGenerator(rnd.Any(2))
	in := false
	for i := range lo {
		in = vf.Or(in, vf.And(lo[i] <= x, x <= hi[i]))
	}
	vf.Assert(in, "drawn value is a member")
	if x == lo[0] {
		vf.Reach("first")
	}
	if x == hi[n-1] {
		vf.Reach("last")
	}
	vf.Observe("x", x)
}

// Subtracted: draws from a difference of sets.
func Subtracted(k int) {
	n := uint(8)
	if k == 1 {
		n = 64
	}
	l, h := vf.U64("lo"), vf.U64("hi")
	vf.Assume(l <= h)
	max := ^uint64(0) >> (64 - n)
	vf.Assume(h <= max)
	vf.Assume(vf.Or(l > 0, h < max))
	s := intervals.IntType(n)
	s.Subtract(intervals.NewSet(intervals.Range(l, h)))
	x := s.RandomWithGenerator(rnd.Any(4))
	vf.Assert(vf.And(x <= max, vf.Or(x < l, x > h)), "drawn value is a member of the difference")
	vf.Observe("x", x)
}

// Default: the variant with its own source.
func Default(n int) {
	is, has := some(n)
	random.Hook = func(int64, bool) random.Interface { return rnd.Any(4) }
	x := intervals.NewSet(is...).Random()
	random.Hook = nil
	vf.Assert(has(x), "drawn value is a member")
	vf.Observe("x", x)
}

// Finishes: with a fair sequence drawing takes boundedly many numbers,
// whatever the set. The argument is 10*sequence + number of intervals.
func Finishes(k int) {
	is, has := some(k % 10)
	src := rnd.Seq(uint64(k/10)*977+5, 400)
	x := intervals.NewSet(is...).RandomWithGenerator(src)
	vf.Assert(has(x), "drawn value is a member")
	vf.Observe("x", x)
}

const top = ^uint64(0)

// sets with boundary values; every listed member must be reachable.
var sets = [][]uint64{
	{0, 0}, {5, 5}, {top, top}, {0, 1}, {top - 1, top}, {0, 2}, {3, 6}, {7, 14}, {0, 255}, {1, 256}, {256, 65535},
	{0, top}, {1, top}, {0, top - 1}, {0, 1<<63 - 1}, {0, 1 << 63}, {1 << 63, top}, {1<<63 - 1, 1 << 63},
	{0, 0, 2, 2}, {1, 3, 5, 5}, {0, 0, top, top}, {0, 1<<63 - 1, 1<<63 + 1, top}, {0, 6, 8, 255}, {10, 20, 30, 33},
	{0, 0, 2, 2, 4, 4}, {1, 2, 4, 8, 16, 32}, {0, 99, 200, 200, 1 << 32, 1<<32 + 5}, {5, 5, 1 << 40, 1 << 41, top - 9, top},
	{0, 4294967295}, {0, 4294967296}, {0, 1<<33 - 1}, {1, 1}, {2, 3, 5, 8, 13, 21},
	{1, 1, 3, 3, 5, 5, 7, 7, 9, 9, 11, 11, 13, 13, 15, 15, 17, 17, 19, 19, 21, 21}, {0, 9, 20, 21, 30, 30, 50, 65, 80, 80, 1000, 1003, 1 << 40, 1 << 40, top, top},
	{0, 9, 10, 19}, {100, 199, 200, 200}, {0, 127, 128, 255},
}

func members(s []uint64) []uint64 {
	var m []uint64
	add := func(x uint64) {
		for _, y := range m {
			if y == x {
				return
			}
		}
		m = append(m, x)
	}
	for i := 0; i < len(s); i += 2 {
		lo, hi := s[i], s[i+1]
		add(lo)
		add(hi)
		add(lo + (hi-lo)/2)
		if hi-lo > 3 {
			add(lo + 1)
			add(hi - 1)
			add(lo + (hi-lo)/3)
		}
	}
	return m
}

func goals() []int {
	var out []int
	for i, s := range sets {
		for k := range members(s) {
			out = append(out, i*100+k)
		}
	}
	return out
}

func goal(k int) (*intervals.Set, []uint64, uint64) {
	s := sets[k/100]
	var is []intervals.Interval
	for i := 0; i < len(s); i += 2 {
		is = append(is, intervals.Range(s[i], s[i+1]))
	}
	return intervals.NewSet(is...), s, members(s)[k%100]
}

// Covers: a given member of a given set can be drawn.
func Covers(k int) {
	s, _, want := goal(k)
	x := s.RandomWithGenerator(rnd.Any(4))
	if x == want {
		vf.Reach("member drawn")
	}
}

// Sample confirms natively that a member of a small set is never drawn.
func Sample(k int) {
	s, b, want := goal(k)
	n := uint64(0)
	for i := 0; i < len(b); i += 2 {
		n += b[i+1] - b[i] + 1
		if b[i+1]-b[i] > 1000 {
			vf.Fail("not decided by sampling")
		}
	}
	src := rnd.Seq(1, 0)
	for i := 0; i < 400*int(n); i++ {
		if s.RandomWithGenerator(src) == want {
			return
		}
	}
	vf.Fail("member never drawn")
}

// Package c09 checks the interval algebra against sets of 64-bit integers.
package c09

import (
	"strconv"

	"github.com/mmcloughlin/trunnel/internal/intervals"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c09.Basics", F: Basics, Quick: []int{0}, Reach: []string{"single", "wide", "full"}})
	vf.Add(vf.Spec{Name: "c09.Builders", F: Builders, Quick: vf.Range(0, 64)})
	vf.Add(vf.Spec{Name: "c09.BadRange", F: BadRange, Quick: []int{0}})
	vf.Add(vf.Spec{Name: "c09.OverlapsSimplify", F: OverlapsSimplify, Quick: vf.Range(0, 3), Full: vf.Range(0, 4), Reach: []string{"overlap", "disjoint"}})
	vf.Add(vf.Spec{Name: "c09.SubtractSets", F: SubtractSets, Quick: []int{0, 1, 2, 10, 11, 12, 20, 21}, Full: []int{0, 1, 2, 10, 11, 12, 20, 21, 22, 13, 31}, Reach: []string{"kept", "removed"}})
	vf.Add(vf.Spec{Name: "c09.SubtractTwice", F: SubtractTwice, Quick: []int{1}, Full: []int{1, 2}})
	vf.Add(vf.Spec{Name: "c09.Text", F: Text, Quick: vf.Range(0, 3), Full: vf.Range(0, 8), Reach: []string{"single", "range"}})
	vf.Add(vf.Spec{Name: "c09.SetText", F: SetText, Quick: vf.Range(0, 2), Full: vf.Range(0, 3), MaxPaths: 20000})
	vf.Add(vf.Spec{Name: "c09.Many", F: Many, Quick: vf.Range(0, 3*len(sizes)-4), Full: vf.Range(0, 3*len(sizes)-1), Reach: []string{"overlap", "disjoint"}})
	vf.Add(vf.Spec{Name: "c09.Deep", F: Deep, Quick: []int{40, 140}, Full: []int{40, 140, 300, 700}, Reach: []string{"in", "out"}, MaxPaths: 3000})
	vf.Add(vf.Spec{Name: "c09.Long", F: Long, Quick: []int{30, 70, 140}, Full: []int{30, 70, 140, 300}, Reach: []string{"overlap", "disjoint"}, MaxPaths: 9000})
	vf.Add(vf.Spec{Name: "c09.Apart", F: Apart, Quick: vf.Range(1, 3)})
}

type iv struct{ lo, hi uint64 }

func anyInterval(name string) iv {
	lo, hi := vf.U64(name+".lo"), vf.U64(name+".hi")
	vf.Assume(lo <= hi)
	return iv{lo, hi}
}

func (i iv) has(x uint64) bool { return vf.And(i.lo <= x, x <= i.hi) }

func hasAny(is []iv, x uint64) bool {
	r := false
	for _, i := range is {
		r = vf.Or(r, i.has(x))
	}
	return r
}

func build(is []iv) []intervals.Interval {
	out := make([]intervals.Interval, len(is))
	for k, i := range is {
		out[k] = intervals.Range(i.lo, i.hi)
	}
	return out
}

func some(n int, name string) []iv {
	is := make([]iv, n)
	for k := range is {
		is[k] = anyInterval(name)
	}
	return is
}

// Basics: membership, size and singleness of one interval.
func Basics(int) {
	i := anyInterval("i")
	x := vf.U64("x")
	r := intervals.Range(i.lo, i.hi)
	vf.Assert(r.Contains(x) == i.has(x), "Contains is membership")
	full := i.lo == 0 && i.hi == ^uint64(0)
	if full {
		vf.Reach("full")
	} else {
		vf.Assert(r.Size() == i.hi-i.lo+1, "Size counts the members")
	}
	if i.lo == i.hi {
		vf.Reach("single")
	} else {
		vf.Reach("wide")
	}
	vf.Assert(r.Single() == (i.lo == i.hi), "Single iff one member")
	y := vf.U64("y")
	s := intervals.Single(y)
	vf.Assert(s.Contains(x) == (x == y), "Single(y) contains exactly y")
	vf.Assert(s.Size() == 1 && s.Single(), "Single has size one")
	vf.Assert(intervals.OpenLeft(y).Contains(x) == (x <= y), "OpenLeft")
	vf.Assert(intervals.OpenRight(y).Contains(x) == (x >= y), "OpenRight")
	vf.Observe("c", r.Contains(x))
	vf.Observe("s", r.Size())
}

// Builders: the interval and set of n-bit integers.
func Builders(n int) {
	x := vf.U64("x")
	want := true
	if n < 64 {
		want = x>>uint(n) == 0
	}
	b := intervals.Bits(uint(n))
	vf.Assert(b.Contains(x) == want, "Bits(n) is the n-bit integers")
	vf.Assert(intervals.IntType(uint(n)).Contains(x) == want, "IntType(n) is the n-bit integers")
	vf.Observe("c", b.Contains(x))
}

// BadRange: an inverted range is never silently accepted as a set.
func BadRange(int) {
	lo, hi, x := vf.U64("lo"), vf.U64("hi"), vf.U64("x")
	vf.Assume(hi < lo)
	if vf.Catch(func() {
		r := intervals.Range(lo, hi)
		vf.Assert(!r.Contains(x), "inverted range contains nothing")
	}) {
		vf.Reach("panic")
	}
}

// OverlapsSimplify: lists of n intervals.
func OverlapsSimplify(n int) {
	is := some(n, "i")
	x, y := vf.U64("x"), vf.U64("y")
	in := build(is)
	keep := build(is)
	ov := intervals.Overlaps(in)
	// ground truth: two intervals share a value iff the larger low end is in both
	truth := false
	for a := range is {
		for b := a + 1; b < n; b++ {
			truth = vf.Or(truth, vf.And(is[a].lo <= is[b].hi, is[b].lo <= is[a].hi))
		}
	}
	vf.Assert(ov == truth, "Overlaps iff two intervals share a value")
	if truth {
		vf.Reach("overlap")
	} else {
		vf.Reach("disjoint")
	}
	sim := intervals.Simplify(in)
	member := false
	for a := range sim {
		ca := sim[a].Contains(x)
		vf.Assert(!vf.And(member, ca), "Simplify gives disjoint intervals")
		member = vf.Or(member, ca)
		for b := a + 1; b < len(sim); b++ {
			vf.Assert(!vf.And(vf.And(ca, sim[b].Contains(y)), y <= x), "Simplify gives ascending intervals")
		}
	}
	want := hasAny(is, x)
	vf.Assert(member == want, "Simplify keeps exactly the same integers")
	set := intervals.NewSet(in...)
	vf.Assert(set.Contains(x) == want, "set membership")
	for a := range in {
		vf.Assert(in[a] == keep[a], "arguments unmodified")
	}
	vf.Observe("ov", ov)
	vf.Observe("n", len(sim))
	vf.Observe("m", member)
}

// SubtractSets: k = 10*|A| + |B|.
func SubtractSets(k int) {
	a, b := some(k/10, "a"), some(k%10, "b")
	x := vf.U64("x")
	A, B := intervals.NewSet(build(a)...), intervals.NewSet(build(b)...)
	inA, inB := hasAny(a, x), hasAny(b, x)
	A.Subtract(B)
	got := A.Contains(x)
	vf.Assert(got == vf.And(inA, !inB), "Subtract is set difference")
	vf.Assert(B.Contains(x) == inB, "Subtract leaves its argument alone")
	if k >= 10 && k%10 > 0 {
		if got {
			vf.Reach("kept")
		} else if inA {
			vf.Reach("removed")
		}
	}
	vf.Observe("got", got)
}

// SubtractTwice: chained subtraction, including from an emptied set.
func SubtractTwice(k int) {
	a, b, c := some(k, "a"), some(1, "b"), some(1, "c")
	x := vf.U64("x")
	A := intervals.NewSet(build(a)...)
	A.Subtract(intervals.NewSet(build(b)...))
	A.Subtract(intervals.NewSet(build(c)...))
	vf.Assert(A.Contains(x) == vf.And(hasAny(a, x), vf.And(!hasAny(b, x), !hasAny(c, x))), "chained Subtract is set difference")
	vf.Observe("got", A.Contains(x))
}

var bases = []uint64{0, 90, 1<<32 - 4, 1<<63 - 4, ^uint64(0) - 7, 995, 65530, 1<<53 - 3, 9999999990}

// Text: textual form of an interval near base k.
func Text(k int) {
	d, e := uint64(vf.Byte("d")&7), uint64(vf.Byte("e")&7)
	vf.Assume(d <= e)
	lo, hi := bases[k]+d, bases[k]+e
	s := intervals.Range(lo, hi).String()
	want := strconv.FormatUint(lo, 10)
	if lo == hi {
		vf.Reach("single")
	} else {
		vf.Reach("range")
		want += "-" + strconv.FormatUint(hi, 10)
	}
	vf.Assert(vf.EqStr(s, want), "textual form")
	vf.Observe("s", s)
}

var points = []uint64{0, 1, 2, 9, 10, 99, 1 << 63, ^uint64(0)}

// SetText: textual form of the set of n intervals between chosen points.
func SetText(n int) {
	var in []intervals.Interval
	for ; n > 0; n-- {
		a := vf.Choose("lo", len(points))
		b := a + vf.Choose("hi", len(points)-a)
		if n > 1 && b > a+1 {
			vf.Stop()
		}
		in = append(in, intervals.Range(points[a], points[b]))
	}
	// the members as a list of intervals in ascending order, as they are
	// kept: joined where they share a value
	sim := intervals.Simplify(in)
	want := ""
	for k, i := range sim {
		if k > 0 {
			want += ","
		}
		want += i.String()
	}
	s := intervals.NewSet(in...).String()
	vf.Assert(s == want, "textual form of a set")
	vf.Observe("s", s)
}

var sizes = []int{5, 8, 13, 20}

// Many: long lists, spread out, with two intervals of several extents.
func Many(arg int) {
	n, order := sizes[arg/3], arg%3
	is := make([]iv, n)
	for i := range is {
		k := uint64(i)
		switch order {
		case 1:
			k = uint64(n - 1 - i)
		case 2:
			k = uint64(i * 7 % n)
		}
		is[i] = iv{1000 + 20*k, 1000 + 20*k + k%7}
	}
	extents := []uint64{0, 13, 20, 61}
	is[n/3].hi += extents[vf.Choose("w", len(extents))]
	is[n-1].lo -= extents[vf.Choose("l", len(extents))]
	x := vf.U64("x")
	in := build(is)
	truth := false
	for a := range is {
		for b := a + 1; b < n; b++ {
			truth = vf.Or(truth, vf.And(is[a].lo <= is[b].hi, is[b].lo <= is[a].hi))
		}
	}
	vf.Assert(intervals.Overlaps(in) == truth, "Overlaps iff two intervals share a value")
	if truth {
		vf.Reach("overlap")
	} else {
		vf.Reach("disjoint")
	}
	want := hasAny(is, x)
	A := intervals.NewSet(in...)
	vf.Assert(A.Contains(x) == want, "set membership")
	half := intervals.NewSet(in[:n/2]...)
	A.Subtract(half)
	vf.Assert(A.Contains(x) == vf.And(want, !hasAny(is[:n/2], x)), "Subtract is set difference")
	vf.Observe("m", A.Contains(x))
}

// Deep: n intervals each of which lies within the one before it.
func Deep(n int) {
	is := make([]iv, n)
	for i := range is {
		k := uint64(i)
		is[i] = iv{1000 + 3*k, 90000 - 5*k}
	}
	x := vf.U64("x")
	want := vf.And(is[0].lo <= x, x <= is[0].hi)
	in := build(is)
	vf.Assert(intervals.Overlaps(in), "Overlaps iff two intervals share a value")
	sim := intervals.Simplify(in)
	member := false
	for _, i := range sim {
		c := i.Contains(x)
		vf.Assert(!vf.And(member, c), "Simplify gives disjoint intervals")
		member = vf.Or(member, c)
	}
	vf.Assert(member == want, "Simplify keeps exactly the same integers")
	A := intervals.NewSet(in...)
	got := A.Contains(x)
	vf.Assert(got == want, "set membership")
	if got {
		vf.Reach("in")
	} else {
		vf.Reach("out")
	}
	A.Subtract(intervals.NewSet(in[n/2:]...))
	m := is[n/2]
	vf.Assert(A.Contains(x) == vf.And(want, !m.has(x)), "Subtract is set difference")
	vf.Observe("m", member)
}

// Long: n separate intervals, and one of ten values that starts anywhere near
// those in the middle.
func Long(n int) {
	is := make([]iv, n)
	for i := range is {
		k := uint64(i * 7 % n)
		is[i] = iv{1000 + 40*k, 1000 + 40*k + k%9}
	}
	if n%7 == 0 {
		for i := range is {
			k := uint64(n - 1 - i)
			is[i] = iv{1000 + 40*k, 1000 + 40*k + k%9}
		}
	}
	lo := 1000 + 40*uint64(n/2) - 50 + uint64(vf.Byte("lo"))%100
	is = append(is, iv{lo, lo + 9})
	x := lo + []uint64{0, 9, ^uint64(0), 10}[vf.Choose("x", 4)]
	in := build(is)
	truth := false
	for _, i := range is[:n] {
		truth = vf.Or(truth, vf.And(i.lo <= lo+9, lo <= i.hi))
	}
	ov := intervals.Overlaps(in)
	vf.Assert(ov == truth, "Overlaps iff two intervals share a value")
	if ov {
		vf.Reach("overlap")
	} else {
		vf.Reach("disjoint")
	}
	A := intervals.NewSet(in[:n]...)
	A.Subtract(intervals.NewSet(in[n]))
	vf.Assert(A.Contains(x) == vf.And(hasAny(is[:n], x), !is[n].has(x)), "Subtract is set difference")
	vf.Observe("ov", ov)
}

// Apart: sets do not depend on the lists they were built from, or on each other.
func Apart(n int) {
	is := some(n, "i")
	x := vf.U64("x")
	in := build(is)
	want := hasAny(is, x)
	A, B := intervals.NewSet(in...), intervals.NewSet(in...)
	sim := intervals.Simplify(in)
	c := anyInterval("c")
	C := intervals.NewSet(intervals.Range(c.lo, c.hi))
	D := intervals.NewSet(intervals.Range(c.lo, c.hi))
	if n <= 2 {
		A.Subtract(C)
		vf.Assert(C.Contains(x) == c.has(x), "Subtract leaves its argument alone")
		C.Subtract(A)
		vf.Assert(A.Contains(x) == vf.And(want, !c.has(x)), "subtracting from the argument later changes nothing")
		vf.Assert(D.Contains(x) == c.has(x), "equal sets are independent")
	}
	for k := range in {
		in[k] = intervals.Range(c.lo, c.hi)
	}
	vf.Assert(B.Contains(x) == want, "a set is independent of the list it was built from")
	got := false
	for _, i := range sim {
		got = vf.Or(got, i.Contains(x))
	}
	vf.Assert(got == want, "a simplified list is independent of the original")
	vf.Observe("m", B.Contains(x))
}

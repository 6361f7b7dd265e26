// Package c14 checks what generated vectors cover.
package c14

import (
	"github.com/mmcloughlin/random"
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/rnd"
	"github.com/mmcloughlin/trunnel/vfw/tvl"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c14.Cases", F: Cases, Quick: targets(), Reach: []string{"union", "plain"}, MaxPaths: 400, Name1: name})
	vf.Add(vf.Spec{Name: "c14.Suites", F: Suites, Quick: vf.Range(0, 3)})
	vf.Add(vf.Spec{Name: "c14.Lengths", F: Lengths, Quick: vf.Range(0, len(limits)-1), Reach: []string{"fits", "other"}, MaxPaths: 60})
	vf.Add(vf.Spec{Name: "c14.Sample", F: Sample, Quick: sizes(5), Full: sizes(6), Reach: []string{"some", "all"}, MaxPaths: 3000})
	vf.Add(vf.Spec{Name: "c14.Large", F: Large, Quick: []int{20*256 + 1, 20*256 + 7, 20*256 + 19, 20*256 + 20, 20*256 + 21, 70*256 + 30, 70*256 + 64, 70*256 + 100, 70 * 256}, Reach: []string{"all", "some"}, MaxPaths: 6})
}

func targets() []int {
	var out []int
	for i, t := range tvl.Targets {
		if t.NotImplemented || t.Known || !t.Cover {
			continue
		}
		out = append(out, i)
	}
	return out
}

func name(i int) string { return tvl.Targets[i].C.Name + "." + tvl.Targets[i].C.Struct }

// Cases: every permitted case of every union is exercised.
func Cases(i int) {
	t := tvl.Targets[i]
	c, err := t.Corpus(6)
	if err != nil {
		vf.Fail("vectors for a supported description")
		return
	}
	vs := c.Vectors(t.C.Struct)
	vf.Observe("n", len(vs))
	vf.Assert(len(vs) > 0, "a structure has at least one vector")
	st := t.Set.Struct(t.C.Struct)
	seen := map[*ref.Case]bool{}
	sel := t.Set.With(func(m *ref.Member, tag uint64) int {
		k := t.Set.Select(m, tag)
		if k >= 0 {
			seen[&m.Cases[k]] = true
		}
		return k
	})
	for k := range vs {
		ctx, _ := t.Context(&vs[k])
		sel.Decode(t.C.Struct, vs[k].Data, ctx)
	}
	found := false
	for a := range st.Members {
		m := &st.Members[a]
		for b := range m.Cases {
			found = true
			if possible(t.Set, st, m, b) {
				vf.Assert(seen[&m.Cases[b]], "a permitted union case is exercised")
			}
		}
	}
	if found {
		vf.Reach("union")
	} else {
		vf.Reach("plain")
	}
}

// possible reports whether some tag value selects a case that does not fail.
func possible(set *ref.Set, st *ref.Struct, m *ref.Member, k int) bool {
	for _, x := range m.Cases[k].Members {
		if x.Kind == ref.KFail {
			return false
		}
	}
	var f *ref.Member
	ms := st.Members
	if m.Tag.Scope != "" {
		ms = set.Context(m.Tag.Scope).Fields
	}
	for i := range ms {
		if ms[i].Kind == ref.KInt && ms[i].Name == m.Tag.Name {
			f = &ms[i]
		}
	}
	if f == nil {
		return false
	}
	// only end points of lists and their neighbours matter
	max := ^uint64(0) >> uint(64-f.Bits)
	pts := []uint64{0, max}
	add := func(l []ref.Range) {
		for _, r := range l {
			lo, hi := set.Num(r.Lo), set.Num(r.Lo)
			if !r.Single {
				hi = set.Num(r.Hi)
			}
			pts = append(pts, lo, hi)
			if lo > 0 {
				pts = append(pts, lo-1)
			}
			if hi < max {
				pts = append(pts, hi+1)
			}
		}
	}
	add(f.In)
	for i := range m.Cases {
		add(m.Cases[i].List)
	}
	for _, x := range pts {
		if x <= max && (!f.HasI || set.In(x, f.In)) && set.Select(m, x) == k {
			return true
		}
	}
	return false
}

// limits are lengths a union may have, and whether its cases of 1, 2, 4 and 2
// bytes can then be exercised.
var limits = []struct {
	in   string
	fits [4]bool
}{
	{"[2]", [4]bool{false, true, false, true}},
	{"[1]", [4]bool{true, false, false, false}},
	{"[4]", [4]bool{false, false, true, false}},
	{"[2..4]", [4]bool{false, true, true, true}},
	{"[0..1, 4..9]", [4]bool{true, false, true, false}},
	{"[1..255]", [4]bool{true, true, true, true}},
}

// Lengths: cases that fit the length of their union are exercised, whatever
// comes of the others.
func Lengths(k int) {
	l := limits[k]
	f, err := parse.String("struct s { u8 t; u8 n IN " + l.in + "; union u[t] with length n { 1: u8 a; 2: u16 b; 3: u32 c; 4: u8 d[2]; }; u8 z; };")
	if err != nil {
		vf.Fail("a description is accepted")
		return
	}
	c, err := tv.GenerateFiles([]*ast.File{f}, tv.WithRandom(rnd.Any(40)))
	if err != nil {
		vf.Fail("vectors for a supported description")
		return
	}
	vs := c.Vectors("s")
	vf.Assert(len(vs) > 0, "a structure has at least one vector")
	for i, fits := range l.fits {
		seen := false
		for _, v := range vs {
			if len(v.Data) > 0 {
				seen = vf.Or(seen, v.Data[0] == byte(i+1))
			}
		}
		if fits {
			vf.Reach("fits")
			vf.Assert(seen, "a case that fits the length is exercised")
		} else {
			vf.Reach("other")
		}
	}
	vf.Observe("n", len(vs))
}

// Sample: a sample has the requested size and no repetitions. The argument is
// 16*candidates + size.
func Sample(arg int) { sample(arg/16, arg%16) }

// Large: samples of many candidates. The argument is 256*candidates + size.
func Large(arg int) { sample(arg/256, arg%256) }

func sample(m, n int) {
	var vs []tv.Vector
	for i := 0; i < m; i++ {
		vs = append(vs, tv.Vector{Data: []byte{byte(i), vf.Byte("d")}})
	}
	got := tv.RandomSampleSelector(n).SelectVectors(vs)
	want := n
	if m <= n {
		want = m
		vf.Reach("all")
	} else {
		vf.Reach("some")
	}
	vf.Assert(len(got) == want, "size of a sample")
	used := make([]bool, m)
	for _, g := range got {
		if len(g.Data) != 2 || int(g.Data[0]) >= m {
			vf.Fail("a sample only has candidates")
			return
		}
		i := int(g.Data[0])
		vf.Assert(!used[i], "no candidate twice")
		used[i] = true
		vf.Assert(g.Data[1] == vs[i].Data[1], "a sample keeps its vectors as they are")
	}
	for i := range vs {
		vf.Assert(len(vs[i].Data) == 2 && int(vs[i].Data[0]) == i, "candidates stay as they are")
	}
	vf.Observe("n", len(got))
}

func sizes(max int) []int {
	var out []int
	for m := 0; m <= max; m++ {
		for n := 0; n <= max+1; n++ {
			out = append(out, m*16+n)
		}
	}
	return out
}

// Suites: every structure that is not extern has one suite, in order.
func Suites(k int) {
	f, names := description(k)
	src := rnd.Seq(1, 0)
	random.Hook = func(int64, bool) random.Interface { return src }
	c, err := tv.GenerateFiles(f)
	if err != nil {
		vf.Fail("vectors for a supported description")
		return
	}
	vf.Assert(len(c.Suites) == len(names), "one suite for every structure")
	for i, n := range names {
		if i < len(c.Suites) {
			vf.Assert(c.Suites[i].Type == n, "suites in source order")
			vf.Assert(len(c.Suites[i].Vectors) > 0, "a structure has at least one vector")
		}
		vf.Assert(len(c.Vectors(n)) > 0, "vectors are found by structure")
	}
	vf.Assert(c.Vectors("none") == nil, "no vectors for an unknown structure")
}

// Package c12 checks which case of a union a tag value selects.
package c12

import (
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/inspect"
	"github.com/mmcloughlin/trunnel/vfw/gpl"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/refast"
	"github.com/mmcloughlin/trunnel/vfw/schemas"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c12.Lists", F: Lists, Quick: lists(false), Full: lists(true), Reach: []string{"case", "default", "none"}})
	vf.Add(vf.Spec{Name: "c12.Unions", F: Unions, Quick: vf.Range(0, len(unions)-1), Reach: []string{"case", "default", "none"}})
	vf.Add(vf.Spec{Name: "c12.Parser", F: Parser, Quick: parsers(8, 3), Full: parsers(10, 6), Reach: []string{"accepted", "rejected"}, MaxPaths: 4000})
}

var widths = []uint{8, 16, 32, 64}

// shapes give the number of ranges of every case; 0 is the default case.
var shapes = [][]int{
	{1}, {2}, {0}, {}, {1, 0}, {0, 1}, {1, 1}, {2, 0}, {2, 1}, {1, 1, 0}, {0, 1, 1}, {1, 0, 1}, {1, 2, 0},
	{3}, {3, 0}, {1, 1, 1}, {0, 2, 1}, {2, 1, 0}, {1, 1, 1, 0}, {2, 2, 0},
}

func lists(full bool) []int {
	var out []int
	for w := range widths {
		for s, sh := range shapes {
			n := 0
			for _, k := range sh {
				n += k
			}
			if n > 2 && !(full && (n == 3 || w == 0)) && !(n == 3 && w == 0) {
				continue
			}
			out = append(out, s*8+w*2, s*8+w*2+1)
		}
	}
	return out
}

func within(x, lo, hi uint64) bool { return vf.And(lo <= x, x <= hi) }

// Lists: unions with symbolic, non-overlapping case lists.
func Lists(arg int) {
	w, shape := widths[arg%8/2], shapes[arg/8]
	max := ^uint64(0) >> (64 - w)
	top := max
	if w == 64 {
		top = max >> 1 // literals are signed
	}
	u := &ast.UnionMember{Name: "u", Tag: &ast.IDRef{Name: "tag"}}
	s := &ast.Struct{Name: "s"}
	f := &ast.File{Structs: []*ast.Struct{s}}
	tag := &ast.Field{Name: "tag", Type: &ast.IntType{Size: w}}
	if arg%2 == 1 {
		f.Contexts = []*ast.Context{{Name: "ctx", Members: []*ast.Field{{Name: "tog", Type: &ast.IntType{Size: 8}}, tag}}}
		u.Tag.Scope = "ctx"
		s.Contexts = []string{"ctx"}
		s.Members = []ast.Member{&ast.Field{Name: "tag", Type: &ast.IntType{Size: 16}}, u}
	} else {
		s.Members = []ast.Member{&ast.Field{Name: "tog", Type: &ast.CharType{}}, tag, u}
	}
	var los, his []uint64
	var owner []int
	def := -1
	for i, n := range shape {
		c := &ast.UnionCase{Members: []ast.Member{&ast.Field{Name: "f", Type: ast.U8}}}
		u.Cases = append(u.Cases, c)
		if n == 0 {
			def = i
			continue
		}
		c.Case = &ast.IntegerList{}
		for k := 0; k < n; k++ {
			lo := vf.U64("lo")
			hi := lo
			r := &ast.IntegerRange{Low: &ast.IntegerLiteral{Value: int64(lo)}}
			if k%2 == 0 || vf.Choose("range", 2) == 1 {
				hi = vf.U64("hi")
				r.High = &ast.IntegerLiteral{Value: int64(hi)}
			}
			vf.Assume(vf.And(lo <= hi, hi <= top))
			for j := range los {
				vf.Assume(vf.Or(hi < los[j], his[j] < lo))
			}
			los, his, owner = append(los, lo), append(his, hi), append(owner, i)
			c.Case.Ranges = append(c.Case.Ranges, r)
		}
	}
	r, err := inspect.NewResolver(f)
	if err != nil {
		vf.Fail("description resolves")
		return
	}
	b, err := inspect.NewBranches(r, s, u)
	if err != nil {
		vf.Fail("cases of a union without overlaps")
		return
	}
	x := vf.U64("x")
	in := make([]bool, len(shape))
	any := false
	for j := range los {
		h := within(x, los[j], his[j])
		in[owner[j]] = vf.Or(in[owner[j]], h)
		any = vf.Or(any, h)
	}
	all := b.All()
	if k := vf.Choose("look", len(all)+1); k < len(all) {
		br := all[k]
		i := index(u, br.Case)
		vf.Assert(i >= 0, "a reported case is one of the union")
		if i == def {
			vf.Assert(br.Set.Contains(x) == vf.And(x <= max, !any), "default's set is the complement")
		} else {
			vf.Assert(br.Set.Contains(x) == in[i], "a case's set is its list")
		}
		return
	}
	listed := make([]int, len(shape))
	for _, br := range b.All() {
		listed[index(u, br.Case)]++
	}
	for i, n := range listed {
		vf.Assert(n == 1 || i == def && n == 0, "every case is reported once")
		if i == def && n == 0 {
			vf.Assert(vf.Or(any, x > max), "default left out only if no value selects it")
		}
	}
	vf.Assume(x <= max)
	br, ok := b.Lookup(int64(x))
	vf.Observe("ok", ok)
	if !ok {
		vf.Reach("none")
		vf.Assert(vf.And(!any, def < 0), "a tag without case")
		return
	}
	i := index(u, br.Case)
	vf.Observe("case", i)
	if i == def {
		vf.Reach("default")
		vf.Assert(!any, "default only for values in no list")
		return
	}
	vf.Reach("case")
	vf.Assert(in[i], "the case whose list contains the tag")
}

func index(u *ast.UnionMember, c *ast.UnionCase) int {
	for i := range u.Cases {
		if u.Cases[i] == c {
			return i
		}
	}
	return -1
}

type union struct {
	set *ref.Set
	st  *ref.Struct
	pos int
}

var unions = find()

// find lists the unions of all schemas.
func find() []union {
	var out []union
	for _, set := range schemas.Sets {
		for _, f := range set.Files {
			for _, st := range f.Structs {
				for i, m := range st.Members {
					if m.Kind == ref.KUnion {
						out = append(out, union{set, st, i})
					}
				}
			}
		}
	}
	return out
}

// bits is the width of the field a reference names.
func bits(set *ref.Set, st *ref.Struct, r ref.IDRef) uint {
	ms := st.Members
	if r.Scope != "" {
		ms = set.Context(r.Scope).Fields
	}
	for _, m := range ms {
		if m.Kind == ref.KInt && m.Name == r.Name {
			return uint(m.Bits)
		}
	}
	return 0
}

// Unions: the unions of the schemas.
func Unions(arg int) {
	q := unions[arg]
	m := &q.st.Members[q.pos]
	w := bits(q.set, q.st, m.Tag)
	if w == 0 {
		vf.Stop()
	}
	r, err := inspect.NewResolverFiles(refast.Files(q.set))
	if err != nil {
		vf.Fail("description resolves")
		return
	}
	s, ok := r.Struct(q.st.Name)
	if !ok {
		vf.Fail("structure is known")
		return
	}
	u := s.Members[q.pos].(*ast.UnionMember)
	b, err := inspect.NewBranches(r, s, u)
	if err != nil {
		vf.Fail("cases of a well-formed union")
		return
	}
	x := vf.U64("x")
	vf.Assume(x <= ^uint64(0)>>(64-w))
	want := q.set.Select(m, x)
	n := 0
	for _, br := range b.All() {
		if br.Set.Contains(x) {
			n++
		}
	}
	vf.Assert(n <= 1, "sets of cases are disjoint")
	br, ok := b.Lookup(int64(x))
	got := -1
	if ok {
		got = index(u, br.Case)
	}
	switch {
	case want < 0:
		vf.Reach("none")
	case m.Cases[want].Default:
		vf.Reach("default")
	default:
		vf.Reach("case")
	}
	vf.Assert(got == want, "lookup finds the case of the tag")
	vf.Observe("case", got)
}

// parsers lists jobs for parsers of structures with unions.
func parsers(upto, extra int) []int {
	var out []int
	for _, j := range gpl.Jobs(upto, extra) {
		c, set, _ := gpl.Pick(j)
		if has(set.Struct(c.Struct)) {
			out = append(out, j)
		}
	}
	return out
}

func has(st *ref.Struct) bool {
	for _, m := range st.Members {
		if m.Kind == ref.KUnion {
			return true
		}
	}
	return false
}

// branches of the unions of one structure, looked up by the repository.
func branches(set *ref.Set, st *ref.Struct) map[*ref.Member]func(uint64) int {
	r, err := inspect.NewResolverFiles(refast.Files(set))
	if err != nil {
		return nil
	}
	s, _ := r.Struct(st.Name)
	out := map[*ref.Member]func(uint64) int{}
	for i := range st.Members {
		if st.Members[i].Kind != ref.KUnion {
			continue
		}
		u := s.Members[i].(*ast.UnionMember)
		b, err := inspect.NewBranches(r, s, u)
		if err != nil {
			continue // a tag that is not a member of its own
		}
		out[&st.Members[i]] = func(x uint64) int {
			br, ok := b.Lookup(int64(x))
			if !ok {
				return -1
			}
			return index(u, br.Case)
		}
	}
	return out
}

// Parser: the generated parser decodes what the looked up case describes.
func Parser(arg int) {
	c, set, n := gpl.Pick(arg)
	st := set.Struct(c.Struct)
	by := branches(set, st)
	data := vf.Bytes("d", n)
	ctx := gpl.Context(set, c.Struct, "")
	v := c.New()
	_, err := c.Parse(v, data, ctx)
	sel := set.With(func(m *ref.Member, tag uint64) int {
		if f := by[m]; f != nil {
			return f(tag)
		}
		return set.Select(m, tag)
	})
	want, _, ok := sel.Decode(c.Struct, data, ctx)
	vf.Observe("err", err != nil)
	if err != nil {
		vf.Reach("rejected")
		vf.Assert(!ok, "rejected as the case looked up")
		return
	}
	vf.Reach("accepted")
	vf.Assert(ok, "accepted as the case looked up")
	vf.Assert(gpl.Same(vf.Dump(v), want, true), "fields of the case looked up")
}

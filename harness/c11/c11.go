// Package c11 checks name resolution.
package c11

import (
	"strconv"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/inspect"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c11.Constants", F: Constants, Quick: []int{1, 2, 3}, Full: []int{1, 2, 3, 4}, Reach: []string{"conflict", "resolved", "repeated"}, Reps: 40, MaxPaths: 60000})
	vf.Add(vf.Spec{Name: "c11.Structs", F: Structs, Quick: []int{1, 2, 3}, Full: []int{1, 2, 3, 4}, Reach: []string{"conflict", "resolved", "announced"}, Reps: 40, MaxPaths: 60000})
	vf.Add(vf.Spec{Name: "c11.Contexts", F: Contexts, Quick: []int{1, 2, 3}, Reach: []string{"conflict", "resolved"}, Reps: 40, MaxPaths: 60000})
	vf.Add(vf.Spec{Name: "c11.Steps", F: Steps, Quick: []int{0, 1}, Reach: []string{"conflict", "resolved"}})
	vf.Add(vf.Spec{Name: "c11.Lists", F: Lists, Quick: []int{0, 1, 2}, Full: []int{0, 1, 2, 3}, Reach: []string{"unknown", "inverted", "overlap", "good"}, MaxPaths: 60000})
	vf.Add(vf.Spec{Name: "c11.Integer", F: Integer, Quick: []int{0, 1, 2}})
	vf.Add(vf.Spec{Name: "c11.Refs", F: Refs, Quick: vf.Range(0, 3), Reach: []string{"found", "error"}})
	vf.Add(vf.Spec{Name: "c11.Mixed", F: Mixed, Quick: vf.Range(0, 5), Reps: 40})
	vf.Add(vf.Spec{Name: "c11.Many", F: Many, Quick: vf.Range(0, 4), Reach: []string{"conflict", "resolved"}, Reps: 40})
	vf.Add(vf.Spec{Name: "c11.LongLists", F: LongLists, Quick: []int{6, 12, 25}, Reach: []string{"overlap", "good"}})
}

const nfiles = 2

func files() []*ast.File {
	var fs []*ast.File
	for i := 0; i < nfiles; i++ {
		fs = append(fs, &ast.File{})
	}
	return fs
}

// Constants: n definitions of two names spread over files.
func Constants(n int) {
	names := []string{"A", "B"}
	fs := files()
	var name, file []int
	var val []int64
	conflict, unclear := false, false
	for i := 0; i < n; i++ {
		a, f, v := vf.Choose("name", 2), vf.Choose("file", nfiles), vf.I64("value")
		for j := range name {
			if name[j] != a {
				continue
			}
			vf.Reach("repeated")
			conflict = vf.Or(conflict, val[j] != v)
			if file[j] == f {
				unclear = true
			}
		}
		name, file, val = append(name, a), append(file, f), append(val, v)
		fs[f].Constants = append(fs[f].Constants, &ast.Constant{Name: names[a], Value: v})
	}
	vf.MapOrder(true)
	r, err := inspect.NewResolverFiles(fs)
	vf.MapOrder(false)
	vf.Observe("err", err != nil)
	if err != nil {
		vf.Reach("conflict")
		vf.Assert(vf.Or(conflict, unclear), "constants without conflict are accepted")
		vf.Assert(r == nil, "no resolver with an error")
		return
	}
	vf.Reach("resolved")
	vf.Assert(!conflict, "two different definitions of a constant are an error")
	for a, s := range names {
		v, ok := r.Constant(s)
		found := false
		for j := range name {
			if name[j] == a {
				found = true
				vf.Assert(v == val[j], "a constant has the value defined")
			}
		}
		vf.Assert(ok == found, "a constant is known iff it is defined")
		vf.Observe(s, v)
	}
	_, ok := r.Constant("C")
	vf.Assert(!ok, "unknown constant")
}

// Structs: n declarations of two names, extern or not, spread over files.
func Structs(n int) {
	names := []string{"s", "t"}
	fs := files()
	defs := make([]*ast.Struct, 2)
	announced := make([]int, 2)
	twice, unclear := false, false
	var where [2][nfiles]int
	for i := 0; i < n; i++ {
		a, f := vf.Choose("name", 2), vf.Choose("file", nfiles)
		s := &ast.Struct{Name: names[a]}
		if vf.Choose("extern", 2) == 1 {
			announced[a]++
			where[a][f]++
			if where[a][f] > 1 {
				unclear = true
			}
		} else {
			s.Members = []ast.Member{&ast.Field{Name: "f", Type: &ast.IntType{Size: 8}}}
			if vf.Choose("empty", 2) == 1 {
				s.Members = []ast.Member{}
			}
			if defs[a] != nil {
				twice = true
			}
			defs[a] = s
		}
		fs[f].Structs = append(fs[f].Structs, s)
	}
	vf.MapOrder(true)
	r, err := inspect.NewResolverFiles(fs)
	vf.Observe("err", err != nil)
	if err != nil {
		vf.MapOrder(false)
		vf.Reach("conflict")
		vf.Assert(twice || unclear, "structures without conflict are accepted")
		vf.Assert(r == nil, "no resolver with an error")
		return
	}
	all := r.Structs()
	vf.MapOrder(false)
	vf.Reach("resolved")
	vf.Assert(!twice, "two definitions of a structure are an error")
	count := 0
	for a, s := range names {
		st, ok := r.Struct(s)
		ne, nerr := r.StructNonExtern(s)
		listed := 0
		for _, x := range all {
			if x.Name == s {
				listed++
				vf.Assert(x == st, "the structure listed is the one looked up")
			}
		}
		switch {
		case defs[a] != nil:
			count++
			if announced[a] > 0 {
				vf.Reach("announced")
			}
			vf.Assert(ok && st == defs[a], "a structure resolves to its definition")
			vf.Assert(nerr == nil && ne == defs[a], "a defined structure is not extern")
			vf.Assert(listed == 1, "a structure is listed once")
		case announced[a] > 0:
			count++
			vf.Assert(ok && st.Extern() && st.Name == s, "an extern structure is known")
			vf.Assert(nerr != nil, "an extern structure has no definition")
			vf.Assert(listed == 1, "a structure is listed once")
		default:
			vf.Assert(!ok && nerr != nil, "unknown structure")
			vf.Assert(listed == 0, "unknown structure is not listed")
		}
	}
	vf.Assert(len(all) == count, "nothing else is listed")
}

// Contexts: n contexts of two names spread over files.
func Contexts(n int) {
	names := []string{"c", "d"}
	fs := files()
	defs := make([]*ast.Context, 2)
	twice := false
	for i := 0; i < n; i++ {
		a, f := vf.Choose("name", 2), vf.Choose("file", nfiles)
		c := &ast.Context{Name: names[a], Members: []*ast.Field{{Name: string(rune('f' + i)), Type: &ast.IntType{Size: 8}}}}
		if defs[a] != nil {
			twice = true
		}
		defs[a] = c
		fs[f].Contexts = append(fs[f].Contexts, c)
	}
	vf.MapOrder(true)
	r, err := inspect.NewResolverFiles(fs)
	vf.MapOrder(false)
	vf.Observe("err", err != nil)
	if err != nil {
		vf.Reach("conflict")
		vf.Assert(twice, "contexts without conflict are accepted")
		return
	}
	vf.Reach("resolved")
	vf.Assert(!twice, "two different definitions of a context are an error")
	for a, s := range names {
		c, ok := r.Context(s)
		vf.Assert(ok == (defs[a] != nil), "a context is known iff it is defined")
		if ok {
			vf.Assert(c == defs[a], "a context resolves to its definition")
		}
	}
}

// Steps: definitions added one at a time, also after a conflict.
func Steps(k int) {
	r := inspect.NewResolverEmpty()
	v, w := vf.I64("v"), vf.I64("w")
	set := func(n string, x int64) error {
		if k == 1 {
			return r.AddConstant(&ast.Constant{Name: n, Value: x})
		}
		return r.SetConstant(n, x)
	}
	vf.Assert(set("A", v) == nil, "a first definition is accepted")
	vf.Assert(set("AB", w) == nil, "a definition of another name is accepted")
	err := set("A", w)
	vf.Assert((err != nil) == (v != w), "a second definition must agree")
	if err != nil {
		vf.Reach("conflict")
	} else {
		vf.Reach("resolved")
	}
	x, ok := r.Constant("A")
	vf.Assert(ok && x == v, "the first definition stays")
	x, ok = r.Constant("AB")
	vf.Assert(ok && x == w, "the other definition stays")

	def := &ast.Struct{Name: "s", Members: []ast.Member{&ast.EOS{}}}
	other := &ast.Struct{Name: "s", Members: []ast.Member{&ast.Field{Name: "f", Type: ast.U8}}}
	ext := &ast.Struct{Name: "s"}
	have := (*ast.Struct)(nil)
	seen := false
	for i := 0; i < 4; i++ {
		switch vf.Choose("add", 3) {
		case 0:
			vf.Assert(r.AddStruct(ext) == nil, "an extern declaration is accepted")
			seen = true
		case 1:
			err := r.AddStruct(def)
			if have == def {
				break // the same definition again: not decided
			}
			vf.Assert((err != nil) == (have != nil), "a definition must be the only one")
			if err == nil {
				have = def
			}
		case 2:
			err := r.AddStruct(other)
			if have == other {
				break
			}
			vf.Assert((err != nil) == (have != nil), "a definition must be the only one")
			if err == nil {
				have = other
			}
		}
		s, ok := r.Struct("s")
		if have != nil {
			vf.Assert(ok && s == have, "the definition is found")
		} else {
			vf.Assert(ok == seen, "the declaration is found")
		}
	}
	ctx := &ast.Context{Name: "c"}
	vf.Assert(r.AddContext(ctx) == nil, "a first context is accepted")
	vf.Assert(r.AddContext(&ast.Context{Name: "c", Members: []*ast.Field{{Name: "f", Type: ast.U8}}}) != nil, "a second context is an error")
	c, ok := r.Context("c")
	vf.Assert(ok && c == ctx, "the first context stays")
}

type num struct {
	v       uint64
	unknown bool
}

// number is a literal, a defined or an undefined constant.
func number(cs []*ast.Constant, vals []uint64) (ast.Integer, num) {
	switch vf.Choose("kind", 3) {
	case 0:
		v := vf.U64("v")
		vf.Assume(v <= 1<<63-1)
		return &ast.IntegerLiteral{Value: int64(v)}, num{v: v}
	case 1:
		i := vf.Choose("const", len(cs))
		return &ast.IntegerConstRef{Name: cs[i].Name}, num{v: vals[i]}
	}
	return &ast.IntegerConstRef{Name: "NOT_DEFINED"}, num{unknown: true}
}

func consts() ([]*ast.Constant, []uint64) {
	var cs []*ast.Constant
	var vals []uint64
	for _, n := range []string{"LOW", "HIGH"} {
		v := vf.U64(n)
		vf.Assume(v <= 1<<63-1)
		vals = append(vals, v)
		cs = append(cs, &ast.Constant{Name: n, Value: int64(v)})
	}
	return cs, vals
}

// Lists: an integer list of up to three entries.
func Lists(n int) {
	cs, vals := consts()
	r, err := inspect.NewResolver(&ast.File{Constants: cs})
	if err != nil {
		vf.Fail("constants resolve")
		return
	}
	l := &ast.IntegerList{}
	var los, his []uint64
	unknown, inverted, overlap := false, false, false
	for i := 0; i < n; i++ {
		lo, a := number(cs, vals)
		rg := &ast.IntegerRange{Low: lo}
		b := a
		if n < 3 && vf.Choose("range", 2) == 1 || n == 3 && i == 1 {
			rg.High, b = number(cs, vals)
		}
		l.Ranges = append(l.Ranges, rg)
		if a.unknown || b.unknown {
			unknown = true
			continue
		}
		inverted = vf.Or(inverted, b.v < a.v)
		for j := range los {
			overlap = vf.Or(overlap, vf.And(vf.And(a.v <= his[j], los[j] <= b.v), vf.And(a.v <= b.v, los[j] <= his[j])))
		}
		los, his = append(los, a.v), append(his, b.v)
	}
	s, err := r.Intervals(l)
	vf.Observe("err", err != nil)
	if err != nil {
		if unknown {
			vf.Reach("unknown")
		} else if inverted {
			vf.Reach("inverted")
		} else if overlap {
			vf.Reach("overlap")
		}
		vf.Assert(vf.Or(unknown, vf.Or(inverted, overlap)), "a good list is accepted")
		vf.Assert(s == nil, "no set with an error")
		return
	}
	vf.Reach("good")
	vf.Assert(!unknown, "an unknown constant in a list is an error")
	vf.Assert(!inverted, "an inverted range is an error")
	vf.Assert(!overlap, "overlapping entries are an error")
	x := vf.U64("x")
	in := false
	for j := range los {
		in = vf.Or(in, vf.And(los[j] <= x, x <= his[j]))
	}
	vf.Assert(s.Contains(x) == in, "the list denotes its values")
	vf.Observe("in", s.Contains(x))
}

// Integer: literals and constants.
func Integer(k int) {
	r := inspect.NewResolverEmpty()
	v, w := vf.I64("v"), vf.I64("w")
	_ = r.SetConstant("K", v)
	_ = r.SetConstant("K_", w)
	switch k {
	case 0:
		x, err := r.Integer(&ast.IntegerLiteral{Value: v})
		vf.Assert(err == nil && x == v, "a literal is its value")
	case 1:
		x, err := r.Integer(&ast.IntegerConstRef{Name: "K"})
		vf.Assert(err == nil && x == v, "a constant is its value")
		x, err = r.Integer(&ast.IntegerConstRef{Name: "K_"})
		vf.Assert(err == nil && x == w, "a constant is its value")
	case 2:
		for _, n := range []string{"", "k", "K__", "KK"} {
			_, err := r.Integer(&ast.IntegerConstRef{Name: n})
			vf.Assert(err != nil, "an unknown constant is an error")
		}
	}
}

// Refs: references to fields of the structure or of a context.
func Refs(k int) {
	names := []string{"a", "b", "c"}
	s := &ast.Struct{Name: "s", Members: []ast.Member{}}
	ctx := &ast.Context{Name: "s"}
	types := func(w string) (ast.Type, uint) {
		switch vf.Choose(w, 4) {
		case 0:
			n := []uint{8, 16, 32, 64}[vf.Choose("size", 4)]
			return &ast.IntType{Size: n}, n
		case 1:
			return &ast.CharType{}, 0
		case 2:
			return &ast.NulTermString{}, 0
		}
		return &ast.FixedArrayMember{Base: ast.U8, Size: &ast.IntegerLiteral{Value: 2}}, 0
	}
	local := make([]ast.Type, 3)
	lsize := make([]uint, 3)
	cty := make([]ast.Type, 3)
	csize := make([]uint, 3)
	for i := 0; i < 2; i++ {
		j := i
		if k&2 != 0 {
			j = 1 - i
		}
		if vf.Choose("present", 2) == 1 {
			local[j], lsize[j] = types("type")
			s.Members = append(s.Members, &ast.Field{Name: names[j], Type: local[j]})
		}
		if i == 0 {
			s.Members = append(s.Members, &ast.UnionMember{Name: "c", Tag: &ast.IDRef{Name: "a"}})
		}
	}
	if k&1 == 1 {
		for j := 1; j < 3; j++ {
			n := []uint{8, 64}[vf.Choose("size", 2)]
			cty[j], csize[j] = &ast.IntType{Size: n}, n
			ctx.Members = append(ctx.Members, &ast.Field{Name: names[j], Type: cty[j]})
		}
	}
	f := &ast.File{Structs: []*ast.Struct{s}, Contexts: []*ast.Context{ctx}}
	r, err := inspect.NewResolver(f)
	if err != nil {
		vf.Fail("description resolves")
		return
	}
	for i, n := range names {
		t, err := r.IntType(&ast.IDRef{Name: n}, s)
		same(t, err, local[i], lsize[i])
		t, err = r.IntType(&ast.IDRef{Scope: "s", Name: n}, s)
		same(t, err, cty[i], csize[i])
		_, err = r.IntType(&ast.IDRef{Scope: "none", Name: n}, s)
		vf.Assert(err != nil, "a reference into an unknown context is an error")
	}
}

func same(t *ast.IntType, err error, want ast.Type, size uint) {
	if size == 0 {
		vf.Reach("error")
		vf.Assert(err != nil, "a reference to a missing or non-integer field is an error")
		return
	}
	vf.Reach("found")
	vf.Assert(err == nil, "a reference to an integer field resolves")
	vf.Assert(t == want && t.Size == size, "a reference resolves to the type of its field")
}

// Mixed: one description split over three files in every order.
func Mixed(perm int) {
	v := vf.I64("v")
	a := &ast.File{
		Constants: []*ast.Constant{{Name: "A", Value: v}, {Name: "B", Value: 2}},
		Structs:   []*ast.Struct{{Name: "ext"}, {Name: "one", Members: []ast.Member{&ast.EOS{}}}},
	}
	b := &ast.File{
		Constants: []*ast.Constant{{Name: "A", Value: v}},
		Structs:   []*ast.Struct{{Name: "one"}, {Name: "two", Members: []ast.Member{&ast.EOS{}}}, {Name: "three", Members: []ast.Member{}}},
		Contexts:  []*ast.Context{{Name: "c", Members: []*ast.Field{{Name: "x", Type: ast.U8}}}},
	}
	c := &ast.File{
		Contexts: []*ast.Context{{Name: "d", Members: []*ast.Field{{Name: "x", Type: ast.U16}}}},
		Structs:  []*ast.Struct{{Name: "two"}, {Name: "one"}, {Name: "ext"}},
	}
	fs := [][]*ast.File{{a, b, c}, {a, c, b}, {b, a, c}, {b, c, a}, {c, a, b}, {c, b, a}}[perm]
	vf.MapOrder(true)
	r, err := inspect.NewResolverFiles(fs)
	vf.MapOrder(false)
	if err != nil {
		vf.Fail("a consistent description resolves")
		return
	}
	for _, w := range []struct {
		n string
		s *ast.Struct
	}{{"one", a.Structs[1]}, {"two", b.Structs[1]}, {"three", b.Structs[2]}} {
		s, ok := r.Struct(w.n)
		vf.Assert(ok && s == w.s, "a structure resolves to its definition")
	}
	s, ok := r.Struct("ext")
	vf.Assert(ok && s.Extern(), "an extern structure is known")
	x, ok := r.Constant("A")
	vf.Assert(ok && x == v, "a constant has the value defined")
	x, ok = r.Constant("B")
	vf.Assert(ok && x == 2, "a constant has the value defined")
	cc, ok := r.Context("c")
	vf.Assert(ok && cc == b.Contexts[0], "a context resolves to its definition")
	cc, ok = r.Context("d")
	vf.Assert(ok && cc == c.Contexts[0], "a context resolves to its definition")
	vf.Assert(len(r.Structs()) == 4, "every structure is listed once")
}

// Many: many declarations in several files; the argument says which of them is
// repeated in the last file.
func Many(again int) {
	const n = 40
	var fs []*ast.File
	for i := 0; i < 4; i++ {
		fs = append(fs, &ast.File{})
	}
	var val []int64
	name := func(p string, i int) string { return p + strconv.Itoa(i) }
	for i := 0; i < n; i++ {
		f := fs[i*7%3]
		val = append(val, vf.I64("value"))
		f.Constants = append(f.Constants, &ast.Constant{Name: name("C", i), Value: val[i]})
		f.Structs = append(f.Structs, &ast.Struct{Name: name("s", i), Members: []ast.Member{&ast.Field{Name: name("f", i), Type: &ast.IntType{Size: 8}}}})
		f.Contexts = append(f.Contexts, &ast.Context{Name: name("x", i), Members: []*ast.Field{{Name: name("g", i), Type: &ast.IntType{Size: 16}}}})
	}
	conflict := false
	k := []int{0, 17, n - 1}[vf.Choose("which", 3)]
	switch again {
	case 1:
		v := vf.I64("again")
		conflict = v != val[k]
		fs[3].Constants = append(fs[3].Constants, &ast.Constant{Name: name("C", k), Value: v})
	case 2:
		conflict = true
		fs[3].Structs = append(fs[3].Structs, &ast.Struct{Name: name("s", k), Members: []ast.Member{&ast.EOS{}}})
	case 3:
		conflict = true
		fs[3].Contexts = append(fs[3].Contexts, &ast.Context{Name: name("x", k)})
	case 4:
		fs[3].Structs = append(fs[3].Structs, &ast.Struct{Name: name("s", k)})
	}
	r, err := inspect.NewResolverFiles(fs)
	vf.Observe("err", err != nil)
	vf.Assert((err != nil) == conflict, "an error if and only if a name has two definitions")
	if err != nil {
		vf.Reach("conflict")
		return
	}
	vf.Reach("resolved")
	for i := 0; i < n; i++ {
		v, ok := r.Constant(name("C", i))
		vf.Assert(vf.And(ok, v == val[i]), "a constant has the value defined")
		s, ok := r.Struct(name("s", i))
		vf.Assert(ok && len(s.Members) == 1 && s.Members[0].(*ast.Field).Name == name("f", i), "a structure is the one defined")
		c, ok := r.Context(name("x", i))
		vf.Assert(ok && len(c.Members) == 1 && c.Members[0].Name == name("g", i), "a context is the one defined")
	}
	_, ok := r.Constant(name("C", n))
	vf.Assert(!ok, "unknown constant")
}

// LongLists: an integer list of n entries, one of which is anywhere.
func LongLists(n int) {
	r := inspect.NewResolverEmpty()
	l := &ast.IntegerList{}
	lo, hi := vf.I64("lo"), vf.I64("hi")
	vf.Assume(vf.And(0 <= lo, lo <= hi))
	at := []int{0, n / 2, n - 1}[vf.Choose("at", 3)]
	x := vf.I64("x")
	vf.Assume(0 <= x)
	overlap, in := false, vf.And(lo <= x, x <= hi)
	for i := 0; i < n; i++ {
		a := int64(i*13%n)*100 + 50
		b := a + int64(i%5)
		if i == at {
			l.Ranges = append(l.Ranges, ast.NewIntegerRangeLiteral(lo, hi))
			continue
		}
		overlap = vf.Or(overlap, vf.And(a <= hi, lo <= b))
		in = vf.Or(in, vf.And(a <= x, x <= b))
		if a == b {
			l.Ranges = append(l.Ranges, ast.NewIntegerRangeSingleLiteral(a))
		} else {
			l.Ranges = append(l.Ranges, ast.NewIntegerRangeLiteral(a, b))
		}
	}
	s, err := r.Intervals(l)
	vf.Observe("err", err != nil)
	vf.Assert((err != nil) == overlap, "an error if and only if entries overlap")
	if err != nil {
		vf.Reach("overlap")
		return
	}
	vf.Reach("good")
	vf.Assert(s.Contains(uint64(x)) == in, "the list denotes its values")
}

// Package c16 checks that generation is deterministic.
package c16

import (
	"os"

	"github.com/mmcloughlin/random"
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/gsrc"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/rnd"
	"github.com/mmcloughlin/trunnel/vfw/schemas"
	"github.com/mmcloughlin/trunnel/vfw/tvl"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	n := vf.Range(0, len(schemas.Sets)-1)
	vf.Add(vf.Spec{Name: "c16.Texts", F: Texts, Quick: n, Reach: []string{"same", "vectors"}, Reps: 40, MaxSteps: 200e6, Name1: schemaName})
	vf.Add(vf.Spec{Name: "c16.Orders", F: Orders, Quick: vf.Range(0, len(small)-1), Reach: []string{"same", "vectors"}, Reps: 100, MaxPaths: 60, MaxSteps: 60e6})
	vf.Add(vf.Spec{Name: "c16.Package", F: Package, Quick: vf.Range(0, len(small)-1), Reach: []string{"same"}, Reps: 40, MaxSteps: 200e6})
	vf.Add(vf.Spec{Name: "c16.Decls", F: Decls, Quick: n, Reach: []string{"declared"}, Reps: 20, MaxSteps: 60e6, Name1: schemaName})
	vf.Add(vf.Spec{Name: "c16.Vectors", F: Vectors, Quick: targets(), Reach: []string{"same"}, Reps: 40, MaxPaths: 16, Name1: name})
}

func schemaName(i int) string {
	for _, c := range glue.Cases {
		if c.Schema == i {
			return c.Name
		}
	}
	return ""
}

func targets() []int {
	var out []int
	for i, t := range tvl.Targets {
		if !t.NotImplemented {
			out = append(out, i)
		}
	}
	return out
}

func name(i int) string { return tvl.Targets[i].C.Name + "." + tvl.Targets[i].C.Struct }

// output is everything generated from a description.
type output struct {
	parsers, tests, fuzz []byte
	failed               int
	corpus               *tv.Corpus
}

func files(texts []string) []*ast.File {
	var fs []*ast.File
	for _, t := range texts {
		f, err := parse.String(t)
		if err != nil {
			vf.Stop()
		}
		fs = append(fs, f)
	}
	return fs
}

func generate(texts []string, vectors bool) *output {
	random.Hook = func(seed int64, seeded bool) random.Interface { return rnd.Seq(uint64(seed), 0) }
	fs := files(texts)
	o := &output{}
	var err error
	if o.parsers, err = gen.Marshallers("some", fs); err != nil {
		o.failed++
	}
	if !vectors {
		return o
	}
	if o.corpus, err = tv.GenerateFiles(fs, tv.WithRandom(random.NewWithSeed(7))); err != nil {
		o.failed += 2
		return o
	}
	if o.tests, err = gen.CorpusTests("some", o.corpus); err != nil {
		o.failed += 4
	}
	if o.fuzz, err = gen.Fuzzers("some", o.corpus); err != nil {
		o.failed += 8
	}
	return o
}

func compare(a, b *output) {
	vf.Assert(a.failed == b.failed, "the same outcome")
	vf.Assert(string(a.parsers) == string(b.parsers), "the same parsers")
	vf.Assert(string(a.tests) == string(b.tests), "the same tests")
	vf.Assert(string(a.fuzz) == string(b.fuzz), "the same fuzz entries")
	if a.corpus != nil && b.corpus != nil {
		vf.Assert(equal(a.corpus, b.corpus), "the same vectors")
		vf.Reach("vectors")
	}
	vf.Reach("same")
}

func equal(a, b *tv.Corpus) bool {
	if len(a.Suites) != len(b.Suites) {
		return false
	}
	eq := true
	for i := range a.Suites {
		s, t := a.Suites[i], b.Suites[i]
		if s.Type != t.Type || len(s.Vectors) != len(t.Vectors) {
			return false
		}
		for k := range s.Vectors {
			v, w := s.Vectors[k], t.Vectors[k]
			eq = vf.And(eq, vf.EqBytes(v.Data, w.Data))
			if !sameConstraints(v.Constraints, w.Constraints) {
				return false
			}
		}
	}
	return eq
}

func sameConstraints(a, b tv.Constraints) bool {
	return within(a, b) && within(b, a)
}

func within(a, b tv.Constraints) bool {
	for s, m := range a {
		for k, v := range m {
			w, ok := b.Lookup(s, k)
			if !ok || v != w {
				return false
			}
		}
	}
	return true
}

// other is a description generated in between.
var other = []string{
	"const N = 9; const M = 4; context c { u8 t; u16 n; }; struct x with context c { union u[c.t] { 1: u8 a[c.n]; default: u8 b[N]; }; };\nstruct s1 { u8 a; struct q { u8 m[M]; } i; };",
	"struct y { u8 t IN [1,2,3]; union u[t] { 1: u8 a; 2: u16 b; default: ; }; };",
}

// Texts: once more, with maps in another order and after other work.
func Texts(i int) {
	src := schemas.Sources(i)
	v := tvl.Bounded(i)
	a := generate(src, v)
	order := vf.Choose("order", 5)
	switch order {
	case 0, 3:
		_ = generate(other, true)
	case 1:
		_ = generate(schemas.Sources((i+1)%len(schemas.Sets)), tvl.Bounded((i+1)%len(schemas.Sets)))
	}
	vf.MapMode(order)
	compare(a, generate(src, v))
}

// small descriptions with several names of each kind.
var small = [][]string{
	{"const A = 1; const B = 2; struct x { u8 a[A]; }; struct y { u8 b[B]; };"},
	{"context c { u8 t; }; context d { u8 n; }; struct x with context c, d { union u[c.t] { 1: u8 a; 2: u8 b[d.n]; }; };"},
	{"struct x { u8 t; u8 n; union u[t] { 1: u8 a[n]; default: u16 b; }; };"},
	{"struct a { u8 x; };", "struct b { u8 y; };", "struct c { struct a a; struct b b; };"},
	{"extern struct a;", "struct a { u8 x; }; struct b { struct a s; };"},
	{"const A = 1;", "const A = 1; const B = 3;", "struct x { u8 v IN [A, B]; u8 w; };"},
	{"struct x { u8 t; union u[t] { 1..2: struct p { u8 a; } q; 3: struct r { u8 b; } s; }; };"},
}

// Orders: every order of map iteration.
func Orders(i int) {
	a := generate(small[i], true)
	vf.MapOrder(true)
	b := generate(small[i], true)
	vf.MapOrder(false)
	compare(a, b)
}

// Package: whole packages, with other ones generated before and in between.
func Package(i int) {
	random.Hook = func(seed int64, seeded bool) random.Interface { return rnd.Seq(uint64(seed), 0) }
	seed := int64(3 + vf.Choose("seed", 2))
	write := func(texts []string, pkg string, seed int64) (string, bool) {
		dir := vf.TempDir()
		err := gen.Package(gen.Config{Package: pkg, Dir: dir, Seed: seed}, files(texts))
		return dir, err == nil
	}
	if vf.Bool("before") {
		write(other, "before", 11)
	}
	a, ok1 := write(small[i], "some", seed)
	order := vf.Choose("order", 5)
	if order%2 == 0 {
		write(other, "between", 3)
	}
	vf.MapMode(order)
	b, ok2 := write(small[i], "some", seed)
	vf.MapMode(0)
	vf.Assert(ok1 == ok2, "the same outcome")
	as, bs := vf.ListFiles(a), vf.ListFiles(b)
	vf.Assert(len(as) == len(bs), "the same number of files")
	for k := range as {
		vf.Assert(as[k] == bs[k], "the same files")
		if as[k][len(as[k])-1] == '/' {
			continue
		}
		x, err1 := os.ReadFile(a + "/" + as[k])
		y, err2 := os.ReadFile(b + "/" + bs[k])
		vf.Assert(err1 == nil && err2 == nil, "a file can be read")
		vf.Assert(string(x) == string(y), "the same contents")
	}
	vf.Reach("same")
}

// Decls: every declaration once and in order.
func Decls(i int) {
	vf.MapMode(vf.Choose("order", 5))
	src, err := gen.Marshallers("some", files(schemas.Sources(i)))
	vf.Assert(err == nil, "no error")
	f := gsrc.Read(src)
	vf.Assert(f.Pkg == "some", "the parsers belong to the package")
	n := 0
	last := -1
	for _, fl := range schemas.Sets[i].Files {
		for _, c := range fl.Ctxs {
			vf.Assert(count(f, c.Name) == 1, "a context is declared once")
			n++
		}
		for _, s := range fl.Structs {
			if s.Extern {
				continue
			}
			vf.Assert(count(f, s.Name) == 1, "a structure is declared once")
			n++
			m := 0
			for _, w := range f.Meths {
				if gsrc.Norm(w) == gsrc.Norm(s.Name)+".parse" {
					m++
				}
			}
			vf.Assert(m == 1, "a structure has one parser")
			if at := index(f, s.Name); top(s, schemas.Sources(i)) {
				vf.Assert(at > last, "structures are in source order")
				last = at
			}
			vf.Reach("declared")
		}
	}
	vf.Assert(len(f.Types) == n, "nothing else is declared")
}

// top reports whether a structure is certainly not declared inside another.
func top(s *ref.Struct, texts []string) bool {
	for _, t := range texts {
		for k := 0; k+7+len(s.Name) < len(t); k++ {
			if (k == 0 || t[k-1] == '\n') && t[k:k+7+len(s.Name)] == "struct "+s.Name {
				return true
			}
		}
	}
	return false
}

func index(f *gsrc.File, n string) int {
	for k, t := range f.Types {
		if gsrc.Norm(t) == gsrc.Norm(n) {
			return k
		}
	}
	return -1
}

func count(f *gsrc.File, n string) int {
	c := 0
	for _, t := range f.Types {
		if gsrc.Norm(t) == gsrc.Norm(n) {
			c++
		}
	}
	return c
}

// Vectors: the same numbers give the same vectors.
func Vectors(i int) {
	t := tvl.Targets[i]
	s := t.Source(4)
	tape := rnd.Record(s)
	a, err1 := t.Run(tape, s.Fix)
	tape.Again()
	vf.MapMode(1 + vf.Choose("order", 2))
	b, err2 := t.Run(tape, func() {})
	vf.Assert((err1 == nil) == (err2 == nil), "the same outcome")
	if err1 != nil {
		return
	}
	vf.Assert(equal(a, b), "the same vectors")
	vf.Reach("same")
}

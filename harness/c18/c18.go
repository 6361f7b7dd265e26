// Package c18 checks generated tests, fuzz entries and corpus files.
package c18

import (
	"os"
	"path/filepath"

	"github.com/mmcloughlin/random"
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/gpl"
	"github.com/mmcloughlin/trunnel/vfw/gsrc"
	"github.com/mmcloughlin/trunnel/vfw/rnd"
	"github.com/mmcloughlin/trunnel/vfw/schemas"
	"github.com/mmcloughlin/trunnel/vfw/tvl"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	n := vf.Range(0, len(shapes)-1)
	vf.Add(vf.Spec{Name: "c18.Tests", F: Tests, Quick: n, Reach: []string{"listed", "skipped"}})
	vf.Add(vf.Spec{Name: "c18.Fuzzers", F: Fuzzers, Quick: n, Reach: []string{"entry", "skipped"}})
	vf.Add(vf.Spec{Name: "c18.Corpus", F: Corpus, Quick: n, Reach: []string{"written", "distinct", "equal"}})
	vf.Add(vf.Spec{Name: "c18.Package", F: Package, Quick: packages(), Reach: []string{"listed", "entry", "written", "skipped"}, MaxSteps: 200e6, Name1: schemaName})
	vf.Add(vf.Spec{Name: "c18.Fuzz", F: Fuzz, Quick: fuzzJobs(2, 1), Full: fuzzJobs(6, 3), Reach: []string{"accepted", "rejected"}, MaxPaths: 300, Name1: fuzzName})
}

// shapes are the lengths of the vectors of each structure; -n is a vector of n
// bytes most of which are fixed, -1000-n one of n bytes all of which are.
var shapes = [][][]int{
	{},
	{{}},
	{{0}},
	{{1}},
	{{0, 0}},
	{{2}},
	{{1, 1}},
	{{1, 0, 1}},
	{{3}},
	{{1, 2}},
	{{-20}},
	{{-300}},
	{{-17, -17}},
	{{1}, {1}},
	{{}, {1}},
	{{1}, {}, {0}},
	{{0}, {1, 1}},
	{{1}, {1}, {1}},
	{{-18, 1}, {0}},
	{{1, 1}, {1, 1}},
	{fixed(0, 40), {1}},
	{{1}, fixed(30, 10), fixed(60, 6), fixed(250, 8)},
	{fixed(1, 1), fixed(2, 1), fixed(3, 1), fixed(4, 1), fixed(5, 1), fixed(6, 1), fixed(7, 1), fixed(8, 1), fixed(9, 1), fixed(10, 1), fixed(11, 1), {1}},
	{append(fixed(0, 12), fixed(0, 12)...)},
}

var names = []string{"one", "two_words", "Loud", "a", "b1", "b_2", "b_2_c", "CamelCase", "x", "y", "z", "last"}

// fixed are the numbers of n vectors of fixed bytes, one longer than the other.
func fixed(from, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, -1000-from-i)
	}
	return out
}

func corpus(arg int, ctx bool) *tv.Corpus {
	c := &tv.Corpus{}
	for i, s := range shapes[arg] {
		var vs []tv.Vector
		for k, n := range s {
			v := tv.NewVector(data(n))
			if ctx && (n > -1000 || i == 1 && k == len(s)-1) {
				switch vf.Choose("constraints", 3) {
				case 1:
					v.Constraints = tv.NewConstraints()
				case 2:
					v.Constraints = tv.NewConstraints()
					vf.Assume(v.Constraints.Set("ctx", "field", vf.I64("value")) == nil)
				}
			}
			vs = append(vs, v)
		}
		c.AddVectors(names[i], vs)
		vf.Assert(len(c.Suites) == i+1 && c.Suites[i].Type == names[i], "a corpus keeps what is added")
		have := c.Vectors(names[i])
		vf.Assert(len(have) == len(vs), "a corpus keeps the vectors")
		for k := range vs {
			vf.Assert(vf.EqBytes(have[k].Data, vs[k].Data), "a corpus keeps the vectors")
		}
	}
	return c
}

func data(n int) []byte {
	if n >= 0 {
		return vf.Bytes("d", n)
	}
	if n <= -1000 {
		b := make([]byte, -n-1000)
		for i := range b {
			b[i] = byte(n + i*i)
		}
		return b
	}
	b := make([]byte, -n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	b[len(b)/2] = vf.Byte("d")
	b[len(b)-1] = vf.Byte("d")
	return b
}

func needsContext(vs []tv.Vector) bool {
	for _, v := range vs {
		if len(v.Constraints) > 0 {
			return true
		}
	}
	return false
}

// Tests: the test file lists the vectors.
func Tests(arg int) {
	c := corpus(arg, true)
	src, err := gen.CorpusTests("some", c)
	vf.Assert(err == nil, "no error")
	checkTests(src, "some", c)
}

func checkTests(src []byte, pkg string, c *tv.Corpus) {
	f := gsrc.Read(src)
	vf.Assert(f.Pkg == pkg, "the test file belongs to the package")
	used := 0
	for _, s := range c.Suites {
		fns := f.Calling(s.Type)
		if needsContext(s.Vectors) {
			vf.Assert(len(fns) == 0, "no test without context values for a structure that needs them")
			vf.Reach("skipped")
			continue
		}
		var lists [][]uint64
		for _, fn := range fns {
			vf.Assert(len(fn.Name) > 4 && fn.Name[:4] == "Test", "the vectors are in a test")
			lists = append(lists, fn.Lists...)
		}
		used += len(fns)
		vf.Assert(len(lists) == len(s.Vectors), "as many vectors listed as there are")
		for i := range lists {
			vf.Assert(gsrc.Same(lists[i], s.Vectors[i].Data), "a vector is listed byte for byte")
			vf.Reach("listed")
		}
	}
	for i, a := range f.Funcs {
		for _, b := range f.Funcs[:i] {
			vf.Assert(a.Name != b.Name, "tests have different names")
		}
	}
	lists := 0
	for _, fn := range f.Funcs {
		if len(fn.Lists) > 0 {
			lists++
		}
	}
	vf.Assert(lists <= used, "no vectors outside the tests of the structures")
}

// Fuzzers: an entry for every structure that needs no context values.
func Fuzzers(arg int) {
	c := corpus(arg, true)
	src, err := gen.Fuzzers("some", c)
	vf.Assert(err == nil, "no error")
	checkFuzz(src, "some", c)
}

func checkFuzz(src []byte, pkg string, c *tv.Corpus) {
	f := gsrc.Read(src)
	vf.Assert(f.Pkg == pkg, "the fuzz file belongs to the package")
	vf.Assert(len(f.Tags) > 0, "the fuzz file is conditional")
	n := 0
	for _, s := range c.Suites {
		fns := f.Calling(s.Type)
		if needsContext(s.Vectors) {
			vf.Assert(len(fns) == 0, "no fuzz entry without context values for a structure that needs them")
			vf.Reach("skipped")
			continue
		}
		vf.Assert(len(fns) == 1, "one fuzz entry for a structure")
		vf.Assert(len(fns[0].Name) > 4 && fns[0].Name[:4] == "Fuzz" && gsrc.Norm(fns[0].Name[4:]) == gsrc.Norm(s.Type), "the fuzz entry is named after the structure")
		vf.Reach("entry")
		n++
	}
	vf.Assert(len(f.Funcs) == n, "no other fuzz entries")
}

// Corpus: the files of the corpus are the vectors.
func Corpus(arg int) {
	c := corpus(arg, false)
	dir := vf.TempDir()
	sub := []string{"", "some/where"}[vf.Choose("sub", 2)]
	target := filepath.Join(dir, sub)
	err := tv.WriteCorpus(c, target)
	vf.Assert(err == nil, "no error")
	checkCorpus(target, c)
}

func checkCorpus(dir string, c *tv.Corpus) {
	count := 0
	files := vf.ListFiles(dir)
	for _, s := range c.Suites {
		var have [][]byte
		for _, p := range files {
			if p[len(p)-1] == '/' || len(p) <= len(s.Type) || p[:len(s.Type)+1] != s.Type+"/" {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, p))
			vf.Assert(err == nil, "a corpus file can be read")
			have = append(have, b)
			count++
		}
		for i, b := range have {
			found := false
			for _, v := range s.Vectors {
				found = vf.Or(found, vf.EqBytes(b, v.Data))
			}
			vf.Assert(found, "a corpus file is a vector")
			vf.Reach("written")
			for _, o := range have[:i] {
				vf.Assert(!vf.EqBytes(b, o), "one file for a vector")
			}
		}
		for i, v := range s.Vectors {
			found := false
			for _, b := range have {
				found = vf.Or(found, vf.EqBytes(b, v.Data))
			}
			vf.Assert(found, "a vector has its file")
			for _, w := range s.Vectors[:i] {
				if vf.EqBytes(v.Data, w.Data) {
					vf.Reach("equal")
				} else {
					vf.Reach("distinct")
				}
			}
		}
	}
	for _, p := range files {
		if p[len(p)-1] != '/' {
			count--
		}
	}
	vf.Assert(count == 0, "no files outside the directories of the structures")
}

func packages() []int {
	var out []int
	for i := range schemas.Sets {
		if tvl.Bounded(i) {
			out = append(out, i)
		}
	}
	return out
}

func schemaName(i int) string {
	for _, c := range glue.Cases {
		if c.Schema == i {
			return c.Name
		}
	}
	return ""
}

// Package: the files of a generated package belong to the vectors.
func Package(i int) {
	src := rnd.Seq(3, 0)
	src.Free = 2
	tape := rnd.Record(src)
	random.Hook = func(int64, bool) random.Interface { return tape }
	var fs []*ast.File
	for _, t := range schemas.Sources(i) {
		f, err := parse.String(t)
		if err != nil {
			vf.Stop()
		}
		fs = append(fs, f)
	}
	dir := vf.TempDir()
	vf.Assert(gen.Package(gen.Config{Package: "some", Dir: dir, Seed: 11}, fs) == nil, "no error")
	tape.Again()
	c, err := tv.GenerateFiles(fs, tv.WithRandom(tape))
	if err != nil {
		vf.Reach("unsupported")
		return
	}
	src1, err := os.ReadFile(filepath.Join(dir, "gen-marshallers_test.go"))
	vf.Assert(err == nil, "there is a test file")
	checkTests(src1, "some", c)
	src2, err := os.ReadFile(filepath.Join(dir, "gen-fuzz.go"))
	vf.Assert(err == nil, "there is a fuzz file")
	checkFuzz(src2, "some", c)
	checkCorpus(filepath.Join(dir, "testdata", "fuzz"), c)
}

func fuzzJobs(upto, extra int) []int {
	var out []int
	for _, j := range gpl.Jobs(upto, extra) {
		if c, _, _ := gpl.Pick(j); c.Fuzz != nil {
			out = append(out, j)
		}
	}
	return out
}

func fuzzName(i int) string {
	c, _, _ := gpl.Pick(i)
	return c.Name + "." + c.Struct
}

// Fuzz: the verdict of a fuzz entry is that of the parser.
func Fuzz(arg int) {
	c, _, n := gpl.Pick(arg)
	d := vf.Bytes("data", n)
	r := c.Fuzz(append([]byte(nil), d...))
	_, err := c.One(append([]byte(nil), d...), nil)
	vf.Observe("r", r)
	if err == nil {
		vf.Reach("accepted")
		vf.Assert(r == 1, "accepted data is interesting")
		return
	}
	vf.Reach("rejected")
	vf.Assert(r != 1, "rejected data is not interesting")
}

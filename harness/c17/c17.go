// Package c17 checks that package generation reports failures.
package c17

import (
	"os"
	"path/filepath"

	"github.com/mmcloughlin/random"
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/vfw/rnd"
	"github.com/mmcloughlin/trunnel/vfw/txt"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	n := vf.Range(0, len(good)-1)
	vf.Add(vf.Spec{Name: "c17.Obstacle", F: Obstacle, Quick: n, Reach: []string{"error"}, MaxSteps: 60e6})
	vf.Add(vf.Spec{Name: "c17.Limit", F: Limit, Quick: n, Reach: []string{"error", "complete"}, MaxSteps: 60e6})
	vf.Add(vf.Spec{Name: "c17.Place", F: Place, Quick: n, Reach: []string{"error", "complete"}, MaxSteps: 60e6})
	vf.Add(vf.Spec{Name: "c17.Existing", F: Existing, Quick: n, Reach: []string{"complete"}, MaxSteps: 60e6})
	vf.Add(vf.Spec{Name: "c17.Bad", F: Bad, Quick: vf.Range(0, len(txt.Bad)-1), Reach: []string{"error"}, MaxSteps: 60e6})
	vf.Add(vf.Spec{Name: "c17.Good", F: Good, Quick: vf.Range(0, len(fine)-1), Reach: []string{"written"}, MaxSteps: 60e6})
	vf.Add(vf.Spec{Name: "c17.Name", F: Name, Quick: vf.Range(0, len(pkgs)-1), Reach: []string{"error", "complete"}, MaxSteps: 60e6})
}

// good are descriptions to generate packages from; those from plain on have no
// vectors.
var good = [][]string{
	{"struct one { u8 a; };"},
	{"struct one { u8 a; u16 b; };\nstruct two_words { struct one x; nulterm s; };"},
	{"context c { u8 t; };\nstruct ctxed with context c { union u[c.t] { 1: u8 a; 2: u16 b; }; };\nstruct other { u8 n; u8 d[n]; };"},
	{"struct tagged { u8 t; union u[t] { 1: u8 a; 2..4: u16 b; default: u32 c; }; };"},
	{"const N = 2;\nstruct first { u8 a[N]; };", "struct second { struct first f; eos; };"},
	{"const N = 2;"},
	{"context c { u8 t; };\nstruct ctxed with context c { union u[c.t] { 1: u8 a; 2: u16 b; }; };"},
	{"struct rest { u8 a[..-2]; u16 b; };"},
	{"struct one { u8 a; };\nstruct rest { u8 t; union u[t] with length ..-1 { 1: u8 a; }; u8 z; };"},
	{"struct chain { u8 t; union u[t] { 0: ; 1: struct chain next; }; };"},
}

const plain = 7

func read(texts []string) []*ast.File {
	var fs []*ast.File
	for _, t := range texts {
		f, err := parse.String(t)
		if err != nil {
			vf.Fail("description accepted")
		}
		fs = append(fs, f)
	}
	return fs
}

func generate(dir, pkg string, fs []*ast.File) error {
	return generateWith(dir, pkg, fs, func() {})
}

// generateWith calls f when a source of random numbers is made.
func generateWith(dir, pkg string, fs []*ast.File, f func()) error {
	random.Hook = func(seed int64, seeded bool) random.Interface {
		if seeded {
			f()
		}
		return rnd.Seq(uint64(seed), 0)
	}
	return gen.Package(gen.Config{Package: pkg, Dir: dir, Seed: 5}, fs)
}

type artefact struct {
	path string
	data []byte
}

// want lists the artefacts of an undisturbed run and everything below the
// directory.
func want(i int, fs []*ast.File) ([]artefact, []string) {
	dir := vf.TempDir()
	vf.Assert(generate(dir, "some", fs) == nil, "generation succeeds without an obstacle")
	all := vf.ListFiles(dir)
	var out []artefact
	for _, p := range all {
		if p[len(p)-1] != '/' {
			b, err := os.ReadFile(filepath.Join(dir, p))
			vf.Assert(err == nil, "an artefact can be read")
			out = append(out, artefact{p, b})
		}
	}
	b, err := gen.Marshallers("some", fs)
	vf.Assert(err == nil, "parsers can be generated")
	found := false
	for _, a := range out {
		found = found || string(a.data) == string(b)
	}
	vf.Assert(found, "the parser file is written")
	if i < plain {
		vf.Assert(len(out) >= 3, "parser, test and fuzz file are written")
	}
	return out, all
}

// settled checks that an outcome without error is complete.
func settled(dir string, err error, as []artefact) {
	if err != nil {
		vf.Reach("error")
		return
	}
	for _, a := range as {
		b, e := os.ReadFile(filepath.Join(dir, a.path))
		vf.Assert(e == nil, "no success without every artefact")
		vf.Assert(vf.EqBytes(b, a.data), "no success without the whole contents")
	}
	vf.Reach("complete")
}

// Obstacle: something else is where a file or directory has to be.
func Obstacle(i int) {
	fs := read(good[i])
	as, all := want(i, fs)
	dir := vf.TempDir()
	p := all[vf.Choose("where", len(all))]
	if p[len(p)-1] == '/' {
		mkdir(filepath.Dir(filepath.Join(dir, p)))
		write(filepath.Join(dir, p), []byte("in the way"))
	} else {
		mkdir(filepath.Join(dir, p, "in the way"))
	}
	settled(dir, generate(dir, "some", fs), as)
}

// Limit: files cannot grow beyond a number of bytes.
func Limit(i int) {
	fs := read(good[i])
	as, _ := want(i, fs)
	n := vf.Int("limit")
	vf.Assume(n >= 0)
	vf.Assume(n < 100000)
	dir := vf.TempDir()
	late := vf.Bool("late")
	if !late {
		vf.FileLimit(n)
	}
	err := generateWith(dir, "some", fs, func() {
		if late {
			vf.FileLimit(n)
		}
	})
	vf.FileLimit(-1)
	settled(dir, err, as)
}

// Place: the directory is missing, or not one.
func Place(i int) {
	fs := read(good[i])
	as, _ := want(i, fs)
	dir := vf.TempDir()
	switch vf.Choose("place", 4) {
	case 0:
		dir = filepath.Join(dir, "missing")
	case 1:
		dir = filepath.Join(dir, "file")
		write(dir, []byte("x"))
	case 2:
		dir = filepath.Join(dir, "file")
		write(dir, nil)
		dir = filepath.Join(dir, "below")
	case 3:
		mkdir(filepath.Join(dir, "sub"))
		dir += "/./sub/../sub/"
	}
	settled(dir, generate(dir, "some", fs), as)
}

// Existing: files already there are replaced or left alone.
func Existing(i int) {
	fs := read(good[i])
	as, all := want(i, fs)
	dir := vf.TempDir()
	for _, p := range all {
		if p[len(p)-1] == '/' {
			mkdir(filepath.Join(dir, p))
		}
	}
	// an artefact of an earlier run, shorter or longer
	a := as[vf.Choose("stale", len(as))]
	old := vf.Bytes("old", 4)
	if vf.Bool("long") {
		old = append(append(append([]byte(nil), old...), a.data...), old...)
	}
	write(filepath.Join(dir, a.path), old)
	var mine []artefact
	note := vf.Bytes("mine", 2)
	for _, p := range append([]string{"other.go", "gen-marshallers.go.orig", "testdata/notes", "unrelated/file"}, beside(all)...) {
		mkdir(filepath.Dir(filepath.Join(dir, p)))
		write(filepath.Join(dir, p), note)
		mine = append(mine, artefact{p, note})
	}
	err := generate(dir, "some", fs)
	vf.Assert(err == nil, "files already there are no failure")
	settled(dir, err, as)
	for _, m := range mine {
		b, err := os.ReadFile(filepath.Join(dir, m.path))
		vf.Assert(err == nil, "an unrelated file is kept")
		vf.Assert(vf.EqBytes(b, m.data), "an unrelated file is unchanged")
	}
	n := 0
	for _, p := range vf.ListFiles(dir) {
		if p[len(p)-1] != '/' {
			n++
		}
	}
	vf.Assert(n == len(as)+len(mine), "no other files")
}

// beside names a file in each directory.
func beside(all []string) []string {
	var out []string
	for _, p := range all {
		if p[len(p)-1] == '/' {
			out = append(out, p+"my-own")
		}
	}
	return out
}

func mkdir(p string) {
	if os.MkdirAll(p, 0o755) != nil {
		vf.Stop()
	}
}

func write(p string, b []byte) {
	if os.WriteFile(p, b, 0o644) != nil {
		vf.Stop()
	}
}

// Bad: an error and no crash.
func Bad(i int) {
	fs := read([]string{"struct fine { u8 a; };", txt.Bad[i]})
	if vf.Bool("first") {
		fs[0], fs[1] = fs[1], fs[0]
	}
	if vf.Bool("alone") {
		fs = read([]string{txt.Bad[i]})
	}
	var err error
	crash := vf.Catch(func() { err = generate(vf.TempDir(), "some", fs) })
	vf.Assert(!crash, "no crash")
	vf.Assert(err != nil, "something that does not exist is an error")
	vf.Reach("error")
}

// fine are descriptions near the bad ones.
var fine = []string{
	"const N = 3; struct a { u8 t; union u[t] { N: u8 x; }; u8 y IN [N]; u8 z[N]; char w[N]; };",
	"struct a { u8 t; union u[t] { 1: u8 n; u8 x[n]; default: u16 y; }; };",
	"struct b { u8 x; }; extern struct b; struct a { struct b y; };",
	"context c { u8 t; u16 l; }; struct b with context c { u8 x[c.t]; }; struct a with context c { struct b y; union u[c.t] with length c.l { 1: u8 z; default: ...; }; };",
	"const A = 0x10; const B = 020; struct a { u8 x IN [A, 0..3]; };",
	"struct a { u8 t; union u[t] { default: u8 x; 1: u16 y; }; };",
	"struct a { u8 t IN [1]; union u[t] { 1: u8 x; default: fail; }; };",
}

// Good: no error.
func Good(i int) {
	dir := vf.TempDir()
	fs := read([]string{fine[i]})
	err := generate(dir, "some", fs)
	vf.Observe("err", err == nil)
	vf.Assert(err == nil, "a sound description is no error")
	vf.Assert(len(vf.ListFiles(dir)) > 0, "something is written")
	vf.Reach("written")
}

var pkgs = []string{"some", "", "1x", "a b", "func", "x y z", "x;", "été", "a-b", "a\nb", "_"}

// Name: a package name that is none is an error.
func Name(i int) {
	fs := read(good[0])
	dir := vf.TempDir()
	err := generate(dir, pkgs[i], fs)
	switch pkgs[i] {
	case "some":
		vf.Assert(err == nil, "a good name is no failure")
		vf.Reach("complete")
	case "", "1x", "a b", "func", "x y z", "a-b", "a\nb":
		vf.Assert(err != nil, "a bad package name is an error")
		vf.Reach("error")
	}
}

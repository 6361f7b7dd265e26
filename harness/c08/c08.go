// Package c08 compares which texts are accepted with a reference parser.
package c08

import (
	"bytes"
	"errors"
	"io"
	"os"
	"strconv"

	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/refast"
	"github.com/mmcloughlin/trunnel/vfw/txt"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	both := []string{"accepted", "rejected"}
	vf.Add(vf.Spec{Name: "c08.Replace", F: Replace, MaxSteps: 30_000_000, Quick: txt.Positions(false, 0), Full: txt.Positions(true, 0), Reach: both})
	vf.Add(vf.Spec{Name: "c08.Insert", F: Insert, MaxSteps: 30_000_000, Quick: txt.Positions(false, 1), Full: txt.Positions(true, 1), Reach: both})
	vf.Add(vf.Spec{Name: "c08.Cut", F: Cut, MaxSteps: 30_000_000, Quick: vf.Range(0, len(txt.Texts)+len(txt.More)-1), Reach: both})
	vf.Add(vf.Spec{Name: "c08.Any", F: Any, Quick: vf.Range(0, 2), Full: vf.Range(0, 3), Reach: both})
	vf.Add(vf.Spec{Name: "c08.Wide", F: Wide, Quick: vf.Range(0, 8), Reach: both})
	vf.Add(vf.Spec{Name: "c08.Files", F: Files, Quick: []int{0, 1, 2, 3, 12, 22}, Reach: []string{"read", "error"}})
	vf.Add(vf.Spec{Name: "c08.Reader", F: Reader, Quick: vf.Range(0, 2), Reach: []string{"accepted", "rejected"}})
	vf.Add(vf.Spec{Name: "c08.Large", F: Large, Quick: vf.Range(0, txt.LargeForms-1), Reach: both, Cover: []string{"accepted"}, MaxSteps: 400_000_000})
	vf.Add(vf.Spec{Name: "c08.Many", F: Many, Quick: []int{4, 9, 17, 33}, Reach: []string{"read", "error"}, MaxSteps: 400_000_000})
}

// Replace puts any byte at a position.
func Replace(arg int) {
	t, k := txt.Split(arg)
	s := []byte(t)
	s[k] = vf.Byte("c")
	same(s)
}

// Insert adds any byte at a position.
func Insert(arg int) {
	t, k := txt.Split(arg)
	s := append([]byte(t[:k]), vf.Byte("c"))
	same(append(s, t[k:]...))
}

// Cut removes a stretch of text: all behind a position, or one byte.
func Cut(i int) {
	t, _ := txt.Split(i * 1000)
	k := vf.Choose("at", len(t))
	if vf.Choose("one", 2) == 0 {
		same([]byte(t[:k]))
		return
	}
	same(append([]byte(t[:k]), t[k+1:]...))
}

// Any takes all texts of a length.
func Any(n int) { same(vf.Bytes("c", n)) }

// Wide puts two, three and four bytes in a comment, a name and at the end.
func Wide(arg int) {
	w := vf.Bytes("c", 2+arg%3)
	vf.Assume(w[0] >= [...]byte{0x80, 0xc0, 0xf0}[arg%3])
	var s []byte
	switch arg / 3 {
	case 0:
		s = append(append([]byte("/*"), w...), "*/const A=1;"...)
	case 1:
		s = append(append([]byte("struct s"), w...), "{}"...)
	case 2:
		s = append([]byte("const A=1;//"), w...)
	}
	same(s)
}

// Large changes large descriptions in one place.
func Large(i int) {
	s := []byte(txt.Large(i))
	k := vf.Choose("at", 5) * (len(s) - 1) / 4
	if w := vf.Choose("what", 4); w > 0 {
		s[k] = ";{\x00"[w-1]
	} else if k > 0 {
		vf.Stop()
	}
	same(s)
}

func same(s []byte) {
	a, err := parse.String(string(s))
	_, ok := ref.Parse(s)
	vf.Observe("ok", err == nil)
	if err != nil {
		vf.Reach("rejected")
		vf.Assert(!ok, "a text of the language is accepted")
		vf.Assert(a == nil, "no tree along with an error")
		return
	}
	vf.Reach("accepted")
	vf.Assert(ok, "a text outside of the language is an error")
	vf.Assert(a != nil, "a tree if there is no error")
}

var contents = []string{"const A = 1;", "struct s { u8 a; }", "struct s {", "", "context c { }", "\x00"}

// fileName names the file of a position in one of three ways.
func fileName(dir string, form, i int) string {
	switch form {
	case 1: // the same last part
		dir += "/" + string(rune('a'+i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			vf.Stop()
		}
		return dir + "/x.trunnel"
	case 2: // names that differ a little
		return dir + []string{"/x.trunnel", "/./X.trunnel", "/x.trunnel.trunnel"}[i]
	}
	return dir + "/" + string(rune('a'+i))
}

// Files reads lists of files, some of which are missing or malformed.
func Files(arg int) {
	n, form := arg%10, arg/10
	dir := vf.TempDir()
	var names []string
	var want []*ref.File
	good := true
	for i := 0; i < n; i++ {
		name := fileName(dir, form, i)
		k := vf.Choose("content", len(contents)+2)
		switch k {
		case len(contents): // missing
			good = false
		case len(contents) + 1: // the same file again
			if i == 0 {
				vf.Stop()
			}
			name = names[i-1]
			if good {
				want = append(want, want[i-1])
			}
		default:
			if err := os.WriteFile(name, []byte(contents[k]), 0o644); err != nil {
				vf.Stop()
			}
			f, ok := ref.Parse([]byte(contents[k]))
			good = good && ok
			want = append(want, f)
		}
		names = append(names, name)
	}
	fs, err := parse.Files(names)
	vf.Observe("ok", err == nil)
	vf.Assert((err == nil) == good, "an error if and only if some file is unreadable or malformed")
	if err != nil {
		vf.Reach("error")
		vf.Assert(fs == nil, "no trees along with an error")
		return
	}
	if n > 0 {
		vf.Reach("read")
	}
	vf.Assert(len(fs) == n, "one tree per file")
	for i := 0; i < n && i < len(fs); i++ {
		vf.Assert(fs[i] != nil && refast.SameFile(fs[i], want[i]), "trees in the order of the files")
		f, err := parse.File(names[i])
		vf.Assert(err == nil && refast.SameFile(f, want[i]), "a file alone gives the same tree")
	}
}

// Many reads many files, of which at most one is missing or malformed.
func Many(n int) {
	dir := vf.TempDir()
	bad := vf.Choose("bad", 5) // none, or a place
	at := []int{-1, 0, n / 2, n - 2, n - 1}[bad]
	kind := 0
	if bad > 0 {
		kind = vf.Choose("kind", 2)
	}
	var names []string
	for i := 0; i < n; i++ {
		name := dir + "/f" + strconv.Itoa(i*7%n)
		text := "const A = " + strconv.Itoa(i) + ";"
		if i == at {
			text = "const A = ;"
		}
		if i != at || kind == 0 {
			if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
				vf.Stop()
			}
		}
		names = append(names, name)
	}
	fs, err := parse.Files(names)
	vf.Observe("ok", err == nil)
	vf.Assert((err != nil) == (at >= 0), "an error if and only if some file is unreadable or malformed")
	if err != nil {
		vf.Reach("error")
		vf.Assert(fs == nil, "no trees along with an error")
		return
	}
	vf.Reach("read")
	vf.Assert(len(fs) == n, "one tree per file")
	for i, f := range fs {
		vf.Assert(f != nil && len(f.Constants) == 1 && f.Constants[0].Value == int64(i), "trees in the order of the files")
	}
}

// slow hands out a few bytes at a time and then an error.
type slow struct {
	s    []byte
	step int
	err  error
}

func (r *slow) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.err
	}
	n := r.step
	if n > len(r.s) {
		n = len(r.s)
	}
	n = copy(p, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

// Reader takes texts from readers of different temper.
func Reader(k int) {
	t := []byte("const A=1;struct s{u8 a;}")
	t[4*vf.Choose("at", len(t)/4)] = vf.Byte("c")
	_, ok := ref.Parse(t)
	var r io.Reader
	switch k {
	case 0:
		r = bytes.NewReader(t)
	case 1:
		r = &slow{t, 1 + vf.Choose("step", 5), io.EOF}
	case 2:
		r = &slow{t, 7, errors.New("broken")}
		ok = false
	}
	f, err := parse.Reader("name", r)
	vf.Observe("ok", err == nil)
	vf.Assert((err == nil) == ok, "a reader is accepted if its text is")
	vf.Assert((f == nil) == (err != nil), "a tree or an error")
	if err == nil || k == 2 {
		vf.Reach("accepted")
	} else {
		vf.Reach("rejected")
	}
}

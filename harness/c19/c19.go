// Package c19 checks the places errors in descriptions point to.
package c19

import (
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/txt"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	r := []string{"rejected"}
	vf.Add(vf.Spec{Name: "c19.Replace", F: Replace, MaxSteps: 60_000_000, Quick: some(4), Full: some(2), Reach: r})
	vf.Add(vf.Spec{Name: "c19.Insert", F: Insert, MaxSteps: 60_000_000, Quick: some(8), Full: some(3), Reach: r})
	vf.Add(vf.Spec{Name: "c19.Cut", F: Cut, MaxSteps: 60_000_000, Quick: []int{0, 3, 6, 7, 9, 12, 13, 16, 17}, Full: vf.Range(0, len(txt.Texts)+len(txt.More)-1), Reach: r})
	vf.Add(vf.Spec{Name: "c19.Any", F: Any, Quick: vf.Range(0, 2), Reach: r})
	vf.Add(vf.Spec{Name: "c19.Lines", F: Lines, Quick: vf.Range(0, len(lines)-1), Reach: r, MaxSteps: 60_000_000})
	vf.Add(vf.Spec{Name: "c19.Numbers", F: Numbers, Quick: vf.Range(0, len(numbers)-1), Reach: r, MaxSteps: 60_000_000})
	vf.Add(vf.Spec{Name: "c19.Files", F: Files, Quick: vf.Range(1, 3), Reach: r, MaxSteps: 60_000_000})
	vf.Add(vf.Spec{Name: "c19.Large", F: Large, Quick: vf.Range(0, txt.LargeForms-1), Reach: r, MaxSteps: 800_000_000})
}

// some lists every n-th position of the texts.
func some(n int) []int {
	var out []int
	for _, a := range txt.Positions(false, 1) {
		if (a/1000+a%1000)%n == 0 {
			out = append(out, a)
		}
	}
	return out
}

// Replace puts any byte at a position.
func Replace(arg int) {
	t, k := txt.Split(arg)
	s := append([]byte(t), 0)
	s[k] = vf.Byte("c")
	if k < len(t) {
		s = s[:len(t)]
	}
	check(s)
}

// Insert adds any byte at a position.
func Insert(arg int) {
	t, k := txt.Split(arg)
	s := append([]byte(t[:k]), vf.Byte("c"))
	check(append(s, t[k:]...))
}

// Cut removes all behind a position, or one byte.
func Cut(i int) {
	t, _ := txt.Split(i * 1000)
	k := vf.Choose("at", len(t))
	if vf.Choose("one", 2) == 0 {
		check([]byte(t[:k]))
		return
	}
	check(append([]byte(t[:k]), t[k+1:]...))
}

// Any takes all texts of a length.
func Any(n int) { check(vf.Bytes("c", n)) }

// lines have a place for something wrong on some line, marked by a dollar sign.
var lines = []string{
	"\n\n  $",
	"struct s {\n\tu8 a;\n\tu8 $;\n}\n",
	"struct s {\r\n u8 a;\r\n $ }\r\n",
	"// a\n/* b\n\n c */ const A = $;",
	"/* é€\U0001f600 */ const A = $;",
	"// é\n// €\n\tconst A = 1;é$",
	"const A = 1;\n\n\n\nconst B = 2;\n/*$",
	"struct s { u8 t;\n union u[t] {\n 1: u8 a;\n $: u8 b;\n };\n}",
	"const A = 1; // é $\n const\n",
}

// Lines puts two arbitrary bytes into a text of several lines.
func Lines(i int) {
	k := strings.IndexByte(lines[i], '$')
	s := []byte(lines[i][:k])
	if vf.Choose("two", 2) == 0 {
		s = append(s, vf.Byte("c"))
	} else {
		s = append(s, vf.Bytes("c", 2)...)
	}
	check(append(s, lines[i][k+1:]...))
}

var numbers = []string{
	"const A = $;",
	"const A = 1;\nconst B = $;\nconst C = $;",
	"struct s { u8 a[$];\n u8 b IN [1, 2..$]; }",
	"struct s { u8 t; union u[t] with length ..-$ { $: u8 x; }; }",
	"const A = $; struct",
}

// Numbers puts in literals that may denote no number.
func Numbers(i int) {
	lits := []string{"9223372036854775808", "0x8000000000000000", "08", "0778", "12", "99999999999999999999"}
	check([]byte(strings.ReplaceAll(numbers[i], "$", lits[vf.Choose("lit", len(lits))])))
}

// Large changes large descriptions in one place.
func Large(i int) {
	s := []byte(txt.Large(i))
	k := vf.Choose("at", 3) * (len(s) - 1) / 2
	s[k] = "{\n"[vf.Choose("what", 2)]
	check(s)
}

// Files: of several files the first wrong one is named.
func Files(n int) {
	dir := vf.TempDir()
	texts := []string{"const A = 1;", "struct s {\n u8 a", "const B = \n08;", "\n\nx"}
	var names []string
	bad := -1
	for i := 0; i < n; i++ {
		k := vf.Choose("content", len(texts))
		if k > 0 && bad < 0 {
			bad = i
		}
		name := filepath.Join(dir, string(rune('a'+i))+".trunnel")
		if err := os.WriteFile(name, []byte(texts[k]), 0o644); err != nil {
			vf.Stop()
		}
		names = append(names, name)
	}
	_, err := parse.Files(names)
	if bad < 0 {
		return
	}
	b, rerr := os.ReadFile(names[bad])
	if rerr != nil {
		vf.Stop()
	}
	vf.Assert(err != nil, "a wrong file is an error")
	places(err, names[bad], b)
}

func check(s []byte) {
	const name = "some dir/x:1.trunnel"
	_, err := parse.Reader(name, strings.NewReader(string(s)))
	if err == nil {
		return
	}
	at := places(err, name, s)
	if broken(s, at) {
		return
	}
	// the text before it is not at fault
	_, err = parse.Reader("y", strings.NewReader(string(s[:at])))
	if err != nil {
		p := read(err, "y")
		vf.Assert(p[0].offset == at, "without what is wrong the text is only incomplete")
	}
}

type place struct{ line, col, offset int }

// read gives the places of an error message.
func read(err error, name string) []place {
	var out []place
	for _, l := range strings.Split(err.Error(), "\n") {
		vf.Assert(strings.HasPrefix(l, name+":"), "the file is named")
		l = l[len(name)+1:]
		var p place
		p.line, l = number(l, ":")
		p.col, l = number(l, " (")
		p.offset, l = number(l, ")")
		vf.Assert(strings.HasPrefix(l, ":"), "the place is followed by what is wrong")
		out = append(out, p)
	}
	return out
}

func number(s, end string) (int, string) {
	n, k := 0, 0
	for k < len(s) && s[k] >= '0' && s[k] <= '9' {
		n = n*10 + int(s[k]-'0')
		k++
	}
	vf.Assert(k > 0 && strings.HasPrefix(s[k:], end), "the place is given as line, column and offset")
	return n, s[k+len(end):]
}

// places checks the places of an error and returns the first.
func places(err error, name string, s []byte) int {
	vf.Reach("rejected")
	far, bad := ref.Places(s)
	first := len(s)
	for _, p := range read(err, name) {
		vf.Observe("at", p.offset)
		vf.Assert(p.offset <= len(s), "the place is in the text")
		line, col := count(s, p.offset)
		vf.Assert(p.line == line, "the line is that of the place")
		vf.Assert(p.col == col, "the column is that of the place")
		ok := near(s, p.offset, far)
		for _, b := range bad {
			ok = ok || b == p.offset
		}
		ok = ok || broken(s, p.offset)
		vf.Assert(ok, "there is something wrong at the place")
		if p.offset < first {
			first = p.offset
		}
	}
	return first
}

// broken tells whether there is no character at a place.
func broken(s []byte, at int) bool {
	if at >= len(s) {
		return false
	}
	r, n := utf8.DecodeRune(s[at:])
	return r == utf8.RuneError && n == 1
}

// count gives line and column of a place.
func count(s []byte, at int) (line, col int) {
	line = 1
	for i := 0; i <= at; {
		r, n := utf8.DecodeRune(s[i:])
		col++
		if n > 0 && r == '\n' {
			line++
			col = 0
		}
		if n == 0 {
			break
		}
		i += n
	}
	return line, col
}

// near tells whether a place is in the word or sign up to or from which the
// text cannot be read further.
func near(s []byte, at, far int) bool {
	if at > far {
		at, far = far, at
	}
	word, sign := true, true
	for _, c := range s[at:far] {
		word = vf.And(word, vf.Or(c == '_', vf.Or(vf.And(c >= '0', c <= '9'), vf.Or(vf.And(c >= 'a', c <= 'z'), vf.And(c >= 'A', c <= 'Z')))))
		sign = vf.And(sign, vf.Or(c == '.', vf.Or(c == '-', vf.Or(c == '/', c == '*'))))
	}
	return word || sign
}

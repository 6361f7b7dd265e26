// Package c07 checks that layout does not matter.
package c07

import (
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/refast"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

// texts have gaps: ~ may be empty, ^ is a blank in the plain text.
var texts = []string{
	"~const^A^=^1~;~const^B=2;~",
	"~struct^s^{~u8^x~;~u16^y~;~}~;~",
	"~extern^struct^e^with^context^c~,~d;~struct^s^with^context^c^{~}~",
	"~context^c^{~u8^n~;~u32^m;~}~;~",
	"~trunnel^o^a~,~b~,~c~;~",
	"struct s{~u8^x^IN^[~1~,~2~..~A~,~3~]~;~nulterm^n;~@ptr^p;~eos;~}",
	"struct s{~char^c[2];~u8^d[n];~u16^e[..-2];~struct^t^r[];~}",
	"struct s{~struct^t^x~;~struct^i^{~u8^q;~}^y~;~struct^t^z[2]~;~}",
	"struct s{~union^u[t]^{~1~,~2~..~3~:~u8^a;~u8^b;~default~:~;~}~;~u8^z;~}",
	"struct s{~union^u[c.t]^with^length^n^{~1:^fail;~2:~ignore;~3:~u8^r[];~4:~u8^q;~...;~}~;~}",
}

// forms of layout: ? is any byte.
var forms = []string{
	"?", "??", "???", "/*?*/", "/*??*/", "//?\n", "//??\n",
	"/*???*/", "//???\n", " /*?*/?", "?/*?*/", "//?\n?", "/*?", "/*??", "/*?/", "//?",
	"/??/", "/?*/", "/*?/*/", "/**?*/", "?/**/", "//\n?",
}

const quickForms = 7

func init() {
	reach := []string{"layout", "open"}
	vf.Add(vf.Spec{Name: "c07.Gap", F: Gap, MaxSteps: 30_000_000, Quick: gaps(false), Full: gaps(true), Reach: reach})
	vf.Add(vf.Spec{Name: "c07.All", F: All, Quick: all(), Reach: []string{"layout"}})
	vf.Add(vf.Spec{Name: "c07.Long", F: Long, Quick: vf.Range(0, len(texts)-1), Reach: []string{"layout"}, MaxSteps: 400_000_000})
}

// gaps lists text*100000 + gap*100 + form. Short runs use each form at some of
// the gaps, and every gap with some forms.
func gaps(full bool) []int {
	var out []int
	n := 0
	for i, t := range texts {
		g := 0
		for k := range t {
			if t[k] != '~' && t[k] != '^' {
				continue
			}
			for f := range forms {
				if full || f < 1 || f == 1+n%(quickForms-1) || f == quickForms+n%(len(forms)-quickForms) {
					out = append(out, i*100000+g*100+f)
				}
			}
			g++
			n++
		}
	}
	return out
}

func all() []int {
	var out []int
	for i := range texts {
		for f := range forms[:quickForms] {
			out = append(out, i*100+f)
		}
	}
	return out
}

// plain is the text with blanks in the gaps that need one.
func plain(t string) []byte {
	var s []byte
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '~':
		case '^':
			s = append(s, ' ')
		default:
			s = append(s, t[i])
		}
	}
	return s
}

func form(f string) []byte {
	s := []byte(f)
	for i := range s {
		if s[i] == '?' {
			s[i] = vf.Byte("c")
		}
	}
	return s
}

// layout reports whether s is layout and nothing else; a line comment may be
// left open at the end of the text.
func layout(s []byte, end bool) bool {
	i := 0
	for i < len(s) {
		c := s[i]
		if vf.Or(vf.Or(c == ' ', c == '\t'), vf.Or(c == '\r', c == '\n')) {
			i++
			continue
		}
		if c != '/' || i+1 >= len(s) {
			return false
		}
		switch s[i+1] {
		case '/':
			i += 2
			for i < len(s) && s[i] != '\n' {
				i++
			}
			if i == len(s) && !end {
				return false
			}
		case '*':
			i += 2
			for {
				if i+1 >= len(s) {
					return false
				}
				if vf.And(s[i] == '*', s[i+1] == '/') {
					break
				}
				i++
			}
			i += 2
		default:
			return false
		}
	}
	return true
}

// open reports whether s starts with layout that ends in an open comment.
func open(s []byte) bool {
	for i := 0; i+1 < len(s); i++ {
		if vf.And(s[i] == '/', s[i+1] == '*') {
			for k := i + 2; k+1 < len(s); k++ {
				if vf.And(s[k] == '*', s[k+1] == '/') {
					return false
				}
			}
			return layout(s[:i], false)
		}
	}
	return false
}

// Gap replaces one gap.
func Gap(arg int) {
	t, gap, f := texts[arg/100000], arg/100%1000, arg%100
	var s []byte
	w := form(forms[f])
	g := 0
	last := false
	for i := 0; i < len(t); i++ {
		if t[i] != '~' && t[i] != '^' {
			s = append(s, t[i])
			continue
		}
		if g == gap {
			s = append(s, w...)
			last = i == len(t)-1
		} else if t[i] == '^' {
			s = append(s, ' ')
		}
		g++
	}
	if !ref.ValidUTF8(w) {
		vf.Stop()
	}
	if layout(w, last) {
		vf.Reach("layout")
		a, err := parse.String(string(s))
		vf.Observe("ok", err == nil)
		good(t, a, err)
		return
	}
	if !last || !open(w) {
		vf.Stop()
	}
	vf.Reach("open")
	_, err := parse.String(string(s))
	vf.Assert(err != nil, "an open comment is an error")
}

// All replaces every gap by the same layout.
func All(arg int) {
	t := texts[arg/100]
	w := form(forms[arg%100])
	if !ref.ValidUTF8(w) || !layout(w, false) {
		vf.Stop()
	}
	vf.Reach("layout")
	var s []byte
	for i := 0; i < len(t); i++ {
		if t[i] == '~' || t[i] == '^' {
			s = append(s, w...)
		} else {
			s = append(s, t[i])
		}
	}
	a, err := parse.String(string(s))
	good(t, a, err)
}

var long = []struct {
	head, unit, tail string
	n                int
}{
	{"", " ", "", 600},
	{"", "\r\n\t", "", 150},
	{"/*", "x; ", "*/", 200},
	{"/*", "*", "*/", 600},
	{"/*", "/", "*/", 300},
	{"//", "/", "\n", 300},
	{"", "/**/", "", 60},
	{"", "//\n", "", 60},
	{"/*", "\n//*\n", "*/", 60},
}

// Long puts one long stretch of layout in a gap, with any byte in it.
func Long(arg int) {
	t := texts[arg]
	l := &long[vf.Choose("form", len(long))]
	var w []byte
	w = append(w, l.head...)
	for i := 0; i < l.n; i++ {
		w = append(w, l.unit...)
	}
	w = append(w, l.tail...)
	w[len(w)/2] = vf.Byte("c")
	gaps := 0
	for i := 0; i < len(t); i++ {
		if t[i] == '~' || t[i] == '^' {
			gaps++
		}
	}
	gap := vf.Choose("gap", 3) * (gaps - 1) / 2
	if !ref.ValidUTF8(w) || !layout(w, false) {
		vf.Stop()
	}
	vf.Reach("layout")
	var s []byte
	g := 0
	for i := 0; i < len(t); i++ {
		if t[i] != '~' && t[i] != '^' {
			s = append(s, t[i])
			continue
		}
		if g == gap {
			s = append(s, w...)
		} else if t[i] == '^' {
			s = append(s, ' ')
		}
		g++
	}
	a, err := parse.String(string(s))
	good(t, a, err)
}

func good(t string, a *ast.File, err error) {
	vf.Assert(err == nil, "accepted with any layout")
	f, ok := ref.Parse(plain(t))
	if !ok {
		vf.Fail("plain text is in the language")
		return
	}
	if err == nil {
		vf.Assert(refast.SameFile(a, f), "the same tree with any layout")
	}
}

// Package gsrc reads generated Go text whose bytes may be symbolic inside
// literals.
package gsrc

import "github.com/mmcloughlin/trunnel/vfw/vf"

// Func is a function of the text.
type Func struct {
	Name  string
	Calls []string   // names called in it
	Lists [][]uint64 // byte slice literals in it
}

// File is what is read from a text.
type File struct {
	Pkg   string
	Tags  []string // build constraint lines
	Types []string // names of declared types, in order
	Funcs []*Func  // functions without receiver, in order
	Meths []string // receiver type and name of methods, in order
}

type kind int

const (
	word kind = iota
	num
	str
	punct
)

type token struct {
	k kind
	s string   // word or punctuation
	n uint64   // number
	b []uint64 // string contents
}

func letter(c byte) bool {
	return vf.Or(vf.Or(vf.And(c >= 'a', c <= 'z'), vf.And(c >= 'A', c <= 'Z')), c == '_')
}

func digit(c byte) bool { return vf.And(c >= '0', c <= '9') }

func wordByte(c byte) bool { return vf.Or(letter(c), digit(c)) }

func hex(c byte) uint64 {
	return vf.IteU64(c <= '9', uint64(c)-'0', uint64(c|0x20)-'a'+10)
}

func number(s []byte) uint64 {
	base, i := uint64(10), 0
	if len(s) > 1 && s[0] == '0' {
		switch s[1] {
		case 'x', 'X':
			base, i = 16, 2
		case 'b', 'B':
			base, i = 2, 2
		case 'o', 'O':
			base, i = 8, 2
		default:
			base, i = 8, 1
		}
	}
	v := uint64(0)
	for ; i < len(s); i++ {
		if s[i] == '_' {
			continue
		}
		v = v*base + hex(s[i])
	}
	return v
}

// char reads one character of an interpreted literal.
func char(s []byte, i int) (uint64, int) {
	if s[i] != '\\' {
		return uint64(s[i]), i + 1
	}
	if i+1 >= len(s) {
		return 0, len(s)
	}
	switch c := s[i+1]; c {
	case 'x':
		if i+3 < len(s) {
			return hex(s[i+2])*16 + hex(s[i+3]), i + 4
		}
		return 0, len(s)
	case 'n':
		return '\n', i + 2
	case 't':
		return '\t', i + 2
	case 'r':
		return '\r', i + 2
	case 'a':
		return 7, i + 2
	case 'b':
		return 8, i + 2
	case 'f':
		return 12, i + 2
	case 'v':
		return 11, i + 2
	case '0', '1', '2', '3':
		if i+3 < len(s) {
			return hex(s[i+1])*64 + hex(s[i+2])*8 + hex(s[i+3]), i + 4
		}
		return 0, len(s)
	default:
		return uint64(c), i + 2
	}
}

func scan(s []byte, f *File) []token {
	var out []token
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			j := i
			for j < len(s) && s[j] != '\n' {
				j++
			}
			l := string(s[i:j])
			if len(l) > 9 && (l[:9] == "// +build" || l[:9] == "//go:buil") {
				f.Tags = append(f.Tags, l)
			}
			i = j
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			i += 2
			for i+1 < len(s) && !(s[i] == '*' && s[i+1] == '/') {
				i++
			}
			i += 2
		case digit(c):
			j := i
			for j < len(s) && wordByte(s[j]) {
				j++
			}
			out = append(out, token{k: num, n: number(s[i:j])})
			i = j
		case letter(c):
			j := i
			for j < len(s) && wordByte(s[j]) {
				j++
			}
			out = append(out, token{k: word, s: string(s[i:j])})
			i = j
		case c == '"':
			var b []uint64
			i++
			for i < len(s) && s[i] != '"' {
				var v uint64
				v, i = char(s, i)
				b = append(b, v)
			}
			i++
			out = append(out, token{k: str, b: b})
		case c == '`':
			var b []uint64
			i++
			for i < len(s) && s[i] != '`' {
				b = append(b, uint64(s[i]))
				i++
			}
			i++
			out = append(out, token{k: str, b: b})
		case c == '\'':
			v, j := char(s, i+1)
			out = append(out, token{k: num, n: v})
			i = j + 1
		default:
			out = append(out, token{k: punct, s: string(s[i : i+1])})
			i++
		}
	}
	return out
}

type reader struct {
	t []token
	i int
}

func (r *reader) is(k int, s string) bool {
	k += r.i
	return k < len(r.t) && (r.t[k].k == punct || r.t[k].k == word) && r.t[k].s == s
}

func (r *reader) word(k int) string {
	k += r.i
	if k < len(r.t) && r.t[k].k == word {
		return r.t[k].s
	}
	return ""
}

// Read takes a text apart.
func Read(src []byte) *File {
	f := &File{}
	r := &reader{t: scan(src, f)}
	for r.i < len(r.t) {
		switch {
		case r.is(0, "package"):
			f.Pkg = r.word(1)
			r.i += 2
		case r.is(0, "type"):
			f.Types = append(f.Types, r.word(1))
			r.body(nil)
		case r.is(0, "func") && r.is(1, "("):
			r.i += 2
			recv := ""
			for r.i < len(r.t) && !r.is(0, ")") {
				if w := r.word(0); w != "" {
					recv = w
				}
				r.i++
			}
			f.Meths = append(f.Meths, recv+"."+r.word(1))
			r.body(nil)
		case r.is(0, "func"):
			fn := &Func{Name: r.word(1)}
			f.Funcs = append(f.Funcs, fn)
			r.body(fn)
		default:
			r.i++
		}
	}
	return f
}

// body goes on to the next opening brace and reads up to its end.
func (r *reader) body(fn *Func) {
	for r.i < len(r.t) && !r.is(0, "{") {
		r.i++
	}
	depth := 0
	for r.i < len(r.t) {
		switch {
		case fn != nil && r.is(0, "[") && r.is(1, "]") && (r.is(2, "byte") || r.is(2, "uint8")) && (r.is(3, "{") || r.is(3, "(")):
			r.i += 3
			fn.Lists = append(fn.Lists, r.list())
			continue
		case fn != nil && r.is(0, "[") && r.is(1, "]") && r.is(2, "[") && r.is(3, "]") && (r.is(4, "byte") || r.is(4, "uint8")) && r.is(5, "{"):
			r.i += 6
			for r.i < len(r.t) && !r.is(0, "}") {
				if r.is(0, "{") || r.is(0, "(") {
					fn.Lists = append(fn.Lists, r.list())
					continue
				}
				if r.is(0, "nil") {
					fn.Lists = append(fn.Lists, nil)
				}
				r.i++
			}
			r.i++
			continue
		case r.is(0, "{"):
			depth++
		case r.is(0, "}"):
			depth--
			if depth == 0 {
				r.i++
				return
			}
		case fn != nil && r.word(0) != "" && r.is(1, "("):
			fn.Calls = append(fn.Calls, r.word(0))
		}
		r.i++
	}
}

// list reads the elements of a byte slice literal or conversion.
func (r *reader) list() []uint64 {
	var out []uint64
	r.i++
	for r.i < len(r.t) && !r.is(0, "}") && !r.is(0, ")") {
		switch t := r.t[r.i]; t.k {
		case num:
			out = append(out, t.n)
		case str:
			out = append(out, t.b...)
		}
		r.i++
	}
	r.i++
	return out
}

// Norm is a name without regard to letter case and underscores.
func Norm(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			continue
		}
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		b = append(b, c)
	}
	return string(b)
}

// Calling lists the functions that call the one-shot parser of a structure.
func (f *File) Calling(strct string) []*Func {
	var out []*Func
	for _, fn := range f.Funcs {
		for _, c := range fn.Calls {
			if len(c) > 5 && c[:5] == "Parse" && Norm(c[5:]) == Norm(strct) {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

// Same compares a list with bytes.
func Same(l []uint64, b []byte) bool {
	if len(l) != len(b) {
		return false
	}
	eq := true
	for i := range l {
		eq = vf.And(eq, l[i] == uint64(b[i]))
	}
	return eq
}

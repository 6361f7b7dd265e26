// Package c05 checks the values of integer literals.
package c05

import (
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/refast"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	reach := []string{"accepted", "rejected"}
	vf.Add(vf.Spec{Name: "c05.Short", F: Short, Quick: short(4), Full: short(6), Reach: reach})
	vf.Add(vf.Spec{Name: "c05.Long", F: Long, Quick: long(false), Full: long(true), Reach: reach})
	vf.Add(vf.Spec{Name: "c05.Pair", F: Pair, Quick: vf.Range(0, len(pairs)-1), Reach: reach[:1]})
}

// places have a literal at the dollar sign.
var places = []string{
	"const A=$;",
	"struct s{u8 a[$];}",
	"struct s{u8 a[..-$];}",
	"struct s{u8 x IN [$];}",
	"struct s{u8 x IN [A..$];}",
	"struct s{u8 x IN [$..B];}",
	"struct s{u8 x IN [A,$];}",
	"struct s{union u[t]{$:;};}",
	"struct s{union u[t]{A,$..B:;};}",
	"struct s{union u[t]{B..$:;};}",
	"struct s{union u[t] with length ..-$ {default:;};}",
	"struct s{union u[t]{default:struct b a[$];};}",
}

// shapes of long literals: d decimal digit, n nonzero digit, o octal digit, h
// and H letters of hexadecimal digits, x hexadecimal digits, others stand for
// themselves.
var shapes = []string{
	"nddddddddddddddddd",
	"ndddddddddddddddddd",
	"nddddddddddddddddddd",
	"ndddddddddddddddddddddddddd",
	"92233720368547758dd",
	"922337203685477580ddd",
	"0oooooooooooooooooooo",
	"0ooooooooooooooooooooo",
	"0oooooooooooooooooooooo",
	"00ooooooooooooooooooooooo",
	"0777777777777777777777d",
	"0xddddddddddddddd",
	"0xdddddddddddddddd",
	"0xhhhhhhhhhhhhhhhh",
	"0xdHhHhHhHhHhHhHhH",
	"0xddddddddddddddddd",
	"0x000000dddddddddddddddd",
	"0x7fffffffffffffff",
	"0x7hHdhHddhh",
	"0Xdd",
	"ndddddd",
	"00000nd",
	"0b1d",
	"0od",
	"d_d",
	"-d",
	"+d",
	"0xg",
	"dx",
	"de1",
	"0xx",
	"0xdxdx",
}

func short(n int) []int {
	var out []int
	for i := range places {
		for l := 1; l <= n; l++ {
			if i > 0 && l > 4 {
				break
			}
			out = append(out, i*10+l)
		}
	}
	return out
}

// Short puts any letters, digits and underscores in the place of a literal.
func Short(arg int) {
	w := vf.Bytes("c", arg%10)
	for _, c := range w {
		d := vf.And(c >= '0', c <= '9')
		l := vf.And(c|0x20 >= 'a', c|0x20 <= 'z')
		vf.Assume(vf.Or(d, vf.Or(l, c == '_')))
	}
	vf.Assume(vf.And(w[0] >= '0', w[0] <= '9'))
	check(put(places[arg/10], w, nil))
}

func long(full bool) []int {
	var out []int
	for i := range places {
		for k := range shapes {
			if full || i < 1 || (i+k)%4 == 0 {
				out = append(out, i*100+k)
			}
		}
	}
	return out
}

// Long puts literals around the limits in.
func Long(arg int) {
	check(put(places[arg/100], shape(shapes[arg%100]), nil))
}

func shape(f string) []byte {
	var w []byte
	for i := 0; i < len(f); i++ {
		lo, hi := byte(0), byte(0)
		switch f[i] {
		case 'd':
			lo, hi = '0', '9'
		case 'n':
			lo, hi = '1', '9'
		case 'o':
			lo, hi = '0', '7'
		case 'h':
			lo, hi = 'a', 'f'
		case 'H':
			lo, hi = 'A', 'F'
		default:
			w = append(w, f[i])
			continue
		}
		c := vf.Byte("c")
		vf.Assume(vf.And(c >= lo, c <= hi))
		w = append(w, c)
	}
	return w
}

var pairs = []string{
	"const A=$;const B=#;",
	"struct s{u8 x IN [$..#];}",
	"struct s{u8 x IN [$,#];}",
	"struct s{u8 a[$];u8 b[#];}",
	"struct s{union u[t]{$:;#:;};}",
	"struct s{union u[t]{$..#:;};}",
	"struct s{u8 a[..-$];u8 x IN [#];}",
}

// Pair has two literals of any of a few shapes.
func Pair(i int) {
	kinds := []string{"d", "nd", "0xdh", "0oo"}
	a := shape(kinds[vf.Choose("a", len(kinds))])
	b := shape(kinds[vf.Choose("b", len(kinds))])
	check(put(pairs[i], a, b))
}

func put(t string, a, b []byte) []byte {
	var s []byte
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '$':
			s = append(s, a...)
		case '#':
			s = append(s, b...)
		default:
			s = append(s, t[i])
		}
	}
	return s
}

func check(s []byte) {
	a, err := parse.String(string(s))
	f, ok := ref.Parse(s)
	vf.Observe("ok", err == nil)
	if err != nil {
		vf.Reach("rejected")
		vf.Assert(!ok, "a literal of the language is accepted")
		return
	}
	vf.Reach("accepted")
	vf.Assert(ok, "a literal that is no number is rejected")
	if ok {
		vf.Assert(refast.SameFile(a, f), "a literal means the number written")
	}
}

// Package gpl compares generated parsers with the reference interpreter.
package gpl

import (
	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/schemas"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

const width = 256

// Jobs lists a job for every parser and every input length of a tier.
// A job number is parser*256 + length.
func Jobs(upto, extra int) []int {
	var out []int
	for i, c := range glue.Cases {
		if c.Min > 200 {
			continue
		}
		for n := 0; n <= c.Min+extra; n++ {
			if n <= upto || n >= c.Min-1 {
				out = append(out, i*width+n)
			}
		}
	}
	return out
}

// Pick decodes a job number.
func Pick(arg int) (*glue.Case, *ref.Set, int) {
	c := &glue.Cases[arg/width]
	return c, schemas.Sets[c.Schema], arg % width
}

// Context makes up symbolic values for the contexts of a structure.
func Context(set *ref.Set, name, tag string) ref.Ctx {
	st := set.Struct(name)
	if len(st.Ctxs) == 0 {
		return nil
	}
	ctx := ref.Ctx{}
	for _, n := range st.Ctxs {
		c := set.Context(n)
		ctx[n] = map[string]uint64{}
		for _, m := range c.Fields {
			l := tag + n + "." + m.Name
			var v uint64
			switch m.Bits {
			case 8:
				v = uint64(vf.Byte(l))
			case 16:
				v = uint64(vf.U16(l))
			case 32:
				v = uint64(vf.U32(l))
			default:
				v = vf.U64(l)
			}
			ctx[n][m.Name] = v
		}
	}
	return ctx
}

func norm(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			continue
		}
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		b = append(b, c)
	}
	return string(b)
}

// Same compares a dumped value with the expected one. With strict, fields the
// expected value does not determine must be zero.
func Same(n *vf.Node, v *ref.Val, strict bool) bool {
	switch v.Kind {
	case ref.KInt:
		return n.Kind == "int" && n.N == v.N
	case ref.KStr:
		return n.Kind == "string" && vf.EqStr(n.Str, string(v.Str))
	case ref.KArray:
		if n.Kind != "slice" && n.Kind != "nilslice" && n.Kind != "array" {
			return false
		}
		if len(n.Kids) != len(v.Elems) {
			return false
		}
		ok := true
		for i, k := range n.Kids {
			ok = vf.And(ok, Same(k, v.Elems[i], strict))
		}
		return ok
	}
	if n.Kind == "ptr" {
		n = n.Kids[0]
	}
	if n.Kind != "struct" {
		return false
	}
	ok := true
	seen := 0
	for _, k := range n.Kids {
		kn := norm(k.Name)
		found := false
		for _, f := range v.Fields {
			if norm(f.Name) == kn {
				ok = vf.And(ok, Same(k, f.V, strict))
				found = true
				seen++
				break
			}
		}
		if !found && strict {
			ok = vf.And(ok, zero(k))
		}
	}
	return vf.And(ok, seen == len(v.Fields))
}

func zero(n *vf.Node) bool {
	switch n.Kind {
	case "int", "bool":
		return n.N == 0
	case "string":
		return n.Str == ""
	case "nil", "nilslice":
		return true
	case "slice":
		return len(n.Kids) == 0
	case "ptr":
		return false
	}
	ok := true
	for _, k := range n.Kids {
		ok = vf.And(ok, zero(k))
	}
	return ok
}

// Copy makes an independent copy, with something behind its end.
func Copy(b []byte) []byte {
	c := make([]byte, len(b)+4)
	for i := range c {
		c[i] = 0xa5
	}
	copy(c, b)
	return c[:len(b)]
}

// Intact reports whether what is behind the end of a copy is as it was.
func Intact(c []byte) bool {
	for _, x := range c[len(c):cap(c)] {
		if x != 0xa5 {
			return false
		}
	}
	return true
}

// SameNode compares two dumped values.
func SameNode(a, b *vf.Node) bool {
	if a.Name != b.Name || len(a.Kids) != len(b.Kids) {
		return false
	}
	if (a.Kind == "nilslice" || a.Kind == "slice") && len(a.Kids) == 0 {
		return b.Kind == "nilslice" || b.Kind == "slice"
	}
	if a.Kind != b.Kind {
		return false
	}
	ok := vf.And(a.N == b.N, vf.EqStr(a.Str, b.Str))
	for i := range a.Kids {
		ok = vf.And(ok, SameNode(a.Kids[i], b.Kids[i]))
	}
	return ok
}

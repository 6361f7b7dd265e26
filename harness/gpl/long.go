package gpl

import (
	"strconv"

	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/schemas"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

// Sizes are the numbers of elements of long messages.
var Sizes = []int{3, 17, 70, 300, 5000, 40000, 70000}

// LongJobs lists a job for every parser of the fixed corpus with something that
// can be long, and every size; a job number is parser*8 + size.
func LongJobs(sizes ...int) []int {
	var out []int
	for i, c := range glue.Cases {
		set := schemas.Sets[c.Schema]
		if c.Random || c.Name == "huge" || !grows(set, set.Struct(c.Struct).Members, 0) {
			continue
		}
		for _, k := range sizes {
			out = append(out, i*8+k)
		}
	}
	return out
}

// WideJobs lists jobs for the parsers meant for very long messages.
func WideJobs(sizes ...int) []int {
	var out []int
	for i, c := range glue.Cases {
		if c.Name == "huge" && c.Struct != "we" {
			for _, k := range sizes {
				out = append(out, i*8+k)
			}
		}
	}
	return out
}

func grows(set *ref.Set, ms []ref.Member, depth int) bool {
	if depth > 6 {
		return true
	}
	for i := range ms {
		m := &ms[i]
		switch m.Kind {
		case ref.KStr:
			return true
		case ref.KStruct:
			if grows(set, set.Struct(m.Ref).Members, depth+1) {
				return true
			}
		case ref.KArray:
			if m.LK != ref.LFixed || m.Base == ref.KStruct && grows(set, set.Struct(m.Ref).Members, depth+1) {
				return true
			}
		case ref.KUnion:
			for k := range m.Cases {
				if grows(set, m.Cases[k].Members, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// PickLong decodes a job number.
func PickLong(arg int) (*glue.Case, *ref.Set, int) {
	c := &glue.Cases[arg/8]
	return c, schemas.Sets[c.Schema], Sizes[arg%8]
}

type build struct {
	set  *ref.Set
	tag  string
	ctx  ref.Ctx
	need map[string]int // context fields already given a value
	out  []byte
	// fields of the current structure
	at    map[string]int
	bits  map[string]int
	fixed map[string]bool
	size  int
	depth int
}

// Message makes up a message with arrays of about the given number of
// elements. Lengths and tags are mostly such that it is well-formed, all else
// is arbitrary.
func Message(set *ref.Set, name string, size int, tag string) ([]byte, ref.Ctx) {
	b := &build{set: set, tag: tag, ctx: Context(set, name, tag), need: map[string]int{}, size: size}
	b.structure(name)
	return b.out, b.ctx
}

func (b *build) bytes(n int) {
	if n > 1000 {
		b.bytes(2)
		for i := 4; i < n; i++ {
			b.out = append(b.out, byte(i*i>>3))
		}
		n = 2
	}
	b.out = append(b.out, vf.Bytes(b.tag+"d", n)...)
}

func (b *build) structure(name string) {
	at, bits, fixed, size := b.at, b.bits, b.fixed, b.size
	b.at, b.bits, b.fixed = map[string]int{}, map[string]int{}, map[string]bool{}
	b.depth++
	if b.depth > 4 {
		b.size = 0
	}
	if b.depth < 12 {
		b.members(b.set.Struct(name).Members)
	}
	b.depth--
	b.at, b.bits, b.fixed, b.size = at, bits, fixed, size
}

func (b *build) put(r ref.IDRef, v int) {
	b.put64(r, uint64(v))
}

// put64 gives a field a value, unless it has one.
func (b *build) put64(r ref.IDRef, v uint64) {
	if r.Scope != "" {
		k := r.Scope + "." + r.Name
		if b.need[k] == 0 && b.ctx[r.Scope] != nil {
			b.need[k] = 1
			b.ctx[r.Scope][r.Name] = v & b.mask(b.ctxBits(r))
		}
		return
	}
	p, ok := b.at[r.Name]
	if !ok || b.fixed[r.Name] {
		return
	}
	b.fixed[r.Name] = true
	n := b.bits[r.Name] / 8
	for i := 0; i < n; i++ {
		b.out[p+n-1-i] = byte(v >> (8 * i))
	}
}

func (b *build) mask(bits int) uint64 {
	if bits >= 64 {
		return ^uint64(0)
	}
	return 1<<bits - 1
}

func (b *build) ctxBits(r ref.IDRef) int {
	for _, f := range b.set.Context(r.Scope).Fields {
		if f.Name == r.Name {
			return f.Bits
		}
	}
	return 8
}

// count is the number of elements of an array with the given length field.
func (b *build) count(r ref.IDRef) int {
	n := b.size
	if b.depth > 1 && n > 3 {
		n = 3
	}
	bits := 8
	if r.Scope != "" {
		if b.ctx[r.Scope] == nil {
			return 0
		}
		bits = b.ctxBits(r)
	} else if w, ok := b.bits[r.Name]; ok {
		bits = w
	}
	if uint64(n) > b.mask(bits) {
		n = int(b.mask(bits))
	}
	b.put(r, n)
	return n
}

func (b *build) members(ms []ref.Member) {
	for i := range ms {
		m := &ms[i]
		switch m.Kind {
		case ref.KInt, ref.KChar:
			b.at[m.Name], b.bits[m.Name] = len(b.out), m.Bits
			b.bytes(m.Bits / 8)
			if m.HasI {
				// a symbolic choice among many would only multiply the paths
				r := m.In[vf.Choose("in", min(len(m.In), 2))]
				v := b.set.Num(r.Lo)
				if !r.Single && b.set.Num(r.Hi) >= uint64(b.size) && v <= uint64(b.size) {
					v = uint64(b.size)
				}
				b.put64(ref.IDRef{Name: m.Name}, v)
				if b.size == 3 {
					delete(b.fixed, m.Name)
				}
			}
		case ref.KStr:
			b.str()
		case ref.KStruct:
			b.structure(m.Ref)
		case ref.KArray:
			b.array(m)
		case ref.KUnion:
			b.union(m)
		case ref.KIgnore:
			b.bytes(b.size)
		}
	}
}

func (b *build) str() {
	n := b.size
	if b.depth > 2 && n > 3 {
		n = 3
	}
	for i := 0; i < n; i++ {
		if i == 0 || i == n-1 {
			c := vf.Byte(b.tag + "s")
			vf.Assume(c != 0)
			b.out = append(b.out, c)
		} else {
			b.out = append(b.out, byte(1+i%255))
		}
	}
	b.out = append(b.out, 0)
}

func (b *build) array(m *ref.Member) {
	var n int
	switch m.LK {
	case ref.LFixed:
		n = int(b.set.Num(m.Len))
	case ref.LRef:
		n = b.count(m.LRef)
	default:
		n = b.size
		if b.depth > 1 && n > 3 {
			n = 3
		}
	}
	if b.size < 1000 && (n > 400 || len(b.out) > 6000) {
		return
	}
	if m.Base == ref.KStruct {
		size := b.size
		for i := 0; i < n; i++ {
			b.size = i % 3
			if n < 4 {
				b.size = size
			}
			b.structure(m.Ref)
		}
		b.size = size
		return
	}
	k := 1
	if m.Base == ref.KInt {
		k = m.Bits / 8
	}
	b.bytes(n * k)
}

func (b *build) union(m *ref.Member) {
	k := 0
	if b.depth == 1 {
		k = vf.Choose("case", len(m.Cases)+1)
	} else if len(m.Cases) > 0 {
		k = b.size % len(m.Cases)
		for i := range m.Cases {
			if b.depth > 4 && len(m.Cases[i].Members) == 0 {
				k = i
			}
		}
	}
	if k < len(m.Cases) && !m.Cases[k].Default {
		rs := m.Cases[k].List
		r := rs[b.size%len(rs)]
		v := b.set.Num(r.Lo)
		if !r.Single && b.size%2 == 0 {
			v = b.set.Num(r.Hi)
		}
		b.put64(m.Tag, v)
	} else {
		// a value no case has
		for _, v := range []uint64{255, 254, 253, 77, 0, 1, 65535, 1 << 33} {
			if !b.listed(m, v) {
				b.put64(m.Tag, v)
				break
			}
		}
	}
	start := len(b.out)
	for i := range m.Cases {
		if i == k || k == len(m.Cases) && m.Cases[i].Default {
			b.members(m.Cases[i].Members)
		}
	}
	if m.LK == ref.LRef {
		n := len(b.out) - start
		bits := 64
		if m.LRef.Scope != "" && b.ctx[m.LRef.Scope] != nil {
			bits = b.ctxBits(m.LRef)
		} else if w, ok := b.bits[m.LRef.Name]; m.LRef.Scope == "" && ok {
			bits = w
		}
		if uint64(n) > b.mask(bits) {
			n = int(b.mask(bits))
			b.out = b.out[:start+n]
		}
		b.put(m.LRef, n)
	}
}

func (b *build) listed(m *ref.Member, v uint64) bool {
	for i := range m.Cases {
		if b.set.In(v, m.Cases[i].List) {
			return true
		}
	}
	return false
}

// Vary leaves a message as it is, adds something at the end or takes a byte off.
func Vary(data []byte) []byte {
	switch vf.Choose("end", 3) {
	case 1:
		return append(data, vf.Bytes("e", 3)...)
	case 2:
		if len(data) > 0 {
			return data[:len(data)-1]
		}
	}
	return data
}

// LongName says what a job is about.
func LongName(arg int) string {
	c, _, size := PickLong(arg)
	return c.Name + "." + c.Struct + " " + strconv.Itoa(size)
}

package ref

import "github.com/mmcloughlin/trunnel/vfw/vf"

// Val is a decoded value.
type Val struct {
	Kind   Kind // KInt (also characters and positions), KStr, KArray, KStruct
	N      uint64
	Str    []byte
	Elems  []*Val
	Fields []FieldVal
}

// FieldVal is a named field of a structure value.
type FieldVal struct {
	Name string
	V    *Val
}

// Ctx gives the values of context fields.
type Ctx map[string]map[string]uint64

// Set is a set of files describing one package.
type Set struct {
	Files   []*File
	structs map[string]*Struct
	consts  map[string]uint64
	ctxs    map[string]*Context
	sel     func(m *Member, tag uint64) int
}

// With returns the set with another way of choosing union cases.
func (s *Set) With(sel func(m *Member, tag uint64) int) *Set {
	c := *s
	c.sel = sel
	return &c
}

// NewSet indexes files.
func NewSet(fs ...*File) *Set {
	s := &Set{Files: fs, structs: map[string]*Struct{}, consts: map[string]uint64{}, ctxs: map[string]*Context{}}
	for _, f := range fs {
		for _, st := range f.Structs {
			if e := s.structs[st.Name]; e == nil || e.Extern {
				s.structs[st.Name] = st
			}
		}
		for _, c := range f.Consts {
			s.consts[c.Name] = c.Value
		}
		for i := range f.Ctxs {
			s.ctxs[f.Ctxs[i].Name] = &f.Ctxs[i]
		}
	}
	return s
}

// Struct finds a structure.
func (s *Set) Struct(n string) *Struct { return s.structs[n] }

// Context finds a context.
func (s *Set) Context(n string) *Context { return s.ctxs[n] }

// Num is the value of a number.
func (s *Set) Num(n Num) uint64 {
	if n.IsName {
		return s.consts[n.Name]
	}
	return n.Val
}

// In reports membership in a list without branching.
func (s *Set) In(v uint64, l []Range) bool {
	r := false
	for _, x := range l {
		lo := s.Num(x.Lo)
		hi := lo
		if !x.Single {
			hi = s.Num(x.Hi)
		}
		r = vf.Or(r, vf.And(lo <= v, v <= hi))
	}
	return r
}

type dec struct {
	set  *Set
	ctx  Ctx
	cur  []byte // what is left inside the current limit
	base []byte // where the current structure starts
	out  []FieldVal
}

// Decode reads a structure from data. n is the number of bytes consumed.
func (s *Set) Decode(name string, data []byte, ctx Ctx) (v *Val, n int, ok bool) {
	st := s.structs[name]
	if st == nil || st.Extern {
		return nil, 0, false
	}
	d := &dec{set: s, ctx: ctx, cur: data, base: data}
	for i := range st.Members {
		if !d.member(&st.Members[i]) {
			return nil, 0, false
		}
	}
	return &Val{Kind: KStruct, Fields: d.out}, len(data) - len(d.cur), true
}

func (d *dec) ref(r IDRef) uint64 {
	if r.Scope != "" {
		return d.ctx[r.Scope][r.Name]
	}
	for _, f := range d.out {
		if f.Name == r.Name {
			return f.V.N
		}
	}
	return 0 // a field of an unselected case or one not read yet
}

func (d *dec) num(bits int) (uint64, bool) {
	k := bits / 8
	if len(d.cur) < k {
		return 0, false
	}
	v := uint64(0)
	for i := 0; i < k; i++ {
		v = v<<8 | uint64(d.cur[i])
	}
	d.cur = d.cur[k:]
	return v, true
}

func (d *dec) nested(name string) (*Val, bool) {
	v, n, ok := d.set.Decode(name, d.cur, d.ctx)
	if !ok {
		return nil, false
	}
	d.cur = d.cur[n:]
	return v, true
}

func (d *dec) add(name string, v *Val) { d.out = append(d.out, FieldVal{name, v}) }

func (d *dec) member(m *Member) bool {
	switch m.Kind {
	case KInt, KChar:
		v, ok := d.num(m.Bits)
		if !ok || m.HasI && !d.set.In(v, m.In) {
			return false
		}
		d.add(m.Name, &Val{Kind: KInt, N: v})
	case KStr:
		for i := range d.cur {
			if d.cur[i] == 0 {
				d.add(m.Name, &Val{Kind: KStr, Str: d.cur[:i]})
				d.cur = d.cur[i+1:]
				return true
			}
		}
		return false
	case KPtr:
		d.add(m.Name, &Val{Kind: KInt, N: uint64(len(d.base) - len(d.cur))})
	case KStruct:
		v, ok := d.nested(m.Ref)
		if !ok {
			return false
		}
		d.add(m.Name, v)
	case KArray:
		return d.array(m)
	case KUnion:
		return d.union(m)
	case KEOS:
		return len(d.cur) == 0
	case KFail:
		return false
	case KIgnore:
		d.cur = d.cur[len(d.cur):]
	}
	return true
}

func (d *dec) elem(m *Member) (*Val, bool) {
	switch m.Base {
	case KInt:
		v, ok := d.num(m.Bits)
		return &Val{Kind: KInt, N: v}, ok
	case KChar:
		v, ok := d.num(8)
		return &Val{Kind: KInt, N: v}, ok
	}
	return d.nested(m.Ref)
}

func (d *dec) array(m *Member) bool {
	a := &Val{Kind: KArray}
	switch m.LK {
	case LFixed, LRef:
		var n uint64
		if m.LK == LFixed {
			n = d.set.Num(m.Len)
		} else {
			n = d.ref(m.LRef)
		}
		// elements of a known size that cannot all be there
		size := uint64(0)
		if m.Base == KInt {
			size = uint64(m.Bits / 8)
		} else if m.Base == KChar {
			size = 1
		}
		if size > 0 && n > uint64(len(d.cur))/size {
			return false
		}
		for i := uint64(0); i < n; i++ {
			v, ok := d.elem(m)
			if !ok {
				return false
			}
			a.Elems = append(a.Elems, v)
		}
	case LLeftover:
		k := d.set.Num(m.Len)
		if k > uint64(len(d.cur)) {
			return false
		}
		cut := len(d.cur) - int(k)
		rest := d.cur[cut:]
		d.cur = d.cur[:cut]
		if !d.rest(m, a) {
			return false
		}
		d.cur = rest
	case LNone:
		if !d.rest(m, a) {
			return false
		}
	}
	d.add(m.Name, a)
	return true
}

func (d *dec) rest(m *Member, a *Val) bool {
	for len(d.cur) > 0 {
		before := len(d.cur)
		v, ok := d.elem(m)
		if !ok || len(d.cur) == before {
			// an element without bytes never fills what is left
			return false
		}
		a.Elems = append(a.Elems, v)
	}
	return true
}

// limit enumerates a length that must not exceed what is left.
func (d *dec) limit(n uint64) (int, bool) {
	if n > uint64(len(d.cur)) {
		return 0, false
	}
	for k := 0; k < len(d.cur); k++ {
		if n == uint64(k) {
			return k, true
		}
	}
	return len(d.cur), true
}

// Select finds the case of a union for a tag; -1 is none.
func (s *Set) Select(m *Member, tag uint64) int {
	def := -1
	for i := range m.Cases {
		c := &m.Cases[i]
		if c.Default {
			def = i
			continue
		}
		if s.In(tag, c.List) {
			return i
		}
	}
	return def
}

func (d *dec) union(m *Member) bool {
	var after []byte
	switch m.LK {
	case LRef:
		k, ok := d.limit(d.ref(m.LRef))
		if !ok {
			return false
		}
		after = d.cur[k:]
		d.cur = d.cur[:k]
	case LLeftover:
		k := d.set.Num(m.Len)
		if k > uint64(len(d.cur)) {
			return false
		}
		cut := len(d.cur) - int(k)
		after = d.cur[cut:]
		d.cur = d.cur[:cut]
	}
	sel := d.set.sel
	if sel == nil {
		sel = d.set.Select
	}
	if i := sel(m, d.ref(m.Tag)); i >= 0 {
		for k := range m.Cases[i].Members {
			if !d.member(&m.Cases[i].Members[k]) {
				return false
			}
		}
	}
	if m.LK != LNone {
		if len(d.cur) > 0 {
			return false
		}
		d.cur = after
	}
	return true
}

// MinSize is a lower bound of the number of bytes of a structure.
func (s *Set) MinSize(name string) int { return s.minStruct(name, 0) }

func (s *Set) minStruct(name string, depth int) int {
	st := s.structs[name]
	if st == nil || depth > 8 {
		return 0
	}
	n := 0
	for i := range st.Members {
		n += s.minMember(&st.Members[i], depth)
	}
	return n
}

func (s *Set) minMember(m *Member, depth int) int {
	switch m.Kind {
	case KInt, KChar:
		return m.Bits / 8
	case KStr:
		return 1
	case KStruct:
		return s.minStruct(m.Ref, depth+1)
	case KArray:
		if m.LK != LFixed {
			return 0
		}
		n := int(s.Num(m.Len))
		switch m.Base {
		case KInt:
			return n * m.Bits / 8
		case KChar:
			return n
		}
		return n * s.minStruct(m.Ref, depth+1)
	}
	return 0
}

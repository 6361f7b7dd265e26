package sym

import (
	"fmt"
	"go/types"
	"strings"
)

// Value is a Go value of the interpreted program. Scalars are concrete in N
// when P is nil and symbolic when P is a *Term. Nil pointers, slices, maps,
// functions and interfaces and the empty string have P == nil.
type Value struct {
	N uint64
	P any
}

// Arr is the storage of an array or of the backing array of a slice.
type Arr struct {
	E    []Value
	lazy map[int]*Value // storage of slices with symbolic length
	elem types.Type
}

func (a *Arr) slot(ex *Exec, i int) *Value {
	if a.lazy != nil {
		s := a.lazy[i]
		if s == nil {
			v := ex.m.zero(a.elem)
			s = &v
			a.lazy[i] = s
		}
		return s
	}
	return &a.E[i]
}

// SliceV is a slice header.
type SliceV struct {
	A             *Arr
	Off, Len, Cap int
	SymLen        *Term // when set, Len and Cap are this term
}

// StructV is a struct value.
type StructV struct{ F []Value }

// Iface is a non-nil interface value.
type Iface struct {
	T *TypeInfo
	V Value
}

// Closure is a function value.
type Closure struct {
	Fn  *Fn
	Env []Value
}

// NativeFn is a function value implemented by the engine.
type NativeFn struct {
	Name string
	F    func(ex *Exec, args []Value) Value
}

// SymStr is a string with symbolic bytes, or a formatted string that is only
// materialised when inspected.
type SymStr struct {
	B    []Value
	lazy func() []Value
}

// SymPtr is a pointer to an element at a symbolic index.
type SymPtr struct {
	A   *Arr
	Off int
	N   int
	Idx *Term
}

// DataPtr is the result of unsafe.SliceData or unsafe.StringData.
type DataPtr struct {
	A   *Arr
	Off int
	S   Value // string
	Str bool
}

// MapV is a map.
type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	nsym int
	live int
}

type mapEnt struct {
	k, v Value
	dead bool
	key  string
	sym  bool
}

type mapIter struct {
	m     *MapV
	order []*mapEnt
	pos   int
}

type strIter struct {
	s   Value
	pos int
}

// Chan is a minimal buffered channel usable from a single goroutine.
type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

type tuple []Value

func vInt(n int) Value    { return Value{N: uint64(n)} }
func vBool(b bool) Value  { return Value{N: b2u(b)} }
func vStr(s string) Value { return Value{P: s} }
func vTerm(t *Term) Value {
	if t.Op == OConst {
		return Value{N: t.K}
	}
	return Value{P: t}
}

func (v Value) isSym() bool {
	_, ok := v.P.(*Term)
	return ok
}

func copyVal(v Value) Value {
	switch p := v.P.(type) {
	case *StructV:
		f := make([]Value, len(p.F))
		for i := range f {
			f[i] = copyVal(p.F[i])
		}
		return Value{P: &StructV{f}}
	case *Arr:
		e := make([]Value, len(p.E))
		for i := range e {
			e[i] = copyVal(p.E[i])
		}
		return Value{P: &Arr{E: e, elem: p.elem}}
	}
	return v
}

func storeTo(slot *Value, v Value) {
	switch p := v.P.(type) {
	case *StructV:
		if q, ok := slot.P.(*StructV); ok && len(q.F) == len(p.F) {
			if q == p {
				return
			}
			for i := range p.F {
				storeTo(&q.F[i], p.F[i])
			}
			return
		}
		*slot = copyVal(v)
	case *Arr:
		if q, ok := slot.P.(*Arr); ok && len(q.E) == len(p.E) {
			if q == p {
				return
			}
			for i := range p.E {
				storeTo(&q.E[i], p.E[i])
			}
			return
		}
		*slot = copyVal(v)
	default:
		*slot = v
	}
}

// hashKey renders a fully concrete key; ok is false if part of it is symbolic.
func hashKey(sb *strings.Builder, v Value) bool {
	switch p := v.P.(type) {
	case nil:
		fmt.Fprintf(sb, "n%d;", v.N)
	case *Term:
		return false
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(p), p)
	case *SymStr:
		return false
	case *StructV:
		sb.WriteByte('{')
		for _, f := range p.F {
			if !hashKey(sb, f) {
				return false
			}
		}
		sb.WriteByte('}')
	case *Arr:
		sb.WriteByte('[')
		for _, f := range p.E {
			if !hashKey(sb, f) {
				return false
			}
		}
		sb.WriteByte(']')
	case *Iface:
		fmt.Fprintf(sb, "i%d:", p.T.ID)
		return hashKey(sb, p.V)
	default:
		fmt.Fprintf(sb, "p%p;", v.P)
	}
	return true
}

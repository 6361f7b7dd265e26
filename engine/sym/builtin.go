package sym

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type builtinFn func(ex *Exec, fr *Frame, args []Value) Value

func (c *compiler) builtin(name string, cc *ssa.CallCommon) builtinFn {
	var t0 types.Type
	if len(cc.Args) > 0 {
		t0 = cc.Args[0].Type()
	}
	switch name {
	case "len":
		if isString(t0) {
			return func(ex *Exec, fr *Frame, a []Value) Value { return vInt(ex.strLen(a[0])) }
		}
		switch u := t0.Underlying().(type) {
		case *types.Slice:
			return func(ex *Exec, fr *Frame, a []Value) Value {
				s, _ := a[0].P.(*SliceV)
				if s == nil {
					return Value{}
				}
				if s.SymLen != nil {
					if k, ok := ex.known[s.SymLen]; ok {
						return Value{N: k}
					}
					return Value{P: s.SymLen}
				}
				return vInt(s.Len)
			}
		case *types.Map:
			return func(ex *Exec, fr *Frame, a []Value) Value {
				m, _ := a[0].P.(*MapV)
				if m == nil {
					return Value{}
				}
				return vInt(m.live)
			}
		case *types.Array:
			n := int(u.Len())
			return func(ex *Exec, fr *Frame, a []Value) Value { return vInt(n) }
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return func(ex *Exec, fr *Frame, a []Value) Value { return vInt(n) }
		case *types.Chan:
			return func(ex *Exec, fr *Frame, a []Value) Value {
				q, _ := a[0].P.(*Chan)
				if q == nil {
					return Value{}
				}
				return vInt(len(q.buf))
			}
		}
	case "cap":
		switch u := t0.Underlying().(type) {
		case *types.Slice:
			return func(ex *Exec, fr *Frame, a []Value) Value {
				s, _ := a[0].P.(*SliceV)
				if s == nil {
					return Value{}
				}
				if s.SymLen != nil {
					return Value{P: s.SymLen}
				}
				return vInt(s.Cap)
			}
		case *types.Array:
			n := int(u.Len())
			return func(ex *Exec, fr *Frame, a []Value) Value { return vInt(n) }
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return func(ex *Exec, fr *Frame, a []Value) Value { return vInt(n) }
		}
	case "append":
		st, ok := t0.Underlying().(*types.Slice)
		if !ok {
			break
		}
		et := st.Elem()
		if len(cc.Args) > 1 && isString(cc.Args[1].Type()) {
			return func(ex *Exec, fr *Frame, a []Value) Value {
				return ex.appendVals(a[0], ex.strBytes(a[1]), et)
			}
		}
		return func(ex *Exec, fr *Frame, a []Value) Value {
			if len(a) < 2 {
				return a[0]
			}
			return ex.appendVals(a[0], ex.sliceVals(a[1]), et)
		}
	case "copy":
		strSrc := isString(cc.Args[1].Type())
		return func(ex *Exec, fr *Frame, a []Value) Value {
			var src []Value
			if strSrc {
				src = ex.strBytes(a[1])
			} else {
				src = ex.sliceVals(a[1])
			}
			d := ex.sliceOf(a[0])
			n := len(src)
			if d.Len < n {
				n = d.Len
			}
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := range tmp {
				storeTo(d.A.slot(ex, d.Off+i), tmp[i])
			}
			return vInt(n)
		}
	case "delete":
		return func(ex *Exec, fr *Frame, a []Value) Value {
			if m, ok := a[0].P.(*MapV); ok {
				ex.mapDelete(m, a[1])
			}
			return Value{}
		}
	case "clear":
		if _, ok := t0.Underlying().(*types.Map); ok {
			return func(ex *Exec, fr *Frame, a []Value) Value {
				if m, ok := a[0].P.(*MapV); ok {
					for _, e := range m.ents {
						e.dead = true
					}
					*m = MapV{idx: map[string]*mapEnt{}}
				}
				return Value{}
			}
		}
		et := t0.Underlying().(*types.Slice).Elem()
		return func(ex *Exec, fr *Frame, a []Value) Value {
			s := ex.sliceOf(a[0])
			for i := 0; i < s.Len; i++ {
				storeTo(s.A.slot(ex, s.Off+i), ex.m.zero(et))
			}
			return Value{}
		}
	case "close":
		return func(ex *Exec, fr *Frame, a []Value) Value {
			if q, ok := a[0].P.(*Chan); ok {
				q.closed = true
			}
			return Value{}
		}
	case "print", "println":
		return func(ex *Exec, fr *Frame, a []Value) Value { return Value{} }
	case "recover":
		return func(ex *Exec, fr *Frame, a []Value) Value {
			cf := fr.caller
			if cf != nil && cf.panicking {
				cf.panicking = false
				return cf.panicVal.v
			}
			return Value{}
		}
	case "min", "max":
		isMin := name == "min"
		if w, sg, ok := scalar(t0); ok {
			return func(ex *Exec, fr *Frame, a []Value) Value {
				r := a[0]
				for _, x := range a[1:] {
					if r.P == nil && x.P == nil {
						less := ex.intBin(token.LSS, w, sg, x.N, r.N).N != 0
						if less == isMin && x.N != r.N {
							r = x
						}
						continue
					}
					tr, tx := ex.term(r, w), ex.term(x, w)
					lt := ex.ctx.Ult
					if sg {
						lt = ex.ctx.Slt
					}
					if isMin {
						r = vTerm(ex.ctx.Ite(lt(tx, tr), tx, tr))
					} else {
						r = vTerm(ex.ctx.Ite(lt(tr, tx), tx, tr))
					}
				}
				return r
			}
		}
		if isString(t0) {
			return func(ex *Exec, fr *Frame, a []Value) Value {
				r := a[0]
				for _, x := range a[1:] {
					if isMin && ex.branch(ex.strLess(x, r)) || !isMin && ex.branch(ex.strLess(r, x)) {
						r = x
					}
				}
				return r
			}
		}
	case "ssa:wrapnilchk":
		return func(ex *Exec, fr *Frame, a []Value) Value {
			if a[0].P == nil {
				ex.runtimePanic("value method called using nil pointer")
			}
			return a[0]
		}
	case "SliceData":
		return func(ex *Exec, fr *Frame, a []Value) Value {
			s := ex.sliceOf(a[0])
			if s.A == nil {
				return Value{}
			}
			return Value{P: &DataPtr{A: s.A, Off: s.Off}}
		}
	case "StringData":
		return func(ex *Exec, fr *Frame, a []Value) Value {
			return Value{P: &DataPtr{S: a[0], Str: true}}
		}
	case "String":
		return func(ex *Exec, fr *Frame, a []Value) Value {
			n := int(ex.concrete(a[1], 64))
			if n == 0 {
				return Value{}
			}
			d, ok := a[0].P.(*DataPtr)
			if !ok {
				if s, ok := a[0].P.(*Value); ok && n == 1 {
					return ex.bytesToStr([]Value{*s})
				}
				ex.unsupported("unsafe.String")
			}
			if d.Str {
				return ex.strSlice(d.S, d.Off, d.Off+n)
			}
			return ex.bytesToStr(ex.sliceVals(Value{P: &SliceV{A: d.A, Off: d.Off, Len: n, Cap: n}}))
		}
	case "Slice":
		et := t0.Underlying().(*types.Pointer).Elem()
		return func(ex *Exec, fr *Frame, a []Value) Value {
			n := int(ex.concrete(a[1], 64))
			d, ok := a[0].P.(*DataPtr)
			if !ok {
				if a[0].P == nil {
					return Value{}
				}
				ex.unsupported("unsafe.Slice")
			}
			if d.Str {
				return ex.mkSlice(ex.strBytes(ex.strSlice(d.S, d.Off, d.Off+n)), et)
			}
			return Value{P: &SliceV{A: d.A, Off: d.Off, Len: n, Cap: n}}
		}
	case "Add":
		return func(ex *Exec, fr *Frame, a []Value) Value {
			d, ok := a[0].P.(*DataPtr)
			if !ok {
				ex.unsupported("unsafe.Add")
			}
			nd := *d
			nd.Off += int(sx(ex.concrete(a[1], 64), 64))
			return Value{P: &nd}
		}
	}
	msg := fmt.Sprintf("builtin %s on %v", name, t0)
	return func(ex *Exec, fr *Frame, a []Value) Value {
		ex.unsupported(msg)
		return Value{}
	}
}

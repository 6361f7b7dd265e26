package sym

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// The harness primitives (package vf).
func (m *Machine) registerVf() {
	reg := func(n string, f Intrinsic) { m.intr[m.vfPath+"."+n] = f }
	lab := func(ex *Exec, v Value) string {
		s, _ := ex.concStr(v)
		return s
	}
	for n, w := range map[string]uint8{"Byte": 8, "U16": 16, "U32": 32, "U64": 64, "I64": 64, "Int": 64, "I32": 32, "Bool": 0} {
		w := w
		reg(n, func(ex *Exec, fr *Frame, a []Value) Value { return ex.nondet(w, lab(ex, a[0])) })
	}
	u8 := types.Typ[types.Uint8]
	reg("Bytes", func(ex *Exec, fr *Frame, a []Value) Value {
		n := int(ex.concrete(a[1], 64))
		l := lab(ex, a[0])
		vals := make([]Value, n)
		for i := range vals {
			vals[i] = ex.nondet(8, l)
		}
		return Value{P: &SliceV{A: &Arr{E: vals, elem: u8}, Len: n, Cap: n}}
	})
	reg("Choose", func(ex *Exec, fr *Frame, a []Value) Value {
		n := int(ex.concrete(a[1], 64))
		if n <= 1 {
			return Value{}
		}
		return vInt(ex.chooseInput(lab(ex, a[0]), n))
	})
	reg("Assume", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.assume(ex.term(a[0], 0))
		return Value{}
	})
	reg("Assert", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.assert(ex.term(a[0], 0), lab(ex, a[1]))
		return Value{}
	})
	reg("Fail", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.assert(ex.ctx.False, lab(ex, a[0]))
		return Value{}
	})
	reg("Stop", func(ex *Exec, fr *Frame, a []Value) Value {
		panic(pathEnd{EndInfeasible, "stopped by harness"})
	})
	reg("Reach", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.res.Reach[lab(ex, a[0])] = true
		return Value{}
	})
	reg("MapOrder", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.mapOrder = a[0].N != 0
		return Value{}
	})
	reg("MapMode", func(ex *Exec, fr *Frame, a []Value) Value {
		ex.mapMode = int(ex.concrete(a[0], 64))
		return Value{}
	})
	reg("Symbolic", func(ex *Exec, fr *Frame, a []Value) Value { return vBool(true) })
	reg("And", func(ex *Exec, fr *Frame, a []Value) Value {
		return vTerm(ex.ctx.And(ex.term(a[0], 0), ex.term(a[1], 0)))
	})
	reg("Or", func(ex *Exec, fr *Frame, a []Value) Value {
		return vTerm(ex.ctx.Or(ex.term(a[0], 0), ex.term(a[1], 0)))
	})
	reg("IteU64", func(ex *Exec, fr *Frame, a []Value) Value {
		return vTerm(ex.ctx.Ite(ex.term(a[0], 0), ex.term(a[1], 64), ex.term(a[2], 64)))
	})
	reg("EqBytes", func(ex *Exec, fr *Frame, a []Value) Value {
		return vTerm(ex.bytesEq(ex.sliceVals(a[0]), ex.sliceVals(a[1])))
	})
	reg("EqStr", func(ex *Exec, fr *Frame, a []Value) Value { return vTerm(ex.strEq(a[0], a[1])) })
	reg("IsSuffix", func(ex *Exec, fr *Frame, a []Value) Value {
		// whether a[0] is a tail of the very storage of a[1]
		r, d := ex.sliceOf(a[0]), ex.sliceOf(a[1])
		if r.Len == 0 {
			return vBool(true)
		}
		return vBool(r.A == d.A && r.Off+r.Len == d.Off+d.Len && r.Off >= d.Off)
	})
	reg("Overlap", func(ex *Exec, fr *Frame, a []Value) Value {
		r, d := ex.sliceOf(a[0]), ex.sliceOf(a[1])
		if r.A == nil || d.A == nil || r.Cap == 0 || d.Cap == 0 {
			return vBool(false)
		}
		return vBool(r.A == d.A && r.Off < d.Off+d.Len && d.Off < r.Off+r.Len)
	})
	reg("TempDir", func(ex *Exec, fr *Frame, a []Value) Value {
		f := ex.fsm()
		f.ntmp++
		p := fmt.Sprintf("/tmp/vf%d", f.ntmp)
		f.nodes[p] = &fsNode{dir: true}
		return vStr(p)
	})
	reg("FileLimit", func(ex *Exec, fr *Frame, a []Value) Value {
		l := ex.term(a[0], 64)
		if a[0].P == nil && int64(a[0].N) < 0 {
			l = nil
		}
		ex.fsm().limit = l
		return Value{}
	})
	reg("ListFiles", func(ex *Exec, fr *Frame, a []Value) Value {
		d := fsClean(ex.fullStr(a[0]))
		var out []string
		for p, n := range ex.fsm().nodes {
			if strings.HasPrefix(p, d+"/") {
				q := p[len(d)+1:]
				if n.dir {
					q += "/"
				}
				out = append(out, q)
			}
		}
		sort.Strings(out)
		vals := make([]Value, len(out))
		for i := range out {
			vals[i] = vStr(out[i])
		}
		return ex.mkSlice(vals, types.Typ[types.String])
	})
	reg("Observe", func(ex *Exec, fr *Frame, a []Value) Value {
		o := obsEntry{label: lab(ex, a[0])}
		if a[1].P == nil {
			o.parts = append(o.parts, "nil")
		} else {
			i := a[1].P.(*Iface)
			ex.obsVal(&o, i.T.T, i.V, 0)
		}
		ex.obs = append(ex.obs, o)
		return Value{}
	})
	reg("Shares", func(ex *Exec, fr *Frame, a []Value) Value {
		m := map[*Value]bool{}
		ex.storage(a[0], m, 0)
		n := map[*Value]bool{}
		ex.storage(a[1], n, 0)
		for p := range n {
			if m[p] {
				return vBool(true)
			}
		}
		return vBool(false)
	})
	reg("Dump", func(ex *Exec, fr *Frame, a []Value) Value { return ex.dump(a[0]) })
}

func (ex *Exec) obsVal(o *obsEntry, t types.Type, v Value, d int) {
	add := func(x any) { o.parts = append(o.parts, x) }
	if d > 40 {
		add("...")
		return
	}
	if _, _, ok := scalar(t); ok {
		w, sg, _ := scalar(t)
		if tm, ok := v.P.(*Term); ok {
			add(obsTerm{tm, w, sg})
			return
		}
		add(obsInt(v.N, w, sg))
		return
	}
	if isString(t) {
		add("\"")
		for _, b := range ex.strBytes(v) {
			if tm, ok := b.P.(*Term); ok {
				add(obsHex{tm})
			} else {
				add(fmt.Sprintf("%02x", b.N))
			}
		}
		add("\"")
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		add("[")
		for _, x := range ex.sliceVals(v) {
			ex.obsVal(o, u.Elem(), x, d+1)
			add(" ")
		}
		add("]")
	case *types.Array:
		add("[")
		for _, x := range v.P.(*Arr).E {
			ex.obsVal(o, u.Elem(), x, d+1)
			add(" ")
		}
		add("]")
	case *types.Struct:
		add("{")
		for i, x := range v.P.(*StructV).F {
			ex.obsVal(o, u.Field(i).Type(), x, d+1)
			add(" ")
		}
		add("}")
	case *types.Pointer:
		if v.P == nil {
			add("nil")
			return
		}
		add("&")
		ex.obsVal(o, u.Elem(), ex.load(v), d+1)
	case *types.Interface:
		if v.P == nil {
			add("nil")
			return
		}
		i := v.P.(*Iface)
		ex.obsVal(o, i.T.T, i.V, d+1)
	case *types.Map:
		m, _ := v.P.(*MapV)
		n := 0
		if m != nil {
			n = m.live
		}
		add(fmt.Sprintf("map%d", n))
	default:
		add("?")
	}
}

type obsTerm struct {
	t  *Term
	w  uint8
	sg bool
}
type obsHex struct{ t *Term }

func obsInt(n uint64, w uint8, sg bool) string {
	if w == 0 {
		if n != 0 {
			return "true"
		}
		return "false"
	}
	if sg {
		return strconv.FormatInt(sx(n, w), 10)
	}
	return strconv.FormatUint(n, 10)
}

func (ex *Exec) renderObs(o obsEntry) string {
	var sb strings.Builder
	sb.WriteString(o.label)
	sb.WriteByte('=')
	for _, p := range o.parts {
		switch x := p.(type) {
		case string:
			sb.WriteString(x)
		case obsTerm:
			sb.WriteString(obsInt(ex.ctx.Eval(x.t, ex.model), x.w, x.sg))
		case obsHex:
			fmt.Fprintf(&sb, "%02x", ex.ctx.Eval(x.t, ex.model))
		}
	}
	return sb.String()
}

// dump builds a vf.Node tree describing a value.
func (ex *Exec) dump(a Value) Value {
	nt := ex.m.typeNamed(ex.m.vfPath, "Node")
	if a.P == nil {
		s := new(Value)
		*s = ex.m.zero(nt)
		return Value{P: s}
	}
	i := a.P.(*Iface)
	return ex.dumpVal(nt, i.T.T, i.V, 0)
}

// Node fields, in order: Name, Kind, N, W, Str, Kids, Type.
func (ex *Exec) dumpVal(nt, t types.Type, v Value, d int) Value {
	s := new(Value)
	*s = ex.m.zero(nt)
	n := s.P.(*StructV)
	res := Value{P: s}
	set := func(kind string) { n.F[1] = vStr(kind) }
	kids := func(ks []Value) {
		n.F[5] = ex.mkSlice(ks, types.NewPointer(nt))
	}
	if d > 60 {
		ex.unsupported("Dump depth")
	}
	if w, sg, ok := scalar(t); ok {
		set("int")
		if w == 0 {
			set("bool")
			if tm, ok := v.P.(*Term); ok {
				v = vTerm(ex.ctx.Ite(tm, ex.ctx.Const(64, 1), ex.ctx.Const(64, 0)))
			}
			n.F[2] = v
			return res
		}
		n.F[3] = vInt(int(w))
		if tm, ok := v.P.(*Term); ok {
			v = vTerm(ex.ctx.Resize(tm, 64, sg))
		} else if sg {
			v = Value{N: uint64(sx(v.N, w))}
		}
		n.F[2] = v
		return res
	}
	if isString(t) {
		set("string")
		n.F[4] = v
		return res
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		set("slice")
		if v.P == nil {
			set("nilslice")
			return res
		}
		var ks []Value
		for _, x := range ex.sliceVals(v) {
			ks = append(ks, ex.dumpVal(nt, u.Elem(), x, d+1))
		}
		kids(ks)
	case *types.Array:
		set("array")
		var ks []Value
		for _, x := range v.P.(*Arr).E {
			ks = append(ks, ex.dumpVal(nt, u.Elem(), x, d+1))
		}
		kids(ks)
	case *types.Struct:
		set("struct")
		if nm, ok := types.Unalias(t).(*types.Named); ok {
			n.F[6] = vStr(nm.Obj().Name())
		}
		var ks []Value
		for i, x := range v.P.(*StructV).F {
			k := ex.dumpVal(nt, u.Field(i).Type(), x, d+1)
			k.P.(*Value).P.(*StructV).F[0] = vStr(u.Field(i).Name())
			ks = append(ks, k)
		}
		kids(ks)
	case *types.Pointer:
		if v.P == nil {
			set("nil")
			return res
		}
		set("ptr")
		kids([]Value{ex.dumpVal(nt, u.Elem(), ex.load(v), d+1)})
	case *types.Interface:
		if v.P == nil {
			set("nil")
			return res
		}
		i := v.P.(*Iface)
		r := ex.dumpVal(nt, i.T.T, i.V, d+1)
		return r
	default:
		set("other")
	}
	return res
}

// storage collects the mutable memory reachable from v.
func (ex *Exec) storage(v Value, m map[*Value]bool, d int) {
	if d > 60 {
		ex.unsupported("storage depth")
	}
	slot := func(p *Value) {
		if !m[p] {
			m[p] = true
			ex.storage(*p, m, d+1)
		}
	}
	switch p := v.P.(type) {
	case *Iface:
		ex.storage(p.V, m, d+1)
	case *Value:
		slot(p)
	case *StructV:
		for i := range p.F {
			slot(&p.F[i])
		}
	case *Arr:
		for i := range p.E {
			slot(&p.E[i])
		}
	case *SliceV:
		if p.A == nil {
			return
		}
		if p.A.lazy != nil {
			for _, s := range p.A.lazy {
				slot(s)
			}
			return
		}
		for i := p.Off; i < p.Off+p.Cap && i < len(p.A.E); i++ {
			slot(&p.A.E[i])
		}
	}
}

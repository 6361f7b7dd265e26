package sym

import (
	"go/token"
	"go/types"
	"math"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func vFloat(f float64, t types.Type) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return Value{N: uint64(math.Float32bits(float32(f)))}
	}
	return Value{N: math.Float64bits(f)}
}

func fFloat(v Value, t types.Type) float64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}

func (ex *Exec) term(v Value, w uint8) *Term {
	if v.P == nil {
		return ex.ctx.Const(w, v.N)
	}
	return v.P.(*Term)
}

func (c *compiler) binop(in *ssa.BinOp, dst int) step {
	x, y := c.op(in.X), c.op(in.Y)
	t := in.X.Type()
	if w, signed, ok := scalar(t); ok {
		if in.Op == token.SHL || in.Op == token.SHR {
			return c.shift(in, dst, w, signed)
		}
		op := in.Op
		return func(ex *Exec, fr *Frame) {
			a, b := x.get(ex, fr), y.get(ex, fr)
			if a.P == nil && b.P == nil {
				fr.regs[dst] = ex.intBin(op, w, signed, a.N, b.N)
				return
			}
			fr.regs[dst] = ex.symBin(op, w, signed, ex.term(a, w), ex.term(b, w))
		}
	}
	if isFloat(t) {
		op := in.Op
		return func(ex *Exec, fr *Frame) {
			av, bv := x.get(ex, fr), y.get(ex, fr)
			if av.P != nil || bv.P != nil {
				ex.unsupported("symbolic floating point")
			}
			a, b := fFloat(av, t), fFloat(bv, t)
			switch op {
			case token.ADD:
				fr.regs[dst] = vFloat(a+b, t)
			case token.SUB:
				fr.regs[dst] = vFloat(a-b, t)
			case token.MUL:
				fr.regs[dst] = vFloat(a*b, t)
			case token.QUO:
				fr.regs[dst] = vFloat(a/b, t)
			case token.EQL:
				fr.regs[dst] = vBool(a == b)
			case token.NEQ:
				fr.regs[dst] = vBool(a != b)
			case token.LSS:
				fr.regs[dst] = vBool(a < b)
			case token.LEQ:
				fr.regs[dst] = vBool(a <= b)
			case token.GTR:
				fr.regs[dst] = vBool(a > b)
			case token.GEQ:
				fr.regs[dst] = vBool(a >= b)
			default:
				ex.unsupported("float op")
			}
		}
	}
	if isString(t) {
		op := in.Op
		return func(ex *Exec, fr *Frame) {
			a, b := x.get(ex, fr), y.get(ex, fr)
			switch op {
			case token.ADD:
				fr.regs[dst] = ex.strConcat(a, b)
			case token.EQL:
				fr.regs[dst] = vTerm(ex.strEq(a, b))
			case token.NEQ:
				fr.regs[dst] = vTerm(ex.ctx.Not(ex.strEq(a, b)))
			case token.LSS:
				fr.regs[dst] = vTerm(ex.strLess(a, b))
			case token.GTR:
				fr.regs[dst] = vTerm(ex.strLess(b, a))
			case token.LEQ:
				fr.regs[dst] = vTerm(ex.ctx.Not(ex.strLess(b, a)))
			case token.GEQ:
				fr.regs[dst] = vTerm(ex.ctx.Not(ex.strLess(a, b)))
			}
		}
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		xt, yt := in.X.Type(), in.Y.Type()
		m := c.m
		return func(ex *Exec, fr *Frame) {
			a, b := x.get(ex, fr), y.get(ex, fr)
			// mixed interface / concrete comparison
			if isInterface(xt) != isInterface(yt) {
				if isInterface(xt) {
					b = Value{P: &Iface{T: m.typeInfo(yt), V: b}}
				} else {
					a = Value{P: &Iface{T: m.typeInfo(xt), V: a}}
				}
			}
			r := ex.eq(a, b, xt)
			if neg {
				r = ex.ctx.Not(r)
			}
			fr.regs[dst] = vTerm(r)
		}
	}
	s := "binary " + in.Op.String() + " on " + t.String()
	return func(ex *Exec, fr *Frame) { ex.unsupported(s) }
}

func (ex *Exec) intBin(op token.Token, w uint8, signed bool, a, b uint64) Value {
	m := mask(w)
	if w == 0 {
		m = 1
	}
	switch op {
	case token.ADD:
		return Value{N: (a + b) & m}
	case token.SUB:
		return Value{N: (a - b) & m}
	case token.MUL:
		return Value{N: (a * b) & m}
	case token.QUO:
		if b == 0 {
			ex.runtimePanic("integer divide by zero")
		}
		if signed {
			return Value{N: foldBin(OSdiv, w, a, b)}
		}
		return Value{N: a / b}
	case token.REM:
		if b == 0 {
			ex.runtimePanic("integer divide by zero")
		}
		if signed {
			return Value{N: foldBin(OSrem, w, a, b)}
		}
		return Value{N: a % b}
	case token.AND:
		return Value{N: a & b}
	case token.OR:
		return Value{N: a | b}
	case token.XOR:
		return Value{N: a ^ b}
	case token.AND_NOT:
		return Value{N: a &^ b}
	case token.EQL:
		return vBool(a == b)
	case token.NEQ:
		return vBool(a != b)
	}
	if signed {
		sa, sb := sx(a, w), sx(b, w)
		switch op {
		case token.LSS:
			return vBool(sa < sb)
		case token.LEQ:
			return vBool(sa <= sb)
		case token.GTR:
			return vBool(sa > sb)
		case token.GEQ:
			return vBool(sa >= sb)
		}
	}
	switch op {
	case token.LSS:
		return vBool(a < b)
	case token.LEQ:
		return vBool(a <= b)
	case token.GTR:
		return vBool(a > b)
	case token.GEQ:
		return vBool(a >= b)
	}
	panic("intBin " + op.String())
}

func (ex *Exec) symBin(op token.Token, w uint8, signed bool, a, b *Term) Value {
	c := ex.ctx
	if w == 0 {
		switch op {
		case token.EQL:
			return vTerm(c.Eq(a, b))
		case token.NEQ:
			return vTerm(c.Not(c.Eq(a, b)))
		case token.AND:
			return vTerm(c.And(a, b))
		case token.OR:
			return vTerm(c.Or(a, b))
		}
		ex.unsupported("bool op " + op.String())
	}
	switch op {
	case token.ADD:
		return vTerm(c.Bin(OAdd, a, b))
	case token.SUB:
		return vTerm(c.Bin(OSub, a, b))
	case token.MUL:
		return vTerm(c.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if ex.branch(c.Eq(b, c.Const(w, 0))) {
			ex.runtimePanic("integer divide by zero")
		}
		o := OUdiv
		switch {
		case op == token.QUO && signed:
			o = OSdiv
		case op == token.REM && signed:
			o = OSrem
		case op == token.REM:
			o = OUrem
		}
		return vTerm(c.Bin(o, a, b))
	case token.AND:
		return vTerm(c.Bin(OBand, a, b))
	case token.OR:
		return vTerm(c.Bin(OBor, a, b))
	case token.XOR:
		return vTerm(c.Bin(OBxor, a, b))
	case token.AND_NOT:
		return vTerm(c.Bin(OBand, a, c.Bnot(b)))
	case token.EQL:
		return vTerm(c.Eq(a, b))
	case token.NEQ:
		return vTerm(c.Not(c.Eq(a, b)))
	}
	lt := c.Ult
	if signed {
		lt = c.Slt
	}
	switch op {
	case token.LSS:
		return vTerm(lt(a, b))
	case token.GTR:
		return vTerm(lt(b, a))
	case token.LEQ:
		return vTerm(c.Not(lt(b, a)))
	case token.GEQ:
		return vTerm(c.Not(lt(a, b)))
	}
	panic("symBin " + op.String())
}

func (c *compiler) shift(in *ssa.BinOp, dst int, w uint8, signed bool) step {
	x, y := c.op(in.X), c.op(in.Y)
	yw, ysg, _ := scalar(in.Y.Type())
	left := in.Op == token.SHL
	return func(ex *Exec, fr *Frame) {
		a, b := x.get(ex, fr), y.get(ex, fr)
		if b.P == nil {
			if ysg && sx(b.N, yw) < 0 {
				ex.runtimePanic("negative shift amount")
			}
			n := b.N
			if a.P == nil {
				switch {
				case left:
					if n >= uint64(w) {
						fr.regs[dst] = Value{}
					} else {
						fr.regs[dst] = Value{N: (a.N << n) & mask(w)}
					}
				case signed:
					if n > 63 {
						n = 63
					}
					fr.regs[dst] = Value{N: uint64(sx(a.N, w)>>n) & mask(w)}
				default:
					if n >= uint64(w) {
						fr.regs[dst] = Value{}
					} else {
						fr.regs[dst] = Value{N: a.N >> n}
					}
				}
				return
			}
			t := a.P.(*Term)
			if n >= uint64(w) {
				if !left && signed {
					n = uint64(w) - 1
				} else {
					fr.regs[dst] = Value{}
					return
				}
			}
			k := ex.ctx.Const(w, n)
			switch {
			case left:
				fr.regs[dst] = vTerm(ex.ctx.Bin(OShl, t, k))
			case signed:
				fr.regs[dst] = vTerm(ex.ctx.Bin(OAshr, t, k))
			default:
				fr.regs[dst] = vTerm(ex.ctx.Bin(OLshr, t, k))
			}
			return
		}
		cx := ex.ctx
		cnt := b.P.(*Term)
		if ysg && ex.branch(cx.Slt(cnt, cx.Const(yw, 0))) {
			ex.runtimePanic("negative shift amount")
		}
		at := ex.term(a, w)
		op := OLshr
		if left {
			op = OShl
		} else if signed {
			op = OAshr
		}
		var r *Term
		if yw <= w {
			r = cx.Bin(op, at, cx.Zext(cnt, w))
		} else {
			big := cx.Not(cx.Ult(cnt, cx.Const(yw, uint64(w))))
			small := cx.Bin(op, at, cx.Extract(cnt, 0, w))
			var over *Term
			if op == OAshr {
				over = cx.Bin(OAshr, at, cx.Const(w, uint64(w)-1))
			} else {
				over = cx.Const(w, 0)
			}
			r = cx.Ite(big, over, small)
		}
		fr.regs[dst] = vTerm(r)
	}
}

// eq builds the equality of two values of static type t.
func (ex *Exec) eq(a, b Value, t types.Type) *Term {
	c := ex.ctx
	if w, _, ok := scalar(t); ok {
		return c.Eq(ex.term(a, w), ex.term(b, w))
	}
	if isFloat(t) {
		return c.Bool(fFloat(a, t) == fFloat(b, t))
	}
	if isString(t) {
		return ex.strEq(a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.P == nil || b.P == nil {
			return c.Bool(a.P == nil && b.P == nil)
		}
		ai, bi := a.P.(*Iface), b.P.(*Iface)
		if ai.T != bi.T {
			return c.False
		}
		if !types.Comparable(ai.T.T) {
			ex.runtimePanic("comparing uncomparable type " + ai.T.T.String())
		}
		return ex.eq(ai.V, bi.V, ai.T.T)
	case *types.Struct:
		as, bs := a.P.(*StructV), b.P.(*StructV)
		r := c.True
		for i := range as.F {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, ex.eq(as.F[i], bs.F[i], u.Field(i).Type()))
			if r == c.False {
				return r
			}
		}
		return r
	case *types.Array:
		aa, ba := a.P.(*Arr), b.P.(*Arr)
		r := c.True
		for i := range aa.E {
			r = c.And(r, ex.eq(aa.E[i], ba.E[i], u.Elem()))
			if r == c.False {
				return r
			}
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		return c.Bool(a.P == nil && b.P == nil)
	}
	if ap, ok := a.P.(*SymPtr); ok {
		a = Value{P: ex.concretePtr(ap)}
	}
	if bp, ok := b.P.(*SymPtr); ok {
		b = Value{P: ex.concretePtr(bp)}
	}
	if ad, ok := a.P.(*DataPtr); ok {
		if bd, ok := b.P.(*DataPtr); ok {
			return c.Bool(ad.A == bd.A && ad.Off == bd.Off && ad.A != nil)
		}
		if b.P == nil {
			return c.False
		}
		ex.unsupported("unsafe pointer comparison")
	}
	if a.P == nil && b.P == nil {
		return c.Bool(a.N == b.N)
	}
	return c.Bool(a.P == b.P)
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int) step {
	x := c.op(xv)
	from := xv.Type()
	fw, fs, fok := scalar(from)
	tw, _, tok := scalar(to)
	switch {
	case fok && tok:
		return func(ex *Exec, fr *Frame) {
			v := x.get(ex, fr)
			if v.P == nil {
				n := v.N
				if fs && tw > fw {
					n = uint64(sx(n, fw))
				}
				fr.regs[dst] = Value{N: n & mask(tw)}
				return
			}
			t, ok := v.P.(*Term)
			if !ok { // uintptr from unsafe.Pointer
				fr.regs[dst] = v
				return
			}
			fr.regs[dst] = vTerm(ex.ctx.Resize(t, tw, fs))
		}
	case fok && isFloat(to):
		return func(ex *Exec, fr *Frame) {
			v := x.get(ex, fr)
			if v.P != nil {
				ex.unsupported("symbolic int to float")
			}
			if fs {
				fr.regs[dst] = vFloat(float64(sx(v.N, fw)), to)
			} else {
				fr.regs[dst] = vFloat(float64(v.N), to)
			}
		}
	case isFloat(from) && tok:
		_, ts, _ := scalar(to)
		return func(ex *Exec, fr *Frame) {
			f := fFloat(x.get(ex, fr), from)
			if ts {
				fr.regs[dst] = Value{N: uint64(int64(f)) & mask(tw)}
			} else {
				fr.regs[dst] = Value{N: uint64(f) & mask(tw)}
			}
		}
	case isFloat(from) && isFloat(to):
		return func(ex *Exec, fr *Frame) {
			fr.regs[dst] = vFloat(fFloat(x.get(ex, fr), from), to)
		}
	case isString(to) && fok:
		return func(ex *Exec, fr *Frame) {
			fr.regs[dst] = ex.runeToStr(x.get(ex, fr), fw, fs)
		}
	case isString(to) && isString(from):
		return func(ex *Exec, fr *Frame) { fr.regs[dst] = x.get(ex, fr) }
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			if ew, _, _ := scalar(s.Elem()); ew == 8 {
				return func(ex *Exec, fr *Frame) {
					fr.regs[dst] = ex.bytesToStr(ex.sliceVals(x.get(ex, fr)))
				}
			}
			return func(ex *Exec, fr *Frame) {
				var out Value
				for _, r := range ex.sliceVals(x.get(ex, fr)) {
					out = ex.strConcat(out, ex.runeToStr(r, 32, true))
				}
				fr.regs[dst] = out
			}
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			et := s.Elem()
			if ew, _, _ := scalar(et); ew == 8 {
				return func(ex *Exec, fr *Frame) {
					fr.regs[dst] = ex.mkSlice(ex.strBytes(x.get(ex, fr)), et)
				}
			}
			return func(ex *Exec, fr *Frame) {
				it := &strIter{s: x.get(ex, fr)}
				out := []Value{}
				for {
					t := ex.strNext(it).P.(tuple)
					if t[0].N == 0 {
						break
					}
					out = append(out, t[2])
				}
				fr.regs[dst] = ex.mkSlice(out, et)
			}
		}
	case tok || fok: // unsafe.Pointer <-> uintptr
		return func(ex *Exec, fr *Frame) { fr.regs[dst] = x.get(ex, fr) }
	}
	// pointer/unsafe conversions keep the value
	return func(ex *Exec, fr *Frame) { fr.regs[dst] = x.get(ex, fr) }
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int) int {
	if n <= 32768 {
		lo, hi := 0, len(sizeClasses)-1
		for lo < hi {
			m := (lo + hi) / 2
			if sizeClasses[m] >= n {
				hi = m
			} else {
				lo = m + 1
			}
		}
		return sizeClasses[lo]
	}
	return (n + 8191) &^ 8191
}

// growCap mimics the runtime's slice growth.
func growCap(oldCap, newLen, esize int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for {
			nc += (nc + 3*256) >> 2
			if nc >= newLen {
				break
			}
		}
	}
	if esize == 0 {
		return newLen
	}
	h, l := bits.Mul64(uint64(nc), uint64(esize))
	if h != 0 || l > 1<<40 {
		return nc
	}
	return roundUpSize(int(l)) / esize
}

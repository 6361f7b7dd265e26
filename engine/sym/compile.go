package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Fn is a compiled function.
type Fn struct {
	ssa  *ssa.Function
	m    *Machine
	once sync.Once

	intr     Intrinsic
	fast     FastFn
	isVf     bool
	external bool
	nregs    int
	nparams  int
	blocks   []block
	hasDefer bool
	recover  int // block index or -1
	name     string
}

type step func(ex *Exec, fr *Frame)
type termFn func(ex *Exec, fr *Frame) int

type phi struct {
	reg   int
	ops   []opnd
	merge bool // values of the type may be joined by a selection
	w     uint8
}

type block struct {
	phis  []phi
	steps []step
	term  termFn
	preds []int
	pure  bool
	// terminator of pure blocks: a jump to t, or a branch on cond to t or e
	isIf bool
	cond opnd
	t, e int
}

type opnd struct {
	reg  int // >=0: register
	glob *GlobalInfo
	c    Value
}

func (o *opnd) get(ex *Exec, fr *Frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob != nil {
		return Value{P: ex.global(o.glob)}
	}
	return o.c
}

// Frame is an activation record.
type Frame struct {
	fn        *Fn
	regs      []Value
	caller    *Frame
	prev      int
	blk       int
	defers    []func(ex *Exec)
	panicking bool
	panicVal  *targetPanic
	result    Value
	phisDone  bool
}

func (f *Fn) compile() {
	f.once.Do(func() {
		sf := f.ssa
		f.name = fnKey(sf)
		if in, ok := f.m.intr[f.name]; ok {
			f.intr = in
			return
		}
		f.fast = f.m.fast[f.name]
		if sf.Pkg != nil {
			f.m.mu.Lock()
			pi := f.m.pkgInfo(sf.Pkg)
			f.m.mu.Unlock()
			pi.built.Do(func() { sf.Pkg.Build() })
		} else if o := sf.Origin(); o != nil && o.Pkg != nil {
			f.m.mu.Lock()
			pi := f.m.pkgInfo(o.Pkg)
			f.m.mu.Unlock()
			pi.built.Do(func() { o.Pkg.Build() })
		}
		if sf.Blocks == nil {
			if alt := portable(sf); alt != nil {
				g := f.m.fn(alt)
				f.intr = func(ex *Exec, fr *Frame, a []Value) Value { return ex.call(g, a, nil, fr) }
				return
			}
			f.external = true
			return
		}
		cp := &compiler{f: f, m: f.m, num: map[ssa.Value]int{}}
		cp.run()
	})
}

// portable returns the Go version of a function written in assembly.
func portable(sf *ssa.Function) *ssa.Function {
	if sf.Pkg == nil || sf.Signature.Recv() != nil {
		return nil
	}
	for _, suffix := range []string{"_g", "Generic"} {
		if alt := sf.Pkg.Func(sf.Name() + suffix); alt != nil && alt.Blocks != nil && types.Identical(alt.Signature, sf.Signature) {
			return alt
		}
	}
	return nil
}

type compiler struct {
	f   *Fn
	m   *Machine
	num map[ssa.Value]int
}

func (c *compiler) run() {
	sf := c.f.ssa
	n := 0
	for _, p := range sf.Params {
		c.num[p] = n
		n++
	}
	c.f.nparams = n
	for _, p := range sf.FreeVars {
		c.num[p] = n
		n++
	}
	for _, b := range sf.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.num[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.f.hasDefer = true
			}
		}
	}
	c.f.nregs = n
	c.f.recover = -1
	if sf.Recover != nil {
		c.f.recover = sf.Recover.Index
		c.f.hasDefer = true
	}
	c.f.blocks = make([]block, len(sf.Blocks))
	for i, b := range sf.Blocks {
		bl := &c.f.blocks[i]
		for _, p := range b.Preds {
			bl.preds = append(bl.preds, p.Index)
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				ph := phi{reg: c.num[in]}
				if w, sg, ok := scalar(in.Type()); ok && (w == 0 || !sg) {
					ph.merge, ph.w = true, w
				}
				for _, e := range in.Edges {
					ph.ops = append(ph.ops, c.op(e))
				}
				bl.phis = append(bl.phis, ph)
			case *ssa.If:
				cond := c.op(in.Cond)
				t, e := b.Succs[0].Index, b.Succs[1].Index
				bl.isIf, bl.cond, bl.t, bl.e = true, cond, t, e
				var reg *region
				if t != e {
					reg = findRegion(b)
				}
				bl.term = func(ex *Exec, fr *Frame) int {
					v := cond.get(ex, fr)
					if v.P == nil {
						if v.N != 0 {
							return t
						}
						return e
					}
					if reg != nil {
						if n, ok := ex.runRegion(fr, reg, v.P.(*Term)); ok {
							return n
						}
					}
					if ex.branch(v.P.(*Term)) {
						return t
					}
					return e
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				bl.t = t
				bl.term = func(ex *Exec, fr *Frame) int { return t }
			case *ssa.Return:
				bl.term = c.ret(in)
			case *ssa.Panic:
				x := c.op(in.X)
				bl.term = func(ex *Exec, fr *Frame) int {
					v := x.get(ex, fr)
					if v.P == nil {
						ex.runtimePanic("panic called with nil argument")
					}
					panic(&targetPanic{v: v})
				}
			case *ssa.DebugRef:
			default:
				bl.steps = append(bl.steps, c.instr(in))
			}
		}
	}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: constValue(c.m, v)}
	case *ssa.Global:
		return opnd{reg: -1, glob: c.m.globalInfo(v)}
	case *ssa.Function:
		return opnd{reg: -1, c: Value{P: &Closure{Fn: c.m.fn(v)}}}
	case *ssa.Builtin:
		return opnd{reg: -1}
	}
	n, ok := c.num[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v (%T) in %v", v, v, c.f.ssa))
	}
	return opnd{reg: n}
}

func (c *compiler) ops(vs []ssa.Value) []opnd {
	out := make([]opnd, len(vs))
	for i, v := range vs {
		out[i] = c.op(v)
	}
	return out
}

func (c *compiler) ret(in *ssa.Return) termFn {
	ops := c.ops(in.Results)
	switch len(ops) {
	case 0:
		return func(ex *Exec, fr *Frame) int { return -1 }
	case 1:
		o := ops[0]
		return func(ex *Exec, fr *Frame) int {
			fr.result = copyVal(o.get(ex, fr))
			return -1
		}
	}
	return func(ex *Exec, fr *Frame) int {
		t := make(tuple, len(ops))
		for i := range ops {
			t[i] = copyVal(ops[i].get(ex, fr))
		}
		fr.result = Value{P: t}
		return -1
	}
}

func (c *compiler) instr(in ssa.Instruction) step {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.num[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		m := c.m
		return func(ex *Exec, fr *Frame) {
			s := new(Value)
			*s = m.zero(t)
			fr.regs[dst] = Value{P: s}
		}
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		return func(ex *Exec, fr *Frame) {
			ex.store(a.get(ex, fr), v.get(ex, fr))
		}
	case *ssa.FieldAddr:
		x := c.op(in.X)
		f := in.Field
		return func(ex *Exec, fr *Frame) {
			p := x.get(ex, fr)
			s, ok := p.P.(*Value)
			if !ok {
				if p.P == nil {
					ex.runtimePanic("invalid memory address or nil pointer dereference")
				}
				if sp, ok := p.P.(*SymPtr); ok {
					s = ex.concretePtr(sp)
				} else {
					ex.unsupported(fmt.Sprintf("FieldAddr of %T", p.P))
				}
			}
			st, ok := s.P.(*StructV)
			if !ok {
				ex.unsupported("FieldAddr: not a struct (unsafe cast?)")
			}
			fr.regs[dst] = Value{P: &st.F[f]}
		}
	case *ssa.Field:
		x := c.op(in.X)
		f := in.Field
		return func(ex *Exec, fr *Frame) {
			fr.regs[dst] = copyVal(x.get(ex, fr).P.(*StructV).F[f])
		}
	case *ssa.IndexAddr:
		return c.indexAddr(in, dst)
	case *ssa.Index:
		x, i := c.op(in.X), c.op(in.Index)
		if isString(in.X.Type()) {
			iw, isg, _ := scalar(in.Index.Type())
			return func(ex *Exec, fr *Frame) {
				fr.regs[dst] = ex.strIndex(x.get(ex, fr), i.get(ex, fr), iw, isg)
			}
		}
		iw, isg, _ := scalar(in.Index.Type())
		return func(ex *Exec, fr *Frame) {
			a := x.get(ex, fr).P.(*Arr)
			fr.regs[dst] = ex.load(ex.indexPtr(a, 0, vInt(len(a.E)), i.get(ex, fr), iw, isg))
		}
	case *ssa.Lookup:
		x, i := c.op(in.X), c.op(in.Index)
		if isString(in.X.Type()) {
			iw, isg, _ := scalar(in.Index.Type())
			return func(ex *Exec, fr *Frame) {
				fr.regs[dst] = ex.strIndex(x.get(ex, fr), i.get(ex, fr), iw, isg)
			}
		}
		et := in.X.Type().Underlying().(*types.Map).Elem()
		m := c.m
		commaOk := in.CommaOk
		return func(ex *Exec, fr *Frame) {
			mv := x.get(ex, fr)
			var e *mapEnt
			if mv.P != nil {
				e = ex.mapFind(mv.P.(*MapV), i.get(ex, fr))
			} else {
				ex.checkHashable(i.get(ex, fr))
			}
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = m.zero(et)
			}
			if commaOk {
				v = Value{P: tuple{v, vBool(e != nil)}}
			}
			fr.regs[dst] = v
		}
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(ex *Exec, fr *Frame) {
			mv := x.get(ex, fr)
			if mv.P == nil {
				ex.runtimePanic("assignment to entry in nil map")
			}
			ex.mapSet(mv.P.(*MapV), copyVal(k.get(ex, fr)), copyVal(v.get(ex, fr)))
		}
	case *ssa.MakeMap:
		return func(ex *Exec, fr *Frame) {
			fr.regs[dst] = Value{P: &MapV{idx: map[string]*mapEnt{}}}
		}
	case *ssa.MakeSlice:
		l, cp := c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lw, lsg, _ := scalar(in.Len.Type())
		cw, csg, _ := scalar(in.Cap.Type())
		same := in.Len == in.Cap
		return func(ex *Exec, fr *Frame) {
			lv := l.get(ex, fr)
			cv := cp.get(ex, fr)
			fr.regs[dst] = ex.makeSlice(et, lv, lw, lsg, cv, cw, csg, same)
		}
	case *ssa.MakeChan:
		sz := c.op(in.Size)
		return func(ex *Exec, fr *Frame) {
			fr.regs[dst] = Value{P: &Chan{cap: int(ex.concrete(sz.get(ex, fr), 64))}}
		}
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(ex *Exec, fr *Frame) {
			q, ok := ch.get(ex, fr).P.(*Chan)
			if !ok || q.closed || len(q.buf) >= q.cap {
				ex.unsupported("channel send that blocks or panics")
			}
			q.buf = append(q.buf, copyVal(x.get(ex, fr)))
		}
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.MakeInterface:
		x := c.op(in.X)
		ti := c.m.typeInfo(in.X.Type())
		return func(ex *Exec, fr *Frame) {
			fr.regs[dst] = Value{P: &Iface{T: ti, V: copyVal(x.get(ex, fr))}}
		}
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		return func(ex *Exec, fr *Frame) { fr.regs[dst] = x.get(ex, fr) }
	case *ssa.ChangeType:
		x := c.op(in.X)
		return func(ex *Exec, fr *Frame) { fr.regs[dst] = x.get(ex, fr) }
	case *ssa.Convert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.MultiConvert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		return func(ex *Exec, fr *Frame) {
			v := x.get(ex, fr)
			s := ex.sliceOf(v)
			if s.Len < n {
				ex.runtimePanic("cannot convert slice to array pointer: length too short")
			}
			if v.P == nil {
				fr.regs[dst] = Value{}
				return
			}
			// Aliasing view: share storage when the array covers the slice exactly.
			if s.A.lazy != nil {
				ex.unsupported("slice with symbolic length to array pointer")
			}
			sl := new(Value)
			*sl = Value{P: &Arr{E: s.A.E[s.Off : s.Off+n : s.Off+n], elem: s.A.elem}}
			fr.regs[dst] = Value{P: sl}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return func(ex *Exec, fr *Frame) {
			fr.regs[dst] = x.get(ex, fr).P.(tuple)[i]
		}
	case *ssa.MakeClosure:
		f := c.m.fn(in.Fn.(*ssa.Function))
		bs := c.ops(in.Bindings)
		return func(ex *Exec, fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(ex, fr)
			}
			fr.regs[dst] = Value{P: &Closure{Fn: f, Env: env}}
		}
	case *ssa.Range:
		x := c.op(in.X)
		if isString(in.X.Type()) {
			return func(ex *Exec, fr *Frame) {
				fr.regs[dst] = Value{P: &strIter{s: x.get(ex, fr)}}
			}
		}
		return func(ex *Exec, fr *Frame) {
			mv, _ := x.get(ex, fr).P.(*MapV)
			fr.regs[dst] = Value{P: ex.mapRange(mv)}
		}
	case *ssa.Next:
		x := c.op(in.Iter)
		if in.IsString {
			return func(ex *Exec, fr *Frame) {
				fr.regs[dst] = ex.strNext(x.get(ex, fr).P.(*strIter))
			}
		}
		tt := in.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		m := c.m
		return func(ex *Exec, fr *Frame) {
			it := x.get(ex, fr).P.(*mapIter)
			for it.pos < len(it.order) {
				e := it.order[it.pos]
				it.pos++
				if e.dead {
					continue
				}
				fr.regs[dst] = Value{P: tuple{vBool(true), copyVal(e.k), copyVal(e.v)}}
				return
			}
			var kz, vz Value
			if kt != types.Typ[types.Invalid] {
				kz = m.zero(kt)
			}
			if vt != types.Typ[types.Invalid] {
				vz = m.zero(vt)
			}
			fr.regs[dst] = Value{P: tuple{vBool(false), kz, vz}}
		}
	case *ssa.Call:
		return c.call(&in.Call, dst)
	case *ssa.Defer:
		return c.deferCall(in)
	case *ssa.RunDefers:
		return func(ex *Exec, fr *Frame) { ex.runDefers(fr) }
	case *ssa.Go:
		// one schedule: a goroutine runs to its end when it is started
		prep := c.prepCall(&in.Call)
		return func(ex *Exec, fr *Frame) { prep(ex, fr)() }
	case *ssa.Select:
		return func(ex *Exec, fr *Frame) { ex.unsupported("select statement") }
	}
	s := fmt.Sprintf("instruction %T", in)
	return func(ex *Exec, fr *Frame) { ex.unsupported(s) }
}

func (c *compiler) unop(in *ssa.UnOp, dst int) step {
	x := c.op(in.X)
	switch in.Op {
	case token.MUL:
		return func(ex *Exec, fr *Frame) {
			p := x.get(ex, fr)
			if s, ok := p.P.(*Value); ok {
				fr.regs[dst] = copyVal(*s)
				return
			}
			fr.regs[dst] = ex.load(p)
		}
	case token.NOT:
		return func(ex *Exec, fr *Frame) {
			v := x.get(ex, fr)
			if v.P == nil {
				fr.regs[dst] = Value{N: 1 - v.N}
				return
			}
			fr.regs[dst] = vTerm(ex.ctx.Not(v.P.(*Term)))
		}
	case token.SUB:
		if isFloat(in.Type()) {
			t := in.Type()
			return func(ex *Exec, fr *Frame) {
				fr.regs[dst] = vFloat(-fFloat(x.get(ex, fr), t), t)
			}
		}
		w, _, ok := scalar(in.Type())
		if !ok {
			break
		}
		return func(ex *Exec, fr *Frame) {
			v := x.get(ex, fr)
			if v.P == nil {
				fr.regs[dst] = Value{N: -v.N & mask(w)}
				return
			}
			fr.regs[dst] = vTerm(ex.ctx.Neg(v.P.(*Term)))
		}
	case token.XOR:
		w, _, _ := scalar(in.Type())
		return func(ex *Exec, fr *Frame) {
			v := x.get(ex, fr)
			if v.P == nil {
				fr.regs[dst] = Value{N: ^v.N & mask(w)}
				return
			}
			fr.regs[dst] = vTerm(ex.ctx.Bnot(v.P.(*Term)))
		}
	case token.ARROW:
		commaOk := in.CommaOk
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		m := c.m
		return func(ex *Exec, fr *Frame) {
			q, ok := x.get(ex, fr).P.(*Chan)
			if !ok || (len(q.buf) == 0 && !q.closed) {
				ex.unsupported("channel receive that blocks")
			}
			var v Value
			got := len(q.buf) > 0
			if got {
				v = q.buf[0]
				q.buf = q.buf[1:]
			} else {
				v = m.zero(et)
			}
			if commaOk {
				v = Value{P: tuple{v, vBool(got)}}
			}
			fr.regs[dst] = v
		}
	}
	s := "unary " + in.Op.String()
	return func(ex *Exec, fr *Frame) { ex.unsupported(s) }
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, dst int) step {
	x, i := c.op(in.X), c.op(in.Index)
	iw, isg, _ := scalar(in.Index.Type())
	switch in.X.Type().Underlying().(type) {
	case *types.Slice:
		return func(ex *Exec, fr *Frame) {
			v := x.get(ex, fr)
			iv := i.get(ex, fr)
			s, _ := v.P.(*SliceV)
			if s == nil {
				ex.boundsPanic(iv, iw, isg, 0)
			}
			if s.SymLen == nil && iv.P == nil && s.A.lazy == nil {
				n := sx(iv.N, iw)
				if !isg {
					n = int64(iv.N)
				}
				if n < 0 || n >= int64(s.Len) {
					ex.boundsPanic(iv, iw, isg, s.Len)
				}
				fr.regs[dst] = Value{P: &s.A.E[s.Off+int(n)]}
				return
			}
			var lv Value
			if s.SymLen != nil {
				lv = Value{P: s.SymLen}
			} else {
				lv = vInt(s.Len)
			}
			fr.regs[dst] = ex.indexPtr(s.A, s.Off, lv, iv, iw, isg)
		}
	}
	// pointer to array
	return func(ex *Exec, fr *Frame) {
		p := x.get(ex, fr)
		if p.P == nil {
			ex.runtimePanic("invalid memory address or nil pointer dereference")
		}
		s, ok := p.P.(*Value)
		if !ok {
			if sp, ok2 := p.P.(*SymPtr); ok2 {
				s = ex.concretePtr(sp)
			} else {
				ex.unsupported(fmt.Sprintf("IndexAddr of %T", p.P))
			}
		}
		a, ok := s.P.(*Arr)
		if !ok {
			ex.unsupported("IndexAddr: not an array (unsafe cast?)")
		}
		fr.regs[dst] = ex.indexPtr(a, 0, vInt(len(a.E)), i.get(ex, fr), iw, isg)
	}
}

func (c *compiler) slice(in *ssa.Slice, dst int) step {
	x := c.op(in.X)
	type bnd struct {
		o    opnd
		w    uint8
		sg   bool
		have bool
	}
	mk := func(v ssa.Value) bnd {
		if v == nil {
			return bnd{}
		}
		w, sg, _ := scalar(v.Type())
		return bnd{c.op(v), w, sg, true}
	}
	lo, hi, mx := mk(in.Low), mk(in.High), mk(in.Max)
	isStr := isString(in.X.Type())
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	return func(ex *Exec, fr *Frame) {
		v := x.get(ex, fr)
		var length, capacity, off int
		var a *Arr
		switch {
		case isStr:
			length = ex.strLen(v)
			capacity = length
		case isPtr:
			if v.P == nil {
				ex.runtimePanic("invalid memory address or nil pointer dereference")
			}
			sl, ok := v.P.(*Value)
			if !ok {
				ex.unsupported("slice of odd pointer")
			}
			a = sl.P.(*Arr)
			length, capacity = len(a.E), len(a.E)
		default:
			s := ex.sliceOf(v)
			a, off, length, capacity = s.A, s.Off, s.Len, s.Cap
		}
		get := func(b *bnd, def int, max int) int {
			if !b.have {
				return def
			}
			bv := b.o.get(ex, fr)
			if bv.P != nil {
				t := ex.ctx.Resize(bv.P.(*Term), 64, b.sg)
				// in range [0,max] or panic
				if !ex.branch(ex.ctx.Ule(t, ex.ctx.Const(64, uint64(max)))) {
					ex.runtimePanic("slice bounds out of range")
				}
				return int(ex.concrete(Value{P: t}, 64))
			}
			if b.sg {
				return int(sx(bv.N, b.w))
			}
			if bv.N > 1<<62 {
				return -1
			}
			return int(bv.N)
		}
		m := get(&mx, capacity, capacity)
		if m < 0 || m > capacity {
			ex.runtimePanic("slice bounds out of range")
		}
		hdef := length
		h := get(&hi, hdef, m)
		if h < 0 || h > m {
			ex.runtimePanic("slice bounds out of range")
		}
		l := get(&lo, 0, h)
		if l < 0 || l > h {
			ex.runtimePanic("slice bounds out of range")
		}
		if isStr {
			fr.regs[dst] = ex.strSlice(v, l, h)
			return
		}
		if a == nil { // nil slice
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{P: &SliceV{A: a, Off: off + l, Len: h - l, Cap: m - l}}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) step {
	x := c.op(in.X)
	ti := c.m.typeInfo(in.AssertedType)
	toIface := isInterface(in.AssertedType)
	commaOk := in.CommaOk
	m := c.m
	at := in.AssertedType
	return func(ex *Exec, fr *Frame) {
		v := x.get(ex, fr)
		var r Value
		ok := false
		if v.P != nil {
			i := v.P.(*Iface)
			if toIface {
				if m.implements(i.T, ti) {
					r, ok = v, true
				}
			} else if i.T == ti {
				r, ok = copyVal(i.V), true
			}
		}
		if commaOk {
			if !ok {
				r = m.zero(at)
			}
			fr.regs[dst] = Value{P: tuple{r, vBool(ok)}}
			return
		}
		if !ok {
			ex.runtimePanic(fmt.Sprintf("interface conversion: not %v", at))
		}
		fr.regs[dst] = r
	}
}

func (c *compiler) call(cc *ssa.CallCommon, dst int) step {
	if f, ok := cc.Value.(*ssa.Function); ok && !cc.IsInvoke() {
		cf := c.m.fn(f)
		args := c.ops(cc.Args)
		return func(ex *Exec, fr *Frame) {
			a := make([]Value, len(args))
			for i := range args {
				a[i] = copyVal(args[i].get(ex, fr))
			}
			fr.regs[dst] = ex.call(cf, a, nil, fr)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		bf := c.builtin(b.Name(), cc)
		args := c.ops(cc.Args)
		return func(ex *Exec, fr *Frame) {
			a := make([]Value, len(args))
			for i := range args {
				a[i] = args[i].get(ex, fr)
			}
			fr.regs[dst] = bf(ex, fr, a)
		}
	}
	prep := c.prepCall(cc)
	return func(ex *Exec, fr *Frame) {
		fr.regs[dst] = prep(ex, fr)()
	}
}

func (c *compiler) deferCall(in *ssa.Defer) step {
	prep := c.prepCall(&in.Call)
	return func(ex *Exec, fr *Frame) {
		th := prep(ex, fr)
		fr.defers = append(fr.defers, func(ex *Exec) { th() })
	}
}

// prepCall evaluates callee and arguments and returns a thunk doing the call.
func (c *compiler) prepCall(cc *ssa.CallCommon) func(ex *Exec, fr *Frame) func() Value {
	args := c.ops(cc.Args)
	evalArgs := func(ex *Exec, fr *Frame, extra int) []Value {
		a := make([]Value, extra+len(args))
		for i := range args {
			a[extra+i] = copyVal(args[i].get(ex, fr))
		}
		return a
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		m := c.m
		return func(ex *Exec, fr *Frame) func() Value {
			v := recv.get(ex, fr)
			if v.P == nil {
				ex.runtimePanic("invalid memory address or nil pointer dereference")
			}
			i := v.P.(*Iface)
			f := m.method(i.T, meth)
			if f == nil {
				ex.unsupported("no method " + meth.Name() + " on " + i.T.T.String())
			}
			a := evalArgs(ex, fr, 1)
			a[0] = copyVal(i.V)
			return func() Value { return ex.call(f, a, nil, fr) }
		}
	}
	switch fv := cc.Value.(type) {
	case *ssa.Builtin:
		b := c.builtin(fv.Name(), cc)
		return func(ex *Exec, fr *Frame) func() Value {
			a := evalArgs(ex, fr, 0)
			return func() Value { return b(ex, fr, a) }
		}
	case *ssa.Function:
		f := c.m.fn(fv)
		return func(ex *Exec, fr *Frame) func() Value {
			a := evalArgs(ex, fr, 0)
			return func() Value { return ex.call(f, a, nil, fr) }
		}
	}
	fo := c.op(cc.Value)
	return func(ex *Exec, fr *Frame) func() Value {
		v := fo.get(ex, fr)
		a := evalArgs(ex, fr, 0)
		return func() Value { return ex.callValue(v, a, fr) }
	}
}

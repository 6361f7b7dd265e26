package sym

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/imports"
)

// FastFn is a native shortcut taken when the arguments are concrete.
type FastFn func(ex *Exec, args []Value) (Value, bool)

func (m *Machine) registerIntrinsics() {
	m.intr = map[string]Intrinsic{}
	m.fast = map[string]FastFn{}
	reg := func(names string, f Intrinsic) {
		for _, n := range strings.Fields(names) {
			m.intr[n] = f
		}
	}
	nop := func(ex *Exec, fr *Frame, a []Value) Value { return Value{} }
	ident := func(ex *Exec, fr *Frame, a []Value) Value { return a[0] }

	// --- synchronisation: single goroutine ---
	reg(`(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock
		(*sync.RWMutex).RLock (*sync.RWMutex).RUnlock (*internal/sync.Mutex).Lock (*internal/sync.Mutex).Unlock
		runtime.KeepAlive runtime.SetFinalizer runtime.GC runtime.Gosched
		log.Println log.Printf log.Print (*log.Logger).Println (*log.Logger).Printf (*log.Logger).Print
		internal/race.Acquire internal/race.Release internal/race.Enable internal/race.Disable
		internal/race.ReadRange internal/race.WriteRange internal/msan.Read internal/msan.Write internal/asan.Read internal/asan.Write`, nop)
	reg(`(*sync.Mutex).TryLock`, func(ex *Exec, fr *Frame, a []Value) Value { return vBool(true) })
	// what was put last is handed out first, as on a single processor
	reg(`(*sync.Pool).Put`, func(ex *Exec, fr *Frame, a []Value) Value {
		if a[1].P != nil {
			p := a[0].P.(*Value)
			if ex.pools == nil {
				ex.pools = map[*Value][]Value{}
			}
			ex.pools[p] = append(ex.pools[p], a[1])
		}
		return Value{}
	})
	reg(`(*sync.Pool).Get`, func(ex *Exec, fr *Frame, a []Value) Value {
		p := a[0].P.(*Value)
		if n := len(ex.pools[p]); n > 0 {
			v := ex.pools[p][n-1]
			ex.pools[p] = ex.pools[p][:n-1]
			return v
		}
		st := a[0].P.(*Value).P.(*StructV)
		pt := ex.m.poolNewIdx()
		if pt < 0 || st.F[pt].P == nil {
			return Value{}
		}
		return ex.callValue(st.F[pt], nil, fr)
	})
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		w := ty.w
		reg("sync/atomic.Load"+ty.n, func(ex *Exec, fr *Frame, a []Value) Value { return ex.load(a[0]) })
		reg("sync/atomic.Store"+ty.n, func(ex *Exec, fr *Frame, a []Value) Value { ex.store(a[0], a[1]); return Value{} })
		reg("sync/atomic.Swap"+ty.n, func(ex *Exec, fr *Frame, a []Value) Value {
			o := ex.load(a[0])
			ex.store(a[0], a[1])
			return o
		})
		reg("sync/atomic.Add"+ty.n, func(ex *Exec, fr *Frame, a []Value) Value {
			o := ex.load(a[0])
			if o.P != nil || a[1].P != nil {
				ex.unsupported("symbolic atomic add")
			}
			n := Value{N: (o.N + a[1].N) & mask(w)}
			ex.store(a[0], n)
			return n
		})
		reg("sync/atomic.CompareAndSwap"+ty.n, func(ex *Exec, fr *Frame, a []Value) Value {
			o := ex.load(a[0])
			if o == a[1] {
				ex.store(a[0], a[2])
				return vBool(true)
			}
			return vBool(false)
		})
	}

	// --- runtime ---
	reg(`internal/abi.NoEscape internal/abi.Escape`, ident)
	reg(`runtime.Callers runtime.NumGoroutine`, nop)
	reg(`runtime.Caller`, func(ex *Exec, fr *Frame, a []Value) Value {
		return Value{P: tuple{Value{}, Value{}, Value{}, Value{}}}
	})
	reg(`runtime.FuncForPC`, nop)
	reg(`runtime.Stack runtime/debug.Stack`, nop)
	reg(`time.Now`, func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.m.zero(fr.fn.m.typeNamed("time", "Time"))
	})
	reg(`time.Since`, nop)
	reg(`math.Float64bits math.Float64frombits math.Float32bits math.Float32frombits`, ident)
	fl := func(n string, f func(float64) float64) {
		reg(n, func(ex *Exec, fr *Frame, a []Value) Value {
			return Value{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		})
	}
	fl("math.Floor", math.Floor)
	fl("math.Ceil", math.Ceil)
	fl("math.Sqrt", math.Sqrt)
	fl("math.Log", math.Log)
	fl("math.Exp", math.Exp)
	fl("math.Log2", math.Log2)

	// --- bytealg ---
	idxByte := func(ex *Exec, b []Value, c Value) Value {
		for i := range b {
			if b[i].P == nil && c.P == nil {
				if b[i].N == c.N {
					return vInt(i)
				}
				continue
			}
			if ex.branch(ex.ctx.Eq(ex.term(b[i], 8), ex.term(c, 8))) {
				return vInt(i)
			}
		}
		return Value{N: ^uint64(0)}
	}
	lastByte := func(ex *Exec, b []Value, c Value) Value {
		for i := len(b) - 1; i >= 0; i-- {
			if ex.branch(ex.ctx.Eq(ex.term(b[i], 8), ex.term(c, 8))) {
				return vInt(i)
			}
		}
		return Value{N: ^uint64(0)}
	}
	count := func(ex *Exec, b []Value, c Value) Value {
		n := 0
		for i := range b {
			if ex.branch(ex.ctx.Eq(ex.term(b[i], 8), ex.term(c, 8))) {
				n++
			}
		}
		return vInt(n)
	}
	index := func(ex *Exec, b, sep []Value) Value {
		for i := 0; i+len(sep) <= len(b); i++ {
			if ex.branch(ex.bytesEq(b[i:i+len(sep)], sep)) {
				return vInt(i)
			}
		}
		return Value{N: ^uint64(0)}
	}
	reg("internal/bytealg.IndexByte bytes.IndexByte", func(ex *Exec, fr *Frame, a []Value) Value { return idxByte(ex, ex.sliceVals(a[0]), a[1]) })
	reg("internal/bytealg.IndexByteString strings.IndexByte internal/stringslite.IndexByte", func(ex *Exec, fr *Frame, a []Value) Value { return idxByte(ex, ex.strBytes(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByte bytes.LastIndexByte", func(ex *Exec, fr *Frame, a []Value) Value { return lastByte(ex, ex.sliceVals(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByteString strings.LastIndexByte", func(ex *Exec, fr *Frame, a []Value) Value { return lastByte(ex, ex.strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(ex *Exec, fr *Frame, a []Value) Value { return count(ex, ex.sliceVals(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(ex *Exec, fr *Frame, a []Value) Value { return count(ex, ex.strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Index bytes.Index", func(ex *Exec, fr *Frame, a []Value) Value { return index(ex, ex.sliceVals(a[0]), ex.sliceVals(a[1])) })
	reg("internal/bytealg.IndexString strings.Index internal/stringslite.Index", func(ex *Exec, fr *Frame, a []Value) Value {
		if s, ok := a[0].P.(string); ok {
			if t, ok := a[1].P.(string); ok {
				return vInt(strings.Index(s, t))
			}
		}
		return index(ex, ex.strBytes(a[0]), ex.strBytes(a[1]))
	})
	reg("internal/bytealg.Equal bytes.Equal", func(ex *Exec, fr *Frame, a []Value) Value {
		return vTerm(ex.bytesEq(ex.sliceVals(a[0]), ex.sliceVals(a[1])))
	})
	cmp := func(ex *Exec, x, y []Value) Value {
		if ex.branch(ex.bytesEq(x, y)) {
			return Value{}
		}
		if ex.branch(ex.bytesLess(x, y)) {
			return Value{N: ^uint64(0)}
		}
		return Value{N: 1}
	}
	reg("internal/bytealg.Compare bytes.Compare", func(ex *Exec, fr *Frame, a []Value) Value {
		return cmp(ex, ex.sliceVals(a[0]), ex.sliceVals(a[1]))
	})
	reg("internal/bytealg.CompareString strings.Compare", func(ex *Exec, fr *Frame, a []Value) Value {
		return cmp(ex, ex.strBytes(a[0]), ex.strBytes(a[1]))
	})
	reg("internal/bytealg.MakeNoZero", func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.makeSlice(types.Typ[types.Uint8], a[0], 64, true, a[0], 64, true, true)
	})

	// --- utf8 ---
	decode := func(ex *Exec, b []Value) Value {
		if len(b) == 0 {
			return Value{P: tuple{Value{N: utf8.RuneError}, Value{}}}
		}
		r, n := ex.decodeRune(b)
		return Value{P: tuple{r, vInt(n)}}
	}
	reg("unicode/utf8.DecodeRune", func(ex *Exec, fr *Frame, a []Value) Value { return decode(ex, ex.sliceVals(a[0])) })
	reg("unicode/utf8.DecodeRuneInString", func(ex *Exec, fr *Frame, a []Value) Value { return decode(ex, ex.strBytes(a[0])) })

	// --- concrete shortcuts ---
	fast := func(n string, f FastFn) { m.fast[n] = f }
	rune1 := func(n string, f func(rune) bool) {
		fast(n, func(ex *Exec, a []Value) (Value, bool) {
			if a[0].P != nil {
				return Value{}, false
			}
			return vBool(f(rune(int32(a[0].N)))), true
		})
	}
	rune1("unicode.IsLetter", unicode.IsLetter)
	rune1("unicode.IsDigit", unicode.IsDigit)
	rune1("unicode.IsSpace", unicode.IsSpace)
	rune1("unicode.IsUpper", unicode.IsUpper)
	rune1("unicode.IsLower", unicode.IsLower)
	rune1("unicode.IsPrint", unicode.IsPrint)
	runeMap := func(n string, f func(rune) rune) {
		fast(n, func(ex *Exec, a []Value) (Value, bool) {
			if a[0].P != nil {
				return Value{}, false
			}
			return Value{N: uint64(uint32(f(rune(int32(a[0].N)))))}, true
		})
	}
	runeMap("unicode.ToLower", unicode.ToLower)
	runeMap("unicode.ToUpper", unicode.ToUpper)
	runeMap("unicode.ToTitle", unicode.ToTitle)
	s1 := func(n string, f func(string) string) {
		fast(n, func(ex *Exec, a []Value) (Value, bool) {
			s, ok := ex.concStr(a[0])
			if !ok {
				return Value{}, false
			}
			return mkStr(f(s)), true
		})
	}
	s1("strings.ToLower", strings.ToLower)
	s1("strings.ToUpper", strings.ToUpper)
	s1("strings.Title", strings.Title) //nolint
	s1("strings.TrimSpace", strings.TrimSpace)
	s1("path/filepath.Clean", filepath.Clean)
	s1("path/filepath.Base", filepath.Base)
	s1("path/filepath.Dir", filepath.Dir)
	s1("path/filepath.Ext", filepath.Ext)
	s1("strconv.Quote", strconv.Quote)
	b2 := func(n string, f func(a, b string) bool) {
		fast(n, func(ex *Exec, a []Value) (Value, bool) {
			s, ok := ex.concStr(a[0])
			t, ok2 := ex.concStr(a[1])
			if !ok || !ok2 {
				return Value{}, false
			}
			return vBool(f(s, t)), true
		})
	}
	b2("strings.HasPrefix", strings.HasPrefix)
	b2("strings.HasSuffix", strings.HasSuffix)
	b2("strings.Contains", strings.Contains)
	fast("strings.ReplaceAll", func(ex *Exec, a []Value) (Value, bool) {
		x, ok1 := ex.concStr(a[0])
		y, ok2 := ex.concStr(a[1])
		z, ok3 := ex.concStr(a[2])
		if !ok1 || !ok2 || !ok3 {
			return Value{}, false
		}
		return mkStr(strings.ReplaceAll(x, y, z)), true
	})
	fast("strconv.Itoa", func(ex *Exec, a []Value) (Value, bool) {
		if a[0].P != nil {
			return Value{}, false
		}
		return vStr(strconv.Itoa(int(a[0].N))), true
	})
	fast("strconv.FormatInt", func(ex *Exec, a []Value) (Value, bool) {
		if a[0].P != nil || a[1].P != nil || a[1].N < 2 || a[1].N > 36 {
			return Value{}, false
		}
		return vStr(strconv.FormatInt(int64(a[0].N), int(a[1].N))), true
	})
	fast("strconv.FormatUint", func(ex *Exec, a []Value) (Value, bool) {
		if a[0].P != nil || a[1].P != nil || a[1].N < 2 || a[1].N > 36 {
			return Value{}, false
		}
		return vStr(strconv.FormatUint(a[0].N, int(a[1].N))), true
	})

	// --- crypto ---
	reg("crypto/sha256.Sum256", func(ex *Exec, fr *Frame, a []Value) Value {
		return Value{P: &Arr{E: ex.sha256(ex.sliceVals(a[0])), elem: types.Typ[types.Uint8]}}
	})
	digest := func(ex *Exec, v Value) *Value {
		s, ok := v.P.(*Value)
		if !ok {
			panic(pathEnd{EndUnsupported, "digest of unknown origin"})
		}
		if ex.hashed == nil {
			ex.hashed = map[*Value][]Value{}
		}
		return s
	}
	reg("(*crypto/internal/fips140/sha256.Digest).Reset", func(ex *Exec, fr *Frame, a []Value) Value {
		delete(ex.hashed, digest(ex, a[0]))
		return Value{}
	})
	reg("(*crypto/internal/fips140/sha256.Digest).Write", func(ex *Exec, fr *Frame, a []Value) Value {
		d, b := digest(ex, a[0]), ex.sliceVals(a[1])
		ex.hashed[d] = append(append([]Value(nil), ex.hashed[d]...), b...)
		return Value{P: tuple{vInt(len(b)), Value{}}}
	})
	reg("(*crypto/internal/fips140/sha256.Digest).Sum", func(ex *Exec, fr *Frame, a []Value) Value {
		d := digest(ex, a[0])
		return ex.mkSlice(append(append([]Value(nil), ex.sliceVals(a[1])...), ex.sha256(ex.hashed[d])...), types.Typ[types.Uint8])
	})
	reg("crypto/rand.Read", func(ex *Exec, fr *Frame, a []Value) Value {
		s := ex.sliceOf(a[0])
		for i := 0; i < s.Len; i++ {
			storeTo(s.A.slot(ex, s.Off+i), ex.nondet(8, "crypto/rand"))
		}
		return Value{P: tuple{vInt(s.Len), Value{}}}
	})

	reg("internal/stringslite.Clone strings.Clone", ident)

	// --- global math/rand: any value of the documented range ---
	intn := func(ex *Exec, n Value, w uint8) Value {
		t := ex.term(n, w)
		if ex.branch(ex.ctx.Not(ex.ctx.Slt(ex.ctx.Const(w, 0), t))) {
			panic(&targetPanic{v: Value{P: &Iface{T: ex.m.typeInfo(types.Typ[types.String]), V: vStr("invalid argument to Intn")}}})
		}
		v := ex.nondet(w, "math/rand")
		ex.assume(ex.ctx.Ult(v.P.(*Term), t))
		return v
	}
	reg("math/rand.Intn math/rand.Int63n math/rand/v2.IntN math/rand/v2.Int64N", func(ex *Exec, fr *Frame, a []Value) Value { return intn(ex, a[0], 64) })
	reg("math/rand.Int31n math/rand/v2.Int32N", func(ex *Exec, fr *Frame, a []Value) Value { return intn(ex, a[0], 32) })
	reg("math/rand.Uint64 math/rand/v2.Uint64", func(ex *Exec, fr *Frame, a []Value) Value { return ex.nondet(64, "math/rand") })
	reg("math/rand.Uint32 math/rand/v2.Uint32", func(ex *Exec, fr *Frame, a []Value) Value { return ex.nondet(32, "math/rand") })
	reg("math/rand.Int63 math/rand.Int math/rand/v2.Int", func(ex *Exec, fr *Frame, a []Value) Value {
		return vTerm(ex.ctx.Bin(OLshr, ex.nondet(64, "math/rand").P.(*Term), ex.ctx.Const(64, 1)))
	})
	reg("math/rand.Seed", nop)
	reg("math/rand.Perm math/rand/v2.Perm", func(ex *Exec, fr *Frame, a []Value) Value {
		n := int(ex.concrete(a[0], 64))
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		out := make([]Value, 0, n)
		for len(idx) > 0 {
			k := ex.chooseInput("math/rand.Perm", len(idx))
			out = append(out, vInt(idx[k]))
			idx = append(append([]int(nil), idx[:k]...), idx[k+1:]...)
		}
		return ex.mkSlice(out, types.Typ[types.Int])
	})
	reg("math/rand.Shuffle math/rand/v2.Shuffle", func(ex *Exec, fr *Frame, a []Value) Value {
		n := int(ex.concrete(a[0], 64))
		for i := n - 1; i > 0; i-- {
			j := ex.chooseInput("math/rand.Shuffle", i+1)
			ex.callValue(a[1], []Value{vInt(i), vInt(j)}, fr)
		}
		return Value{}
	})

	// --- sorting through reflection ---
	sortFn := func(stable bool) Intrinsic {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			sp := ex.m.Prog.ImportedPackage("sort")
			n := "pdqsort_func"
			if stable {
				n = "stable_func"
			}
			ifc, ok := a[0].P.(*Iface)
			if sp == nil || !ok {
				ex.unsupported("sort.Slice")
			}
			s := ex.sliceOf(ifc.V)
			swap := &NativeFn{Name: "swap", F: func(ex *Exec, b []Value) Value {
				p, q := s.A.slot(ex, s.Off+int(b[0].N)), s.A.slot(ex, s.Off+int(b[1].N))
				x, y := copyVal(*p), copyVal(*q)
				storeTo(p, y)
				storeTo(q, x)
				return Value{}
			}}
			ls := Value{P: &StructV{F: []Value{a[1], {P: swap}}}}
			lim := 0
			for x := s.Len; x > 0; x >>= 1 {
				lim++
			}
			f := sp.Func(n)
			if f == nil {
				ex.unsupported("sort." + n)
			}
			args := []Value{ls, vInt(0), vInt(s.Len), vInt(lim)}
			if stable {
				args = []Value{ls, vInt(s.Len)}
			}
			ex.call(ex.m.fn(f), args, nil, fr)
			return Value{}
		}
	}
	reg("sort.Slice", sortFn(false))
	reg("sort.SliceStable", sortFn(true))
	reg("reflect.DeepEqual", func(ex *Exec, fr *Frame, a []Value) Value {
		return vTerm(ex.deepEqIface(a[0], a[1], 0))
	})
	reg("internal/synctest.IsInBubble", func(ex *Exec, fr *Frame, a []Value) Value { return vBool(false) })
	reg("maps.clone", func(ex *Exec, fr *Frame, a []Value) Value {
		i := a[0].P.(*Iface)
		m, c := i.V.P.(*MapV), &MapV{idx: map[string]*mapEnt{}}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			d := mapEnt{k: copyVal(e.k), v: copyVal(e.v), key: e.key, sym: e.sym}
			c.ents = append(c.ents, &d)
			if !d.sym {
				c.idx[d.key] = &d
			}
		}
		c.nsym, c.live = m.nsym, m.live
		return Value{P: &Iface{T: i.T, V: Value{P: c}}}
	})
	reg("errors.Is github.com/pkg/errors.Is", func(ex *Exec, fr *Frame, a []Value) Value {
		return vBool(ex.errorsIs(a[0], a[1], fr, 0))
	})

	reg("errors.As github.com/pkg/errors.As", func(ex *Exec, fr *Frame, a []Value) Value {
		t, ok := a[1].P.(*Iface)
		if !ok || t.V.P == nil {
			ex.unsupported("errors.As without target")
		}
		p, ok := t.T.T.Underlying().(*types.Pointer)
		if !ok {
			ex.unsupported("errors.As with a target that is no pointer")
		}
		return vBool(ex.errorsAs(a[0], t.V, p.Elem(), fr, 0))
	})

	// --- goimports: run natively on the concrete source ---
	reg("golang.org/x/tools/imports.Process", func(ex *Exec, fr *Frame, a []Value) Value {
		vals := ex.sliceVals(a[1])
		src := make([]byte, len(vals))
		for i, v := range vals {
			if v.P != nil {
				// text with symbolic bytes is passed through unformatted
				return Value{P: tuple{ex.mkSlice(append([]Value(nil), vals...), types.Typ[types.Uint8]), Value{}}}
			}
			src[i] = byte(v.N)
		}
		out, err := processImports(string(src))
		if err != nil {
			return Value{P: tuple{Value{}, ex.mkError(err.Error())}}
		}
		e := make([]Value, len(out))
		for i := range e {
			e[i] = Value{N: uint64(out[i])}
		}
		return Value{P: tuple{ex.mkSlice(e, types.Typ[types.Uint8]), Value{}}}
	})

	m.registerFmt()
	m.registerFS()
	m.registerVf()
}

func processImports(src string) ([]byte, error) {
	return imports.Process("", []byte(src), nil)
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

func (m *Machine) typeNamed(pkg, name string) types.Type {
	p := m.Prog.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		panic(pathEnd{EndUnsupported, "type " + pkg + "." + name + " not loaded"})
	}
	return p.Type(name).Type()
}

func (m *Machine) poolNewIdx() int {
	st := m.typeNamed("sync", "Pool").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			return i
		}
	}
	return -1
}

// mkError makes an errors.errorString.
func (ex *Exec) mkError(s string) Value { return ex.mkErrorV(mkStr(s)) }

func (ex *Exec) mkErrorV(s Value) Value {
	if ex.m.strErr == nil {
		ex.unsupported("package errors not loaded")
	}
	slot := new(Value)
	*slot = Value{P: &StructV{F: []Value{s}}}
	return Value{P: &Iface{T: ex.m.strErr, V: Value{P: slot}}}
}

func (ex *Exec) bytesEq(x, y []Value) *Term {
	if len(x) != len(y) {
		return ex.ctx.False
	}
	r := ex.ctx.True
	for i := range x {
		r = ex.ctx.And(r, ex.ctx.Eq(ex.term(x[i], 8), ex.term(y[i], 8)))
		if r == ex.ctx.False {
			break
		}
	}
	return r
}

// chooseInput is an n-way choice recorded among the inputs of the path.
func (ex *Exec) chooseInput(label string, n int) int {
	w := uint8(8)
	if n > 256 {
		w = 32
	}
	v := ex.nondet(w, label)
	t := v.P.(*Term)
	if n < 256 || w != 8 {
		ex.assume(ex.ctx.Ult(t, ex.ctx.Const(w, uint64(n))))
	}
	return int(ex.concrete(v, w))
}

func (ex *Exec) errorsIs(err, target Value, fr *Frame, depth int) bool {
	if depth > 100 {
		ex.unsupported("errors.Is depth")
	}
	if err.P == nil || target.P == nil {
		return err.P == nil && target.P == nil
	}
	ti := target.P.(*Iface)
	for {
		ei := err.P.(*Iface)
		if types.Comparable(ti.T.T) && ei.T == ti.T && ex.branch(ex.eq(err, target, types.NewInterfaceType(nil, nil))) {
			return true
		}
		if f := ex.m.methodByName(ei.T, "Is"); f != nil {
			r := ex.call(f, []Value{ei.V, target}, nil, fr)
			if ex.concreteBool(r) {
				return true
			}
		}
		f := ex.m.methodByName(ei.T, "Unwrap")
		if f == nil {
			return false
		}
		r := ex.call(f, []Value{ei.V}, nil, fr)
		if _, isSlice := f.ssa.Signature.Results().At(0).Type().Underlying().(*types.Slice); isSlice {
			for _, e := range ex.sliceVals(r) {
				if e.P != nil && ex.errorsIs(e, target, fr, depth+1) {
					return true
				}
			}
			return false
		}
		if r.P == nil {
			return false
		}
		err = r
		depth++
	}
}

func (ex *Exec) errorsAs(err, target Value, t types.Type, fr *Frame, depth int) bool {
	if depth > 100 {
		ex.unsupported("errors.As depth")
	}
	ti := ex.m.typeInfo(t)
	for ; err.P != nil; depth++ {
		ei := err.P.(*Iface)
		if isInterface(t) {
			if ex.m.implements(ei.T, ti) {
				ex.store(target, err)
				return true
			}
		} else if ei.T == ti {
			ex.store(target, copyVal(ei.V))
			return true
		}
		if ex.m.methodByName(ei.T, "As") != nil {
			ex.unsupported("error with a method As")
		}
		f := ex.m.methodByName(ei.T, "Unwrap")
		if f == nil {
			return false
		}
		r := ex.call(f, []Value{ei.V}, nil, fr)
		if _, isSlice := f.ssa.Signature.Results().At(0).Type().Underlying().(*types.Slice); isSlice {
			for _, e := range ex.sliceVals(r) {
				if ex.errorsAs(e, target, t, fr, depth+1) {
					return true
				}
			}
			return false
		}
		err = r
	}
	return false
}

func (ex *Exec) deepEqIface(a, b Value, d int) *Term {
	if a.P == nil || b.P == nil {
		return ex.ctx.Bool(a.P == nil && b.P == nil)
	}
	x, y := a.P.(*Iface), b.P.(*Iface)
	if x.T != y.T {
		return ex.ctx.False
	}
	return ex.deepEq(x.T.T, x.V, y.V, d+1)
}

func (ex *Exec) deepEq(t types.Type, a, b Value, d int) *Term {
	if d > 200 {
		ex.unsupported("DeepEqual depth")
	}
	c := ex.ctx
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a.P == nil || b.P == nil || a.P == b.P {
			return c.Bool(a.P == b.P)
		}
		return ex.deepEq(u.Elem(), ex.load(a), ex.load(b), d+1)
	case *types.Struct:
		r := c.True
		x, y := a.P.(*StructV), b.P.(*StructV)
		for i := range x.F {
			r = c.And(r, ex.deepEq(u.Field(i).Type(), x.F[i], y.F[i], d+1))
		}
		return r
	case *types.Slice:
		if a.P == nil || b.P == nil {
			return c.Bool(a.P == nil && b.P == nil)
		}
		x, y := ex.sliceVals(a), ex.sliceVals(b)
		if len(x) != len(y) {
			return c.False
		}
		r := c.True
		for i := range x {
			r = c.And(r, ex.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Array:
		x, y := a.P.(*Arr).E, b.P.(*Arr).E
		r := c.True
		for i := range x {
			r = c.And(r, ex.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Map:
		if a.P == nil || b.P == nil {
			return c.Bool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*MapV), b.P.(*MapV)
		if x.live != y.live {
			return c.False
		}
		r := c.True
		for _, e := range x.ents {
			f := ex.mapFind(y, e.k)
			if f == nil {
				return c.False
			}
			r = c.And(r, ex.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Interface:
		return ex.deepEqIface(a, b, d)
	case *types.Signature:
		return c.Bool(a.P == nil && b.P == nil)
	}
	return ex.eq(a, b, t)
}

var _ = fmt.Sprint

// sha256 is the digest of b. Symbolic contents get digests made up so that
// equal contents, and only those, have equal ones.
func (ex *Exec) sha256(b []Value) []Value {
	var out []Value
	bs := make([]byte, len(b))
	sym := false
	for i, v := range b {
		if v.P != nil {
			sym = true
			break
		}
		bs[i] = byte(v.N)
	}
	for _, d := range ex.digests {
		if len(d.in) != len(b) || !sym && !d.sym {
			continue
		}
		eq := ex.ctx.True
		for i := range b {
			eq = ex.ctx.And(eq, ex.ctx.Eq(ex.term(b[i], 8), ex.term(d.in[i], 8)))
		}
		if ex.branch(eq) {
			return append([]Value(nil), d.out...)
		}
	}
	h := sha256.Sum256(bs)
	if sym {
		h = sha256.Sum256([]byte(fmt.Sprintf("symbolic contents %d", len(ex.digests))))
	}
	for _, x := range h {
		out = append(out, Value{N: uint64(x)})
	}
	ex.digests = append(ex.digests, digestEnt{in: append([]Value(nil), b...), out: out, sym: sym})
	return append([]Value(nil), out...)
}

type digestEnt struct {
	in, out []Value
	sym     bool
}

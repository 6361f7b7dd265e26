package sym

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// TypeInfo is the canonical descriptor of a type.
type TypeInfo struct {
	ID int
	T  types.Type

	mu      sync.Mutex
	methods map[string]*Fn
	impl    map[*TypeInfo]bool
}

// Machine is the compiled program shared by all workers.
type Machine struct {
	Prog    *ssa.Program
	Sizes   types.Sizes
	PerPath func(pkgPath string) bool // packages whose globals are per path

	mu    sync.Mutex
	fns   map[*ssa.Function]*Fn
	globs map[*ssa.Global]*GlobalInfo
	ngl   int
	pkgs  map[*ssa.Package]*PkgInfo

	tmu    sync.RWMutex
	tcache map[types.Type]*TypeInfo
	tcanon typeutil.Map
	ntypes int

	zmu    sync.RWMutex
	zcache map[types.Type]Value // templates

	vfPath string
	intr   map[string]Intrinsic
	fast   map[string]FastFn

	runtimeErr *TypeInfo
	strErr     *TypeInfo

	// FnHits counts executed functions (for evidence).
	hmu  sync.Mutex
	Hits map[string]int64
}

// GlobalInfo describes a package-level variable.
type GlobalInfo struct {
	g      *ssa.Global
	idx    int
	pkg    *PkgInfo
	shared bool
}

// PkgInfo describes a package.
type PkgInfo struct {
	p      *ssa.Package
	idx    int
	shared bool
	built  sync.Once
}

// Intrinsic implements a function natively.
type Intrinsic func(ex *Exec, fr *Frame, args []Value) Value

// NewMachine wraps an SSA program. vfPath is the import path of the harness
// primitives.
func NewMachine(prog *ssa.Program, vfPath string, perPath func(string) bool) *Machine {
	m := &Machine{
		Prog:    prog,
		Sizes:   types.SizesFor("gc", "amd64"),
		PerPath: perPath,
		fns:     map[*ssa.Function]*Fn{},
		globs:   map[*ssa.Global]*GlobalInfo{},
		pkgs:    map[*ssa.Package]*PkgInfo{},
		tcache:  map[types.Type]*TypeInfo{},
		zcache:  map[types.Type]Value{},
		vfPath:  vfPath,
		Hits:    map[string]int64{},
	}
	m.tcanon.SetHasher(typeutil.MakeHasher())
	m.registerIntrinsics()
	if rp := prog.ImportedPackage("runtime"); rp != nil {
		if t := rp.Type("errorString"); t != nil {
			m.runtimeErr = m.typeInfo(t.Type())
		}
	}
	if ep := prog.ImportedPackage("errors"); ep != nil {
		if t := ep.Type("errorString"); t != nil {
			m.strErr = m.typeInfo(types.NewPointer(t.Type()))
		}
	}
	return m
}

func (m *Machine) typeInfo(t types.Type) *TypeInfo {
	m.tmu.RLock()
	ti := m.tcache[t]
	m.tmu.RUnlock()
	if ti != nil {
		return ti
	}
	m.tmu.Lock()
	defer m.tmu.Unlock()
	if ti := m.tcache[t]; ti != nil {
		return ti
	}
	t2 := types.Unalias(t)
	if x := m.tcanon.At(t2); x != nil {
		ti = x.(*TypeInfo)
	} else {
		m.ntypes++
		ti = &TypeInfo{ID: m.ntypes, T: t2, methods: map[string]*Fn{}, impl: map[*TypeInfo]bool{}}
		m.tcanon.Set(t2, ti)
	}
	m.tcache[t] = ti
	return ti
}

func (m *Machine) pkgInfo(p *ssa.Package) *PkgInfo {
	if pi := m.pkgs[p]; pi != nil {
		return pi
	}
	pi := &PkgInfo{p: p, idx: len(m.pkgs), shared: !m.PerPath(p.Pkg.Path())}
	m.pkgs[p] = pi
	return pi
}

func (m *Machine) globalInfo(g *ssa.Global) *GlobalInfo {
	m.mu.Lock()
	defer m.mu.Unlock()
	if gi := m.globs[g]; gi != nil {
		return gi
	}
	pi := m.pkgInfo(g.Pkg)
	gi := &GlobalInfo{g: g, idx: m.ngl, pkg: pi, shared: pi.shared}
	m.ngl++
	m.globs[g] = gi
	return gi
}

func (m *Machine) fn(f *ssa.Function) *Fn {
	m.mu.Lock()
	c := m.fns[f]
	if c == nil {
		c = &Fn{ssa: f, m: m}
		m.fns[f] = c
	}
	m.mu.Unlock()
	return c
}

// implements reports whether dynamic type ti implements interface it.
func (m *Machine) implements(ti, it *TypeInfo) bool {
	ti.mu.Lock()
	defer ti.mu.Unlock()
	if r, ok := ti.impl[it]; ok {
		return r
	}
	r := types.Implements(ti.T, it.T.Underlying().(*types.Interface))
	ti.impl[it] = r
	return r
}

func (m *Machine) method(ti *TypeInfo, meth *types.Func) *Fn {
	key := meth.Name()
	if !meth.Exported() && meth.Pkg() != nil {
		key = meth.Pkg().Path() + "." + key
	}
	ti.mu.Lock()
	f, ok := ti.methods[key]
	ti.mu.Unlock()
	if ok {
		return f
	}
	sf := m.Prog.LookupMethod(ti.T, meth.Pkg(), meth.Name())
	if sf != nil {
		f = m.fn(sf)
	}
	ti.mu.Lock()
	ti.methods[key] = f
	ti.mu.Unlock()
	return f
}

// methodByName finds a method by name (exported only).
func (m *Machine) methodByName(ti *TypeInfo, name string) *Fn {
	ms := m.Prog.MethodSets.MethodSet(ti.T)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sf := m.Prog.MethodValue(sel)
	if sf == nil {
		return nil
	}
	return m.fn(sf)
}

func (m *Machine) zero(t types.Type) Value {
	m.zmu.RLock()
	v, ok := m.zcache[t]
	m.zmu.RUnlock()
	if !ok {
		v = m.makeZero(t)
		m.zmu.Lock()
		m.zcache[t] = v
		m.zmu.Unlock()
	}
	return copyVal(v)
}

func (m *Machine) makeZero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = m.makeZero(u.Field(i).Type())
		}
		return Value{P: &StructV{f}}
	case *types.Array:
		e := make([]Value, int(u.Len()))
		if len(e) > 0 {
			z := m.makeZero(u.Elem())
			for i := range e {
				e[i] = copyVal(z)
			}
		}
		return Value{P: &Arr{E: e, elem: u.Elem()}}
	case *types.Tuple:
		tp := make(tuple, u.Len())
		for i := range tp {
			tp[i] = m.makeZero(u.At(i).Type())
		}
		return Value{P: tp}
	}
	return Value{}
}

func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// scalar describes integer types: width and signedness; ok is false for
// others. Booleans have width 0.
func scalar(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func constValue(m *Machine, c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type()
	if w, signed, ok := scalar(t); ok {
		if w == 0 {
			return vBool(constant.BoolVal(c.Value))
		}
		if signed {
			return Value{N: uint64(c.Int64()) & mask(w)}
		}
		return Value{N: c.Uint64() & mask(w)}
	}
	if isFloat(t) {
		return vFloat(c.Float64(), t)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			s := constant.StringVal(c.Value)
			if s == "" {
				return Value{}
			}
			return Value{P: s}
		}
		return Value{P: string(rune(c.Int64()))}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Value{}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return Value{P: c.Complex128()}
	}
	if _, ok := t.(*types.TypeParam); ok {
		return Value{}
	}
	panic(fmt.Sprintf("constValue: %v of type %v", c, t))
}

// fnKey is the key used for intrinsics.
func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.String()
	return strings.ReplaceAll(s, "command-line-arguments", "main")
}

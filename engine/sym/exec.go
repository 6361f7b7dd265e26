package sym

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"
	"unicode/utf8"
)

// Decision is one recorded choice of a path.
type Decision struct {
	V   uint64
	Dir bool
}

// EndKind says how a path ended.
type EndKind int

// Path ends.
const (
	EndDone EndKind = iota
	EndInfeasible
	EndSteps
	EndDepth
	EndAlloc
	EndUnsupported
	EndTruncated
	EndPanic
	EndStopped
)

var endNames = []string{"done", "infeasible", "steps", "depth", "alloc", "unsupported", "truncated", "panic", "stopped"}

func (k EndKind) String() string { return endNames[k] }

type pathEnd struct {
	kind EndKind
	msg  string
}

type targetPanic struct {
	v Value // interface value
}

// Input is one nondeterministic value consumed by a path.
type Input struct {
	Label string `json:"l"`
	W     uint8  `json:"w"`
	V     uint64 `json:"v"`
}

// Violation is an assertion that can fail.
type Violation struct {
	Label  string
	Detail string
	Inputs []Input
	Job    *Job
}

// PathResult summarises a path.
type PathResult struct {
	End    EndKind
	Msg    string
	Steps  int64
	Depth  int
	Inputs []Input
	Obs    []string
	Viol   []Violation
	Reach  map[string]bool
	// counts
	Asserts    int64 // assertions decided by the solver
	AssertsTri int64 // assertions discharged by simplification
	Unknowns   int64
	NMapOrder  int
	Under      int64 // concretisations that drop other values
}

// Exec runs one path.
type Exec struct {
	m   *Machine
	w   *Worker
	ctx *TermCtx
	job *Job

	prefix []Decision
	pos    int
	trace  []Decision
	model  Model

	pc     []*Term
	pcSet  map[*Term]bool
	byVar  map[int32][]*Term
	dom    map[int32]*[4]uint64
	wide   map[int32]bool // variable occurs in a constraint with other variables
	known  map[*Term]uint64
	inputs []VarInfo

	globals []*Value
	inited  map[*PkgInfo]bool

	steps    int64
	maxSteps int64
	polled   int64 // steps at the last look at the clock
	deadline time.Time
	depth    int

	spec     bool // speculative execution of a pure region
	mapOrder bool
	mapMode  int
	nranges  int
	fs       *fsModel
	pools    map[*Value][]Value
	digests  []digestEnt
	hashed   map[*Value][]Value
	res      PathResult
	obs      []obsEntry
	enqueue  func(prefix []Decision, m Model)
}

type obsEntry struct {
	label string
	parts []any // string or *Term
}

func (ex *Exec) unsupported(msg string) {
	if ex.spec {
		panic(specAbort{})
	}
	panic(pathEnd{EndUnsupported, msg})
}

func (ex *Exec) runtimePanic(msg string) {
	if ex.spec {
		panic(specAbort{})
	}
	panic(&targetPanic{v: Value{P: &Iface{T: ex.m.runtimeErr, V: vStr("runtime error: " + msg)}}})
}

func (ex *Exec) boundsPanic(i Value, w uint8, signed bool, n int) {
	ex.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
}

// ---- path condition ----

func (ex *Exec) varW(v int32) uint8 { return ex.ctx.vinfo[v].W }

func (ex *Exec) maskOf(t *Term) *[4]uint64 {
	if m, ok := ex.w.masks[t]; ok {
		return m
	}
	m := new([4]uint64)
	vi := ex.ctx.vinfo[t.vars[0]]
	n := uint64(1) << vi.W
	if vi.W == 0 {
		n = 2
	}
	mod := Model{}
	for x := uint64(0); x < n; x++ {
		mod[vi.Seq] = x
		if ex.ctx.Eval(t, mod) != 0 {
			m[x>>6] |= 1 << (x & 63)
		}
	}
	ex.w.masks[t] = m
	return m
}

func (ex *Exec) isNarrow(t *Term) bool {
	return len(t.vars) == 1 && ex.varW(t.vars[0]) <= 8
}

func (ex *Exec) addPC(t *Term) {
	if t.Op == OConst {
		return
	}
	if ex.pcSet[t] {
		return
	}
	if t.Op == OAnd {
		ex.addPC(t.A)
		ex.addPC(t.B)
		ex.pcSet[t] = true
		return
	}
	if t.Op == ONot && t.A.Op == OOr {
		ex.addPC(ex.ctx.Not(t.A.A))
		ex.addPC(ex.ctx.Not(t.A.B))
		ex.pcSet[t] = true
		return
	}
	ex.pcSet[t] = true
	if t.Op == OEq && t.B.Op == OConst {
		ex.known[t.A] = t.B.K
	}
	ex.pc = append(ex.pc, t)
	for _, v := range t.vars {
		ex.byVar[v] = append(ex.byVar[v], t)
	}
	if ex.isNarrow(t) {
		v := t.vars[0]
		m := ex.maskOf(t)
		d := ex.dom[v]
		if d == nil {
			d = &[4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
			ex.dom[v] = d
		}
		for i := range d {
			d[i] &= m[i]
		}
	} else {
		for _, v := range t.vars {
			ex.wide[v] = true
		}
	}
}

// feasible decides pc && t. With useSolver the SMT solver gives the verdict.
func (ex *Exec) feasible(t *Term, useSolver bool) (Verdict, Model) {
	if t.Op == OConst {
		if t.K == 0 {
			return Unsat, nil
		}
		return Sat, ex.model
	}
	if !useSolver && ex.isNarrow(t) && !ex.wide[t.vars[0]] {
		ex.w.solver.Stats.ByteDec++
		m := ex.maskOf(t)
		d := ex.dom[t.vars[0]]
		for i := range m {
			x := m[i]
			if d != nil {
				x &= d[i]
			}
			if x != 0 {
				b := 0
				for x&1 == 0 {
					x >>= 1
					b++
				}
				nm := cloneModel(ex.model)
				nm[ex.ctx.vinfo[t.vars[0]].Seq] = uint64(i*64 + b)
				return Sat, nm
			}
		}
		return Unsat, nil
	}
	// constraints connected to t
	var slice []*Term
	seenV := map[int32]bool{}
	seenT := map[*Term]bool{}
	work := append([]int32(nil), t.vars...)
	for _, v := range work {
		seenV[v] = true
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, k := range ex.byVar[v] {
			if seenT[k] {
				continue
			}
			seenT[k] = true
			slice = append(slice, k)
			for _, u := range k.vars {
				if !seenV[u] {
					seenV[u] = true
					work = append(work, u)
				}
			}
		}
	}
	sort.Slice(slice, func(i, j int) bool { return slice[i].id < slice[j].id })
	var kb strings.Builder
	for _, k := range slice {
		fmt.Fprintf(&kb, "%x,", k.id)
	}
	fmt.Fprintf(&kb, "|%x", t.id)
	key := kb.String()
	if r, ok := ex.w.cache[key]; ok {
		ex.w.solver.Stats.CacheHits++
		if r.v != Sat {
			return r.v, nil
		}
		nm := cloneModel(ex.model)
		for k, v := range r.m {
			nm[k] = v
		}
		return Sat, nm
	}
	ex.checkTime()
	v, m := ex.w.solver.Check(ex.ctx, append(slice, t), nil)
	if v != Unknown {
		ex.w.cache[key] = cacheEnt{v, m}
	}
	if v == Unsat && useSolver {
		ex.w.held++
	}
	if v == Unsat && ex.w.cross != nil && useSolver && ex.w.held%ex.w.crossEvery == 1 {
		ex.w.solver.Stats.Cross++
		if v2, _ := ex.w.cross.Check(ex.ctx, append(slice, t), nil); v2 == Sat {
			ex.w.solver.Stats.CrossBad++
			return Unknown, nil
		}
	}
	if v != Sat {
		return v, nil
	}
	nm := cloneModel(ex.model)
	for k, val := range m {
		nm[k] = val
	}
	// variables of the query the solver did not mention keep their value
	return Sat, nm
}

// checkTime abandons the path when exploration is over.
func (ex *Exec) checkTime() {
	if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		panic(pathEnd{EndTruncated, timeIsUp})
	}
}

const timeIsUp = "out of time"

func cloneModel(m Model) Model {
	n := make(Model, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (ex *Exec) branch(t *Term) bool {
	if t.Op == OConst {
		return t.K != 0
	}
	if ex.pcSet[t] {
		return true
	}
	nt := ex.ctx.Not(t)
	if ex.pcSet[nt] {
		return false
	}
	if ex.spec {
		panic(specAbort{})
	}
	if ex.pos < len(ex.prefix) {
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.trace = append(ex.trace, d)
		if d.Dir {
			ex.addPC(t)
		} else {
			ex.addPC(nt)
		}
		return d.Dir
	}
	ex.w.branches++
	dir := ex.ctx.Eval(t, ex.model) != 0
	other := t
	if dir {
		other = nt
	}
	v, m := ex.feasible(other, false)
	switch v {
	case Sat:
		p := make([]Decision, len(ex.trace)+1)
		copy(p, ex.trace)
		p[len(ex.trace)] = Decision{Dir: !dir}
		ex.enqueue(p, m)
	case Unknown:
		ex.res.Unknowns++
	}
	ex.trace = append(ex.trace, Decision{Dir: dir})
	if dir {
		ex.addPC(t)
	} else {
		ex.addPC(nt)
	}
	return dir
}

// choose makes an engine-level n-way choice.
func (ex *Exec) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if ex.pos < len(ex.prefix) {
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.trace = append(ex.trace, d)
		return int(d.V)
	}
	ex.w.branches++
	for i := n - 1; i >= 1; i-- {
		p := make([]Decision, len(ex.trace)+1)
		copy(p, ex.trace)
		p[len(ex.trace)] = Decision{V: uint64(i), Dir: true}
		ex.enqueue(p, cloneModel(ex.model))
	}
	ex.trace = append(ex.trace, Decision{V: 0, Dir: true})
	return 0
}

// concrete enumerates the feasible values of v, one per path.
func (ex *Exec) concrete(v Value, w uint8) uint64 {
	if v.P == nil {
		return v.N
	}
	t, ok := v.P.(*Term)
	if !ok {
		ex.unsupported(fmt.Sprintf("integer use of %T", v.P))
	}
	if k, ok := ex.known[t]; ok {
		return k
	}
	if t.Op == OZext {
		return ex.concrete(Value{P: t.A}, t.A.W)
	}
	if ex.spec {
		panic(specAbort{})
	}
	for i := 0; ; i++ {
		if i > ex.job.MaxConc {
			panic(pathEnd{EndTruncated, "too many values of " + tailStr(t.String(), 120)})
		}
		// every value tried is recorded, also when it is already implied
		replay := ex.pos < len(ex.prefix)
		var d Decision
		if replay {
			d = ex.prefix[ex.pos]
			ex.pos++
		} else {
			d = Decision{V: ex.ctx.Eval(t, ex.model), Dir: true}
		}
		e := t
		if t.W > 0 {
			e = ex.ctx.Eq(t, ex.ctx.Const(t.W, d.V))
		} else if d.V == 0 {
			e = ex.ctx.Not(t)
		}
		ne := ex.ctx.Not(e)
		if !replay && !ex.pcSet[e] && e.Op != OConst {
			ex.w.branches++
			v, m := ex.feasible(ne, false)
			switch v {
			case Sat:
				p := make([]Decision, len(ex.trace)+1)
				copy(p, ex.trace)
				p[len(ex.trace)] = Decision{V: d.V, Dir: false}
				ex.enqueue(p, m)
			case Unknown:
				ex.res.Unknowns++
			}
		}
		ex.trace = append(ex.trace, d)
		if d.Dir {
			ex.addPC(e)
			ex.known[t] = d.V
			return d.V
		}
		ex.addPC(ne)
	}
}

// concreteOne fixes v to its value in the current model, dropping the others.
func (ex *Exec) concreteOne(v Value) uint64 {
	if v.P == nil {
		return v.N
	}
	t := v.P.(*Term)
	if k, ok := ex.known[t]; ok {
		return k
	}
	if ex.spec {
		panic(specAbort{})
	}
	// Only sound as an under-approximation: fix the choice via a recorded value.
	var val uint64
	if ex.pos < len(ex.prefix) {
		val = ex.prefix[ex.pos].V
		ex.pos++
	} else {
		val = ex.ctx.Eval(t, ex.model)
	}
	ex.trace = append(ex.trace, Decision{V: val, Dir: true})
	ex.res.Under++
	if t.W == 0 {
		if val != 0 {
			ex.addPC(t)
		} else {
			ex.addPC(ex.ctx.Not(t))
		}
	} else {
		ex.addPC(ex.ctx.Eq(t, ex.ctx.Const(t.W, val)))
	}
	return val
}

func (ex *Exec) concreteBool(v Value) bool {
	if v.P == nil {
		return v.N != 0
	}
	return ex.branch(v.P.(*Term))
}

func (ex *Exec) assume(t *Term) {
	if t.Op == OConst {
		if t.K == 0 {
			panic(pathEnd{EndInfeasible, "assumption"})
		}
		return
	}
	if ex.pcSet[t] {
		return
	}
	if ex.ctx.Eval(t, ex.model) == 0 {
		v, m := ex.feasible(t, false)
		if v == Unknown {
			ex.res.Unknowns++
		}
		if v != Sat {
			panic(pathEnd{EndInfeasible, "assumption"})
		}
		if ex.pos >= len(ex.prefix) {
			ex.model = m
		}
	}
	ex.addPC(t)
}

func (ex *Exec) assert(t *Term, label string) {
	if t.Op == OConst && t.K != 0 {
		ex.res.AssertsTri++
		return
	}
	if ex.pcSet[t] {
		ex.res.AssertsTri++
		return
	}
	// Already decided on the path that created this prefix.
	if ex.pos < len(ex.prefix) {
		ex.addPC(t)
		return
	}
	nt := ex.ctx.Not(t)
	if t.Op == OConst {
		ex.violation(label, "", ex.model)
		panic(pathEnd{EndDone, "assertion fails on the whole path"})
	}
	ex.res.Asserts++
	v, m := ex.feasible(nt, true)
	switch v {
	case Sat:
		ex.violation(label, "", m)
		if v2, m2 := ex.feasible(t, false); v2 == Sat {
			ex.model = m2
			ex.addPC(t)
			return
		}
		panic(pathEnd{EndDone, "assertion fails on the whole path"})
	case Unknown:
		ex.res.Unknowns++
	}
	ex.addPC(t)
	if ex.ctx.Eval(t, ex.model) == 0 {
		// model is inconsistent with an unsat verdict only if unknown
		if v == Unknown {
			panic(pathEnd{EndTruncated, "solver unknown on assertion"})
		}
		panic("engine: model violates a valid assertion")
	}
}

func (ex *Exec) inputsUnder(m Model) []Input {
	out := make([]Input, len(ex.inputs))
	for i, vi := range ex.inputs {
		mk := mask(vi.W)
		if vi.W == 0 {
			mk = 1
		}
		out[i] = Input{Label: vi.Label, W: vi.W, V: m[i] & mk}
	}
	return out
}

func (ex *Exec) violation(label, detail string, m Model) {
	ex.res.Viol = append(ex.res.Viol, Violation{Label: label, Detail: detail, Inputs: ex.inputsUnder(m), Job: ex.job})
}

// nondet makes a fresh input.
func (ex *Exec) nondet(w uint8, label string) Value {
	vi := VarInfo{Seq: len(ex.inputs), W: w, Label: label}
	ex.inputs = append(ex.inputs, vi)
	return Value{P: ex.ctx.Var(vi)}
}

// ---- calls ----

func (ex *Exec) call(f *Fn, args []Value, env []Value, caller *Frame) Value {
	f.compile()
	if f.intr != nil {
		return f.intr(ex, caller, args)
	}
	if f.fast != nil {
		if v, ok := f.fast(ex, args); ok {
			return v
		}
	}
	if f.external {
		ex.unsupported("external function " + f.name)
	}
	// package initialisers run lazily
	if f.ssa.Synthetic == "package initializer" && caller != nil && caller.fn.ssa.Synthetic == "package initializer" {
		return Value{}
	}
	ex.depth++
	if ex.depth > 4000 {
		panic(pathEnd{EndDepth, "call depth"})
	}
	fr := &Frame{fn: f, regs: make([]Value, f.nregs), caller: caller, prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], env)
	ex.w.hits[f]++
	var r Value
	if f.hasDefer {
		r = ex.runDeferring(fr)
	} else {
		ex.run(fr)
		r = fr.result
	}
	ex.depth--
	return r
}

func (ex *Exec) callValue(v Value, args []Value, caller *Frame) Value {
	switch p := v.P.(type) {
	case nil:
		ex.runtimePanic("invalid memory address or nil pointer dereference")
	case *Closure:
		return ex.call(p.Fn, args, p.Env, caller)
	case *NativeFn:
		return p.F(ex, args)
	}
	ex.unsupported(fmt.Sprintf("call of %T", v.P))
	return Value{}
}

func (ex *Exec) run(fr *Frame) {
	blocks := fr.fn.blocks
	for {
		b := &blocks[fr.blk]
		if fr.phisDone {
			fr.phisDone = false
		} else if len(b.phis) > 0 {
			pi := 0
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].reg] = b.phis[0].ops[pi].get(ex, fr)
			} else {
				var tmp [16]Value
				vals := tmp[:0]
				for i := range b.phis {
					vals = append(vals, b.phis[i].ops[pi].get(ex, fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].reg] = vals[i]
				}
			}
		}
		for _, s := range b.steps {
			s(ex, fr)
		}
		ex.steps += int64(len(b.steps)) + 1
		if ex.steps > ex.maxSteps {
			panic(pathEnd{EndSteps, "step budget in " + fr.fn.name})
		}
		if ex.steps-ex.polled > 200_000 {
			ex.polled = ex.steps
			ex.checkTime()
		}
		if b.term == nil {
			return
		}
		n := b.term(ex, fr)
		if n < 0 {
			return
		}
		fr.prev = fr.blk
		fr.blk = n
	}
}

func (ex *Exec) runDeferring(fr *Frame) Value {
	depth := ex.depth
	run := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				ex.depth = depth
				fr.panicking = true
				fr.panicVal = tp
			}
		}()
		f()
	}
	run(func() { ex.run(fr) })
	for fr.panicking {
		// run remaining defers; each may recover or panic anew
		if len(fr.defers) == 0 {
			panic(fr.panicVal)
		}
		run(func() { ex.runDefersPanicking(fr) })
		if !fr.panicking {
			// recovered: remaining defers run normally, then return
			run(func() { ex.runDefers(fr) })
			if fr.panicking {
				continue
			}
			if fr.fn.recover >= 0 {
				fr.blk, fr.prev = fr.fn.recover, -1
				run(func() { ex.run(fr) })
				if fr.panicking {
					continue
				}
			} else {
				fr.result = ex.m.zero(fr.fn.ssa.Signature.Results())
				if fr.fn.ssa.Signature.Results().Len() == 1 {
					fr.result = ex.m.zero(fr.fn.ssa.Signature.Results().At(0).Type())
				}
			}
		}
	}
	return fr.result
}

func (ex *Exec) runDefersPanicking(fr *Frame) {
	for len(fr.defers) > 0 && fr.panicking {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d(ex)
	}
}

func (ex *Exec) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d(ex)
	}
}

// ---- globals ----

func (ex *Exec) global(g *GlobalInfo) *Value {
	if g.shared {
		w := ex.w
		if g.idx < len(w.globals) && w.globals[g.idx] != nil {
			return w.globals[g.idx]
		}
		for len(w.globals) <= g.idx {
			w.globals = append(w.globals, nil)
		}
		ex.ensureInit(g.pkg)
		if w.globals[g.idx] == nil {
			w.globals[g.idx] = ex.newGlobal(g)
		}
		return w.globals[g.idx]
	}
	if g.idx < len(ex.globals) && ex.globals[g.idx] != nil {
		return ex.globals[g.idx]
	}
	for len(ex.globals) <= g.idx {
		ex.globals = append(ex.globals, nil)
	}
	if !ex.inited[g.pkg] {
		ex.globals[g.idx] = ex.newGlobal(g)
		ex.ensureInit(g.pkg)
		return ex.globals[g.idx]
	}
	ex.globals[g.idx] = ex.newGlobal(g)
	return ex.globals[g.idx]
}

func (ex *Exec) newGlobal(g *GlobalInfo) *Value {
	v := new(Value)
	*v = ex.m.zero(g.g.Type().Underlying().(*types.Pointer).Elem())
	return v
}

func (ex *Exec) ensureInit(p *PkgInfo) {
	done := ex.inited
	if p.shared {
		done = ex.w.inited
	}
	if done[p] {
		return
	}
	done[p] = true
	if skipInit[p.p.Pkg.Path()] {
		return
	}
	p.built.Do(func() { p.p.Build() })
	f := p.p.Func("init")
	if f == nil {
		return
	}
	st, mx := ex.steps, ex.maxSteps
	ex.maxSteps = 1 << 60
	ex.call(ex.m.fn(f), nil, nil, nil)
	ex.steps, ex.maxSteps = st, mx
}

var skipInit = map[string]bool{"runtime": true, "reflect": true, "os": false, "syscall": false, "internal/godebug": true, "internal/cpu": true, "internal/poll": true, "time": true, "net": true}

// ---- memory ----

func (ex *Exec) load(p Value) Value {
	switch q := p.P.(type) {
	case *Value:
		return copyVal(*q)
	case nil:
		ex.runtimePanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		return ex.loadSym(q)
	case *DataPtr:
		if q.Str {
			return ex.strBytes(q.S)[q.Off]
		}
		return copyVal(*q.A.slot(ex, q.Off))
	}
	ex.unsupported(fmt.Sprintf("load through %T", p.P))
	return Value{}
}

func (ex *Exec) store(p, v Value) {
	switch q := p.P.(type) {
	case *Value:
		storeTo(q, v)
		return
	case nil:
		ex.runtimePanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		storeTo(ex.concretePtr(q), v)
		return
	case *DataPtr:
		if !q.Str {
			storeTo(q.A.slot(ex, q.Off), v)
			return
		}
	}
	ex.unsupported(fmt.Sprintf("store through %T", p.P))
}

func (ex *Exec) concretePtr(p *SymPtr) *Value {
	i := ex.concrete(Value{P: p.Idx}, 64)
	return p.A.slot(ex, p.Off+int(i))
}

func (ex *Exec) loadSym(p *SymPtr) Value {
	// scalar elements: build a selection term; otherwise enumerate indices
	w, _, ok := scalar(p.A.elem)
	if !ok || p.N > 1024 || p.A.lazy != nil {
		return copyVal(*ex.concretePtr(p))
	}
	idx := p.Idx
	// shrink the range by the index's maximum
	n := p.N
	if mv := maxVal(idx); mv < uint64(n)-1 {
		n = int(mv) + 1
	}
	// group equal neighbours to keep the term small
	r := ex.term(p.A.E[p.Off+n-1], w)
	i := n - 2
	for i >= 0 {
		t := ex.term(p.A.E[p.Off+i], w)
		if t != r {
			j := i
			for j > 0 && ex.term(p.A.E[p.Off+j-1], w) == t {
				j--
			}
			// indices <= i take t (outer comparisons override)
			r = ex.ctx.Ite(ex.ctx.Ule(idx, ex.ctx.Const(idx.W, uint64(i))), t, r)
			i = j - 1
			continue
		}
		i--
	}
	return vTerm(r)
}

// indexPtr returns the address of element i after a bounds check.
func (ex *Exec) indexPtr(a *Arr, off int, length, i Value, iw uint8, isg bool) Value {
	if length.P == nil && i.P == nil {
		n := int64(i.N)
		if isg {
			n = sx(i.N, iw)
		}
		if n < 0 || n >= int64(length.N) {
			ex.boundsPanic(i, iw, isg, int(length.N))
		}
		return Value{P: a.slot(ex, off+int(n))}
	}
	it := ex.ctx.Resize(ex.term(i, iw), 64, isg)
	lt := ex.term(length, 64)
	if !ex.branch(ex.ctx.Ult(it, lt)) {
		ex.runtimePanic("index out of range")
	}
	if it.Op == OConst {
		return Value{P: a.slot(ex, off+int(it.K))}
	}
	if k, ok := ex.known[it]; ok {
		return Value{P: a.slot(ex, off+int(k))}
	}
	n := 0
	if length.P == nil {
		n = int(length.N)
	} else {
		n = 1 << 30
	}
	return Value{P: &SymPtr{A: a, Off: off, N: n, Idx: it}}
}

// sliceOf returns the header with concrete length.
func (ex *Exec) sliceOf(v Value) *SliceV {
	if v.P == nil {
		return &SliceV{}
	}
	s, ok := v.P.(*SliceV)
	if !ok {
		ex.unsupported(fmt.Sprintf("slice use of %T", v.P))
	}
	if s.SymLen != nil {
		n := int(ex.concrete(Value{P: s.SymLen}, 64))
		return &SliceV{A: s.A, Off: s.Off, Len: n, Cap: n}
	}
	return s
}

func (ex *Exec) sliceVals(v Value) []Value {
	s := ex.sliceOf(v)
	if s.A == nil {
		return nil
	}
	if s.A.lazy != nil {
		out := make([]Value, s.Len)
		for i := range out {
			out[i] = *s.A.slot(ex, s.Off+i)
		}
		return out
	}
	return s.A.E[s.Off : s.Off+s.Len]
}

func (ex *Exec) mkSlice(vals []Value, elem types.Type) Value {
	n := len(vals)
	esz := int(ex.m.Sizes.Sizeof(elem))
	c := n
	if esz > 0 && n > 0 {
		c = roundUpSize(n*esz) / esz
	}
	e := make([]Value, c)
	copy(e, vals)
	for i := n; i < c; i++ {
		e[i] = ex.m.zero(elem)
	}
	return Value{P: &SliceV{A: &Arr{E: e, elem: elem}, Len: n, Cap: c}}
}

func (ex *Exec) makeSlice(et types.Type, l Value, lw uint8, lsg bool, c Value, cw uint8, csg bool, same bool) Value {
	esz := uint64(ex.m.Sizes.Sizeof(et))
	if esz == 0 {
		esz = 1
	}
	max := ex.job.AllocLimit / esz
	if l.P != nil {
		t := ex.ctx.Resize(l.P.(*Term), 64, lsg)
		if k, ok := ex.known[t]; ok {
			l = Value{N: k}
			lw = 64
		} else {
			if ex.branch(ex.ctx.Ult(ex.ctx.Const(64, max), t)) {
				panic(pathEnd{EndAlloc, "allocation of unchecked size"})
			}
			if same || c.P == l.P {
				return Value{P: &SliceV{A: &Arr{lazy: map[int]*Value{}, elem: et}, SymLen: t}}
			}
			l = Value{N: ex.concrete(Value{P: t}, 64)}
			lw = 64
		}
	}
	if c.P != nil {
		t := ex.ctx.Resize(c.P.(*Term), 64, csg)
		if ex.branch(ex.ctx.Ult(ex.ctx.Const(64, max), t)) {
			panic(pathEnd{EndAlloc, "allocation of unchecked size"})
		}
		c = Value{N: ex.concrete(Value{P: t}, 64)}
		cw = 64
	}
	if same {
		c, cw, csg = l, lw, lsg
	}
	ln, cn := int64(l.N), int64(c.N)
	if lsg {
		ln = sx(l.N, lw)
	}
	if csg {
		cn = sx(c.N, cw)
	}
	if ln < 0 || uint64(ln) > (1<<47)/esz {
		ex.runtimePanic("makeslice: len out of range")
	}
	if cn < ln || uint64(cn) > (1<<47)/esz {
		ex.runtimePanic("makeslice: cap out of range")
	}
	if uint64(cn) > max {
		panic(pathEnd{EndAlloc, "allocation of unchecked size"})
	}
	if cn > 1<<20 {
		return Value{P: &SliceV{A: &Arr{lazy: map[int]*Value{}, elem: et}, Len: int(ln), Cap: int(cn)}}
	}
	e := make([]Value, cn)
	z := ex.m.zero(et)
	for i := range e {
		e[i] = copyVal(z)
	}
	return Value{P: &SliceV{A: &Arr{E: e, elem: et}, Len: int(ln), Cap: int(cn)}}
}

func (ex *Exec) appendVals(dst Value, vals []Value, et types.Type) Value {
	if dst.P == nil && len(vals) == 0 {
		return dst
	}
	s := ex.sliceOf(dst)
	n := s.Len + len(vals)
	if n <= s.Cap && s.A != nil {
		if s.A.lazy != nil {
			for i, v := range vals {
				storeTo(s.A.slot(ex, s.Off+s.Len+i), v)
			}
		} else {
			// source and destination may overlap
			tmp := make([]Value, len(vals))
			for i, v := range vals {
				tmp[i] = copyVal(v)
			}
			for i := range tmp {
				storeTo(&s.A.E[s.Off+s.Len+i], tmp[i])
			}
		}
		return Value{P: &SliceV{A: s.A, Off: s.Off, Len: n, Cap: s.Cap}}
	}
	nc := growCap(s.Cap, n, int(ex.m.Sizes.Sizeof(et)))
	if nc < n {
		nc = n
	}
	e := make([]Value, nc)
	for i, v := range ex.sliceVals(Value{P: s}) {
		e[i] = copyVal(v)
	}
	if s.A == nil {
		// nothing to copy
	}
	for i, v := range vals {
		e[s.Len+i] = copyVal(v)
	}
	if n < nc {
		z := ex.m.zero(et)
		for i := n; i < nc; i++ {
			e[i] = copyVal(z)
		}
	}
	return Value{P: &SliceV{A: &Arr{E: e, elem: et}, Len: n, Cap: nc}}
}

// ---- maps ----

func (ex *Exec) checkHashable(k Value) {
	if i, ok := k.P.(*Iface); ok && !types.Comparable(i.T.T) {
		ex.runtimePanic("hash of unhashable type " + i.T.T.String())
	}
}

func (ex *Exec) keyEq(a, b Value) *Term {
	c := ex.ctx
	switch p := a.P.(type) {
	case nil:
		if b.P == nil {
			return c.Bool(a.N == b.N)
		}
		if t, ok := b.P.(*Term); ok {
			return c.Eq(t, c.Const(t.W, a.N))
		}
		switch b.P.(type) {
		case string, *SymStr:
			return ex.strEq(a, b)
		}
		return c.False
	case *Term:
		if b.P == nil {
			return c.Eq(p, c.Const(p.W, b.N))
		}
		return c.Eq(p, b.P.(*Term))
	case string, *SymStr:
		return ex.strEq(a, b)
	case *StructV:
		q := b.P.(*StructV)
		r := c.True
		for i := range p.F {
			r = c.And(r, ex.keyEq(p.F[i], q.F[i]))
		}
		return r
	case *Arr:
		q := b.P.(*Arr)
		r := c.True
		for i := range p.E {
			r = c.And(r, ex.keyEq(p.E[i], q.E[i]))
		}
		return r
	case *Iface:
		q, ok := b.P.(*Iface)
		if !ok || p.T != q.T {
			return c.False
		}
		return ex.keyEq(p.V, q.V)
	}
	return c.Bool(a.P == b.P)
}

func (ex *Exec) mapFind(m *MapV, k Value) *mapEnt {
	ex.checkHashable(k)
	k = ex.forceLazy(k)
	var sb strings.Builder
	if hashKey(&sb, k) {
		if e := m.idx[sb.String()]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if !e.dead && e.sym && ex.branch(ex.keyEq(e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if !e.dead && ex.branch(ex.keyEq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (ex *Exec) mapSet(m *MapV, k, v Value) {
	if e := ex.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	k = ex.forceLazy(k)
	e := &mapEnt{k: k, v: v}
	var sb strings.Builder
	if hashKey(&sb, k) {
		e.key = sb.String()
		m.idx[e.key] = e
	} else {
		e.sym = true
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.live++
}

func (ex *Exec) mapDelete(m *MapV, k Value) {
	e := ex.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if e.sym {
		m.nsym--
	} else {
		delete(m.idx, e.key)
	}
	for i, x := range m.ents {
		if x == e {
			m.ents = append(append([]*mapEnt(nil), m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
}

func (ex *Exec) mapRange(m *MapV) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	ents := append([]*mapEnt(nil), m.ents...)
	n := len(ents)
	if ex.mapOrder && n > 1 {
		ex.res.NMapOrder++
		if n <= 3 {
			var out []*mapEnt
			rest := ents
			for len(rest) > 1 {
				i := ex.choose(len(rest))
				out = append(out, rest[i])
				rest = append(append([]*mapEnt(nil), rest[:i]...), rest[i+1:]...)
			}
			ents = append(out, rest...)
		} else {
			// insertion order, reversed, or rotated by half
			switch ex.choose(3) {
			case 1:
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					ents[i], ents[j] = ents[j], ents[i]
				}
			case 2:
				ents = append(append([]*mapEnt(nil), ents[n/2:]...), ents[:n/2]...)
			}
		}
	}
	if ex.mapMode > 0 && n > 1 {
		ex.res.NMapOrder++
		ex.nranges++
		mode := ex.mapMode
		if mode > 2 {
			mode = (ex.nranges + mode) % 3
		}
		switch mode {
		case 1:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ents[i], ents[j] = ents[j], ents[i]
			}
		case 2:
			ents = append(append([]*mapEnt(nil), ents[n/2:]...), ents[:n/2]...)
		}
	}
	it.order = ents
	return it
}

// ---- strings ----

func (ex *Exec) forceLazy(v Value) Value {
	if s, ok := v.P.(*SymStr); ok && s.lazy != nil {
		b := s.lazy()
		s.lazy = nil
		s.B = b
	}
	if i, ok := v.P.(*Iface); ok {
		ex.forceLazy(i.V)
	}
	return v
}

func (ex *Exec) strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		ex.forceLazy(v)
		return len(s.B)
	}
	ex.unsupported(fmt.Sprintf("string use of %T", v.P))
	return 0
}

func (ex *Exec) strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := range out {
			out[i] = Value{N: uint64(s[i])}
		}
		return out
	case *SymStr:
		ex.forceLazy(v)
		return s.B
	}
	ex.unsupported(fmt.Sprintf("string use of %T", v.P))
	return nil
}

// bytesToStr builds a string value from byte values.
func (ex *Exec) bytesToStr(b []Value) Value {
	for _, x := range b {
		if x.P != nil {
			cp := append([]Value(nil), b...)
			return Value{P: &SymStr{B: cp}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].N)
	}
	return Value{P: string(bs)}
}

// concStr returns the concrete string or ok=false if it has symbolic bytes.
func (ex *Exec) concStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SymStr:
		if s.lazy != nil {
			return "", false
		}
		bs := make([]byte, len(s.B))
		for i, x := range s.B {
			if x.P != nil {
				k, ok := ex.known[x.P.(*Term)]
				if !ok {
					return "", false
				}
				bs[i] = byte(k)
				continue
			}
			bs[i] = byte(x.N)
		}
		return string(bs), true
	}
	ex.unsupported(fmt.Sprintf("string use of %T", v.P))
	return "", false
}

// fullStr enumerates the string's bytes.
func (ex *Exec) fullStr(v Value) string {
	if s, ok := ex.concStr(v); ok {
		return s
	}
	b := ex.strBytes(v)
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(ex.concrete(b[i], 8))
	}
	return string(bs)
}

func (ex *Exec) strConcat(a, b Value) Value {
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	as, ok1 := a.P.(string)
	bs, ok2 := b.P.(string)
	if ok1 && ok2 {
		return Value{P: as + bs}
	}
	la, _ := a.P.(*SymStr)
	lb, _ := b.P.(*SymStr)
	if (la != nil && la.lazy != nil) || (lb != nil && lb.lazy != nil) {
		return Value{P: &SymStr{lazy: func() []Value {
			return append(append([]Value(nil), ex.strBytes(a)...), ex.strBytes(b)...)
		}}}
	}
	out := append(append([]Value(nil), ex.strBytes(a)...), ex.strBytes(b)...)
	return Value{P: &SymStr{B: out}}
}

// oneStr fixes the string to its value in the current model.
func (ex *Exec) oneStr(v Value) string {
	if s, ok := ex.concStr(v); ok {
		return s
	}
	b := ex.strBytes(v)
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(ex.concreteOne(b[i]))
	}
	return string(bs)
}

func (ex *Exec) strEq(a, b Value) *Term {
	as, ok1 := a.P.(string)
	bs, ok2 := b.P.(string)
	if ok1 && ok2 {
		return ex.ctx.Bool(as == bs)
	}
	if a.P != nil && a.P == b.P {
		return ex.ctx.True
	}
	if ex.strLen(a) != ex.strLen(b) {
		return ex.ctx.False
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	r := ex.ctx.True
	for i := range x {
		r = ex.ctx.And(r, ex.ctx.Eq(ex.term(x[i], 8), ex.term(y[i], 8)))
		if r == ex.ctx.False {
			return r
		}
	}
	return r
}

func (ex *Exec) strLess(a, b Value) *Term {
	as, ok1 := ex.concStr(a)
	bs, ok2 := ex.concStr(b)
	if ok1 && ok2 {
		return ex.ctx.Bool(as < bs)
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	return ex.bytesLess(x, y)
}

func (ex *Exec) bytesLess(x, y []Value) *Term {
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := ex.ctx.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := ex.term(x[i], 8), ex.term(y[i], 8)
		r = ex.ctx.Ite(ex.ctx.Eq(p, q), r, ex.ctx.Ult(p, q))
	}
	return r
}

func (ex *Exec) strIndex(s, i Value, iw uint8, isg bool) Value {
	if i.P == nil {
		n := int64(i.N)
		if isg {
			n = sx(i.N, iw)
		}
		l := ex.strLen(s)
		if n < 0 || n >= int64(l) {
			ex.boundsPanic(i, iw, isg, l)
		}
		if cs, ok := s.P.(string); ok {
			return Value{N: uint64(cs[n])}
		}
		return ex.strBytes(s)[n]
	}
	a := &Arr{E: ex.strBytes(s), elem: types.Typ[types.Uint8]}
	return ex.load(ex.indexPtr(a, 0, vInt(len(a.E)), i, iw, isg))
}

func (ex *Exec) strSlice(s Value, l, h int) Value {
	if l == h {
		return Value{}
	}
	if cs, ok := s.P.(string); ok {
		return Value{P: cs[l:h]}
	}
	return ex.bytesToStr(ex.strBytes(s)[l:h])
}

func (ex *Exec) runeToStr(v Value, w uint8, signed bool) Value {
	if v.P == nil {
		n := int64(v.N)
		if signed {
			n = sx(v.N, w)
		}
		r := rune(utf8.RuneError)
		if n >= 0 && n <= utf8.MaxRune {
			r = rune(n)
		}
		return Value{P: string(r)}
	}
	t := ex.ctx.Resize(v.P.(*Term), 64, signed)
	if ex.branch(ex.ctx.Ult(t, ex.ctx.Const(64, 0x80))) {
		return Value{P: &SymStr{B: []Value{vTerm(ex.ctx.Extract(t, 0, 8))}}}
	}
	n := int64(ex.concrete(Value{P: t}, 64))
	r := rune(utf8.RuneError)
	if n >= 0 && n <= utf8.MaxRune {
		r = rune(n)
	}
	return Value{P: string(r)}
}

// strNext advances a string iteration: (ok, index, rune).
func (ex *Exec) strNext(it *strIter) Value {
	n := ex.strLen(it.s)
	if it.pos >= n {
		return Value{P: tuple{vBool(false), vInt(0), Value{}}}
	}
	pos := it.pos
	if cs, ok := it.s.P.(string); ok {
		r, sz := utf8.DecodeRuneInString(cs[pos:])
		it.pos += sz
		return Value{P: tuple{vBool(true), vInt(pos), Value{N: uint64(uint32(r))}}}
	}
	b := ex.strBytes(it.s)
	r, sz := ex.decodeRune(b[pos:])
	it.pos += sz
	return Value{P: tuple{vBool(true), vInt(pos), r}}
}

// decodeRune decodes the first rune of b (len(b) > 0).
func (ex *Exec) decodeRune(b []Value) (Value, int) {
	c := ex.ctx
	b0 := b[0]
	if b0.P != nil {
		t := b0.P.(*Term)
		if ex.branch(c.Ult(t, c.Const(8, 0x80))) {
			return vTerm(c.Zext(t, 32)), 1
		}
	} else if b0.N < 0x80 {
		return Value{N: b0.N}, 1
	}
	// Multi-byte: follow the table of valid sequences.
	in := func(v Value, lo, hi uint64) bool {
		t := ex.term(v, 8)
		return ex.branch(c.And(c.Not(c.Ult(t, c.Const(8, lo))), c.Not(c.Ult(c.Const(8, hi), t))))
	}
	bad := Value{N: utf8.RuneError}
	low6 := func(v Value) *Term { return c.Zext(c.Extract(ex.term(v, 8), 0, 6), 32) }
	sh := func(t *Term, n uint64) *Term { return c.Bin(OShl, t, c.Const(32, n)) }
	if in(b0, 0xC2, 0xDF) {
		if len(b) < 2 || !in(b[1], 0x80, 0xBF) {
			return bad, 1
		}
		hi := c.Zext(c.Extract(ex.term(b0, 8), 0, 5), 32)
		return vTerm(c.Bin(OBor, sh(hi, 6), low6(b[1]))), 2
	}
	if in(b0, 0xE0, 0xEF) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(b0, 0xE0, 0xE0) {
			lo = 0xA0
		} else if in(b0, 0xED, 0xED) {
			hi = 0x9F
		}
		if len(b) < 2 || !in(b[1], lo, hi) {
			return bad, 1
		}
		if len(b) < 3 || !in(b[2], 0x80, 0xBF) {
			return bad, 1
		}
		h := c.Zext(c.Extract(ex.term(b0, 8), 0, 4), 32)
		return vTerm(c.Bin(OBor, c.Bin(OBor, sh(h, 12), sh(low6(b[1]), 6)), low6(b[2]))), 3
	}
	if in(b0, 0xF0, 0xF4) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(b0, 0xF0, 0xF0) {
			lo = 0x90
		} else if in(b0, 0xF4, 0xF4) {
			hi = 0x8F
		}
		if len(b) < 2 || !in(b[1], lo, hi) {
			return bad, 1
		}
		if len(b) < 3 || !in(b[2], 0x80, 0xBF) {
			return bad, 1
		}
		if len(b) < 4 || !in(b[3], 0x80, 0xBF) {
			return bad, 1
		}
		h := c.Zext(c.Extract(ex.term(b0, 8), 0, 3), 32)
		r := c.Bin(OBor, sh(h, 18), sh(low6(b[1]), 12))
		r = c.Bin(OBor, c.Bin(OBor, r, sh(low6(b[2]), 6)), low6(b[3]))
		return vTerm(r), 4
	}
	return bad, 1
}

package sym

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

func (m *Machine) registerFmt() {
	sprintf := func(ex *Exec, fr *Frame, a []Value) Value {
		return ex.format(a[0], ex.sliceVals(a[1]), fr)
	}
	sprint := func(ln bool) Intrinsic {
		return func(ex *Exec, fr *Frame, a []Value) Value { return ex.sprint(ex.sliceVals(a[0]), ln, fr) }
	}
	m.intr["fmt.Sprintf"] = sprintf
	m.intr["fmt.Sprint"] = sprint(false)
	m.intr["fmt.Sprintln"] = sprint(true)
	m.intr["fmt.Errorf"] = func(ex *Exec, fr *Frame, a []Value) Value {
		args := ex.sliceVals(a[1])
		msg := ex.format(a[0], args, fr)
		if f, ok := ex.concStr(a[0]); ok && strings.Contains(f, "%w") {
			for _, x := range args {
				if i, ok := x.P.(*Iface); ok && ex.m.methodByName(i.T, "Error") != nil {
					t := ex.m.typeNamed("fmt", "wrapError")
					s := new(Value)
					*s = Value{P: &StructV{F: []Value{msg, x}}}
					return Value{P: &Iface{T: ex.m.typeInfo(types.NewPointer(t)), V: Value{P: s}}}
				}
			}
		}
		return ex.mkErrorV(msg)
	}
	fpr := func(get func(ex *Exec, fr *Frame, a []Value) Value) Intrinsic {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			s := get(ex, fr, a[1:])
			return ex.writeTo(a[0], s, fr)
		}
	}
	m.intr["fmt.Fprintf"] = fpr(sprintf)
	m.intr["fmt.Fprint"] = fpr(sprint(false))
	m.intr["fmt.Fprintln"] = fpr(sprint(true))
	drop := func(ex *Exec, fr *Frame, a []Value) Value { return Value{P: tuple{Value{}, Value{}}} }
	m.intr["fmt.Printf"] = drop
	m.intr["fmt.Println"] = drop
	m.intr["fmt.Print"] = drop
	app := func(get func(ex *Exec, fr *Frame, a []Value) Value) Intrinsic {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			return ex.appendVals(a[0], ex.strBytes(get(ex, fr, a[1:])), types.Typ[types.Uint8])
		}
	}
	m.intr["fmt.Appendf"] = app(sprintf)
	m.intr["fmt.Append"] = app(sprint(false))
	pan := func(get func(ex *Exec, fr *Frame, a []Value) Value) Intrinsic {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			s := get(ex, fr, a)
			panic(&targetPanic{v: Value{P: &Iface{T: ex.m.typeInfo(types.Typ[types.String]), V: s}}})
		}
	}
	m.intr["log.Panicln"] = pan(sprint(true))
	m.intr["log.Panic"] = pan(sprint(false))
	m.intr["log.Panicf"] = pan(sprintf)
	fatal := func(ex *Exec, fr *Frame, a []Value) Value { panic(pathEnd{EndUnsupported, "process exit"}) }
	m.intr["log.Fatal"] = fatal
	m.intr["log.Fatalf"] = fatal
	m.intr["log.Fatalln"] = fatal
	m.intr["os.Exit"] = fatal
}

func (ex *Exec) writeTo(w, s Value, fr *Frame) Value {
	i, ok := w.P.(*Iface)
	if !ok {
		ex.runtimePanic("invalid memory address or nil pointer dereference")
	}
	f := ex.m.methodByName(i.T, "Write")
	if f == nil {
		ex.unsupported("no Write method")
	}
	b := ex.strBytes(s)
	cp := make([]Value, len(b))
	copy(cp, b)
	return ex.call(f, []Value{i.V, ex.mkSlice(cp, types.Typ[types.Uint8])}, nil, fr)
}

func (ex *Exec) sprint(args []Value, ln bool, fr *Frame) Value {
	var out Value
	prevStr := true
	for i, a := range args {
		isStr := false
		if f, ok := a.P.(*Iface); ok {
			isStr = isString(f.T.T)
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = ex.strConcat(out, vStr(" "))
		}
		prevStr = isStr
		out = ex.strConcat(out, ex.fmtArg("%v", 'v', a, fr))
	}
	if ln {
		out = ex.strConcat(out, vStr("\n"))
	}
	return out
}

func (ex *Exec) format(fv Value, args []Value, fr *Frame) Value {
	f, ok := ex.concStr(fv)
	if !ok {
		return Value{P: &SymStr{lazy: func() []Value { return strVals("?format?") }}}
	}
	var out Value
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = ex.strConcat(out, mkStr(f[i:]))
			break
		}
		if j > 0 {
			out = ex.strConcat(out, vStr(f[i:i+j]))
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("#0+- ", f[k]) >= 0 {
			k++
		}
		spec := f[i:k]
		for k < len(f) && (f[k] >= '0' && f[k] <= '9' || f[k] == '.' || f[k] == '*') {
			if f[k] == '*' && ai < len(args) {
				n := int64(0)
				if ifc, ok := args[ai].P.(*Iface); ok {
					n = int64(ex.concreteOne(ifc.V))
				}
				spec += fmt.Sprint(n)
				ai++
			} else {
				spec += string(f[k])
			}
			k++
		}
		if k >= len(f) {
			out = ex.strConcat(out, vStr("%!(NOVERB)"))
			break
		}
		verb := f[k]
		spec += string(verb)
		i = k + 1
		if verb == '%' {
			out = ex.strConcat(out, vStr("%"))
			continue
		}
		if verb == '[' {
			ex.unsupported("explicit argument index in format")
		}
		if ai >= len(args) {
			out = ex.strConcat(out, vStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = ex.strConcat(out, ex.fmtArg(spec, verb, args[ai], fr))
		ai++
	}
	if ai < len(args) {
		out = ex.strConcat(out, vStr("%!(EXTRA)"))
	}
	return out
}

func (ex *Exec) fmtArg(spec string, verb byte, a Value, fr *Frame) Value {
	if verb == 'w' {
		verb = 'v'
		spec = spec[:len(spec)-1] + "v"
	}
	if a.P == nil {
		return vStr(fmt.Sprintf(spec, nil))
	}
	i := a.P.(*Iface)
	if verb == 'T' {
		return vStr(types.TypeString(i.T.T, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'p' {
		return vStr("0xc000010000")
	}
	sharp := strings.Contains(spec, "#")
	strVerb := strings.IndexByte("vsxXq", verb) >= 0
	if strVerb && !(sharp && verb == 'v') {
		for _, mn := range []string{"Error", "String"} {
			f := ex.m.methodByName(i.T, mn)
			if f == nil || f.ssa.Signature.Params().Len() != 0 || f.ssa.Signature.Results().Len() != 1 {
				continue
			}
			s := ex.call(f, []Value{copyVal(i.V)}, nil, fr)
			return ex.fmtStr(spec, s)
		}
	}
	t := i.T.T
	v := i.V
	if isString(t) {
		return ex.fmtStr(spec, v)
	}
	if w, sg, ok := scalar(t); ok {
		if tm, isT := v.P.(*Term); isT {
			if w == 0 {
				if ex.branch(tm) {
					return vStr(fmt.Sprintf(spec, true))
				}
				return vStr(fmt.Sprintf(spec, false))
			}
			return Value{P: &SymStr{lazy: func() []Value {
				if (spec == "%d" || spec == "%v") && w > 0 {
					if sp := ex.m.Prog.ImportedPackage("strconv"); sp != nil {
						fn := "FormatUint"
						if sg {
							fn = "FormatInt"
						}
						r := ex.call(ex.m.fn(sp.Func(fn)), []Value{vTerm(ex.ctx.Resize(tm, 64, sg)), vInt(10)}, nil, fr)
						return ex.strBytes(r)
					}
				}
				return strVals(fmt.Sprintf(spec, nativeInt(t, ex.concreteOne(Value{P: tm}), w, sg)))
			}}}
		}
		return vStr(fmt.Sprintf(spec, nativeInt(t, v.N, w, sg)))
	}
	if isFloat(t) {
		return vStr(fmt.Sprintf(spec, fFloat(v, t)))
	}
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		if !sharp {
			et = u.Elem()
		}
	}
	if et != nil {
		if w, sg, ok := scalar(et); ok && w == 8 && !sg {
			arr, isArr := v.P.(*Arr)
			var b []Value
			if isArr {
				b = arr.E
			} else {
				b = ex.sliceVals(v)
			}
			sym := false
			for _, x := range b {
				sym = sym || x.P != nil
			}
			if !sym {
				bs := make([]byte, len(b))
				for k := range b {
					bs[k] = byte(b[k].N)
				}
				if v.P == nil {
					bs = nil
				}
				return mkStr(fmt.Sprintf(spec, bs))
			}
			if spec == "%#v" {
				return ex.fmtGoBytes(b)
			}
			if spec == "%s" {
				return ex.bytesToStr(b)
			}
			if spec == "%x" || spec == "%02x" {
				var out []Value
				for _, x := range b {
					t := ex.term(x, 8)
					out = append(out, ex.hexDigit(ex.ctx.Extract(t, 4, 4)), ex.hexDigit(ex.ctx.Extract(t, 0, 4)))
				}
				return ex.bytesToStr(out)
			}
			return Value{P: &SymStr{lazy: func() []Value {
				bs := make([]byte, len(b))
				for k := range b {
					bs[k] = byte(ex.concreteOne(b[k]))
				}
				return strVals(fmt.Sprintf(spec, bs))
			}}}
		}
	}
	return ex.render(spec, verb, t, v, 0, fr)
}

func (ex *Exec) hexDigit(nib *Term) Value {
	c := ex.ctx
	n := c.Zext(nib, 8)
	return vTerm(c.Ite(c.Ult(n, c.Const(8, 10)), c.Bin(OAdd, n, c.Const(8, '0')), c.Bin(OAdd, n, c.Const(8, 'a'-10))))
}

// fmtGoBytes is %#v of a byte slice with symbolic contents.
func (ex *Exec) fmtGoBytes(b []Value) Value {
	var out []Value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, Value{N: uint64(s[i])})
		}
	}
	lit("[]byte{")
	for i, x := range b {
		if i > 0 {
			lit(", ")
		}
		lit("0x")
		t := ex.term(x, 8)
		if !ex.branch(ex.ctx.Ult(t, ex.ctx.Const(8, 16))) {
			out = append(out, ex.hexDigit(ex.ctx.Extract(t, 4, 4)))
		}
		out = append(out, ex.hexDigit(ex.ctx.Extract(t, 0, 4)))
	}
	lit("}")
	return ex.bytesToStr(out)
}

func (ex *Exec) fmtStr(spec string, s Value) Value {
	if c, ok := ex.concStr(s); ok {
		return mkStr(fmt.Sprintf(spec, c))
	}
	if spec == "%s" || spec == "%v" {
		return s
	}
	return Value{P: &SymStr{lazy: func() []Value { return strVals(fmt.Sprintf(spec, ex.oneStr(s))) }}}
}

func nativeInt(t types.Type, n uint64, w uint8, sg bool) any {
	switch {
	case w == 0:
		return n != 0
	case w == 8 && sg:
		return int8(n)
	case w == 8:
		return uint8(n)
	case w == 16 && sg:
		return int16(n)
	case w == 16:
		return uint16(n)
	case w == 32 && sg:
		return int32(n)
	case w == 32:
		return uint32(n)
	case sg:
		return int64(n)
	}
	return n
}

// render prints composite values in the style of fmt.
func (ex *Exec) render(spec string, verb byte, t types.Type, v Value, depth int, fr *Frame) Value {
	if depth > 6 {
		return vStr("...")
	}
	sub := func(et types.Type, x Value) Value {
		if isInterface(et) {
			if x.P == nil {
				return vStr("<nil>")
			}
			return ex.fmtArg(spec, verb, x, fr)
		}
		return ex.fmtArg(spec, verb, Value{P: &Iface{T: ex.m.typeInfo(et), V: x}}, fr)
	}
	cat := func(vs ...Value) Value {
		var o Value
		for _, x := range vs {
			o = ex.strConcat(o, x)
		}
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		out := vStr("[")
		for i, x := range ex.sliceVals(v) {
			if i > 0 {
				out = cat(out, vStr(" "))
			}
			out = cat(out, sub(u.Elem(), x))
		}
		return cat(out, vStr("]"))
	case *types.Array:
		out := vStr("[")
		for i, x := range v.P.(*Arr).E {
			if i > 0 {
				out = cat(out, vStr(" "))
			}
			out = cat(out, sub(u.Elem(), x))
		}
		return cat(out, vStr("]"))
	case *types.Struct:
		out := vStr("{")
		for i, x := range v.P.(*StructV).F {
			if i > 0 {
				out = cat(out, vStr(" "))
			}
			if strings.Contains(spec, "+") {
				out = cat(out, vStr(u.Field(i).Name()+":"))
			}
			out = cat(out, sub(u.Field(i).Type(), x))
		}
		return cat(out, vStr("}"))
	case *types.Pointer:
		if v.P == nil {
			return vStr("<nil>")
		}
		if s, ok := v.P.(*Value); ok && depth == 0 {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				return cat(vStr("&"), ex.render(spec, verb, u.Elem(), *s, depth+1, fr))
			}
		}
		return vStr("0xc000010000")
	case *types.Map:
		m, ok := v.P.(*MapV)
		if !ok {
			return vStr("map[]")
		}
		ents := append([]*mapEnt(nil), m.ents...)
		w, sg, isInt := scalar(u.Key())
		for _, e := range ents {
			if e.sym || !isInt && !isString(u.Key()) {
				ex.unsupported("printing a map with these keys")
			}
		}
		sort.SliceStable(ents, func(i, j int) bool {
			a, b := ents[i].k, ents[j].k
			switch {
			case !isInt:
				return ex.oneStr(a) < ex.oneStr(b)
			case sg:
				return sx(a.N, w) < sx(b.N, w)
			}
			return a.N < b.N
		})
		out := vStr("map[")
		for i, e := range ents {
			if i > 0 {
				out = cat(out, vStr(" "))
			}
			out = cat(out, sub(u.Key(), e.k), vStr(":"), sub(u.Elem(), e.v))
		}
		return cat(out, vStr("]"))
	}
	return vStr("?")
}

// ---- file system ----

type fsNode struct {
	dir  bool
	data []Value
}

type fsFile struct {
	path   string
	node   *fsNode
	pos    int
	write  bool
	read   bool
	app    bool
	closed bool
}

type fsModel struct {
	nodes map[string]*fsNode
	files map[*Value]*fsFile
	ntmp  int
	limit *Term // largest size of a file
}

func (ex *Exec) fsm() *fsModel {
	if ex.fs == nil {
		ex.fs = &fsModel{nodes: map[string]*fsNode{"/": {dir: true}, "/cwd": {dir: true}, "/tmp": {dir: true}}, files: map[*Value]*fsFile{}}
	}
	return ex.fs
}

const (
	eNOENT  = 2
	eBADF   = 9
	eEXIST  = 17
	eFBIG   = 27
	eINVAL  = 22
	eNOTDIR = 20
	eISDIR  = 21

	eNOTEMPTY = 39
)

func (ex *Exec) pathErr(op, path string, no uint64) Value {
	pe := ex.m.typeNamed("io/fs", "PathError")
	en := ex.m.typeNamed("syscall", "Errno")
	s := new(Value)
	*s = Value{P: &StructV{F: []Value{mkStr(op), mkStr(path), {P: &Iface{T: ex.m.typeInfo(en), V: Value{N: no}}}}}}
	return Value{P: &Iface{T: ex.m.typeInfo(types.NewPointer(pe)), V: Value{P: s}}}
}

func fsClean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	// lexical clean
	var st []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, c)
		}
	}
	return "/" + strings.Join(st, "/")
}

func fsParent(p string) string {
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

// walk checks that the ancestors of p are directories.
func (f *fsModel) walk(p string) uint64 {
	for q := fsParent(p); ; q = fsParent(q) {
		n := f.nodes[q]
		if n != nil && !n.dir {
			return eNOTDIR
		}
		if q == "/" {
			break
		}
	}
	if f.nodes[fsParent(p)] == nil {
		return eNOENT
	}
	return 0
}

func (f *fsModel) open(path string, flag int) (*fsFile, uint64) {
	p := fsClean(path)
	if path == "" {
		return nil, eNOENT
	}
	if e := f.walk(p); e != 0 {
		return nil, e
	}
	n := f.nodes[p]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, eNOENT
		}
		n = &fsNode{}
		f.nodes[p] = n
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, eEXIST
		}
		if n.dir && (wr || flag&os.O_CREATE != 0) {
			return nil, eISDIR
		}
		if flag&os.O_TRUNC != 0 && wr {
			n.data = nil
		}
	}
	return &fsFile{path: path, node: n, write: wr, read: flag&os.O_WRONLY == 0, app: flag&os.O_APPEND != 0}, 0
}

// room decides how many of another n bytes can be written.
func (ex *Exec) room(f *fsFile, n int) int {
	l := ex.fsm().limit
	if l == nil || n == 0 {
		return n
	}
	pos := f.pos
	if f.app {
		pos = len(f.node.data)
	}
	num := func(k int) *Term { return ex.ctx.Const(64, uint64(k)) }
	if ex.branch(ex.ctx.Not(ex.ctx.Slt(l, num(pos+n)))) {
		return n
	}
	if !ex.branch(ex.ctx.Slt(num(pos), l)) {
		return 0
	}
	// part of it: the first, all but the last, or one amount in between
	for _, k := range []int{n - 1, 1} {
		if k > 0 && ex.branch(ex.ctx.Eq(l, num(pos+k))) {
			return k
		}
	}
	return int(ex.concreteOne(Value{P: l})) - pos
}

func (f *fsFile) put(b []Value) {
	if f.app {
		f.pos = len(f.node.data)
	}
	d := append([]Value(nil), f.node.data...)
	for len(d) < f.pos+len(b) {
		d = append(d, Value{})
	}
	copy(d[f.pos:], b)
	f.pos += len(b)
	f.node.data = d
}

func (f *fsModel) mkdirAll(p string) uint64 {
	p = fsClean(p)
	if n := f.nodes[p]; n != nil {
		if n.dir {
			return 0
		}
		return eNOTDIR
	}
	if p != "/" {
		if e := f.mkdirAll(fsParent(p)); e != 0 {
			return e
		}
	}
	f.nodes[p] = &fsNode{dir: true}
	return 0
}

func (m *Machine) registerFS() {
	reg := func(n string, f Intrinsic) { m.intr[n] = f }
	u8 := types.Typ[types.Uint8]
	open := func(ex *Exec, path string, flag int) Value {
		f, e := ex.fsm().open(path, flag)
		if e != 0 {
			return Value{P: tuple{Value{}, ex.pathErr("open", path, e)}}
		}
		s := new(Value)
		*s = ex.m.zero(ex.m.typeNamed("os", "File"))
		ex.fsm().files[s] = f
		return Value{P: tuple{{P: s}, {}}}
	}
	reg("os.OpenFile", func(ex *Exec, fr *Frame, a []Value) Value {
		return open(ex, ex.fullStr(a[0]), int(ex.concrete(a[1], 64)))
	})
	reg("os.Open", func(ex *Exec, fr *Frame, a []Value) Value { return open(ex, ex.fullStr(a[0]), os.O_RDONLY) })
	reg("os.Create", func(ex *Exec, fr *Frame, a []Value) Value {
		return open(ex, ex.fullStr(a[0]), os.O_RDWR|os.O_CREATE|os.O_TRUNC)
	})
	file := func(ex *Exec, v Value) *fsFile {
		s, ok := v.P.(*Value)
		if !ok {
			return nil
		}
		return ex.fsm().files[s]
	}
	write := func(ex *Exec, f *fsFile, b []Value) Value {
		if f == nil || f.closed || !f.write {
			return Value{P: tuple{Value{}, ex.pathErr("write", "?", eBADF)}}
		}
		if n := ex.room(f, len(b)); n < len(b) {
			f.put(b[:n])
			return Value{P: tuple{vInt(n), ex.pathErr("write", f.path, eFBIG)}}
		}
		f.put(b)
		return Value{P: tuple{vInt(len(b)), Value{}}}
	}
	reg("(*os.File).Write", func(ex *Exec, fr *Frame, a []Value) Value {
		return write(ex, file(ex, a[0]), ex.sliceVals(a[1]))
	})
	reg("(*os.File).WriteString", func(ex *Exec, fr *Frame, a []Value) Value {
		return write(ex, file(ex, a[0]), ex.strBytes(a[1]))
	})
	reg("(*os.File).Read", func(ex *Exec, fr *Frame, a []Value) Value {
		f := file(ex, a[0])
		if f == nil || f.closed || !f.read {
			return Value{P: tuple{Value{}, ex.pathErr("read", "?", eBADF)}}
		}
		if f.node.dir {
			return Value{P: tuple{Value{}, ex.pathErr("read", f.path, eISDIR)}}
		}
		d := ex.sliceOf(a[1])
		if d.Len == 0 {
			return Value{P: tuple{Value{}, Value{}}}
		}
		n := 0
		for n < d.Len && f.pos < len(f.node.data) {
			storeTo(d.A.slot(ex, d.Off+n), f.node.data[f.pos])
			n++
			f.pos++
		}
		if n == 0 {
			io := ex.m.Prog.ImportedPackage("io")
			eof := ex.load(Value{P: ex.global(ex.m.globalInfo(io.Var("EOF")))})
			return Value{P: tuple{Value{}, eof}}
		}
		return Value{P: tuple{vInt(n), Value{}}}
	})
	reg("(*os.File).Close", func(ex *Exec, fr *Frame, a []Value) Value {
		f := file(ex, a[0])
		if f == nil || f.closed {
			return ex.pathErr("close", "?", eBADF)
		}
		f.closed = true
		return Value{}
	})
	reg("(*os.File).Name", func(ex *Exec, fr *Frame, a []Value) Value {
		if f := file(ex, a[0]); f != nil {
			return mkStr(f.path)
		}
		return Value{}
	})
	wf := func(ex *Exec, fr *Frame, a []Value) Value {
		p := ex.fullStr(a[0])
		f, e := ex.fsm().open(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
		if e != 0 {
			return ex.pathErr("open", p, e)
		}
		b := ex.sliceVals(a[1])
		if n := ex.room(f, len(b)); n < len(b) {
			f.put(b[:n])
			return ex.pathErr("write", p, eFBIG)
		}
		f.put(b)
		return Value{}
	}
	reg("os.WriteFile", wf)
	reg("io/ioutil.WriteFile", wf)
	rf := func(ex *Exec, fr *Frame, a []Value) Value {
		p := ex.fullStr(a[0])
		f, e := ex.fsm().open(p, os.O_RDONLY)
		if e == 0 && f.node.dir {
			return Value{P: tuple{Value{}, ex.pathErr("read", p, eISDIR)}}
		}
		if e != 0 {
			return Value{P: tuple{Value{}, ex.pathErr("open", p, e)}}
		}
		return Value{P: tuple{ex.mkSlice(append([]Value(nil), f.node.data...), u8), Value{}}}
	}
	reg("os.ReadFile", rf)
	reg("io/ioutil.ReadFile", rf)
	reg("os.MkdirAll", func(ex *Exec, fr *Frame, a []Value) Value {
		p := ex.fullStr(a[0])
		if e := ex.fsm().mkdirAll(p); e != 0 {
			return ex.pathErr("mkdir", p, e)
		}
		return Value{}
	})
	reg("os.Mkdir", func(ex *Exec, fr *Frame, a []Value) Value {
		p := ex.fullStr(a[0])
		f := ex.fsm()
		q := fsClean(p)
		if f.nodes[q] != nil {
			return ex.pathErr("mkdir", p, eEXIST)
		}
		if e := f.walk(q); e != 0 {
			return ex.pathErr("mkdir", p, e)
		}
		f.nodes[q] = &fsNode{dir: true}
		return Value{}
	})
	below := func(f *fsModel, q string) []string {
		var out []string
		for k := range f.nodes {
			if strings.HasPrefix(k, strings.TrimSuffix(q, "/")+"/") && k != "/" {
				out = append(out, k)
			}
		}
		sort.Strings(out)
		return out
	}
	reg("os.RemoveAll", func(ex *Exec, fr *Frame, a []Value) Value {
		q := fsClean(ex.fullStr(a[0]))
		f := ex.fsm()
		for _, k := range append(below(f, q), q) {
			delete(f.nodes, k)
		}
		return Value{}
	})
	reg("os.Remove", func(ex *Exec, fr *Frame, a []Value) Value {
		p := ex.fullStr(a[0])
		q := fsClean(p)
		f := ex.fsm()
		e := f.walk(q)
		if e == 0 && f.nodes[q] == nil {
			e = eNOENT
		}
		if e == 0 && len(below(f, q)) > 0 {
			e = eNOTEMPTY
		}
		if e != 0 {
			return ex.pathErr("remove", p, e)
		}
		delete(f.nodes, q)
		return Value{}
	})
	reg("os.Rename", func(ex *Exec, fr *Frame, a []Value) Value {
		p, r := ex.fullStr(a[0]), ex.fullStr(a[1])
		q, t := fsClean(p), fsClean(r)
		f := ex.fsm()
		e := f.walk(q)
		if e == 0 && f.nodes[q] == nil {
			e = eNOENT
		}
		if e == 0 {
			e = f.walk(t)
		}
		if n := f.nodes[t]; e == 0 && n != nil && t != q {
			switch {
			case n.dir && !f.nodes[q].dir:
				e = eEXIST
			case !n.dir && f.nodes[q].dir:
				e = eNOTDIR
			case len(below(f, t)) > 0:
				e = eEXIST
			}
		}
		if e != 0 {
			le := ex.m.typeNamed("os", "LinkError")
			en := ex.m.typeNamed("syscall", "Errno")
			s := new(Value)
			*s = Value{P: &StructV{F: []Value{mkStr("rename"), mkStr(p), mkStr(r), {P: &Iface{T: ex.m.typeInfo(en), V: Value{N: e}}}}}}
			return Value{P: &Iface{T: ex.m.typeInfo(types.NewPointer(le)), V: Value{P: s}}}
		}
		if t == q {
			return Value{}
		}
		for _, k := range append(below(f, q), q) {
			f.nodes[t+k[len(q):]] = f.nodes[k]
			delete(f.nodes, k)
		}
		return Value{}
	})
	there := func(op string) Intrinsic {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			p := ex.fullStr(a[0])
			q := fsClean(p)
			f := ex.fsm()
			e := f.walk(q)
			if e == 0 && f.nodes[q] == nil {
				e = eNOENT
			}
			if e != 0 {
				return ex.pathErr(op, p, e)
			}
			return Value{}
		}
	}
	reg("os.Chmod", there("chmod"))
	reg("os.Chtimes", there("chtimes"))
	ok := func(ex *Exec, fr *Frame, a []Value) Value {
		if f := file(ex, a[0]); f == nil || f.closed {
			return ex.pathErr("use", "?", eBADF)
		}
		return Value{}
	}
	reg("(*os.File).Chmod", ok)
	reg("(*os.File).Sync", ok)
	reg("(*os.File).Truncate", func(ex *Exec, fr *Frame, a []Value) Value {
		f := file(ex, a[0])
		n := int(ex.concrete(a[1], 64))
		if f == nil || f.closed || !f.write || n < 0 {
			return ex.pathErr("truncate", "?", eBADF)
		}
		d := append([]Value(nil), f.node.data...)
		for len(d) < n {
			d = append(d, Value{})
		}
		f.node.data = d[:n]
		return Value{}
	})
	reg("(*os.File).Seek", func(ex *Exec, fr *Frame, a []Value) Value {
		f := file(ex, a[0])
		if f == nil || f.closed {
			return Value{P: tuple{Value{}, ex.pathErr("seek", "?", eBADF)}}
		}
		n := int(ex.concrete(a[1], 64))
		switch ex.concrete(a[2], 64) {
		case 1:
			n += f.pos
		case 2:
			n += len(f.node.data)
		}
		if n < 0 {
			return Value{P: tuple{Value{}, ex.pathErr("seek", f.path, eINVAL)}}
		}
		f.pos = n
		return Value{P: tuple{vInt(n), Value{}}}
	})
	temp := func(isDir bool) Intrinsic {
		return func(ex *Exec, fr *Frame, a []Value) Value {
			dir, pat := ex.fullStr(a[0]), ex.fullStr(a[1])
			if dir == "" {
				dir = "/tmp"
			}
			f := ex.fsm()
			pre, post := pat, ""
			if i := strings.LastIndexByte(pat, '*'); i >= 0 {
				pre, post = pat[:i], pat[i+1:]
			}
			f.ntmp++
			p := strings.TrimSuffix(dir, "/") + "/" + pre + fmt.Sprintf("%09d", f.ntmp) + post
			if !isDir {
				return open(ex, p, os.O_RDWR|os.O_CREATE|os.O_EXCL)
			}
			if e := f.walk(fsClean(p)); e != 0 {
				return Value{P: tuple{Value{}, ex.pathErr("mkdir", p, e)}}
			}
			f.nodes[fsClean(p)] = &fsNode{dir: true}
			return Value{P: tuple{mkStr(p), Value{}}}
		}
	}
	reg("os.CreateTemp", temp(false))
	reg("io/ioutil.TempFile", temp(false))
	reg("os.MkdirTemp", temp(true))
	reg("io/ioutil.TempDir", temp(true))
	info := func(ex *Exec, n *fsNode, q string) Value {
		t := ex.m.typeNamed("os", "fileStat")
		st := t.Underlying().(*types.Struct)
		s := new(Value)
		*s = ex.m.zero(t)
		fs := s.P.(*StructV)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "name":
				fs.F[i] = mkStr(q[strings.LastIndexByte(q, '/')+1:])
			case "size":
				fs.F[i] = vInt(len(n.data))
			case "mode":
				if n.dir {
					fs.F[i] = Value{N: uint64(os.ModeDir | 0o755)}
				} else {
					fs.F[i] = Value{N: 0o640}
				}
			}
		}
		return Value{P: tuple{{P: &Iface{T: ex.m.typeInfo(types.NewPointer(t)), V: Value{P: s}}}, {}}}
	}
	stat := func(ex *Exec, fr *Frame, a []Value) Value {
		p := ex.fullStr(a[0])
		q := fsClean(p)
		f := ex.fsm()
		e := f.walk(q)
		n := f.nodes[q]
		if e == 0 && n == nil {
			e = eNOENT
		}
		if q == "/" {
			e = 0
		}
		if e != 0 {
			return Value{P: tuple{Value{}, ex.pathErr("stat", p, e)}}
		}
		return info(ex, n, q)
	}
	reg("(*os.File).Stat", func(ex *Exec, fr *Frame, a []Value) Value {
		f := file(ex, a[0])
		if f == nil || f.closed {
			return Value{P: tuple{Value{}, ex.pathErr("stat", "?", eBADF)}}
		}
		return info(ex, f.node, fsClean(f.path))
	})
	reg("os.Stat", stat)
	reg("os.Lstat", stat)
	reg("os.Getenv", func(ex *Exec, fr *Frame, a []Value) Value { return Value{} })
	reg("os.Getwd", func(ex *Exec, fr *Frame, a []Value) Value { return Value{P: tuple{vStr("/cwd"), {}}} })
}

func strVals(s string) []Value {
	out := make([]Value, len(s))
	for i := range out {
		out[i] = Value{N: uint64(s[i])}
	}
	return out
}

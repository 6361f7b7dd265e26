// Package refast relates syntax trees of the repository to the trees of the
// reference grammar.
package refast

import (
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

// Files converts all files of a description.
func Files(set *ref.Set) []*ast.File {
	var out []*ast.File
	for _, f := range set.Files {
		out = append(out, File(f))
	}
	return out
}

// File builds the syntax tree of a description.
func File(f *ref.File) *ast.File {
	a := &ast.File{}
	for _, c := range f.Consts {
		a.Constants = append(a.Constants, &ast.Constant{Name: c.Name, Value: int64(c.Value)})
	}
	for _, c := range f.Ctxs {
		x := &ast.Context{Name: c.Name}
		for _, m := range c.Fields {
			x.Members = append(x.Members, &ast.Field{Name: m.Name, Type: &ast.IntType{Size: uint(m.Bits)}})
		}
		a.Contexts = append(a.Contexts, x)
	}
	for _, s := range f.Structs {
		a.Structs = append(a.Structs, Struct(s))
	}
	for _, p := range f.Pragmas {
		a.Pragmas = append(a.Pragmas, &ast.Pragma{Type: p.Type, Options: p.Options})
	}
	return a
}

// Struct builds the syntax tree of a structure.
func Struct(s *ref.Struct) *ast.Struct {
	x := &ast.Struct{Name: s.Name, Contexts: s.Ctxs}
	if !s.Extern {
		x.Members = members(s.Members)
	}
	return x
}

func members(ms []ref.Member) []ast.Member {
	out := []ast.Member{}
	for i := range ms {
		out = append(out, member(&ms[i]))
	}
	return out
}

func number(n ref.Num) ast.Integer {
	if n.IsName {
		return &ast.IntegerConstRef{Name: n.Name}
	}
	return &ast.IntegerLiteral{Value: int64(n.Val)}
}

// List builds an integer list.
func List(rs []ref.Range) *ast.IntegerList {
	l := &ast.IntegerList{}
	for _, r := range rs {
		x := &ast.IntegerRange{Low: number(r.Lo)}
		if !r.Single {
			x.High = number(r.Hi)
		}
		l.Ranges = append(l.Ranges, x)
	}
	return l
}

func idref(r ref.IDRef) *ast.IDRef { return &ast.IDRef{Scope: r.Scope, Name: r.Name} }

func limit(m *ref.Member) ast.LengthConstraint {
	switch m.LK {
	case ref.LRef:
		return idref(m.LRef)
	case ref.LLeftover:
		return &ast.Leftover{Num: number(m.Len)}
	}
	return nil
}

func base(m *ref.Member, k ref.Kind) ast.Type {
	switch k {
	case ref.KInt:
		t := &ast.IntType{Size: uint(m.Bits)}
		if m.HasI {
			t.Constraint = List(m.In)
		}
		return t
	case ref.KChar:
		return &ast.CharType{}
	case ref.KStr:
		return &ast.NulTermString{}
	case ref.KPtr:
		return &ast.Ptr{}
	}
	return &ast.StructRef{Name: m.Ref}
}

func member(m *ref.Member) ast.Member {
	switch m.Kind {
	case ref.KEOS:
		return &ast.EOS{}
	case ref.KFail:
		return &ast.Fail{}
	case ref.KIgnore:
		return &ast.Ignore{}
	case ref.KUnion:
		u := &ast.UnionMember{Name: m.Name, Tag: idref(m.Tag), Length: limit(m)}
		for i := range m.Cases {
			c := &m.Cases[i]
			x := &ast.UnionCase{}
			if !c.Default {
				x.Case = List(c.List)
			}
			if !c.NilBody {
				x.Members = members(c.Members)
			}
			u.Cases = append(u.Cases, x)
		}
		return u
	case ref.KArray:
		b := base(m, m.Base)
		if m.LK == ref.LFixed {
			return &ast.Field{Name: m.Name, Type: &ast.FixedArrayMember{Base: b, Size: number(m.Len)}}
		}
		return &ast.Field{Name: m.Name, Type: &ast.VarArrayMember{Base: b, Constraint: limit(m)}}
	}
	return &ast.Field{Name: m.Name, Type: base(m, m.Kind)}
}

// SameFile reports whether a syntax tree says what the reference read.
func SameFile(a *ast.File, f *ref.File) bool {
	if len(a.Constants) != len(f.Consts) || len(a.Contexts) != len(f.Ctxs) ||
		len(a.Structs) != len(f.Structs) || len(a.Pragmas) != len(f.Pragmas) {
		return false
	}
	ok := true
	for i, c := range a.Constants {
		ok = vf.And(ok, vf.And(vf.EqStr(c.Name, f.Consts[i].Name), uint64(c.Value) == f.Consts[i].Value))
	}
	for i, c := range a.Contexts {
		x := f.Ctxs[i]
		if len(c.Members) != len(x.Fields) {
			return false
		}
		ok = vf.And(ok, vf.EqStr(c.Name, x.Name))
		for k, m := range c.Members {
			ok = vf.And(ok, sameMember(m, &x.Fields[k]))
		}
	}
	for i, s := range a.Structs {
		ok = vf.And(ok, sameStruct(s, f.Structs[i]))
	}
	for i, p := range a.Pragmas {
		ok = vf.And(ok, vf.And(vf.EqStr(p.Type, f.Pragmas[i].Type), sameNames(p.Options, f.Pragmas[i].Options)))
	}
	return ok
}

func sameNames(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vf.And(ok, vf.EqStr(a[i], b[i]))
	}
	return ok
}

func sameStruct(a *ast.Struct, s *ref.Struct) bool {
	if a.Extern() != s.Extern {
		return false
	}
	return vf.And(vf.And(vf.EqStr(a.Name, s.Name), sameNames(a.Contexts, s.Ctxs)), sameMembers(a.Members, s.Members))
}

func sameMembers(a []ast.Member, ms []ref.Member) bool {
	if len(a) != len(ms) {
		return false
	}
	ok := true
	for i := range a {
		ok = vf.And(ok, sameMember(a[i], &ms[i]))
	}
	return ok
}

func sameMember(a ast.Member, m *ref.Member) bool {
	switch a := a.(type) {
	case *ast.EOS:
		return m.Kind == ref.KEOS
	case *ast.Fail:
		return m.Kind == ref.KFail
	case *ast.Ignore:
		return m.Kind == ref.KIgnore
	case *ast.UnionMember:
		if m.Kind != ref.KUnion || len(a.Cases) != len(m.Cases) {
			return false
		}
		ok := vf.And(vf.EqStr(a.Name, m.Name), vf.And(sameRef(a.Tag, m.Tag), sameLimit(a.Length, m)))
		for i, c := range a.Cases {
			x := &m.Cases[i]
			if (c.Case == nil) != x.Default {
				return false
			}
			if c.Case != nil {
				ok = vf.And(ok, sameList(c.Case, x.List))
			}
			ok = vf.And(ok, sameMembers(c.Members, x.Members))
		}
		return ok
	case *ast.Field:
		return vf.And(vf.EqStr(a.Name, m.Name), sameType(a.Type, m))
	}
	return false
}

func sameType(t ast.Type, m *ref.Member) bool {
	switch t := t.(type) {
	case *ast.FixedArrayMember:
		return m.Kind == ref.KArray && m.LK == ref.LFixed && vf.And(sameBase(t.Base, m, m.Base), sameNum(t.Size, m.Len))
	case *ast.VarArrayMember:
		return m.Kind == ref.KArray && m.LK != ref.LFixed && vf.And(sameBase(t.Base, m, m.Base), sameLimit(t.Constraint, m))
	}
	return sameBase(t, m, m.Kind)
}

func sameBase(t ast.Type, m *ref.Member, k ref.Kind) bool {
	switch t := t.(type) {
	case *ast.IntType:
		if k != ref.KInt || t.Size != uint(m.Bits) || (t.Constraint != nil) != m.HasI {
			return false
		}
		return t.Constraint == nil || sameList(t.Constraint, m.In)
	case *ast.CharType:
		return k == ref.KChar
	case *ast.NulTermString:
		return k == ref.KStr
	case *ast.Ptr:
		return k == ref.KPtr
	case *ast.StructRef:
		return k == ref.KStruct && vf.EqStr(t.Name, m.Ref)
	}
	return false
}

func sameRef(a *ast.IDRef, r ref.IDRef) bool {
	return a != nil && vf.And(vf.EqStr(a.Scope, r.Scope), vf.EqStr(a.Name, r.Name))
}

func sameLimit(a ast.LengthConstraint, m *ref.Member) bool {
	switch a := a.(type) {
	case nil:
		return m.LK == ref.LNone
	case *ast.IDRef:
		return m.LK == ref.LRef && sameRef(a, m.LRef)
	case *ast.Leftover:
		return m.LK == ref.LLeftover && sameNum(a.Num, m.Len)
	}
	return false
}

func sameNum(a ast.Integer, n ref.Num) bool {
	switch a := a.(type) {
	case *ast.IntegerConstRef:
		return n.IsName && vf.EqStr(a.Name, n.Name)
	case *ast.IntegerLiteral:
		return !n.IsName && uint64(a.Value) == n.Val
	}
	return false
}

func sameList(a *ast.IntegerList, rs []ref.Range) bool {
	if a == nil || len(a.Ranges) != len(rs) {
		return false
	}
	ok := true
	for i, r := range a.Ranges {
		ok = vf.And(ok, sameNum(r.Low, rs[i].Lo))
		if (r.High == nil) != rs[i].Single {
			return false
		}
		if r.High != nil {
			ok = vf.And(ok, sameNum(r.High, rs[i].Hi))
		}
	}
	return ok
}

package c14

import "github.com/mmcloughlin/trunnel/ast"

func description(k int) ([]*ast.File, []string) {
	u8 := func(n string) ast.Member { return &ast.Field{Name: n, Type: &ast.IntType{Size: 8}} }
	a := &ast.Struct{Name: "a", Members: []ast.Member{u8("x")}}
	b := &ast.Struct{Name: "b", Members: []ast.Member{&ast.Field{Name: "in", Type: &ast.StructRef{Name: "a"}}}}
	e := &ast.Struct{Name: "e", Members: []ast.Member{}}
	x := &ast.Struct{Name: "x"}
	ax := &ast.Struct{Name: "a"}
	switch k {
	case 0:
		return []*ast.File{{Structs: []*ast.Struct{a, x, e, b}}}, []string{"a", "e", "b"}
	case 1:
		return []*ast.File{{Structs: []*ast.Struct{b, ax}}, {Structs: []*ast.Struct{x, a}}}, []string{"b", "a"}
	case 2:
		return []*ast.File{{}, {Structs: []*ast.Struct{e}}, {Structs: []*ast.Struct{b, a}}}, []string{"e", "b", "a"}
	}
	return []*ast.File{{Structs: []*ast.Struct{x}}}, nil
}

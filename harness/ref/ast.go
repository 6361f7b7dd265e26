// Package ref is an independent reading of the trunnel language: a parser for
// descriptions and an interpreter that decodes bytes according to them. It
// shares no code with the repository.
package ref

// File is a parsed description.
type File struct {
	Consts  []Const
	Ctxs    []Context
	Structs []*Struct
	Pragmas []Pragma
}

// Const is a constant definition.
type Const struct {
	Name  string
	Value uint64
}

// Context is a context declaration.
type Context struct {
	Name   string
	Fields []Member
}

// Pragma is an option line.
type Pragma struct {
	Type    string
	Options []string
}

// Struct is a structure; Extern structures have no members.
type Struct struct {
	Name    string
	Ctxs    []string
	Extern  bool
	Members []Member
}

// Kind of a member.
type Kind int

// Member kinds.
const (
	KInt Kind = iota
	KChar
	KStr
	KPtr
	KStruct
	KArray
	KUnion
	KEOS
	KFail
	KIgnore
)

// LenKind tells how an array or union is delimited.
type LenKind int

// Length kinds.
const (
	LNone LenKind = iota // remainder (arrays), unlimited (unions)
	LFixed
	LRef
	LLeftover
)

// Member is a member of a structure, union case or context.
type Member struct {
	Kind Kind
	Name string
	Bits int     // KInt, also as array base
	In   []Range // KInt
	HasI bool
	Ref  string // KStruct: name
	Base Kind   // KArray: KInt, KChar or KStruct
	LK   LenKind
	Len  Num // LFixed, LLeftover
	LRef IDRef
	// unions
	Tag   IDRef
	Cases []Case
}

// Case of a union.
type Case struct {
	Default bool
	List    []Range
	NilBody bool // written as a bare semicolon
	Members []Member
}

// Num is a literal or a constant name.
type Num struct {
	IsName bool
	Name   string
	Val    uint64
}

// Range of integers; Single has no upper end.
type Range struct {
	Single bool
	Lo, Hi Num
}

// IDRef refers to a field.
type IDRef struct {
	Scope string
	Name  string
}

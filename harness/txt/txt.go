// Package txt has descriptions to be changed character by character.
package txt

// Texts are short descriptions that together use every construct.
var Texts = []string{
	"const A=1;const B_2 = 0x1f;",
	"struct s{}",
	"struct a { u8 x; u16 y; } ; struct b { u32 z; u64 w; };",
	"extern struct e; extern struct f with context c, d;",
	"context c { u8 n; u16 m; }; context d { }",
	"trunnel options a, bc;",
	"struct s with context c, d { u8 a[c.n]; }",
	"struct s { u8 x IN [1, 2..A, 0x7]; }",
	"struct s { nulterm n; @ptr p; eos; }",
	"struct s { char c[4]; u8 d[N]; u16 e[n]; }",
	"struct s { u8 a[..-2]; struct t r[]; }",
	"struct s { struct t x; struct t y[3]; }",
	"struct s { struct in { u8 q; } v; struct i2 { } w[2]; u8 z; }",
	"struct s { u8 t; union u[t] { 1: u8 a; 2..3, N: ; }; u8 z; }",
	"struct s { union u[c.t] with length n { default: fail; }; }",
	"struct s { union u[t] with length ..-2 { 0: ignore; default: u8 r[]; }; }",
	"struct s { union u[t] { 1: u8 a; ...; 2: struct j { eos; } k; } ; }",
	"// x\nstruct s/* y */{ u8 a; // z\n}",
}

// More are further descriptions, for longer runs.
var More = []string{
	"struct o { struct p { struct q { u8 z; } y; struct r { } x[2]; } w; struct q v; }",
	"struct s { u8 t; union u[t] { 1: struct a { u8 b; } c; struct d { } e[3]; default: struct f { u8 g[]; } h; } ; } struct t { }",
	"const N = 010; context c { u32 a; u64 b; } struct s with context c { u64 x[c.b]; } ; trunnel o p;",
	"struct s { union u[t] { 0x1, A..B, 7: nulterm n; char c[2]; u64 w[..-A]; ...; default: ; } ; eos; }",
	"struct s { u8 a IN [ 1 .. 2 , 3 ] ; u16 b[ 0 ] ; }",
	"struct s { struct t x[]; } struct t { char c[]; } extern struct v;",
}

// Split gives the text of an argument made by Positions, and the position.
func Split(arg int) (string, int) {
	i, k := arg/1000, arg%1000
	if i < len(Texts) {
		return Texts[i], k
	}
	return More[i-len(Texts)], k
}

// Positions lists the positions of all texts, with extra ones at the end.
func Positions(full bool, extra int) []int {
	var out []int
	all := Texts
	if full {
		all = append(append([]string{}, Texts...), More...)
	}
	for i, t := range all {
		for k := 0; k < len(t)+extra; k++ {
			out = append(out, i*1000+k)
		}
	}
	return out
}

// Words are the words of the language.
var Words = []string{
	"struct", "union", "const", "context", "extern", "trunnel", "with", "length", "IN",
	"u8", "u16", "u32", "u64", "char", "nulterm", "eos", "fail", "ignore", "default",
}

// Named are descriptions with a place for a name, marked by a dollar sign.
var Named = []string{
	"struct $ { u8 a; }",
	"struct s { u8 $; u8 b; }",
	"struct s { u16 $[2]; eos; }",
	"struct s { nulterm $; @ptr p; }",
	"struct s { @ptr $; }",
	"struct s { struct $ x; }",
	"struct s { struct $ { } x; struct y $; }",
	"struct s { struct t $[]; }",
	"struct s with context $ { }",
	"context $ { u8 a; u16 $; }",
	"struct s { union $[$] { default: ; }; }",
	"struct s { union u[$.a] with length $ { 1: u8 $; default: ignore; }; }",
	"struct s { u8 a[$]; u8 b[$.$]; }",
	"trunnel $ a, $;",
	"extern struct $ with context $, $;",
}

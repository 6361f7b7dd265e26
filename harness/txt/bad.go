package txt

// Bad are descriptions that refer to something that does not exist, or
// contradict themselves.
var Bad = []string{
	"struct a { struct b x; };",
	"struct a { struct b x[2]; };",
	"struct a { u8 n; struct b x[n]; };",
	"struct a { struct b x[]; };",
	"struct a { u8 t; union u[t] { 1: struct b x; default: ; }; };",
	"struct a { u8 x[N]; };",
	"struct a { u8 x IN [N]; };",
	"struct a { u8 x IN [1..N]; };",
	"struct a { u8 x IN [N..9]; };",
	"struct a { u8 t; union u[t] { N: u8 x; }; };",
	"struct a { u8 t; union u[t] { 1: u8 x; 2..N: u8 y; }; };",
	"struct a { u8 t; union u[t] with length ..-N { 1: u8 x; }; u8 y; };",
	"struct a { u8 x[..-N]; u8 y; };",
	"struct a { char x[N]; };",
	"struct a { u8 x[n]; };",
	"struct a { nulterm n; u8 x[n]; };",
	"struct a { u8 n[2]; u8 x[n]; };",
	"struct b { u8 n; }; struct a { struct b n; u8 x[n]; };",
	"struct a { union u[t] { 1: u8 x; }; };",
	"struct a { nulterm t; union u[t] { 1: u8 x; }; };",
	"struct a { union u[c.t] { 1: u8 x; }; };",
	"context c { u8 t; }; struct a { union u[c.t] { 1: u8 x; }; };",
	"context c { u8 t; }; struct a { u8 x[c.t]; };",
	"context c { u8 t; }; struct a with context c { union u[c.q] { 1: u8 x; }; };",
	"context c { u8 t; }; struct a with context c { u8 x[c.q]; };",
	"context c { u8 t; }; struct a with context c { u8 x[t]; };",
	"struct a with context c { u8 x; };",
	"struct a with context c { u8 x[c.t]; };",
	"struct a { u8 x; }; struct a { u8 y; };",
	"const A = 1; const A = 2; struct a { u8 x; };",
	"context c { u8 t; }; context c { u8 t; }; struct a { u8 x; };",
	"struct a { u8 t; union u[t] with length n { 1: u8 x; }; };",
	"context c { u8 t; }; struct b with context c { u8 x; }; struct a { struct b y; };",
	"context c { u8 t; }; struct b with context c { u8 x; }; struct a { struct b y[2]; };",
	"struct a { u8 x IN [5..2]; };",
	"struct a { u8 t; union u[t] { 5..2: u8 x; }; };",
	"struct a { u8 x; }; struct rest { u8 x[..-2]; u16 y; struct q z; };",
	"struct a { u8 x; }; struct rest { u8 x[..-2]; u8 y[N]; };",
}

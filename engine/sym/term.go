package sym

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator. Sorts are bit-vectors of width 1..64 and booleans
// (width 0).
type Op uint8

// Operators.
const (
	OConst Op = iota
	OVar
	ONot // boolean
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // K = lo
	OZext
	OSext
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OConcat: "concat",
}

// Term is a hash-consed term; pointer equality is structural equality within
// one TermCtx.
type Term struct {
	Op   Op
	W    uint8
	A    *Term
	B    *Term
	C    *Term
	K    uint64
	id   uint32
	h    uint64  // structural hash, independent of the context
	vars []int32 // sorted variable indices
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

// VarInfo describes a variable.
type VarInfo struct {
	Seq   int // position in the sequence of nondeterministic choices
	W     uint8
	Label string
}

// TermCtx owns terms of one worker.
type TermCtx struct {
	tab   map[termKey]*Term
	next  uint32
	vinfo []VarInfo
	vtab  map[VarInfo]int32
	vterm []*Term
	True  *Term
	False *Term

	// evaluation memo
	gen   uint32
	evGen []uint32
	evVal []uint64
}

// NewTermCtx returns an empty context.
func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, vtab: map[VarInfo]int32{}, next: 1}
	c.False = c.mk(OConst, 0, nil, nil, nil, 0)
	c.True = c.mk(OConst, 0, nil, nil, nil, 1)
	return c
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func unionVars(xs ...[]int32) []int32 {
	var first []int32
	n := 0
	for _, x := range xs {
		if len(x) > 0 {
			n++
			first = x
		}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return first
	}
	var out []int32
	for _, x := range xs {
		if len(x) == 0 {
			continue
		}
		if out == nil {
			out = x
			continue
		}
		out = merge2(out, x)
	}
	return out
}

func merge2(a, b []int32) []int32 {
	// subset fast paths
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(d), k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{Op: op, W: w, A: a, B: b, C: d, K: k, id: c.next}
	c.next++
	t.h = c.hash(t)
	if op == OVar {
		t.vars = []int32{int32(k)}
	} else if a != nil {
		var vb, vd []int32
		if b != nil {
			vb = b.vars
		}
		if d != nil {
			vd = d.vars
		}
		t.vars = unionVars(a.vars, vb, vd)
	}
	c.tab[key] = t
	return t
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (c *TermCtx) hash(t *Term) uint64 {
	h := mix(uint64(t.Op)<<8|uint64(t.W), 0x1234567)
	if t.Op == OVar {
		vi := c.vinfo[t.K]
		h = mix(h, uint64(vi.Seq))
		for i := 0; i < len(vi.Label); i++ {
			h = mix(h, uint64(vi.Label[i]))
		}
		return h
	}
	h = mix(h, t.K)
	for _, k := range [3]*Term{t.A, t.B, t.C} {
		if k != nil {
			h = mix(h, k.h)
		}
	}
	return h
}

// Size returns the number of distinct terms made.
func (c *TermCtx) Size() int { return len(c.tab) }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// Const makes a bit-vector constant.
func (c *TermCtx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	return c.mk(OConst, w, nil, nil, nil, v&mask(w))
}

// Bool makes a boolean constant.
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var interns a variable.
func (c *TermCtx) Var(vi VarInfo) *Term {
	if i, ok := c.vtab[vi]; ok {
		return c.vterm[i]
	}
	i := int32(len(c.vinfo))
	c.vinfo = append(c.vinfo, vi)
	c.vtab[vi] = i
	t := c.mk(OVar, vi.W, nil, nil, nil, uint64(i))
	c.vterm = append(c.vterm, t)
	return t
}

// IsConst reports whether t is constant.
func (t *Term) IsConst() bool { return t.Op == OConst }

// Not negates a boolean.
func (c *TermCtx) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return c.Bool(a.K == 0)
	case ONot:
		return a.A
	case OUlt:
		return c.mk(OUle, 0, a.B, a.A, nil, 0)
	case OUle:
		return c.mk(OUlt, 0, a.B, a.A, nil, 0)
	case OSlt:
		return c.mk(OSle, 0, a.B, a.A, nil, 0)
	case OSle:
		return c.mk(OSlt, 0, a.B, a.A, nil, 0)
	}
	return c.mk(ONot, 0, a, nil, nil, 0)
}

// And conjoins booleans.
func (c *TermCtx) And(a, b *Term) *Term {
	if a.Op == OConst {
		if a.K == 0 {
			return a
		}
		return b
	}
	if b.Op == OConst {
		if b.K == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == ONot && a.A == b) || (b.Op == ONot && b.A == a) {
		return c.False
	}
	return c.mk(OAnd, 0, a, b, nil, 0)
}

// Or disjoins booleans.
func (c *TermCtx) Or(a, b *Term) *Term {
	if a.Op == OConst {
		if a.K != 0 {
			return a
		}
		return b
	}
	if b.Op == OConst {
		if b.K != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == ONot && a.A == b) || (b.Op == ONot && b.A == a) {
		return c.True
	}
	return c.mk(OOr, 0, a, b, nil, 0)
}

// Ite is if-then-else for any sort.
func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.Op == OConst {
		if g.K != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.Op == OConst && b.Op == OConst {
			if a.K != 0 {
				return g
			}
			return c.Not(g)
		}
		if a.Op == OConst {
			if a.K != 0 {
				return c.Or(g, b)
			}
			return c.And(c.Not(g), b)
		}
		if b.Op == OConst {
			if b.K != 0 {
				return c.Or(c.Not(g), a)
			}
			return c.And(g, a)
		}
	}
	return c.mk(OIte, a.W, g, a, b, 0)
}

// maxVal gives an upper bound of the unsigned value of t.
func maxVal(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.K
	case OZext:
		return maxVal(t.A)
	case OBand:
		a, b := maxVal(t.A), maxVal(t.B)
		if a < b {
			return a
		}
		return b
	case OLshr:
		if t.B.Op == OConst {
			if t.B.K >= 64 {
				return 0
			}
			return maxVal(t.A) >> t.B.K
		}
	case OUrem:
		if t.B.Op == OConst && t.B.K > 0 {
			return t.B.K - 1
		}
	case OIte:
		a, b := maxVal(t.B), maxVal(t.C)
		if a > b {
			return a
		}
		return b
	case OBor, OBxor:
		a, b := maxVal(t.A), maxVal(t.B)
		if b > a {
			a = b
		}
		n := bits.Len64(a)
		if n >= 64 {
			return ^uint64(0)
		}
		return (uint64(1) << n) - 1
	case OAdd:
		a, b := maxVal(t.A), maxVal(t.B)
		s, carry := bits.Add64(a, b, 0)
		if carry == 0 && s <= mask(t.W) {
			return s
		}
	case OMul:
		a, b := maxVal(t.A), maxVal(t.B)
		h, l := bits.Mul64(a, b)
		if h == 0 && l <= mask(t.W) {
			return l
		}
	case OShl:
		if t.B.Op == OConst && t.B.K < 64 {
			a := maxVal(t.A)
			if bits.Len64(a)+int(t.B.K) <= int(t.W) {
				return a << t.B.K
			}
		}
	}
	return mask(t.W)
}

// Eq compares terms of equal sort.
func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.K == b.K)
	}
	if a.W == 0 {
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if b.K != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.K > maxVal(a) {
			return c.False
		}
		switch a.Op {
		case OZext:
			if b.K > mask(a.A.W) {
				return c.False
			}
			return c.Eq(a.A, c.Const(a.A.W, b.K))
		case OSext:
			lo := b.K & mask(a.A.W)
			if uint64(sx(lo, a.A.W))&mask(a.W) != b.K {
				return c.False
			}
			return c.Eq(a.A, c.Const(a.A.W, lo))
		case OAdd:
			if a.B.Op == OConst {
				return c.Eq(a.A, c.Const(a.W, b.K-a.B.K))
			}
		case OIte:
			if a.B.Op == OConst && a.C.Op == OConst {
				return c.Ite(a.A, c.Bool(a.B.K == b.K), c.Bool(a.C.K == b.K))
			}
			if a.B.Op == OConst && a.B.K != b.K {
				return c.And(c.Not(a.A), c.Eq(a.C, b))
			}
			if a.C.Op == OConst && a.C.K != b.K {
				return c.And(a.A, c.Eq(a.B, b))
			}
		case OConcat:
			hi := c.Eq(a.A, c.Const(a.A.W, b.K>>a.B.W))
			lo := c.Eq(a.B, c.Const(a.B.W, b.K))
			return c.And(hi, lo)
		}
	} else if a.Op == OZext && b.Op == OZext && a.A.W == b.A.W {
		return c.Eq(a.A, b.A)
	} else if a.Op == OConcat && b.Op == OConcat && a.A.W == b.A.W {
		return c.And(c.Eq(a.A, b.A), c.Eq(a.B, b.B))
	}
	if b.Op != OConst && a.h > b.h {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

// Ult is unsigned less-than.
func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.K < b.K)
	}
	if b.Op == OConst {
		if b.K == 0 {
			return c.False
		}
		if maxVal(a) < b.K {
			return c.True
		}
		if a.Op == OZext {
			return c.Ult(a.A, c.Const(a.A.W, b.K))
		}
		if b.K == 1 {
			return c.Eq(a, c.Const(a.W, 0))
		}
	}
	if a.Op == OConst {
		if a.K == mask(a.W) || a.K >= maxVal(b) {
			return c.False
		}
		if b.Op == OZext {
			return c.Ult(c.Const(b.A.W, a.K), b.A)
		}
		if a.K == 0 {
			return c.Not(c.Eq(b, c.Const(b.W, 0)))
		}
	}
	if a.Op == OZext && b.Op == OZext && a.A.W == b.A.W {
		return c.Ult(a.A, b.A)
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}

// Ule is unsigned less-or-equal.
func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

// Slt is signed less-than.
func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(sx(a.K, a.W) < sx(b.K, b.W))
	}
	half := uint64(1) << (a.W - 1)
	ma, mb := maxVal(a), maxVal(b)
	if ma < half && mb < half {
		return c.Ult(a, b)
	}
	// one side known non-negative, the other a negative constant
	if a.Op == OConst && a.K >= half && mb < half {
		return c.True
	}
	if b.Op == OConst && b.K >= half && ma < half {
		return c.False
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}

// Sle is signed less-or-equal.
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		a := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m
	}
	panic("foldBin")
}

// Bin makes a binary bit-vector operation.
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.W
	if a.Op == OConst && b.Op == OConst {
		return c.Const(w, foldBin(op, w, a.K, b.K))
	}
	switch op {
	case OAdd:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if b.K == 0 {
				return a
			}
			if a.Op == OAdd && a.B.Op == OConst {
				return c.Bin(OAdd, a.A, c.Const(w, a.B.K+b.K))
			}
		} else if a.h > b.h {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return c.Const(w, 0)
		}
		if b.Op == OConst {
			return c.Bin(OAdd, a, c.Const(w, -b.K))
		}
	case OMul:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if b.K == 0 {
				return b
			}
			if b.K == 1 {
				return a
			}
			if b.K&(b.K-1) == 0 {
				return c.Bin(OShl, a, c.Const(w, uint64(bits.TrailingZeros64(b.K))))
			}
		}
	case OUdiv:
		if b.Op == OConst && b.K == 1 {
			return a
		}
		if b.Op == OConst && b.K != 0 && b.K&(b.K-1) == 0 {
			return c.Bin(OLshr, a, c.Const(w, uint64(bits.TrailingZeros64(b.K))))
		}
	case OUrem:
		if b.Op == OConst && b.K != 0 && b.K&(b.K-1) == 0 {
			return c.Bin(OBand, a, c.Const(w, b.K-1))
		}
	case OBand:
		if a.Op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.Op == OConst {
			if b.K == 0 {
				return b
			}
			if b.K == mask(w) {
				return a
			}
			mv := maxVal(a)
			if n := bits.Len64(mv); n < 64 && b.K&((1<<n)-1) == (1<<n)-1 {
				return a
			}
			// low mask of a zext/any: extract
			if b.K&(b.K+1) == 0 {
				n := uint8(bits.Len64(b.K))
				return c.Zext(c.Extract(a, 0, n), w)
			}
		}
	case OBor:
		if a.Op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.Op == OConst {
			if b.K == 0 {
				return a
			}
			if b.K == mask(w) {
				return b
			}
		} else if t := c.orConcat(a, b); t != nil {
			return t
		}
	case OBxor:
		if a.Op == OConst {
			a, b = b, a
		}
		if a == b {
			return c.Const(w, 0)
		}
		if b.Op == OConst && b.K == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.Op == OConst {
			if b.K == 0 {
				return a
			}
			if b.K >= uint64(w) && op != OAshr {
				return c.Const(w, 0)
			}
			if op == OLshr {
				return c.Zext(c.Extract(a, uint8(b.K), w-uint8(b.K)), w)
			}
			if op == OShl {
				return c.Concat(c.Extract(a, 0, w-uint8(b.K)), c.Const(uint8(b.K), 0))
			}
		}
		if a.Op == OConst && a.K == 0 {
			return a
		}
	}
	return c.mk(op, w, a, b, nil, 0)
}

// trailing number of known-zero low bits
func lowZeros(t *Term) uint8 {
	switch t.Op {
	case OConst:
		if t.K == 0 {
			return t.W
		}
		return uint8(bits.TrailingZeros64(t.K))
	case OConcat:
		l := lowZeros(t.B)
		if l == t.B.W {
			return l + lowZeros(t.A)
		}
		return l
	case OZext:
		l := lowZeros(t.A)
		if l == t.A.W {
			return t.W
		}
		return l
	}
	return 0
}

// orConcat rewrites an or of operands with disjoint bits into a concatenation.
func (c *TermCtx) orConcat(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		z := lowZeros(a)
		if z > 0 && z < a.W {
			n := bits.Len64(maxVal(b))
			if n <= int(z) {
				hi := c.Extract(a, z, a.W-z)
				lo := c.Extract(b, 0, z)
				return c.Concat(hi, lo)
			}
		}
		a, b = b, a
	}
	return nil
}

// Bnot is bitwise complement.
func (c *TermCtx) Bnot(a *Term) *Term {
	if a.Op == OConst {
		return c.Const(a.W, ^a.K)
	}
	if a.Op == OBnot {
		return a.A
	}
	return c.mk(OBnot, a.W, a, nil, nil, 0)
}

// Neg is arithmetic negation.
func (c *TermCtx) Neg(a *Term) *Term {
	if a.Op == OConst {
		return c.Const(a.W, -a.K)
	}
	return c.mk(ONeg, a.W, a, nil, nil, 0)
}

// Concat joins hi and lo.
func (c *TermCtx) Concat(hi, lo *Term) *Term {
	w := hi.W + lo.W
	if hi.Op == OConst {
		if hi.K == 0 {
			return c.Zext(lo, w)
		}
		if lo.Op == OConst {
			return c.Const(w, hi.K<<lo.W|lo.K)
		}
	}
	if hi.Op == OZext {
		return c.Zext(c.Concat(hi.A, lo), w)
	}
	if hi.Op == OExtract && lo.Op == OExtract && hi.A == lo.A && hi.K == lo.K+uint64(lo.W) {
		return c.Extract(hi.A, uint8(lo.K), w)
	}
	// canonical form: right-nested with maximal merging of extracts
	if hi.Op == OConcat {
		return c.Concat(hi.A, c.Concat(hi.B, lo))
	}
	if lo.Op == OConcat && hi.Op == OExtract && lo.A.Op == OExtract && hi.A == lo.A.A && hi.K == lo.A.K+uint64(lo.A.W) {
		return c.Concat(c.Extract(hi.A, uint8(lo.A.K), hi.W+lo.A.W), lo.B)
	}
	if lo.Op == OConcat && hi.Op == OConst && lo.A.Op == OConst {
		return c.Concat(c.Const(hi.W+lo.A.W, hi.K<<lo.A.W|lo.A.K), lo.B)
	}
	return c.mk(OConcat, w, hi, lo, nil, 0)
}

// Extract takes w bits from bit lo.
func (c *TermCtx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.W {
		return a
	}
	switch a.Op {
	case OConst:
		return c.Const(w, a.K>>lo)
	case OExtract:
		return c.Extract(a.A, lo+uint8(a.K), w)
	case OZext:
		if lo >= a.A.W {
			return c.Const(w, 0)
		}
		if lo+w <= a.A.W {
			return c.Extract(a.A, lo, w)
		}
		return c.Zext(c.Extract(a.A, lo, a.A.W-lo), w)
	case OSext:
		if lo+w <= a.A.W {
			return c.Extract(a.A, lo, w)
		}
	case OConcat:
		if lo >= a.B.W {
			return c.Extract(a.A, lo-a.B.W, w)
		}
		if lo+w <= a.B.W {
			return c.Extract(a.B, lo, w)
		}
		return c.Concat(c.Extract(a.A, 0, lo+w-a.B.W), c.Extract(a.B, lo, a.B.W-lo))
	case OBand, OBor, OBxor:
		return c.Bin(a.Op, c.Extract(a.A, lo, w), c.Extract(a.B, lo, w))
	case OIte:
		if a.B.Op == OConst || a.C.Op == OConst {
			return c.Ite(a.A, c.Extract(a.B, lo, w), c.Extract(a.C, lo, w))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.Op, c.Extract(a.A, 0, w), c.Extract(a.B, 0, w))
		}
	}
	return c.mk(OExtract, w, a, nil, nil, uint64(lo))
}

// Zext zero-extends to width w.
func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	switch a.Op {
	case OConst:
		return c.Const(w, a.K)
	case OZext:
		return c.Zext(a.A, w)
	}
	return c.mk(OZext, w, a, nil, nil, 0)
}

// Sext sign-extends to width w.
func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.Op == OConst {
		return c.Const(w, uint64(sx(a.K, a.W)))
	}
	if maxVal(a) < uint64(1)<<(a.W-1) {
		return c.Zext(a, w)
	}
	return c.mk(OSext, w, a, nil, nil, 0)
}

// Resize truncates or extends.
func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case w == a.W:
		return a
	case w < a.W:
		return c.Extract(a, 0, w)
	case signed:
		return c.Sext(a, w)
	}
	return c.Zext(a, w)
}

// Model assigns values to variables by sequence number.
type Model map[int]uint64

// Eval evaluates t under m (missing variables are 0).
func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	c.gen++
	if int(c.next) > len(c.evGen) {
		n := int(c.next)*3/2 + 1024
		g := make([]uint32, n)
		copy(g, c.evGen)
		c.evGen = g
		v := make([]uint64, n)
		copy(v, c.evVal)
		c.evVal = v
	}
	return c.eval(t, m)
}

func (c *TermCtx) eval(t *Term, m Model) uint64 {
	switch t.Op {
	case OConst:
		return t.K
	case OVar:
		vi := &c.vinfo[t.K]
		if vi.W == 0 {
			return m[vi.Seq] & 1
		}
		return m[vi.Seq] & mask(vi.W)
	}
	if c.evGen[t.id] == c.gen {
		return c.evVal[t.id]
	}
	var r uint64
	switch t.Op {
	case ONot:
		r = 1 - c.eval(t.A, m)
	case OAnd:
		r = c.eval(t.A, m)
		if r != 0 {
			r = c.eval(t.B, m)
		}
	case OOr:
		r = c.eval(t.A, m)
		if r == 0 {
			r = c.eval(t.B, m)
		}
	case OIte:
		if c.eval(t.A, m) != 0 {
			r = c.eval(t.B, m)
		} else {
			r = c.eval(t.C, m)
		}
	case OEq:
		r = b2u(c.eval(t.A, m) == c.eval(t.B, m))
	case OUlt:
		r = b2u(c.eval(t.A, m) < c.eval(t.B, m))
	case OUle:
		r = b2u(c.eval(t.A, m) <= c.eval(t.B, m))
	case OSlt:
		r = b2u(sx(c.eval(t.A, m), t.A.W) < sx(c.eval(t.B, m), t.A.W))
	case OSle:
		r = b2u(sx(c.eval(t.A, m), t.A.W) <= sx(c.eval(t.B, m), t.A.W))
	case OBnot:
		r = ^c.eval(t.A, m) & mask(t.W)
	case ONeg:
		r = -c.eval(t.A, m) & mask(t.W)
	case OConcat:
		r = c.eval(t.A, m)<<t.B.W | c.eval(t.B, m)
	case OExtract:
		r = (c.eval(t.A, m) >> t.K) & mask(t.W)
	case OZext:
		r = c.eval(t.A, m)
	case OSext:
		r = uint64(sx(c.eval(t.A, m), t.A.W)) & mask(t.W)
	default:
		r = foldBin(t.Op, t.W, c.eval(t.A, m), c.eval(t.B, m))
	}
	c.evGen[t.id] = c.gen
	c.evVal[t.id] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) varName(i int32) string {
	return fmt.Sprintf("v%d", i)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// linear reports whether the terms only compare, add and subtract
// values, at least one of them wide.
func (c *TermCtx) linear(asserts []*Term) bool {
	ok, opaque, wide, _ := c.linearParts(asserts)
	return ok && len(opaque) == 0 && wide
}

// abstractable reports whether the terms become linear, with sums of wide
// values, when some subterms are replaced by unknown integers.
func (c *TermCtx) abstractable(asserts []*Term) (map[*Term]bool, bool) {
	ok, opaque, wide, sums := c.linearParts(asserts)
	return opaque, ok && len(opaque) > 0 && wide && sums
}

func (c *TermCtx) linearParts(asserts []*Term) (fine bool, opaque map[*Term]bool, wide, sums bool) {
	seen := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if t == nil || seen[t] {
			return true
		}
		seen[t] = true
		switch t.Op {
		case OConst:
			return true
		case OVar:
			wide = wide || t.W >= 32
			return true
		case OAdd, OSub:
			sums = sums || t.W >= 32 && t.A.Op != OConst && t.B.Op != OConst
			return ok(t.A) && ok(t.B)
		case OMul:
			if k, x := mulConst(t); x != nil && k != 0 {
				sums, wide = sums || t.W >= 32, wide || t.W >= 32
				return ok(x)
			}
		case ONot, OAnd, OOr, OIte, OEq, OUlt, OUle, OSlt, OSle, OZext:
			return ok(t.A) && ok(t.B) && ok(t.C)
		}
		if t.W == 0 {
			return false
		}
		if opaque == nil {
			opaque = map[*Term]bool{}
		}
		opaque[t] = true
		wide = wide || t.W >= 32
		return true
	}
	for _, a := range asserts {
		if !ok(a) {
			return false, nil, false, false
		}
	}
	return true, opaque, wide, sums
}

// mulConst splits a product with a constant.
func mulConst(t *Term) (uint64, *Term) {
	if t.Op == OMul && t.A.Op == OConst {
		return t.A.K, t.B
	}
	if t.Op == OMul && t.B.Op == OConst {
		return t.B.K, t.A
	}
	return 0, nil
}

// upper is an upper bound of a term.
func upper(t *Term) uint64 {
	m := mask(t.W)
	switch t.Op {
	case OConst:
		return t.K
	case OZext:
		return upper(t.A)
	case OBand:
		x, y := upper(t.A), upper(t.B)
		if y < x {
			x = y
		}
		return x
	case OLshr:
		if t.B.Op == OConst && t.B.K < 64 {
			return upper(t.A) >> t.B.K
		}
	}
	return m
}

// writeSMT emits declarations, definitions of shared nodes and assertions.
// With ints, bit-vectors of width w are integers in [0,2^w).
// Opaque terms are then unknown integers.
func (c *TermCtx) writeSMT(sb *strings.Builder, asserts []*Term, ints bool, opaque map[*Term]bool) (vars []int32, ops []*Term) {
	sortName := sortName
	if ints {
		bv := sortName
		sortName = func(w uint8) string {
			if w == 0 {
				return bv(w)
			}
			return "Int"
		}
	}
	refs := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	seenVar := map[int32]bool{}
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if opaque[t] {
			ops = append(ops, t)
			return
		}
		if t.Op == OVar {
			if !seenVar[int32(t.K)] {
				seenVar[int32(t.K)] = true
				vars = append(vars, int32(t.K))
			}
			return
		}
		for _, k := range [3]*Term{t.A, t.B, t.C} {
			if k != nil {
				visit(k)
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	for _, v := range vars {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", c.varName(v), sortName(c.vinfo[v].W))
		if w := c.vinfo[v].W; ints && w > 0 {
			fmt.Fprintf(sb, "(assert (and (<= 0 %s) (<= %s %d)))\n", c.varName(v), c.varName(v), mask(w))
		}
	}
	for _, t := range ops {
		fmt.Fprintf(sb, "(declare-const o%d Int)\n(assert (and (<= 0 o%d) (<= o%d %d)))\n", t.id, t.id, t.id, upper(t))
	}
	named := map[*Term]bool{}
	var emit func(t *Term)
	emit = func(t *Term) {
		if opaque[t] {
			fmt.Fprintf(sb, "o%d", t.id)
			return
		}
		if named[t] {
			fmt.Fprintf(sb, "t%d", t.id)
			return
		}
		if ints && t.W > 0 && t.Op == OConst {
			fmt.Fprintf(sb, "%d", t.K)
			return
		}
		if ints && (t.Op == OAdd || t.Op == OSub) {
			// wrap around at 2^w; the operands are named or atomic
			op, cmp, fix := "+", "<=", "-"
			if t.Op == OSub {
				op, cmp, fix = "-", ">", "+"
			}
			sb.WriteString("(let ((s (" + op + " ")
			emit(t.A)
			sb.WriteByte(' ')
			emit(t.B)
			lim := "18446744073709551616"
			if t.W < 64 {
				lim = fmt.Sprint(uint64(1) << t.W)
			}
			if t.Op == OAdd {
				sb.WriteString("))) (ite (" + cmp + " " + lim + " s) (" + fix + " s " + lim + ") s))")
			} else {
				sb.WriteString("))) (ite (" + cmp + " 0 s) (" + fix + " s " + lim + ") s))")
			}
			return
		}
		if ints && (t.Op == OSlt || t.Op == OSle) {
			sb.WriteString("(let ((p ")
			emit(t.A)
			sb.WriteString(") (q ")
			emit(t.B)
			half := uint64(1) << (t.A.W - 1)
			lim := "18446744073709551616"
			if t.A.W < 64 {
				lim = fmt.Sprint(half * 2)
			}
			op := "<"
			if t.Op == OSle {
				op = "<="
			}
			fmt.Fprintf(sb, ")) (%s (ite (<= %d p) (- p %s) p) (ite (<= %d q) (- q %s) q)))", op, half, lim, half, lim)
			return
		}
		switch t.Op {
		case OConst:
			if t.W == 0 {
				if t.K != 0 {
					sb.WriteString("true")
				} else {
					sb.WriteString("false")
				}
			} else {
				fmt.Fprintf(sb, "(_ bv%d %d)", t.K, t.W)
			}
		case OVar:
			sb.WriteString(c.varName(int32(t.K)))
		case OExtract:
			fmt.Fprintf(sb, "((_ extract %d %d) ", t.K+uint64(t.W)-1, t.K)
			emit(t.A)
			sb.WriteByte(')')
		case OZext:
			if ints {
				emit(t.A)
				return
			}
			fmt.Fprintf(sb, "((_ zero_extend %d) ", t.W-t.A.W)
			emit(t.A)
			sb.WriteByte(')')
		case OSext:
			fmt.Fprintf(sb, "((_ sign_extend %d) ", t.W-t.A.W)
			emit(t.A)
			sb.WriteByte(')')
		default:
			sb.WriteByte('(')
			switch {
			case ints && t.Op == OUlt:
				sb.WriteString("<")
			case ints && t.Op == OUle:
				sb.WriteString("<=")
			default:
				sb.WriteString(opNames[t.Op])
			}
			for _, k := range [3]*Term{t.A, t.B, t.C} {
				if k != nil {
					sb.WriteByte(' ')
					emit(k)
				}
			}
			sb.WriteByte(')')
		}
	}
	for _, t := range order {
		if k, x := mulConst(t); ints && x != nil {
			// the product modulo 2^w
			lim := "18446744073709551616"
			if t.W < 64 {
				lim = fmt.Sprint(uint64(1) << t.W)
			}
			fmt.Fprintf(sb, "(declare-const t%d Int)\n(declare-const q%d Int)\n(assert (and (<= 0 t%d) (<= t%d %d) (<= 0 q%d) (<= q%d %d) (= (* %d ", t.id, t.id, t.id, t.id, mask(t.W), t.id, t.id, k, k)
			emit(x)
			fmt.Fprintf(sb, ") (+ t%d (* %s q%d)))))\n", t.id, lim, t.id)
			named[t] = true
			continue
		}
		if refs[t] > 1 && t.Op != OConst {
			fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortName(t.W))
			emit(t)
			sb.WriteString(")\n")
			named[t] = true
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		emit(a)
		sb.WriteString(")\n")
	}
	return vars, ops
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return fmt.Sprint(t.K != 0)
		}
		return fmt.Sprintf("%d:%d", t.K, t.W)
	case OVar:
		return fmt.Sprintf("v%d", t.K)
	case OExtract:
		return fmt.Sprintf("%v[%d+%d]", t.A, t.K, t.W)
	case OZext, OSext:
		return fmt.Sprintf("ext%d(%v)", t.W, t.A)
	}
	s := "(" + opNames[t.Op]
	for _, k := range [3]*Term{t.A, t.B, t.C} {
		if k != nil {
			s += " " + k.String()
		}
	}
	return s + ")"
}

package sym

import (
	"fmt"
	"math/rand"
	"time"
)

type rawTerm struct {
	t *Term
	f func(Model) uint64
}

// SelfTest builds random terms through the simplifying constructors and
// compares their evaluation with a direct computation, and a part of them
// with the solver.
func SelfTest(r *rand.Rand, n int, z3 []string) (int, error) {
	tc := NewTermCtx()
	widths := []uint8{1, 8, 16, 32, 64}
	var vars []rawTerm
	for i := 0; i < 8; i++ {
		i := i
		w := widths[1+i%4]
		t := tc.Var(VarInfo{Seq: i, W: w, Label: "t"})
		vars = append(vars, rawTerm{t, func(m Model) uint64 { return m[i] & mask(w) }})
	}
	resize := func(x rawTerm, w uint8, signed bool) rawTerm {
		o := x.t.W
		return rawTerm{tc.Resize(x.t, w, signed), func(m Model) uint64 {
			v := x.f(m)
			if signed {
				v = uint64(sx(v, o))
			}
			return v & mask(w)
		}}
	}
	var genBV func(d int, w uint8) rawTerm
	var genB func(d int) rawTerm
	genBV = func(d int, w uint8) rawTerm {
		if d == 0 || r.Intn(8) == 0 {
			if r.Intn(3) == 0 {
				k := r.Uint64()
				if r.Intn(2) == 0 {
					k &= 0xff >> uint(r.Intn(8))
				}
				k &= mask(w)
				return rawTerm{tc.Const(w, k), func(Model) uint64 { return k }}
			}
			return resize(vars[r.Intn(len(vars))], w, r.Intn(4) == 0)
		}
		switch r.Intn(8) {
		case 0:
			g, a, b := genB(d-1), genBV(d-1, w), genBV(d-1, w)
			return rawTerm{tc.Ite(g.t, a.t, b.t), func(m Model) uint64 {
				if g.f(m) != 0 {
					return a.f(m)
				}
				return b.f(m)
			}}
		case 1:
			return resize(genBV(d-1, widths[1+r.Intn(4)]), w, r.Intn(2) == 0)
		case 2:
			if w >= 16 {
				h := w / 2
				a, b := genBV(d-1, h), genBV(d-1, h)
				return rawTerm{tc.Concat(a.t, b.t), func(m Model) uint64 { return a.f(m)<<h | b.f(m) }}
			}
			a := genBV(d-1, 64)
			lo := uint8(r.Intn(int(64 - w + 1)))
			return rawTerm{tc.Extract(a.t, lo, w), func(m Model) uint64 { return a.f(m) >> lo & mask(w) }}
		case 3:
			a := genBV(d-1, w)
			if r.Intn(2) == 0 {
				return rawTerm{tc.Bnot(a.t), func(m Model) uint64 { return ^a.f(m) & mask(w) }}
			}
			return rawTerm{tc.Neg(a.t), func(m Model) uint64 { return -a.f(m) & mask(w) }}
		}
		ops := []Op{OAdd, OSub, OMul, OUdiv, OUrem, OSdiv, OSrem, OBand, OBor, OBxor, OShl, OLshr, OAshr}
		op := ops[r.Intn(len(ops))]
		a, b := genBV(d-1, w), genBV(d-1, w)
		if op == OShl || op == OLshr || op == OAshr {
			if r.Intn(2) == 0 {
				k := uint64(r.Intn(int(w) + 1))
				b = rawTerm{tc.Const(w, k), func(Model) uint64 { return k & mask(w) }}
			}
		}
		return rawTerm{tc.Bin(op, a.t, b.t), func(m Model) uint64 {
			x, y := a.f(m), b.f(m)
			switch op {
			case OAdd:
				return (x + y) & mask(w)
			case OSub:
				return (x - y) & mask(w)
			case OMul:
				return x * y & mask(w)
			case OUdiv:
				if y == 0 {
					return mask(w)
				}
				return x / y
			case OUrem:
				if y == 0 {
					return x
				}
				return x % y
			case OSdiv, OSrem:
				sxv, syv := sx(x, w), sx(y, w)
				if op == OSdiv {
					if syv == 0 {
						if sxv >= 0 {
							return mask(w)
						}
						return 1
					}
					return uint64(sxv/syv) & mask(w)
				}
				if syv == 0 {
					return x
				}
				return uint64(sxv%syv) & mask(w)
			case OBand:
				return x & y
			case OBor:
				return x | y
			case OBxor:
				return x ^ y
			case OShl:
				if y >= uint64(w) {
					return 0
				}
				return x << y & mask(w)
			case OLshr:
				if y >= uint64(w) {
					return 0
				}
				return x >> y
			}
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return uint64(sx(x, w)>>y) & mask(w)
		}}
	}
	genB = func(d int) rawTerm {
		if d == 0 {
			d = 1
		}
		switch r.Intn(8) {
		case 0:
			a := genB(d - 1)
			return rawTerm{tc.Not(a.t), func(m Model) uint64 { return 1 - a.f(m) }}
		case 1:
			a, b := genB(d-1), genB(d-1)
			return rawTerm{tc.And(a.t, b.t), func(m Model) uint64 { return a.f(m) & b.f(m) }}
		case 2:
			a, b := genB(d-1), genB(d-1)
			return rawTerm{tc.Or(a.t, b.t), func(m Model) uint64 { return a.f(m) | b.f(m) }}
		}
		w := widths[1+r.Intn(4)]
		a, b := genBV(d-1, w), genBV(d-1, w)
		switch r.Intn(4) {
		case 0:
			return rawTerm{tc.Eq(a.t, b.t), func(m Model) uint64 { return b2u(a.f(m) == b.f(m)) }}
		case 1:
			return rawTerm{tc.Ult(a.t, b.t), func(m Model) uint64 { return b2u(a.f(m) < b.f(m)) }}
		case 2:
			return rawTerm{tc.Slt(a.t, b.t), func(m Model) uint64 { return b2u(sx(a.f(m), w) < sx(b.f(m), w)) }}
		}
		return rawTerm{tc.Sle(a.t, b.t), func(m Model) uint64 { return b2u(sx(a.f(m), w) <= sx(b.f(m), w)) }}
	}
	s := NewSolver(z3, 20*time.Second)
	s.Ints = true
	defer s.Close()
	for i := 0; i < n; i++ {
		var x rawTerm
		if r.Intn(2) == 0 {
			x = genB(4)
		} else {
			x = genBV(4, widths[1+r.Intn(4)])
		}
		var m Model
		for k := 0; k < 6; k++ {
			m = Model{}
			for vi, v := range vars {
				val := r.Uint64()
				switch r.Intn(4) {
				case 0:
					val = uint64(r.Intn(4))
				case 1:
					val = -uint64(r.Intn(4))
				}
				m[vi] = val & mask(v.t.W)
			}
			if got, want := tc.Eval(x.t, m), x.f(m); got != want {
				return i, fmt.Errorf("term %s evaluates to %#x, want %#x under %v", x.t, got, want, m)
			}
		}
		if i%20 == 0 && len(x.t.vars) > 0 {
			var as []*Term
			for vi, v := range vars {
				as = append(as, tc.Eq(v.t, tc.Const(v.t.W, m[vi])))
			}
			e := x.f(m)
			if x.t.W == 0 {
				if e == 1 {
					as = append(as, tc.Not(x.t))
				} else {
					as = append(as, x.t)
				}
			} else {
				as = append(as, tc.Not(tc.Eq(x.t, tc.Const(x.t.W, e))))
			}
			res, _ := s.Check(tc, as, nil)
			if res == Sat {
				return i, fmt.Errorf("solver disagrees on %s", x.t)
			}
		}
	}
	return n, nil
}

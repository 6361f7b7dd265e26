package sym

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// A region is a set of side-effect free blocks behind a branch with at most
// two exits. Both sides are evaluated under guards and joined, so that a
// compound condition costs one decision instead of one per operand.
type region struct {
	from  int
	order []int
	exits []int
}

type specAbort struct{}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract:
		case *ssa.ChangeType:
		case *ssa.BinOp:
			switch in.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				if _, ok := in.Y.(*ssa.Const); !ok {
					return false
				}
			}
			if _, _, ok := scalar(in.X.Type()); !ok {
				return false
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW || in.CommaOk {
				return false
			}
		case *ssa.Convert:
			_, _, a := scalar(in.X.Type())
			_, _, b := scalar(in.Type())
			if !a || !b {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func findRegion(b *ssa.BasicBlock) *region {
	in := map[*ssa.BasicBlock]bool{b: true}
	exits := []*ssa.BasicBlock{b.Succs[0], b.Succs[1]}
	var order []int
	var best *region
	ifs := 0
	for len(order) < 40 {
		var pick *ssa.BasicBlock
	next:
		for _, x := range exits {
			if in[x] || !pureBlock(x) || len(x.Succs) == 0 {
				continue
			}
			if len(x.Succs) == 2 && x.Succs[0] == x.Succs[1] {
				continue
			}
			for _, p := range x.Preds {
				if !in[p] {
					continue next
				}
			}
			pick = x
			break
		}
		if pick == nil {
			break
		}
		in[pick] = true
		order = append(order, pick.Index)
		if len(pick.Succs) == 2 {
			ifs++
		}
		var ne []*ssa.BasicBlock
		add := func(x *ssa.BasicBlock) {
			for _, y := range ne {
				if x == y {
					return
				}
			}
			ne = append(ne, x)
		}
		for _, x := range exits {
			if x != pick {
				add(x)
			}
		}
		for _, x := range pick.Succs {
			add(x)
		}
		exits = ne
		bad := false
		for _, x := range exits {
			if in[x] {
				bad = true // loop: only the head itself may be re-entered
			}
		}
		if bad {
			break
		}
		if len(exits) == 1 || len(exits) == 2 && ifs > 0 {
			best = &region{from: b.Index, order: append([]int(nil), order...)}
			for _, x := range exits {
				best.exits = append(best.exits, x.Index)
			}
		}
	}
	return best
}

type guardedEdge struct {
	pred int
	g    *Term
}

func (ex *Exec) runRegion(fr *Frame, r *region, c *Term) (next int, ok bool) {
	if ex.pcSet[c] || ex.pcSet[ex.ctx.Not(c)] || ex.spec {
		return 0, false
	}
	var exitEdges [][]guardedEdge
	var exitG []*Term
	var vals [][]Value
	aborted := func() (ab bool) {
		ex.spec = true
		defer func() {
			ex.spec = false
			if p := recover(); p != nil {
				if _, is := p.(specAbort); is {
					ab = true
					return
				}
				panic(p)
			}
		}()
		cx := ex.ctx
		edges := map[int][]guardedEdge{}
		b := &fr.fn.blocks[r.from]
		edges[b.t] = append(edges[b.t], guardedEdge{r.from, c})
		edges[b.e] = append(edges[b.e], guardedEdge{r.from, cx.Not(c)})
		steps := int64(0)
		for _, i := range r.order {
			q := &fr.fn.blocks[i]
			g := cx.False
			for _, e := range edges[i] {
				g = cx.Or(g, e.g)
			}
			if g == cx.False {
				continue
			}
			ex.joinPhis(fr, q, edges[i], nil)
			for _, s := range q.steps {
				s(ex, fr)
			}
			steps += int64(len(q.steps)) + 1
			if !q.isIf {
				edges[q.t] = append(edges[q.t], guardedEdge{i, g})
				continue
			}
			v := q.cond.get(ex, fr)
			var ct *Term
			if v.P == nil {
				ct = cx.Bool(v.N != 0)
			} else {
				ct = v.P.(*Term)
			}
			if t := cx.And(g, ct); t != cx.False {
				edges[q.t] = append(edges[q.t], guardedEdge{i, t})
			}
			if t := cx.And(g, cx.Not(ct)); t != cx.False {
				edges[q.e] = append(edges[q.e], guardedEdge{i, t})
			}
		}
		ex.steps += steps
		for _, x := range r.exits {
			g := cx.False
			for _, e := range edges[x] {
				g = cx.Or(g, e.g)
			}
			exitG = append(exitG, g)
			exitEdges = append(exitEdges, edges[x])
			var vs []Value
			if g != cx.False {
				ex.joinPhis(fr, &fr.fn.blocks[x], edges[x], &vs)
			}
			vals = append(vals, vs)
		}
		return false
	}()
	if aborted {
		return 0, false
	}
	k := 0
	if len(r.exits) == 2 && !ex.branch(exitG[0]) {
		k = 1
	}
	x := &fr.fn.blocks[r.exits[k]]
	for i := range x.phis {
		fr.regs[x.phis[i].reg] = vals[k][i]
	}
	fr.phisDone = true
	return r.exits[k], true
}

// joinPhis computes the phis of q over the incoming edges; with out the
// values are returned instead of stored.
func (ex *Exec) joinPhis(fr *Frame, q *block, in []guardedEdge, out *[]Value) {
	if len(q.phis) == 0 {
		return
	}
	vs := make([]Value, len(q.phis))
	for i := range q.phis {
		ph := &q.phis[i]
		for k := len(in) - 1; k >= 0; k-- {
			pi := -1
			for j, p := range q.preds {
				if p == in[k].pred {
					pi = j
					break
				}
			}
			if pi < 0 {
				panic(specAbort{})
			}
			v := ph.ops[pi].get(ex, fr)
			if k == len(in)-1 {
				vs[i] = v
				continue
			}
			vs[i] = ex.joinVal(in[k].g, v, vs[i], ph)
		}
	}
	if out != nil {
		*out = vs
		return
	}
	for i := range q.phis {
		fr.regs[q.phis[i].reg] = vs[i]
	}
}

func (ex *Exec) joinVal(g *Term, a, b Value, ph *phi) Value {
	if sameVal(a, b) {
		return a
	}
	if !ph.merge {
		panic(specAbort{})
	}
	return vTerm(ex.ctx.Ite(g, ex.term(a, ph.w), ex.term(b, ph.w)))
}

func sameVal(a, b Value) (same bool) {
	if a.N != b.N {
		return false
	}
	defer func() {
		if recover() != nil {
			same = false
		}
	}()
	return a.P == b.P
}

// Package c04 checks one-shot parsing, reuse of values and memory sharing.
package c04

import (
	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/gpl"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c04.OneShot", F: OneShot, Quick: gpl.Jobs(10, 7), Full: gpl.Jobs(10, 9), Reach: []string{"accepted", "rejected"}, MaxPaths: 4000})
	vf.Add(vf.Spec{Name: "c04.Reuse", F: Reuse, Quick: gpl.Jobs(4, 2), Full: gpl.Jobs(6, 5), Reach: []string{"accepted", "rejected", "first rejected"}, MaxPaths: 3000})
	vf.Add(vf.Spec{Name: "c04.Lengths", F: Lengths, Quick: gpl.Jobs(3, 2), Full: gpl.Jobs(5, 4), Reach: []string{"accepted", "rejected"}, MaxPaths: 800})
	vf.Add(vf.Spec{Name: "c04.Long", F: Long, Quick: gpl.LongJobs(1, 3), Full: gpl.LongJobs(0, 1, 2, 3), Reach: []string{"accepted"}, MaxPaths: 100, Name1: gpl.LongName})
	vf.Add(vf.Spec{Name: "c04.Wide", F: Wide, Quick: gpl.WideJobs(5), Full: gpl.WideJobs(4, 5, 6), Reach: []string{"accepted"}, Cover: []string{"accepted"}, MaxPaths: 100, MaxSteps: 2e9, Name1: gpl.LongName})
	vf.Add(vf.Spec{Name: "c04.LongReuse", F: LongReuse, Quick: gpl.LongJobs(0, 1), Full: gpl.LongJobs(0, 1, 2, 3), Reach: []string{"accepted", "rejected"}, MaxPaths: 60, Name1: gpl.LongName})
}

// OneShot compares the one-shot function with parsing into a fresh value.
func OneShot(arg int) {
	c, set, n := gpl.Pick(arg)
	oneShot(c, vf.Bytes("d", n), gpl.Context(set, c.Struct, ""))
}

// Long does so with long messages.
func Long(arg int) {
	c, set, size := gpl.PickLong(arg)
	data, ctx := gpl.Message(set, c.Struct, size, "")
	oneShot(c, gpl.Vary(data), ctx)
}

func oneShot(c *glue.Case, data []byte, ctx ref.Ctx) {
	v := c.New()
	_, err := c.Parse(v, data, ctx)
	o, err2 := c.One(data, ctx)
	vf.Observe("err", err2 != nil)
	if err != nil {
		vf.Reach("rejected")
		vf.Assert(err2 != nil, "one-shot parse fails as well")
		vf.Assert(o == nil, "no value with an error")
		vf.Assert(vf.EqStr(err.Error(), err2.Error()), "same error")
		return
	}
	vf.Reach("accepted")
	vf.Assert(err2 == nil, "one-shot parse succeeds as well")
	vf.Assert(o != nil, "a value without an error")
	vf.Assert(gpl.SameNode(vf.Dump(o), vf.Dump(v)), "same value")
	vf.Assert(!vf.Shares(o, v), "no memory shared between parsed values")
	vf.Observe("v", o)
}

// Reuse parses a second message into a value used for a first one.
func Reuse(arg int) {
	c, set, n := gpl.Pick(arg)
	first := vf.Bytes("a", n)
	reuse(c, set, first, gpl.Context(set, c.Struct, "a."), vf.Bytes("d", n), gpl.Context(set, c.Struct, ""))
}

// Lengths does so with a first message that is longer or shorter.
func Lengths(arg int) {
	c, set, n := gpl.Pick(arg)
	k := n + 3
	if vf.Choose("shorter", 2) == 1 {
		k = c.Min + (n-c.Min)/2
		if k >= n || k < 0 {
			vf.Stop()
		}
	}
	first := vf.Bytes("a", k)
	reuse(c, set, first, gpl.Context(set, c.Struct, "a."), vf.Bytes("d", n), gpl.Context(set, c.Struct, ""))
}

// LongReuse does so with a long message and another one before it.
func LongReuse(arg int) {
	c, set, size := gpl.PickLong(arg)
	k := []int{0, 2, 20}[vf.Choose("first", 3)]
	first, ctxA := gpl.Message(set, c.Struct, k, "a.")
	data, ctx := gpl.Message(set, c.Struct, size, "")
	reuse(c, set, first, ctxA, data, ctx)
}

func reuse(c *glue.Case, set *ref.Set, first []byte, ctxA ref.Ctx, data []byte, ctx ref.Ctx) {
	v := c.New()
	_, err := c.Parse(v, first, ctxA)
	var saved any
	var before *vf.Node
	if err != nil {
		vf.Reach("first rejected")
	} else {
		saved = c.Save(v)
		before = vf.Dump(saved)
	}
	rest, err := c.Parse(v, data, ctx)
	if saved != nil {
		vf.Assert(gpl.SameNode(before, vf.Dump(saved)), "values kept from the first message stay as they were")
	}
	fresh := c.New()
	frest, ferr := c.Parse(fresh, data, ctx)
	vf.Observe("err", err != nil)
	if ferr != nil {
		vf.Reach("rejected")
		vf.Assert(err != nil, "reused value: rejected as well")
		vf.Assert(vf.EqStr(err.Error(), ferr.Error()), "reused value: same error")
		vf.Assert(rest == nil, "reused value: no remaining bytes on error")
		return
	}
	vf.Assert(err == nil, "reused value: accepted as well")
	vf.Assert(vf.EqBytes(rest, frest), "reused value: same remaining bytes")
	vf.Assert(!vf.Shares(v, fresh), "no memory shared between parsed values")
	want, _, ok := set.Decode(c.Struct, data, ctx)
	if !ok {
		return // decided by C02
	}
	vf.Reach("accepted")
	vf.Assert(gpl.Same(vf.Dump(v), want, false), "reused value: same fields")
	vf.Observe("rest", len(rest))
}

// Wide does so with very long messages.
func Wide(arg int) { Long(arg) }

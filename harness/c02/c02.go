// Package c02 checks which inputs generated parsers accept.
package c02

import (
	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/gpl"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c02.Accept", F: Accept, Quick: gpl.Jobs(10, 7), Full: gpl.Jobs(10, 9), Reach: []string{"accepted", "rejected"}, MaxPaths: 4000})
	vf.Add(vf.Spec{Name: "c02.Long", F: Long, Quick: gpl.LongJobs(1, 3), Full: gpl.LongJobs(0, 1, 2, 3), Reach: []string{"accepted", "rejected"}, MaxPaths: 200, Name1: gpl.LongName})
	vf.Add(vf.Spec{Name: "c02.Wide", F: Wide, Quick: gpl.WideJobs(5), Full: gpl.WideJobs(4, 5, 6), Reach: []string{"accepted", "rejected"}, Cover: []string{"accepted"}, MaxPaths: 200, MaxSteps: 2e9, Name1: gpl.LongName})
}

// Accept compares acceptance for any bytes of one length.
func Accept(arg int) {
	c, set, n := gpl.Pick(arg)
	accept(c, set, vf.Bytes("d", n), gpl.Context(set, c.Struct, ""))
}

// Long compares acceptance of long messages.
func Long(arg int) {
	c, set, size := gpl.PickLong(arg)
	data, ctx := gpl.Message(set, c.Struct, size, "")
	accept(c, set, gpl.Vary(data), ctx)
}

func accept(c *glue.Case, set *ref.Set, data []byte, ctx ref.Ctx) {
	_, err := c.Parse(c.New(), gpl.Copy(data), ctx)
	_, _, ok := set.Decode(c.Struct, data, ctx)
	if ok {
		vf.Reach("accepted")
	} else {
		vf.Reach("rejected")
	}
	vf.Observe("err", err != nil)
	if ok {
		vf.Assert(err == nil, "conforming input accepted")
	} else {
		vf.Assert(err != nil, "non-conforming input rejected")
	}
}

// Wide does so with very long messages.
func Wide(arg int) { Long(arg) }

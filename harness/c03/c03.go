// Package c03 checks that generated parsers are total.
package c03

import (
	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/gpl"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c03.Total", F: Total, Quick: gpl.Jobs(10, 7), Full: gpl.Jobs(10, 9), Reach: []string{"accepted", "rejected"}, MaxPaths: 4000, Ends: true, MaxSteps: 400000, Alloc: 64 << 20})
	vf.Add(vf.Spec{Name: "c03.Long", F: Long, Quick: gpl.LongJobs(1, 3), Full: gpl.LongJobs(0, 1, 2, 3), Reach: []string{"accepted", "rejected"}, MaxPaths: 200, Name1: gpl.LongName, Ends: true, MaxSteps: 4000000, Alloc: 64 << 20})
	vf.Add(vf.Spec{Name: "c03.Wide", F: Wide, Quick: gpl.WideJobs(5), Full: gpl.WideJobs(4, 5, 6), Reach: []string{"accepted", "rejected"}, Cover: []string{"accepted"}, MaxPaths: 200, Name1: gpl.LongName, Ends: true, MaxSteps: 200e6, Alloc: 64 << 20})
}

// Total parses any bytes of one length.
func Total(arg int) {
	c, set, n := gpl.Pick(arg)
	total(c, vf.Bytes("d", n), gpl.Context(set, c.Struct, ""))
}

// Long parses long messages.
func Long(arg int) {
	c, set, size := gpl.PickLong(arg)
	data, ctx := gpl.Message(set, c.Struct, size, "")
	total(c, gpl.Vary(data), ctx)
}

func total(c *glue.Case, data []byte, ctx ref.Ctx) {
	n := len(data)
	in := gpl.Copy(data)
	rest, err := c.Parse(c.New(), in, ctx)
	vf.Assert(vf.EqBytes(in, data), "input unchanged")
	vf.Assert(gpl.Intact(in), "nothing written behind the input")
	vf.Observe("err", err != nil)
	vf.Observe("rest", rest)
	if err != nil {
		vf.Reach("rejected")
		vf.Assert(rest == nil, "no remaining bytes on error")
		return
	}
	vf.Reach("accepted")
	vf.Assert(len(rest) <= n, "remaining bytes are not more than the input")
	vf.Assert(vf.EqBytes(rest, data[n-len(rest):]), "remaining bytes are a suffix of the input")
	vf.Assert(vf.IsSuffix(rest, in), "remaining bytes are a suffix of the input slice")
}

// Wide does so with very long messages.
func Wide(arg int) { Long(arg) }

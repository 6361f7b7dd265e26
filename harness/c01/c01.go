// Package c01 checks the values generated parsers decode.
package c01

import (
	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/gpl"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c01.Values", F: Values, Quick: gpl.Jobs(10, 7), Full: gpl.Jobs(10, 9), Reach: []string{"accepted"}, MaxPaths: 4000})
	vf.Add(vf.Spec{Name: "c01.Long", F: Long, Quick: gpl.LongJobs(1, 3), Full: gpl.LongJobs(0, 1, 2, 3), Reach: []string{"accepted"}, MaxPaths: 200, Name1: gpl.LongName})
	vf.Add(vf.Spec{Name: "c01.Wide", F: Wide, Quick: gpl.WideJobs(5), Full: gpl.WideJobs(4, 5, 6), Reach: []string{"accepted"}, Cover: []string{"accepted"}, MaxPaths: 200, MaxSteps: 2e9, Name1: gpl.LongName})
}

// Values parses any bytes of one length with one generated parser.
func Values(arg int) {
	c, set, n := gpl.Pick(arg)
	values(c, set, vf.Bytes("d", n), gpl.Context(set, c.Struct, ""))
}

// Long parses long messages.
func Long(arg int) {
	c, set, size := gpl.PickLong(arg)
	data, ctx := gpl.Message(set, c.Struct, size, "")
	values(c, set, gpl.Vary(data), ctx)
}

func values(c *glue.Case, set *ref.Set, data []byte, ctx ref.Ctx) {
	in := gpl.Copy(data)
	v := c.New()
	rest, err := c.Parse(v, in, ctx)
	if err != nil {
		return
	}
	want, used, ok := set.Decode(c.Struct, data, ctx)
	if !ok {
		return // decided by C02
	}
	vf.Reach("accepted")
	vf.Assert(gpl.Same(vf.Dump(v), want, true), "decoded value")
	vf.Assert(len(rest) == len(data)-used, "number of remaining bytes")
	vf.Assert(vf.EqBytes(rest, data[used:]), "remaining bytes")
	vf.Observe("v", v)
	vf.Observe("rest", len(rest))
}

// Wide does so with very long messages.
func Wide(arg int) { Long(arg) }

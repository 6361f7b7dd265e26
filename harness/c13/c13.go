// Package c13 checks that generated vectors are accepted by generated parsers.
package c13

import (
	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/vfw/rnd"
	"github.com/mmcloughlin/trunnel/vfw/tvl"
	"github.com/mmcloughlin/trunnel/vfw/txt"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c13.Vectors", F: Vectors, Quick: targets(), Reach: []string{"accepted"}, MaxPaths: 400, Name1: name})
	vf.Add(vf.Spec{Name: "c13.Unsupported", F: Unsupported, Quick: unsupported(), Reach: []string{"error"}, MaxPaths: 50, Name1: name})
	vf.Add(vf.Spec{Name: "c13.Unresolved", F: Unresolved, Quick: vf.Range(0, len(txt.Bad)-1), Reach: []string{"error"}, MaxPaths: 200})
}

func targets() []int {
	var out []int
	for i, t := range tvl.Targets {
		if t.NotImplemented || t.Known && !known[name(i)] {
			continue
		}
		out = append(out, i)
	}
	return out
}

// known are the structures that stand for the recorded defect.
var known = map[string]bool{"repogentestsunionbasic.basic": true}

func unsupported() []int {
	var out []int
	for i, t := range tvl.Targets {
		if t.NotImplemented {
			out = append(out, i)
		}
	}
	return out
}

func name(i int) string { return tvl.Targets[i].C.Name + "." + tvl.Targets[i].C.Struct }

// Vectors: every vector parses completely.
func Vectors(i int) {
	t := tvl.Targets[i]
	c, err := t.Corpus(6)
	if err != nil {
		vf.Fail("vectors for a supported description")
		return
	}
	vs := c.Vectors(t.C.Struct)
	vf.Observe("n", len(vs))
	for k := range vs {
		ctx, fits := t.Context(&vs[k])
		vf.Assert(fits, "recorded context values fit their fields")
		rest, err := t.C.Parse(t.C.New(), vs[k].Data, ctx)
		vf.Assert(err == nil, "a vector is accepted")
		vf.Assert(len(rest) == 0, "a vector leaves no bytes over")
		vf.Reach("accepted")
	}
}

// Unsupported: an error and no crash.
func Unsupported(i int) {
	_, err := tvl.Targets[i].Corpus(6)
	if err != nil {
		vf.Reach("error")
	}
	vf.Observe("err", err != nil)
}

// Unresolved: descriptions that refer to something missing do not crash it.
func Unresolved(i int) {
	var fs []*ast.File
	for _, s := range []string{"struct fine { u8 a; };", txt.Bad[i]} {
		f, err := parse.String(s)
		if err != nil {
			vf.Stop()
		}
		fs = append(fs, f)
	}
	switch vf.Choose("order", 3) {
	case 1:
		fs[0], fs[1] = fs[1], fs[0]
	case 2:
		fs = fs[1:]
	}
	src := rnd.Any(0)
	src.Width, src.Short, src.Few = 3, true, true
	random.Hook = func(int64, bool) random.Interface { return src }
	c, err := tv.GenerateFiles(fs, tv.WithRandom(src))
	if err != nil {
		vf.Reach("error")
	}
	vf.Assert(c != nil || err != nil, "vectors or an error")
	vf.Observe("err", err != nil)
}

// Package tvl runs test vector generation under a controlled random source.
package tvl

import (
	"github.com/mmcloughlin/random"
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/vfw/glue"
	"github.com/mmcloughlin/trunnel/vfw/ref"
	"github.com/mmcloughlin/trunnel/vfw/refast"
	"github.com/mmcloughlin/trunnel/vfw/rnd"
	"github.com/mmcloughlin/trunnel/vfw/schemas"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

// Target is a structure to generate vectors for.
type Target struct {
	C    *glue.Case
	Set  *ref.Set
	Deps []*ref.Struct // structures it refers to
	// NotImplemented: uses a feature without vectors.
	NotImplemented bool
	// Known: meets a recorded defect of vector generation.
	Known bool
	// Cover: every union case has to be exercised.
	Cover bool
	// Many: arrays have to be kept short.
	Many bool
}

// Targets are the structures of all schemas for which vectors are possible.
var Targets = find()

func find() []*Target {
	var out []*Target
	for i := range glue.Cases {
		c := &glue.Cases[i]
		t := &Target{C: c, Set: schemas.Sets[c.Schema], Cover: true}
		if t.examine() {
			out = append(out, t)
		}
	}
	return out
}

func (t *Target) examine() bool {
	st := t.Set.Struct(t.C.Struct)
	if !t.closure(st, 0) {
		return false
	}
	refs := map[ref.IDRef]int{}
	for _, s := range append([]*ref.Struct{st}, t.Deps...) {
		if s.Extern {
			return false
		}
		local := map[ref.IDRef]int{}
		t.uses(s.Members, local)
		for r, n := range local {
			if r.Scope != "" {
				refs[r] += n
			} else if n > 1 {
				t.Cover = false
			}
		}
		if !t.layout(s.Members, true) {
			return false
		}
		if t.loses(s) {
			t.Known = true
		}
	}
	for _, n := range refs {
		if n > 1 {
			t.Cover = false
		}
	}
	return t.size(st.Members, 0) <= 64
}

// closure collects the structures st refers to; false if there is a cycle or a
// missing one.
func (t *Target) closure(st *ref.Struct, depth int) bool {
	if st == nil || depth > 6 {
		return false
	}
	ok := true
	each(st.Members, func(m *ref.Member) {
		if m.Kind == ref.KArray && m.LK == ref.LLeftover || m.Kind == ref.KUnion && m.LK == ref.LLeftover {
			t.NotImplemented = true
		}
		if !isRef(m) {
			return
		}
		d := t.Set.Struct(m.Ref)
		if !t.closure(d, depth+1) {
			ok = false
			return
		}
		for _, e := range t.Deps {
			if e == d {
				return
			}
		}
		t.Deps = append(t.Deps, d)
	})
	return ok
}

func isRef(m *ref.Member) bool {
	return m.Kind == ref.KStruct || m.Kind == ref.KArray && m.Base == ref.KStruct
}

// each visits members, also those of union cases.
func each(ms []ref.Member, f func(m *ref.Member)) {
	for i := range ms {
		f(&ms[i])
		for k := range ms[i].Cases {
			each(ms[i].Cases[k].Members, f)
		}
	}
}

// uses counts references to fields.
func (t *Target) uses(ms []ref.Member, out map[ref.IDRef]int) {
	each(ms, func(m *ref.Member) {
		if m.LK == ref.LRef {
			out[m.LRef]++
		}
		if m.Kind == ref.KUnion {
			out[m.Tag]++
			if m.LK == ref.LRef && t.limited(ms, m.LRef) {
				t.Cover = false
			}
		}
	})
}

// limited reports whether a field only takes listed values.
func (t *Target) limited(ms []ref.Member, r ref.IDRef) bool {
	if r.Scope != "" {
		return false
	}
	lim := false
	each(ms, func(m *ref.Member) {
		if m.Kind == ref.KInt && m.Name == r.Name && m.HasI {
			lim = true
		}
	})
	return lim
}

// greedy reports whether a member takes all bytes that are left, or insists
// that there are none.
func (t *Target) greedy(m *ref.Member) bool {
	switch m.Kind {
	case ref.KEOS, ref.KIgnore:
		return true
	case ref.KArray:
		return m.LK == ref.LNone
	case ref.KStruct:
		return t.greedyAll(t.Set.Struct(m.Ref).Members)
	case ref.KUnion:
		if m.LK != ref.LNone {
			return false
		}
		for i := range m.Cases {
			if t.greedyAll(m.Cases[i].Members) {
				return true
			}
		}
	}
	return false
}

func (t *Target) greedyAll(ms []ref.Member) bool {
	for i := range ms {
		if t.greedy(&ms[i]) {
			return true
		}
	}
	return false
}

// layout reports whether greedy members come last.
func (t *Target) layout(ms []ref.Member, last bool) bool {
	for i := range ms {
		m := &ms[i]
		end := last && i == len(ms)-1
		if m.Kind == ref.KArray && m.Base == ref.KStruct {
			d := t.Set.Struct(m.Ref)
			if t.greedyAll(d.Members) || m.LK == ref.LNone && t.Set.MinSize(m.Ref) == 0 {
				return false
			}
		}
		if t.greedy(m) && !end {
			return false
		}
		for k := range m.Cases {
			if !t.layout(m.Cases[k].Members, end || m.LK != ref.LNone) {
				return false
			}
		}
	}
	return true
}

// loses reports whether a nested structure lies between a field and a use of
// it: the value chosen for the field is then forgotten.
func (t *Target) loses(s *ref.Struct) bool {
	pos := map[string]int{}
	for i, m := range s.Members {
		if m.Kind == ref.KInt {
			pos[m.Name] = i
		}
	}
	for q := range s.Members {
		nested := false
		each(s.Members[q:q+1], func(m *ref.Member) { nested = nested || m.Kind == ref.KStruct })
		if !nested {
			continue
		}
		bad := false
		used := func(r ref.IDRef) {
			if p, ok := pos[r.Name]; r.Scope == "" && (!ok || p < q) {
				bad = true
			}
		}
		each(s.Members[q:], func(m *ref.Member) {
			if m.LK == ref.LRef {
				used(m.LRef)
			}
			if m.Kind == ref.KUnion {
				used(m.Tag)
			}
		})
		if bad {
			return true
		}
	}
	return false
}

// size estimates the number of vectors with arrays of two elements.
func (t *Target) size(ms []ref.Member, depth int) int {
	n := 1
	for i := range ms {
		m := &ms[i]
		k := 1
		switch {
		case m.Kind == ref.KUnion:
			k = 0
			for j := range m.Cases {
				k += t.size(m.Cases[j].Members, depth)
			}
			if k == 0 {
				k = 1
			}
		case m.Kind == ref.KIgnore:
			k = 2
		case isRef(m):
			e := t.size(t.Set.Struct(m.Ref).Members, depth+1)
			k = e
			if m.Kind == ref.KArray && e > 1 {
				t.Many = true
				c := 2
				if m.LK == ref.LFixed {
					c = int(t.Set.Num(m.Len))
				}
				for j := 1; j < c && k < 1000; j++ {
					k *= e
				}
			}
		case m.Kind == ref.KArray && m.LK == ref.LFixed && t.Set.Num(m.Len) > 300:
			k = 1000
		}
		n *= k
		if n > 1000 {
			n = 1000
		}
	}
	return n
}

// Files is a description with the target first. Behind it comes a structure
// that does nothing, by which the source sees that the target is done.
func (t *Target) Files() []*ast.File {
	one, two := &ast.File{}, &ast.File{}
	out := []*ast.File{one, two}
	for _, f := range t.Set.Files {
		out = append(out, refast.File(&ref.File{Consts: f.Consts, Ctxs: f.Ctxs}))
	}
	stop := &ast.Struct{Name: "vf_stop"}
	for i := 0; i < marks; i++ {
		stop.Members = append(stop.Members, &ast.Field{Name: "p", Type: &ast.Ptr{}})
	}
	one.Structs = []*ast.Struct{refast.Struct(t.Set.Struct(t.C.Struct)), stop}
	for _, d := range t.Deps {
		if d.Name != t.C.Struct {
			two.Structs = append(two.Structs, refast.Struct(d))
		}
	}
	return out
}

const marks = 6

// windows is the number of groups of draws to look at.
func (t *Target) windows(width int) int {
	n := 0
	for _, s := range append([]*ref.Struct{t.Set.Struct(t.C.Struct)}, t.Deps...) {
		each(s.Members, func(m *ref.Member) {
			n += 2 * len(m.Cases)
			if m.HasI {
				n++
			}
		})
	}
	n = 1 + n/width
	if n > 4 {
		n = 4
	}
	return n
}

// Corpus generates vectors for the target. Draws from sets are arbitrary within
// a window of the given width, payload bytes everywhere. Length choices are among the
// smallest and the largest; after the target the source is fixed.
func (t *Target) Corpus(width int) (*tv.Corpus, error) {
	src := t.Source(width)
	return t.Run(src, src.Fix)
}

// Source is the source for Corpus.
func (t *Target) Source(width int) *rnd.Source {
	src := rnd.Any(0)
	src.Width = width
	src.From = vf.Choose("window", t.windows(width)) * width
	src.Short = true
	src.Few = t.Many
	return src
}

// Run generates vectors for the target with a source and calls done after it.
func (t *Target) Run(src random.Interface, done func()) (*tv.Corpus, error) {
	random.Hook = func(int64, bool) random.Interface { return src }
	run := 0
	sel := tv.SelectorFunc(func(vs []tv.Vector) []tv.Vector {
		if len(vs) == 1 && len(vs[0].Data) == 0 {
			run++
			if run >= marks {
				done()
			}
		} else {
			run = 0
		}
		return tv.Exhaustive.SelectVectors(vs)
	})
	return tv.GenerateFiles(t.Files(), tv.WithRandom(src), tv.WithSelector(sel))
}

// Context builds the context values recorded with a vector; others are zero.
func (t *Target) Context(v *tv.Vector) (ref.Ctx, bool) {
	ctx := ref.Ctx{}
	fits := true
	for _, n := range t.Set.Struct(t.C.Struct).Ctxs {
		ctx[n] = map[string]uint64{}
		for _, m := range t.Set.Context(n).Fields {
			x, _ := v.Constraints.Lookup(n, m.Name)
			if m.Bits < 64 && uint64(x) >= 1<<uint(m.Bits) {
				fits = false
			}
			ctx[n][m.Name] = uint64(x)
		}
	}
	return ctx, fits
}

// Bounded reports whether vectors can be generated for all structures of a
// schema, or are known not to be supported.
func Bounded(schema int) bool {
	n, size := 0, 0
	for _, t := range Targets {
		if t.C.Schema == schema {
			if t.Many {
				return false
			}
			size += t.size(t.Set.Struct(t.C.Struct).Members, 0)
			n++
		}
	}
	for _, f := range schemas.Sets[schema].Files {
		for _, s := range f.Structs {
			if s.Extern {
				return false
			}
			n--
		}
	}
	return n == 0 && size <= 100
}

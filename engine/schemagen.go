package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// randomSchemas makes up well-formed descriptions.
func randomSchemas(seed int64, n int) []*Schema {
	var out []*Schema
	for i := 0; i < n; i++ {
		g := &schemaGen{r: rand.New(rand.NewSource(seed*1000003 + int64(i)))}
		out = append(out, &Schema{Name: fmt.Sprintf("rnd%d", i), Files: g.files(), random: true})
	}
	return out
}

type rndField struct {
	name string
	bits int
}

type rndStruct struct {
	name  string
	ctxs  []string
	open  bool // may take everything that is left
	empty bool // may take no bytes
}

type schemaGen struct {
	r       *rand.Rand
	consts  []rndField // bits holds the value
	ctxs    map[string][]rndField
	ctxList []string
	structs []rndStruct
	n       int
}

func (g *schemaGen) p(pc int) bool { return g.r.Intn(100) < pc }

func (g *schemaGen) fresh(pre string) string {
	g.n++
	switch g.r.Intn(5) {
	case 0:
		return fmt.Sprintf("%s_%d", pre, g.n)
	case 1:
		return fmt.Sprintf("%s%d_x", strings.ToUpper(pre), g.n)
	}
	return fmt.Sprintf("%s%d", pre, g.n)
}

func (g *schemaGen) files() []string {
	var sb strings.Builder
	for i := g.r.Intn(4); i > 0; i-- {
		v := g.r.Intn(6)
		n := strings.ToUpper(g.fresh("K"))
		g.consts = append(g.consts, rndField{n, v})
		fmt.Fprintf(&sb, "const %s = %s;\n", n, g.lit(uint64(v)))
	}
	g.ctxs = map[string][]rndField{}
	for i := g.r.Intn(3); i > 0; i-- {
		n := g.fresh("ctx")
		fmt.Fprintf(&sb, "context %s {", n)
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			f := rndField{g.fresh("c"), g.bits()}
			g.ctxs[n] = append(g.ctxs[n], f)
			fmt.Fprintf(&sb, " u%d %s;", f.bits, f.name)
		}
		sb.WriteString(" }\n")
		g.ctxList = append(g.ctxList, n)
	}
	var text []string
	for i := 3 + g.r.Intn(2); i > 0; i-- {
		text = append(text, g.strct())
	}
	if g.p(40) {
		g.r.Shuffle(len(text), func(i, j int) { text[i], text[j] = text[j], text[i] })
	}
	if g.p(30) {
		k := g.r.Intn(len(text) + 1)
		return []string{sb.String() + strings.Join(text[:k], ""), strings.Join(text[k:], "")}
	}
	return []string{sb.String() + strings.Join(text, "")}
}

func (g *schemaGen) bits() int {
	return []int{8, 8, 8, 8, 16, 16, 32, 64}[g.r.Intn(8)]
}

// lit writes a number in some base.
func (g *schemaGen) lit(v uint64) string {
	switch g.r.Intn(5) {
	case 0:
		return fmt.Sprintf("0x%x", v)
	case 1:
		return fmt.Sprintf("0x%X", v)
	case 2:
		return fmt.Sprintf("0%o", v)
	}
	return fmt.Sprint(v)
}

// num writes a small number, sometimes as a constant.
func (g *schemaGen) num(max int) string {
	if len(g.consts) > 0 && g.p(30) {
		c := g.consts[g.r.Intn(len(g.consts))]
		if c.bits <= max {
			return c.name
		}
	}
	return g.lit(uint64(g.r.Intn(max + 1)))
}

// list makes k disjoint lists of ranges of integers of a width.
func (g *schemaGen) lists(k, bits int) []string {
	max := uint64(1)<<uint(bits) - 1
	if bits == 64 {
		max = 1<<63 - 1
	}
	var cut []uint64
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if v <= max && !seen[v] {
			seen[v] = true
			cut = append(cut, v)
		}
	}
	for len(cut) < 2*k+3 {
		switch g.r.Intn(6) {
		case 0:
			add(0)
			add(1)
		case 1:
			add(max)
			add(max - 1)
		case 2:
			add(max/2 + uint64(g.r.Intn(3)))
		case 3:
			add(uint64(g.r.Intn(260)))
		default:
			add(uint64(g.r.Intn(12)))
		}
	}
	sort.Slice(cut, func(i, j int) bool { return cut[i] < cut[j] })
	out := make([][]string, k)
	for i := 0; i < len(cut); i++ {
		c := g.r.Intn(k + 1)
		if c == k && len(out[0]) > 0 {
			continue
		}
		if c == k {
			c = 0
		}
		if i+1 < len(cut) && g.p(40) {
			out[c] = append(out[c], g.lit(cut[i])+[]string{"..", " .. "}[g.r.Intn(2)]+g.lit(cut[i+1]))
			i++
		} else {
			out[c] = append(out[c], g.lit(cut[i]))
		}
	}
	var r []string
	for _, l := range out {
		g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		if len(l) > 0 {
			r = append(r, strings.Join(l, ", "))
		}
	}
	return r
}

type scope struct {
	ints  []rndField // integers that may be referred to
	ctxs  []string
	open  bool
	limit bool // inside a length limit
	empty bool
}

func (g *schemaGen) strct() string {
	sc := &scope{empty: true}
	for _, c := range g.ctxList {
		if g.p(45) {
			sc.ctxs = append(sc.ctxs, c)
		}
	}
	g.r.Shuffle(len(sc.ctxs), func(i, j int) { sc.ctxs[i], sc.ctxs[j] = sc.ctxs[j], sc.ctxs[i] })
	n := g.fresh("s")
	var sb strings.Builder
	fmt.Fprintf(&sb, "struct %s", n)
	if len(sc.ctxs) > 0 {
		fmt.Fprintf(&sb, " with context %s", strings.Join(sc.ctxs, ", "))
	}
	sb.WriteString(" {")
	for i := 1 + g.r.Intn(5); i > 0; i-- {
		sb.WriteString(" " + g.member(sc, true))
	}
	if g.p(25) {
		sb.WriteString(" " + g.remainder(sc))
	} else if g.p(15) {
		sb.WriteString(" eos;")
	}
	sb.WriteString(" }\n")
	g.structs = append(g.structs, rndStruct{n, sc.ctxs, sc.open, sc.empty})
	return sb.String()
}

// ref picks an integer to refer to, preferably a narrow one.
func (g *schemaGen) ref(sc *scope, max int) (string, int) {
	var c []string
	var b []int
	for _, f := range sc.ints {
		if f.bits <= max {
			c, b = append(c, f.name), append(b, f.bits)
		}
	}
	for _, x := range sc.ctxs {
		for _, f := range g.ctxs[x] {
			if f.bits <= max {
				c, b = append(c, x+"."+f.name), append(b, f.bits)
			}
		}
	}
	if len(c) == 0 {
		return "", 0
	}
	i := g.r.Intn(len(c))
	return c[i], b[i]
}

// nested picks a structure usable here.
func (g *schemaGen) nested(sc *scope, array bool) string {
	var c []rndStruct
	for _, s := range g.structs {
		ok := true
		for _, x := range s.ctxs {
			has := false
			for _, y := range sc.ctxs {
				has = has || x == y
			}
			ok = ok && has
		}
		if array && s.empty {
			ok = false
		}
		if ok {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return ""
	}
	s := c[g.r.Intn(len(c))]
	sc.open = sc.open || s.open
	if !s.empty {
		sc.empty = false
	}
	return s.name
}

func (g *schemaGen) member(sc *scope, top bool) string {
	switch k := g.r.Intn(20); {
	case k < 6:
		b := g.bits()
		n := g.fresh("f")
		s := fmt.Sprintf("u%d %s", b, n)
		if g.p(30) {
			s += " IN [" + g.lists(1, b)[0] + "]"
		}
		if top {
			sc.ints = append(sc.ints, rndField{n, b})
		}
		sc.empty = false
		return s + ";"
	case k == 6:
		sc.empty = false
		return "nulterm " + g.fresh("t") + ";"
	case k == 7 && top:
		return "@ptr " + g.fresh("p") + ";"
	case k == 8:
		if s := g.nested(sc, false); s != "" {
			return fmt.Sprintf("struct %s %s;", s, g.fresh("n"))
		}
	case k < 14:
		return g.array(sc)
	case k < 19 && top:
		if s := g.union(sc); s != "" {
			return s
		}
	}
	sc.empty = false
	return "u8 " + g.fresh("b") + ";"
}

// remainder is an array of everything that is left.
func (g *schemaGen) remainder(sc *scope) string {
	base := []string{"u8", "u8", "u16", "u32", "u64", "char"}[g.r.Intn(6)]
	tmp := *sc
	if g.p(40) {
		if s := g.nested(&tmp, true); s != "" {
			base = "struct " + s
		}
	}
	sc.open = true
	return fmt.Sprintf("%s %s[];", base, g.fresh("r"))
}

func (g *schemaGen) array(sc *scope) string {
	base := []string{"u8", "u8", "u16", "u32", "u64", "char"}[g.r.Intn(6)]
	n := g.fresh("a")
	before := *sc
	if g.p(30) {
		if s := g.nested(sc, true); s != "" {
			base = "struct " + s
		}
	}
	*sc = scope{ints: sc.ints, ctxs: sc.ctxs, open: sc.open, limit: sc.limit, empty: before.empty}
	switch g.r.Intn(5) {
	case 0, 1:
		if r, _ := g.ref(sc, 64); r != "" {
			return fmt.Sprintf("%s %s[%s];", base, n, r)
		}
	case 2, 3:
		return fmt.Sprintf("%s %s[..-%s];", base, n, g.num(5))
	}
	if base == "struct" || strings.HasPrefix(base, "struct") {
		return fmt.Sprintf("%s %s[%d];", base, n, 1+g.r.Intn(2))
	}
	return fmt.Sprintf("%s %s[%s];", base, n, g.num(5))
}

func (g *schemaGen) union(sc *scope) string {
	tag, bits := g.ref(sc, 64)
	if tag == "" {
		return ""
	}
	s := fmt.Sprintf("union %s[%s]", g.fresh("u"), tag)
	limit := false
	if g.p(45) {
		if r, _ := g.ref(sc, 64); r != "" && g.p(70) {
			s += " with length " + r
		} else {
			s += " with length ..-" + g.num(4)
		}
		limit = true
	}
	s += " {"
	lists := g.lists(1+g.r.Intn(3), bits)
	def := g.r.Intn(3)
	if def == 0 {
		lists = append(lists, "")
		i := g.r.Intn(len(lists))
		lists[i], lists[len(lists)-1] = lists[len(lists)-1], lists[i]
	} else if def == 1 {
		lists = append(lists, "")
	}
	for _, l := range lists {
		if l == "" {
			s += " default:"
		} else {
			s += " " + l + ":"
		}
		switch g.r.Intn(6) {
		case 0:
			s += " ;"
		case 1:
			if l == "" || g.p(30) {
				s += " fail;"
				continue
			}
			fallthrough
		default:
			in := &scope{ints: append([]rndField(nil), sc.ints...), ctxs: sc.ctxs, limit: limit, empty: true}
			for k := 1 + g.r.Intn(2); k > 0; k-- {
				s += " " + g.member(in, false)
			}
			if g.p(20) {
				s += " ...;"
			} else if g.p(25) {
				s += " " + g.remainder(in)
			}
		case 2:
			if limit {
				s += " ignore;"
			} else {
				s += " ;"
			}
		}
	}
	return s + " };"
}

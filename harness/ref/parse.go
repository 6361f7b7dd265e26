package ref

import "github.com/mmcloughlin/trunnel/vfw/vf"

// p is a backtracking recursive descent parser. Alternatives are tried in
// order; a failed attempt restores the position and the list of inline
// structures.
type p struct {
	s      []byte
	i      int
	inl    []*Struct
	badNum bool // a literal that does not denote a 63-bit number was read

	far int   // the furthest place reached
	bad []int // where literals that denote no number start
}

func (q *p) seen() {
	if q.i > q.far {
		q.far = q.i
	}
}

// Places tells how far into a text the description can be read, and where
// literals that denote no number start. The text need not be valid UTF-8.
func Places(src []byte) (far int, bad []int) {
	q := &p{s: src}
	q.file()
	return q.far, q.bad
}

// Parse reads a description; ok is false if it is not a sentence of the
// language.
func Parse(src []byte) (f *File, ok bool) {
	if !ValidUTF8(src) {
		return nil, false
	}
	return (&p{s: src}).file()
}

func (q *p) file() (f *File, ok bool) {
	f = &File{}
	q.opt()
	var structs []*Struct
	for {
		save, inl := q.i, q.inl
		q.opt()
		if q.constant(f) || q.context(f) || q.pragma(f) {
		} else if s := q.topStruct(); s != nil {
			structs = append(structs, s)
		} else {
			q.i, q.inl = save, inl
			break
		}
		q.opt()
	}
	q.opt()
	if q.i != len(q.s) || q.badNum {
		return nil, false
	}
	f.Structs = append(structs, q.inl...)
	return f, true
}

// ValidUTF8 reports whether s is well-formed.
func ValidUTF8(s []byte) bool {
	i := 0
	cont := func(k int, lo, hi byte) bool {
		return k < len(s) && vf.And(s[k] >= lo, s[k] <= hi)
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c < 0x80:
			i++
		case c < 0xc2:
			return false
		case c < 0xe0:
			if !cont(i+1, 0x80, 0xbf) {
				return false
			}
			i += 2
		case c < 0xf0:
			lo, hi := byte(0x80), byte(0xbf)
			if c == 0xe0 {
				lo = 0xa0
			} else if c == 0xed {
				hi = 0x9f
			}
			if !cont(i+1, lo, hi) || !cont(i+2, 0x80, 0xbf) {
				return false
			}
			i += 3
		case c < 0xf5:
			lo, hi := byte(0x80), byte(0xbf)
			if c == 0xf0 {
				lo = 0x90
			} else if c == 0xf4 {
				hi = 0x8f
			}
			if !cont(i+1, lo, hi) || !cont(i+2, 0x80, 0xbf) || !cont(i+3, 0x80, 0xbf) {
				return false
			}
			i += 4
		default:
			return false
		}
	}
	return true
}

// ---- tokens ----

func (q *p) at(c byte) bool { return q.i < len(q.s) && q.s[q.i] == c }

func (q *p) ch(c byte) bool {
	if q.at(c) {
		q.i++
		q.seen()
		return true
	}
	return false
}

func (q *p) lit(t string) bool {
	if len(q.s)-q.i < len(t) {
		return false
	}
	same := true
	for k := 0; k < len(t); k++ {
		same = vf.And(same, q.s[q.i+k] == t[k])
	}
	if same {
		q.i += len(t)
		q.seen()
		return true
	}
	return false
}

// skip reads one blank, line end or comment.
func (q *p) skip() bool {
	if q.i >= len(q.s) {
		return false
	}
	c := q.s[q.i]
	if vf.Or(vf.Or(c == ' ', c == '\t'), vf.Or(c == '\r', c == '\n')) {
		q.i++
		q.seen()
		return true
	}
	if q.lit("/*") {
		start := q.i - 2
		for q.i < len(q.s) {
			if q.lit("*/") {
				return true
			}
			q.i++
			q.seen()
		}
		q.i = start
		return false
	}
	if q.lit("//") {
		for q.i < len(q.s) && q.s[q.i] != '\n' {
			q.i++
		}
		q.seen()
		return true
	}
	return false
}

func (q *p) opt() {
	for q.skip() {
	}
}

func (q *p) must() bool {
	if !q.skip() {
		return false
	}
	q.opt()
	return true
}

func isLower(c byte) bool { return vf.And(c >= 'a', c <= 'z') }
func isUpper(c byte) bool { return vf.And(c >= 'A', c <= 'Z') }
func isDigit(c byte) bool { return vf.And(c >= '0', c <= '9') }

func (q *p) word(lower bool) (string, bool) {
	start := q.i
	for q.i < len(q.s) {
		c := q.s[q.i]
		ok := vf.Or(isUpper(c), c == '_')
		if lower {
			ok = vf.Or(ok, isLower(c))
		}
		if q.i > start {
			ok = vf.Or(ok, isDigit(c))
		}
		if !ok {
			break
		}
		q.i++
	}
	if q.i == start {
		return "", false
	}
	q.seen()
	return string(q.s[start:q.i]), true
}

func (q *p) ident() (string, bool)   { return q.word(true) }
func (q *p) constID() (string, bool) { return q.word(false) }

// number reads a literal.
func (q *p) number() (uint64, bool) {
	start := q.i
	v, ok, bad := q.digits()
	if bad {
		q.badNum = true
		q.bad = append(q.bad, start)
	}
	q.seen()
	return v, ok
}

func (q *p) digits() (v uint64, ok, bad bool) {
	if q.i >= len(q.s) || !isDigit(q.s[q.i]) {
		return 0, false, false
	}
	if q.i+2 < len(q.s) && q.s[q.i] == '0' && q.s[q.i+1] == 'x' && isHex(q.s[q.i+2]) {
		q.i += 2
		v, over := uint64(0), false
		for q.i < len(q.s) && isHex(q.s[q.i]) {
			c := q.s[q.i]
			over = vf.Or(over, v>>59 != 0)
			v = v<<4 | uint64(hexVal(c))
			q.i++
		}
		return v, true, over
	}
	if q.i+1 < len(q.s) && q.s[q.i] == '0' && vf.And(q.s[q.i+1] >= '0', q.s[q.i+1] <= '7') {
		v, over := uint64(0), false
		for q.i < len(q.s) && vf.And(q.s[q.i] >= '0', q.s[q.i] <= '7') {
			over = vf.Or(over, v>>60 != 0)
			v = v<<3 | uint64(q.s[q.i]-'0')
			q.i++
		}
		return v, true, over
	}
	start := q.i
	for q.i < len(q.s) && isDigit(q.s[q.i]) {
		q.i++
	}
	d := q.s[start:q.i]
	if len(d) > 1 && d[0] == '0' {
		return 0, true, true // octal with a digit 8 or 9
	}
	v, over := uint64(0), false
	for k, c := range d {
		x := uint64(c - '0')
		if k >= 18 {
			// 19 digits and more may exceed 2^63-1
			over = vf.Or(over, v > 922337203685477580)
			over = vf.Or(over, vf.And(v == 922337203685477580, x > 7))
		}
		v = v*10 + x
	}
	return v, true, over
}

func isHex(c byte) bool {
	return vf.Or(isDigit(c), vf.Or(vf.And(c >= 'a', c <= 'f'), vf.And(c >= 'A', c <= 'F')))
}

func hexVal(c byte) byte {
	return byte(vf.IteU64(c <= '9', uint64(c-'0'), uint64((c|0x20)-'a'+10)))
}

func (q *p) num() (Num, bool) {
	if n, ok := q.constID(); ok {
		return Num{IsName: true, Name: n}, true
	}
	if v, ok := q.number(); ok {
		return Num{Val: v}, true
	}
	return Num{}, false
}

func (q *p) rng() (Range, bool) {
	lo, ok := q.num()
	if !ok {
		return Range{}, false
	}
	save := q.i
	q.opt()
	if q.lit("..") {
		q.opt()
		if hi, ok := q.num(); ok {
			return Range{Lo: lo, Hi: hi}, true
		}
	}
	q.i = save
	return Range{Single: true, Lo: lo}, true
}

func (q *p) list() ([]Range, bool) {
	r, ok := q.rng()
	if !ok {
		return nil, false
	}
	out := []Range{r}
	for {
		save := q.i
		q.opt()
		if q.ch(',') {
			q.opt()
			if r, ok := q.rng(); ok {
				out = append(out, r)
				continue
			}
		}
		q.i = save
		return out, true
	}
}

func (q *p) idref() (IDRef, bool) {
	a, ok := q.ident()
	if !ok {
		return IDRef{}, false
	}
	save := q.i
	if q.ch('.') {
		if b, ok := q.ident(); ok {
			return IDRef{Scope: a, Name: b}, true
		}
	}
	q.i = save
	return IDRef{Name: a}, true
}

func (q *p) idlist() ([]string, bool) {
	a, ok := q.ident()
	if !ok {
		return nil, false
	}
	out := []string{a}
	for {
		save := q.i
		q.opt()
		if q.ch(',') {
			q.opt()
			if b, ok := q.ident(); ok {
				out = append(out, b)
				continue
			}
		}
		q.i = save
		return out, true
	}
}

// try runs one alternative.
func (q *p) try(f func() bool) bool {
	save, inl := q.i, q.inl
	if f() {
		return true
	}
	q.i, q.inl = save, inl
	return false
}

// ---- declarations ----

func (q *p) constant(f *File) bool {
	return q.try(func() bool {
		if !q.lit("const") || !q.must() {
			return false
		}
		n, ok := q.constID()
		if !ok {
			return false
		}
		q.opt()
		if !q.ch('=') {
			return false
		}
		q.opt()
		v, ok := q.number()
		if !ok {
			return false
		}
		q.opt()
		if !q.ch(';') {
			return false
		}
		f.Consts = append(f.Consts, Const{n, v})
		return true
	})
}

func (q *p) context(f *File) bool {
	return q.try(func() bool {
		if !q.lit("context") || !q.must() {
			return false
		}
		n, ok := q.ident()
		if !ok || !q.must() || !q.ch('{') {
			return false
		}
		c := Context{Name: n}
		for q.try(func() bool {
			q.opt()
			b, ok := q.intType()
			if !ok || !q.must() {
				return false
			}
			m, ok := q.ident()
			if !ok {
				return false
			}
			q.opt()
			if !q.ch(';') {
				return false
			}
			c.Fields = append(c.Fields, Member{Kind: KInt, Bits: b, Name: m})
			return true
		}) {
		}
		q.opt()
		if !q.ch('}') {
			return false
		}
		q.semi()
		f.Ctxs = append(f.Ctxs, c)
		return true
	})
}

// semi reads an optional semicolon.
func (q *p) semi() {
	save := q.i
	q.opt()
	if !q.ch(';') {
		q.i = save
	}
}

func (q *p) pragma(f *File) bool {
	return q.try(func() bool {
		if !q.lit("trunnel") || !q.must() {
			return false
		}
		n, ok := q.ident()
		if !ok || !q.must() {
			return false
		}
		l, ok := q.idlist()
		if !ok {
			return false
		}
		q.opt()
		if !q.ch(';') {
			return false
		}
		f.Pragmas = append(f.Pragmas, Pragma{n, l})
		return true
	})
}

func (q *p) topStruct() (s *Struct) {
	if q.try(func() bool { s = q.structDecl(); return s != nil }) {
		q.semi()
		return s
	}
	q.try(func() bool {
		if !q.lit("extern") || !q.must() {
			return false
		}
		n, ok := q.structID()
		if !ok {
			return false
		}
		ctxs := q.ctxRefs()
		q.opt()
		if !q.ch(';') {
			return false
		}
		s = &Struct{Name: n, Ctxs: ctxs, Extern: true}
		return true
	})
	return s
}

func (q *p) structID() (string, bool) {
	if !q.lit("struct") || !q.must() {
		return "", false
	}
	return q.ident()
}

func (q *p) ctxRefs() (out []string) {
	q.try(func() bool {
		if !q.must() || !q.lit("with") || !q.must() || !q.lit("context") || !q.must() {
			return false
		}
		l, ok := q.idlist()
		out = l
		return ok
	})
	return out
}

func (q *p) structDecl() *Struct {
	n, ok := q.structID()
	if !ok {
		return nil
	}
	s := &Struct{Name: n}
	s.Ctxs = q.ctxRefs()
	q.opt()
	if !q.ch('{') {
		return nil
	}
	for {
		m, ok := q.member(true)
		if !ok {
			break
		}
		s.Members = append(s.Members, m)
	}
	q.opt()
	var end Member
	if q.try(func() bool {
		q.opt()
		m, ok := q.remainder()
		if !ok {
			if !q.lit("eos") {
				return false
			}
			m = Member{Kind: KEOS}
		}
		q.opt()
		end = m
		return q.ch(';')
	}) {
		s.Members = append(s.Members, end)
	}
	q.opt()
	if !q.ch('}') {
		return nil
	}
	return s
}

// member reads a member with its semicolon.
func (q *p) member(top bool) (m Member, ok bool) {
	ok = q.try(func() bool {
		q.opt()
		if !q.try(func() bool { var ok bool; m, ok = q.array(); return ok }) &&
			!q.try(func() bool { var ok bool; m, ok = q.integer(); return ok }) &&
			!(top && q.try(func() bool { var ok bool; m, ok = q.named("@ptr", KPtr); return ok })) &&
			!q.try(func() bool { var ok bool; m, ok = q.named("nulterm", KStr); return ok }) &&
			!q.try(func() bool { var ok bool; m, ok = q.structMember(); return ok }) &&
			!(top && q.try(func() bool { var ok bool; m, ok = q.union(); return ok })) {
			return false
		}
		q.opt()
		return q.ch(';')
	})
	return m, ok
}

func (q *p) named(kw string, k Kind) (Member, bool) {
	if !q.lit(kw) || !q.must() {
		return Member{}, false
	}
	n, ok := q.ident()
	return Member{Kind: k, Name: n}, ok
}

func (q *p) intType() (int, bool) {
	switch {
	case q.lit("u8"):
		return 8, true
	case q.lit("u16"):
		return 16, true
	case q.lit("u32"):
		return 32, true
	case q.lit("u64"):
		return 64, true
	}
	return 0, false
}

func (q *p) integer() (Member, bool) {
	b, ok := q.intType()
	if !ok {
		return Member{}, false
	}
	q.opt()
	n, ok := q.ident()
	if !ok {
		return Member{}, false
	}
	m := Member{Kind: KInt, Bits: b, Name: n}
	q.opt()
	q.try(func() bool {
		if !q.lit("IN") || !q.must() || !q.ch('[') {
			return false
		}
		q.opt()
		l, ok := q.list()
		if !ok {
			return false
		}
		q.opt()
		if !q.ch(']') {
			return false
		}
		m.HasI, m.In = true, l
		return true
	})
	return m, true
}

// structRef reads an inline structure or a reference.
func (q *p) structRef() (string, bool) {
	var s *Struct
	if q.try(func() bool { s = q.structDecl(); return s != nil }) {
		q.inl = append(q.inl[:len(q.inl):len(q.inl)], s)
		return s.Name, true
	}
	var n string
	ok := q.try(func() bool { var ok bool; n, ok = q.structID(); return ok })
	return n, ok
}

func (q *p) structMember() (Member, bool) {
	r, ok := q.structRef()
	if !ok || !q.must() {
		return Member{}, false
	}
	n, ok := q.ident()
	return Member{Kind: KStruct, Ref: r, Name: n}, ok
}

// arrayHead reads base, name and the opening bracket.
func (q *p) arrayHead() (Member, bool) {
	m := Member{Kind: KArray}
	if b, ok := q.intType(); ok {
		m.Base, m.Bits = KInt, b
	} else if q.lit("char") {
		m.Base = KChar
	} else if r, ok := q.structRef(); ok {
		m.Base, m.Ref = KStruct, r
	} else {
		return m, false
	}
	if !q.must() {
		return m, false
	}
	n, ok := q.ident()
	if !ok {
		return m, false
	}
	m.Name = n
	q.opt()
	return m, q.ch('[')
}

func (q *p) array() (m Member, ok bool) {
	m, ok = q.arrayHead()
	if !ok {
		return m, false
	}
	if q.try(func() bool {
		n, ok := q.num()
		m.LK, m.Len = LFixed, n
		return ok && q.ch(']')
	}) {
		return m, true
	}
	m.Len = Num{}
	if !q.length(&m) {
		return m, false
	}
	return m, q.ch(']')
}

func (q *p) length(m *Member) bool {
	if q.try(func() bool {
		if !q.lit("..-") {
			return false
		}
		n, ok := q.num()
		m.LK, m.Len = LLeftover, n
		return ok
	}) {
		return true
	}
	r, ok := q.idref()
	m.LK, m.LRef = LRef, r
	return ok
}

func (q *p) remainder() (m Member, ok bool) {
	ok = q.try(func() bool {
		var ok bool
		m, ok = q.arrayHead()
		if !ok {
			return false
		}
		q.opt()
		m.LK = LNone
		return q.ch(']')
	})
	return m, ok
}

func (q *p) union() (Member, bool) {
	m := Member{Kind: KUnion}
	if !q.lit("union") || !q.must() {
		return m, false
	}
	n, ok := q.ident()
	if !ok {
		return m, false
	}
	m.Name = n
	q.opt()
	if !q.ch('[') {
		return m, false
	}
	if m.Tag, ok = q.idref(); !ok || !q.ch(']') {
		return m, false
	}
	q.opt()
	q.try(func() bool {
		k := m
		if !q.lit("with") || !q.must() || !q.lit("length") || !q.must() || !q.length(&k) {
			return false
		}
		m = k
		return true
	})
	q.opt()
	if !q.ch('{') {
		return m, false
	}
	q.opt()
	for {
		var c Case
		if !q.try(func() bool {
			q.opt()
			if l, ok := q.list(); ok {
				c.List = l
			} else if q.lit("default") {
				c.Default = true
			} else {
				return false
			}
			q.opt()
			if !q.ch(':') {
				return false
			}
			q.opt()
			q.body(&c)
			q.opt()
			return true
		}) {
			break
		}
		m.Cases = append(m.Cases, c)
	}
	q.opt()
	return m, q.ch('}')
}

func (q *p) body(c *Case) {
	word := func(w string) bool {
		return q.try(func() bool {
			if !q.lit(w) {
				return false
			}
			q.opt()
			return q.ch(';')
		})
	}
	if q.try(func() bool { q.opt(); return q.ch(';') }) {
		c.NilBody = true
		return
	}
	if word("fail") {
		c.Members = []Member{{Kind: KFail}}
		return
	}
	if word("ignore") {
		c.Members = []Member{{Kind: KIgnore}}
		return
	}
	for {
		m, ok := q.member(false)
		if !ok {
			break
		}
		c.Members = append(c.Members, m)
	}
	q.opt()
	if word("...") {
		c.Members = append(c.Members, Member{Kind: KIgnore})
		return
	}
	var r Member
	if q.try(func() bool {
		var ok bool
		if r, ok = q.remainder(); !ok {
			return false
		}
		q.opt()
		return q.ch(';')
	}) {
		c.Members = append(c.Members, r)
	}
}

// Package c15 checks the constraint store against a table.
package c15

import (
	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/vfw/vf"
)

func init() {
	vf.Add(vf.Spec{Name: "c15.Record", F: Record, Quick: vf.Range(0, 4*len(slots)-1), Reach: []string{"conflict", "same", "new"}})
	vf.Add(vf.Spec{Name: "c15.Clear", F: Clear, Quick: vf.Range(0, 4)})
	vf.Add(vf.Spec{Name: "c15.Update", F: Update, Quick: []int{0, 1}, Reach: []string{"conflict", "merged"}, MaxPaths: 60000})
	vf.Add(vf.Spec{Name: "c15.Merge", F: Merge, Quick: []int{0, 1}, Reach: []string{"conflict", "merged"}, MaxPaths: 60000})
	vf.Add(vf.Spec{Name: "c15.Copies", F: Copies, Quick: vf.Range(0, 2*len(slots)+5), MaxPaths: 20000})
	vf.Add(vf.Spec{Name: "c15.Large", F: Large, Quick: vf.Range(0, 8*len(large)-1), Reach: []string{"grown"}})
	vf.Add(vf.Spec{Name: "c15.Scopes", F: Scopes, Quick: vf.Range(0, 4*len(large)-1), Reach: []string{"conflict", "merged"}})
	vf.Add(vf.Spec{Name: "c15.Two", F: Two, Quick: vf.Range(0, 80), MaxPaths: 3000})
}

type slot struct{ s, k string }

// slots are the fields looked at; the empty scope is the local one.
var slots = []slot{{"", "x"}, {"", "y"}, {"a", "x"}, {"a", "y"}, {"a", "z"}, {"b", "x"}, {"b", ""}}

type table struct {
	has []bool
	val []int64
}

func empty() *table { return &table{make([]bool, len(slots)), make([]int64, len(slots))} }

func (t *table) copy() *table {
	c := empty()
	copy(c.has, t.has)
	copy(c.val, t.val)
	return c
}

// state builds any store over the first n slots together with its table.
func state(name string, n int) (tv.Constraints, *table) {
	c := tv.NewConstraints()
	t := empty()
	for i := 0; i < n; i++ {
		if vf.Choose(name, 2) == 0 {
			continue
		}
		v := vf.I64(name + "v")
		t.has[i], t.val[i] = true, v
		vf.Assert(c.Set(slots[i].s, slots[i].k, v) == nil, "recording a new value is accepted")
	}
	return c, t
}

// holds compares every lookup with the table.
func holds(c tv.Constraints, t *table, label string) {
	ok := true
	for i, s := range slots {
		v, found := c.Lookup(s.s, s.k)
		ok = vf.And(ok, found == t.has[i])
		if t.has[i] {
			ok = vf.And(ok, v == t.val[i])
		} else {
			ok = vf.And(ok, v == 0)
		}
		r, rf := c.LookupRef(&ast.IDRef{Scope: s.s, Name: s.k})
		ok = vf.And(ok, vf.And(r == v, rf == found))
		if s.s == "" {
			l, lf := c.LookupLocal(s.k)
			ok = vf.And(ok, vf.And(l == v, lf == found))
		}
	}
	_, f := c.Lookup("zz", "x")
	_, g := c.Lookup("a", "zz")
	ok = vf.And(ok, !f && !g)
	vf.Assert(ok, label)
}

// record applies one recording operation and checks its result.
func record(op int, c tv.Constraints, t *table, i int, v int64) {
	s := slots[i]
	switch op {
	case 0, 1:
		var err error
		if op == 0 {
			err = c.Set(s.s, s.k, v)
		} else {
			err = c.SetRef(&ast.IDRef{Scope: s.s, Name: s.k}, v)
		}
		if t.has[i] && t.val[i] != v {
			vf.Reach("conflict")
			vf.Assert(err != nil, "recording a different value is an error")
			return
		}
		vf.Assert(err == nil, "recording a value is accepted")
	case 2, 3:
		var u int64
		if op == 2 {
			u = c.LookupOrCreate(s.s, s.k, v)
		} else {
			u = c.LookupOrCreateRef(&ast.IDRef{Scope: s.s, Name: s.k}, v)
		}
		if t.has[i] {
			vf.Assert(u == t.val[i], "the recorded value is returned")
			return
		}
		vf.Assert(u == v, "the new value is returned")
	}
	if t.has[i] {
		vf.Reach("same")
	} else {
		vf.Reach("new")
	}
	t.has[i], t.val[i] = true, v
}

// Record: one recording operation on any store.
func Record(arg int) {
	c, t := state("a", len(slots))
	record(arg%4, c, t, arg/4, vf.I64("v"))
	holds(c, t, "store holds exactly the recorded values")
}

// Clear: removing a scope.
func Clear(arg int) {
	c, t := state("a", len(slots))
	scope := []string{"", "", "a", "b", "zz"}[arg]
	if arg == 0 {
		c.ClearLocal()
	} else {
		c.ClearScope(scope)
	}
	for i, s := range slots {
		if s.s == scope {
			t.has[i], t.val[i] = false, 0
		}
	}
	holds(c, t, "clearing removes exactly one scope")
	record(0, c, t, 0, vf.I64("v"))
	holds(c, t, "a cleared store can be used again")
}

func union(t, u *table) (*table, bool) {
	m := t.copy()
	conflict := false
	for i := range slots {
		if u.has[i] {
			if m.has[i] {
				conflict = vf.Or(conflict, m.val[i] != u.val[i])
			}
			m.has[i], m.val[i] = true, u.val[i]
		}
	}
	return m, conflict
}

// Update: applying one store to another.
func Update(arg int) {
	c, t := state("a", 5)
	d, u := state("b", 5)
	vf.MapOrder(arg == 1)
	err := c.Update(d)
	vf.MapOrder(false)
	m, conflict := union(t, u)
	if conflict {
		vf.Reach("conflict")
		vf.Assert(err != nil, "applying a different value is an error")
	} else {
		vf.Reach("merged")
		vf.Assert(err == nil, "compatible stores merge")
		holds(c, m, "applying gives the union")
	}
	holds(d, u, "applying leaves its argument unchanged")
}

// Merge: building the union of two stores.
func Merge(arg int) {
	c, t := state("a", 5)
	d, u := state("b", 5)
	vf.MapOrder(arg == 1)
	r, err := c.Merge(d)
	vf.MapOrder(false)
	m, conflict := union(t, u)
	if conflict {
		vf.Reach("conflict")
		vf.Assert(err != nil, "merging a different value is an error")
	} else {
		vf.Reach("merged")
		vf.Assert(err == nil, "compatible stores merge")
		holds(r, m, "merging gives the union")
		// the result is independent of the operands
		r.ClearScope("a")
		r.LookupOrCreate("b", "y", 1)
		r.LookupOrCreate("", "y", 1)
	}
	holds(c, t, "merging leaves the first operand unchanged")
	holds(d, u, "merging leaves the second operand unchanged")
}

// Copies: copies are independent in both directions.
func Copies(arg int) {
	c, t := state("a", len(slots))
	var d tv.Constraints
	u := t.copy()
	if arg%2 == 0 {
		d = c.Clone()
	} else {
		d = c.CloneGlobal()
		for i, s := range slots {
			if s.s == "" {
				u.has[i], u.val[i] = false, 0
			}
		}
	}
	holds(d, u, "the copy holds what it should")
	holds(c, t, "copying leaves the original unchanged")
	v := vf.I64("v")
	k := arg / 2
	change := func(c tv.Constraints, t *table) {
		if k < len(slots) {
			record(2, c, t, k, v)
			return
		}
		scope := []string{"", "a", "b"}[k-len(slots)]
		c.ClearScope(scope)
		for i, s := range slots {
			if s.s == scope {
				t.has[i], t.val[i] = false, 0
			}
		}
	}
	change(d, u)
	holds(d, u, "the copy can be changed")
	holds(c, t, "changing the copy leaves the original unchanged")
	change(c, t)
	holds(c, t, "the original can be changed")
	holds(d, u, "changing the original leaves the copy unchanged")
}

// Two: two recording operations in a row.
func Two(arg int) {
	c, t := state("a", 3)
	i, j := arg%9, arg/9
	record(i/3, c, t, i%3, vf.I64("v"))
	record(j/3, c, t, j%3, vf.I64("w"))
	holds(c, t, "store holds exactly the recorded values")
}

// large are numbers of entries of a scope.
var large = []int{1, 2, 3, 4, 8, 9, 17, 40}

func key(i int) string { return string([]byte{'k', byte('0' + i/10), byte('0' + i%10)}) }

// Large: operations on scopes with many entries.
func Large(arg int) {
	n, op := large[arg/8], arg%8
	scope := []string{"", "s"}[op/4]
	c := tv.NewConstraints()
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = vf.I64("v")
		vf.Assert(c.Set(scope, key(i), vals[i]) == nil, "recording a new value is accepted")
	}
	holdsAll := func(c tv.Constraints, n int, label string) {
		ok := true
		for i := 0; i < n; i++ {
			v, found := c.Lookup(scope, key(i))
			ok = vf.And(ok, vf.And(found, v == vals[i]))
		}
		_, more := c.Lookup(scope, key(n))
		vf.Assert(vf.And(ok, !more), label)
	}
	var d tv.Constraints
	var err error
	switch op % 4 {
	case 0:
		d = c.Clone()
	case 1:
		d = c.CloneGlobal()
		if scope == "" {
			holdsAll(d, 0, "copying the shared scope drops the local one")
			holdsAll(c, n, "copying leaves the original unchanged")
			return
		}
	case 2:
		d, err = tv.NewConstraints().Merge(c)
	case 3:
		d, err = c.Merge(tv.NewConstraints())
	}
	vf.Assert(err == nil, "compatible stores merge")
	holdsAll(c, n, "the original is unchanged")
	holdsAll(d, n, "the copy holds the same values")
	vf.Assert(d.Set(scope, key(n), 1) == nil, "the copy can grow")
	holdsAll(c, n, "changing the copy leaves the original unchanged")
	vf.Assert(c.Set(scope, key(n+1), 2) == nil, "the original can grow")
	_, found := d.Lookup(scope, key(n+1))
	vf.Assert(!found, "changing the original leaves the copy unchanged")
	c.ClearScope(scope)
	holdsAll(c, 0, "clearing removes everything")
	for i := range vals {
		v, found := d.Lookup(scope, key(i))
		vf.Assert(vf.And(found, v == vals[i]), "clearing the original leaves the copy unchanged")
	}
	vf.Reach("grown")
}

// Scopes: operations on stores with many scopes.
func Scopes(arg int) {
	n, op := large[arg/4], arg%4
	c := tv.NewConstraints()
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = vf.I64("v")
		vf.Assert(c.Set(key(i), "x", vals[i]) == nil, "recording a new value is accepted")
	}
	vf.Assert(c.Set("", "x", 7) == nil, "recording a new value is accepted")
	check := func(c tv.Constraints, without int, local bool, label string) {
		ok := true
		for i := range vals {
			v, found := c.Lookup(key(i), "x")
			if i == without {
				ok = vf.And(ok, !found)
				continue
			}
			ok = vf.And(ok, vf.And(found, v == vals[i]))
		}
		v, found := c.Lookup("", "x")
		ok = vf.And(ok, vf.And(found == local, !local || v == 7))
		vf.Assert(ok, label)
	}
	at := n / 2
	switch op {
	case 0:
		d := c.Clone()
		check(d, -1, true, "the copy holds the same values")
		d.ClearScope(key(at))
		check(d, at, true, "clearing removes exactly one scope")
		check(c, -1, true, "changing the copy leaves the original unchanged")
	case 1:
		d := c.CloneGlobal()
		check(d, -1, false, "copying the shared scope drops exactly the local one")
		check(c, -1, true, "copying leaves the original unchanged")
	case 2, 3:
		d := tv.NewConstraints()
		w := vf.I64("w")
		vf.Assert(d.Set(key(at), "x", w) == nil, "recording a new value is accepted")
		a, b := c, d
		if op == 3 {
			a, b = d, c
		}
		m, err := a.Merge(b)
		if w != vals[at] {
			vf.Reach("conflict")
			vf.Assert(err != nil, "merging a different value is an error")
			return
		}
		vf.Reach("merged")
		vf.Assert(err == nil, "compatible stores merge")
		check(m, -1, true, "merging gives the union")
	}
	check(c, -1, true, "the original is unchanged")
}

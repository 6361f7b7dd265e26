From 822e07eda263273433237bbc7ef019b61505c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:36 +0000
Subject: [PATCH 01/17] fix: make Set.Subtract of an empty set leave the
 receiver unchanged

The complement of an empty interval list was empty instead of the full
range, so subtracting the empty set emptied the receiver.
---
 internal/intervals/intervals.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index a467908..3d217ad 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -117,6 +117,9 @@ func (s Set) Contains(x uint64) bool {
 
 // Subtract subtracts other from s.
 func (s *Set) Subtract(other *Set) {
+	if len(other.intervals) == 0 {
+		return
+	}
 	s.intervals = thresholds(2, s.intervals, complement(other.intervals))
 }
 
-- 
2.43.0


From faf41fe69c81cddc910cf3f94d2ea021b9fadafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:57 +0000
Subject: [PATCH 02/17] fix: let an extern declaration follow the struct it
 announces

A description set that defines a struct and declares it extern later was
rejected. The outcome now no longer depends on the order of the files.
---
 inspect/inspect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 4ab5937..c532d29 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -120,6 +120,9 @@ func (r *Resolver) AddFile(f *ast.File) error {
 // be overridden by an actual declaration.
 func (r *Resolver) AddStruct(s *ast.Struct) error {
 	if e, exists := r.Struct(s.Name); exists && !e.Extern() {
+		if s.Extern() {
+			return nil
+		}
 		return errors.New("cannot override non-extern struct")
 	}
 	r.structs[s.Name] = s
-- 
2.43.0


From a62597608ddc69e51df46eb2dd05e031bf043f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:28 +0000
Subject: [PATCH 03/17] fix: check wide length fields against the data before
 using them

A 32 or 64 bit length was converted to int and used to allocate an array
or to slice the input before it was compared with the number of bytes
available. A few bytes of input could exhaust memory or panic.
---
 gen/decl.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/gen/decl.go b/gen/decl.go
index 77ec15e..39749f0 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -22,6 +22,7 @@ type generator struct {
 	printer
 
 	resolver *inspect.Resolver
+	strct    *ast.Struct // struct being generated
 
 	receiver string // method receiver variable
 	data     string // data variable
@@ -75,11 +76,13 @@ func (g *generator) structure(s *ast.Struct) {
 
 	g.receiver = strings.ToLower(s.Name[:1])
 
+	g.strct = s
 	g.structDecl(s)
 	g.parse(s)
 	g.parseConstructor(s)
 
 	g.receiver = ""
+	g.strct = nil
 }
 
 func (g *generator) structDecl(s *ast.Struct) {
@@ -226,6 +229,9 @@ func (g *generator) parseArray(lhs string, base ast.Type, s ast.LengthConstraint
 
 	case *ast.IDRef:
 		size := fmt.Sprintf("int(%s)", g.ref(s))
+		if g.wide(s) && !g.empty(base) {
+			g.wideLengthCheck(g.ref(s))
+		}
 		g.printf("%s = make([]%s, %s)\n", lhs, g.tipe(base), size)
 		g.printf("for idx := 0; idx < %s; idx++ {\n", size)
 		g.parseType(lhs+"[idx]", base)
@@ -286,7 +292,11 @@ func (g *generator) constrained(c ast.LengthConstraint, f func()) {
 
 	case *ast.IDRef:
 		n = fmt.Sprintf("int(%s)", g.ref(c))
-		g.lengthCheck(n)
+		if g.wide(c) {
+			g.wideLengthCheck(g.ref(c))
+		} else {
+			g.lengthCheck(n)
+		}
 
 	default:
 		panic(unexpected(c))
@@ -311,6 +321,46 @@ func (g *generator) lengthCheck(min string) {
 	g.printf("if len(%s) < %s { return nil, errors.New(\"data too short\") }\n", g.data, min)
 }
 
+// wideLengthCheck is lengthCheck for an unsigned value that may not fit an int.
+func (g *generator) wideLengthCheck(min string) {
+	g.printf("if uint64(len(%s)) < uint64(%s) { return nil, errors.New(\"data too short\") }\n", g.data, min)
+}
+
+// wide reports whether the referenced integer can be too large to be trusted
+// as a length before it is compared with the data available.
+func (g *generator) wide(r *ast.IDRef) bool {
+	t, err := g.resolver.IntType(r, g.strct)
+	return err != nil || t.Size > 16
+}
+
+// empty reports whether a value of type t, inside the given structs, can occupy
+// no bytes at all.
+func (g *generator) empty(t ast.Type, within ...string) bool {
+	switch t := t.(type) {
+	case *ast.IntType, *ast.CharType, *ast.NulTermString:
+		return false
+	case *ast.FixedArrayMember:
+		n, err := g.resolver.Integer(t.Size)
+		return err != nil || n == 0 || g.empty(t.Base, within...)
+	case *ast.StructRef:
+		for _, n := range within {
+			if n == t.Name {
+				return true
+			}
+		}
+		s, ok := g.resolver.Struct(t.Name)
+		if !ok {
+			return true
+		}
+		for _, m := range s.Members {
+			if f, ok := m.(*ast.Field); ok && !g.empty(f.Type, append(within, t.Name)...) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 func (g *generator) assertEnd() {
 	g.printf("if len(%s) > 0 { return nil, errors.New(\"trailing data disallowed\") }\n", g.data)
 }
-- 
2.43.0


From 7eac2b1277eb35b5d38cab49b65a817ccca4780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:28 +0000
Subject: [PATCH 04/17] fix: stop arrays up to the end of data at an element
 without bytes

Parsing such an array never made progress and appended elements forever.
---
 gen/decl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gen/decl.go b/gen/decl.go
index 39749f0..5dd1eb9 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -246,7 +246,13 @@ func (g *generator) parseArray(lhs string, base ast.Type, s ast.LengthConstraint
 		g.printf("%s = make([]%s, 0)\n", lhs, g.tipe(base))
 		g.printf("for len(%s) > 0 {\n", g.data)
 		g.printf("var tmp %s\n", g.tipe(base))
+		if g.empty(base) {
+			g.printf("left := len(%s)\n", g.data)
+		}
 		g.parseType("tmp", base)
+		if g.empty(base) {
+			g.printf("if len(%s) == left { return nil, errors.New(\"empty array element\") }\n", g.data)
+		}
 		g.printf("%s = append(%s, tmp)\n", lhs, lhs)
 		g.printf("}\n")
 
-- 
2.43.0


From 65c2bdae946f973bba8fe47241175daeee59ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:28 +0000
Subject: [PATCH 05/17] fix: generate compilable code for structs and contexts
 with awkward names

A struct starting with the letter i and holding a string, a struct starting
with an underscore, and contexts named after a receiver, a keyword or
another identifier of the generated code did not compile.
---
 gen/decl.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index 5dd1eb9..b47d2ce 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"go/token"
 	"strconv"
 	"strings"
 
@@ -74,7 +75,7 @@ func (g *generator) structure(s *ast.Struct) {
 		return
 	}
 
-	g.receiver = strings.ToLower(s.Name[:1])
+	g.receiver = strings.ToLower((strings.TrimLeft(s.Name, "_") + "_")[:1])
 
 	g.strct = s
 	g.structDecl(s)
@@ -170,9 +171,13 @@ func (g *generator) parseMember(m ast.Member) {
 func (g *generator) parseType(lhs string, t ast.Type) {
 	switch t := t.(type) {
 	case *ast.NulTermString:
-		g.printf("i := bytes.IndexByte(%s, 0)\n", g.data)
-		g.printf("if i < 0 { return nil, errors.New(\"could not parse nul-term string\") }\n")
-		g.printf("%s, %s = string(%s[:i]), %s[i+1:]\n", lhs, g.data, g.data, g.data)
+		i := "i"
+		if g.receiver == i {
+			i = "end"
+		}
+		g.printf("%s := bytes.IndexByte(%s, 0)\n", i, g.data)
+		g.printf("if %s < 0 { return nil, errors.New(\"could not parse nul-term string\") }\n", i)
+		g.printf("%s, %s = string(%s[:%s]), %s[%s+1:]\n", lhs, g.data, g.data, i, g.data, i)
 
 	case *ast.IntType:
 		g.parseIntType(lhs, t)
@@ -320,7 +325,7 @@ func (g *generator) ref(r *ast.IDRef) string {
 	if r.Scope == "" {
 		return g.receiver + "." + name(r.Name)
 	}
-	return r.Scope + "." + name(r.Name)
+	return param(r.Scope) + "." + name(r.Name)
 }
 
 func (g *generator) lengthCheck(min string) {
@@ -416,7 +421,7 @@ func (g *generator) tipe(t interface{}) string {
 func contextSignature(names []string) string {
 	s := ""
 	for _, n := range names {
-		s += ", " + n + " " + name(n)
+		s += ", " + param(n) + " " + name(n)
 	}
 	return s
 }
@@ -424,11 +429,27 @@ func contextSignature(names []string) string {
 func contextArgs(names []string) string {
 	s := ""
 	for _, n := range names {
-		s += ", " + n
+		s += ", " + param(n)
 	}
 	return s
 }
 
+// param returns the parameter name for the context n, avoiding identifiers that
+// mean something else in the generated code.
+func param(n string) string {
+	switch n {
+	case "data", "cur", "err", "idx", "end", "left", "tmp", "restore",
+		"bytes", "binary", "errors",
+		"append", "len", "make", "new", "nil",
+		"byte", "error", "int", "string", "uint8", "uint16", "uint32", "uint64":
+		return "ctx" + name(n)
+	}
+	if len(n) == 1 || token.Lookup(n).IsKeyword() {
+		return "ctx" + name(n)
+	}
+	return n
+}
+
 func unexpected(t interface{}) string {
 	return fmt.Sprintf("unexpected type %T", t)
 }
-- 
2.43.0


From fbc89822283fc498afc35621f7028f1f381926fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:49 +0000
Subject: [PATCH 06/17] fix: accept an extern declaration next to its struct in
 one file

The pair was reported as a duplicate struct.
---
 inspect/inspect.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index c532d29..31fc5f5 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -14,8 +14,13 @@ func Structs(f *ast.File) (map[string]*ast.Struct, error) {
 	structs := map[string]*ast.Struct{}
 	for _, s := range f.Structs {
 		n := s.Name
-		if _, found := structs[n]; found {
-			return nil, errors.New("duplicate struct name")
+		if e, found := structs[n]; found {
+			if e.Extern() == s.Extern() {
+				return nil, errors.New("duplicate struct name")
+			}
+			if s.Extern() {
+				continue
+			}
 		}
 		structs[n] = s
 	}
-- 
2.43.0


From 888ffe88b0fc6094209bb9dc52b53c1e54ae6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:49 +0000
Subject: [PATCH 07/17] fix: report an inverted range in an integer list as an
 error

Resolving a list such as [9..3] panicked.
---
 inspect/inspect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 31fc5f5..9b21c2a 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -230,6 +230,9 @@ func (r *Resolver) Intervals(l *ast.IntegerList) (*intervals.Set, error) {
 		if err != nil {
 			return nil, err
 		}
+		if hi < lo {
+			return nil, errors.New("invalid range")
+		}
 		is[i] = intervals.Range(uint64(lo), uint64(hi)) // XXX cast
 	}
 	if intervals.Overlaps(is) {
-- 
2.43.0


From 6baec896fa2197c70eb9d3721842ddfe7ef60daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:49 +0000
Subject: [PATCH 08/17] fix: draw from the set of all 64-bit integers

The number of members overflowed to zero and drawing never finished.
---
 internal/intervals/intervals.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 3d217ad..f002781 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -213,6 +213,9 @@ func (s Set) RandomWithGenerator(rnd random.Interface) uint64 {
 			delta: i.hi - cuml + 1,
 		})
 	}
+	if cuml == 0 { // the set of all 64-bit integers
+		return randuint64(rnd)
+	}
 	r := randuint64n(rnd, cuml)
 	for _, step := range steps {
 		if r < step.upper {
-- 
2.43.0


From e8414410134d67430ea0c41ddc4b5f4c9a399847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:49 +0000
Subject: [PATCH 09/17] fix: skip a default union case that no tag value
 selects

Generating vectors for a union whose cases list every value of the tag and
that has a default case as well panicked.
---
 internal/intervals/intervals.go | 5 +++++
 tv/generator.go                 | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index f002781..415e9b6 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -188,6 +188,11 @@ func (e edges) Less(i, j int) bool {
 	return a.x < b.x || (a.x == b.x && b.d < a.d)
 }
 
+// Empty reports whether the set has no members.
+func (s Set) Empty() bool {
+	return len(s.intervals) == 0
+}
+
 // Random returns a random element of the collection. Assumes the collection
 // contains non-overlapping intervals. Panics if s is empty.
 func (s Set) Random() uint64 {
diff --git a/tv/generator.go b/tv/generator.go
index ea0fb7d..963654d 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -292,6 +292,9 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 	results := []Vector{}
 
 	for _, b := range options {
+		if b.Set.Empty() {
+			continue
+		}
 		g.constraints = base.Clone()
 		g.constraints.LookupOrCreateRef(u.Tag, int64(b.Set.RandomWithGenerator(g.rnd))) // XXX cast
 		vs, err := g.members([]Vector{g.empty()}, b.Case.Members)
-- 
2.43.0


From 4537643b09db3ab3cb3eb1e1f6c5225bac8878c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:05 +0000
Subject: [PATCH 10/17] fix: give every combination of array elements its own
 bytes

---
 tv/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index 963654d..4fcdcf0 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -31,7 +31,7 @@ func cross(a, b []Vector) ([]Vector, error) {
 				return nil, err
 			}
 			v := Vector{
-				Data:        append(u.Data, w.Data...),
+				Data:        append(append([]byte{}, u.Data...), w.Data...),
 				Constraints: m,
 			}
 			p = append(p, v)
-- 
2.43.0


From 79f8da62d7477fb80cf5f151cfa7947cbc07e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:02 +0000
Subject: [PATCH 11/17] fix: generate array elements that agree on context
 values

---
 tv/generator.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/tv/generator.go b/tv/generator.go
index 4fcdcf0..3e6e634 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -258,15 +258,20 @@ func (g *generator) array(base ast.Type, s ast.LengthConstraint) ([]Vector, erro
 	}
 
 	for i := int64(0); i < n; i++ {
-		w, err := g.field(&ast.Field{Type: base})
-		if err != nil {
-			return nil, err
-		}
-		v, err = cross(w, v)
-		if err != nil {
-			return nil, err
+		extended := []Vector{}
+		for _, u := range v {
+			g.constraints = u.Constraints.Clone()
+			w, err := g.field(&ast.Field{Type: base})
+			if err != nil {
+				return nil, err
+			}
+			w, err = cross(w, []Vector{u})
+			if err != nil {
+				return nil, err
+			}
+			extended = append(extended, w...)
 		}
-		v = g.selector.SelectVectors(v)
+		v = g.selector.SelectVectors(extended)
 	}
 	return v, nil
 }
-- 
2.43.0


From df7c7757e97eb11f9d7d0684aedbd8d699bd3dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:28 +0000
Subject: [PATCH 12/17] fix: generate vectors for unions without a case for
 their tag

---
 tv/generator.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tv/generator.go b/tv/generator.go
index 3e6e634..b54e632 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -286,15 +286,17 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 	options := branches.All()
 	t, ok := g.constraints.LookupRef(u.Tag)
 	if ok {
-		branch, ok := branches.Lookup(t)
-		if !ok {
-			return []Vector{}, nil
+		options = nil
+		if branch, ok := branches.Lookup(t); ok {
+			options = []inspect.Branch{branch}
 		}
-		options = []inspect.Branch{branch}
 	}
 
 	base := g.constraints.Clone()
 	results := []Vector{}
+	if options == nil { // no case applies, so the union is empty
+		results = append(results, g.empty())
+	}
 
 	for _, b := range options {
 		if b.Set.Empty() {
-- 
2.43.0


From 344689ed5b75e18f2a902d8f6427b5bd3ca3a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:20 +0000
Subject: [PATCH 13/17] fix: keep generated tags and lengths within the values
 allowed for their fields

---
 internal/intervals/intervals.go |  5 +++++
 tv/generator.go                 | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 415e9b6..d9dda40 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -123,6 +123,11 @@ func (s *Set) Subtract(other *Set) {
 	s.intervals = thresholds(2, s.intervals, complement(other.intervals))
 }
 
+// Intersect removes all elements from s that are not in other.
+func (s *Set) Intersect(other *Set) {
+	s.intervals = thresholds(2, s.intervals, other.intervals)
+}
+
 // complement returns the "complement" of the intervals. In our case this is the
 // result of subtracting from the full 64-bit interval.
 func complement(is []Interval) []Interval {
diff --git a/tv/generator.go b/tv/generator.go
index b54e632..b386d66 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mmcloughlin/trunnel/ast"
 	"github.com/mmcloughlin/trunnel/fault"
 	"github.com/mmcloughlin/trunnel/inspect"
+	"github.com/mmcloughlin/trunnel/internal/intervals"
 )
 
 // Vector is a test vector.
@@ -245,7 +246,16 @@ func (g *generator) array(base ast.Type, s ast.LengthConstraint) ([]Vector, erro
 		n = i
 
 	case *ast.IDRef:
-		n = iv.Constraints.LookupOrCreateRef(s, int64(g.randbtw(1, 20)))
+		r := int64(g.randbtw(1, 20))
+		if c := g.allowed(s); !c.Contains(uint64(r)) {
+			small := intervals.NewSet(intervals.Range(1, 20))
+			small.Intersect(c)
+			if small.Empty() {
+				small = c
+			}
+			r = int64(small.RandomWithGenerator(g.rnd))
+		}
+		n = iv.Constraints.LookupOrCreateRef(s, r)
 
 	case nil:
 		n = int64(g.randbtw(1, 20))
@@ -298,7 +308,9 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 		results = append(results, g.empty())
 	}
 
+	allowed := g.allowed(u.Tag)
 	for _, b := range options {
+		b.Set.Intersect(allowed)
 		if b.Set.Empty() {
 			continue
 		}
@@ -326,8 +338,12 @@ func (g *generator) lenconstrain(c ast.LengthConstraint, vs []Vector) ([]Vector,
 	}
 
 	results := []Vector{}
+	allowed := g.allowed(r)
 	for _, v := range vs {
 		n := int64(len(v.Data))
+		if !allowed.Contains(uint64(n)) {
+			continue
+		}
 		cst := v.Constraints.Clone()
 		m := cst.LookupOrCreateRef(r, n)
 		if m != n {
@@ -342,6 +358,21 @@ func (g *generator) lenconstrain(c ast.LengthConstraint, vs []Vector) ([]Vector,
 	return results, nil
 }
 
+// allowed returns the values the referenced field may have.
+func (g *generator) allowed(r *ast.IDRef) *intervals.Set {
+	t, err := g.resolver.IntType(r, g.strct)
+	if err != nil {
+		return intervals.IntType(64)
+	}
+	s := intervals.IntType(t.Size)
+	if t.Constraint != nil {
+		if c, err := g.resolver.Intervals(t.Constraint); err == nil {
+			s.Intersect(c)
+		}
+	}
+	return s
+}
+
 // empty returns an empty Vector with current constraints.
 func (g *generator) empty() Vector {
 	return g.vector([]byte{})
-- 
2.43.0


From 6705e0dd0430fedc0b96c7b1b376c83618d30a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:10 +0000
Subject: [PATCH 14/17] fix: generate vectors for structures whose union cases
 are all ruled out

A union without a default accepts tags that match none of its cases. When every
case fails or is excluded by the values allowed for the tag, use such a tag
instead of leaving the structure without vectors.
---
 tv/generator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index b386d66..c7e5f21 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -308,8 +308,9 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 		results = append(results, g.empty())
 	}
 
-	allowed := g.allowed(u.Tag)
+	allowed, unmatched := g.allowed(u.Tag), g.allowed(u.Tag)
 	for _, b := range options {
+		unmatched.Subtract(b.Set)
 		b.Set.Intersect(allowed)
 		if b.Set.Empty() {
 			continue
@@ -323,6 +324,13 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 		results = append(results, vs...)
 	}
 
+	// without a usable case, only tags outside of all cases are left
+	if len(results) == 0 && !ok && !unmatched.Empty() {
+		g.constraints = base.Clone()
+		g.constraints.LookupOrCreateRef(u.Tag, int64(unmatched.RandomWithGenerator(g.rnd))) // XXX cast
+		results = append(results, g.empty())
+	}
+
 	// set length constraint
 	if u.Length != nil {
 		return g.lenconstrain(u.Length, results)
-- 
2.43.0


From 787319b0114620071952c3808891b2881c30f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:57 +0000
Subject: [PATCH 15/17] fix: generate compilable tests for structures with
 unused contexts

---
 gen/fuzz.go     |  2 +-
 gen/tests.go    | 11 ++++++++++-
 tv/corpus.go    |  5 +++--
 tv/generator.go |  5 +++--
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/gen/fuzz.go b/gen/fuzz.go
index c24e5d3..f5874e6 100644
--- a/gen/fuzz.go
+++ b/gen/fuzz.go
@@ -15,7 +15,7 @@ func Fuzzers(pkg string, c *tv.Corpus) ([]byte, error) {
 			continue
 		}
 		p.printf("func Fuzz%s(data []byte) int {\n", name(s.Type))
-		p.printf("_, err := Parse%s(data)\n", name(s.Type))
+		p.printf("_, err := Parse%s(data%s)\n", name(s.Type), zeroContexts(s.Contexts))
 		p.printf("if err != nil { return 0 }\n")
 		p.printf("return 1")
 		p.printf("}\n\n")
diff --git a/gen/tests.go b/gen/tests.go
index c2e0b89..d371ecf 100644
--- a/gen/tests.go
+++ b/gen/tests.go
@@ -23,7 +23,7 @@ func CorpusTests(pkg string, c *tv.Corpus) ([]byte, error) {
 
 		// test each one
 		p.printf("for _, c := range cases {\n")
-		p.printf("_, err := Parse%s(c.Data)\n", name(s.Type))
+		p.printf("_, err := Parse%s(c.Data%s)\n", name(s.Type), zeroContexts(s.Contexts))
 		p.printf("if err != nil { t.Fatal(err) }\n")
 		p.printf("}\n")
 
@@ -41,3 +41,12 @@ func constrained(vs []tv.Vector) bool {
 	}
 	return false
 }
+
+// zeroContexts builds arguments for contexts whose values do not matter.
+func zeroContexts(names []string) string {
+	s := ""
+	for _, n := range names {
+		s += ", " + name(n) + "{}"
+	}
+	return s
+}
diff --git a/tv/corpus.go b/tv/corpus.go
index da0ba90..8757d06 100644
--- a/tv/corpus.go
+++ b/tv/corpus.go
@@ -16,8 +16,9 @@ type Corpus struct {
 
 // Suite contains test vectors for one type.
 type Suite struct {
-	Type    string
-	Vectors []Vector
+	Type     string
+	Contexts []string // contexts required to parse the type
+	Vectors  []Vector
 }
 
 // AddSuite appends a suite to the corpus.
diff --git a/tv/generator.go b/tv/generator.go
index c7e5f21..2d5c178 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -107,8 +107,9 @@ func (g *generator) files(fs []*ast.File) (*Corpus, error) {
 				return nil, err
 			}
 			c.Suites = append(c.Suites, Suite{
-				Type:    s.Name,
-				Vectors: vs,
+				Type:     s.Name,
+				Contexts: s.Contexts,
+				Vectors:  vs,
 			})
 		}
 	}
-- 
2.43.0


From 124662ca563286a07bab578338b457cd40c750a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:27 +0000
Subject: [PATCH 16/17] fix: report names that do not resolve as errors when
 generating parsers

---
 gen/decl.go | 90 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 87 insertions(+), 3 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index b47d2ce..8b2f6c8 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -1,6 +1,7 @@
 package gen
 
 import (
+	"errors"
 	"fmt"
 	"go/token"
 	"strconv"
@@ -29,7 +30,17 @@ type generator struct {
 	data     string // data variable
 }
 
-func (g *generator) files(pkg string, fs []*ast.File) error {
+func (g *generator) files(pkg string, fs []*ast.File) (err error) {
+	defer func() {
+		switch r := recover().(type) {
+		case nil:
+		case unresolved:
+			err = r.error
+		default:
+			panic(r)
+		}
+	}()
+
 	g.header(pkg)
 
 	if err := g.init(fs); err != nil {
@@ -78,6 +89,11 @@ func (g *generator) structure(s *ast.Struct) {
 	g.receiver = strings.ToLower((strings.TrimLeft(s.Name, "_") + "_")[:1])
 
 	g.strct = s
+	for _, n := range s.Contexts {
+		if _, ok := g.resolver.Context(n); !ok {
+			g.fail("context not found")
+		}
+	}
 	g.structDecl(s)
 	g.parse(s)
 	g.parseConstructor(s)
@@ -193,7 +209,12 @@ func (g *generator) parseType(lhs string, t ast.Type) {
 		g.printf("%s = new(%s)\n", lhs, name(t.Name))
 		s, ok := g.resolver.Struct(t.Name)
 		if !ok {
-			panic("struct not found") // XXX return err
+			g.fail("struct not found")
+		}
+		for _, n := range s.Contexts {
+			if !g.takes(n) {
+				g.fail("missing context for struct")
+			}
 		}
 		g.printf("%s, err = %s.Parse(%s%s)\n", g.data, lhs, g.data, contextArgs(s.Contexts))
 		g.printf("if err != nil { return nil, err }\n")
@@ -322,12 +343,65 @@ func (g *generator) constrained(c ast.LengthConstraint, f func()) {
 
 // ref builds a variable reference that resolves to the given trunnel IDRef.
 func (g *generator) ref(r *ast.IDRef) string {
+	if !g.defined(r) {
+		g.fail("could not resolve reference")
+	}
 	if r.Scope == "" {
 		return g.receiver + "." + name(r.Name)
 	}
 	return param(r.Scope) + "." + name(r.Name)
 }
 
+// defined reports whether r refers to a number within the struct being
+// generated or one of its contexts.
+func (g *generator) defined(r *ast.IDRef) bool {
+	if r.Scope == "" {
+		return hasNumber(g.strct.Members, r.Name)
+	}
+	ctx, ok := g.resolver.Context(r.Scope)
+	if !ok || !g.takes(r.Scope) {
+		return false
+	}
+	for _, f := range ctx.Members {
+		if hasNumber([]ast.Member{f}, r.Name) {
+			return true
+		}
+	}
+	return false
+}
+
+// takes reports whether the struct being generated has the given context.
+func (g *generator) takes(ctx string) bool {
+	for _, n := range g.strct.Contexts {
+		if n == ctx {
+			return true
+		}
+	}
+	return false
+}
+
+// hasNumber looks for a numeric field called n, also within unions.
+func hasNumber(ms []ast.Member, n string) bool {
+	for _, m := range ms {
+		switch m := m.(type) {
+		case *ast.Field:
+			switch m.Type.(type) {
+			case *ast.IntType, *ast.CharType, *ast.Ptr:
+				if m.Name == n {
+					return true
+				}
+			}
+		case *ast.UnionMember:
+			for _, c := range m.Cases {
+				if hasNumber(c.Members, n) {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 func (g *generator) lengthCheck(min string) {
 	g.printf("if len(%s) < %s { return nil, errors.New(\"data too short\") }\n", g.data, min)
 }
@@ -379,7 +453,7 @@ func (g *generator) assertEnd() {
 func (g *generator) integer(i ast.Integer) string {
 	x, err := g.resolver.Integer(i)
 	if err != nil {
-		panic(err) // XXX panic
+		panic(unresolved{err})
 	}
 	return strconv.FormatInt(x, 10)
 }
@@ -450,6 +524,16 @@ func param(n string) string {
 	return n
 }
 
+// unresolved is raised when the generated code would refer to something that
+// is not declared.
+type unresolved struct {
+	error
+}
+
+func (g *generator) fail(msg string) {
+	panic(unresolved{errors.New(msg)})
+}
+
 func unexpected(t interface{}) string {
 	return fmt.Sprintf("unexpected type %T", t)
 }
-- 
2.43.0


From ae1c43981093dee5fd0c6e15513e76883e64f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:27 +0000
Subject: [PATCH 17/17] fix: report recursive structures as not supported when
 generating vectors

---
 tv/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tv/generator.go b/tv/generator.go
index 2d5c178..1fab9fd 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -45,6 +45,7 @@ type generator struct {
 	resolver    *inspect.Resolver
 	constraints Constraints
 	strct       *ast.Struct
+	within      []*ast.Struct // structs being generated, outermost first
 
 	selector Selector
 	rnd      random.Interface
@@ -118,6 +119,12 @@ func (g *generator) files(fs []*ast.File) (*Corpus, error) {
 }
 
 func (g *generator) structure(s *ast.Struct) ([]Vector, error) {
+	for _, w := range g.within {
+		if w == s {
+			return nil, fault.ErrNotImplemented // recursive
+		}
+	}
+	g.within = append(g.within, s)
 	restore := g.strct
 	g.strct = s
 	vs := []Vector{
@@ -135,6 +142,7 @@ func (g *generator) structure(s *ast.Struct) ([]Vector, error) {
 		v.Constraints.ClearLocal()
 	}
 	g.strct = restore
+	g.within = g.within[:len(g.within)-1]
 	return vs, nil
 }
 
-- 
2.43.0


From ffa165595324130271f73212b4d371aac5e1b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:11 +0000
Subject: [PATCH 01/17] fix: nul-terminated fields in structs whose name starts
 with i

The generated index variable shadowed the method receiver.
---
 gen/decl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index 77ec15e..4df0711 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -167,9 +167,13 @@ func (g *generator) parseMember(m ast.Member) {
 func (g *generator) parseType(lhs string, t ast.Type) {
 	switch t := t.(type) {
 	case *ast.NulTermString:
-		g.printf("i := bytes.IndexByte(%s, 0)\n", g.data)
-		g.printf("if i < 0 { return nil, errors.New(\"could not parse nul-term string\") }\n")
-		g.printf("%s, %s = string(%s[:i]), %s[i+1:]\n", lhs, g.data, g.data, g.data)
+		i := "i"
+		if g.receiver == i {
+			i = "j" // avoid shadowing the receiver
+		}
+		g.printf("%s := bytes.IndexByte(%s, 0)\n", i, g.data)
+		g.printf("if %s < 0 { return nil, errors.New(\"could not parse nul-term string\") }\n", i)
+		g.printf("%s, %s = string(%s[:%s]), %s[%s+1:]\n", lhs, g.data, g.data, i, g.data, i)
 
 	case *ast.IntType:
 		g.parseIntType(lhs, t)
-- 
2.43.0


From a68baff5727f92e17333e6f4f9c999d183322493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:51 +0000
Subject: [PATCH 02/17] fix: length fields wider than 16 bits in generated
 parsers

A 32- or 64-bit array length made the parser allocate that many elements
before reading any, or panic. A 64-bit union length could turn negative and
panic. Grow such arrays while elements are read, and compare union lengths
without narrowing.
---
 gen/decl.go | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index 4df0711..d527bb6 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -23,8 +23,9 @@ type generator struct {
 
 	resolver *inspect.Resolver
 
-	receiver string // method receiver variable
-	data     string // data variable
+	strct    *ast.Struct // struct being generated
+	receiver string      // method receiver variable
+	data     string      // data variable
 }
 
 func (g *generator) files(pkg string, fs []*ast.File) error {
@@ -73,12 +74,14 @@ func (g *generator) structure(s *ast.Struct) {
 		return
 	}
 
+	g.strct = s
 	g.receiver = strings.ToLower(s.Name[:1])
 
 	g.structDecl(s)
 	g.parse(s)
 	g.parseConstructor(s)
 
+	g.strct = nil
 	g.receiver = ""
 }
 
@@ -229,6 +232,16 @@ func (g *generator) parseArray(lhs string, base ast.Type, s ast.LengthConstraint
 		g.printf("}\n")
 
 	case *ast.IDRef:
+		if g.refsize(s) > 16 {
+			// Do not trust the input enough to allocate this much up front.
+			g.printf("%s = make([]%s, 0)\n", lhs, g.tipe(base))
+			g.printf("for idx := uint64(0); idx < uint64(%s); idx++ {\n", g.ref(s))
+			g.printf("var tmp %s\n", g.tipe(base))
+			g.parseType("tmp", base)
+			g.printf("%s = append(%s, tmp)\n", lhs, lhs)
+			g.printf("}\n")
+			return
+		}
 		size := fmt.Sprintf("int(%s)", g.ref(s))
 		g.printf("%s = make([]%s, %s)\n", lhs, g.tipe(base), size)
 		g.printf("for idx := 0; idx < %s; idx++ {\n", size)
@@ -290,7 +303,12 @@ func (g *generator) constrained(c ast.LengthConstraint, f func()) {
 
 	case *ast.IDRef:
 		n = fmt.Sprintf("int(%s)", g.ref(c))
-		g.lengthCheck(n)
+		if g.refsize(c) > 16 {
+			// Value may not fit in an int.
+			g.printf("if uint64(len(%s)) < uint64(%s) { return nil, errors.New(\"data too short\") }\n", g.data, g.ref(c))
+		} else {
+			g.lengthCheck(n)
+		}
 
 	default:
 		panic(unexpected(c))
@@ -311,6 +329,27 @@ func (g *generator) ref(r *ast.IDRef) string {
 	return r.Scope + "." + name(r.Name)
 }
 
+// refsize returns the size in bits of the integer field that r refers to, which
+// may be a member of a union case. Returns the maximum size if it's unknown.
+func (g *generator) refsize(r *ast.IDRef) uint {
+	if t, err := g.resolver.IntType(r, g.strct); err == nil {
+		return t.Size
+	}
+	for _, m := range g.strct.Members {
+		u, ok := m.(*ast.UnionMember)
+		if !ok || r.Scope != "" {
+			continue
+		}
+		for _, c := range u.Cases {
+			t, err := g.resolver.IntType(r, &ast.Struct{Members: c.Members})
+			if err == nil {
+				return t.Size
+			}
+		}
+	}
+	return 64
+}
+
 func (g *generator) lengthCheck(min string) {
 	g.printf("if len(%s) < %s { return nil, errors.New(\"data too short\") }\n", g.data, min)
 }
-- 
2.43.0


From 73ddde83c46b9ed956e440bef159bf2d66ce277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:04 +0000
Subject: [PATCH 03/17] fix: endless loop parsing remainder arrays of empty
 structs

A remainder array whose elements consume no data never reached the end of the
input. Report an error when an element that may be empty makes no progress.
---
 gen/decl.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/gen/decl.go b/gen/decl.go
index d527bb6..7636875 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -257,7 +257,14 @@ func (g *generator) parseArray(lhs string, base ast.Type, s ast.LengthConstraint
 		g.printf("%s = make([]%s, 0)\n", lhs, g.tipe(base))
 		g.printf("for len(%s) > 0 {\n", g.data)
 		g.printf("var tmp %s\n", g.tipe(base))
+		empty := g.mayBeEmpty(base, nil)
+		if empty {
+			g.printf("left := len(%s)\n", g.data)
+		}
 		g.parseType("tmp", base)
+		if empty {
+			g.printf("if len(%s) == left { return nil, errors.New(\"empty array element\") }\n", g.data)
+		}
 		g.printf("%s = append(%s, tmp)\n", lhs, lhs)
 		g.printf("}\n")
 
@@ -266,6 +273,36 @@ func (g *generator) parseArray(lhs string, base ast.Type, s ast.LengthConstraint
 	}
 }
 
+// mayBeEmpty reports whether parsing type t may consume no data. The given
+// outer structs are being checked already.
+func (g *generator) mayBeEmpty(t ast.Type, outer []string) bool {
+	switch t := t.(type) {
+	case *ast.IntType, *ast.CharType, *ast.NulTermString:
+		return false
+
+	case *ast.StructRef:
+		s, ok := g.resolver.Struct(t.Name)
+		if !ok || s.Extern() {
+			return true
+		}
+		for _, n := range outer {
+			if n == t.Name {
+				return true
+			}
+		}
+		for _, m := range s.Members {
+			f, ok := m.(*ast.Field)
+			if ok && !g.mayBeEmpty(f.Type, append(outer, t.Name)) {
+				return false
+			}
+		}
+		return true
+
+	default:
+		return true
+	}
+}
+
 func (g *generator) parseUnionMember(u *ast.UnionMember) {
 	if u.Length != nil {
 		g.constrained(u.Length, func() {
-- 
2.43.0


From c751110a8997195670067b60f2abac5a9a30f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:45 +0000
Subject: [PATCH 04/17] fix: test vectors of array elements overwrite each
 other

The data of an element with spare capacity was shared by all the vectors built
from it.
---
 tv/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index ea0fb7d..3427443 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -30,8 +30,11 @@ func cross(a, b []Vector) ([]Vector, error) {
 			if err != nil {
 				return nil, err
 			}
+			d := make([]byte, 0, len(u.Data)+len(w.Data))
+			d = append(d, u.Data...)
+			d = append(d, w.Data...)
 			v := Vector{
-				Data:        append(u.Data, w.Data...),
+				Data:        d,
 				Constraints: m,
 			}
 			p = append(p, v)
-- 
2.43.0


From 66edc60c99a1ebe60d1f855af6d9aa90e97546f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:49 +0000
Subject: [PATCH 05/17] fix: empty nested structs clear constraints of the
 enclosing struct

A struct without members leaves the current constraints alone, so that
clearing them afterwards dropped array lengths of the enclosing struct.
---
 tv/generator.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index 3427443..a3e93be 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -131,7 +131,6 @@ func (g *generator) structure(s *ast.Struct) ([]Vector, error) {
 	if err != nil {
 		return nil, err
 	}
-	g.constraints.ClearLocal()
 	for _, v := range vs {
 		v.Constraints.ClearLocal()
 	}
-- 
2.43.0


From cefcbc0d22c83c1668fbade14e2fd1f0be3d7c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:52 +0000
Subject: [PATCH 06/17] fix: conflicting constraints between elements of an
 array

Generation failed for arrays of structs that depend on a context in more than
one way. Build such elements under the constraints of the vectors they extend.
---
 tv/generator.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/tv/generator.go b/tv/generator.go
index a3e93be..373eae7 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -264,15 +264,38 @@ func (g *generator) array(base ast.Type, s ast.LengthConstraint) ([]Vector, erro
 		if err != nil {
 			return nil, err
 		}
-		v, err = cross(w, v)
+		p, err := cross(w, v)
+		if err != nil {
+			// Elements must agree on constraints: build one for each vector.
+			p, err = g.elements(base, v)
+		}
 		if err != nil {
 			return nil, err
 		}
-		v = g.selector.SelectVectors(v)
+		v = g.selector.SelectVectors(p)
 	}
 	return v, nil
 }
 
+// elements prepends an array element to each of the vectors, built under the
+// constraints of that vector.
+func (g *generator) elements(base ast.Type, vs []Vector) ([]Vector, error) {
+	extended := []Vector{}
+	for _, v := range vs {
+		g.constraints = v.Constraints.Clone()
+		w, err := g.field(&ast.Field{Type: base})
+		if err != nil {
+			return nil, err
+		}
+		p, err := cross(w, []Vector{v})
+		if err != nil {
+			return nil, err
+		}
+		extended = append(extended, p...)
+	}
+	return extended, nil
+}
+
 func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 	branches, err := inspect.NewBranches(g.resolver, g.strct, u)
 	if err != nil {
-- 
2.43.0


From 527b7a08c2abc8c7e4306df0c5ecdbf68cc4807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 07/17] fix: subtracting an empty interval set

The result was empty rather than unchanged.
---
 internal/intervals/intervals.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index a467908..3d217ad 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -117,6 +117,9 @@ func (s Set) Contains(x uint64) bool {
 
 // Subtract subtracts other from s.
 func (s *Set) Subtract(other *Set) {
+	if len(other.intervals) == 0 {
+		return
+	}
 	s.intervals = thresholds(2, s.intervals, complement(other.intervals))
 }
 
-- 
2.43.0


From 422f5c97df388b8d51fb646dfd18566e790f99b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:37 +0000
Subject: [PATCH 08/17] fix: endless loop choosing from the full 64-bit range

The size of the range overflows to zero.
---
 internal/intervals/intervals.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 3d217ad..6977aaf 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -213,6 +213,9 @@ func (s Set) RandomWithGenerator(rnd random.Interface) uint64 {
 			delta: i.hi - cuml + 1,
 		})
 	}
+	if cuml == 0 { // full 64-bit range
+		return randuint64(rnd)
+	}
 	r := randuint64n(rnd, cuml)
 	for _, step := range steps {
 		if r < step.upper {
-- 
2.43.0


From baf31facb6049e37b1d4c37f03a8efd6b8497248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:41 +0000
Subject: [PATCH 09/17] fix: panic generating vectors for unreachable default
 cases

The other cases may leave no tag values for the default.
---
 internal/intervals/intervals.go | 5 +++++
 tv/generator.go                 | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 6977aaf..92d5a7c 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -115,6 +115,11 @@ func (s Set) Contains(x uint64) bool {
 	return false
 }
 
+// Empty returns whether the set contains no integers.
+func (s Set) Empty() bool {
+	return len(s.intervals) == 0
+}
+
 // Subtract subtracts other from s.
 func (s *Set) Subtract(other *Set) {
 	if len(other.intervals) == 0 {
diff --git a/tv/generator.go b/tv/generator.go
index 373eae7..62d725b 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -317,6 +317,9 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 	results := []Vector{}
 
 	for _, b := range options {
+		if b.Set.Empty() {
+			continue
+		}
 		g.constraints = base.Clone()
 		g.constraints.LookupOrCreateRef(u.Tag, int64(b.Set.RandomWithGenerator(g.rnd))) // XXX cast
 		vs, err := g.members([]Vector{g.empty()}, b.Case.Members)
-- 
2.43.0


From e51bf85fc8184c9fd59025be1b32a2f54932f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:01 +0000
Subject: [PATCH 10/17] fix: test vectors ignore the type of tag and length
 fields

Tags and lengths were chosen regardless of the constraint on the field that
holds them, and lengths might not fit in it at all.
---
 internal/intervals/intervals.go |  5 ++++
 tv/generator.go                 | 53 +++++++++++++++++++++++++++++++--
 2 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 92d5a7c..71b6feb 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -128,6 +128,11 @@ func (s *Set) Subtract(other *Set) {
 	s.intervals = thresholds(2, s.intervals, complement(other.intervals))
 }
 
+// Intersect returns the integers contained in both a and b.
+func Intersect(a, b *Set) *Set {
+	return &Set{intervals: thresholds(2, a.intervals, b.intervals)}
+}
+
 // complement returns the "complement" of the intervals. In our case this is the
 // result of subtracting from the full 64-bit interval.
 func complement(is []Interval) []Interval {
diff --git a/tv/generator.go b/tv/generator.go
index 62d725b..8d66f71 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -6,8 +6,12 @@ import (
 	"github.com/mmcloughlin/trunnel/ast"
 	"github.com/mmcloughlin/trunnel/fault"
 	"github.com/mmcloughlin/trunnel/inspect"
+	"github.com/mmcloughlin/trunnel/internal/intervals"
 )
 
+// maxlen bounds the array lengths chosen when length fields are constrained.
+const maxlen = 1024
+
 // Vector is a test vector.
 type Vector struct {
 	Data        []byte
@@ -247,7 +251,19 @@ func (g *generator) array(base ast.Type, s ast.LengthConstraint) ([]Vector, erro
 		n = i
 
 	case *ast.IDRef:
-		n = iv.Constraints.LookupOrCreateRef(s, int64(g.randbtw(1, 20)))
+		possible, err := g.values(s)
+		if err != nil {
+			return nil, err
+		}
+		i := int64(g.randbtw(1, 20))
+		if !possible.Contains(uint64(i)) {
+			small := intervals.Intersect(possible, intervals.NewSet(intervals.OpenLeft(maxlen)))
+			if small.Empty() {
+				return []Vector{}, nil
+			}
+			i = int64(small.RandomWithGenerator(g.rnd))
+		}
+		n = iv.Constraints.LookupOrCreateRef(s, i)
 
 	case nil:
 		n = int64(g.randbtw(1, 20))
@@ -316,12 +332,18 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 	base := g.constraints.Clone()
 	results := []Vector{}
 
+	possible, err := g.values(u.Tag)
+	if err != nil {
+		return nil, err
+	}
+
 	for _, b := range options {
-		if b.Set.Empty() {
+		set := intervals.Intersect(b.Set, possible)
+		if set.Empty() {
 			continue
 		}
 		g.constraints = base.Clone()
-		g.constraints.LookupOrCreateRef(u.Tag, int64(b.Set.RandomWithGenerator(g.rnd))) // XXX cast
+		g.constraints.LookupOrCreateRef(u.Tag, int64(set.RandomWithGenerator(g.rnd))) // XXX cast
 		vs, err := g.members([]Vector{g.empty()}, b.Case.Members)
 		if err != nil {
 			return nil, err
@@ -343,9 +365,17 @@ func (g *generator) lenconstrain(c ast.LengthConstraint, vs []Vector) ([]Vector,
 		return nil, fault.ErrNotImplemented
 	}
 
+	possible, err := g.values(r)
+	if err != nil {
+		return nil, err
+	}
+
 	results := []Vector{}
 	for _, v := range vs {
 		n := int64(len(v.Data))
+		if !possible.Contains(uint64(n)) {
+			continue
+		}
 		cst := v.Constraints.Clone()
 		m := cst.LookupOrCreateRef(r, n)
 		if m != n {
@@ -360,6 +390,23 @@ func (g *generator) lenconstrain(c ast.LengthConstraint, vs []Vector) ([]Vector,
 	return results, nil
 }
 
+// values returns the set of values the referenced integer may take.
+func (g *generator) values(r *ast.IDRef) (*intervals.Set, error) {
+	t, err := g.resolver.IntType(r, g.strct)
+	if err != nil {
+		return intervals.IntType(64), nil // may be a field of a union case
+	}
+	s := intervals.IntType(t.Size)
+	if t.Constraint == nil {
+		return s, nil
+	}
+	c, err := g.resolver.Intervals(t.Constraint)
+	if err != nil {
+		return nil, err
+	}
+	return intervals.Intersect(s, c), nil
+}
+
 // empty returns an empty Vector with current constraints.
 func (g *generator) empty() Vector {
 	return g.vector([]byte{})
-- 
2.43.0


From cd11a01dc57f9c43aca8866503fec0fef9a448e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:43 +0000
Subject: [PATCH 11/17] fix: panic on reversed integer ranges

Report an error instead.
---
 inspect/inspect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 4ab5937..65c199d 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -222,6 +222,9 @@ func (r *Resolver) Intervals(l *ast.IntegerList) (*intervals.Set, error) {
 		if err != nil {
 			return nil, err
 		}
+		if hi < lo {
+			return nil, errors.New("reversed range")
+		}
 		is[i] = intervals.Range(uint64(lo), uint64(hi)) // XXX cast
 	}
 	if intervals.Overlaps(is) {
-- 
2.43.0


From 3805ade28861e90ae80f189c9ace7ecaba6fb18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:41 +0000
Subject: [PATCH 12/17] fix: stack overflow generating vectors for recursive
 structs

Treat them as not implemented.
---
 tv/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tv/generator.go b/tv/generator.go
index 8d66f71..c2fe1c3 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -51,6 +51,7 @@ type generator struct {
 	resolver    *inspect.Resolver
 	constraints Constraints
 	strct       *ast.Struct
+	active      map[*ast.Struct]bool // structs being generated
 
 	selector Selector
 	rnd      random.Interface
@@ -64,6 +65,7 @@ func Generate(f *ast.File, opts ...Option) (*Corpus, error) {
 // GenerateFiles generates test vectors for the types in the given files.
 func GenerateFiles(fs []*ast.File, opts ...Option) (*Corpus, error) {
 	g := &generator{
+		active:   map[*ast.Struct]bool{},
 		selector: Exhaustive,
 		rnd:      random.New(),
 	}
@@ -123,6 +125,12 @@ func (g *generator) files(fs []*ast.File) (*Corpus, error) {
 }
 
 func (g *generator) structure(s *ast.Struct) ([]Vector, error) {
+	if g.active[s] {
+		return nil, fault.ErrNotImplemented // recursive struct
+	}
+	g.active[s] = true
+	defer delete(g.active, s)
+
 	restore := g.strct
 	g.strct = s
 	vs := []Vector{
-- 
2.43.0


From 86b2d3f8e4447b5e996b87e77c28cb26200ffe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:44 +0000
Subject: [PATCH 13/17] fix: generated tests of structs with unused contexts do
 not compile

The tests and fuzzers called their parsers without the context arguments when
no vector had constraints.
---
 gen/core.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/gen/core.go b/gen/core.go
index 938731c..dc596b1 100644
--- a/gen/core.go
+++ b/gen/core.go
@@ -64,6 +64,9 @@ func Package(cfg Config, fs []*ast.File) error {
 		return err
 	}
 
+	// Tests and fuzzers have no contexts to pass to the parsers
+	c = contextFree(c, fs)
+
 	// Test file
 	b, err = CorpusTests(cfg.PackageName(), c)
 	if err != nil {
@@ -85,6 +88,23 @@ func Package(cfg Config, fs []*ast.File) error {
 	return nil
 }
 
+// contextFree returns the part of the corpus for types declared without contexts.
+func contextFree(c *tv.Corpus, fs []*ast.File) *tv.Corpus {
+	contexts := map[string]bool{}
+	for _, f := range fs {
+		for _, s := range f.Structs {
+			contexts[s.Name] = contexts[s.Name] || len(s.Contexts) > 0
+		}
+	}
+	free := &tv.Corpus{}
+	for _, s := range c.Suites {
+		if !contexts[s.Type] {
+			free.AddSuite(s)
+		}
+	}
+	return free
+}
+
 func name(n string) string {
 	return snaker.SnakeToCamel(strings.ToLower(n))
 }
-- 
2.43.0


From 7f0ff91fb41b65cf060dc49b7b9dd7f8d02557e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:20 +0000
Subject: [PATCH 14/17] fix: generation panics or succeeds on undefined names

Check constants, structs, contexts, tags and lengths before generating code.
---
 gen/decl.go      |  13 +++++-
 inspect/check.go | 119 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 130 insertions(+), 2 deletions(-)
 create mode 100644 inspect/check.go

diff --git a/gen/decl.go b/gen/decl.go
index 7636875..24c0487 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -44,9 +44,18 @@ func (g *generator) files(pkg string, fs []*ast.File) error {
 	return nil
 }
 
-func (g *generator) init(fs []*ast.File) (err error) {
+func (g *generator) init(fs []*ast.File) error {
+	var err error
 	g.resolver, err = inspect.NewResolverFiles(fs)
-	return
+	if err != nil {
+		return err
+	}
+	for _, f := range fs {
+		if err := g.resolver.Check(f); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (g *generator) file(f *ast.File) error {
diff --git a/inspect/check.go b/inspect/check.go
new file mode 100644
index 0000000..f3e75b4
--- /dev/null
+++ b/inspect/check.go
@@ -0,0 +1,119 @@
+package inspect
+
+import (
+	"errors"
+
+	"github.com/mmcloughlin/trunnel/ast"
+	"github.com/mmcloughlin/trunnel/fault"
+)
+
+// Check verifies that everything the declarations in f refer to can be resolved.
+func (r *Resolver) Check(f *ast.File) error {
+	for _, ctx := range f.Contexts {
+		for _, m := range ctx.Members {
+			if err := r.checkType(nil, m.Type); err != nil {
+				return err
+			}
+		}
+	}
+	for _, s := range f.Structs {
+		for _, n := range s.Contexts {
+			if _, ok := r.Context(n); !ok {
+				return errors.New("could not find context")
+			}
+		}
+		if err := r.checkMembers(s, s.Members); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (r *Resolver) checkMembers(s *ast.Struct, ms []ast.Member) error {
+	for _, m := range ms {
+		var err error
+		switch m := m.(type) {
+		case *ast.Field:
+			err = r.checkType(s, m.Type)
+		case *ast.UnionMember:
+			err = r.checkUnion(s, m)
+		}
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (r *Resolver) checkUnion(s *ast.Struct, u *ast.UnionMember) error {
+	if _, err := r.IntType(u.Tag, s); err != nil {
+		return err
+	}
+	if err := r.checkLength(s, u.Length); err != nil {
+		return err
+	}
+	for _, c := range u.Cases {
+		if c.Case != nil {
+			if _, err := r.Intervals(c.Case); err != nil {
+				return err
+			}
+		}
+		if err := r.checkMembers(s, c.Members); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (r *Resolver) checkType(s *ast.Struct, t ast.Type) error {
+	switch t := t.(type) {
+	case *ast.IntType:
+		if t.Constraint != nil {
+			_, err := r.Intervals(t.Constraint)
+			return err
+		}
+	case *ast.StructRef:
+		if _, ok := r.Struct(t.Name); !ok {
+			return errors.New("struct not found")
+		}
+	case *ast.FixedArrayMember:
+		if _, err := r.Integer(t.Size); err != nil {
+			return err
+		}
+		return r.checkType(s, t.Base)
+	case *ast.VarArrayMember:
+		if err := r.checkLength(s, t.Constraint); err != nil {
+			return err
+		}
+		return r.checkType(s, t.Base)
+	}
+	return nil
+}
+
+func (r *Resolver) checkLength(s *ast.Struct, l ast.LengthConstraint) error {
+	switch l := l.(type) {
+	case nil:
+		return nil
+	case *ast.Leftover:
+		_, err := r.Integer(l.Num)
+		return err
+	case *ast.IDRef:
+		_, err := r.IntType(l, withCaseFields(s))
+		return err
+	default:
+		return fault.NewUnexpectedType(l)
+	}
+}
+
+// withCaseFields returns a struct with the fields of s and its union cases.
+func withCaseFields(s *ast.Struct) *ast.Struct {
+	all := &ast.Struct{Members: append([]ast.Member{}, s.Members...)}
+	for _, m := range s.Members {
+		if u, ok := m.(*ast.UnionMember); ok {
+			for _, c := range u.Cases {
+				all.Members = append(all.Members, c.Members...)
+			}
+		}
+	}
+	return all
+}
-- 
2.43.0


From 96a26580abdf214ee66b1ad5d3137b56af60868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:21 +0000
Subject: [PATCH 15/17] fix: do not build array vectors of a length too large
 to hold

An array whose length field is also the tag of a union takes over the tag's
value. Tags are chosen from the whole range of the field, so generation could
try to build billions of elements, or none for values that do not fit in an
int64. Leave out vectors with arrays that long.
---
 tv/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tv/generator.go b/tv/generator.go
index c2fe1c3..482523b 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -272,6 +272,9 @@ func (g *generator) array(base ast.Type, s ast.LengthConstraint) ([]Vector, erro
 			i = int64(small.RandomWithGenerator(g.rnd))
 		}
 		n = iv.Constraints.LookupOrCreateRef(s, i)
+		if n < 0 || n > maxlen {
+			return []Vector{}, nil // value required elsewhere is too large
+		}
 
 	case nil:
 		n = int64(g.randbtw(1, 20))
-- 
2.43.0


From 72a90805adadfbe9eb33c4ca2383407247e8a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:53 +0000
Subject: [PATCH 16/17] fix: name the receiver of structs whose name starts
 with an underscore

The receiver was the blank identifier, so the generated code did not compile.
---
 gen/decl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gen/decl.go b/gen/decl.go
index 24c0487..0386c16 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -85,6 +85,9 @@ func (g *generator) structure(s *ast.Struct) {
 
 	g.strct = s
 	g.receiver = strings.ToLower(s.Name[:1])
+	if g.receiver == "_" {
+		g.receiver = "s" // the blank identifier cannot be referred to
+	}
 
 	g.structDecl(s)
 	g.parse(s)
-- 
2.43.0


From 2ba54cce6e506327e0ff1198ed134213f0951e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:53 +0000
Subject: [PATCH 17/17] fix: build array elements anew if the last one left no
 choice

An element was built under the constraints left behind by the one before it.
If those belong to a case that always fails there are no vectors for the next
element, and so none for the whole array.
---
 tv/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index 482523b..2d8b2d0 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -292,7 +292,7 @@ func (g *generator) array(base ast.Type, s ast.LengthConstraint) ([]Vector, erro
 			return nil, err
 		}
 		p, err := cross(w, v)
-		if err != nil {
+		if err != nil || len(p) == 0 {
 			// Elements must agree on constraints: build one for each vector.
 			p, err = g.elements(base, v)
 		}
-- 
2.43.0


// Command rmon monitors name resolution and union branches.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/inspect"

	"github.com/mmcloughlin/trunnel/verif/interp"
	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

func main() {
	id := ""
	if len(os.Args) > 1 {
		id = os.Args[1]
	}
	body, ok := map[string]func(*report.Run){"C21": c21, "C22": c22}[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "usage: rmon ID")
		os.Exit(2)
	}
	report.Main(id, "exploration", func(r *report.Run) {
		r.Brief = true
		body(r)
	})
}

// ---- C21

var structNames = []string{"a", "b", "ab", "A", "c", "d2", "_e", "longer_name"}
var ctxNames = []string{"a", "b", "ctx", "c2", "longer_name"}
var constNames = []string{"A", "B", "AB", "C_1", "LONGER_NAME"}
var fieldNames = []string{"x", "y", "xy", "X", "n", "longer_name"}

// near adds names that differ little from the given ones.
func near(names []string) []string {
	out := append([]string{}, names...)
	seen := map[string]bool{}
	for _, n := range out {
		seen[n] = true
	}
	for _, n := range names {
		for _, v := range []string{strings.ToUpper(n), strings.ToLower(n), strings.Title(n), n + "_", "_" + n, n + "0", n[:len(n)-1], n[1:], strings.ReplaceAll(n, "_", ""), " " + n, n[:len(n)-1] + strings.ToUpper(n[len(n)-1:])} {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return out
}

var structProbes, ctxProbes, constProbes, fieldProbes = near(structNames), near(ctxNames), near(constNames), near(fieldNames)

// state is the model of a resolver.
type state struct {
	structs map[string]*ast.Struct
	ctxs    map[string]*ast.Context
	consts  map[string]int64
	dumps   map[interface{}]string // declarations as they were added
}

func newState() *state {
	return &state{map[string]*ast.Struct{}, map[string]*ast.Context{}, map[string]int64{}, map[interface{}]string{}}
}

// constant is a value for a constant, rarely a large one.
func constant(rng *rand.Rand) int64 {
	if rng.Intn(5) == 0 {
		return pick64(rng, 1<<62, 1<<62-1, math.MaxInt64, math.MaxInt64-1, 1<<32, 1<<31, 255, 65536)
	}
	return int64(rng.Intn(3) * 7)
}

func pick64(rng *rand.Rand, vs ...int64) int64 { return vs[rng.Intn(len(vs))] }

func pick(rng *rand.Rand, s []string) string { return s[rng.Intn(len(s))] }

func intType(rng *rand.Rand) *ast.IntType {
	t := &ast.IntType{Size: 8 << uint(rng.Intn(4))}
	if rng.Intn(4) > 0 {
		// A list of its own tells the type from others of the same size.
		t.Constraint = ast.NewIntegerList(ast.NewIntegerRangeLiteral(0, rng.Int63n(100000)))
	}
	return t
}

// same reports whether two declarations or types say the same.
func same(a, b interface{}) bool {
	return a == b || stage.Dump(a) == stage.Dump(b)
}

// someStruct makes a struct with distinct field names of all kinds.
func someStruct(rng *rand.Rand, name string, extern bool) *ast.Struct {
	s := &ast.Struct{Name: name}
	for _, i := range rng.Perm(len(ctxNames))[:rng.Intn(3)] {
		s.Contexts = append(s.Contexts, ctxNames[i])
	}
	if extern {
		return s
	}
	s.Members = []ast.Member{}
	var names []string
	for _, i := range rng.Perm(len(fieldNames))[:rng.Intn(len(fieldNames)+1)] {
		names = append(names, fieldNames[i])
	}
	if rng.Intn(10) == 0 {
		for k, n := 0, rng.Intn(30); k < n; k++ {
			i := rng.Intn(len(names) + 1)
			names = append(names[:i:i], append([]string{fmt.Sprint("f", k)}, names[i:]...)...)
		}
	}
	for _, n := range names {
		var t ast.Type
		switch rng.Intn(11) {
		case 9:
			t = &ast.CharType{}
		case 10:
			t = &ast.FixedArrayMember{Base: &ast.CharType{}, Size: &ast.IntegerLiteral{Value: 2}}
		case 0:
			t = &ast.NulTermString{}
		case 1:
			t = &ast.StructRef{Name: "a"}
		case 2:
			t = &ast.Ptr{}
		case 3:
			t = &ast.FixedArrayMember{Base: ast.U8, Size: &ast.IntegerLiteral{Value: 2}}
		case 4:
			t = &ast.VarArrayMember{Base: ast.U16}
		default:
			t = intType(rng)
		}
		s.Members = append(s.Members, &ast.Field{Name: n, Type: t})
		switch rng.Intn(8) {
		case 0:
			u := &ast.UnionMember{Name: "u", Tag: &ast.IDRef{Name: n}}
			switch rng.Intn(3) {
			case 0:
				u.Length = &ast.IDRef{Name: n}
			case 1:
				u.Length = &ast.Leftover{Num: &ast.IntegerLiteral{Value: 1}}
			}
			if rng.Intn(2) == 0 {
				u.Cases = []*ast.UnionCase{{Case: ast.NewIntegerList(ast.NewIntegerRangeLiteral(0, 1)), Members: []ast.Member{&ast.Ignore{}}}, {}}
			}
			s.Members = append(s.Members, u)
		case 1:
			s.Members = append(s.Members, &ast.EOS{})
		}
	}
	return s
}

func someContext(rng *rand.Rand, name string) *ast.Context {
	c := &ast.Context{Name: name}
	if rng.Intn(6) == 0 {
		for k, n := 0, rng.Intn(20); k < n; k++ {
			c.Members = append(c.Members, &ast.Field{Name: fmt.Sprintf("more%d", k), Type: intType(rng)})
		}
	}
	for _, i := range rng.Perm(len(fieldNames))[:1+rng.Intn(3)] {
		var t ast.Type = intType(rng)
		switch rng.Intn(16) {
		case 0:
			t = &ast.NulTermString{}
		case 1:
			t = &ast.CharType{}
		}
		c.Members = append(c.Members, &ast.Field{Name: fieldNames[i], Type: t})
	}
	return c
}

// verdict of the model on an operation.
type verdict int

const (
	mustWork verdict = iota
	mustFail
	mayFail // an extern declaration after the definition
)

func (st *state) addStruct(s *ast.Struct) verdict {
	st.dumps[s] = stage.Dump(s)
	old := st.structs[s.Name]
	switch {
	case old == nil || old.Extern():
		st.structs[s.Name] = s
		return mustWork
	case s.Extern():
		return mayFail
	}
	return mustFail
}

func (st *state) addContext(c *ast.Context) verdict {
	st.dumps[c] = stage.Dump(c)
	if st.ctxs[c.Name] != nil {
		return mustFail
	}
	st.ctxs[c.Name] = c
	return mustWork
}

func (st *state) setConst(n string, v int64) verdict {
	if w, ok := st.consts[n]; ok && w != v {
		return mustFail
	}
	st.consts[n] = v
	return mustWork
}

type resolverRun struct {
	*report.Run
	rng     *rand.Rand
	st      *state
	r       *inspect.Resolver
	history []string
}

func (h *resolverRun) text() string { return strings.Join(h.history, "\n") }

func (h *resolverRun) fail(key, what string) { h.Violation("C21:"+key, what, h.text()) }

func (h *resolverRun) outcome(key string, v verdict, err error) {
	switch {
	case v == mustFail && err == nil:
		h.fail(key+"-accepted", "no error")
	case v == mustWork && err != nil:
		h.fail(key+"-refused", "error: "+err.Error())
	case v == mustFail:
		h.Count("errors_"+key, 1)
	}
}

// check compares all lookups with the model.
func (h *resolverRun) check() {
	var names []string
	for _, n := range append(structProbes[:len(structProbes):len(structProbes)], "zz") {
		s, ok := h.r.Struct(n)
		want := h.st.structs[n]
		if ok != (want != nil) || ok && !same(s, want) {
			h.fail("struct", fmt.Sprintf("Struct(%q) gives %p %v, want %p", n, s, ok, want))
		}
		d, err := h.r.StructNonExtern(n)
		switch {
		case want == nil || want.Extern():
			if err == nil {
				h.fail("non-extern", fmt.Sprintf("StructNonExtern(%q) gives no error", n))
			}
		case err != nil || !same(d, want):
			h.fail("non-extern", fmt.Sprintf("StructNonExtern(%q) gives %p %v, want %p", n, d, err, want))
		}
		if want != nil {
			names = append(names, n)
		}
	}
	var all []string
	for _, s := range h.r.Structs() {
		all = append(all, s.Name)
		if want := h.st.structs[s.Name]; want != nil && !same(s, want) {
			h.fail("structs", "Structs lists another "+s.Name)
		}
	}
	sort.Strings(all)
	sort.Strings(names)
	if strings.Join(all, " ") != strings.Join(names, " ") {
		h.fail("structs", fmt.Sprintf("Structs gives %v, want %v", all, names))
	}
	for _, n := range append(ctxProbes[:len(ctxProbes):len(ctxProbes)], "zz") {
		c, ok := h.r.Context(n)
		if want := h.st.ctxs[n]; ok != (want != nil) || ok && !same(c, want) {
			h.fail("context", fmt.Sprintf("Context(%q) gives %p %v", n, c, ok))
		}
	}
	for _, n := range append(constProbes[:len(constProbes):len(constProbes)], "zz") {
		v, ok := h.r.Constant(n)
		want, has := h.st.consts[n]
		if ok != has || ok && v != want {
			h.fail("constant", fmt.Sprintf("Constant(%q) gives %d %v, want %d %v", n, v, ok, want, has))
		}
		i, err := h.r.Integer(&ast.IntegerConstRef{Name: n})
		if (err == nil) != has || has && i != want {
			h.fail("integer", fmt.Sprintf("Integer(%q) gives %d %v, want %d %v", n, i, err, want, has))
		}
	}
	v := h.rng.Int63()
	if i, err := h.r.Integer(&ast.IntegerLiteral{Value: v}); err != nil || i != v {
		h.fail("integer", fmt.Sprintf("Integer(%d) gives %d %v", v, i, err))
	}
	h.refs()
	h.lists()
	for d, was := range h.st.dumps {
		if now := stage.Dump(d); now != was {
			h.fail("altered", "a declaration is altered: "+was+" is now "+now)
		}
	}
}

// refs compares references to fields.
func (h *resolverRun) refs() {
	var locals []*ast.Struct
	for _, n := range structNames {
		if s := h.st.structs[n]; s != nil {
			locals = append(locals, s)
		}
	}
	locals = append(locals, someStruct(h.rng, "elsewhere", false))
	for _, s := range locals {
		for _, scope := range append([]string{"", "zz", pick(h.rng, ctxProbes)}, ctxNames...) {
			probes := append(fieldNames[:len(fieldNames):len(fieldNames)], "u", "zz", pick(h.rng, fieldProbes), pick(h.rng, fieldProbes))
			for _, f := range probes {
				var want *ast.IntType
				var fields []*ast.Field
				if scope == "" {
					for _, m := range s.Members {
						if x, ok := m.(*ast.Field); ok {
							fields = append(fields, x)
						}
					}
				} else if c := h.st.ctxs[scope]; c != nil {
					fields = c.Members
				}
				for _, x := range fields {
					if x.Name == f {
						want, _ = x.Type.(*ast.IntType)
					}
				}
				got, err := h.r.IntType(&ast.IDRef{Scope: scope, Name: f}, s)
				if (err == nil) != (want != nil) || err == nil && !same(got, want) {
					h.fail("reference", fmt.Sprintf("IntType(%q.%q) in %s gives %v %v, want %v", scope, f, describe(s), got, err, want))
				}
				if want != nil {
					h.Count("references", 1)
				} else {
					h.Count("bad_references", 1)
				}
			}
		}
	}
}

// lists compares integer lists.
func (h *resolverRun) lists() {
	n := 1 + h.rng.Intn(4)
	integer := func() (ast.Integer, uint64, bool) {
		if h.rng.Intn(3) == 0 {
			n := pick(h.rng, append(constNames, "zz"))
			v, ok := h.st.consts[n]
			return &ast.IntegerConstRef{Name: n}, uint64(v), ok || false
		}
		v := uint64(h.rng.Intn(40))
		if h.rng.Intn(6) == 0 {
			v = uint64(h.rng.Int63())
		}
		return &ast.IntegerLiteral{Value: int64(v)}, v, true
	}
	type iv struct{ lo, hi uint64 }
	l := &ast.IntegerList{}
	var ivs []iv
	good := true
	var desc []string
	for k := 0; k < n; k++ {
		a, lo, ok := integer()
		r := &ast.IntegerRange{Low: a}
		hi := lo
		good = good && ok
		if h.rng.Intn(2) == 0 {
			b, x, ok := integer()
			good = good && ok
			if ok && x < lo && h.rng.Intn(8) > 0 {
				b, x = a, lo
			}
			r.High, hi = b, x
		}
		desc = append(desc, fmt.Sprintf("%v-%v", a, r.High))
		good = good && lo <= hi
		for _, i := range ivs {
			good = good && (hi < i.lo || i.hi < lo)
		}
		ivs = append(ivs, iv{lo, hi})
		l.Ranges = append(l.Ranges, r)
	}
	if h.rng.Intn(8) == 0 {
		// A long list, with at most one overlap.
		l, ivs, desc, good = &ast.IntegerList{}, nil, nil, true
		at := uint64(h.rng.Intn(10))
		for k, n := 0, 5+h.rng.Intn(30); k < n; k++ {
			i := iv{at, at + uint64(h.rng.Intn(3)*h.rng.Intn(20))}
			at = i.hi + 1 + uint64(h.rng.Intn(2)*h.rng.Intn(50))
			if k == n-1 && h.rng.Intn(2) == 0 {
				j := ivs[h.rng.Intn(len(ivs))]
				i, good = iv{j.hi, j.hi}, false
			}
			ivs = append(ivs, i)
		}
		h.rng.Shuffle(len(ivs), func(i, j int) { ivs[i], ivs[j] = ivs[j], ivs[i] })
		for _, i := range ivs {
			r := &ast.IntegerRange{Low: &ast.IntegerLiteral{Value: int64(i.lo)}}
			if i.lo != i.hi || h.rng.Intn(4) == 0 {
				r.High = &ast.IntegerLiteral{Value: int64(i.hi)}
			}
			l.Ranges = append(l.Ranges, r)
		}
		h.Count("long_lists", 1)
	}
	s, err := h.r.Intervals(l)
	d := fmt.Sprintf("list %v (%v)", ivs, desc)
	if good != (err == nil) {
		h.fail("list", fmt.Sprintf("%s: error %v, want success %v", d, err, good))
		return
	}
	if !good {
		h.Count("bad_lists", 1)
		return
	}
	h.Count("lists", 1)
	for _, i := range ivs {
		for _, x := range []uint64{i.lo, i.lo - 1, i.hi, i.hi + 1, (i.lo + i.hi) / 2} {
			want := false
			for _, j := range ivs {
				want = want || j.lo <= x && x <= j.hi
			}
			if s.Contains(x) != want {
				h.fail("list", fmt.Sprintf("%s gives %s, wrong about %d", d, s, x))
				return
			}
		}
	}
}

func describe(s *ast.Struct) string {
	if s.Extern() {
		return "extern " + s.Name
	}
	var fs []string
	for _, m := range s.Members {
		switch m := m.(type) {
		case *ast.Field:
			fs = append(fs, fmt.Sprintf("%T %s", m.Type, m.Name))
		default:
			fs = append(fs, fmt.Sprintf("%T", m))
		}
	}
	return s.Name + "{" + strings.Join(fs, "; ") + "}"
}

// file makes a file; within one file every name is declared once, unless dup.
func (h *resolverRun) file(dup string) *ast.File {
	f := &ast.File{}
	rng := h.rng
	some := func(n, few int) int {
		if rng.Intn(6) == 0 {
			return rng.Intn(n + 1)
		}
		return rng.Intn(few)
	}
	for _, i := range rng.Perm(len(structNames))[:some(len(structNames), 3)] {
		f.Structs = append(f.Structs, someStruct(rng, structNames[i], rng.Intn(3) == 0))
	}
	for _, i := range rng.Perm(len(ctxNames))[:some(len(ctxNames), 2)] {
		f.Contexts = append(f.Contexts, someContext(rng, ctxNames[i]))
	}
	for _, i := range rng.Perm(len(constNames))[:some(len(constNames), 3)] {
		f.Constants = append(f.Constants, &ast.Constant{Name: constNames[i], Value: constant(rng)})
	}
	switch dup {
	case "struct":
		n := pick(rng, structNames)
		f.Structs = append(f.Structs, someStruct(rng, n, false), someStruct(rng, "other", true), someStruct(rng, n, false))
	case "context":
		n := pick(rng, ctxNames)
		f.Contexts = append(f.Contexts, someContext(rng, n), someContext(rng, n))
	case "constant":
		n := pick(rng, constNames)
		f.Constants = append(f.Constants, &ast.Constant{Name: n, Value: 3}, &ast.Constant{Name: n, Value: 4})
	}
	rng.Shuffle(len(f.Structs), func(i, j int) { f.Structs[i], f.Structs[j] = f.Structs[j], f.Structs[i] })
	return f
}

func describeFile(f *ast.File) string {
	var s []string
	for _, x := range f.Structs {
		s = append(s, describe(x))
	}
	for _, c := range f.Contexts {
		s = append(s, fmt.Sprintf("context %s (%d fields)", c.Name, len(c.Members)))
	}
	for _, c := range f.Constants {
		s = append(s, fmt.Sprintf("const %s = %d", c.Name, c.Value))
	}
	return strings.Join(s, ", ")
}

// addFile is the model of AddFile.
func (st *state) addFile(f *ast.File) verdict {
	worst := mustWork
	note := func(v verdict) {
		if v == mustFail || v == mayFail && worst == mustWork {
			worst = v
		}
	}
	seen := map[string]bool{}
	for _, s := range f.Structs {
		if seen["s"+s.Name] {
			note(mustFail)
		}
		seen["s"+s.Name] = true
		note(st.addStruct(s))
	}
	for _, c := range f.Contexts {
		note(st.addContext(c))
	}
	for _, c := range f.Constants {
		note(st.setConst(c.Name, c.Value))
	}
	return worst
}

func c21(r *report.Run) {
	r.Rule = "random sequences of declarations added singly and by file to a resolver over small name pools; after every step all lookups, field references of every struct and random integer lists are compared with a map model; non-trivial: distinct history"
	r.Assume("an extern declaration after the definition may be refused or ignored; one file declares no name twice except where an error is expected")
	r.Parallel("history", r.Pick(12000, 150000), func(i int, rng *rand.Rand) {
		h := &resolverRun{Run: r, rng: rng, st: newState()}
		done := false
		step := func(d string, f func()) {
			h.history = append(h.history, d)
			if p := r.Case(h.text(), f); p != nil {
				h.fail("panic", p.Error()+"\n"+p.Stack)
				done = true
			}
			r.Eval(1)
		}
		// Begin in one of three ways.
		switch rng.Intn(3) {
		case 0:
			step("NewResolverEmpty", func() { h.r = inspect.NewResolverEmpty() })
		case 1:
			f := h.file("")
			step("NewResolver "+describeFile(f), func() {
				v := h.st.addFile(f)
				var err error
				h.r, err = inspect.NewResolver(f)
				h.outcome("new", v, err)
				done = err != nil
			})
		default:
			var fs []*ast.File
			var ds []string
			for k, n := 0, rng.Intn(4); k < n; k++ {
				fs = append(fs, h.file(""))
				ds = append(ds, describeFile(fs[k]))
			}
			step("NewResolverFiles "+strings.Join(ds, " | "), func() {
				v := mustWork
				for _, f := range fs {
					if w := h.st.addFile(f); w == mustFail || w == mayFail && v == mustWork {
						v = w
					}
				}
				var err error
				h.r, err = inspect.NewResolverFiles(fs)
				h.outcome("files", v, err)
				done = err != nil
			})
		}
		for k, n := 0, 3+rng.Intn(10); k < n && !done; k++ {
			step("check", h.check)
			h.history = h.history[:len(h.history)-1]
			if done || r.Violated() {
				return
			}
			switch rng.Intn(9) {
			case 0, 1, 2:
				s := someStruct(rng, pick(rng, structNames), rng.Intn(3) == 0)
				step("AddStruct "+describe(s), func() { h.outcome("struct", h.st.addStruct(s), h.r.AddStruct(s)) })
			case 3:
				c := someContext(rng, pick(rng, ctxNames))
				step("AddContext "+c.Name, func() { h.outcome("context", h.st.addContext(c), h.r.AddContext(c)) })
			case 4, 5:
				n, v := pick(rng, constNames), constant(rng)
				one := rng.Intn(2) == 0
				step(fmt.Sprintf("constant %s = %d", n, v), func() {
					w := h.st.setConst(n, v)
					if one {
						h.outcome("constant", w, h.r.AddConstant(&ast.Constant{Name: n, Value: v}))
					} else {
						h.outcome("constant", w, h.r.SetConstant(n, v))
					}
				})
			default:
				dup := ""
				if rng.Intn(4) == 0 {
					dup = []string{"struct", "context", "constant"}[rng.Intn(3)]
				}
				f := h.file(dup)
				step("AddFile "+describeFile(f), func() {
					v := h.st.addFile(f)
					err := h.r.AddFile(f)
					h.outcome("file", v, err)
					if dup == "" {
						h.index(f)
					} else {
						_, e1 := inspect.Structs(f)
						_, e2 := inspect.Contexts(f)
						_, e3 := inspect.Constants(f)
						if (e1 != nil) != (dup == "struct") && dup == "struct" || (e2 != nil) != (dup == "context") || (e3 != nil) != (dup == "constant") {
							h.fail("index", fmt.Sprintf("a duplicate %s is not reported by the index functions: %v %v %v", dup, e1, e2, e3))
						}
					}
					done = err != nil // what was added is not specified
				})
			}
		}
		r.Distinct(h.text())
		if i < 3 {
			r.Sample(h.text())
		}
	})
	for _, c := range []string{"errors_struct", "errors_context", "errors_constant", "errors_file", "lists", "bad_lists", "references", "bad_references", "indexes", "long_lists"} {
		r.Require(c, 50)
	}
}

// index compares the index functions with the declarations of a file that
// declares no name twice.
func (h *resolverRun) index(f *ast.File) {
	ss, e1 := inspect.Structs(f)
	cs, e2 := inspect.Contexts(f)
	ks, e3 := inspect.Constants(f)
	if e1 != nil || e2 != nil || e3 != nil || len(ss) != len(f.Structs) || len(cs) != len(f.Contexts) || len(ks) != len(f.Constants) {
		h.fail("index", fmt.Sprintf("the index functions give %d structs, %d contexts, %d constants, errors %v %v %v", len(ss), len(cs), len(ks), e1, e2, e3))
		return
	}
	for _, s := range f.Structs {
		if ss[s.Name] != s {
			h.fail("index", "Structs gives another "+s.Name)
		}
	}
	for _, c := range f.Contexts {
		if cs[c.Name] != c {
			h.fail("index", "Contexts gives another "+c.Name)
		}
	}
	for _, c := range f.Constants {
		if v, ok := ks[c.Name]; !ok || v != c.Value {
			h.fail("index", fmt.Sprintf("Constants gives %d %v for %s", v, ok, c.Name))
		}
	}
	h.Count("indexes", 1)
}

// ---- C22

func c22(r *report.Run) {
	r.Rule = "unions of random specifications, parsed by the real parser, and unions with overlapping cases; all 256 tags of 8-bit unions, all 65536 tags of some 16-bit ones, all range ends and their neighbours of the others; non-trivial: distinct union"
	p := specgen.Full()
	p.Union, p.Structs, p.FullTag, p.Context = 10, 6, 15, 30
	r.Parallel("spec", r.Pick(2500, 20000), func(i int, rng *rand.Rand) {
		u := stage.New(rng, specgen.Spec(rng, p))
		if !u.Parse(r) {
			return
		}
		res, err := inspect.NewResolverFiles(u.Trees)
		if err != nil {
			r.Violation("C22:resolver", "a well-formed file is refused: "+err.Error(), u.String())
			return
		}
		for _, s := range u.Trees[0].Structs {
			ms := u.Env.Structs[s.Name]
			for k, m := range s.Members {
				um, ok := m.(*ast.UnionMember)
				if !ok {
					continue
				}
				mu := ms.Members[k]
				bits := tagBits(u.Env, ms, mu.Tag)
				r.Distinct(fmt.Sprint(i, s.Name, um.Name))
				branches(r, res, s, um, func(x uint64) int { return u.Env.Select(mu, x) }, bounds(u.Env, mu), bits, true, rng,
					fmt.Sprintf("union %s of struct %s of\n%s", um.Name, s.Name, u))
			}
		}
		if i < 2 {
			r.Sample(u.String())
		}
	})
	// Cases that overlap each other, and mistakes.
	r.Parallel("made", r.Pick(6000, 60000), func(i int, rng *rand.Rand) {
		bits := 8 << uint(rng.Intn(4))
		s := &ast.Struct{Name: "s", Members: []ast.Member{
			&ast.Field{Name: "t", Type: &ast.IntType{Size: uint(bits)}},
			&ast.Field{Name: "z", Type: &ast.NulTermString{}},
		}}
		um := &ast.UnionMember{Name: "u", Tag: &ast.IDRef{Name: "t"}}
		max := ^uint64(0) >> uint(64-bits)
		if max > 1<<63-1 {
			max = 1<<63 - 1
		}
		var all [][][2]uint64
		dflt := -1
		mistake := ""
		if rng.Intn(6) == 0 {
			mistake = []string{"list", "tag", "kind", "constant", "reversed"}[rng.Intn(5)]
		}
		overlap := false
		var ends []uint64
		desc := []string{fmt.Sprint(bits, " bit tag, mistake ", mistake)}
		n := 1 + rng.Intn(4)
		for c := 0; c < n; c++ {
			if dflt < 0 && rng.Intn(5) == 0 {
				dflt = c
				all = append(all, nil)
				um.Cases = append(um.Cases, &ast.UnionCase{})
				desc = append(desc, "default")
				continue
			}
			l := &ast.IntegerList{}
			var ivs [][2]uint64
			for k, n := 0, 1+rng.Intn(3); k < n; k++ {
				a := uint64(rng.Intn(30))
				switch rng.Intn(6) {
				case 0:
					a = max - uint64(rng.Intn(5))
				case 1:
					a = uint64(rng.Int63()) & max
				}
				b := a
				if rng.Intn(2) == 0 && max-a > 20 {
					b = a + uint64(rng.Intn(20))
				}
				clash := false
				for _, i := range ivs {
					clash = clash || !(b < i[0] || i[1] < a)
				}
				if clash {
					continue
				}
				for _, o := range all {
					for _, i := range o {
						overlap = overlap || !(b < i[0] || i[1] < a)
					}
				}
				ivs = append(ivs, [2]uint64{a, b})
				ends = append(ends, a, b)
				if a == b && rng.Intn(2) == 0 {
					l.Ranges = append(l.Ranges, ast.NewIntegerRangeSingleLiteral(int64(a)))
				} else {
					l.Ranges = append(l.Ranges, ast.NewIntegerRangeLiteral(int64(a), int64(b)))
				}
			}
			if c == n-1 {
				switch mistake {
				case "list":
					l.Ranges = append(l.Ranges, ast.NewIntegerRangeSingleLiteral(int64(ivs[0][1])))
				case "constant":
					l.Ranges = append(l.Ranges, ast.NewIntegerRangeSingle(&ast.IntegerConstRef{Name: "NO"}))
				case "reversed":
					l.Ranges = []*ast.IntegerRange{ast.NewIntegerRangeLiteral(9, 8)}
				}
			}
			all = append(all, ivs)
			um.Cases = append(um.Cases, &ast.UnionCase{Case: l})
			desc = append(desc, fmt.Sprint(ivs))
		}
		if dflt == n-1 && mistake != "tag" && mistake != "kind" {
			mistake = ""
		}
		switch mistake {
		case "tag":
			um.Tag = &ast.IDRef{Name: "missing"}
		case "kind":
			um.Tag = &ast.IDRef{Name: "z"}
		}
		d := strings.Join(desc, "\n")
		r.Distinct(d)
		sel := func(x uint64) int {
			for c, ivs := range all {
				for _, i := range ivs {
					if i[0] <= x && x <= i[1] {
						return c
					}
				}
			}
			return dflt
		}
		if mistake != "" {
			var err error
			if p := r.Case(d, func() { _, err = inspect.NewBranches(inspect.NewResolverEmpty(), s, um) }); p != nil {
				r.Violation("C22:panic", p.Error(), d)
			} else if err == nil {
				r.Violation("C22:mistake", "no error for a mistake: "+mistake, d)
			}
			r.Eval(1)
			r.Count("mistakes", 1)
			return
		}
		branches(r, inspect.NewResolverEmpty(), s, um, sel, ends, bits, !overlap, rng, d)
		if overlap {
			r.Count("overlapping_unions", 1)
		}
	})
	r.Require("unions", 2000)
	r.Require("lookups", 300000)
	r.Require("default_tags", 10000)
	r.Require("unmatched_tags", 10000)
	r.Require("mistakes", 200)
}

func bounds(env *interp.Env, u *model.Member) []uint64 {
	var out []uint64
	for _, c := range u.Cases {
		for _, r := range c.Vals {
			lo, hi := env.Bounds(r)
			out = append(out, lo, hi)
		}
	}
	return out
}

func tagBits(env *interp.Env, s *model.Struct, r model.Ref) int {
	ms := s.Members
	if r.Scope != "" {
		ms = env.Contexts[r.Scope].Fields
	}
	for _, m := range ms {
		if m.Name == r.Name {
			return m.Base.Bits
		}
	}
	panic("no tag " + r.String())
}

// branches compares the branches of a union with the selection function.
func branches(r *report.Run, res *inspect.Resolver, s *ast.Struct, u *ast.UnionMember, sel func(uint64) int, ends []uint64, bits int, disjoint bool, rng *rand.Rand, d string) {
	p := r.Case(d, func() {
		r.Count("unions", 1)
		r.Eval(1)
		b, err := inspect.NewBranches(res, s, u)
		if err != nil {
			r.Violation("C22:error", "a well-formed union is refused: "+err.Error(), d)
			return
		}
		max := ^uint64(0) >> uint(64-bits)
		var tags []uint64
		switch {
		case bits == 8, bits == 16 && rng.Intn(50) == 0:
			for x := uint64(0); x <= max; x++ {
				tags = append(tags, x)
			}
		default:
			tags = []uint64{0, 1, max, max - 1, max / 2, max/2 + 1}
			for _, e := range ends {
				for _, x := range []uint64{e - 1, e, e + 1} {
					if x <= max {
						tags = append(tags, x)
					}
				}
			}
			for k := 0; k < 10; k++ {
				tags = append(tags, rng.Uint64()&max)
			}
		}
		seen := map[*ast.UnionCase]int{}
		for _, x := range b.All() {
			seen[x.Case]++
		}
		for i, c := range u.Cases {
			if seen[c] > 1 || seen[c] == 0 && c.Case != nil {
				r.Violation("C22:all", fmt.Sprintf("case %d occurs %d times among the branches", i, seen[c]), d)
				return
			}
			delete(seen, c)
		}
		if len(seen) > 0 {
			r.Violation("C22:all", "there are branches that are not cases", d)
			return
		}
		unmatched, dflt := 0, 0
		defer func() {
			r.Count("lookups", len(tags))
			r.Count("unmatched_tags", unmatched)
			r.Count("default_tags", dflt)
		}()
		for _, x := range tags {
			want := sel(x)
			got, ok := b.Lookup(int64(x))
			switch {
			case want < 0:
				unmatched++
				if ok {
					r.Violation("C22:lookup", fmt.Sprintf("tag %d has no case but lookup finds one", x), d)
					return
				}
			case !ok || got.Case != u.Cases[want]:
				r.Violation("C22:lookup", fmt.Sprintf("tag %d: lookup does not find case %d", x, want), d)
				return
			case u.Cases[want].Case == nil:
				dflt++
			}
			for _, br := range b.All() {
				in := br.Set.Contains(x)
				mine := ok && br.Case == got.Case
				if mine && !in || in && !mine && (disjoint || br.Case.Case == nil) {
					r.Violation("C22:set", fmt.Sprintf("the value sets and lookup disagree about tag %d", x), d)
					return
				}
			}
		}
		// Nothing outside the tag's type.
		if bits < 64 {
			for _, x := range []uint64{max + 1, max + 2, 1 << 63, ^uint64(0)} {
				for _, br := range b.All() {
					if br.Case.Case == nil && br.Set.Contains(x) {
						r.Violation("C22:default-range", fmt.Sprintf("the default values include %d", x), d)
						return
					}
				}
			}
		}
	})
	if p != nil {
		r.Violation("C22:panic", p.Error(), d+"\n"+p.Stack)
	}
}

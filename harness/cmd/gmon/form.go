package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/tv"

	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

// former checks the form of generated Go files.
type former struct {
	*report.Run
}

// file checks what holds for every generated file and returns its syntax.
func (f former) file(kind, pkg string, b []byte, about string) *ast.File {
	about += "\n--- generated\n" + string(b)
	f.Eval(1)
	f.Count("files_"+kind, 1)
	fset := token.NewFileSet()
	t, err := parser.ParseFile(fset, kind+".go", b, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		f.Violation("C29:syntax", kind+" is not Go: "+err.Error(), about)
		return nil
	}
	if t.Name.Name != pkg {
		f.Violation("C29:package", fmt.Sprintf("%s is in package %s, want %s", kind, t.Name.Name, pkg), about)
	}
	if !ast.IsGenerated(t) {
		f.Violation("C29:marker", kind+" is not marked as generated", about)
	}
	if g, err := format.Source(b); err != nil || !bytes.Equal(g, b) {
		f.Violation("C29:format", fmt.Sprintf("%s is not formatted (%v)", kind, err), about)
	}
	// Constraints in front of the package clause.
	fuzz := false
	for _, c := range t.Comments {
		for _, l := range c.List {
			if l.Pos() > t.Package || !constraint.IsGoBuild(l.Text) && !constraint.IsPlusBuild(l.Text) {
				continue
			}
			x, err := constraint.Parse(l.Text)
			if err != nil {
				f.Violation("C29:constraint", err.Error(), about)
				continue
			}
			if x.Eval(func(tag string) bool { return tag != "gofuzz" }) && !x.Eval(func(tag string) bool { return tag == "gofuzz" }) {
				f.Violation("C29:constraint", "constraint "+l.Text, about)
			}
			if !x.Eval(func(string) bool { return false }) && x.Eval(func(tag string) bool { return tag == "gofuzz" }) {
				fuzz = true
			}
		}
	}
	if fuzz != (kind == "fuzzers") {
		f.Violation("C29:constraint", fmt.Sprintf("%s restricted to fuzzing builds: %v", kind, fuzz), about)
	}
	seen := map[string]bool{}
	for _, i := range t.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		first, _, _ := strings.Cut(p, "/")
		if seen[p] || strings.Contains(first, ".") {
			f.Violation("C29:import", kind+" imports "+p, about)
		}
		seen[p] = true
	}
	return t
}

// funcs returns the functions with a prefix, in order, and all other exported ones.
func funcs(t *ast.File, prefix string) (with []*ast.FuncDecl, others []string) {
	for _, d := range t.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && strings.HasPrefix(d.Name.Name, prefix) {
				with = append(with, d)
			} else if d.Name.IsExported() {
				others = append(others, d.Name.Name)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if s, ok := s.(*ast.TypeSpec); ok && s.Name.IsExported() {
					others = append(others, s.Name.Name)
				}
			}
		}
	}
	return
}

// literals returns the byte slices written in a function, false if there is
// something that is not understood.
func literals(fn *ast.FuncDecl) (out [][]byte, ok bool) {
	ok = true
	isBytes := func(x ast.Expr) bool {
		a, k := x.(*ast.ArrayType)
		if !k || a.Len != nil {
			return false
		}
		id, k := a.Elt.(*ast.Ident)
		return k && (id.Name == "byte" || id.Name == "uint8")
	}
	ast.Inspect(fn, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CompositeLit:
			if !isBytes(n.Type) {
				break
			}
			b := []byte{}
			for _, e := range n.Elts {
				l, k := e.(*ast.BasicLit)
				if !k {
					ok = false
					return false
				}
				v, err := strconv.ParseUint(l.Value, 0, 8)
				if err != nil {
					ok = false
					return false
				}
				b = append(b, byte(v))
			}
			out = append(out, b)
			return false
		case *ast.CallExpr:
			if !isBytes(n.Fun) || len(n.Args) != 1 {
				break
			}
			switch a := n.Args[0].(type) {
			case *ast.Ident:
				if a.Name == "nil" {
					out = append(out, []byte{})
					return false
				}
			case *ast.BasicLit:
				if s, err := strconv.Unquote(a.Value); err == nil {
					out = append(out, []byte(s))
					return false
				}
			}
			ok = false
		}
		return true
	})
	return
}

func fnNames(fs []*ast.FuncDecl) []string {
	out := []string{}
	for _, f := range fs {
		out = append(out, f.Name.Name)
	}
	return out
}

// corpus checks tests and fuzzers for a corpus.
func (f former) corpus(pkg string, c *tv.Corpus, about string) {
	var tests, fuzzers []byte
	var err1, err2 error
	p := f.Case(about, func() {
		tests, err1 = gen.CorpusTests(pkg, c)
		fuzzers, err2 = gen.Fuzzers(pkg, c)
	})
	if p != nil || err1 != nil || err2 != nil {
		f.Violation("C29:corpus", fmt.Sprintf("no tests or fuzzers for a corpus: %v %v %v", p, err1, err2), about)
		return
	}
	f.tests(pkg, tests, c, about)
	f.fuzzers(pkg, fuzzers, c, about)
}

func unconstrained(c *tv.Corpus) (out []tv.Suite) {
	for _, s := range c.Suites {
		ok := true
		for _, v := range s.Vectors {
			ok = ok && len(v.Constraints) == 0
		}
		if ok {
			out = append(out, s)
		}
	}
	return
}

func (f former) tests(pkg string, b []byte, c *tv.Corpus, about string) {
	t := f.file("tests", pkg, b, about)
	if t == nil {
		return
	}
	about += "\n--- generated\n" + string(b)
	fns, others := funcs(t, "Test")
	var want []string
	suites := unconstrained(c)
	for _, s := range suites {
		want = append(want, specgen.GoName(s.Type))
	}
	if len(fns) != len(want) || len(others) > 0 {
		f.Violation("C29:tests", fmt.Sprintf("tests %v and others %v for types %v", fnNames(fns), others, want), about)
		return
	}
	for i, fn := range fns {
		if !strings.HasPrefix(fn.Name.Name, "Test"+want[i]) {
			f.Violation("C29:tests", fmt.Sprintf("tests %v for types %v", fnNames(fns), want), about)
			return
		}
		got, ok := literals(fn)
		if !ok {
			f.Count("tests_not_understood", 1)
			continue
		}
		f.Count("tests_read", 1)
		if len(got) != len(suites[i].Vectors) {
			f.Violation("C29:vectors", fmt.Sprintf("test %s has %d vectors, want %d", fn.Name.Name, len(got), len(suites[i].Vectors)), about)
			continue
		}
		for k, v := range suites[i].Vectors {
			f.Count("vectors_read", 1)
			if !bytes.Equal(got[k], v.Data) {
				f.Violation("C29:vectors", fmt.Sprintf("vector %d of test %s is %x, want %x", k, fn.Name.Name, got[k], v.Data), about)
			}
		}
	}
}

func (f former) fuzzers(pkg string, b []byte, c *tv.Corpus, about string) {
	t := f.file("fuzzers", pkg, b, about)
	if t == nil {
		return
	}
	about += "\n--- generated\n" + string(b)
	fns, others := funcs(t, "Fuzz")
	want := []string{}
	for _, s := range unconstrained(c) {
		want = append(want, "Fuzz"+specgen.GoName(s.Type))
	}
	if fmt.Sprint(fnNames(fns)) != fmt.Sprint(want) || len(others) > 0 {
		f.Violation("C29:fuzzers", fmt.Sprintf("fuzz functions %v and others %v, want %v", fnNames(fns), others, want), about)
	}
}

// made is a corpus that has nothing to do with a specification.
func made(rng *rand.Rand) *tv.Corpus {
	c := &tv.Corpus{}
	types := map[string]bool{}
	for i, n := 0, rng.Intn(6)+rng.Intn(20)/19*30; i < n; i++ {
		t := specgen.Word(rng)
		if types[specgen.GoName(t)] {
			continue
		}
		types[specgen.GoName(t)] = true
		var vs []tv.Vector
		k := rng.Intn(6)
		if rng.Intn(20) == 0 {
			k = rng.Intn(300)
		}
		for j := 0; j < k; j++ {
			v := tv.NewVector(nil)
			switch size := rng.Intn(12); {
			case size == 0 && rng.Intn(4) == 0:
				v.Data = make([]byte, rng.Intn(5000))
			case size > 1:
				v.Data = make([]byte, rng.Intn(20))
			case size == 1:
				v.Data = []byte{}
			}
			rng.Read(v.Data)
			if j > 0 && rng.Intn(8) == 0 {
				v.Data = vs[rng.Intn(j)].Data // the same again
			}
			if rng.Intn(30) == 0 {
				v.Constraints = nil
			}
			vs = append(vs, v)
		}
		if k > 0 && rng.Intn(5) == 0 {
			x := &vs[[]int{0, k - 1, rng.Intn(k)}[rng.Intn(3)]]
			x.Constraints = tv.NewConstraints()
			if err := x.Constraints.Set("ctx", "a", int64(rng.Intn(3))); err != nil {
				report.Fatal("%v", err)
			}
		}
		c.AddSuite(tv.Suite{Type: t, Vectors: vs})
	}
	return c
}

var packages = []string{"p", "a1", "my_pkg", "tor", "Upper", "main", "errors", "binary", "testing", "_x", "ünï", "data", "cur", "fuzz", "x_test", "go1", "init"}

func packageName(rng *rand.Rand) string {
	if rng.Intn(3) > 0 {
		return packages[rng.Intn(len(packages))]
	}
	return strings.ToLower(specgen.Word(rng))
}

func describeCorpus(c *tv.Corpus) string {
	var b strings.Builder
	for _, s := range c.Suites {
		fmt.Fprintf(&b, "suite %s\n", s.Type)
		for _, v := range s.Vectors {
			fmt.Fprintf(&b, "\t%x %v\n", v.Data, v.Constraints)
		}
	}
	return b.String()
}

// c29 checks the form of everything that is generated.
func c29(r *report.Run) {
	r.Rule = "source, tests and fuzzers for random specifications, empty ones and made corpora under various package names; each file is parsed, formatted again and inspected, vectors are read back from the tests; non-trivial: distinct specification or corpus"
	f := former{r}
	scratch := stage.Scratch()
	var ps []specgen.Profile
	var ids []string
	for id := range profiles {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		ps = append(ps, profiles[id]...)
	}
	r.Parallel("spec", r.Pick(500, 4000), func(i int, rng *rand.Rand) {
		var u *stage.Unit
		if i%40 == 7 {
			// Hardly anything declared.
			m := &model.File{}
			switch rng.Intn(4) {
			case 0:
				m.Structs = append(m.Structs, &model.Struct{Name: "foo", Extern: true})
			case 1:
				m.Consts = append(m.Consts, &model.Const{Name: "FOO", Val: 1})
			case 2:
				m.Structs = append(m.Structs, &model.Struct{Name: "foo"})
			}
			u = stage.New(rng, m)
		} else if i%4 == 0 {
			u = spec(r, rng, reproProfiles, i)
		} else {
			u = spec(r, rng, ps, i)
		}
		pkg := packageName(rng)
		about := "package " + pkg + "\n" + u.String()
		r.Distinct(u.String())
		if !u.Generate(r, pkg) {
			return
		}
		if t := f.file("marshallers", pkg, u.Go, about); t == nil {
			return
		}
		if _, err := stage.TypeCheck(pkg, u.Go); err != nil {
			r.Violation("C29:compile", "generated package does not compile: "+err.Error(), about+"\n"+string(u.Go))
			return
		}
		if i < 2 {
			r.Sample(about)
		}
		if i%4 > 0 {
			return
		}
		if ok, _, _ := stage.Vectors(u.Files[0]); !ok {
			return
		}
		// The files of a package have the same form.
		dir := filepath.Join(scratch, fmt.Sprintf("form%d", i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			report.Fatal("%v", err)
		}
		defer os.RemoveAll(dir)
		var err error
		if p := r.Case(about, func() { err = gen.Package(gen.Config{Package: pkg, Dir: dir, Seed: int64(i)}, u.Trees) }); p != nil || err != nil {
			r.Violation("C29:write", fmt.Sprintf("package generation fails: %v %v", p, err), about)
			return
		}
		for n, kind := range map[string]string{"gen-marshallers.go": "marshallers", "gen-marshallers_test.go": "tests", "gen-fuzz.go": "fuzzers"} {
			b, err := os.ReadFile(filepath.Join(dir, n))
			if os.IsNotExist(err) && kind != "marshallers" {
				continue // no vectors
			}
			if err != nil {
				r.Violation("C29:write", "file is missing: "+err.Error(), about)
				continue
			}
			f.file(kind, pkg, b, about)
		}
	})
	r.Parallel("made", r.Pick(600, 5000), func(i int, rng *rand.Rand) {
		c := made(rng)
		pkg := packageName(rng)
		d := describeCorpus(c)
		r.Distinct(d)
		f.corpus(pkg, c, "package "+pkg+"\n"+d)
	})
	r.Require("files_marshallers", 300)
	r.Require("files_tests", 300)
	r.Require("files_fuzzers", 300)
}

// Package stage turns random specifications into compiled Go packages with the
// code under test and hands them to the conformance program.
package stage

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	trunnelast "github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"

	"github.com/mmcloughlin/trunnel/verif/conform"
	"github.com/mmcloughlin/trunnel/verif/interp"
	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
)

// Unit is a specification with what the code under test made of it.
type Unit struct {
	conform.Spec
	Env   *interp.Env
	Trees []*trunnelast.File
	Go    []byte
	Pkg   *types.Package
}

func (u *Unit) String() string { return strings.Join(u.Texts, "\n--- next file\n") }

// New makes a unit from models; the texts are rendered with random layout.
func New(rng *rand.Rand, files ...*model.File) *Unit {
	u := &Unit{Env: interp.NewEnv(files...)}
	u.Files = files
	for _, f := range files {
		if rng.Intn(4) == 0 {
			u.Texts = append(u.Texts, specgen.Text(f, rng))
		} else {
			u.Texts = append(u.Texts, specgen.Plain(f))
		}
	}
	return u
}

// Parse runs the parser on the texts. Failures are violations.
func (u *Unit) Parse(r *report.Run) bool {
	for i, t := range u.Texts {
		var f *trunnelast.File
		var err error
		p := r.Case(u.String(), func() { f, err = parse.String(t) })
		if p != nil {
			r.Violation(r.ID+":parse-panic", "parser panics: "+p.Error(), u.String()+"\n"+p.Stack)
			return false
		}
		if err != nil || f == nil {
			r.Violation(r.ID+":parse", fmt.Sprintf("well-formed file %d is not parsed: %v", i, err), u.String())
			return false
		}
		u.Trees = append(u.Trees, f)
	}
	return true
}

// Generate runs the generator. Failures are violations.
func (u *Unit) Generate(r *report.Run, pkg string) bool {
	if !u.Parse(r) {
		return false
	}
	var err error
	p := r.Case(u.String(), func() { u.Go, err = gen.Marshallers(pkg, u.Trees) })
	if p != nil {
		r.Violation(r.ID+":gen-panic", "generator panics: "+p.Error(), u.String()+"\n"+p.Stack)
		return false
	}
	if err != nil {
		r.Violation(r.ID+":gen", "generator fails: "+err.Error(), u.String())
		return false
	}
	return true
}

var (
	impMu  sync.Mutex
	impPkg = map[string]*types.Package{}
	imp    = importer.ForCompiler(token.NewFileSet(), "source", nil)
)

type lockedImporter struct{}

func (lockedImporter) Import(path string) (*types.Package, error) {
	impMu.Lock()
	defer impMu.Unlock()
	if p := impPkg[path]; p != nil {
		return p, nil
	}
	p, err := imp.Import(path)
	if err == nil {
		impPkg[path] = p
	}
	return p, err
}

// TypeCheck type-checks Go source.
func TypeCheck(name string, srcs ...[]byte) (*types.Package, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	for i, s := range srcs {
		f, err := parser.ParseFile(fset, fmt.Sprintf("f%d.go", i), s, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	cfg := &types.Config{Importer: lockedImporter{}}
	return cfg.Check(name, fset, files, nil)
}

// Check type-checks the generated source and compares its interface with the
// model. Failures are violations.
func (u *Unit) Check(r *report.Run) bool {
	pkg, err := TypeCheck("p", u.Go)
	if err != nil {
		r.Violation(r.ID+":compile", "generated package does not compile: "+err.Error(), u.String()+"\n--- generated\n"+string(u.Go))
		return false
	}
	u.Pkg = pkg
	if s := u.shape(); s != "" {
		r.Violation(r.ID+":shape", "generated package has the wrong interface: "+s, u.String()+"\n--- generated\n"+string(u.Go))
		return false
	}
	return true
}

// goType is the documented Go type of a member.
func (u *Unit) goType(m *model.Member) string {
	base := func(b model.Base) string {
		switch {
		case b.Char:
			return "byte"
		case b.Bits != 0:
			return fmt.Sprintf("uint%d", b.Bits)
		}
		return "*" + specgen.GoName(b.Struct)
	}
	switch m.Kind {
	case model.Scalar:
		return base(m.Base)
	case model.Ptr:
		return "int"
	case model.Nulterm:
		return "string"
	case model.Fixed:
		return fmt.Sprintf("[%d]%s", u.Env.Int(m.Size), base(m.Base))
	}
	return "[]" + base(m.Base)
}

func (u *Unit) fields(ms []*model.Member) []string {
	var out []string
	for _, m := range ms {
		switch m.Kind {
		case model.EOS, model.Fail, model.Ignore:
		case model.Union:
			for _, c := range m.Cases {
				out = append(out, u.fields(c.Members)...)
			}
		default:
			out = append(out, specgen.GoName(m.Name)+" "+u.goType(m))
		}
	}
	return out
}

func (u *Unit) shape() string {
	q := func(p *types.Package) string {
		if p == u.Pkg {
			return ""
		}
		return p.Name()
	}
	norm := func(s string) string { return strings.ReplaceAll(s, "uint8", "byte") }
	want := map[string]bool{}
	structOf := func(name string) (*types.Named, []string, string) {
		n := specgen.GoName(name)
		want[n] = true
		o, ok := u.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || !o.Exported() {
			return nil, nil, "no exported type " + n
		}
		named, ok := o.Type().(*types.Named)
		if !ok {
			return nil, nil, n + " is not a defined type"
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok {
			return nil, nil, n + " is not a struct"
		}
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, st.Field(i).Name()+" "+norm(types.TypeString(st.Field(i).Type(), q)))
		}
		return named, fs, ""
	}
	diff := func(name string, got, want []string) string {
		for i := range want {
			want[i] = norm(want[i])
		}
		if strings.Join(got, "; ") != strings.Join(want, "; ") {
			return fmt.Sprintf("type %s has fields {%s}, want {%s}", name, strings.Join(got, "; "), strings.Join(want, "; "))
		}
		return ""
	}
	for _, c := range u.Env.Contexts {
		_, got, e := structOf(c.Name)
		if e == "" {
			e = diff(c.Name, got, u.fields(c.Fields))
		}
		if e != "" {
			return e
		}
	}
	for _, s := range u.Env.Order {
		named, got, e := structOf(s.Name)
		if e == "" {
			e = diff(s.Name, got, u.fields(s.Members))
		}
		if e != "" {
			return e
		}
		n := specgen.GoName(s.Name)
		params := "[]byte"
		for _, c := range s.Ctxs {
			params += ", " + specgen.GoName(c)
		}
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(named), true, u.Pkg, "Parse")
		if e := signature(o, q, params, "[]byte, error"); e != "" {
			return fmt.Sprintf("method (*%s).Parse %s", n, e)
		}
		want["Parse"+n] = true
		if e := signature(u.Pkg.Scope().Lookup("Parse"+n), q, params, "*"+n+", error"); e != "" {
			return fmt.Sprintf("function Parse%s %s", n, e)
		}
	}
	for _, n := range u.Pkg.Scope().Names() {
		if !want[n] && ast.IsExported(n) {
			if _, ok := u.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				return "undeclared exported type " + n
			}
		}
	}
	return ""
}

func signature(o types.Object, q types.Qualifier, params, results string) string {
	f, ok := o.(*types.Func)
	if !ok {
		return "is missing"
	}
	sig := f.Type().(*types.Signature)
	tuple := func(t *types.Tuple) string {
		var s []string
		for i := 0; i < t.Len(); i++ {
			s = append(s, types.TypeString(t.At(i).Type(), q))
		}
		return strings.Join(s, ", ")
	}
	if p, r := tuple(sig.Params()), tuple(sig.Results()); p != params || r != results {
		return fmt.Sprintf("has signature (%s) (%s), want (%s) (%s)", p, r, params, results)
	}
	return ""
}

// Batch collects units for one conformance program.
type Batch struct {
	r     *report.Run
	dir   string
	Units []*Unit
	// Extra files per unit, by index: name to content.
	Extra map[int]map[string][]byte
	// Funcs are extra functions to register, by index.
	Funcs    map[int][]string
	Counters map[string]int64
	Flags    []string
}

// Scratch returns the scratch directory made by check.sh.
func Scratch() string {
	d := os.Getenv("VERIF_SCRATCH")
	if !strings.HasPrefix(d, "/verif/harness/scratch/") {
		report.Fatal("VERIF_SCRATCH=%q", d)
	}
	return d
}

// NewBatch starts a batch.
func NewBatch(r *report.Run) *Batch {
	return &Batch{r: r, dir: Scratch(), Extra: map[int]map[string][]byte{}, Funcs: map[int][]string{}, Counters: map[string]int64{}}
}

// Run builds the conformance program and replaces this process with it.
func (b *Batch) Run() {
	var glue bytes.Buffer
	rel := strings.TrimPrefix(b.dir, "/verif/harness/")
	mod := "github.com/mmcloughlin/trunnel/verif/" + rel
	fmt.Fprintf(&glue, "package main\n\nimport (\n\t%q\n", "github.com/mmcloughlin/trunnel/verif/conform")
	for i := range b.Units {
		fmt.Fprintf(&glue, "\tg%d %q\n", i, fmt.Sprintf("%s/g%d", mod, i))
	}
	fmt.Fprintf(&glue, ")\n\nfunc main() {\n")
	plan := conform.Plan{ID: b.r.ID, Counters: b.Counters}
	must := func(err error) {
		if err != nil {
			report.Fatal("%v", err)
		}
	}
	for i, u := range b.Units {
		d := filepath.Join(b.dir, fmt.Sprintf("g%d", i))
		must(os.MkdirAll(d, 0o755))
		must(os.WriteFile(filepath.Join(d, "gen.go"), u.Go, 0o644))
		for n, c := range b.Extra[i] {
			must(os.WriteFile(filepath.Join(d, n), c, 0o644))
		}
		for _, c := range u.Env.Contexts {
			fmt.Fprintf(&glue, "\tconform.Context(%d, %q, g%d.%s{})\n", i, c.Name, i, specgen.GoName(c.Name))
		}
		for _, s := range u.Env.Order {
			n := specgen.GoName(s.Name)
			fmt.Fprintf(&glue, "\tconform.Struct(%d, %q, (*g%d.%s)(nil), g%d.Parse%s)\n", i, s.Name, i, n, i, n)
		}
		for _, f := range b.Funcs[i] {
			fmt.Fprintf(&glue, "\tconform.Func(%d, %q, g%d.%s)\n", i, f, i, f)
		}
		plan.Specs = append(plan.Specs, u.Spec)
	}
	fmt.Fprintf(&glue, "\tconform.Main()\n}\n")
	must(os.MkdirAll(filepath.Join(b.dir, "main"), 0o755))
	must(os.WriteFile(filepath.Join(b.dir, "main", "main.go"), glue.Bytes(), 0o644))
	js, err := json.Marshal(plan)
	must(err)
	planFile := filepath.Join(b.dir, "plan.json")
	must(os.WriteFile(planFile, js, 0o644))
	bin := filepath.Join(b.dir, "run")
	args := append([]string{"build", "-overlay", "overlay.json", "-o", bin}, b.Flags...)
	cmd := exec.Command("go", append(args, "./"+rel+"/main")...)
	cmd.Dir = "/verif/harness"
	if out, err := cmd.CombinedOutput(); err != nil {
		for i, u := range b.Units {
			if strings.Contains(string(out), fmt.Sprintf("%s/g%d/", rel, i)) {
				b.r.Violation(b.r.ID+":compile", "generated package does not compile", string(out)+"\n"+u.String()+"\n"+string(u.Go))
			}
		}
		if b.r.Violated() {
			return
		}
		report.Fatal("go build: %v\n%s", err, out)
	}
	b.r.FlushKnown()
	env := []string{"VERIF_PLAN=" + planFile}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_CHILD=") {
			env = append(env, e)
		}
	}
	must(syscall.Exec(bin, []string{bin, b.r.ID}, env))
}

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/fault"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/tv"

	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

const (
	fileCode = "gen-marshallers.go"
	fileTest = "gen-marshallers_test.go"
	fileFuzz = "gen-fuzz.go"
)

var packProfiles = []specgen.Profile{
	reproProfiles[0],
	reproProfiles[1],
	vectored(func(p *specgen.Profile) {
		p.Contexts, p.MinContexts, p.Union, p.Members, p.Struct, p.StructElem = 0, 0, 9, 5, 1, 5
	}),
}

// packaged is a specification with the package made of it.
type packaged struct {
	u      *stage.Unit
	seed   int64
	dir    string
	corpus *tv.Corpus        // nil if vectors are not implemented
	files  map[string]string // content by name
	known  bool              // of the known finding
}

var (
	content = stage.Content
	names   = stage.Names
	mkdir   = stage.Mkdir
	put     = stage.Put
)

// expect computes what a package consists of; the tests and fuzzers are
// judged by what they do.
func (p *packaged) expect() (map[string]string, error) {
	code, err := gen.Marshallers("p", p.u.Trees)
	if err != nil {
		return nil, err
	}
	m := map[string]string{"./": "", fileCode: string(code)}
	p.corpus, err = tv.GenerateFiles(p.u.Trees, tv.WithRandom(random.NewWithSeed(p.seed)))
	if err == fault.ErrNotImplemented {
		p.corpus = nil
		return m, nil
	}
	if err != nil {
		return nil, err
	}
	m[fileTest], m[fileFuzz] = "", ""
	for _, s := range p.corpus.Suites {
		dir := "testdata/fuzz/" + s.Type + "/corpus/"
		for i, c := range dir {
			if c == '/' {
				m[dir[:i+1]] = ""
			}
		}
		for _, v := range s.Vectors {
			h := sha256.Sum256(v.Data)
			m[dir+hex.EncodeToString(h[:])] = string(v.Data)
		}
	}
	return m, nil
}

// compare checks the files of the package.
func (p *packaged) compare(r *report.Run, want map[string]string, where string) bool {
	d := p.u.String() + "\n" + where
	got := content(p.dir)
	delete(got, ".")
	if g, w := names(got), names(want); g != w {
		r.Violation("C19:files", "the files of the package are not the documented ones", d+"\n"+difference(w, g))
		return false
	}
	for n, c := range want {
		if n == fileTest || n == fileFuzz {
			if got[n] == "" {
				r.Violation("C19:empty", n+" is empty", d)
				return false
			}
			continue
		}
		if got[n] != c {
			r.Violation("C19:content", n+" has the wrong content", d+"\n"+difference(c, got[n]))
			return false
		}
	}
	p.files = got
	return true
}

func (p *packaged) generate(r *report.Run) error {
	var err error
	cfg := gen.Config{Package: "p", Dir: p.dir, Seed: p.seed}
	if pn := r.Case(p.u.String(), func() { err = gen.Package(cfg, p.u.Trees) }); pn != nil {
		r.Violation("C19:panic", pn.Error(), p.u.String()+"\n"+pn.Stack)
		return nil
	}
	return err
}

func c19(r *report.Run) {
	r.Rule = "random specifications; the files of each package are compared with the documented list and library results; the generated tests are run with recording parsers, also with one vector rejected; fuzz functions are compared with parsers; every file and directory of a package is made unwritable in turn; non-trivial: distinct specification"
	scratch := stage.Scratch()
	n := r.Pick(250, 1200)
	ps := make([]*packaged, n)
	r.Parallel("spec", n, func(i int, rng *rand.Rand) {
		p := &packaged{seed: rng.Int63n(100)}
		switch {
		case i == 0:
			p.known = true
			p.u = stage.New(rng, nestedLocal())
		case i%15 == 1:
			p.u = stage.New(rng, recursive())
		case i%40 == 5:
			p.u = stage.New(rng, specgen.Rich(rng))
		case i%8 == 2:
			p.u = vectorUnit(rng, reproProfiles[2], false)
		default:
			p.u = vectorUnit(rng, packProfiles[i%3], false)
		}
		if !p.u.Parse(r) {
			return
		}
		d := p.u.String()
		r.Distinct(d)
		r.Eval(1)
		parent := mkdir(scratch, fmt.Sprint("w", i))
		p.dir = mkdir(parent, "out")
		if i%10 == 3 {
			p.dir = mkdir(parent, "out", strings.Repeat("d", 200+rng.Intn(50)))
		}
		mkdir(parent, "sibling")
		put(filepath.Join(parent, "sentinel"), "x")
		want, err := p.expect()
		if err != nil {
			r.Violation("C19:expect", "generation fails: "+err.Error(), d)
			return
		}
		where := "new directory"
		stale := i%3 == 0
		if stale {
			where = "directory with older, longer files"
			for n, c := range want {
				f := filepath.Join(p.dir, n)
				if strings.HasSuffix(n, "/") {
					mkdir(f)
				} else {
					mkdir(filepath.Dir(f))
					put(f, c+strings.Repeat("}\n/* stale */\n", 4000))
				}
			}
		}
		if err := p.generate(r); err != nil {
			r.Violation("C19:error", "package generation fails: "+err.Error(), d+"\n"+where)
			return
		}
		if !p.compare(r, want, where) {
			return
		}
		r.Count("packages", 1)
		if p.corpus == nil {
			r.Count("packages_without_vectors", 1)
		}
		for n := range p.files {
			if strings.Contains(n, "corpus/") && !strings.HasSuffix(n, "/") {
				r.Count("corpus_files", 1)
			}
		}
		out := content(parent)
		for n := range out {
			if strings.HasPrefix(n, "out/") {
				delete(out, n)
			}
		}
		if names(out) != "./\nsentinel\nsibling/" || out["sentinel"] != "x" {
			r.Violation("C19:outside", "files outside of the output directory change", d+"\n"+names(out))
			return
		}
		ps[i] = p
		if i < 3 {
			r.Sample(d + "\n" + names(p.files))
		}
	})
	if r.Violated() {
		return
	}
	p19run(r, ps)
	if r.Violated() {
		return
	}
	c19faults(r, ps)
	c19limits(r, ps)
	r.Require("packages", 100)
	r.Require("packages_without_vectors", 10)
	r.Require("corpus_files", 600)
	r.Require("tested_vectors", 400)
	r.Require("tests_failing_as_they_should", 80)
	r.Require("fuzz_accepted", 500)
	r.Require("fuzz_rejected", 500)
	r.Require("write_faults", 300)
	r.Require("size_faults", 50)
	r.Require("relative_directories", 10)
}

// nestedLocal is the specification of the known finding.
func nestedLocal() *model.File {
	u8 := model.Base{Bits: 8}
	f := &model.File{}
	f.Structs = []*model.Struct{
		{Name: "part", Members: []*model.Member{{Kind: model.Scalar, Name: "a", Base: u8}}},
		{Name: "whole", Members: []*model.Member{
			{Kind: model.Scalar, Name: "n", Base: u8},
			{Kind: model.Scalar, Name: "s", Base: model.Base{Struct: "part"}},
			{Kind: model.Var, Name: "xs", Base: u8, Ref: model.Ref{Name: "n"}},
		}},
	}
	return f
}

// recursive has a struct that contains itself.
func recursive() *model.File {
	u8 := model.Base{Bits: 8}
	f := &model.File{}
	f.Structs = []*model.Struct{
		{Name: "node", Members: []*model.Member{
			{Kind: model.Scalar, Name: "n", Base: u8},
			{Kind: model.Var, Name: "next", Base: model.Base{Struct: "node"}, Ref: model.Ref{Name: "n"}},
		}},
		{Name: "leaf", Members: []*model.Member{{Kind: model.Scalar, Name: "a", Base: u8}}},
	}
	return f
}

// free lists the structs without contexts.
func (p *packaged) free() []*model.Struct {
	var out []*model.Struct
	for _, s := range p.u.Env.Order {
		if len(s.Ctxs) == 0 {
			out = append(out, s)
		}
	}
	return out
}

// wrapped renames the parsers in the generated code and adds recording ones.
func (p *packaged) wrapped() (code, wrap []byte, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, fileCode, p.files[fileCode], parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, nil, err
	}
	ctor, method := map[string]bool{}, map[string]bool{}
	for _, s := range p.free() {
		n := specgen.GoName(s.Name)
		ctor["Parse"+n], method[n] = true, true
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fn.Recv == nil && ctor[fn.Name.Name] {
			fn.Name.Name = "VerifReal" + fn.Name.Name
		} else if fn.Recv != nil && fn.Name.Name == "Parse" {
			if st, ok := fn.Recv.List[0].Type.(*ast.StarExpr); ok {
				if id, ok := st.X.(*ast.Ident); ok && method[id.Name] {
					fn.Name.Name = "VerifRealParse"
				}
			}
		}
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, nil, err
	}
	var w bytes.Buffer
	fmt.Fprintf(&w, "package p\n\nvar VerifHook func(typ string, data []byte) error\n")
	for _, s := range p.free() {
		n := specgen.GoName(s.Name)
		fmt.Fprintf(&w, `
func Parse%[1]s(data []byte) (*%[1]s, error) {
	if err := VerifHook(%[2]q, data); err != nil {
		return nil, err
	}
	return VerifRealParse%[1]s(data)
}

func (x *%[1]s) Parse(data []byte) ([]byte, error) {
	if err := VerifHook(%[2]q, data); err != nil {
		return nil, err
	}
	return x.VerifRealParse(data)
}
`, n, s.Name)
	}
	return b.Bytes(), w.Bytes(), nil
}

const runner = `package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"os"
	"strconv"
	"strings"
	"testing"
)

type result struct {
	Failed   bool
	Recorded map[string]map[string]bool
}

var (
	reject  = map[string]bool{}
	results = map[string]*result{}
	current *result
)

func hook(pkg int) func(string, []byte) error {
	return func(typ string, data []byte) error {
		h := hex.EncodeToString(data)
		if current != nil {
			if current.Recorded[typ] == nil {
				current.Recorded[typ] = map[string]bool{}
			}
			current.Recorded[typ][h] = true
		}
		if reject[strconv.Itoa(pkg)+" "+typ+" "+h] {
			return errors.New("rejected")
		}
		return nil
	}
}

func wrap(name string, f func(*testing.T)) testing.InternalTest {
	return testing.InternalTest{Name: name, F: func(t *testing.T) {
		rs := &result{Recorded: map[string]map[string]bool{}}
		current, results[name] = rs, rs
		defer func() {
			current = nil
			rs.Failed = t.Failed()
		}()
		f(t)
	}}
}

func main() {
	b, err := os.ReadFile(os.Getenv("PLAN_REJECT"))
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		reject[l] = true
	}
	setup()
	ts := tests()
	if os.Getenv("PLAN_FUZZ") != "" {
		fuzz()
		return
	}
	ts = append(ts, testing.InternalTest{Name: "end", F: func(*testing.T) {
		b, err := json.Marshal(results)
		if err == nil {
			err = os.WriteFile(os.Getenv("PLAN_OUT"), b, 0o644)
		}
		if err != nil {
			panic(err)
		}
	}})
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, ts, nil, nil)
}

type fuzzer struct {
	name  string
	fuzz  func([]byte) int
	parse func([]byte) error
}

type trial struct{ Name, Data string }

type outcome struct {
	Got   int
	Err   bool
	Panic string
}

func fuzz() {
	fs := map[string]fuzzer{}
	for _, f := range fuzzers() {
		fs[f.name] = f
	}
	var ts []trial
	b, err := os.ReadFile(os.Getenv("PLAN_FUZZ"))
	if err == nil {
		err = json.Unmarshal(b, &ts)
	}
	if err != nil {
		panic(err)
	}
	var out []outcome
	for _, t := range ts {
		d, _ := hex.DecodeString(t.Data)
		var o outcome
		func() {
			defer func() {
				if v := recover(); v != nil {
					o.Panic = "panics"
				}
			}()
			o.Got = fs[t.Name].fuzz(d)
			o.Err = fs[t.Name].parse(d) != nil
		}()
		out = append(out, o)
	}
	b, err = json.Marshal(out)
	if err == nil {
		err = os.WriteFile(os.Getenv("PLAN_OUT"), b, 0o644)
	}
	if err != nil {
		panic(err)
	}
}
`

// p19run runs the generated tests and fuzz functions.
func p19run(r *report.Run, ps []*packaged) {
	dir := stage.Scratch()
	rel := strings.TrimPrefix(dir, "/verif/harness/")
	mod := "github.com/mmcloughlin/trunnel/verif/" + rel
	var imports, setup, tests, fuzzers bytes.Buffer
	for i, p := range ps {
		if p.corpus == nil {
			continue
		}
		code, wrap, err := p.wrapped()
		if err != nil {
			r.Violation("C19:source", "generated code is not Go: "+err.Error(), p.u.String())
			continue
		}
		fset := token.NewFileSet()
		srcs := [][]byte{code, wrap, []byte(p.files[fileTest]), []byte(p.files[fileFuzz])}
		if _, err := stage.TypeCheck("p", srcs...); err != nil {
			r.Violation("C19:compile", "generated package with tests and fuzzers does not compile: "+err.Error(), p.u.String()+"\n"+p.files[fileTest])
			continue
		}
		tf, err := parser.ParseFile(fset, fileTest, p.files[fileTest], 0)
		if err != nil {
			report.Fatal("%v", err)
		}
		ff, err := parser.ParseFile(fset, fileFuzz, p.files[fileFuzz], 0)
		if err != nil {
			report.Fatal("%v", err)
		}
		d := mkdir(dir, fmt.Sprint("g", i))
		put(filepath.Join(d, "code.go"), string(code))
		put(filepath.Join(d, "wrap.go"), string(wrap))
		put(filepath.Join(d, "tests.go"), p.files[fileTest])
		put(filepath.Join(d, "fuzz.go"), p.files[fileFuzz])
		fmt.Fprintf(&imports, "\tg%d %q\n", i, fmt.Sprintf("%s/g%d", mod, i))
		fmt.Fprintf(&setup, "\tg%d.VerifHook = hook(%d)\n", i, i)
		for _, x := range tf.Decls {
			if fn, ok := x.(*ast.FuncDecl); ok && fn.Recv == nil && strings.HasPrefix(fn.Name.Name, "Test") {
				fmt.Fprintf(&tests, "\t\twrap(\"%d %s\", g%d.%s),\n", i, fn.Name.Name, i, fn.Name.Name)
			}
		}
		have := map[string]bool{}
		for _, x := range ff.Decls {
			if fn, ok := x.(*ast.FuncDecl); ok && fn.Recv == nil {
				have[fn.Name.Name] = true
			}
		}
		for _, s := range p.free() {
			n := specgen.GoName(s.Name)
			if !have["Fuzz"+n] {
				r.Violation("C19:fuzzer", "no fuzz function for struct "+s.Name, p.u.String()+"\n"+p.files[fileFuzz])
				continue
			}
			fmt.Fprintf(&fuzzers, "\t\t{\"%d %s\", g%d.Fuzz%s, func(b []byte) error { _, err := g%d.VerifRealParse%s(b); return err }},\n", i, s.Name, i, n, i, n)
		}
	}
	if r.Violated() {
		return
	}
	main := mkdir(dir, "main")
	put(filepath.Join(main, "runner.go"), runner)
	put(filepath.Join(main, "table.go"), fmt.Sprintf("package main\n\nimport (\n\t\"testing\"\n%s)\n\nfunc setup() {\n%s}\n\nfunc tests() []testing.InternalTest {\n\treturn []testing.InternalTest{\n%s\t}\n}\n\nfunc fuzzers() []fuzzer {\n\treturn []fuzzer{\n%s\t}\n}\n",
		imports.Bytes(), setup.Bytes(), tests.Bytes(), fuzzers.Bytes()))
	bin := filepath.Join(dir, "tests")
	cmd := exec.Command("go", "build", "-overlay", "overlay.json", "-tags", "gofuzz", "-o", bin, "./"+rel+"/main")
	cmd.Dir = "/verif/harness"
	if out, err := cmd.CombinedOutput(); err != nil {
		if strings.Contains(string(out), "main/") {
			report.Fatal("go build: %v\n%s", err, out)
		}
		r.Violation("C19:compile", "generated package with tests and fuzzers does not compile", string(out))
		return
	}

	type result struct {
		Failed   bool
		Recorded map[string]map[string]bool
	}
	run := func(reject []string) map[string]*result {
		put(filepath.Join(dir, "reject"), strings.Join(reject, "\n"))
		cmd := exec.Command(bin)
		cmd.Env = append(os.Environ(), "PLAN_REJECT="+filepath.Join(dir, "reject"), "PLAN_OUT="+filepath.Join(dir, "out.json"))
		os.Remove(filepath.Join(dir, "out.json"))
		out, _ := cmd.CombinedOutput()
		var m map[string]*result
		b, err := os.ReadFile(filepath.Join(dir, "out.json"))
		if err == nil {
			err = json.Unmarshal(b, &m)
		}
		if err != nil {
			r.Violation("C19:tests-crash", "generated tests end the process", string(out))
			return nil
		}
		return m
	}
	pass := run(nil)
	if pass == nil {
		return
	}
	idx := func(name string) (i int) {
		fmt.Sscanf(name, "%d ", &i)
		return i
	}
	rng := r.Rand("reject")
	var reject []string
	rejected := map[string]bool{}
	users := map[string][]string{} // tests by package and struct
	for name, rs := range pass {
		p := ps[idx(name)]
		if rs.Failed {
			key := "C19:tests-fail"
			if p.known {
				key = "C19:nested-local"
			}
			r.Violation(key, "generated test fails: "+name, p.u.String()+"\n"+p.files[fileTest])
		}
	}
	for i, p := range ps {
		if p.corpus == nil {
			continue
		}
		for _, s := range p.free() {
			seen := map[string]bool{}
			id := fmt.Sprint(i, " ", s.Name)
			for name, rs := range pass {
				if idx(name) == i && rs.Recorded[s.Name] != nil {
					for h := range rs.Recorded[s.Name] {
						seen[h] = true
					}
					users[id] = append(users[id], name)
				}
			}
			vs := p.corpus.Vectors(s.Name)
			for _, v := range vs {
				r.Eval(1)
				if p.known {
					continue
				}
				if !seen[hex.EncodeToString(v.Data)] {
					r.Violation("C19:vector-not-tested", fmt.Sprintf("a vector of struct %s is not in the tests", s.Name), p.u.String()+"\n"+hex.EncodeToString(v.Data)+"\n"+p.files[fileTest])
					break
				}
				r.Count("tested_vectors", 1)
			}
			if len(vs) > 0 && !p.known {
				k := rng.Intn(len(vs))
				reject = append(reject, id+" "+hex.EncodeToString(vs[k].Data))
				rejected[id] = true
			}
		}
	}
	if r.Violated() {
		return
	}
	fail := run(reject)
	for id := range rejected {
		r.Eval(1)
		ok := false
		for _, name := range users[id] {
			ok = ok || fail[name] != nil && fail[name].Failed
		}
		if !ok {
			r.Violation("C19:tests-blind", "no generated test fails when a vector is rejected: "+id, ps[idx(id)].u.String()+"\n"+ps[idx(id)].files[fileTest])
			return
		}
		r.Count("tests_failing_as_they_should", 1)
	}

	// Fuzz functions.
	type trial struct{ Name, Data string }
	var ts []trial
	for i, p := range ps {
		if p.corpus == nil {
			continue
		}
		for _, s := range p.free() {
			id := fmt.Sprint(i, " ", s.Name)
			add := func(b []byte) { ts = append(ts, trial{id, hex.EncodeToString(b)}) }
			vs := p.corpus.Vectors(s.Name)
			for k := 0; k < 12; k++ {
				b := make([]byte, rng.Intn(20))
				rng.Read(b)
				add(b)
				if len(vs) > 0 {
					v := append([]byte(nil), vs[rng.Intn(len(vs))].Data...)
					add(v)
					if len(v) > 0 {
						add(v[:rng.Intn(len(v))])
						v[rng.Intn(len(v))] ^= 1 << uint(rng.Intn(8))
						add(v)
					}
					add(append(v, b...))
				}
			}
			add(nil)
		}
	}
	b, err := json.Marshal(ts)
	if err != nil {
		report.Fatal("%v", err)
	}
	put(filepath.Join(dir, "fuzz.json"), string(b))
	cmd = exec.Command(bin)
	cmd.Env = append(os.Environ(), "PLAN_REJECT="+filepath.Join(dir, "reject"), "PLAN_FUZZ="+filepath.Join(dir, "fuzz.json"), "PLAN_OUT="+filepath.Join(dir, "fuzzout.json"))
	put(filepath.Join(dir, "reject"), "")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.Violation("C19:fuzz-crash", "fuzz functions end the process", string(out))
		return
	}
	var os1 []struct {
		Got   int
		Err   bool
		Panic string
	}
	b, err = os.ReadFile(filepath.Join(dir, "fuzzout.json"))
	if err == nil {
		err = json.Unmarshal(b, &os1)
	}
	if err != nil || len(os1) != len(ts) {
		report.Fatal("%v", err)
	}
	for k, o := range os1 {
		r.Eval(1)
		if o.Panic != "" || (o.Got == 1) == o.Err {
			r.Violation("C19:fuzz", fmt.Sprintf("fuzz function of %s gives %d %s, parser error: %v", ts[k].Name, o.Got, o.Panic, o.Err), ps[idx(ts[k].Name)].u.String()+"\n"+ts[k].Data)
			return
		}
		if o.Err {
			r.Count("fuzz_rejected", 1)
		} else {
			r.Count("fuzz_accepted", 1)
		}
	}
}

// c19faults makes each file and directory of packages unwritable in turn.
func c19faults(r *report.Run, ps []*packaged) {
	scratch := stage.Scratch()
	n := r.Pick(40, 200)
	r.Parallel("faults", n, func(i int, rng *rand.Rand) {
		p := *ps[i%len(ps)]
		var all []string
		for f := range p.files {
			all = append(all, f)
		}
		sort.Strings(all)
		if len(all) > 40 {
			// Everything but a sample of the corpus files.
			var some []string
			for _, f := range all {
				if strings.HasSuffix(f, "/") || !strings.Contains(f, "corpus/") || rng.Intn(len(all)) < 20 {
					some = append(some, f)
				}
			}
			all = some
		}
		for k, f := range all {
			for _, kind := range []string{"occupied", "full"} {
				p.dir = filepath.Join(scratch, fmt.Sprintf("f%d", i), fmt.Sprintf("%d%s", k, kind))
				path := filepath.Join(p.dir, f)
				isDir := strings.HasSuffix(f, "/")
				mkdir(filepath.Dir(path))
				switch {
				case kind == "full":
					// Writes to the device fail; there is nothing to write
					// for empty files.
					if isDir || p.files[f] == "" {
						continue
					}
					if err := os.Symlink(stage.Full(), path); err != nil {
						report.Fatal("%v", err)
					}
				case isDir:
					if err := os.RemoveAll(path); err != nil {
						report.Fatal("%v", err)
					}
					put(path, "not a directory")
				default:
					mkdir(path)
				}
				err := p.generate(r)
				r.Eval(1)
				r.Count("write_faults", 1)
				if err == nil && !isDir && has(path, p.files[f]) {
					r.Count("replaced_files", 1) // written in some other way
					continue
				}
				if err == nil {
					r.Violation("C19:fault", fmt.Sprintf("no error although %s cannot be written (%s)", f, kind), p.u.String())
					return
				}
			}
		}
		p.dir = filepath.Join(scratch, "missing", "missing")
		if err := p.generate(r); err == nil && !has(filepath.Join(p.dir, "gen-marshallers.go"), p.files["gen-marshallers.go"]) {
			r.Violation("C19:missing-directory", "no error although the output directory does not exist", p.u.String())
		}
		r.Count("write_faults", 1)
		if err := os.RemoveAll(filepath.Join(scratch, fmt.Sprintf("f%d", i))); err != nil {
			report.Fatal("%v", err)
		}
	})
}

// has reports whether a regular file has the content.
func has(path, content string) bool {
	info, err := os.Lstat(path)
	if err != nil || !info.Mode().IsRegular() {
		return false
	}
	b, err := os.ReadFile(path)
	return err == nil && string(b) == content
}

// c19limits lets writes fail halfway, in another process whose files may not
// grow beyond a limit, and uses relative output directories.
func c19limits(r *report.Run, ps []*packaged) {
	scratch := stage.Scratch()
	rng := r.Rand("limits")
	var jobs []job
	var want []bool
	type relative struct {
		k   int
		p   *packaged
		dir string
	}
	var rels []relative
	for i := 0; i < r.Pick(30, 150); i++ {
		p := ps[i%len(ps)]
		sizes := map[int]bool{}
		max := 0
		for _, c := range p.files {
			sizes[len(c)] = true
			if len(c) > max {
				max = len(c)
			}
		}
		var ls []int64
		for s := range sizes {
			if s > 0 {
				ls = append(ls, int64(s-1), int64(s))
			}
		}
		sort.Slice(ls, func(a, b int) bool { return ls[a] < ls[b] })
		for k, l := range ls {
			if len(ls) > 14 && k < len(ls)-6 && rng.Intn(len(ls)) >= 8 {
				continue
			}
			dir := mkdir(scratch, "limit", fmt.Sprintf("%d.%d", i, k))
			jobs = append(jobs, job{Texts: p.u.Texts, Pkg: "p", Seed: p.seed, Dir: dir, Limit: l})
			want = append(want, int64(max) > l)
		}
		cwd := mkdir(scratch, "limit", fmt.Sprintf("%d.r", i), "cwd")
		forms := []string{".", "sub", "./sub/../sub", "sub/", "../cwd/sub"}
		mkdir(cwd, "sub")
		d := forms[i%len(forms)]
		rels = append(rels, relative{len(jobs), p, filepath.Join(cwd, d)})
		jobs = append(jobs, job{Texts: p.u.Texts, Pkg: "p", Seed: p.seed, Dir: d, Chdir: cwd, Limit: -1})
		want = append(want, false)
	}
	out := elsewhere(r, jobs, scratch)
	for k, o := range out {
		r.Eval(1)
		if (o.Err != "") != want[k] || strings.HasPrefix(o.Err, "panic") {
			r.Violation("C19:limit", fmt.Sprintf("with a file size limit of %d bytes the error is %q; a file is larger: %v", jobs[k].Limit, o.Err, want[k]), strings.Join(jobs[k].Texts, "\n"))
			return
		}
		if want[k] {
			r.Count("size_faults", 1)
		}
	}
	for _, x := range rels {
		if out == nil {
			return
		}
		if x.dir == filepath.Dir(x.dir)+"/cwd" {
			if err := os.Remove(filepath.Join(x.dir, "sub")); err != nil {
				report.Fatal("%v", err)
			}
		}
		got := content(x.dir)
		if d := difference(names(x.p.files), names(got)); names(x.p.files) != names(got) {
			r.Violation("C19:relative", "a relative output directory gets other files", x.p.u.String()+"\n"+d)
			return
		}
		r.Count("relative_directories", 1)
	}
}

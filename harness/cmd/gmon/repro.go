package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/fault"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/tv"

	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

// vectorUnit makes a specification that vectors can be generated for.
func vectorUnit(rng *rand.Rand, p specgen.Profile, affected bool) *stage.Unit {
	limit := 250.0
	if rng.Intn(10) == 0 {
		limit = 2000
	}
	for {
		f := specgen.Spec(rng, p)
		if specgen.Vectors(f, limit) > limit {
			continue
		}
		if ok, some, _ := stage.Vectors(f); ok && (affected || !some) {
			return stage.New(rng, f)
		}
	}
}

// vectored is a profile of specifications that vectors can be generated for.
func vectored(f func(p *specgen.Profile)) specgen.Profile {
	p := specgen.Full()
	p.Leftover, p.UnionLeft, p.TailGreedy, p.Roles, p.Wide, p.ConsLen, p.Recur = 0, 0, true, true, 20, 0, 0
	f(&p)
	return p
}

var reproProfiles = []specgen.Profile{
	vectored(func(p *specgen.Profile) {}),
	vectored(func(p *specgen.Profile) {
		p.Contexts, p.MinContexts, p.Context, p.Const, p.Structs = 3, 2, 70, 60, 8
	}),
	vectored(func(p *specgen.Profile) { p.Leftover, p.UnionLeft = 3, 20 }),
}

// product is everything generated from a specification.
func product(trees []*ast.File, pkg string, seed int64) (string, error) {
	var b bytes.Buffer
	m, err := gen.Marshallers(pkg, trees)
	if err != nil {
		return "", err
	}
	fmt.Fprintf(&b, "%s\n", m)
	c, err := tv.GenerateFiles(trees, tv.WithRandom(random.NewWithSeed(seed)))
	if err == fault.ErrNotImplemented {
		return b.String(), nil
	}
	if err != nil {
		return "", err
	}
	t, err := gen.CorpusTests(pkg, c)
	if err != nil {
		return "", err
	}
	f, err := gen.Fuzzers(pkg, c)
	if err != nil {
		return "", err
	}
	fmt.Fprintf(&b, "%s\n%s\n", t, f)
	for _, s := range c.Suites {
		for _, v := range s.Vectors {
			fmt.Fprintf(&b, "%s %x %v\n", s.Type, v.Data, v.Constraints)
		}
	}
	return b.String(), nil
}

// files generates a package in a temporary directory and lists it.
func files(trees []*ast.File, pkg string, seed int64) (string, error) {
	dir, err := os.MkdirTemp(stage.Scratch(), "files")
	if err != nil {
		report.Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	if err := gen.Package(gen.Config{Package: pkg, Dir: dir, Seed: seed}, trees); err != nil {
		return "", err
	}
	return listing(dir), nil
}

// listing renders a directory: names, sizes and hashes.
func listing(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			report.Fatal("%v", err)
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			out = append(out, rel+"/")
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			report.Fatal("%v", err)
		}
		out = append(out, fmt.Sprintf("%s %d %x", rel, len(b), sha256.Sum256(b)))
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func trees(texts []string) ([]*ast.File, error) {
	var fs []*ast.File
	for _, t := range texts {
		f, err := parse.String(t)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	return fs, nil
}

// job is what another process is asked to generate.
type job struct {
	Texts []string
	Pkg   string
	Seed  int64
	Dir   string // output directory, if any
	Chdir string
	Limit int64 // file size limit, if not negative
	Files bool  // the product includes the files of a package
}

type jobResult struct {
	Err     string
	Product string // hash
}

// helper runs jobs from standard input, in another process.
func helper() {
	var jobs []job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		report.Fatal("%v", err)
	}
	var out []jobResult
	for _, j := range jobs {
		out = append(out, j.run())
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		report.Fatal("%v", err)
	}
}

func (j job) run() (res jobResult) {
	defer func() {
		if v := recover(); v != nil {
			res.Err = fmt.Sprint("panic: ", v)
		}
	}()
	fs, err := trees(j.Texts)
	if err != nil {
		return jobResult{Err: err.Error()}
	}
	if j.Dir != "" {
		if j.Chdir != "" {
			if err := os.Chdir(j.Chdir); err != nil {
				report.Fatal("%v", err)
			}
		}
		setLimit(j.Limit)
		err := gen.Package(gen.Config{Package: j.Pkg, Dir: j.Dir, Seed: j.Seed}, fs)
		setLimit(-1)
		if err != nil {
			return jobResult{Err: err.Error()}
		}
		return jobResult{}
	}
	p, err := product(fs, j.Pkg, j.Seed)
	if err != nil {
		return jobResult{Err: err.Error()}
	}
	if j.Files {
		l, err := files(fs, j.Pkg, j.Seed)
		if err != nil {
			return jobResult{Err: err.Error()}
		}
		p += l
	}
	return jobResult{Product: fmt.Sprintf("%x", sha256.Sum256([]byte(p)))}
}

// elsewhere runs jobs in another process with extra environment.
func elsewhere(r *report.Run, jobs []job, dir string, env ...string) []jobResult {
	self, err := os.Executable()
	if err != nil {
		report.Fatal("%v", err)
	}
	in, err := json.Marshal(jobs)
	if err != nil {
		report.Fatal("%v", err)
	}
	cmd := exec.Command(self, "helper")
	cmd.Stdin = bytes.NewReader(in)
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_CHILD=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, env...)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		s := stderr.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		if strings.Contains(s, "HARNESS:") {
			report.Fatal("helper: %v\n%s", err, s)
		}
		r.Violation(r.ID+":crash", "generation ends the process: "+err.Error(), string(in)+"\n"+s)
		return nil
	}
	var out []jobResult
	if err := json.NewDecoder(io.LimitReader(&stdout, 64<<20)).Decode(&out); err != nil || len(out) != len(jobs) {
		report.Fatal("helper: %v %d results", err, len(out))
	}
	return out
}

func c18(r *report.Run) {
	r.Rule = "random specifications generated repeatedly: from the same trees, from fresh parses, between other generations, concurrently with them, in other processes with another environment, in other directories; everything must be byte-identical and the trees unchanged; non-trivial: distinct specification"
	n := r.Pick(500, 4000)
	type done struct {
		u     *stage.Unit
		seed  int64
		files bool
		hash  string
	}
	ds := make([]*done, n)
	r.Parallel("spec", n, func(i int, rng *rand.Rand) {
		u := vectorUnit(rng, reproProfiles[i%len(reproProfiles)], true)
		if i%50 == 7 {
			u = stage.New(rng, specgen.Rich(rng))
		}
		onDisk := i%4 == 3
		if !u.Parse(r) {
			return
		}
		d := u.String()
		r.Distinct(d)
		seed := rng.Int63n(1000)
		before := stage.Dump(u.Trees)
		var first string
		for k := 0; k < 5; k++ {
			fs := u.Trees
			if k >= 3 {
				var err error
				if fs, err = trees(u.Texts); err != nil {
					r.Violation("C18:parse", err.Error(), d)
					return
				}
			}
			var p string
			var err error
			if pn := r.Case(d, func() {
				p, err = product(fs, "pkg", seed)
				if err == nil && onDisk {
					var l string
					l, err = files(fs, "pkg", seed)
					p += l
				}
			}); pn != nil {
				r.Violation("C18:panic", pn.Error(), d+"\n"+pn.Stack)
				return
			}
			r.Eval(1)
			r.Count("generations", 1)
			if err != nil {
				r.Violation("C18:error", "generation fails: "+err.Error(), d)
				return
			}
			if k == 0 {
				first = p
			} else if p != first {
				r.Violation("C18:repeat", fmt.Sprintf("generation %d differs from the first", k+1), d+"\n"+difference(first, p))
				return
			}
			if after := stage.Dump(u.Trees); after != before {
				r.Violation("C18:tree", "generation changes the tree", d+"\n"+difference(before, after))
				return
			}
		}
		// Another package name changes the package clause only.
		q, err := gen.Marshallers("other", u.Trees)
		m, _ := gen.Marshallers("pkg", u.Trees)
		if err != nil || strings.Replace(string(q), "package other\n", "package pkg\n", 1) != string(m) {
			r.Violation("C18:package-name", "the package name changes more than the package clause", d+"\n"+difference(string(m), string(q)))
		}
		ds[i] = &done{u, seed, onDisk, fmt.Sprintf("%x", sha256.Sum256([]byte(first)))}
		if i < 3 {
			r.Sample(d)
		}
	})
	if r.Violated() {
		return
	}
	// Other processes.
	var jobs []job
	for _, d := range ds {
		jobs = append(jobs, job{Texts: d.u.Texts, Pkg: "pkg", Seed: d.seed, Limit: -1, Files: d.files})
	}
	scratch := stage.Scratch()
	envs := [][]string{
		{"GOMAXPROCS=1", "TZ=Asia/Tokyo", "LANG=de_DE.UTF-8", "USER=nobody"},
		{"GOMAXPROCS=3", "TMPDIR=" + scratch, "HOSTNAME=elsewhere", "GOFLAGS=-mod=mod"},
	}
	for k, env := range envs {
		dir := filepath.Join(scratch, fmt.Sprint("cwd", k))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			report.Fatal("%v", err)
		}
		order := r.Rand("order", k).Perm(len(jobs))
		var mine []job
		for _, i := range order {
			mine = append(mine, jobs[i])
		}
		const shards = 8
		outs := make([][]jobResult, shards)
		r.ParallelN("shards", shards, shards, func(k int, _ *rand.Rand) {
			outs[k] = elsewhere(r, mine[k*len(mine)/shards:(k+1)*len(mine)/shards], dir, env...)
		})
		var out []jobResult
		for _, o := range outs {
			out = append(out, o...)
		}
		if r.Violated() {
			return
		}
		for k, o := range out {
			r.Eval(1)
			r.Count("other_process", 1)
			i := order[k]
			if o.Err != "" || o.Product != ds[i].hash {
				r.Violation("C18:process", "another process generates something else "+o.Err, ds[i].u.String())
			}
		}
	}
	// Directories.
	nd := r.Pick(30, 200)
	if nd > n {
		nd = n
	}
	r.Parallel("dirs", nd, func(i int, rng *rand.Rand) {
		d := ds[i]
		var want string
		for k := 0; k < 3; k++ {
			dir := filepath.Join(scratch, fmt.Sprintf("out%d", i), strings.Repeat("sub/", k)+fmt.Sprint("d", k*7))
			if err := os.MkdirAll(dir, 0o755); err != nil {
				report.Fatal("%v", err)
			}
			cfg := gen.Config{Package: "pkg", Dir: dir, Seed: d.seed}
			if k == 1 {
				cfg.Dir += "/"
			}
			var err error
			if p := r.Case(d.u.String(), func() { err = gen.Package(cfg, d.u.Trees) }); p != nil || err != nil {
				r.Violation("C18:package", fmt.Sprint("package generation fails: ", err, p), d.u.String())
				return
			}
			r.Eval(1)
			r.Count("directories", 1)
			l := listing(dir)
			if k == 0 {
				want = l
			} else if l != want {
				r.Violation("C18:directory", "another directory gets other files", d.u.String()+"\n"+difference(want, l))
			}
		}
	})
	r.Require("generations", 500)
	r.Require("other_process", 200)
	r.Require("directories", 60)
}

var difference = stage.Difference

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"

	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

var concProfiles = append(packProfiles[:3:3], reproProfiles[2])

// c26 runs the code under test concurrently, here and (generated code) in the
// conformance program, both built with the race detector.
func c26(r *report.Run) {
	r.Rule = "parsing, generation and vector generation run concurrently on separate files; the run ended before generated parsers were run"
	if !raceDetector {
		report.Fatal("built without the race detector")
	}
	scratch := stage.Scratch()
	n := r.Pick(30, 100)
	type alone struct {
		u             *stage.Unit
		seed          int64
		tree, product string
		files         string
		names         []string
	}
	work := func(a *alone, dir string) (tree, prod, files string, err error) {
		var fs []*ast.File
		if len(a.names)%2 == 0 {
			fs, err = parse.Files(a.names)
		} else {
			fs, err = trees(a.u.Texts)
		}
		if err != nil {
			return
		}
		tree = stage.Dump(fs)
		if prod, err = product(fs, "p", a.seed); err != nil {
			return
		}
		if dir != "" {
			mkdir(dir)
			if err = gen.Package(gen.Config{Package: "p", Dir: dir, Seed: a.seed}, fs); err != nil {
				return
			}
			files = listing(dir)
			os.RemoveAll(dir)
		}
		return
	}
	us := make([]*alone, n)
	for i := range us {
		rng := r.Rand("unit", i)
		a := &alone{u: vectorUnit(rng, concProfiles[i%4], true), seed: rng.Int63n(100)}
		if i%3 == 0 {
			a.u = stage.New(rng, spread(a.u.Files[0], rng)...)
		}
		for k, t := range a.u.Texts {
			f := filepath.Join(mkdir(scratch, "src"), fmt.Sprintf("%d.%d.trunnel", i, k))
			put(f, t)
			a.names = append(a.names, f)
		}
		us[i] = a
		var err error
		if p := r.Case(a.u.String(), func() { a.tree, a.product, a.files, err = work(a, filepath.Join(scratch, "o", fmt.Sprint(i))) }); p != nil || err != nil {
			r.Violation("C26:alone", fmt.Sprint("generation fails: ", err, p), a.u.String())
			return
		}
		r.Distinct(a.u.String())
	}
	const workers = 10
	for round := 0; round < r.Pick(3, 12); round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			rng := r.Rand("worker", round, w)
			go func(w int, rng *rand.Rand) {
				defer wg.Done()
				<-start
				for k := 0; k < 6; k++ {
					a := us[rng.Intn(n)]
					if k == 0 {
						// All begin with the same text.
						a = us[round%n]
					}
					dir := ""
					if rng.Intn(3) == 0 {
						dir = filepath.Join(scratch, "o", fmt.Sprintf("%d.%d.%d", round, w, k))
					}
					var tree, prod, files string
					var err error
					p := r.Case(a.u.String(), func() { tree, prod, files, err = work(a, dir) })
					r.Eval(1)
					r.Count("concurrent_generations", 1)
					switch {
					case p != nil:
						r.Violation("C26:generation-panic", p.Error(), a.u.String()+"\n"+p.Stack)
					case err != nil:
						r.Violation("C26:generation-error", "fails when run concurrently: "+err.Error(), a.u.String())
					case tree != a.tree:
						r.Violation("C26:tree", "concurrent parsing gives another tree", a.u.String()+"\n"+difference(a.tree, tree))
					case prod != a.product:
						r.Violation("C26:generation", "concurrent generation gives another result", a.u.String()+"\n"+difference(a.product, prod))
					case dir != "" && files != a.files:
						r.Violation("C26:files", "concurrent package generation writes other files", a.u.String()+"\n"+difference(a.files, files))
					}
				}
			}(w, rng)
		}
		close(start)
		wg.Wait()
	}
	if r.Violated() || raceErrors() > 0 {
		return
	}
	b := stage.NewBatch(r)
	for i := 0; i < r.Pick(40, 120); i++ {
		rng := r.Rand("parsers", i)
		u := stage.New(rng, specgen.Spec(rng, profiles["C08"][i%2]))
		if !u.Generate(r, "p") {
			return
		}
		b.Units = append(b.Units, u)
	}
	r.Snapshot(b.Counters)
	b.Flags = []string{"-race"}
	b.Run()
}

package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/fault"
	"github.com/mmcloughlin/trunnel/tv"

	"github.com/mmcloughlin/trunnel/verif/interp"
	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

var splitProfiles = []specgen.Profile{
	vectored(func(p *specgen.Profile) { p.Structs = 7 }),
	vectored(func(p *specgen.Profile) {
		p.Structs, p.Contexts, p.MinContexts, p.Context, p.Const, p.Struct, p.StructElem = 7, 3, 1, 60, 60, 7, 50
	}),
	with(func(p *specgen.Profile) { p.Structs, p.Struct, p.StructElem = 7, 6, 50 }),
}

// externs adds extern declarations for structs defined in later files.
func externs(fs []*model.File, rng *rand.Rand) int {
	defined := map[string]int{}
	byName := map[string]*model.Struct{}
	for i, f := range fs {
		for _, s := range f.Hoist() {
			defined[s.Name], byName[s.Name] = i, s
		}
	}
	count := 0
	for i, f := range fs {
		need := map[string]bool{}
		var walk func(ms []*model.Member)
		walk = func(ms []*model.Member) {
			for _, m := range ms {
				if n := m.Base.Struct; n != "" && defined[n] > i {
					need[n] = true
				}
				for _, c := range m.Cases {
					walk(c.Members)
				}
			}
		}
		for _, s := range f.Hoist() {
			walk(s.Members)
		}
		if rng.Intn(4) == 0 {
			// One that is not needed here.
			if k := i + 1 + rng.Intn(len(fs)); k < len(fs) && len(fs[k].Structs) > 0 {
				if s := fs[k].Structs[rng.Intn(len(fs[k].Structs))]; !s.Extern {
					need[s.Name] = true
				}
			}
		}
		var ns []string
		for n := range need {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			x := &model.Struct{Name: n, Extern: true, Ctxs: byName[n].Ctxs}
			at := rng.Intn(len(f.Structs) + 1)
			f.Structs = append(f.Structs[:at:at], append([]*model.Struct{x}, f.Structs[at:]...)...)
			count++
		}
	}
	return count
}

func c23(r *report.Run) {
	n := r.Pick(150, 500)
	type pair struct{ one, many *stage.Unit }
	ps := make([]*pair, n)
	r.Parallel("split", n, func(i int, rng *rand.Rand) {
		r.Eval(1)
		p := splitProfiles[i%len(splitProfiles)]
		var f *model.File
		vectors := false
		for {
			if i%3 == 2 {
				p.Recur = 12
				f = specgen.Spec(rng, p)
				break
			}
			f = specgen.Spec(rng, p)
			if ok, _, _ := stage.Vectors(f); ok {
				vectors = true
				break
			}
		}
		one := stage.New(rng, f)
		fs := spread(f, rng)
		r.Count("externs", externs(fs, rng))
		// Equal constants may be repeated.
		for _, c := range f.Consts {
			if x := fs[rng.Intn(len(fs))]; rng.Intn(4) == 0 && !hasConst(x, c.Name) {
				x.Consts = append(x.Consts, c)
			}
		}
		many := stage.New(rng, fs...)
		r.Count("files", len(fs))
		for _, u := range []*stage.Unit{one, many} {
			if !u.Generate(r, "p") || !u.Check(r) {
				return
			}
		}
		ps[i] = &pair{one, many}
		if !vectors {
			return
		}
		a, b := suites(r, one), suites(r, many)
		if a != b {
			r.Violation("C23:suites", "the split form has other vector suites: "+b+" instead of "+a, one.String()+"\n--- split\n"+many.String())
		}
		r.Count("suites_compared", 1)
	})
	if r.Violated() {
		r.Rule = "random well-formed specifications in one file and split over several; the run ended before the parsers were run"
		return
	}
	b := stage.NewBatch(r)
	for _, p := range ps {
		b.Units = append(b.Units, p.one, p.many)
	}
	r.Snapshot(b.Counters)
	b.Counters["pairs"] = int64(n)
	b.Run()
	r.Rule = "random well-formed specifications; the run ended before the parsers were run"
}

func hasConst(f *model.File, n string) bool {
	for _, c := range f.Consts {
		if c.Name == n {
			return true
		}
	}
	return false
}

// suites generates vectors and checks them with the reference interpreter. It
// returns the names of the suites, sorted.
func suites(r *report.Run, u *stage.Unit) string {
	var c *tv.Corpus
	var err error
	p := r.Case(u.String(), func() { c, err = tv.GenerateFiles(u.Trees, tv.WithRandom(random.NewWithSeed(1))) })
	if p != nil {
		r.Violation("C23:panic", p.Error(), u.String()+"\n"+p.Stack)
		return ""
	}
	if err == fault.ErrNotImplemented {
		return "not implemented"
	}
	if err != nil {
		r.Violation("C23:vectors", "vector generation fails: "+err.Error(), u.String())
		return ""
	}
	bad := stage.Affected(u.Env)
	var names []string
	for _, s := range c.Suites {
		names = append(names, s.Type)
		ms := u.Env.Structs[s.Type]
		if ms == nil || bad[s.Type] {
			continue
		}
		for _, v := range s.Vectors {
			y := &interp.Synth{Env: u.Env, Rng: rand.New(rand.NewSource(1))}
			ctx := y.Context(ms)
			for n, m := range v.Constraints {
				for f, x := range m {
					if ctx[n] != nil {
						ctx[n][f] = uint64(x)
					}
				}
			}
			r.Count("vectors", 1)
			if res := u.Env.Parse(s.Type, v.Data, ctx, interp.Options{}); !res.OK && !res.Undecided {
				r.Violation("C23:vector", "a vector is not valid: "+res.Why, fmt.Sprintf("struct %s vector %s context %s\n%s", s.Type, hex.EncodeToString(v.Data), ctx, u))
			}
		}
	}
	sort.Strings(names)
	return strings.Join(names, " ")
}

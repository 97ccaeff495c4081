// Command gmon monitors the generator: it generates packages for random
// specifications and checks them, alone or (through package conform) running.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

func main() {
	id := ""
	if len(os.Args) > 1 {
		id = os.Args[1]
	}
	if id == "helper" {
		helper()
		return
	}
	checks := map[string]func(*report.Run){"C07": c07, "C18": c18, "C19": c19, "C23": c23, "C25": c25, "C26": c26, "C29": c29}
	for k := range profiles {
		checks[k] = behaviour
	}
	body, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "usage: gmon ID")
		os.Exit(2)
	}
	report.Main(id, "exploration", body)
}

func with(f func(p *specgen.Profile)) specgen.Profile {
	p := specgen.Full()
	f(&p)
	return p
}

// profiles are the mixtures of features of each behavioural check.
var profiles = map[string][]specgen.Profile{
	"C08": {
		specgen.Full(),
		with(func(p *specgen.Profile) {
			p.Union, p.Leftover, p.Fixed, p.Var, p.Struct, p.StructElem, p.Nulterm = 1, 0, 6, 6, 5, 45, 3
			p.UnionLen, p.Remainder = 10, 8
		}),
	},
	"C09": {
		with(func(p *specgen.Profile) {
			p.Cons, p.Int, p.ConsLen, p.Const, p.Leftover, p.Union, p.Members = 14, 1, 40, 45, 0, 2, 5
			p.Fail, p.Wide = 4, 5
		}),
		with(func(p *specgen.Profile) {
			p.Cons, p.Int, p.ConsLen, p.Adjacent, p.StructElem, p.Struct, p.Members = 10, 1, 30, 70, 60, 5, 4
			p.Wide = 5
		}),
	},
	"C10": {
		with(func(p *specgen.Profile) {
			p.Union, p.Members, p.Default, p.Empty, p.Fail, p.Ignore, p.FullTag = 14, 4, 55, 15, 15, 20, 8
			p.Leftover, p.Wide, p.UnionLen, p.UnionLeft = 0, 5, 12, 4
		}),
		with(func(p *specgen.Profile) {
			p.Union, p.Members, p.Default, p.Context, p.Adjacent, p.Const = 12, 4, 40, 60, 80, 60
			p.Wide = 5
		}),
	},
	"C11": {
		with(func(p *specgen.Profile) {
			p.Union, p.UnionLen, p.UnionLeft, p.Leftover, p.Remainder, p.EOS = 8, 45, 30, 4, 30, 25
			p.CaseRem, p.Ignore, p.Members, p.Wide = 30, 20, 4, 30
		}),
	},
	"C12": {
		with(func(p *specgen.Profile) {
			p.Contexts, p.MinContexts, p.Context, p.Struct, p.StructElem, p.Var, p.Union, p.Leftover = 3, 2, 80, 7, 55, 6, 5, 0
			p.Wide, p.UnionLen = 5, 40
		}),
	},
	"C13": {
		with(func(p *specgen.Profile) {
			p.Wide, p.Var, p.Union, p.UnionLen, p.UnionLeft, p.ConsLen = 60, 9, 4, 60, 15, 5
			p.ZeroWidth, p.StructElem, p.Remainder, p.CaseRem, p.CaseLen = 8, 45, 35, 25, 50
		}),
		with(func(p *specgen.Profile) {
			p.Wide, p.Var, p.MinContexts, p.Context, p.UnionLen, p.Contexts = 50, 7, 1, 70, 50, 2
			p.ZeroWidth, p.StructElem, p.Remainder = 12, 50, 30
		}),
	},
	"C14": {
		specgen.Full(),
		with(func(p *specgen.Profile) {
			p.Ptr, p.Nulterm, p.Remainder, p.EOS, p.Ignore, p.CaseRem, p.Leftover, p.UnionLeft = 4, 4, 3, 2, 5, 5, 0, 0
		}),
	},
	"C15": {
		with(func(p *specgen.Profile) {
			p.Remainder, p.EOS, p.Ignore, p.CaseRem, p.Leftover, p.UnionLeft = 4, 3, 5, 5, 0, 2
		}),
	},
	"C28": {
		specgen.Full(),
		with(func(p *specgen.Profile) {
			p.Var, p.Remainder, p.Union, p.CaseRem, p.Nulterm, p.Ptr = 7, 35, 5, 30, 3, 2
		}),
	},
}

func spec(r *report.Run, rng *rand.Rand, ps []specgen.Profile, i int) *stage.Unit {
	return stage.New(rng, specgen.Spec(rng, ps[i%len(ps)]))
}

// behaviour generates, compiles and runs parsers.
func behaviour(r *report.Run) {
	b := stage.NewBatch(r)
	n := r.Pick(120, 500)
	own := stage.Shipped()
	us := make([]*stage.Unit, n+len(own))
	r.Parallel("spec", len(us), func(i int, rng *rand.Rand) {
		var u *stage.Unit
		if i < n {
			u = spec(r, rng, profiles[r.ID], i)
		} else {
			u = stage.New(rng, own[i-n]...)
		}
		if u.Generate(r, "p") && u.Check(r) {
			us[i] = u
		}
		r.Eval(1)
	})
	if r.Violated() {
		r.Rule = "random well-formed specifications; the run ended before the parsers were run"
		return
	}
	for _, u := range us {
		if u != nil {
			b.Units = append(b.Units, u)
		}
	}
	b.Counters["specifications"] = int64(len(b.Units))
	b.Counters["specifications_shipped"] = int64(len(own))
	b.Run()
	r.Rule = "random well-formed specifications; the run ended before the parsers were run"
}

// c07 checks that packages compile and have the documented interface.
func c07(r *report.Run) {
	r.Rule = "random well-formed specifications with all feature mixtures; every generated package is type-checked and its interface compared with the model, a batch is compiled; non-trivial: distinct specification"
	var ps []specgen.Profile
	for _, id := range []string{"C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"} {
		ps = append(ps, profiles[id]...)
	}
	n := r.Pick(1500, 12000)
	built := r.Pick(40, 200)
	us := make([]*stage.Unit, n)
	own := stage.Shipped()
	r.Parallel("spec", n, func(i int, rng *rand.Rand) {
		u := spec(r, rng, ps, i)
		if k := i - built; k >= 0 && k < len(own) {
			u = stage.New(rng, own[k]...)
			r.Count("packages_of_shipped_files", 1)
		}
		r.Eval(1)
		r.Distinct(u.String())
		if !u.Generate(r, "p") || !u.Check(r) {
			return
		}
		if i < built {
			us[i] = u
		}
		r.Count("packages_checked", 1)
		r.Count("types_checked", len(u.Env.Order)+len(u.Env.Contexts))
		for _, f := range u.Files {
			for _, x := range specgen.Features(f) {
				if strings.Count(x, ".") > 1 {
					continue
				}
				r.Count("feature_"+strings.ReplaceAll(x, " ", "_"), 1)
			}
		}
		if i < 3 {
			r.Sample(u.String())
		}
	})
	if r.Violated() {
		return
	}
	dir := stage.Scratch()
	for i, u := range us {
		if u == nil {
			continue
		}
		d := filepath.Join(dir, fmt.Sprintf("g%d", i))
		if err := os.MkdirAll(d, 0o755); err != nil {
			report.Fatal("%v", err)
		}
		if err := os.WriteFile(filepath.Join(d, "gen.go"), u.Go, 0o644); err != nil {
			report.Fatal("%v", err)
		}
	}
	cmd := exec.Command("go", "build", "-overlay", "overlay.json", "./"+strings.TrimPrefix(dir, "/verif/harness/")+"/...")
	cmd.Dir = "/verif/harness"
	if out, err := cmd.CombinedOutput(); err != nil {
		if !strings.Contains(string(out), "gen.go:") {
			report.Fatal("go build: %v\n%s", err, out)
		}
		r.Violation("C07:compile", "generated package does not compile", string(out))
		return
	}
	r.Count("packages_compiled", built)
	r.Require("packages_checked", 400)
	r.Require("packages_compiled", 20)
}

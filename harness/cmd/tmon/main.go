//go:debug randseednop=0

// Command tmon monitors test vector generation.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/fault"
	"github.com/mmcloughlin/trunnel/tv"

	"github.com/mmcloughlin/trunnel/verif/interp"
	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

func main() {
	id := ""
	if len(os.Args) > 1 {
		id = os.Args[1]
	}
	body, ok := map[string]func(*report.Run){"C16": c16, "C17": c17, "C27": c27, "C30": c30}[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "usage: tmon ID")
		os.Exit(2)
	}
	report.Main(id, "exploration", func(r *report.Run) {
		r.Brief = true
		body(r)
	})
}

func profile(f func(p *specgen.Profile)) specgen.Profile {
	p := specgen.Full()
	p.Leftover, p.UnionLeft, p.TailGreedy, p.Roles, p.Wide, p.Recur = 0, 0, true, true, 20, 0
	p.ConsLen = 0
	f(&p)
	return p
}

// newUnit prefers specifications without structs of the known finding.
func newUnit(rng *rand.Rand, p specgen.Profile) (*stage.Unit, map[string]bool) {
	for try := 0; ; try++ {
		f := specgen.Spec(rng, p)
		ok, some, bad := stage.Vectors(f)
		if !ok {
			continue
		}
		if some && try < 12 && rng.Intn(5) > 0 {
			continue
		}
		return stage.New(rng, f), bad
	}
}

// shipped are the specifications of the repository that vectors are promised
// for and that have few.
func shipped() []*model.File {
	var out []*model.File
	for _, fs := range stage.Shipped() {
		if len(fs) > 1 {
			continue
		}
		if ok, _, _ := stage.Vectors(fs[0]); ok && implemented(fs[0]) {
			out = append(out, fs[0])
		}
	}
	return out
}

// implemented reports whether vectors are promised: there is no length that
// depends on the end of the input and no recursive struct.
func implemented(f *model.File) bool {
	refs := map[string][]string{}
	for _, s := range f.Hoist() {
		all := append([]*model.Member{}, s.Members...)
		for _, m := range s.Members {
			for _, c := range m.Cases {
				all = append(all, c.Members...)
			}
		}
		for _, m := range all {
			if m.Kind == model.Leftover || m.Len != nil && m.Len.Leftover != nil {
				return false
			}
			if m.Base.Struct != "" {
				refs[s.Name] = append(refs[s.Name], m.Base.Struct)
			}
		}
	}
	for n := range refs {
		seen := map[string]bool{}
		todo := append([]string{}, refs[n]...)
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			if x == n {
				return false
			}
			if !seen[x] {
				seen[x] = true
				todo = append(todo, refs[x]...)
			}
		}
	}
	return true
}

// known is the key of the finding for structs that it affects.
func known(r *report.Run, bad map[string]bool, name, key string) string {
	if bad[name] {
		r.Count("known_nested_local", 1)
		return r.ID + ":nested-local"
	}
	return key
}

// skewed is a random source whose small integers are at one end.
type skewed struct {
	random.Interface
	high bool
}

func (s skewed) Intn(n int) int {
	if s.high {
		return n - 1
	}
	return 0
}

var seedMu sync.Mutex

// sample is the sampling selector with a seed for the global source it uses.
func sample(n int, rng *rand.Rand) tv.Selector {
	s := tv.RandomSampleSelector(n)
	return tv.SelectorFunc(func(vs []tv.Vector) []tv.Vector {
		seedMu.Lock()
		defer seedMu.Unlock()
		rand.Seed(rng.Int63())
		return s.SelectVectors(vs)
	})
}

func generate(r *report.Run, u *stage.Unit, opts ...tv.Option) (*tv.Corpus, bool) {
	var c *tv.Corpus
	var err error
	p := r.Case(u.String(), func() { c, err = tv.GenerateFiles(u.Trees, opts...) })
	if p != nil {
		r.Violation(r.ID+":panic", "vector generation panics: "+p.Error(), u.String()+"\n"+p.Stack)
		return nil, false
	}
	if err == fault.ErrNotImplemented && !implemented(u.Files[0]) {
		r.Count("not_implemented", 1)
		return nil, false
	}
	if err != nil {
		r.Violation(r.ID+":error", "vector generation fails for a well-formed specification: "+err.Error(), u.String())
		return nil, false
	}
	return c, true
}

// context completes the recorded values with others.
func context(env *interp.Env, s *model.Struct, v tv.Vector, rng *rand.Rand) interp.Ctx {
	y := &interp.Synth{Env: env, Rng: rng, Wild: 20}
	ctx := y.Context(s)
	for n, m := range v.Constraints {
		for f, x := range m {
			if ctx[n] != nil {
				ctx[n][f] = uint64(x)
			}
		}
	}
	return ctx
}

func vdesc(u *stage.Unit, s *model.Struct, v tv.Vector, ctx interp.Ctx) string {
	return fmt.Sprintf("struct %s of\n%s\nvector %s\nrecorded %v\ncontext used: %s", s.Name, u, hex.EncodeToString(v.Data), v.Constraints, ctx)
}

func c16(r *report.Run) {
	r.Rule = "random well-formed specifications; all vectors for all structs under several selectors and random sources; " +
		"each is parsed by the reference interpreter under the recorded context values, the others arbitrary; non-trivial: distinct vector"
	r.Assume("greedy members come last in their struct and in structs that contain it, otherwise nothing is valid")
	ps := []specgen.Profile{
		profile(func(p *specgen.Profile) {}),
		profile(func(p *specgen.Profile) { p.ConsLen = 60; p.Cons = 6 }),
		profile(func(p *specgen.Profile) { p.Contexts, p.MinContexts, p.Context, p.StructElem = 3, 1, 75, 50 }),
		profile(func(p *specgen.Profile) { p.Union, p.UnionLen, p.Struct, p.Members = 6, 60, 5, 4 }),
		profile(func(p *specgen.Profile) { p.Struct, p.Var, p.StructElem, p.Fixed, p.Union = 8, 6, 60, 6, 1 }),
		profile(func(p *specgen.Profile) { p.Roles, p.Context, p.Union, p.Var, p.UnionLen = false, 40, 6, 6, 40 }),
		profile(func(p *specgen.Profile) { p.Leftover, p.UnionLeft, p.Recur, p.Structs = 1, 10, 3, 3 }),
	}
	n := r.Pick(1500, 12000)
	own := shipped()
	r.Parallel("spec", n, func(i int, rng *rand.Rand) {
		u, bad := newUnit(rng, ps[i%len(ps)])
		if i%100 == 7 {
			u, bad = stage.New(rng, specgen.Rich(rng)), nil
		}
		if i%20 == 13 {
			u, bad = stage.New(rng, specgen.Twin(rng)), nil
			r.Count("several_unions_with_one_tag", 1)
		}
		if i >= 100 && i-100 < len(own) {
			u, bad = stage.New(rng, own[i-100]), stage.Affected(interp.NewEnv(own[i-100]))
			r.Count("shipped_specifications", 1)
		}
		if !u.Parse(r) {
			return
		}
		for k := 0; k < r.Pick(4, 6); k++ {
			src := random.NewWithSeed(rng.Int63())
			opts := []tv.Option{tv.WithRandom(src)}
			switch k {
			case 1:
				opts = append(opts, tv.WithSelector(sample(1+rng.Intn(4), rng)))
			case 2:
				opts = []tv.Option{tv.WithRandom(skewed{src, rng.Intn(2) == 0})}
			case 3:
				rev := rng.Intn(2) == 0
				opts = append(opts, tv.WithSelector(tv.SelectorFunc(func(vs []tv.Vector) []tv.Vector {
					out := append([]tv.Vector{}, vs...)
					if rev {
						for a, b := 0, len(out)-1; a < b; a, b = a+1, b-1 {
							out[a], out[b] = out[b], out[a]
						}
					}
					if len(out) > 7 {
						out = out[:7]
					}
					return out
				})))
			}
			c, ok := generate(r, u, opts...)
			if !ok {
				return
			}
			for _, suite := range c.Suites {
				s := u.Env.Structs[suite.Type]
				if s == nil {
					r.Violation("C16:suite", "suite for an unknown type "+suite.Type, u.String())
					continue
				}
				for _, v := range suite.Vectors {
					r.Eval(1)
					ctx := context(u.Env, s, v, rng)
					d := vdesc(u, s, v, ctx)
					if len(v.Data) > 0 {
						r.Distinct(fmt.Sprint(i, s.Name, v.Data))
					}
					r.Count("vectors", 1)
					if len(v.Constraints) > 0 {
						r.Count("vectors_with_context", 1)
					}
					if bad := outOfRange(u.Env, s, v); bad != "" {
						r.Violation("C16:recorded", "recorded value out of place: "+bad, d)
						continue
					}
					res := u.Env.Parse(s.Name, v.Data, ctx, interp.Options{})
					switch {
					case res.Undecided:
						r.Count("undecided", 1)
					case !res.OK:
						r.Violation(known(r, bad, s.Name, "C16:invalid:"+strings.ReplaceAll(res.Why, " ", "-")), "invalid vector: "+res.Why, d)
					case res.Unmatched:
						r.Violation(known(r, bad, s.Name, "C16:unmatched"), "vector with a tag that has no case", d)
					case res.Used != len(v.Data):
						r.Violation(known(r, bad, s.Name, "C16:rest"), fmt.Sprintf("vector has %d bytes left over", len(v.Data)-res.Used), d)
					}
				}
			}
			if i < 3 && k == 0 && len(c.Suites) > 0 && len(c.Suites[0].Vectors) > 0 {
				r.Sample(fmt.Sprintf("%s\nfirst vector of %s: %x %v", u, c.Suites[0].Type, c.Suites[0].Vectors[0].Data, c.Suites[0].Vectors[0].Constraints))
			}
		}
	})
	r.Require("vectors", 5000)
	r.Require("vectors_with_context", 500)
}

// outOfRange checks that recorded values name context fields of the struct and
// fit them.
func outOfRange(env *interp.Env, s *model.Struct, v tv.Vector) string {
	for n, m := range v.Constraints {
		c := env.Contexts[n]
		listed := false
		for _, x := range s.Ctxs {
			listed = listed || x == n
		}
		if c == nil || !listed {
			if len(m) > 0 {
				return fmt.Sprintf("scope %q", n)
			}
			continue
		}
		for f, x := range m {
			ok := false
			for _, cf := range c.Fields {
				if cf.Name == f {
					ok = cf.Base.Bits == 64 || uint64(x) < 1<<uint(cf.Base.Bits)
				}
			}
			if !ok {
				return fmt.Sprintf("%s.%s=%d", n, f, x)
			}
		}
	}
	return ""
}

// can reports whether members can be parsed at all, by cases other than fail.
func can(env *interp.Env, s *model.Struct, ms []*model.Member) bool {
	for _, m := range ms {
		switch m.Kind {
		case model.Fail:
			return false
		case model.Union:
			some := false
			for i, c := range m.Cases {
				if can(env, s, c.Members) && selectable(env, s, m, i) {
					some = true
				}
			}
			if !some {
				return false
			}
		default:
			if m.Base.Struct != "" && !(m.Kind == model.Fixed && env.Int(m.Size) == 0) && !can(env, env.Structs[m.Base.Struct], env.Structs[m.Base.Struct].Members) {
				return false
			}
		}
	}
	return true
}

// selectable reports whether some tag value selects case i. Which case is
// selected changes only at the ends of ranges.
func selectable(env *interp.Env, s *model.Struct, u *model.Member, i int) bool {
	bits := tagBits(env, s, u.Tag)
	max := ^uint64(0) >> uint(64-bits)
	tries := []uint64{0, max}
	for _, c := range u.Cases {
		for _, r := range c.Vals {
			lo, hi := env.Bounds(r)
			tries = append(tries, lo, lo-1, hi, hi+1)
		}
	}
	for _, v := range tries {
		if v <= max && env.Select(u, v) == i {
			return true
		}
	}
	return false
}

func tagBits(env *interp.Env, s *model.Struct, r model.Ref) int {
	ms := s.Members
	if r.Scope != "" {
		ms = env.Contexts[r.Scope].Fields
	}
	for _, m := range ms {
		if m.Name == r.Name {
			return m.Base.Bits
		}
	}
	panic("no tag " + r.String())
}

// shared reports whether a context field is used more than once by the struct
// and the structs it is made of.
func shared(env *interp.Env, s *model.Struct) bool {
	n := map[model.Ref]int{}
	var count func(ms []*model.Member, times int)
	use := func(r model.Ref, times int) {
		if r.Scope != "" {
			n[r] += times
		}
	}
	count = func(ms []*model.Member, times int) {
		for _, m := range ms {
			t := times
			switch m.Kind {
			case model.Var:
				use(m.Ref, 1)
				t = 2
			case model.Fixed, model.Remainder, model.Leftover:
				t = 2
			case model.Union:
				use(m.Tag, 1)
				if m.Len != nil && m.Len.Ref != nil {
					use(*m.Len.Ref, times)
				}
				for _, c := range m.Cases {
					count(c.Members, times)
				}
			}
			if m.Base.Struct != "" {
				count(env.Structs[m.Base.Struct].Members, t)
			}
		}
	}
	count(s.Members, 1)
	for _, x := range n {
		if x > 1 {
			return true
		}
	}
	return false
}

func c17(r *report.Run) {
	r.Rule = "random well-formed specifications in which every tag and length field has one use; complete corpora and corpora of hand-made vectors, sampling selectors on lists of all sizes; non-trivial: distinct (specification, union case)"
	r.Assume("a tag or length field is used once or by unions with the same value lists, otherwise values needed elsewhere may exclude a case")
	ps := []specgen.Profile{
		profile(func(p *specgen.Profile) { p.NoShare = true; p.FullTag = 15; p.Union = 6 }),
		profile(func(p *specgen.Profile) { p.NoShare = true; p.Context = 60; p.MinContexts = 1; p.Union = 6 }),
		profile(func(p *specgen.Profile) { p.NoShare = true; p.Struct = 6; p.Union = 6; p.Members = 4 }),
	}
	n := r.Pick(1500, 12000)
	own := shipped()
	r.Parallel("spec", n, func(i int, rng *rand.Rand) {
		u, bad := newUnit(rng, ps[i%len(ps)])
		if i%100 == 7 {
			u, bad = stage.New(rng, specgen.Rich(rng)), nil
		}
		twin := i%20 == 13 && (i < 100 || i-100 >= len(own))
		if twin {
			u, bad = stage.New(rng, specgen.Twin(rng)), nil
			r.Count("several_unions_with_one_tag", 1)
		}
		if i >= 100 && i-100 < len(own) {
			u, bad = stage.New(rng, own[i-100]), stage.Affected(interp.NewEnv(own[i-100]))
			r.Count("shipped_specifications", 1)
		}
		if !u.Parse(r) {
			return
		}
		r.Eval(1)
		c, ok := generate(r, u, tv.WithRandom(random.NewWithSeed(rng.Int63())))
		if !ok {
			return
		}
		var got, want []string
		for _, s := range c.Suites {
			got = append(got, s.Type)
		}
		for _, s := range u.Env.Order {
			want = append(want, s.Name)
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			r.Violation("C17:suites", fmt.Sprintf("suites %v, structs %v", got, want), u.String())
			return
		}
		r.Count("suites", len(got))
		for k, s := range u.Env.Order {
			vs := c.Suites[k].Vectors
			if lk := c.Vectors(s.Name); !sameVectors(lk, vs) {
				r.Violation("C17:lookup", "lookup of "+s.Name+" does not return its suite", u.String())
			}
			taken := map[string]bool{}
			for _, v := range vs {
				ctx := context(u.Env, s, v, rng)
				u.Env.Parse(s.Name, v.Data, ctx, interp.Options{Observer: func(e string) { taken[e] = true }})
			}
			if shared(u.Env, s) && !twin {
				r.Count("structs_with_shared_context", 1)
				continue
			}
			if tight(u.Env, s, s.Members) {
				r.Count("structs_with_tight_length", 1)
				continue
			}
			able := can(u.Env, s, s.Members)
			if able && len(vs) == 0 {
				r.Violation(known(r, bad, s.Name, "C17:empty"), "no vectors for "+s.Name, u.String())
				continue
			}
			if !able {
				r.Count("impossible_structs", 1)
				continue
			}
			for _, m := range s.Members {
				if m.Kind != model.Union {
					continue
				}
				for j, cs := range m.Cases {
					if !can(u.Env, s, cs.Members) || !selectable(u.Env, s, m, j) {
						r.Count("cases_out_of_reach", 1)
						continue
					}
					e := fmt.Sprintf("case %s.%s.%d", s.Name, m.Name, j)
					r.Eval(1)
					r.Distinct(fmt.Sprint(i, e))
					r.Count("cases", 1)
					if cs.Default {
						r.Count("default_cases", 1)
					}
					if !taken[e] {
						r.Violation(known(r, bad, s.Name, "C17:case"), fmt.Sprintf("no vector takes case %d of union %s of struct %s", j, m.Name, s.Name), u.String())
					}
				}
			}
		}
		if i < 3 {
			r.Sample(fmt.Sprintf("%s\nsuites %v", u, got))
		}
	})
	// Lookup in other corpora.
	r.Parallel("corpus", r.Pick(300, 2000), func(i int, rng *rand.Rand) {
		c := &tv.Corpus{}
		first := map[string][]tv.Vector{}
		for k, n := 0, rng.Intn(6); k < n; k++ {
			name := fmt.Sprintf("t%d", rng.Intn(5))
			if _, ok := first[name]; ok {
				continue
			}
			vs := randVectors(rng, rng.Intn(5))
			first[name] = vs
			if rng.Intn(2) == 0 {
				c.AddVectors(name, vs)
			} else {
				c.AddSuite(tv.Suite{Type: name, Vectors: vs})
			}
		}
		for k := 0; k < 5; k++ {
			name := fmt.Sprintf("t%d", k)
			r.Eval(1)
			if !sameVectors(c.Vectors(name), first[name]) {
				r.Violation("C17:lookup", "lookup returns other vectors", fmt.Sprintf("%+v %s", c, name))
			}
			r.Count("lookups", 1)
		}
	})
	// Selectors.
	r.Parallel("select", r.Pick(400, 3000), func(i int, rng *rand.Rand) {
		m, k := rng.Intn(14), rng.Intn(14)
		vs := randVectors(rng, m)
		for j := range vs {
			vs[j].Data = append([]byte{byte(j)}, vs[j].Data...)
		}
		keep := append([]tv.Vector{}, vs...)
		var got []tv.Vector
		p := r.Case(fmt.Sprintf("RandomSampleSelector(%d) on %d vectors", k, m), func() {
			got = sample(k, rng).SelectVectors(vs)
		})
		r.Eval(1)
		r.Count("selections", 1)
		d := fmt.Sprintf("limit %d, %d vectors, got %v of %v", k, m, got, keep)
		if p != nil {
			r.Violation("C17:select", p.Error(), d)
			return
		}
		if !sameVectors(vs, keep) {
			r.Violation("C17:select-input", "the selector changes its input", d)
		}
		if m <= k {
			if !sameVectors(got, keep) {
				r.Violation("C17:select", "a list within the limit is not kept", d)
			}
			return
		}
		seen := map[byte]bool{}
		for _, v := range got {
			if len(v.Data) == 0 || int(v.Data[0]) >= m || !bytes.Equal(v.Data, keep[v.Data[0]].Data) || seen[v.Data[0]] {
				r.Violation("C17:select", "repeated or invented vector", d)
				return
			}
			seen[v.Data[0]] = true
		}
		if len(got) != k {
			r.Violation("C17:select", fmt.Sprintf("%d vectors kept, limit %d", len(got), k), d)
		}
		all := tv.Exhaustive.SelectVectors(vs)
		if !sameVectors(all, keep) {
			r.Violation("C17:select-all", "the exhaustive selector does not keep everything", d)
		}
	})
	r.Require("cases", 2000)
	r.Require("default_cases", 200)
	r.Require("selections", 300)
}

// tight reports whether the length field of a union may be too narrow for what
// a case holds.
func tight(env *interp.Env, s *model.Struct, ms []*model.Member) bool {
	for _, m := range ms {
		if m.Base.Struct != "" {
			if t := env.Structs[m.Base.Struct]; tight(env, t, t.Members) {
				return true
			}
		}
		for _, c := range m.Cases {
			if m.Len != nil && m.Len.Ref != nil && tagBits(env, s, *m.Len.Ref) < 64 &&
				env.MaxVector(c.Members)>>uint(tagBits(env, s, *m.Len.Ref)) > 0 {
				return true
			}
			if tight(env, s, c.Members) {
				return true
			}
		}
	}
	return false
}

func sameVectors(a, b []tv.Vector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].Data, b[i].Data) || fmt.Sprint(a[i].Constraints) != fmt.Sprint(b[i].Constraints) {
			return false
		}
	}
	return true
}

func randVectors(rng *rand.Rand, n int) []tv.Vector {
	vs := []tv.Vector{}
	for i := 0; i < n; i++ {
		b := make([]byte, rng.Intn(4))
		rng.Read(b)
		v := tv.NewVector(b)
		if rng.Intn(3) == 0 {
			v.Constraints.Set("ctx", "f", int64(rng.Intn(5)))
		}
		vs = append(vs, v)
	}
	return vs
}

// c27 compares constraint sets with plain maps over random histories.
func c27(r *report.Run) {
	r.Rule = "random histories of operations on up to 6 constraint sets over 4 scopes and 4 names, or up to 13 of each, every set compared with a map model after every step; non-trivial: distinct history"
	r.Parallel("history", r.Pick(4000, 40000), func(i int, rng *rand.Rand) {
		var sets []tv.Constraints
		var models []map[key]int64
		add := func(c tv.Constraints, m map[key]int64) {
			if len(sets) < 6 {
				sets = append(sets, c)
				models = append(models, m)
			} else {
				k := rng.Intn(6)
				sets[k], models[k] = c, m
			}
		}
		copyOf := func(m map[key]int64) map[key]int64 {
			o := map[key]int64{}
			for k, v := range m {
				o[k] = v
			}
			return o
		}
		scopes := []string{"", "a", "b", "ab"}
		names := []string{"x", "y", "ax", ""}
		vals := []int64{0, 1, -1, 1 << 62, 5}
		add(tv.NewConstraints(), map[key]int64{})
		var history []string
		fail := func(key, what string) {
			r.Violation("C27:"+key, what, strings.Join(history, "\n"))
		}
		steps := 6 + rng.Intn(40)
		wide := i%4 == 0
		if wide {
			// Many names and scopes, nearly always the same value for each.
			for k := 0; k < 9; k++ {
				names = append(names, fmt.Sprint("n", k))
				scopes = append(scopes, fmt.Sprint("s", k))
			}
			scopes = scopes[:1+rng.Intn(len(scopes))]
			steps = 20 + rng.Intn(120)
		}
		for n := 0; n < steps; n++ {
			a := rng.Intn(len(sets))
			c, m := sets[a], models[a]
			s, k, v := scopes[rng.Intn(len(scopes))], names[rng.Intn(len(names))], vals[rng.Intn(len(vals))]
			op := rng.Intn(16)
			if wide {
				if rng.Intn(30) > 0 {
					v = vals[(len(s)+len(k))%len(vals)]
				}
				if rng.Intn(2) == 0 {
					op = 0
				}
			}
			id := key{s, k}
			old, had := m[id]
			history = append(history, fmt.Sprintf("op %d on set %d: %q %q %d", op, a, s, k, v))
			p := r.Case(strings.Join(history, "\n"), func() {
				switch op {
				case 0, 1:
					var err error
					if op == 0 {
						err = c.Set(s, k, v)
					} else {
						err = c.SetRef(&ast.IDRef{Scope: s, Name: k}, v)
					}
					if had && old != v {
						if err == nil {
							fail("set", "recording a different value succeeds")
						}
					} else {
						if err != nil {
							fail("set", "recording fails: "+err.Error())
						}
						m[id] = v
					}
				case 2, 3, 4:
					var got int64
					var ok bool
					switch op {
					case 2:
						got, ok = c.Lookup(s, k)
					case 3:
						got, ok = c.LookupRef(&ast.IDRef{Scope: s, Name: k})
					case 4:
						got, ok = c.LookupLocal(k)
						old, had = m[key{"", k}]
					}
					if ok != had || ok && got != old {
						fail("lookup", fmt.Sprintf("lookup gives %d %v, want %d %v", got, ok, old, had))
					}
				case 5, 6:
					var got int64
					if op == 5 {
						got = c.LookupOrCreate(s, k, v)
					} else {
						got = c.LookupOrCreateRef(&ast.IDRef{Scope: s, Name: k}, v)
					}
					if !had {
						m[id], old = v, v
					}
					if got != old {
						fail("lookup-or-create", fmt.Sprintf("got %d, want %d", got, old))
					}
				case 7:
					c.ClearScope(s)
					for x := range m {
						if x.s == s {
							delete(m, x)
						}
					}
				case 8:
					c.ClearLocal()
					for x := range m {
						if x.s == "" {
							delete(m, x)
						}
					}
				case 9, 10:
					add(c.Clone(), copyOf(m))
				case 11:
					o := copyOf(m)
					for x := range o {
						if x.s == "" {
							delete(o, x)
						}
					}
					add(c.CloneGlobal(), o)
				case 12, 13, 14:
					b := rng.Intn(len(sets))
					history = append(history, fmt.Sprintf("  with set %d", b))
					conflict := false
					u := copyOf(m)
					for x, y := range models[b] {
						if z, ok := u[x]; ok && z != y {
							conflict = true
						}
						u[x] = y
					}
					if op == 14 {
						// Update stops somewhere when it fails; only try it without conflict.
						if conflict {
							err := c.Clone().Update(sets[b])
							if err == nil {
								fail("update", "conflicting update succeeds")
							}
							return
						}
						if err := c.Update(sets[b]); err != nil {
							fail("update", "update fails: "+err.Error())
						}
						models[a] = u
						return
					}
					g, err := c.Merge(sets[b])
					if conflict != (err != nil) {
						fail("merge", fmt.Sprintf("conflict %v, error %v", conflict, err))
						return
					}
					if conflict {
						r.Count("conflicts", 1)
						return
					}
					add(g, u)
				default:
					add(tv.NewConstraints(), map[key]int64{})
				}
			})
			r.Eval(1)
			if p != nil {
				fail("panic", p.Error())
				return
			}
			for j := range sets {
				if got, want := flat(sets[j]), flatModel(models[j]); got != want {
					fail("state", fmt.Sprintf("set %d holds {%s}, want {%s}", j, got, want))
					return
				}
				for _, s := range scopes {
					for _, k := range names {
						v, ok := sets[j].Lookup(s, k)
						w, has := models[j][key{s, k}]
						if ok != has || v != w {
							fail("lookup", fmt.Sprintf("set %d: %q %q gives %d %v, want %d %v", j, s, k, v, ok, w, has))
							return
						}
					}
				}
			}
			r.Count(fmt.Sprintf("op_%d", op), 1)
		}
		r.Distinct(strings.Join(history, "\n"))
		if i < 3 {
			r.Sample(strings.Join(history, "; "))
		}
	})
	r.Require("conflicts", 100)
}

func flat(c tv.Constraints) string {
	var s []string
	for n, m := range c {
		for k, v := range m {
			s = append(s, fmt.Sprintf("%q.%q=%d", n, k, v))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func flatModel(m map[key]int64) string {
	var s []string
	for x, v := range m {
		s = append(s, fmt.Sprintf("%q.%q=%d", x.s, x.k, v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

type key struct{ s, k string }

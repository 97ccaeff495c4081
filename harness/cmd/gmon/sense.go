package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/fault"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/tv"

	"github.com/mmcloughlin/trunnel/verif/interp"
	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

// site is a place where a mistake can be made.
type site struct {
	kind  string
	apply func()
}

// allNames is the set of names declared in a specification.
func allNames(f *model.File) map[string]bool {
	m := map[string]bool{}
	var members func(ms []*model.Member)
	members = func(ms []*model.Member) {
		for _, x := range ms {
			m[x.Name] = true
			for _, c := range x.Cases {
				members(c.Members)
			}
		}
	}
	for _, s := range f.Hoist() {
		m[s.Name] = true
		members(s.Members)
	}
	for _, c := range f.Contexts {
		m[c.Name] = true
		members(c.Fields)
	}
	for _, c := range f.Consts {
		m[c.Name] = true
	}
	return m
}

// missing is a name that is not declared: other, or one that differs little
// from the given one, if need be in the case of letters.
func missing(rng *rand.Rand, taken map[string]bool, name, other string, letters bool) string {
	if rng.Intn(2) == 0 {
		return other
	}
	vs := []string{name + "_", name + "0"}
	if letters {
		vs = append(vs, strings.ToUpper(name), strings.ToUpper(name[:1])+name[1:], name[:len(name)-1]+strings.ToUpper(name[len(name)-1:]), "_"+name)
	}
	if v := vs[rng.Intn(len(vs))]; !taken[v] {
		return v
	}
	return other
}

// sites lists the mistakes that can be made in a specification. Applying one
// changes the model.
func sites(f *model.File, rng *rand.Rand) []site {
	var out []site
	add := func(kind string, apply func()) { out = append(out, site{kind, apply}) }
	taken := allNames(f)
	integer := func(where string, i *model.Int) {
		add("undefined constant in "+where, func() {
			n := "NOSUCHQ"
			if len(f.Consts) > 0 {
				n = missing(rng, taken, f.Consts[rng.Intn(len(f.Consts))].Name, n, false)
			}
			*i = model.Int{Const: n}
		})
	}
	env := interp.NewEnv(f)
	ranges := func(where string, bits int, rs *[]model.Range) {
		for k := range *rs {
			r := &(*rs)[k]
			integer(where, &r.Lo)
			if r.Hi != nil {
				integer(where+" (end)", r.Hi)
			}
			lo, hi := env.Bounds(*r)
			add("reversed range in "+where, func() {
				if hi == lo {
					hi++
				}
				if hi > 1<<62 {
					hi, lo = 9, 8
				}
				r.Lo, r.Hi = model.Int{Val: int64(hi)}, &model.Int{Val: int64(lo)}
			})
			add("overlapping ranges in "+where, func() {
				v := model.Range{Lo: model.Int{Val: int64(lo)}}
				switch rng.Intn(4) {
				case 0:
					v.Lo.Val = int64(hi)
				case 1:
					v = *r
				case 2:
					if hi < 1<<62 {
						v.Hi = &model.Int{Val: int64(hi) + 1}
					}
				}
				at := rng.Intn(len(*rs) + 1)
				n := append([]model.Range{}, (*rs)[:at]...)
				*rs = append(append(n, v), (*rs)[at:]...)
			})
		}
	}
	var members func(s *model.Struct, where string, ms []*model.Member)
	ref := func(s *model.Struct, where string, r *model.Ref) {
		add(where+" is missing", func() { *r = model.Ref{Name: missing(rng, taken, r.Name, "nosuchq", true)} })
		add(where+" is in an undefined context", func() {
			n := "nosuchq"
			if len(f.Contexts) > 0 {
				n = missing(rng, taken, f.Contexts[rng.Intn(len(f.Contexts))].Name, n, true)
			}
			r.Scope = n
		})
		if len(f.Contexts) > 0 {
			c := f.Contexts[rng.Intn(len(f.Contexts))].Name
			add(where+" is missing in a context", func() {
				*r = model.Ref{Scope: c, Name: missing(rng, taken, r.Name, "nosuchq", true)}
			})
		}
		add(where+" is not an integer", func() {
			m := &model.Member{Name: "notintq", Kind: model.Nulterm}
			switch rng.Intn(5) {
			case 4:
				m.Kind, m.Base, m.Size = model.Fixed, model.Base{Char: true}, model.Int{Val: 4}
			case 0:
				m.Kind = model.Ptr
			case 1:
				m.Kind, m.Base, m.Size = model.Fixed, model.Base{Bits: 8}, model.Int{Val: 4}
			case 2:
				for _, x := range env.Order {
					if len(x.Ctxs) == 0 && x != s {
						m.Kind, m.Base = model.Scalar, model.Base{Struct: x.Name}
					}
				}
			}
			s.Members = append([]*model.Member{m}, s.Members...)
			*r = model.Ref{Name: "notintq"}
		})
	}
	base := func(s *model.Struct, where string, b *model.Base) {
		if b.Struct != "" && b.Inline == nil {
			add("undefined struct in "+where, func() { b.Struct = missing(rng, taken, b.Struct, "nosuchq", true) })
		}
		if b.Inline != nil {
			members(b.Inline, "inline struct", b.Inline.Members)
		}
	}
	members = func(s *model.Struct, where string, ms []*model.Member) {
		for _, m := range ms {
			w := m.Kind.String() + " in " + where
			switch m.Kind {
			case model.Scalar, model.Fixed, model.Var, model.Leftover, model.Remainder:
				base(s, w, &m.Base)
			}
			switch m.Kind {
			case model.Scalar:
				if m.Base.Cons != nil {
					ranges("constraint in "+where, m.Base.Bits, &m.Base.Cons)
				}
			case model.Fixed, model.Leftover:
				integer(w, &m.Size)
			case model.Var:
				ref(s, "length of "+w, &m.Ref)
			case model.Union:
				ref(s, "tag", &m.Tag)
				if m.Len != nil && m.Len.Ref != nil {
					ref(s, "length of union", m.Len.Ref)
				}
				if m.Len != nil && m.Len.Leftover != nil {
					integer("leftover length of union", m.Len.Leftover)
				}
				for _, c := range m.Cases {
					if !c.Default {
						ranges("case", 0, &c.Vals)
					}
					members(s, "case", c.Members)
				}
			}
		}
	}
	for _, s := range f.Structs {
		if s.Extern {
			continue
		}
		s := s
		members(s, "struct", s.Members)
		add("undefined context of struct", func() {
			n := "nosuchq"
			if len(f.Contexts) > 0 {
				n = missing(rng, taken, f.Contexts[rng.Intn(len(f.Contexts))].Name, n, true)
			}
			s.Ctxs = append(append([]string{}, s.Ctxs...), n)
		})
		add("struct declared twice", func() {
			f.Structs = append(f.Structs, &model.Struct{Name: s.Name, Ctxs: s.Ctxs, Members: []*model.Member{{Name: "a", Base: model.Base{Bits: 8}}}})
		})
	}
	for _, c := range f.Contexts {
		c := c
		add("context declared twice", func() { f.Contexts = append(f.Contexts, &model.Context{Name: c.Name, Fields: c.Fields}) })
	}
	for _, c := range f.Consts {
		c := c
		add("constant declared with two values", func() {
			f.Consts = append(f.Consts, &model.Const{Name: c.Name, Val: (c.Val + 1) & (1<<62 - 1)})
		})
	}
	return out
}

// tame reports whether vectors can be generated in reasonable time if the
// specification has integers up to 20 only.
func tame(f *model.File) bool {
	tags, lens := map[string]bool{}, map[string]bool{}
	size := 0
	for _, s := range f.Hoist() {
		all := append([]*model.Member{}, s.Members...)
		for _, m := range s.Members {
			for _, c := range m.Cases {
				all = append(all, c.Members...)
			}
		}
		size += len(all)
		for _, m := range all {
			switch m.Kind {
			case model.Var:
				lens[m.Ref.Name] = true
			case model.Union:
				tags[m.Tag.Name] = true
				if m.Len != nil && m.Len.Ref != nil {
					lens[m.Len.Ref.Name] = true
				}
			}
		}
	}
	for n := range tags {
		if lens[n] {
			return false
		}
	}
	return size < 25 && specgen.Vectors(f, 200) <= 200
}

// attempt generates everything and returns the errors of the library and of
// package generation.
func attempt(r *report.Run, u *stage.Unit, dir string, vectors bool) (lib, pkg error, ok bool) {
	d := u.String()
	mkdir(dir)
	p := r.Case(d, func() {
		_, lib = gen.Marshallers("p", u.Trees)
		if vectors {
			c, err := tv.GenerateFiles(u.Trees, tv.WithRandom(random.NewWithSeed(0)))
			if err == nil {
				gen.CorpusTests("p", c)
				gen.Fuzzers("p", c)
			}
		}
		if vectors || lib != nil {
			pkg = gen.Package(gen.Config{Package: "p", Dir: dir}, u.Trees)
		}
	})
	if p != nil {
		r.Violation("C25:panic:"+where(p.Stack), "generation panics: "+p.Error(), d+"\n"+p.Stack)
		return nil, nil, false
	}
	return lib, pkg, true
}

// where is the function of the code under test that panicked.
func where(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/mmcloughlin/trunnel/") && !strings.Contains(l, "/verif/") {
			return strings.SplitN(l, "(0x", 2)[0]
		}
	}
	return "?"
}

func refused(r *report.Run, u *stage.Unit, dir, kind string, lib, pkg error) {
	d := kind + "\n" + u.String()
	if lib == nil || pkg == nil {
		r.Violation("C25:accepted:"+strings.Fields(kind)[0], fmt.Sprintf("a specification with a mistake is accepted (%s): library error %v, package error %v", kind, lib, pkg), d)
		return
	}
	es, err := os.ReadDir(dir)
	if err != nil {
		report.Fatal("%v", err)
	}
	if len(es) > 0 {
		r.Violation("C25:written", "files are written for a specification with a mistake: "+kind, d)
	}
}

func c25(r *report.Run) {
	r.Rule = "every mistake of the listed kinds in every position of random well-formed specifications, one at a time; random grammatical files with few names, with a reference check for the same mistakes; random grammatical files; generation must not panic, and must refuse mistakes; non-trivial: distinct specification"
	scratch := stage.Scratch()
	n := r.Pick(250, 1500)
	r.Parallel("inject", n, func(i int, rng *rand.Rand) {
		seed := rng.Int63()
		// The same specification again for each mistake.
		again := func() (*model.File, *rand.Rand) {
			g := rand.New(rand.NewSource(seed))
			p := reproProfiles[i%2]
			if i%3 == 0 {
				p = specgen.Full()
			}
			p.Members, p.Structs = 4, 3
			return specgen.Spec(g, p), g
		}
		f, g := again()
		count := len(sites(f, g))
		for k := 0; k < count; k++ {
			if count > 40 && rng.Intn(count) > 40 {
				continue
			}
			f, g := again()
			s := sites(f, g)[k]
			s.apply()
			ms := stage.Mistakes([]*model.File{f})
			if len(ms) == 0 {
				report.Fatal("no mistake: %s\n%s", s.kind, specgen.Plain(f))
			}
			fs := []*model.File{f}
			// Duplicates also in separate files.
			if strings.Contains(s.kind, "declared") && g.Intn(2) == 0 {
				fs = spread(f, g)
			}
			u := stage.New(g, fs...)
			if !u.Parse(r) {
				return
			}
			dir := filepath.Join(scratch, fmt.Sprintf("i%d.%d", i, k))
			lib, pkg, ok := attempt(r, u, dir, false)
			if !ok {
				return
			}
			r.Eval(1)
			r.Distinct(u.String())
			r.Count("mistakes", 1)
			r.Count("mistake_"+strings.NewReplacer(" ", "_", "(", "", ")", "").Replace(s.kind), 1)
			refused(r, u, dir, s.kind, lib, pkg)
			if i < 2 && k < 2 {
				r.Sample(s.kind + "\n" + u.String())
			}
			os.RemoveAll(dir)
		}
	})
	n = r.Pick(4000, 25000)
	r.Parallel("small", n, func(i int, rng *rand.Rand) {
		f := specgen.Small(rng)
		fs := []*model.File{f}
		if i%3 == 0 {
			fs = spread(f, rng)
		}
		u := stage.New(rng, fs...)
		if !u.Parse(r) {
			return
		}
		dir := filepath.Join(scratch, fmt.Sprintf("s%d", i))
		lib, pkg, ok := attempt(r, u, dir, tame(f))
		if !ok {
			return
		}
		r.Eval(1)
		r.Distinct(u.String())
		if ms := stage.Mistakes(fs); len(ms) > 0 {
			r.Count("small_with_mistakes", 1)
			refused(r, u, dir, strings.Join(ms, "; "), lib, pkg)
		} else if lib == nil {
			r.Count("small_generated", 1)
			if tame(f) {
				r.Count("small_vectors", 1)
			}
			if pkg == fault.ErrNotImplemented {
				r.Violation("C25:unimplemented", "an internal error escapes", u.String())
			}
		} else {
			r.Count("small_refused_otherwise", 1)
		}
		os.RemoveAll(dir)
	})
	r.Parallel("syntax", r.Pick(1500, 10000), func(i int, rng *rand.Rand) {
		f := specgen.Syntax(rng, i%2 == 0)
		u := stage.New(rng, f)
		// Odd names may read differently; whatever is parsed must not panic.
		fs, err := trees(u.Texts)
		if err != nil {
			r.Count("syntax_not_parsed", 1)
			return
		}
		u.Trees = fs
		dir := filepath.Join(scratch, fmt.Sprintf("y%d", i))
		if _, _, ok := attempt(r, u, dir, false); ok {
			r.Eval(1)
			r.Count("syntax", 1)
			r.Distinct(u.String())
		}
		os.RemoveAll(dir)
	})
	r.Require("mistakes", 2000)
	r.Require("small_with_mistakes", 500)
	r.Require("small_generated", 300)
	r.Require("small_vectors", 50)
	r.Require("syntax", 1000)
	for _, k := range []string{"mistake_tag_is_missing", "mistake_tag_is_not_an_integer", "mistake_undefined_context_of_struct", "mistake_struct_declared_twice",
		"mistake_context_declared_twice", "mistake_constant_declared_with_two_values", "mistake_reversed_range_in_case", "mistake_overlapping_ranges_in_case",
		"mistake_reversed_range_in_constraint_in_struct", "mistake_overlapping_ranges_in_constraint_in_case", "mistake_undefined_constant_in_leftover_in_struct",
		"mistake_undefined_constant_in_fixed_in_case", "mistake_undefined_struct_in_var_in_struct"} {
		r.Require(k, 3)
	}
}

// spread distributes declarations over files, in order of declaration.
func spread(f *model.File, rng *rand.Rand) []*model.File {
	n := 2 + rng.Intn(3)
	fs := make([]*model.File, n)
	for i := range fs {
		fs[i] = &model.File{}
	}
	pick := func() *model.File { return fs[rng.Intn(n)] }
	for _, c := range f.Consts {
		x := pick()
		x.Consts = append(x.Consts, c)
	}
	for _, c := range f.Contexts {
		x := pick()
		x.Contexts = append(x.Contexts, c)
	}
	for _, s := range f.Structs {
		x := pick()
		x.Structs = append(x.Structs, s)
	}
	for _, p := range f.Pragmas {
		x := pick()
		x.Pragmas = append(x.Pragmas, p)
	}
	return fs
}

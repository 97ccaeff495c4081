package stage

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/refparse"
	"github.com/mmcloughlin/trunnel/verif/report"
)

// Shipped are the specifications of the repository that the reference reader
// accepts and that stand on their own, file by file, and the groups of files
// that make one package.
func Shipped() [][]*model.File {
	var names []string
	for _, g := range []string{
		"/repo/gen/tests/*/*.trunnel", "/repo/gen/testdata/valid/*.trunnel", "/repo/examples/*/*.trunnel",
		"/repo/testdata/*/*.trunnel", "/repo/parse/testdata/valid/*.trunnel",
	} {
		m, err := filepath.Glob(g)
		if err != nil {
			report.Fatal("%v", err)
		}
		names = append(names, m...)
	}
	sort.Strings(names)
	var out [][]*model.File
	dirs := map[string][]*model.File{}
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil || len(b) > 20000 {
			continue
		}
		f, err := refparse.Parse(string(b))
		if err != nil {
			continue
		}
		if complete(f) {
			out = append(out, []*model.File{f})
		} else {
			d := filepath.Dir(n)
			dirs[d] = append(dirs[d], f)
		}
	}
	// Files that need others are taken with all of their directory that fit.
	for _, d := range names {
		fs := dirs[filepath.Dir(d)]
		delete(dirs, filepath.Dir(d))
		if len(fs) > 0 && strings.HasSuffix(filepath.Dir(d), "/tor") && complete(fs...) {
			out = append(out, fs)
		}
	}
	if len(out) > 60 {
		out = out[:60]
	}
	return out
}

// complete reports whether files have no mistakes and need no others.
func complete(fs ...*model.File) bool {
	if len(Mistakes(fs)) > 0 {
		return false
	}
	defined := map[string]bool{}
	for _, f := range fs {
		for _, s := range f.Hoist() {
			if !s.Extern {
				defined[s.Name] = true
			}
		}
	}
	for _, f := range fs {
		for _, s := range f.Hoist() {
			if s.Extern && !defined[s.Name] {
				return false
			}
		}
	}
	return len(defined) > 0
}

// Mistakes lists what is certainly wrong with files, of the kinds that
// generation promises to report.
func Mistakes(fs []*model.File) []string {
	var out []string
	add := func(format string, a ...interface{}) { out = append(out, fmt.Sprintf(format, a...)) }
	structs, ctxs, consts := map[string]int{}, map[string]*model.Context{}, map[string]int64{}
	extern := map[string]bool{}
	for _, f := range fs {
		for _, s := range f.Hoist() {
			if s.Extern {
				extern[s.Name] = true
				continue
			}
			if structs[s.Name]++; structs[s.Name] == 2 {
				add("struct %s declared twice", s.Name)
			}
		}
		for _, c := range f.Contexts {
			if ctxs[c.Name] != nil {
				add("context %s declared twice", c.Name)
			}
			ctxs[c.Name] = c
		}
		for _, c := range f.Consts {
			if v, ok := consts[c.Name]; ok && v != c.Val {
				add("constant %s declared with two values", c.Name)
			}
			consts[c.Name] = c.Val
		}
	}
	integer := func(i model.Int) (int64, bool) {
		if i.Const == "" {
			return i.Val, true
		}
		v, ok := consts[i.Const]
		if !ok {
			add("undefined constant %s", i.Const)
		}
		return v, ok
	}
	ranges := func(rs []model.Range) {
		type iv struct{ lo, hi int64 }
		var seen []iv
		for _, r := range rs {
			lo, ok := integer(r.Lo)
			hi := lo
			if r.Hi != nil {
				h, ok2 := integer(*r.Hi)
				hi, ok = h, ok && ok2
			}
			if !ok {
				continue
			}
			if hi < lo {
				add("reversed range %s", r)
				continue
			}
			for _, s := range seen {
				if lo <= s.hi && s.lo <= hi {
					add("overlapping range %s", r)
				}
			}
			seen = append(seen, iv{lo, hi})
		}
	}
	base := func(b model.Base) {
		if b.Struct != "" && structs[b.Struct] == 0 && !extern[b.Struct] {
			add("undefined struct %s", b.Struct)
		}
		if b.Cons != nil {
			ranges(b.Cons)
		}
	}
	// ref looks for integers among fields; doubtful cases pass.
	ref := func(what string, r model.Ref, ms []*model.Member) {
		var in []*model.Member
		if r.Scope == "" {
			in = ms
		} else {
			c := ctxs[r.Scope]
			if c == nil {
				add("undefined context %s", r.Scope)
				return
			}
			in = c.Fields
		}
		for _, m := range in {
			if m.Name == r.Name && m.Kind == model.Scalar && m.Base.Bits != 0 {
				return
			}
		}
		add("%s %s is missing or not an integer", what, r)
	}
	for _, f := range fs {
		for _, s := range f.Hoist() {
			for _, c := range s.Ctxs {
				if !s.Extern && ctxs[c] == nil {
					add("undefined context %s", c)
				}
			}
			top := s.Members
			all := append([]*model.Member{}, top...)
			for _, m := range top {
				for _, c := range m.Cases {
					all = append(all, c.Members...)
				}
			}
			for _, m := range all {
				switch m.Kind {
				case model.Scalar, model.Remainder:
					base(m.Base)
				case model.Fixed, model.Leftover:
					base(m.Base)
					integer(m.Size)
				case model.Var:
					base(m.Base)
					ref("length", m.Ref, all)
				case model.Union:
					ref("tag", m.Tag, top)
					if m.Len != nil && m.Len.Ref != nil {
						ref("length", *m.Len.Ref, all)
					}
					if m.Len != nil && m.Len.Leftover != nil {
						integer(*m.Len.Leftover)
					}
					for _, c := range m.Cases {
						if !c.Default {
							ranges(c.Vals)
						}
					}
				}
			}
		}
	}
	return out
}

package stage

import (
	"github.com/mmcloughlin/trunnel/verif/interp"
	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/specgen"
)

// Limits for specifications that vectors are generated for. The number of
// vectors is exponential in the length of arrays of structs with unions.
const (
	maxVectors = 1500
	maxSize    = 30000
)

// Vectors reports whether vectors can be generated for a specification in
// reasonable time, and which structs the known finding affects.
func Vectors(f *model.File) (ok, some bool, bad map[string]bool) {
	if specgen.Vectors(f, maxVectors) > maxVectors {
		return false, false, nil
	}
	env := interp.NewEnv(f)
	size := 0
	for _, s := range env.Order {
		size += env.MaxVector(s.Members)
	}
	if size > maxSize {
		return false, false, nil
	}
	bad = Affected(env)
	for _, b := range bad {
		some = some || b
	}
	return true, some, bad
}

// Affected lists the structs of the known finding "nested-local": a tag or
// length is forgotten when a member of struct type lies between the field that
// holds it and its use (or in a case of the union it selects), so the field
// gets an arbitrary value. Structs with such a struct inside are included.
func Affected(env *interp.Env) map[string]bool {
	bad := map[string]bool{}
	for _, s := range env.Order {
		bad[s.Name] = forgets(s)
	}
	for changed := true; changed; {
		changed = false
		for _, s := range env.Order {
			if bad[s.Name] {
				continue
			}
			for _, n := range uses(s.Members) {
				if bad[n] {
					bad[s.Name], changed = true, true
				}
			}
		}
	}
	return bad
}

func uses(ms []*model.Member) []string {
	var out []string
	for _, m := range ms {
		if m.Base.Struct != "" {
			out = append(out, m.Base.Struct)
		}
		for _, c := range m.Cases {
			out = append(out, uses(c.Members)...)
		}
	}
	return out
}

func forgets(s *model.Struct) bool {
	// drops[k]: processing member k forgets what later members need.
	drops := make([]bool, len(s.Members))
	at := map[string]int{}
	for k, m := range s.Members {
		at[m.Name] = k
		drops[k] = holds(m)
		for _, c := range m.Cases {
			for _, x := range c.Members {
				drops[k] = drops[k] || holds(x)
			}
		}
	}
	lost := func(r model.Ref, j int) bool {
		i, ok := at[r.Name]
		if r.Scope != "" || !ok {
			return false
		}
		for k := i + 1; k < j; k++ {
			if drops[k] {
				return true
			}
		}
		return false
	}
	for j, m := range s.Members {
		switch m.Kind {
		case model.Var:
			if lost(m.Ref, j) {
				return true
			}
		case model.Union:
			if lost(m.Tag, j+1) || m.Len != nil && m.Len.Ref != nil && lost(*m.Len.Ref, j) {
				return true
			}
			for _, c := range m.Cases {
				for k, x := range c.Members {
					if x.Kind != model.Var || x.Ref.Scope != "" {
						continue
					}
					// Top level length, or one in the same case.
					first := 0
					for i, y := range c.Members[:k] {
						if y.Name == x.Ref.Name {
							first = i + 1
						}
					}
					for _, y := range c.Members[first:k] {
						if holds(y) {
							return true
						}
					}
					if lost(x.Ref, j) {
						return true
					}
				}
			}
		}
	}
	return false
}

func holds(m *model.Member) bool { return m.Kind == model.Scalar && m.Base.Struct != "" }

package specgen

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/serenize/snaker"

	"github.com/mmcloughlin/trunnel/verif/model"
)

// Profile is a mixture of features for well-formed specifications.
type Profile struct {
	Structs int // at most
	Members int // at most, per struct

	// Weights of member kinds.
	Int, Cons, Nulterm, Ptr, Struct, Fixed, Var, Leftover, Union int

	// Percentages.
	Remainder   int // struct ends in a remainder array
	EOS         int // struct ends in eos
	Inline      int // struct reference is written inline
	Context     int // reference goes to a context field
	Const       int // integer is written as a constant
	Default     int // union has a default case
	UnionLen    int // union has a length, by reference
	UnionLeft   int // union has a leftover length
	Wide        int // length field is u32 or u64
	CaseLen     int // array length refers to a field of the same case
	Ignore      int // case ends in ignore or ellipsis
	CaseRem     int // case ends in a remainder array
	Fail        int // case is fail
	Empty       int // case is empty
	ZeroWidth   int // struct has no members
	ConsLen     int // length and tag fields have constraints
	StructElem  int // array elements are structs
	Adjacent    int // range starts next to the previous one
	FullTag     int // cases cover all values of an 8-bit tag
	Recur       int // struct may contain itself
	Big         int // a number is much larger than usual
	Contexts    int // number of contexts at most
	MinContexts int // and at least
	Extern      bool
	Pragmas     bool
	MidLeftover bool // leftover members may be followed by anything
	NoStructArr bool // no arrays of structs that use contexts
	TailGreedy  bool // members that depend on the end of the input come last
	Roles       bool // a field is used as a tag or as a length, not both
	NoShare     bool // a field is used once at most
}

// Full uses everything.
func Full() Profile {
	return Profile{
		Structs: 5, Members: 6,
		Int: 5, Cons: 3, Nulterm: 2, Ptr: 1, Struct: 3, Fixed: 3, Var: 4, Leftover: 1, Union: 4,
		Remainder: 15, EOS: 10, Inline: 25, Context: 30, Const: 25, Default: 50, UnionLen: 30, UnionLeft: 10,
		Wide: 15, CaseLen: 30, Ignore: 15, CaseRem: 15, Fail: 12, Empty: 10, ZeroWidth: 3, ConsLen: 15,
		StructElem: 30, Adjacent: 40, FullTag: 5, Contexts: 3, Recur: 8, Big: 4, Pragmas: true, Extern: true,
	}
}

// GoName is the conversion of names to Go identifiers.
func GoName(n string) string { return snaker.SnakeToCamel(strings.ToLower(n)) }

type spec struct {
	p      Profile
	rng    *rand.Rand
	f      *model.File
	types  map[string]bool // Go type names in use
	consts map[string]int64
	// finished structs that may be referred to
	done   []*model.Struct
	all    []*model.Struct // finished structs
	budget int
	roles  map[string]string
}

// Spec generates a well-formed specification.
func Spec(rng *rand.Rand, p Profile) *model.File {
	if p.TailGreedy {
		p.Recur = 0
	}
	g := &spec{p: p, rng: rng, f: &model.File{}, types: map[string]bool{}, consts: map[string]int64{}, budget: 30, roles: map[string]string{}}
	nctx := p.MinContexts + rng.Intn(p.Contexts-p.MinContexts+1)
	if p.Contexts > 0 && g.pct(p.Big) {
		nctx += rng.Intn(6)
	}
	for i := 0; i < nctx; i++ {
		c := &model.Context{Name: g.typeName(true)}
		names := map[string]bool{}
		k := 1 + rng.Intn(3)
		if g.pct(p.Big) {
			k = rng.Intn(8)
			if rng.Intn(3) == 0 {
				k += rng.Intn(20)
			}
		}
		for j := 0; j < k; j++ {
			c.Fields = append(c.Fields, &model.Member{Kind: model.Scalar, Name: g.fieldName(names), Base: model.Base{Bits: g.lenBits()}})
		}
		g.f.Contexts = append(g.f.Contexts, c)
	}
	n := 1 + rng.Intn(p.Structs)
	if g.pct(p.Big) {
		n += rng.Intn(16)
	}
	var tops []*model.Struct
	for i := 0; i < n; i++ {
		s := g.structure(0, nil)
		tops = append(tops, s)
		g.done = append(g.done, s)
		g.all = append(g.all, s)
	}
	rng.Shuffle(len(tops), func(i, j int) { tops[i], tops[j] = tops[j], tops[i] })
	g.f.Structs = tops
	var cs []string
	for c := range g.consts {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		g.f.Consts = append(g.f.Consts, &model.Const{Name: c, Val: g.consts[c]})
	}
	if p.Pragmas && rng.Intn(4) == 0 {
		g.f.Pragmas = append(g.f.Pragmas, &model.Pragma{Type: "very_opaque", Opts: []string{tops[0].Name}})
	}
	return g.f
}

func (g *spec) pct(p int) bool { return g.rng.Intn(100) < p }

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var " +
		"append bool byte cap clear close complex copy delete error false float imag int iota len make max min new nil panic print println real recover rune string true uint uintptr any comparable " +
		"binary bytes errors data cur err idx tmp restore testing cases parse init main") {
		reserved[w] = true
	}
}

var syllables = []string{"ab", "ce", "di", "fo", "gu", "ha", "ki", "lo", "mu", "ne", "ip", "pa", "qi", "ro", "su", "ta", "ve", "wo", "xy", "zu", "id", "url", "api", "in", "er"}

func (g *spec) word() string {
	for {
		var b strings.Builder
		n := 1 + g.rng.Intn(3)
		if g.rng.Intn(40) == 0 {
			n += g.rng.Intn(30)
		}
		if g.rng.Intn(40) == 0 {
			b.WriteString("_")
		}
		for i := 0; i < n; i++ {
			if i > 0 && g.rng.Intn(3) == 0 {
				b.WriteString("_")
			}
			s := syllables[g.rng.Intn(len(syllables))]
			if g.rng.Intn(8) == 0 {
				s = strings.Title(s)
			}
			b.WriteString(s)
			if g.rng.Intn(8) == 0 {
				fmt.Fprint(&b, g.rng.Intn(10))
			}
		}
		if g.rng.Intn(40) == 0 {
			b.WriteString("_")
		}
		w := b.String()
		l := strings.ToLower(strings.Trim(w, "_"))
		if reserved[l] || reserved[w] || len(w) < 2 || strings.HasPrefix(l, "parse") || strings.HasPrefix(l, "test") {
			continue
		}
		return w
	}
}

// Word makes a name.
func Word(rng *rand.Rand) string { return (&spec{rng: rng}).word() }

func (g *spec) typeName(ctx bool) string {
	for {
		w := g.word()
		if ctx && len(w) < 3 {
			continue
		}
		n := GoName(w)
		if g.types[n] {
			continue
		}
		g.types[n] = true
		return w
	}
}

func (g *spec) fieldName(used map[string]bool) string {
	for {
		w := g.word()
		if len(used) < 8 && g.rng.Intn(3) == 0 {
			w = string(lower[g.rng.Intn(26)])
		}
		n := GoName(w)
		if used[n] || reserved[w] {
			continue
		}
		used[n] = true
		return w
	}
}

func (g *spec) lenBits() int {
	if g.pct(g.p.Wide) {
		return 32 << g.rng.Intn(2)
	}
	return 8 << g.rng.Intn(2)
}

func (g *spec) integer(v int64) model.Int {
	if !g.pct(g.p.Const) {
		return model.Int{Val: v}
	}
	var same []string
	for n, w := range g.consts {
		if w == v {
			same = append(same, n)
		}
	}
	if len(same) > 0 {
		sort.Strings(same)
		return model.Int{Const: same[0]}
	}
	for {
		n := strings.ToUpper(syllables[g.rng.Intn(len(syllables))])
		if g.rng.Intn(2) == 0 {
			n += "_" + strings.ToUpper(syllables[g.rng.Intn(len(syllables))])
		}
		if g.rng.Intn(3) == 0 {
			n += fmt.Sprint(g.rng.Intn(10))
		}
		if _, ok := g.consts[n]; !ok && n != "IN" {
			g.consts[n] = v
			return model.Int{Const: n}
		}
	}
}

// lists makes k disjoint lists of values of an n-bit integer.
func (g *spec) lists(bits, k int, full bool) [][]model.Range {
	max := uint64(1)<<63 - 1
	if bits < 64 {
		max = uint64(1)<<uint(bits) - 1
	}
	total := 0
	sizes := make([]int, k)
	for i := range sizes {
		sizes[i] = 1
		for g.rng.Intn(3) == 0 {
			sizes[i]++
		}
		if g.pct(g.p.Big) {
			sizes[i] += g.rng.Intn(14)
		}
		total += sizes[i]
	}
	// Cut points, from a small or from the whole range.
	span := max
	if g.rng.Intn(2) == 0 && max > 64 {
		span = 64
	}
	var points []uint64
	seen := map[uint64]bool{}
	for tries := 0; len(points) < 2*total && tries < 1000; tries++ {
		v := uint64(g.rng.Int63())
		if span < 1<<62 {
			v %= span + 1
		} else {
			v &= max
		}
		switch g.rng.Intn(12) {
		case 0:
			v = 0
		case 1:
			v = max
		case 2:
			v = max - 1
		case 3:
			// Where narrower integers end.
			v = uint64(1)<<[]uint{7, 8, 15, 16, 31, 32}[g.rng.Intn(6)] - uint64(g.rng.Intn(2))
			if v > max {
				v = max
			}
		}
		if len(points) > 0 && g.pct(g.p.Adjacent) {
			if p := points[len(points)-1]; p < max {
				v = p + 1
			}
		}
		if !seen[v] {
			seen[v] = true
			points = append(points, v)
		}
	}
	sort.Slice(points, func(i, j int) bool { return points[i] < points[j] })
	var rs []model.Range
	for i := 0; i+1 < len(points) && len(rs) < total; i += 2 {
		lo, hi := points[i], points[i+1]
		if full {
			if i > 0 {
				lo = points[i-1] + 1
			} else {
				lo = 0
			}
			if len(rs) == total-1 || i+3 >= len(points) {
				hi = max
			}
		}
		r := model.Range{Lo: g.integer(int64(lo))}
		switch {
		case full || g.rng.Intn(2) == 0:
			h := g.integer(int64(hi))
			r.Hi = &h
			if !full && g.rng.Intn(6) == 0 {
				h := g.integer(int64(lo))
				r.Hi = &h
			}
		}
		rs = append(rs, r)
		if full && hi == max {
			break
		}
	}
	if !full {
		g.rng.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	}
	var out [][]model.Range
	for i := range sizes {
		n := sizes[i]
		if n > len(rs) {
			n = len(rs)
		}
		if i == k-1 && full {
			n = len(rs)
		}
		if n == 0 {
			break
		}
		out = append(out, rs[:n])
		rs = rs[n:]
	}
	return out
}

type avail struct {
	ref  model.Ref
	bits int
	cons []model.Range
}

type scope struct {
	s     *model.Struct
	used  map[string]bool
	ints  []avail // local integers so far, at top level
	ctxs  map[string]bool
	depth int
	tail  bool // the member being made ends the struct

	// An enclosing struct, or this one, that takes some input before it gets
	// here and may be referred to where that is not unconditional.
	self  *model.Struct
	loose bool
	group *group
}

// group is a set of structs that contain each other.
type group struct {
	structs []*model.Struct
	used    bool
}

func (g *spec) structure(depth int, outer *scope) *model.Struct {
	s := &model.Struct{Name: g.typeName(false)}
	sc := &scope{s: s, used: map[string]bool{"Parse": true}, ctxs: map[string]bool{}, depth: depth}
	n := 1 + g.rng.Intn(g.p.Members)
	if depth > 0 {
		n = 1 + g.rng.Intn(3)
	} else if g.pct(g.p.Big) {
		n += g.rng.Intn(20)
	}
	switch {
	case depth == 0 && g.pct(g.p.Recur):
		sc.self = s
		sc.group = &group{}
		m := &model.Member{Base: model.Base{Bits: 8 << g.rng.Intn(2)}, Name: g.fieldName(sc.used)}
		g.note(sc, false, m)
		s.Members = append(s.Members, m)
	case depth > 0:
		sc.self, sc.group, sc.loose = outer.self, outer.group, outer.loose
	}
	if g.pct(g.p.ZeroWidth) {
		n = 0
	}
	end := g.rng.Intn(100)
	if n == 0 && depth == 0 && g.p.EOS > 0 && g.rng.Intn(2) == 0 {
		end = g.p.Remainder // nothing but eos
	}
	if g.p.TailGreedy && depth > 0 {
		end = 100
	}
	for i := 0; i < n; i++ {
		sc.tail = i == n-1 && depth == 0 && end >= g.p.Remainder+g.p.EOS
		ms := g.member(sc, false, i == n-1) // may add members itself
		s.Members = append(s.Members, ms...)
	}
	sc.tail = false
	if n > 0 || depth == 0 {
		switch k := end; {
		case k < g.p.Remainder:
			m := &model.Member{Kind: model.Remainder, Name: g.fieldName(sc.used), Base: g.looseElem(sc)}
			s.Members = append(s.Members, m)
		case k < g.p.Remainder+g.p.EOS:
			s.Members = append(s.Members, &model.Member{Kind: model.EOS})
		}
	}
	if sc.group != nil {
		sc.group.structs = append(sc.group.structs, s)
		if sc.self == s && sc.group.used {
			for _, t := range sc.group.structs {
				g.contexts(t, sc.ctxs, false)
				if t != s {
					g.done = append(g.done, t)
				}
			}
			return s
		}
	}
	g.contexts(s, sc.ctxs, true)
	return s
}

// contexts lists contexts in random order, now and then one that is not needed.
func (g *spec) contexts(s *model.Struct, need map[string]bool, more bool) {
	s.Ctxs = nil
	for c := range need {
		s.Ctxs = append(s.Ctxs, c)
	}
	sort.Strings(s.Ctxs)
	for _, c := range g.f.Contexts {
		if more && !need[c.Name] && g.rng.Intn(12) == 0 {
			s.Ctxs = append(s.Ctxs, c.Name)
		}
	}
	g.rng.Shuffle(len(s.Ctxs), func(i, j int) { s.Ctxs[i], s.Ctxs[j] = s.Ctxs[j], s.Ctxs[i] })
}

func (g *spec) structRef(sc *scope) (model.Base, bool) {
	if sc.self != nil && sc.loose && g.rng.Intn(3) == 0 {
		sc.group.used = true
		return model.Base{Struct: sc.self.Name}, true
	}
	done := g.done
	if g.p.TailGreedy && !sc.tail {
		done = nil
		for _, s := range g.done {
			if !g.greedy(s.Members) {
				done = append(done, s)
			}
		}
	}
	if len(done) > 0 && (!g.pct(g.p.Inline) || sc.depth > 1 || g.budget <= 0) {
		s := done[g.rng.Intn(len(done))]
		for _, c := range s.Ctxs {
			sc.ctxs[c] = true
		}
		return model.Base{Struct: s.Name}, true
	}
	if g.p.Inline == 0 || sc.depth > 1 || g.budget <= 0 {
		return model.Base{}, false
	}
	g.budget--
	s := g.structure(sc.depth+1, sc)
	for _, c := range s.Ctxs {
		sc.ctxs[c] = true
	}
	if sc.group == nil {
		g.done = append(g.done, s)
	}
	g.all = append(g.all, s)
	return model.Base{Struct: s.Name, Inline: s}, true
}

// greedy reports whether parsing the members may depend on the end of the input.
func (g *spec) greedy(ms []*model.Member) bool {
	for _, m := range ms {
		switch m.Kind {
		case model.Remainder, model.Leftover, model.EOS, model.Ignore:
			return true
		case model.Union:
			if m.Len != nil && m.Len.Leftover != nil {
				return true
			}
			for _, c := range m.Cases {
				if m.Len == nil && g.greedy(c.Members) {
					return true
				}
			}
		default:
			if s := g.find(m.Base.Struct); s != nil && g.greedy(s.Members) {
				return true
			}
		}
	}
	return false
}

// role reports whether a field may be used in a role, and takes it.
func (g *spec) role(sc *scope, r model.Ref, tag bool) bool {
	if !g.p.Roles && !g.p.NoShare {
		return true
	}
	k := r.String()
	if r.Scope == "" {
		k = sc.s.Name + "/" + k
	}
	want := "length"
	if tag {
		want = "tag"
	}
	old := g.roles[k]
	if old != "" && (old != want || g.p.NoShare) {
		return false
	}
	g.roles[k] = want
	return true
}

func (g *spec) elem(sc *scope) model.Base {
	defer func(t bool) { sc.tail = t }(sc.tail)
	sc.tail = false
	if g.pct(g.p.StructElem) {
		if b, ok := g.structRef(sc); ok {
			if s := g.find(b.Struct); !g.p.NoStructArr || s != nil && len(s.Ctxs) == 0 || b.Inline != nil {
				return b
			}
		}
	}
	if g.rng.Intn(4) == 0 {
		return model.Base{Char: true}
	}
	return model.Base{Bits: 8 << g.rng.Intn(4)}
}

// looseElem is elem where there may be no elements.
func (g *spec) looseElem(sc *scope) model.Base {
	defer func(l bool) { sc.loose = l }(sc.loose)
	sc.loose = true
	return g.elem(sc)
}

func (g *spec) find(n string) *model.Struct {
	for _, s := range g.all {
		if s.Name == n {
			return s
		}
	}
	return nil
}

// minBase is a lower bound for the size of an element.
func (g *spec) minBase(b model.Base) int {
	if b.Struct == "" {
		return 1
	}
	s := g.find(b.Struct)
	if s == nil {
		return 1 // starts with an integer
	}
	n := 0
	for _, m := range s.Members {
		switch m.Kind {
		case model.Scalar:
			n += g.minBase(m.Base)
		case model.Nulterm:
			n++
		}
	}
	return n
}

// length finds or makes an integer to refer to. New local fields are returned
// and have to be placed in front.
func (g *spec) length(sc *scope, tag bool, wideOK bool) (avail, []*model.Member) {
	if g.pct(g.p.Context) && len(g.f.Contexts) > 0 {
		c := g.f.Contexts[g.rng.Intn(len(g.f.Contexts))]
		f := &model.Member{Base: model.Base{Bits: 64}}
		if len(c.Fields) > 0 {
			f = c.Fields[g.rng.Intn(len(c.Fields))]
		}
		if r := (model.Ref{Scope: c.Name, Name: f.Name}); f.Name != "" && (wideOK || f.Base.Bits <= 16) && g.role(sc, r, tag) {
			sc.ctxs[c.Name] = true
			return avail{ref: model.Ref{Scope: c.Name, Name: f.Name}, bits: f.Base.Bits}, nil
		}
	}
	if len(sc.ints) > 0 && g.rng.Intn(3) == 0 {
		a := sc.ints[g.rng.Intn(len(sc.ints))]
		if (wideOK || a.bits <= 16) && (g.p.ConsLen > 0 || a.cons == nil) && g.role(sc, a.ref, tag) {
			return a, nil
		}
	}
	bits := g.lenBits()
	if tag {
		bits = 8 << g.rng.Intn(4)
	} else if !wideOK {
		bits = 8 << g.rng.Intn(2)
	}
	m := &model.Member{Kind: model.Scalar, Name: g.fieldName(sc.used), Base: model.Base{Bits: bits}}
	if g.pct(g.p.ConsLen) {
		m.Base.Cons = g.lists(bits, 1, false)[0]
		if !tag && g.rng.Intn(3) > 0 {
			h := g.integer(int64(3 + g.rng.Intn(20)))
			m.Base.Cons = []model.Range{{Lo: g.integer(int64(g.rng.Intn(3))), Hi: &h}}
		}
	}
	a := avail{ref: model.Ref{Name: m.Name}, bits: bits, cons: m.Base.Cons}
	g.role(sc, a.ref, tag)
	if !g.p.NoShare {
		sc.ints = append(sc.ints, a)
	}
	return a, []*model.Member{m}
}

func (g *spec) weights(inCase bool) []int {
	w := []int{g.p.Int, g.p.Cons, g.p.Nulterm, g.p.Ptr, g.p.Struct, g.p.Fixed, g.p.Var, g.p.Leftover, g.p.Union}
	if inCase {
		w[3], w[8] = 0, 0
	}
	return w
}

// member makes a member, preceded by fields it refers to.
func (g *spec) member(sc *scope, inCase, last bool) []*model.Member {
	w := g.weights(inCase)
	total := 0
	for _, x := range w {
		total += x
	}
	k := g.rng.Intn(total)
	kind := 0
	for k >= w[kind] {
		k -= w[kind]
		kind++
	}
	m := &model.Member{}
	switch kind {
	case 0:
		m.Base = model.Base{Bits: 8 << g.rng.Intn(4)}
		m.Name = g.fieldName(sc.used)
		g.note(sc, inCase, m)
	case 1:
		bits := 8 << g.rng.Intn(4)
		m.Base = model.Base{Bits: bits, Cons: g.lists(bits, 1, false)[0]}
		m.Name = g.fieldName(sc.used)
		g.note(sc, inCase, m)
	case 2:
		m.Kind = model.Nulterm
		m.Name = g.fieldName(sc.used)
	case 3:
		m.Kind = model.Ptr
		m.Name = g.fieldName(sc.used)
	case 4:
		b, ok := g.structRef(sc)
		if !ok {
			return g.member(sc, inCase, last)
		}
		m.Base = b
		m.Name = g.fieldName(sc.used)
	case 5:
		m.Kind = model.Fixed
		m.Base = g.elem(sc)
		n := g.rng.Intn(7)
		if g.p.Big > 0 && g.rng.Intn(4) == 0 {
			n = g.rng.Intn(41)
		}
		if m.Base.Struct != "" {
			n = g.rng.Intn(4)
			if g.pct(g.p.Big) {
				n = 4 + g.rng.Intn(30)
			}
		} else if g.pct(g.p.Big) {
			n = []int{16, 31, 64, 127, 128, 255, 256, 257, 300, 1000}[g.rng.Intn(10)]
		}
		m.Size = g.integer(int64(n))
		m.Name = g.fieldName(sc.used)
	case 6:
		m.Kind = model.Var
		m.Base = g.looseElem(sc)
		m.Name = g.fieldName(sc.used)
		wide := g.minBase(m.Base) > 0
		if inCase && g.pct(g.p.CaseLen) {
			bits := g.lenBits()
			if !wide {
				bits = 8
			}
			n := &model.Member{Kind: model.Scalar, Name: g.fieldName(sc.used), Base: model.Base{Bits: bits}}
			m.Ref = model.Ref{Name: n.Name}
			return []*model.Member{n, m}
		}
		a, pre := g.length(sc, false, wide)
		m.Ref = a.ref
		if inCase && len(pre) > 0 {
			// Length fields of case arrays go in front of the union.
			sc.s.Members = append(sc.s.Members, pre...)
			pre = nil
		}
		return append(pre, m)
	case 7:
		m.Kind = model.Leftover
		m.Base = g.looseElem(sc)
		m.Name = g.fieldName(sc.used)
		n := g.leave(6)
		m.Size = g.integer(int64(n))
		out := []*model.Member{m}
		if !inCase && g.rng.Intn(4) > 0 {
			// Something that takes exactly the bytes left over.
			t := &model.Member{Kind: model.Fixed, Name: g.fieldName(sc.used), Base: model.Base{Bits: 8}, Size: g.integer(int64(n))}
			out = append(out, t)
		}
		return out
	case 8:
		return g.union(sc)
	}
	return []*model.Member{m}
}

// leave chooses the number of bytes something leaves over.
func (g *spec) leave(n int) int {
	if g.p.Big > 0 && g.pct(15) {
		return []int{7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 300}[g.rng.Intn(16)]
	}
	return g.rng.Intn(n)
}

func (g *spec) note(sc *scope, inCase bool, m *model.Member) {
	if !inCase {
		sc.ints = append(sc.ints, avail{model.Ref{Name: m.Name}, m.Base.Bits, m.Base.Cons})
	}
}

func (g *spec) union(sc *scope) []*model.Member {
	u := &model.Member{Kind: model.Union, Name: g.fieldName(sc.used)}
	tag, pre := g.length(sc, true, true)
	u.Tag = tag.ref
	var tail *model.Member
	switch k := g.rng.Intn(100); {
	case k < g.p.UnionLen:
		a, p := g.length(sc, false, true)
		pre = append(pre, p...)
		r := a.ref
		u.Len = &model.Length{Ref: &r}
	case k < g.p.UnionLen+g.p.UnionLeft:
		n := g.leave(5)
		i := g.integer(int64(n))
		u.Len = &model.Length{Leftover: &i}
		if g.rng.Intn(4) > 0 {
			tail = &model.Member{Kind: model.Fixed, Name: g.fieldName(sc.used), Base: model.Base{Bits: 8}, Size: g.integer(int64(n))}
		}
	}
	sc.s.Members = append(sc.s.Members, pre...)
	free := sc.tail || u.Len != nil
	tailWas := sc.tail
	sc.tail = false
	defer func() { sc.tail = tailWas }()
	full := tag.bits == 8 && g.pct(g.p.FullTag)
	ncases := 1 + g.rng.Intn(4)
	if g.pct(g.p.Big) {
		ncases += g.rng.Intn(30)
	}
	few := !full && g.rng.Intn(15) == 0
	if few {
		ncases = 0
	}
	looseWas := sc.loose
	sc.loose = true
	defer func() { sc.loose = looseWas }()
	for _, l := range g.lists(tag.bits, ncases, full) {
		u.Cases = append(u.Cases, &model.Case{Vals: l, Members: g.body(sc, free)})
	}
	if (g.pct(g.p.Default) || few && g.p.Default > 0 && g.rng.Intn(2) == 0) && (!full || g.rng.Intn(4) == 0) {
		c := &model.Case{Default: true, Members: g.body(sc, free)}
		i := len(u.Cases)
		if g.rng.Intn(3) == 0 {
			i = g.rng.Intn(len(u.Cases) + 1)
		}
		u.Cases = append(u.Cases[:i:i], append([]*model.Case{c}, u.Cases[i:]...)...)
	}
	out := []*model.Member{u}
	if tail != nil {
		out = append(out, tail)
	}
	return out
}

func (g *spec) body(sc *scope, free bool) []*model.Member {
	k := g.rng.Intn(100)
	if k < g.p.Fail {
		return []*model.Member{{Kind: model.Fail}}
	}
	if k -= g.p.Fail; k < g.p.Empty {
		return nil
	}
	var ms []*model.Member
	ignore, rem := g.pct(g.p.Ignore), g.pct(g.p.CaseRem)
	if g.p.TailGreedy && !free {
		ignore, rem = false, false
	}
	if !(ignore || rem) || g.rng.Intn(3) > 0 {
		n := 1 + g.rng.Intn(3)
		if g.pct(g.p.Big) {
			n += g.rng.Intn(10)
		}
		for i := 0; i < n; i++ {
			ms = append(ms, g.member(sc, true, false)...)
		}
	}
	switch {
	case ignore:
		ms = append(ms, &model.Member{Kind: model.Ignore})
	case rem:
		name := g.fieldName(sc.used)
		ms = append(ms, &model.Member{Kind: model.Remainder, Name: name, Base: g.looseElem(sc)})
	}
	return ms
}

// Vectors estimates the number of test vectors of each struct; at most max.
func Vectors(f *model.File, max float64) float64 {
	byName := map[string]*model.Struct{}
	consts := map[string]int64{}
	hoisted := f.Hoist()
	for _, s := range hoisted {
		if !s.Extern || byName[s.Name] == nil {
			byName[s.Name] = s
		}
	}
	tags := model.Tags(hoisted)
	for _, c := range f.Consts {
		consts[c.Name] = c.Val
	}
	memo := map[string]float64{}
	var structure func(n string) float64
	var members func(ms []*model.Member) float64
	pow := func(x float64, n int64) float64 {
		r := 1.0
		for ; n > 0 && r <= max && x != 1; n-- {
			r *= x
		}
		return r
	}
	base := func(b model.Base) float64 {
		if b.Struct == "" {
			return 1
		}
		return structure(b.Struct)
	}
	members = func(ms []*model.Member) float64 {
		r := 1.0
		for _, m := range ms {
			switch m.Kind {
			case model.Scalar:
				r *= base(m.Base)
			case model.Fixed:
				n := m.Size.Val
				if m.Size.Const != "" {
					n = consts[m.Size.Const]
				}
				r *= pow(base(m.Base), n)
			case model.Var, model.Remainder, model.Leftover:
				n := int64(20)
				if m.Kind == model.Var && tags[m.Ref.String()] {
					n = 1024
				}
				r *= pow(base(m.Base), n)
			case model.Ignore:
				r *= 2
			case model.Union:
				u := 0.0
				for _, c := range m.Cases {
					u += members(c.Members)
				}
				r *= math.Max(u, 1) // nothing for a union, but members after it come first
			}
			if r > max {
				return max + 1
			}
		}
		return r
	}
	structure = func(n string) float64 {
		if v, ok := memo[n]; ok {
			return v
		}
		memo[n] = 1 // for structs that contain themselves
		if byName[n] == nil {
			return 1
		}
		v := members(byName[n].Members)
		memo[n] = v
		return v
	}
	most := 0.0
	for n := range byName {
		if v := structure(n); v > most {
			most = v
		}
	}
	return most
}

package specgen

import (
	"fmt"
	"math/rand"

	"github.com/mmcloughlin/trunnel/verif/model"
)

// Syntax generates a random grammatical file with no regard to meaning: names
// need not be declared, may repeat and may look like keywords.
func Syntax(rng *rand.Rand, plain bool) *model.File {
	g := &syntax{rng: rng, plain: plain}
	f := &model.File{}
	for i, n := 0, g.count(5); i < n; i++ {
		switch rng.Intn(9) {
		case 0:
			f.Consts = append(f.Consts, &model.Const{Name: g.constName(), Val: g.value()})
		case 1:
			c := &model.Context{Name: g.name()}
			for j, k := 0, g.count(4); j < k; j++ {
				c.Fields = append(c.Fields, &model.Member{Kind: model.Scalar, Name: g.name(), Base: model.Base{Bits: g.bits()}})
			}
			f.Contexts = append(f.Contexts, c)
		case 2:
			f.Structs = append(f.Structs, &model.Struct{Name: g.name(), Extern: true, Ctxs: g.ctxs()})
		case 3:
			f.Pragmas = append(f.Pragmas, &model.Pragma{Type: g.name(), Opts: g.names(1 + g.count(4))})
		default:
			f.Structs = append(f.Structs, g.structure(0))
		}
	}
	return f
}

type syntax struct {
	rng   *rand.Rand
	plain bool
	small bool // few names and small values
	seq   int
	used  []string // names to repeat
	usedc []string // the same for constants
}

// count returns a number below n, and once in a while a larger one.
func (g *syntax) count(n int) int {
	if !g.small && g.rng.Intn(50) == 0 {
		return g.rng.Intn(40)
	}
	return g.rng.Intn(n)
}

// length returns the length of a name, mostly short.
func (g *syntax) length() int {
	switch g.rng.Intn(40) {
	case 0:
		return 1 + g.rng.Intn(80)
	case 1:
		return pick(g.rng, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257) - 1
	}
	return 1 + g.rng.Intn(6)
}

// Small is Syntax with few names and small values, so that references find
// something more often than not.
func Small(rng *rand.Rand) *model.File {
	g := &syntax{rng: rng, plain: true, small: true}
	f := &model.File{}
	for _, c := range []string{"A", "B", "C"} {
		if rng.Intn(8) > 0 {
			f.Consts = append(f.Consts, &model.Const{Name: c, Val: g.value()})
		}
	}
	for _, c := range []string{"ka", "kb"} {
		if rng.Intn(8) > 0 {
			x := &model.Context{Name: c}
			for _, n := range []string{"a", "b", "c", "d"} {
				if rng.Intn(6) > 0 {
					x.Fields = append(x.Fields, &model.Member{Kind: model.Scalar, Name: n, Base: model.Base{Bits: g.bits()}})
				}
			}
			f.Contexts = append(f.Contexts, x)
		}
	}
	for _, n := range []string{"sa", "sb", "sc"} {
		if rng.Intn(8) > 0 {
			s := g.structure(1)
			s.Name = n
			// The usual fields first.
			var first []*model.Member
			for _, n := range []string{"a", "b", "c", "d"} {
				if rng.Intn(6) > 0 {
					first = append(first, &model.Member{Kind: model.Scalar, Name: n, Base: model.Base{Bits: g.bits()}})
				}
			}
			g.seq = 0
			s.Members = append(first, s.Members...)
			f.Structs = append(f.Structs, s)
		}
	}
	return f
}

var odd = []string{
	"struct", "union", "u8", "u16x", "eos", "with", "default", "fail", "IN", "char", "context", "const", "extern",
	"nulterm", "ignore", "length", "trunnel", "_", "__a", "A", "FOO", "A_1", "x9", "Zz", "u64", "ptr", "e", "uu8", "charx",
	"structs", "unions", "eosx", "failed", "ignored", "defaults", "INx", "X0", "u", "u1", "u3", "s", "c",
}

const (
	lower = "abcdefghijklmnopqrstuvwxyz"
	upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
)

func (g *syntax) name() string {
	if !g.plain && g.rng.Intn(6) == 0 {
		return odd[g.rng.Intn(len(odd))]
	}
	if len(g.used) > 0 && g.rng.Intn(8) == 0 {
		return g.used[g.rng.Intn(len(g.used))]
	}
	n := g.length()
	b := []byte{lower[g.rng.Intn(26)]}
	all := lower + upper + "0123456789_"
	for len(b) < n {
		b = append(b, all[g.rng.Intn(len(all))])
	}
	// Not a keyword by chance: the plain profile compares with the model.
	g.used = append(g.used, string(b)+"q")
	return string(b) + "q"
}

func (g *syntax) names(n int) []string {
	s := make([]string, n)
	for i := range s {
		s[i] = g.name()
	}
	return s
}

// structName, ctxName and fieldName are names by role.
func (g *syntax) structName() string {
	if g.small {
		return pick(g.rng, "sa", "sb", "sc", "sa", "sb", "sc", "sd")
	}
	return g.name()
}

func (g *syntax) ctxName() string {
	if g.small {
		return pick(g.rng, "ka", "kb", "ka", "kb", "ka", "kb", "kc")
	}
	return g.name()
}

func (g *syntax) fieldName() string {
	if g.small {
		g.seq++
		return fmt.Sprint("f", g.seq)
	}
	return g.name()
}

func (g *syntax) refName() string {
	if g.small {
		if g.seq > 0 && g.rng.Intn(4) == 0 {
			return fmt.Sprint("f", 1+g.rng.Intn(g.seq))
		}
		return pick(g.rng, "a", "b", "c", "d")
	}
	return g.name()
}

func pick[T any](rng *rand.Rand, s ...T) T { return s[rng.Intn(len(s))] }

func (g *syntax) constName() string {
	if g.small {
		return pick(g.rng, "A", "B", "C", "A", "B", "C", "D")
	}
	if len(g.usedc) > 0 && g.rng.Intn(6) == 0 {
		return g.usedc[g.rng.Intn(len(g.usedc))]
	}
	n := g.length()
	b := []byte{(upper + "_")[g.rng.Intn(27)]}
	all := upper + "0123456789_"
	for len(b) < n {
		b = append(b, all[g.rng.Intn(len(all))])
	}
	g.usedc = append(g.usedc, string(b))
	return string(b)
}

func (g *syntax) ctxs() []string {
	if g.rng.Intn(3) > 0 {
		return nil
	}
	s := make([]string, 1+g.count(3))
	for i := range s {
		s[i] = g.ctxName()
	}
	return s
}

func (g *syntax) bits() int { return 8 << g.rng.Intn(4) }

func (g *syntax) value() int64 {
	if g.small {
		return int64(g.rng.Intn(21))
	}
	switch g.rng.Intn(8) {
	case 0:
		return 1<<63 - 1
	case 1:
		return g.rng.Int63()
	case 2:
		return int64(1)<<uint(g.rng.Intn(63)) - int64(g.rng.Intn(2))
	}
	return int64(g.rng.Intn(300))
}

func (g *syntax) integer() model.Int {
	if g.rng.Intn(3) == 0 {
		return model.Int{Const: g.constName()}
	}
	return model.Int{Val: g.value()}
}

func (g *syntax) ranges() []model.Range {
	var rs []model.Range
	if g.small && g.rng.Intn(12) > 0 {
		v := int64(g.rng.Intn(4))
		for i, n := 0, 1+g.rng.Intn(3); i < n; i++ {
			r := model.Range{Lo: model.Int{Val: v}}
			if g.rng.Intn(2) == 0 {
				v += int64(g.rng.Intn(3))
				r.Hi = &model.Int{Val: v}
			}
			v += 1 + int64(g.rng.Intn(3))
			rs = append(rs, r)
		}
		return rs
	}
	for i, n := 0, 1+g.count(4); i < n; i++ {
		r := model.Range{Lo: g.integer()}
		if g.rng.Intn(2) == 0 {
			h := g.integer()
			if g.rng.Intn(8) == 0 {
				h = r.Lo
			}
			r.Hi = &h
		}
		rs = append(rs, r)
	}
	return rs
}

func (g *syntax) ref() model.Ref {
	r := model.Ref{Name: g.refName()}
	if g.rng.Intn(3) == 0 {
		r.Scope = g.ctxName()
		if !g.small && g.rng.Intn(10) == 0 {
			r.Scope = r.Name
		}
	}
	return r
}

// members is count for members of structs, fewer the deeper they are.
func (g *syntax) members(n, depth int) int {
	if depth > 0 {
		return g.rng.Intn(n - depth)
	}
	return g.count(n)
}

func (g *syntax) structure(depth int) *model.Struct {
	s := &model.Struct{Name: g.structName(), Ctxs: g.ctxs()}
	for i, n := 0, g.members(6, depth); i < n; i++ {
		s.Members = append(s.Members, g.member(depth, false))
	}
	switch g.rng.Intn(5) {
	case 0:
		s.Members = append(s.Members, &model.Member{Kind: model.EOS})
	case 1:
		s.Members = append(s.Members, &model.Member{Kind: model.Remainder, Name: g.fieldName(), Base: g.base(depth)})
	}
	return s
}

func (g *syntax) base(depth int) model.Base {
	switch k := g.rng.Intn(10); {
	case k < 4:
		return model.Base{Bits: g.bits()}
	case k < 6:
		return model.Base{Char: true}
	default:
		return g.structRef(depth)
	}
}

func (g *syntax) structRef(depth int) model.Base {
	if depth < 3 && g.rng.Intn(3) == 0 && (!g.small || g.rng.Intn(6) == 0) {
		s := g.structure(depth + 1)
		return model.Base{Struct: s.Name, Inline: s}
	}
	return model.Base{Struct: g.structName()}
}

func (g *syntax) member(depth int, inCase bool) *model.Member {
	m := &model.Member{Name: g.fieldName()}
	n := 12
	if inCase {
		n = 9
	}
	switch g.rng.Intn(n) {
	case 0, 1:
		m.Base = model.Base{Bits: g.bits()}
	case 2:
		m.Base = model.Base{Bits: g.bits(), Cons: g.ranges()}
	case 3:
		m.Kind = model.Nulterm
	case 4:
		m.Base = g.structRef(depth)
	case 5, 6:
		m.Kind, m.Base, m.Size = model.Fixed, g.base(depth), g.integer()
	case 7:
		m.Kind, m.Base, m.Ref = model.Var, g.base(depth), g.ref()
	case 8:
		m.Kind, m.Base, m.Size = model.Leftover, g.base(depth), g.integer()
	case 9:
		m.Kind = model.Ptr
	default:
		m.Kind, m.Tag = model.Union, g.ref()
		switch g.rng.Intn(4) {
		case 0:
			r := g.ref()
			m.Len = &model.Length{Ref: &r}
		case 1:
			i := g.integer()
			m.Len = &model.Length{Leftover: &i}
		}
		for i, n := 0, g.members(5+depth, depth); i < n; i++ {
			m.Cases = append(m.Cases, g.unionCase(depth))
		}
	}
	return m
}

func (g *syntax) unionCase(depth int) *model.Case {
	c := &model.Case{}
	if g.rng.Intn(4) == 0 {
		c.Default = true
	} else {
		c.Vals = g.ranges()
	}
	switch g.rng.Intn(7) {
	case 0:
	case 1:
		c.Members = []*model.Member{{Kind: model.Fail}}
	case 2:
		c.Members = []*model.Member{{Kind: model.Ignore}}
	default:
		for i, n := 0, g.members(5+depth, depth+1); i < n; i++ {
			c.Members = append(c.Members, g.member(depth+1, true))
		}
		switch g.rng.Intn(4) {
		case 0:
			c.Members = append(c.Members, &model.Member{Kind: model.Ignore})
		case 1:
			c.Members = append(c.Members, &model.Member{Kind: model.Remainder, Name: g.fieldName(), Base: g.base(depth + 1)})
		}
	}
	return c
}

// Mutate makes a random small change to the rendering of a file: tokens or
// gaps dropped, repeated, swapped, replaced or inserted.
func Mutate(rng *rand.Rand, toks []Tok) string {
	toks = append([]Tok{}, toks...)
	for k, n := 0, 1+rng.Intn(2); k < n && len(toks) > 0; k++ {
		i := rng.Intn(len(toks))
		switch rng.Intn(9) {
		case 0:
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1:
			toks = append(toks[:i+1:i+1], toks[i:]...)
		case 2:
			j := rng.Intn(len(toks))
			toks[i].Text, toks[j].Text = toks[j].Text, toks[i].Text
		case 3:
			toks[i].Text, toks[i].Int = alphabet[rng.Intn(len(alphabet))], false
		case 4:
			t := Tok{Gap: Gap(rng.Intn(4)), Text: alphabet[rng.Intn(len(alphabet))]}
			toks = append(toks[:i:i], append([]Tok{t}, toks[i:]...)...)
		case 5:
			toks[i].Gap = Gap(rng.Intn(4))
		case 6:
			toks = toks[:i]
		case 7:
			if len(toks[i].Text) > 1 {
				c := rng.Intn(len(toks[i].Text))
				toks[i].Text, toks[i].Int = toks[i].Text[:c]+toks[i].Text[c+1:], false
			}
		case 8:
			toks[i].Text, toks[i].Int = toks[i].Text+string(rune(oddRunes[rng.Intn(len(oddRunes))])), false
		}
	}
	l := NewLayout(rng)
	s := loose(l, toks)
	if rng.Intn(6) == 0 && len(s) > 0 {
		b := []byte(s)
		b[rng.Intn(len(b))] = byte(rng.Intn(256))
		s = string(b)
	}
	return s
}

// loose renders without separating words that would otherwise be joined, half
// of the time.
func loose(l *Layout, toks []Tok) string {
	if l.rng.Intn(2) == 0 {
		ts := make([]Tok, len(toks))
		for i, t := range toks {
			if t.Text == "" {
				t.Text = " "
			}
			ts[i] = t
		}
		return l.Render(ts)
	}
	s := ""
	for i, t := range toks {
		s += l.gap(t.Gap, i) + t.Text
	}
	return s
}

var oddRunes = []rune{'$', '_', '9', 'é', '0', 'x', '.', '-', ';', 0, '\n', '/', '*', '[', ']', '@', '#', '"', 0x2028, 0xFEFF, 0xFFFD}

var alphabet = []string{
	"struct", "union", "u8", "u16", "u32", "u64", "u24", "eos", "with", "default", "fail", "IN", "char", "context", "const",
	"extern", "nulterm", "ignore", "length", "trunnel", "@ptr", "@", "ptr", "{", "}", "[", "]", ";", ":", ",", "=", "..", "...", "..-",
	"-", ".", "0", "1", "08", "0x", "0xG", "017", "9223372036854775807", "9223372036854775808", "0x8000000000000000", "0777777777777777777777",
	"01777777777777777777777", "FOO", "foo", "a.b", "a.", ".b", "a.b.c", "//", "/*", "*/", "/", "\"", "$", "é", "in", "STRUCT", "U8", "1_0", "-1", "0b1", "0X1", "1e3",
}

// Alphabet returns the tokens used for mutation and enumeration.
func Alphabet() []string { return alphabet }

var _ = fmt.Sprint

// Package specgen generates random trunnel files and renders them as text in
// random layouts.
package specgen

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/mmcloughlin/trunnel/verif/model"
)

// Gap says what the grammar allows in front of a token.
type Gap int

// Gaps.
const (
	None  Gap = iota // nothing
	Opt              // optional space
	Tight            // optional space, also between word characters
	Req              // required space
)

// Tok is a token and the gap in front of it.
type Tok struct {
	Gap  Gap
	Text string
	Int  bool // an integer literal
	Val  int64
}

type tokenizer struct {
	toks []Tok
	rng  *rand.Rand // nil: no optional semicolons
}

func (t *tokenizer) add(g Gap, s string) { t.toks = append(t.toks, Tok{Gap: g, Text: s}) }

func (t *tokenizer) lit(g Gap, v int64) {
	t.toks = append(t.toks, Tok{Gap: g, Text: fmt.Sprint(v), Int: true, Val: v})
}

func (t *tokenizer) integer(g Gap, i model.Int) {
	if i.Const != "" {
		t.add(g, i.Const)
		return
	}
	t.lit(g, i.Val)
}

func (t *tokenizer) optsemi() {
	if t.rng != nil && t.rng.Intn(2) == 0 {
		t.add(Opt, ";")
	}
}

// Tokens renders a file as tokens. Declarations of different kinds are
// interleaved at random if rng is given.
func Tokens(f *model.File, rng *rand.Rand) []Tok {
	t := &tokenizer{rng: rng}
	var decls []func()
	var kinds [4][]func()
	for _, c := range f.Consts {
		c := c
		kinds[0] = append(kinds[0], func() {
			t.add(Opt, "const")
			t.add(Req, c.Name)
			t.add(Opt, "=")
			t.lit(Opt, c.Val)
			t.add(Opt, ";")
		})
	}
	for _, c := range f.Contexts {
		c := c
		kinds[1] = append(kinds[1], func() {
			t.add(Opt, "context")
			t.add(Req, c.Name)
			t.add(Req, "{")
			for _, m := range c.Fields {
				t.add(Opt, fmt.Sprintf("u%d", m.Base.Bits))
				t.add(Req, m.Name)
				t.add(Opt, ";")
			}
			t.add(Opt, "}")
			t.optsemi()
		})
	}
	for _, s := range f.Structs {
		s := s
		kinds[2] = append(kinds[2], func() {
			if s.Extern {
				t.add(Opt, "extern")
				t.structHead(Req, s)
				t.add(Opt, ";")
				return
			}
			t.structure(Opt, s)
			t.optsemi()
		})
	}
	for _, p := range f.Pragmas {
		p := p
		kinds[3] = append(kinds[3], func() {
			t.add(Opt, "trunnel")
			t.add(Req, p.Type)
			t.idList(p.Opts)
			t.add(Opt, ";")
		})
	}
	if rng == nil {
		for _, k := range kinds {
			decls = append(decls, k...)
		}
	} else {
		for {
			var live []int
			for i, k := range kinds {
				if len(k) > 0 {
					live = append(live, i)
				}
			}
			if len(live) == 0 {
				break
			}
			k := live[rng.Intn(len(live))]
			decls = append(decls, kinds[k][0])
			kinds[k] = kinds[k][1:]
		}
	}
	for _, d := range decls {
		d()
	}
	return t.toks
}

func (t *tokenizer) idList(ids []string) {
	for i, o := range ids {
		if i == 0 {
			t.add(Req, o)
			continue
		}
		t.add(Opt, ",")
		t.add(Opt, o)
	}
}

func (t *tokenizer) structHead(g Gap, s *model.Struct) {
	t.add(g, "struct")
	t.add(Req, s.Name)
	if len(s.Ctxs) > 0 {
		t.add(Req, "with")
		t.add(Req, "context")
		t.idList(s.Ctxs)
	}
}

func (t *tokenizer) structure(g Gap, s *model.Struct) {
	t.structHead(g, s)
	t.add(Opt, "{")
	for _, m := range s.Members {
		t.member(m)
	}
	t.add(Opt, "}")
}

func (t *tokenizer) base(b model.Base) {
	switch {
	case b.Char:
		t.add(Opt, "char")
	case b.Bits != 0:
		t.add(Opt, fmt.Sprintf("u%d", b.Bits))
	case b.Inline != nil:
		t.structure(Opt, b.Inline)
	default:
		t.add(Opt, "struct")
		t.add(Req, b.Struct)
	}
}

func (t *tokenizer) ranges(first Gap, rs []model.Range) {
	for i, r := range rs {
		if i > 0 {
			t.add(Opt, ",")
			t.integer(Opt, r.Lo)
		} else {
			t.integer(first, r.Lo)
		}
		if r.Hi != nil {
			t.add(Opt, "..")
			t.integer(Opt, *r.Hi)
		}
	}
}

func (t *tokenizer) member(m *model.Member) {
	switch m.Kind {
	case model.Scalar:
		t.base(m.Base)
		if m.Base.Bits != 0 {
			t.add(Tight, m.Name)
			if m.Base.Cons != nil {
				t.add(Req, "IN")
				t.add(Req, "[")
				t.ranges(Opt, m.Base.Cons)
				t.add(Opt, "]")
			}
		} else {
			t.add(Req, m.Name)
		}
	case model.Ptr:
		t.add(Opt, "@ptr")
		t.add(Req, m.Name)
	case model.Nulterm:
		t.add(Opt, "nulterm")
		t.add(Req, m.Name)
	case model.Fixed:
		t.base(m.Base)
		t.add(Req, m.Name)
		t.add(Opt, "[")
		t.integer(None, m.Size)
		t.add(None, "]")
	case model.Var:
		t.base(m.Base)
		t.add(Req, m.Name)
		t.add(Opt, "[")
		t.add(None, m.Ref.String())
		t.add(None, "]")
	case model.Leftover:
		t.base(m.Base)
		t.add(Req, m.Name)
		t.add(Opt, "[")
		t.add(None, "..-")
		t.integer(None, m.Size)
		t.add(None, "]")
	case model.Remainder:
		t.base(m.Base)
		t.add(Req, m.Name)
		t.add(Opt, "[")
		t.add(Opt, "]")
	case model.EOS:
		t.add(Opt, "eos")
	case model.Union:
		t.add(Opt, "union")
		t.add(Req, m.Name)
		t.add(Opt, "[")
		t.add(None, m.Tag.String())
		t.add(None, "]")
		if m.Len != nil {
			t.add(Opt, "with")
			t.add(Req, "length")
			if m.Len.Ref != nil {
				t.add(Req, m.Len.Ref.String())
			} else {
				t.add(Req, "..-")
				t.integer(None, *m.Len.Leftover)
			}
		}
		t.add(Opt, "{")
		for _, c := range m.Cases {
			if c.Default {
				t.add(Opt, "default")
			} else {
				t.ranges(Opt, c.Vals)
			}
			t.add(Opt, ":")
			if len(c.Members) == 0 {
				t.add(Opt, ";")
			}
			for i, mm := range c.Members {
				switch mm.Kind {
				case model.Fail:
					t.add(Opt, "fail")
					t.add(Opt, ";")
				case model.Ignore:
					if i == 0 && len(c.Members) == 1 && (t.rng == nil || t.rng.Intn(2) == 0) {
						t.add(Opt, "ignore")
					} else {
						t.add(Opt, "...")
					}
					t.add(Opt, ";")
				default:
					t.member(mm)
				}
			}
		}
		t.add(Opt, "}")
	}
	t.add(Opt, ";")
}

// Layout renders tokens.
type Layout struct {
	rng     *rand.Rand
	density int // 0: minimal; higher: more space and comments
	bases   bool
}

// Minimal puts a single space exactly where one is required.
func Minimal(toks []Tok) string {
	return (&Layout{}).Render(toks)
}

// NewLayout returns a random layout.
func NewLayout(rng *rand.Rand) *Layout {
	return &Layout{rng: rng, density: rng.Intn(5), bases: rng.Intn(2) == 0}
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// Render renders the tokens.
func (l *Layout) Render(toks []Tok) string {
	s, _ := l.RenderPos(toks)
	return s
}

// RenderPos renders the tokens and returns the byte offset of each.
func (l *Layout) RenderPos(toks []Tok) (string, []int) {
	var b strings.Builder
	pos := make([]int, len(toks))
	var last byte
	for i, t := range toks {
		text := t.Text
		if t.Int && l.bases {
			text = Notation(l.rng, t.Val)
		}
		gap := t.Gap
		if gap == Opt && word(last) && word(text[0]) {
			gap = Req
		}
		b.WriteString(l.gap(gap, i))
		pos[i] = b.Len()
		b.WriteString(text)
		last = text[len(text)-1]
	}
	b.WriteString(l.gap(Opt, len(toks)))
	if l.rng != nil && l.rng.Intn(12) == 0 {
		b.WriteString("// no newline at end")
	}
	return b.String(), pos
}

// Notation writes v in a random base.
func Notation(rng *rand.Rand, v int64) string {
	zeros := strings.Repeat("0", rng.Intn(3))
	if rng.Intn(40) == 0 {
		zeros = strings.Repeat("0", rng.Intn(30))
	}
	switch rng.Intn(5) {
	case 0:
		return "0x" + zeros + fmt.Sprintf("%x", v)
	case 1:
		return "0x" + zeros + fmt.Sprintf("%X", v)
	case 2:
		return "0" + zeros + fmt.Sprintf("%o", v)
	case 3:
		b := []byte(fmt.Sprintf("%x", v))
		for i, c := range b {
			if c >= 'a' && rng.Intn(2) == 0 {
				b[i] = c - 'a' + 'A'
			}
		}
		return "0x" + zeros + string(b)
	}
	return fmt.Sprint(v)
}

func (l *Layout) gap(g Gap, i int) string {
	switch {
	case g == None:
		return ""
	case l.density == 0 || l.rng == nil:
		if g == Req {
			return " "
		}
		return ""
	case g != Req && l.rng.Intn(5) > l.density:
		return ""
	}
	n := 1
	for l.rng.Intn(6) < l.density && n < 6 {
		n++
	}
	var b strings.Builder
	for k := 0; k < n; k++ {
		b.WriteString(l.skip())
	}
	return b.String()
}

var commentWords = []string{
	"x", "struct", "u8", ";", "{", "}", "[", "]", "é", "日本", "😀", "\t", " ", "/*", "//", "*", "/", "**",
	"\"", "'", "eos", "$", "0x", "\\", "\x01", " ", "const FOO = 1;", ".", "..", "@ptr",
	"\r", "\u2028", "\u0085", "\f", "\v", "\uFEFF", "\x00", "#", "--", "%s",
	"e\u0301", "\u200d", "\u202e", "\u3000", "\uFFFD", "\U0001F1E9\U0001F1EA",
}

func (l *Layout) words(n int, bad func(string) bool) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		w := commentWords[l.rng.Intn(len(commentWords))]
		if bad(b.String() + w) {
			continue
		}
		b.WriteString(w)
	}
	return b.String()
}

func (l *Layout) skip() string {
	switch l.rng.Intn(10) {
	case 0, 1, 2, 3:
		return " "
	case 4:
		return "\n"
	case 5:
		return "\t"
	case 6:
		if l.rng.Intn(4) == 0 {
			return "\r"
		}
		return "\r\n"
	case 7:
		return "//" + l.words(l.rng.Intn(5), func(s string) bool { return false }) + "\n"
	default:
		body := l.words(l.rng.Intn(6), func(s string) bool { return strings.Contains(s, "*/") })
		if l.rng.Intn(3) == 0 {
			body += "\n * more\n "
		}
		if strings.Contains(body+"*/", "*/") && strings.Index(body+"*/", "*/") != len(body) {
			body = ""
		}
		return "/*" + body + "*/"
	}
}

// Text renders the file in a random layout.
func Text(f *model.File, rng *rand.Rand) string {
	return NewLayout(rng).Render(Tokens(f, rng))
}

// Plain renders the file readably, for replays.
func Plain(f *model.File) string {
	toks := Tokens(f, nil)
	var b strings.Builder
	var last byte
	depth := 0
	nl := true
	for _, t := range toks {
		if t.Text == "}" {
			depth--
		}
		if nl {
			b.WriteString(strings.Repeat("  ", depth))
		} else if t.Gap == Req || t.Gap == Tight || t.Gap == Opt && word(last) && word(t.Text[0]) {
			b.WriteString(" ")
		}
		b.WriteString(t.Text)
		last = t.Text[len(t.Text)-1]
		nl = false
		if t.Text == "{" {
			depth++
		}
		if t.Text == "{" || t.Text == ";" {
			b.WriteString("\n")
			nl = true
		}
	}
	return b.String()
}

// Features lists the language features used in a file.
func Features(f *model.File) []string {
	m := map[string]bool{}
	var walk func(where string, ms []*model.Member)
	base := func(k string, b model.Base) {
		switch {
		case b.Char:
			m[k+".char"] = true
		case b.Bits != 0:
			m[fmt.Sprintf("%s.u%d", k, b.Bits)] = true
			if b.Cons != nil {
				m[k+".constraint"] = true
				for _, r := range b.Cons {
					if r.Hi != nil {
						m[k+".constraint-range"] = true
					}
					if r.Lo.Const != "" || r.Hi != nil && r.Hi.Const != "" {
						m[k+".constraint-const"] = true
					}
				}
			}
		case b.Inline != nil:
			m[k+".inline-struct"] = true
			walk(k, b.Inline.Members)
		default:
			m[k+".struct"] = true
		}
	}
	walk = func(where string, ms []*model.Member) {
		for _, mm := range ms {
			k := mm.Kind.String()
			switch mm.Kind {
			case model.Union:
				k := "union"
				if mm.Tag.Scope != "" {
					m[k+".tag-context"] = true
				} else {
					m[k+".tag-local"] = true
				}
				if mm.Len != nil {
					switch {
					case mm.Len.Leftover != nil:
						m[k+".len-leftover"] = true
					case mm.Len.Ref.Scope != "":
						m[k+".len-context"] = true
					default:
						m[k+".len-local"] = true
					}
				}
				for _, c := range mm.Cases {
					if c.Default {
						m[k+".default"] = true
					}
					if len(c.Members) == 0 {
						m[k+".empty"] = true
					}
					walk("case", c.Members)
				}
			case model.Var:
				if mm.Ref.Scope != "" {
					k += "-context"
				}
				base(where+"."+k, mm.Base)
			case model.Scalar, model.Fixed, model.Leftover, model.Remainder:
				base(where+"."+k, mm.Base)
			default:
				m[where+"."+k] = true
			}
		}
	}
	for _, s := range f.Structs {
		if s.Extern {
			m["extern"] = true
		}
		if len(s.Ctxs) > 0 {
			m[fmt.Sprintf("contexts-%d", len(s.Ctxs))] = true
		}
		walk("struct", s.Members)
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

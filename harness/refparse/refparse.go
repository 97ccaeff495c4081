// Package refparse is an independent reference parser for the trunnel
// language, written from the published grammar (ordered choice, greedy
// repetition) as plain recursive descent with memoised struct definitions.
package refparse

import (
	"errors"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mmcloughlin/trunnel/verif/model"
)

// ErrReject is returned for every text that is not a trunnel file.
var ErrReject = errors.New("not a trunnel file")

type memo struct {
	v   *model.Struct
	end int
	ok  bool
}

type parser struct {
	s     string
	bad   bool // an action reported an error
	decls map[int]memo
}

// Parse parses s.
func Parse(s string) (*model.File, error) {
	if !utf8.ValidString(s) {
		return nil, ErrReject
	}
	p := &parser{s: s, decls: map[int]memo{}}
	f, ok := p.file()
	if !ok || p.bad {
		return nil, ErrReject
	}
	return f, nil
}

// Lexical level. Each function takes a position and returns the position after
// the match.

func (p *parser) lit(i int, t string) (int, bool) {
	if strings.HasPrefix(p.s[i:], t) {
		return i + len(t), true
	}
	return i, false
}

func (p *parser) skip1(i int) (int, bool) {
	if i >= len(p.s) {
		return i, false
	}
	switch p.s[i] {
	case ' ', '\t', '\r', '\n':
		return i + 1, true
	case '/':
		if strings.HasPrefix(p.s[i:], "/*") {
			n := strings.Index(p.s[i+2:], "*/")
			if n >= 0 {
				return i + 2 + n + 2, true
			}
			return i, false
		}
		if strings.HasPrefix(p.s[i:], "//") {
			n := strings.IndexByte(p.s[i:], '\n')
			if n < 0 {
				return len(p.s), true
			}
			return i + n, true
		}
	}
	return i, false
}

// sp is optional space, sep is required space.
func (p *parser) sp(i int) int {
	for {
		j, ok := p.skip1(i)
		if !ok {
			return i
		}
		i = j
	}
}

func (p *parser) sep(i int) (int, bool) {
	j, ok := p.skip1(i)
	if !ok {
		return i, false
	}
	return p.sp(j), true
}

func span(s string, i int, first, rest func(c byte) bool) int {
	if i >= len(s) || !first(s[i]) {
		return i
	}
	j := i + 1
	for j < len(s) && rest(s[j]) {
		j++
	}
	return j
}

func upper(c byte) bool  { return c >= 'A' && c <= 'Z' || c == '_' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }
func letter(c byte) bool { return upper(c) || c >= 'a' && c <= 'z' }

func (p *parser) ident(i int) (string, int, bool) {
	j := span(p.s, i, letter, func(c byte) bool { return letter(c) || digit(c) })
	return p.s[i:j], j, j > i
}

func (p *parser) constIdent(i int) (string, int, bool) {
	j := span(p.s, i, upper, func(c byte) bool { return upper(c) || digit(c) })
	return p.s[i:j], j, j > i
}

func (p *parser) intLit(i int) (int64, int, bool) {
	j := i
	hex := func(c byte) bool { return digit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
	oct := func(c byte) bool { return c >= '0' && c <= '7' }
	if k, ok := p.lit(i, "0x"); ok && span(p.s, k, hex, hex) > k {
		j = span(p.s, k, hex, hex)
	} else if k, ok := p.lit(i, "0"); ok && span(p.s, k, oct, oct) > k {
		j = span(p.s, k, oct, oct)
	} else {
		j = span(p.s, i, digit, digit)
	}
	if j == i {
		return 0, i, false
	}
	text := p.s[i:j]
	var v uint64
	var err error
	switch {
	case strings.HasPrefix(text, "0x"):
		v, err = strconv.ParseUint(text[2:], 16, 63)
	case len(text) > 1 && text[0] == '0':
		v, err = strconv.ParseUint(text[1:], 8, 63)
	default:
		v, err = strconv.ParseUint(text, 10, 63)
	}
	if err != nil {
		p.bad = true
	}
	return int64(v), j, true
}

func (p *parser) integer(i int) (model.Int, int, bool) {
	if n, j, ok := p.constIdent(i); ok {
		return model.Int{Const: n}, j, true
	}
	v, j, ok := p.intLit(i)
	return model.Int{Val: v}, j, ok
}

func (p *parser) identList(i int) ([]string, int, bool) {
	n, i, ok := p.ident(i)
	if !ok {
		return nil, i, false
	}
	ids := []string{n}
	for {
		j, ok := p.lit(p.sp(i), ",")
		if !ok {
			return ids, i, true
		}
		n, k, ok := p.ident(p.sp(j))
		if !ok {
			return ids, i, true
		}
		ids, i = append(ids, n), k
	}
}

func (p *parser) idRef(i int) (model.Ref, int, bool) {
	n, j, ok := p.ident(i)
	if !ok {
		return model.Ref{}, i, false
	}
	if k, ok := p.lit(j, "."); ok {
		if m, l, ok := p.ident(k); ok {
			return model.Ref{Scope: n, Name: m}, l, true
		}
		// The scope matched but no name follows: the whole reference fails.
		return model.Ref{}, i, false
	}
	return model.Ref{Name: n}, j, true
}

func (p *parser) intList(i int) ([]model.Range, int, bool) {
	r, i, ok := p.rng(i)
	if !ok {
		return nil, i, false
	}
	rs := []model.Range{r}
	for {
		j, ok := p.lit(p.sp(i), ",")
		if !ok {
			return rs, i, true
		}
		r, k, ok := p.rng(p.sp(j))
		if !ok {
			return rs, i, true
		}
		rs, i = append(rs, r), k
	}
}

func (p *parser) rng(i int) (model.Range, int, bool) {
	lo, i, ok := p.integer(i)
	if !ok {
		return model.Range{}, i, false
	}
	r := model.Range{Lo: lo}
	if j, ok := p.lit(p.sp(i), ".."); ok {
		if hi, k, ok := p.integer(p.sp(j)); ok {
			r.Hi = &hi
			i = k
		}
	}
	return r, i, true
}

// Declarations.

func (p *parser) file() (*model.File, bool) {
	f := &model.File{}
	i := p.sp(0)
	for {
		j, ok := p.declaration(f, p.sp(i))
		if !ok {
			break
		}
		i = p.sp(j)
	}
	return f, p.sp(i) == len(p.s)
}

func (p *parser) declaration(f *model.File, i int) (int, bool) {
	if c, j, ok := p.constDecl(i); ok {
		f.Consts = append(f.Consts, c)
		return j, true
	}
	if c, j, ok := p.contextDecl(i); ok {
		f.Contexts = append(f.Contexts, c)
		return j, true
	}
	if s, j, ok := p.structDecl(i); ok {
		f.Structs = append(f.Structs, s)
		j = p.sp(j)
		j, _ = p.lit(j, ";")
		return j, true
	}
	if s, j, ok := p.externDecl(i); ok {
		f.Structs = append(f.Structs, s)
		return j, true
	}
	if g, j, ok := p.pragma(i); ok {
		f.Pragmas = append(f.Pragmas, g)
		return j, true
	}
	return i, false
}

func (p *parser) kw(i int, t string) (int, bool) {
	j, ok := p.lit(i, t)
	if !ok {
		return i, false
	}
	return p.sep(j)
}

func (p *parser) constDecl(i int) (*model.Const, int, bool) {
	j, ok := p.kw(i, "const")
	if !ok {
		return nil, i, false
	}
	n, j, ok := p.constIdent(j)
	if !ok {
		return nil, i, false
	}
	if j, ok = p.lit(p.sp(j), "="); !ok {
		return nil, i, false
	}
	v, j, ok := p.intLit(p.sp(j))
	if !ok {
		return nil, i, false
	}
	if j, ok = p.lit(p.sp(j), ";"); !ok {
		return nil, i, false
	}
	return &model.Const{Name: n, Val: v}, j, true
}

func (p *parser) contextDecl(i int) (*model.Context, int, bool) {
	j, ok := p.kw(i, "context")
	if !ok {
		return nil, i, false
	}
	n, j, ok := p.ident(j)
	if !ok {
		return nil, i, false
	}
	if j, ok = p.sep(j); !ok {
		return nil, i, false
	}
	if j, ok = p.lit(j, "{"); !ok {
		return nil, i, false
	}
	c := &model.Context{Name: n}
	j = p.sp(j)
	for {
		bits, k, ok := p.intType(p.sp(j))
		if !ok {
			break
		}
		if k, ok = p.sep(k); !ok {
			break
		}
		fn, k, ok := p.ident(k)
		if !ok {
			break
		}
		if k, ok = p.lit(p.sp(k), ";"); !ok {
			break
		}
		c.Fields = append(c.Fields, &model.Member{Kind: model.Scalar, Name: fn, Base: model.Base{Bits: bits}})
		j = p.sp(k)
	}
	if j, ok = p.lit(p.sp(j), "}"); !ok {
		return nil, i, false
	}
	j = p.sp(j)
	j, _ = p.lit(j, ";")
	return c, j, true
}

func (p *parser) structIdent(i int) (string, int, bool) {
	j, ok := p.kw(i, "struct")
	if !ok {
		return "", i, false
	}
	n, j, ok := p.ident(j)
	if !ok {
		return "", i, false
	}
	return n, j, true
}

func (p *parser) ctxRefs(i int) ([]string, int) {
	j, ok := p.sep(i)
	if !ok {
		return nil, i
	}
	if j, ok = p.kw(j, "with"); !ok {
		return nil, i
	}
	if j, ok = p.kw(j, "context"); !ok {
		return nil, i
	}
	ids, j, ok := p.identList(j)
	if !ok {
		return nil, i
	}
	return ids, j
}

func (p *parser) structDecl(i int) (*model.Struct, int, bool) {
	if m, ok := p.decls[i]; ok {
		return m.v, m.end, m.ok
	}
	s, j, ok := p.structDeclNoMemo(i)
	p.decls[i] = memo{s, j, ok}
	return s, j, ok
}

func (p *parser) structDeclNoMemo(i int) (*model.Struct, int, bool) {
	n, j, ok := p.structIdent(i)
	if !ok {
		return nil, i, false
	}
	s := &model.Struct{Name: n}
	s.Ctxs, j = p.ctxRefs(j)
	if j, ok = p.lit(p.sp(j), "{"); !ok {
		return nil, i, false
	}
	for {
		m, k, ok := p.structMember(j)
		if !ok {
			break
		}
		s.Members, j = append(s.Members, m), k
	}
	if e, k, ok := p.ending(p.sp(j)); ok {
		s.Members, j = append(s.Members, e), k
	}
	if j, ok = p.lit(p.sp(j), "}"); !ok {
		return nil, i, false
	}
	return s, j, true
}

func (p *parser) externDecl(i int) (*model.Struct, int, bool) {
	j, ok := p.kw(i, "extern")
	if !ok {
		return nil, i, false
	}
	n, j, ok := p.structIdent(j)
	if !ok {
		return nil, i, false
	}
	s := &model.Struct{Name: n, Extern: true}
	s.Ctxs, j = p.ctxRefs(j)
	if j, ok = p.lit(p.sp(j), ";"); !ok {
		return nil, i, false
	}
	return s, j, true
}

func (p *parser) pragma(i int) (*model.Pragma, int, bool) {
	j, ok := p.kw(i, "trunnel")
	if !ok {
		return nil, i, false
	}
	n, j, ok := p.ident(j)
	if !ok {
		return nil, i, false
	}
	if j, ok = p.sep(j); !ok {
		return nil, i, false
	}
	opts, j, ok := p.identList(j)
	if !ok {
		return nil, i, false
	}
	if j, ok = p.lit(p.sp(j), ";"); !ok {
		return nil, i, false
	}
	return &model.Pragma{Type: n, Opts: opts}, j, true
}

// Members.

type rule func(i int) (*model.Member, int, bool)

// semi matches optional space, one of the alternatives, optional space and a
// semicolon. As in the grammar, the semicolon is outside the choice.
func (p *parser) semi(i int, alts ...rule) (*model.Member, int, bool) {
	start := p.sp(i)
	for _, a := range alts {
		m, j, ok := a(start)
		if !ok {
			continue
		}
		j, ok = p.lit(p.sp(j), ";")
		return m, j, ok
	}
	return nil, i, false
}

func (p *parser) structMember(i int) (*model.Member, int, bool) {
	return p.semi(i, p.fixedArray, p.varArray, p.integerField, p.position, p.str, p.structField, p.union)
}

func (p *parser) ending(i int) (*model.Member, int, bool) {
	return p.semi(i, p.remainder, func(i int) (*model.Member, int, bool) {
		j, ok := p.lit(i, "eos")
		return &model.Member{Kind: model.EOS}, j, ok
	})
}

func (p *parser) intType(i int) (int, int, bool) {
	for _, b := range []int{8, 16, 32, 64} {
		if j, ok := p.lit(i, "u"+strconv.Itoa(b)); ok {
			return b, j, true
		}
	}
	return 0, i, false
}

func (p *parser) structRef(i int) (model.Base, int, bool) {
	if s, j, ok := p.structDecl(i); ok {
		return model.Base{Struct: s.Name, Inline: s}, j, true
	}
	n, j, ok := p.structIdent(i)
	return model.Base{Struct: n}, j, ok
}

func (p *parser) arrayHead(i int) (*model.Member, int, bool) {
	m := &model.Member{}
	bits, j, ok := p.intType(i)
	if ok {
		m.Base = model.Base{Bits: bits}
	} else if j, ok = p.lit(i, "char"); ok {
		m.Base = model.Base{Char: true}
	} else if m.Base, j, ok = p.structRef(i); !ok {
		return nil, i, false
	}
	if j, ok = p.sep(j); !ok {
		return nil, i, false
	}
	if m.Name, j, ok = p.ident(j); !ok {
		return nil, i, false
	}
	if j, ok = p.lit(p.sp(j), "["); !ok {
		return nil, i, false
	}
	return m, j, true
}

func (p *parser) fixedArray(i int) (*model.Member, int, bool) {
	m, j, ok := p.arrayHead(i)
	if !ok {
		return nil, i, false
	}
	m.Kind = model.Fixed
	if m.Size, j, ok = p.integer(j); !ok {
		return nil, i, false
	}
	j, ok = p.lit(j, "]")
	return m, j, ok
}

func (p *parser) length(i int) (*model.Length, int, bool) {
	if j, ok := p.lit(i, "..-"); ok {
		if n, k, ok := p.integer(j); ok {
			return &model.Length{Leftover: &n}, k, true
		}
	}
	if r, j, ok := p.idRef(i); ok {
		return &model.Length{Ref: &r}, j, true
	}
	return nil, i, false
}

func (p *parser) varArray(i int) (*model.Member, int, bool) {
	m, j, ok := p.arrayHead(i)
	if !ok {
		return nil, i, false
	}
	l, j, ok := p.length(j)
	if !ok {
		return nil, i, false
	}
	if l.Ref != nil {
		m.Kind, m.Ref = model.Var, *l.Ref
	} else {
		m.Kind, m.Size = model.Leftover, *l.Leftover
	}
	j, ok = p.lit(j, "]")
	return m, j, ok
}

func (p *parser) remainder(i int) (*model.Member, int, bool) {
	m, j, ok := p.arrayHead(i)
	if !ok {
		return nil, i, false
	}
	m.Kind = model.Remainder
	j, ok = p.lit(p.sp(j), "]")
	return m, j, ok
}

func (p *parser) integerField(i int) (*model.Member, int, bool) {
	bits, j, ok := p.intType(i)
	if !ok {
		return nil, i, false
	}
	n, j, ok := p.ident(p.sp(j))
	if !ok {
		return nil, i, false
	}
	m := &model.Member{Kind: model.Scalar, Name: n, Base: model.Base{Bits: bits}}
	if k, ok := p.kw(p.sp(j), "IN"); ok {
		if k, ok = p.lit(k, "["); ok {
			if rs, k, ok := p.intList(p.sp(k)); ok {
				if k, ok = p.lit(p.sp(k), "]"); ok {
					m.Base.Cons = rs
					j = k
				}
			}
		}
	}
	return m, j, true
}

func (p *parser) position(i int) (*model.Member, int, bool) {
	j, ok := p.kw(i, "@ptr")
	if !ok {
		return nil, i, false
	}
	n, j, ok := p.ident(j)
	return &model.Member{Kind: model.Ptr, Name: n}, j, ok
}

func (p *parser) str(i int) (*model.Member, int, bool) {
	j, ok := p.kw(i, "nulterm")
	if !ok {
		return nil, i, false
	}
	n, j, ok := p.ident(j)
	return &model.Member{Kind: model.Nulterm, Name: n}, j, ok
}

func (p *parser) structField(i int) (*model.Member, int, bool) {
	b, j, ok := p.structRef(i)
	if !ok {
		return nil, i, false
	}
	if j, ok = p.sep(j); !ok {
		return nil, i, false
	}
	n, j, ok := p.ident(j)
	return &model.Member{Kind: model.Scalar, Name: n, Base: b}, j, ok
}

func (p *parser) union(i int) (*model.Member, int, bool) {
	j, ok := p.kw(i, "union")
	if !ok {
		return nil, i, false
	}
	u := &model.Member{Kind: model.Union}
	if u.Name, j, ok = p.ident(j); !ok {
		return nil, i, false
	}
	if j, ok = p.lit(p.sp(j), "["); !ok {
		return nil, i, false
	}
	if u.Tag, j, ok = p.idRef(j); !ok {
		return nil, i, false
	}
	if j, ok = p.lit(j, "]"); !ok {
		return nil, i, false
	}
	j = p.sp(j)
	if k, ok := p.kw(j, "with"); ok {
		if k, ok = p.kw(k, "length"); ok {
			if l, k, ok := p.length(k); ok {
				u.Len, j = l, k
			}
		}
	}
	if j, ok = p.lit(p.sp(j), "{"); !ok {
		return nil, i, false
	}
	j = p.sp(j)
	for {
		c, k, ok := p.unionMember(j)
		if !ok {
			break
		}
		u.Cases, j = append(u.Cases, c), k
	}
	j, ok = p.lit(p.sp(j), "}")
	return u, j, ok
}

func (p *parser) unionMember(i int) (*model.Case, int, bool) {
	c := &model.Case{}
	j := p.sp(i)
	var ok bool
	if rs, k, m := p.intList(j); m {
		c.Vals, j = rs, k
	} else if j, ok = p.lit(j, "default"); ok {
		c.Default = true
	} else {
		return nil, i, false
	}
	if j, ok = p.lit(p.sp(j), ":"); !ok {
		return nil, i, false
	}
	j = p.sp(j)
	c.Members, j = p.unionBody(j)
	return c, p.sp(j), true
}

func (p *parser) unionBody(i int) ([]*model.Member, int) {
	if j, ok := p.lit(p.sp(i), ";"); ok {
		return nil, j
	}
	if j, ok := p.lit(i, "fail"); ok {
		if j, ok = p.lit(p.sp(j), ";"); ok {
			return []*model.Member{{Kind: model.Fail}}, j
		}
	}
	if j, ok := p.lit(i, "ignore"); ok {
		if j, ok = p.lit(p.sp(j), ";"); ok {
			return []*model.Member{{Kind: model.Ignore}}, j
		}
	}
	var ms []*model.Member
	j := i
	for {
		m, k, ok := p.semi(j, p.fixedArray, p.varArray, p.integerField, p.str, p.structField)
		if !ok {
			break
		}
		ms, j = append(ms, m), k
	}
	j = p.sp(j)
	if k, ok := p.lit(j, "..."); ok {
		if k, ok = p.lit(p.sp(k), ";"); ok {
			return append(ms, &model.Member{Kind: model.Ignore}), k
		}
	}
	if m, k, ok := p.remainder(j); ok {
		if k, ok = p.lit(p.sp(k), ";"); ok {
			return append(ms, m), k
		}
	}
	return ms, j
}

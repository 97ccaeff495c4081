// Package bridge converts syntax trees of the code under test to the
// harness's model.
package bridge

import (
	"fmt"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/verif/model"
)

type malformed string

func bad(format string, a ...interface{}) { panic(malformed(fmt.Sprintf(format, a...))) }

// File converts a syntax tree. It fails on trees that contain nodes the
// language cannot produce.
func File(f *ast.File) (m *model.File, err error) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(malformed)
			if !ok {
				err = fmt.Errorf("malformed tree: %v", r)
				return
			}
			err = fmt.Errorf("malformed tree: %s", string(s))
		}
	}()
	if f == nil {
		bad("nil file")
	}
	m = &model.File{}
	for _, c := range f.Constants {
		m.Consts = append(m.Consts, &model.Const{Name: c.Name, Val: c.Value})
	}
	for _, c := range f.Contexts {
		mc := &model.Context{Name: c.Name}
		for _, fl := range c.Members {
			mc.Fields = append(mc.Fields, member(fl))
		}
		m.Contexts = append(m.Contexts, mc)
	}
	for _, s := range f.Structs {
		m.Structs = append(m.Structs, &model.Struct{
			Name:    s.Name,
			Extern:  s.Extern(),
			Ctxs:    s.Contexts,
			Members: members(s.Members),
		})
	}
	for _, p := range f.Pragmas {
		m.Pragmas = append(m.Pragmas, &model.Pragma{Type: p.Type, Opts: p.Options})
	}
	return m, nil
}

func members(ms []ast.Member) []*model.Member {
	var out []*model.Member
	for _, m := range ms {
		out = append(out, member(m))
	}
	return out
}

func member(m ast.Member) *model.Member {
	switch m := m.(type) {
	case *ast.Field:
		return field(m)
	case *ast.EOS:
		return &model.Member{Kind: model.EOS}
	case *ast.Fail:
		return &model.Member{Kind: model.Fail}
	case *ast.Ignore:
		return &model.Member{Kind: model.Ignore}
	case *ast.UnionMember:
		u := &model.Member{Kind: model.Union, Name: m.Name, Tag: ref(m.Tag)}
		switch l := m.Length.(type) {
		case nil:
		case *ast.Leftover:
			n := integer(l.Num)
			u.Len = &model.Length{Leftover: &n}
		case *ast.IDRef:
			r := ref(l)
			u.Len = &model.Length{Ref: &r}
		default:
			bad("union length %T", l)
		}
		for _, c := range m.Cases {
			mc := &model.Case{Default: c.Case == nil, Members: members(c.Members)}
			if c.Case != nil {
				mc.Vals = ranges(c.Case)
			}
			u.Cases = append(u.Cases, mc)
		}
		return u
	}
	bad("member %T", m)
	return nil
}

func field(f *ast.Field) *model.Member {
	m := &model.Member{Name: f.Name}
	switch t := f.Type.(type) {
	case *ast.Ptr:
		m.Kind = model.Ptr
	case *ast.NulTermString:
		m.Kind = model.Nulterm
	case *ast.FixedArrayMember:
		m.Kind = model.Fixed
		m.Base = base(t.Base)
		m.Size = integer(t.Size)
	case *ast.VarArrayMember:
		m.Base = base(t.Base)
		switch l := t.Constraint.(type) {
		case nil:
			m.Kind = model.Remainder
		case *ast.IDRef:
			m.Kind = model.Var
			m.Ref = ref(l)
		case *ast.Leftover:
			m.Kind = model.Leftover
			m.Size = integer(l.Num)
		default:
			bad("array length %T", l)
		}
	default:
		m.Kind = model.Scalar
		m.Base = base(t)
	}
	return m
}

func base(t interface{}) model.Base {
	switch t := t.(type) {
	case *ast.IntType:
		b := model.Base{Bits: int(t.Size)}
		if t.Constraint != nil {
			b.Cons = ranges(t.Constraint)
		}
		return b
	case *ast.CharType:
		return model.Base{Char: true}
	case *ast.StructRef:
		return model.Base{Struct: t.Name}
	}
	bad("base type %T", t)
	return model.Base{}
}

func ref(r *ast.IDRef) model.Ref { return model.Ref{Scope: r.Scope, Name: r.Name} }

func ranges(l *ast.IntegerList) []model.Range {
	out := []model.Range{}
	for _, r := range l.Ranges {
		mr := model.Range{Lo: integer(r.Low)}
		if r.High != nil {
			h := integer(r.High)
			mr.Hi = &h
		}
		out = append(out, mr)
	}
	return out
}

func integer(i ast.Integer) model.Int {
	switch i := i.(type) {
	case *ast.IntegerLiteral:
		return model.Int{Val: i.Value}
	case *ast.IntegerConstRef:
		return model.Int{Const: i.Name}
	}
	bad("integer %T", i)
	return model.Int{}
}

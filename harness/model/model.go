// Package model is the harness's own representation of trunnel files. It is
// independent of the code under test: the reference parser and the random
// specification generators produce it, and the reference interpreter gives it
// meaning.
package model

import (
	"fmt"
	"strings"
)

// File is a parsed or generated trunnel file.
type File struct {
	Consts   []*Const
	Contexts []*Context
	Structs  []*Struct
	Pragmas  []*Pragma
}

// Const is a constant declaration.
type Const struct {
	Name string
	Val  int64
}

// Context is a context declaration.
type Context struct {
	Name   string
	Fields []*Member
}

// Pragma is a trunnel directive.
type Pragma struct {
	Type string
	Opts []string
}

// Struct is a struct declaration.
type Struct struct {
	Name    string
	Extern  bool
	Ctxs    []string
	Members []*Member
}

// Kind is the kind of a member.
type Kind int

// Member kinds.
const (
	Scalar    Kind = iota // integer or (in arrays only) char / struct
	Ptr                   // @ptr
	Nulterm               // nulterm
	Fixed                 // fixed array
	Var                   // array with a reference as length
	Leftover              // array with ..-N
	Remainder             // array with []
	Union                 // union
	EOS                   // eos
	Fail                  // fail directive
	Ignore                // ignore directive or ellipsis
)

var kindNames = map[Kind]string{
	Scalar: "scalar", Ptr: "ptr", Nulterm: "nulterm", Fixed: "fixed", Var: "var",
	Leftover: "leftover", Remainder: "remainder", Union: "union", EOS: "eos",
	Fail: "fail", Ignore: "ignore",
}

func (k Kind) String() string { return kindNames[k] }

// Base is an element type.
type Base struct {
	Bits   int     // 8, 16, 32, 64 for integers; 0 otherwise
	Char   bool    // char
	Struct string  // struct name
	Inline *Struct // definition written in place, if any
	Cons   []Range // integer constraint, nil if none
}

// Int is an integer, literal or via a constant.
type Int struct {
	Const string
	Val   int64
}

// Range is a value or an inclusive range.
type Range struct {
	Lo Int
	Hi *Int
}

// Ref is a reference to a field.
type Ref struct {
	Scope string
	Name  string
}

// Length is a length constraint of a union.
type Length struct {
	Ref      *Ref
	Leftover *Int
}

// Member is a member of a struct, context or union case.
type Member struct {
	Kind  Kind
	Name  string
	Base  Base
	Size  Int     // Fixed, Leftover
	Ref   Ref     // Var
	Tag   Ref     // Union
	Len   *Length // Union
	Cases []*Case // Union
}

// Case is a union case.
type Case struct {
	Default bool
	Vals    []Range
	Members []*Member
}

func (i Int) String() string {
	if i.Const != "" {
		return i.Const
	}
	return fmt.Sprint(i.Val)
}

func (r Range) String() string {
	if r.Hi == nil {
		return r.Lo.String()
	}
	return r.Lo.String() + ".." + r.Hi.String()
}

// Ranges formats a range list.
func Ranges(rs []Range) string {
	s := make([]string, len(rs))
	for i, r := range rs {
		s[i] = r.String()
	}
	return strings.Join(s, ",")
}

func (r Ref) String() string {
	if r.Scope != "" {
		return r.Scope + "." + r.Name
	}
	return r.Name
}

func (b Base) String() string {
	switch {
	case b.Char:
		return "char"
	case b.Bits != 0:
		s := fmt.Sprintf("u%d", b.Bits)
		if b.Cons != nil {
			s += " IN[" + Ranges(b.Cons) + "]"
		}
		return s
	default:
		return "struct " + b.Struct
	}
}

// Hoist returns the structs of f in the order the language gives them: the
// top-level ones, then the inline ones in the order their definitions end.
func (f *File) Hoist() []*Struct {
	var inline []*Struct
	var walk func(ms []*Member)
	base := func(b Base) {
		if b.Inline != nil {
			walk(b.Inline.Members)
			inline = append(inline, b.Inline)
		}
	}
	walk = func(ms []*Member) {
		for _, m := range ms {
			switch m.Kind {
			case Union:
				for _, c := range m.Cases {
					walk(c.Members)
				}
			case Scalar, Fixed, Var, Leftover, Remainder:
				base(m.Base)
			}
		}
	}
	for _, s := range f.Structs {
		walk(s.Members)
	}
	out := append([]*Struct{}, f.Structs...)
	return append(out, inline...)
}

// Dump renders the file canonically, one declaration per block. Two files with
// the same meaning to a reader have the same dump.
func (f *File) Dump() string {
	var b strings.Builder
	for _, c := range f.Consts {
		fmt.Fprintf(&b, "const %s %d\n", c.Name, c.Val)
	}
	for _, c := range f.Contexts {
		fmt.Fprintf(&b, "context %s\n", c.Name)
		for _, m := range c.Fields {
			dumpMember(&b, 1, m)
		}
	}
	for _, s := range f.Hoist() {
		fmt.Fprintf(&b, "struct %s extern=%v ctx=[%s]\n", s.Name, s.Extern, strings.Join(s.Ctxs, ","))
		for _, m := range s.Members {
			dumpMember(&b, 1, m)
		}
	}
	for _, p := range f.Pragmas {
		fmt.Fprintf(&b, "pragma %s [%s]\n", p.Type, strings.Join(p.Opts, ","))
	}
	return b.String()
}

func dumpMember(b *strings.Builder, depth int, m *Member) {
	b.WriteString(strings.Repeat("  ", depth))
	switch m.Kind {
	case Scalar:
		fmt.Fprintf(b, "%s %s\n", m.Base, m.Name)
	case Ptr:
		fmt.Fprintf(b, "@ptr %s\n", m.Name)
	case Nulterm:
		fmt.Fprintf(b, "nulterm %s\n", m.Name)
	case Fixed:
		fmt.Fprintf(b, "%s %s[=%s]\n", m.Base, m.Name, m.Size)
	case Var:
		fmt.Fprintf(b, "%s %s[%s]\n", m.Base, m.Name, m.Ref)
	case Leftover:
		fmt.Fprintf(b, "%s %s[..-%s]\n", m.Base, m.Name, m.Size)
	case Remainder:
		fmt.Fprintf(b, "%s %s[]\n", m.Base, m.Name)
	case EOS:
		b.WriteString("eos\n")
	case Fail:
		b.WriteString("fail\n")
	case Ignore:
		b.WriteString("ignore\n")
	case Union:
		fmt.Fprintf(b, "union %s[%s] len=%s\n", m.Name, m.Tag, m.Len)
		for _, c := range m.Cases {
			b.WriteString(strings.Repeat("  ", depth+1))
			if c.Default {
				b.WriteString("default:\n")
			} else {
				fmt.Fprintf(b, "%s:\n", Ranges(c.Vals))
			}
			for _, mm := range c.Members {
				dumpMember(b, depth+2, mm)
			}
		}
	default:
		fmt.Fprintf(b, "UNKNOWN %d\n", m.Kind)
	}
}

func (l *Length) String() string {
	switch {
	case l == nil:
		return "-"
	case l.Ref != nil:
		return l.Ref.String()
	default:
		return "..-" + l.Leftover.String()
	}
}

// Tags returns the references that are used as tags somewhere.
func Tags(ss []*Struct) map[string]bool {
	tags := map[string]bool{}
	var walk func(ms []*Member)
	walk = func(ms []*Member) {
		for _, m := range ms {
			if m.Kind != Union {
				continue
			}
			tags[m.Tag.String()] = true
			for _, c := range m.Cases {
				walk(c.Members)
			}
		}
	}
	for _, s := range ss {
		walk(s.Members)
	}
	return tags
}

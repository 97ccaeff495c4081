// Package interp is the reference meaning of trunnel specifications: what a
// parser for a struct has to do with given bytes and context values.
package interp

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/mmcloughlin/trunnel/verif/model"
)

// Env holds the declarations of a specification.
type Env struct {
	Structs  map[string]*model.Struct
	Order    []*model.Struct // non-extern structs in declaration order
	Consts   map[string]int64
	Contexts map[string]*model.Context
	tags     map[string]bool // references used as tags
}

// NewEnv collects the declarations of the files.
func NewEnv(files ...*model.File) *Env {
	e := &Env{
		Structs:  map[string]*model.Struct{},
		Consts:   map[string]int64{},
		Contexts: map[string]*model.Context{},
	}
	for _, f := range files {
		for _, s := range f.Hoist() {
			if s.Extern {
				if _, ok := e.Structs[s.Name]; !ok {
					e.Structs[s.Name] = s
				}
				continue
			}
			e.Structs[s.Name] = s
			e.Order = append(e.Order, s)
		}
		for _, c := range f.Consts {
			e.Consts[c.Name] = c.Val
		}
		for _, c := range f.Contexts {
			e.Contexts[c.Name] = c
		}
	}
	e.tags = model.Tags(e.Order)
	return e
}

// Int resolves an integer.
func (e *Env) Int(i model.Int) uint64 {
	if i.Const != "" {
		v, ok := e.Consts[i.Const]
		if !ok {
			panic("interp: undefined constant " + i.Const)
		}
		return uint64(v)
	}
	return uint64(i.Val)
}

// Bounds resolves a range.
func (e *Env) Bounds(r model.Range) (lo, hi uint64) {
	lo = e.Int(r.Lo)
	hi = lo
	if r.Hi != nil {
		hi = e.Int(*r.Hi)
	}
	return
}

// In reports whether x is in the list.
func (e *Env) In(x uint64, rs []model.Range) bool {
	for _, r := range rs {
		if lo, hi := e.Bounds(r); lo <= x && x <= hi {
			return true
		}
	}
	return false
}

// Pos is the value of a position member.
type Pos int

// Object is a parsed struct: the members the input defines.
type Object struct {
	Type   string
	Fields map[string]interface{} // uint64, string, Pos, *Object, []interface{}
}

// Ctx holds context values: context name, field name, value.
type Ctx map[string]map[string]uint64

func (c Ctx) String() string {
	var s []string
	for n, fs := range c {
		for f, v := range fs {
			s = append(s, fmt.Sprintf("%s.%s=%d", n, f, v))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// Result is the outcome of parsing.
type Result struct {
	OK        bool
	Why       string // class of failure
	Obj       *Object
	Used      int
	Greedy    bool // the outcome depends on where the input ends
	Unmatched bool // some tag selected no case
	Undecided bool // too much work to decide
	Arrays    int  // counted arrays that were begun
	Steps     int  // values parsed, of an accepted input
}

// Observer is told about events while interpreting.
type Observer func(event string)

type cursor struct {
	pos, end int
	open     bool // end is the end of the whole input
}

type machine struct {
	env       *Env
	in        []byte
	ctx       Ctx
	steps     int
	greedy    bool
	unmatched bool
	arrays    int
	claimed   uint64
	strict    bool // unmatched tags fail
	obs       Observer
}

type failure string

const (
	maxSteps   = 150000
	maxClaimed = 1 << 22
)

type undecided struct{}

// Options of Parse.
type Options struct {
	// FailUnmatched makes a tag that selects no case a failure.
	FailUnmatched bool
	Observer      Observer
}

// Parse interprets in as the struct with the given name.
func (e *Env) Parse(name string, in []byte, ctx Ctx, opt Options) (res Result) {
	m := &machine{env: e, in: in, ctx: ctx, strict: opt.FailUnmatched, obs: opt.Observer}
	c := &cursor{0, len(in), true}
	defer func() {
		switch v := recover().(type) {
		case nil:
		case failure:
			res = Result{Why: string(v), Greedy: m.greedy, Unmatched: m.unmatched, Arrays: m.arrays}
		case undecided:
			res = Result{Undecided: true}
		default:
			panic(v)
		}
	}()
	o := m.structure(c, e.Structs[name])
	return Result{OK: true, Obj: o, Used: c.pos, Greedy: m.greedy, Unmatched: m.unmatched, Arrays: m.arrays, Steps: m.steps}
}

func (m *machine) see(format string, a ...interface{}) {
	if m.obs != nil && len(a) == 0 {
		m.obs(format)
	} else if m.obs != nil {
		m.obs(fmt.Sprintf(format, a...))
	}
}

func (m *machine) structure(c *cursor, s *model.Struct) *Object {
	if s == nil {
		panic("interp: undefined struct")
	}
	o := &Object{Type: s.Name, Fields: map[string]interface{}{}}
	start := c.pos
	m.members(c, s, o, start, s.Members)
	return o
}

func (m *machine) members(c *cursor, s *model.Struct, o *Object, start int, ms []*model.Member) {
	for _, mm := range ms {
		switch mm.Kind {
		case model.Scalar:
			o.Fields[mm.Name] = m.value(c, mm.Base)
		case model.Ptr:
			o.Fields[mm.Name] = Pos(c.pos - start)
		case model.Nulterm:
			i := bytes.IndexByte(m.in[c.pos:c.end], 0)
			if i < 0 {
				panic(failure("unterminated"))
			}
			o.Fields[mm.Name] = string(m.in[c.pos : c.pos+i])
			c.pos += i + 1
		case model.Fixed:
			o.Fields[mm.Name] = m.counted(c, mm.Base, m.env.Int(mm.Size))
		case model.Var:
			o.Fields[mm.Name] = m.counted(c, mm.Base, m.ref(o, mm.Ref))
		case model.Remainder:
			o.Fields[mm.Name] = m.rest(c, mm.Base)
		case model.Leftover:
			m.leftover(c, m.env.Int(mm.Size), func(c *cursor) {
				o.Fields[mm.Name] = m.rest(c, mm.Base)
			})
		case model.EOS:
			m.depends(c)
			if c.pos < c.end {
				panic(failure("trailing"))
			}
		case model.Fail:
			m.see("fail-case")
			panic(failure("disallowed"))
		case model.Ignore:
			m.depends(c)
			m.see("ignore")
			c.pos = c.end
		case model.Union:
			m.union(c, s, o, start, mm)
		default:
			panic("interp: member kind")
		}
	}
}

func (m *machine) depends(c *cursor) {
	if c.open {
		m.greedy = true
	}
}

func (m *machine) ref(o *Object, r model.Ref) uint64 {
	if r.Scope != "" {
		return m.ctx[r.Scope][r.Name]
	}
	v, ok := o.Fields[r.Name].(uint64)
	if !ok {
		// The field was not parsed; objects start out as zero.
		return 0
	}
	return v
}

func (m *machine) step() {
	m.steps++
	if m.steps > maxSteps {
		panic(undecided{})
	}
}

func (m *machine) value(c *cursor, b model.Base) interface{} {
	m.step()
	n := b.Bits / 8
	if b.Char {
		n = 1
	}
	if n == 0 {
		return m.structure(c, m.env.Structs[b.Struct])
	}
	if c.end-c.pos < n {
		panic(failure("short"))
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(m.in[c.pos+i])
	}
	if b.Cons != nil && !m.env.In(v, b.Cons) {
		m.see("constraint-no")
		panic(failure("constraint"))
	}
	if b.Cons != nil {
		m.see("constraint-yes")
	}
	c.pos += n
	return v
}

func (m *machine) counted(c *cursor, b model.Base, n uint64) []interface{} {
	m.arrays++
	// Parsers may allocate this much up front.
	if m.claimed += min(n, 65535); m.claimed > maxClaimed {
		panic(undecided{})
	}
	vs := []interface{}{}
	for i := uint64(0); i < n; i++ {
		vs = append(vs, m.value(c, b))
	}
	return vs
}

func (m *machine) rest(c *cursor, b model.Base) []interface{} {
	m.depends(c)
	vs := []interface{}{}
	for c.pos < c.end {
		p := c.pos
		vs = append(vs, m.value(c, b))
		if c.pos == p {
			panic(failure("no progress"))
		}
	}
	return vs
}

// within runs f on the next n bytes, which it has to consume completely.
func (m *machine) within(c *cursor, n uint64, open bool, f func(c *cursor)) {
	if uint64(c.end-c.pos) < n {
		panic(failure("extent"))
	}
	sub := &cursor{c.pos, c.pos + int(n), open}
	f(sub)
	if sub.pos < sub.end {
		panic(failure("unread"))
	}
	c.pos = sub.end
}

func (m *machine) leftover(c *cursor, n uint64, f func(c *cursor)) {
	m.depends(c)
	if uint64(c.end-c.pos) < n {
		panic(failure("extent"))
	}
	m.within(c, uint64(c.end-c.pos)-n, c.open, f)
}

// Select returns the index of the case for a tag value, or -1.
func (e *Env) Select(u *model.Member, tag uint64) int {
	dflt := -1
	for i, k := range u.Cases {
		if k.Default {
			dflt = i
			continue
		}
		if e.In(tag, k.Vals) {
			return i
		}
	}
	return dflt
}

func (m *machine) union(c *cursor, s *model.Struct, o *Object, start int, u *model.Member) {
	body := func(c *cursor) {
		i := m.env.Select(u, m.ref(o, u.Tag))
		if i < 0 {
			m.unmatched = true
			m.see("unmatched")
			if m.strict {
				panic(failure("unmatched"))
			}
			return
		}
		m.see("case %s.%s.%d", s.Name, u.Name, i)
		m.members(c, s, o, start, u.Cases[i].Members)
	}
	switch {
	case u.Len == nil:
		body(c)
	case u.Len.Ref != nil:
		m.within(c, m.ref(o, *u.Len.Ref), false, body)
	default:
		m.leftover(c, m.env.Int(*u.Len.Leftover), body)
	}
}

// Format writes an object readably.
func (o *Object) String() string {
	if o == nil {
		return "nil"
	}
	var ks []string
	for k := range o.Fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString(o.Type + "{")
	for i, k := range ks {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%s:%s", k, str(o.Fields[k]))
	}
	b.WriteString("}")
	return b.String()
}

func str(v interface{}) string {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v)
	case []interface{}:
		s := make([]string, len(v))
		for i := range v {
			if i > 40 {
				s = append(s[:i], "...")
				break
			}
			s[i] = str(v[i])
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprint(v)
}

// MinSize returns a lower bound of the bytes a struct consumes.
func (e *Env) MinSize(s *model.Struct) int {
	n := 0
	for _, m := range s.Members {
		switch m.Kind {
		case model.Scalar:
			n += e.MinBase(m.Base)
		case model.Nulterm:
			n++
		case model.Fixed:
			n += int(e.Int(m.Size)) * e.MinBase(m.Base)
		}
	}
	return n
}

// MinBase is MinSize for an element.
func (e *Env) MinBase(b model.Base) int {
	switch {
	case b.Char:
		return 1
	case b.Bits != 0:
		return b.Bits / 8
	}
	s := e.Structs[b.Struct]
	if s == nil {
		return 0
	}
	return e.MinSize(s)
}

// MaxVector bounds the size of test vectors for members, which have arrays of
// at most 20 elements and strings of at most 20 characters.
func (e *Env) MaxVector(ms []*model.Member) int {
	return e.maxVector(ms, map[string]bool{})
}

func (e *Env) maxVector(ms []*model.Member, active map[string]bool) int {
	base := func(b model.Base) int {
		switch {
		case b.Char:
			return 1
		case b.Bits != 0:
			return b.Bits / 8
		}
		if active[b.Struct] {
			return 0 // vectors are not implemented for structs that contain themselves
		}
		active[b.Struct] = true
		defer delete(active, b.Struct)
		return e.maxVector(e.Structs[b.Struct].Members, active)
	}
	n := 0
	for _, m := range ms {
		switch m.Kind {
		case model.Scalar:
			n += base(m.Base)
		case model.Nulterm:
			n += 21
		case model.Fixed:
			n += int(e.Int(m.Size)) * base(m.Base)
		case model.Var, model.Remainder, model.Leftover:
			k := 20
			if m.Kind == model.Var && e.tags[m.Ref.String()] {
				k = 1024
			}
			n += k * base(m.Base)
		case model.Ignore:
			n += 7
		case model.Union:
			most := 0
			for _, c := range m.Cases {
				if k := e.maxVector(c.Members, active); k > most {
					most = k
				}
			}
			n += most
		}
	}
	return n
}

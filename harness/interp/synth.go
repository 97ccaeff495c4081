package interp

import (
	"math/rand"

	"github.com/mmcloughlin/trunnel/verif/model"
)

// Slot is an integer field in a synthesised input.
type Slot struct {
	Off, Bytes int
	Member     *model.Member
}

// Synth makes inputs for structs. The inputs are meant to be mostly valid, but
// whether they are is for Parse to say.
type Synth struct {
	Env *Env
	Rng *rand.Rand
	// Wild is the percentage of integers that are chosen without regard to
	// their use.
	Wild int
	// TagEdges biases tags to the edges of the case lists.
	TagEdges bool
	// Large is the number per thousand of counts, strings and remainders that
	// are much larger than usual.
	Large int
	Slots []Slot
	limit int
}

const maxSize = 4096

func (y *Synth) pct(p int) bool { return y.Rng.Intn(100) < p }

func max64(bits int) uint64 {
	if bits == 64 {
		return 1<<64 - 1
	}
	return 1<<uint(bits) - 1
}

// edge returns a value at an interesting place of an n-bit range.
func (y *Synth) edge(bits int) uint64 {
	m := max64(bits)
	switch y.Rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		return m >> 1
	case 3:
		return m>>1 + 1
	case 4:
		return m - 1
	case 5:
		return uint64(1) << uint(y.Rng.Intn(bits))
	}
	return y.Rng.Uint64() & m
}

// Pick returns a member of the list, edges preferred.
func (y *Synth) pick(rs []model.Range) uint64 {
	lo, hi := y.Env.Bounds(rs[y.Rng.Intn(len(rs))])
	switch y.Rng.Intn(4) {
	case 0:
		return lo
	case 1:
		return hi
	}
	if hi-lo == 1<<64-1 {
		return y.Rng.Uint64()
	}
	return lo + y.Rng.Uint64()%(hi-lo+1)
}

// around returns a value at or next to an edge of the list.
func (y *Synth) around(rs []model.Range, bits int) uint64 {
	lo, hi := y.Env.Bounds(rs[y.Rng.Intn(len(rs))])
	v := []uint64{lo - 1, lo, hi, hi + 1, lo + 1, hi - 1}[y.Rng.Intn(6)]
	return v & max64(bits)
}

// uses describes how a field is used by later members.
type uses struct {
	count  bool
	tags   []*model.Member
	extent bool
}

func collect(ms []*model.Member, scope, name string, u *uses) {
	for _, m := range ms {
		switch m.Kind {
		case model.Var:
			if m.Ref.Scope == scope && m.Ref.Name == name {
				u.count = true
			}
		case model.Union:
			if m.Tag.Scope == scope && m.Tag.Name == name {
				u.tags = append(u.tags, m)
			}
			if m.Len != nil && m.Len.Ref != nil && m.Len.Ref.Scope == scope && m.Len.Ref.Name == name {
				u.extent = true
			}
			for _, c := range m.Cases {
				collect(c.Members, scope, name, u)
			}
		}
	}
}

// choose picks a value for an integer with the given uses.
func (y *Synth) choose(b model.Base, u uses) uint64 {
	if b.Cons != nil && !y.pct(y.Wild) {
		return y.pick(b.Cons)
	}
	if y.pct(y.Wild) {
		return y.edge(b.Bits)
	}
	m := max64(b.Bits)
	if len(u.tags) > 0 && y.Rng.Intn(10) > 0 {
		t := u.tags[y.Rng.Intn(len(u.tags))]
		var lists [][]model.Range
		for _, c := range t.Cases {
			if !c.Default {
				lists = append(lists, c.Vals)
			}
		}
		if len(lists) > 0 {
			l := lists[y.Rng.Intn(len(lists))]
			if y.TagEdges && y.Rng.Intn(2) == 0 || y.Rng.Intn(6) == 0 {
				return y.around(l, b.Bits)
			}
			return y.pick(l) & m
		}
	}
	if (u.count || u.extent) && y.large() {
		return []uint64{127, 128, 200, 255, 256, 257, 300, 1000, 4096, 32767, 32768, 40000, 65535, 65536, 70000}[y.Rng.Intn(15)] & m
	}
	if u.count {
		return uint64(y.Rng.Intn(7))
	}
	if u.extent {
		return uint64(y.Rng.Intn(12))
	}
	if y.Rng.Intn(3) == 0 {
		return y.edge(b.Bits)
	}
	return y.Rng.Uint64() & m
}

// Context chooses values for the contexts of a struct.
func (y *Synth) Context(s *model.Struct) Ctx {
	ctx := Ctx{}
	for _, n := range s.Ctxs {
		c := y.Env.Contexts[n]
		if c == nil {
			continue
		}
		ctx[n] = map[string]uint64{}
		for _, f := range c.Fields {
			var u uses
			for _, t := range y.Env.Order {
				collect(t.Members, n, f.Name, &u)
			}
			ctx[n][f.Name] = y.choose(f.Base, u)
		}
	}
	return ctx
}

// Input synthesises an input for a struct.
func (y *Synth) Input(s *model.Struct, ctx Ctx) []byte {
	y.Slots = nil
	if y.limit == 0 {
		y.limit = maxSize
	}
	defer func() { y.limit = 0 }()
	b := &builder{y: y, ctx: ctx}
	b.structure(s, 0)
	return b.out
}

type local struct {
	val   uint64
	off   int
	bytes int
	ok    bool
}

type builder struct {
	y     *Synth
	ctx   Ctx
	out   []byte
	steps int
}

func (b *builder) full() bool {
	return len(b.out) > b.y.limit || b.steps > b.y.limit
}

// large reports whether a number may be large, and makes room for it.
func (y *Synth) large() bool {
	if y.Large == 0 || y.Rng.Intn(1000) >= y.Large {
		return false
	}
	y.limit = 200000
	return true
}

// many is a number around a power of two, the largest one more often.
func (y *Synth) many(log int) int {
	n := y.Rng.Intn(log + 1)
	if y.Rng.Intn(3) == 0 {
		n = log
	}
	return 1<<uint(n) + y.Rng.Intn(3) - 1
}

func (b *builder) putint(off int, v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		b.out[off+i] = byte(v)
		v >>= 8
	}
}

func (b *builder) structure(s *model.Struct, depth int) {
	if depth > 150 {
		return // a struct that contains itself
	}
	locals := map[string]local{}
	b.members(s, s.Members, locals, depth)
}

func (b *builder) ref(l map[string]local, r model.Ref) uint64 {
	if r.Scope != "" {
		return b.ctx[r.Scope][r.Name]
	}
	return l[r.Name].val
}

func (b *builder) element(bs model.Base, m *model.Member, depth int) {
	b.steps++
	switch {
	case bs.Char:
		b.out = append(b.out, byte(b.y.Rng.Intn(256)))
	case bs.Bits != 0:
		n := bs.Bits / 8
		off := len(b.out)
		b.out = append(b.out, make([]byte, n)...)
		b.putint(off, b.y.choose(bs, uses{}), n)
		b.y.Slots = append(b.y.Slots, Slot{off, n, m})
	default:
		if s := b.y.Env.Structs[bs.Struct]; s != nil {
			b.structure(s, depth+1)
		}
	}
}

func (b *builder) members(s *model.Struct, ms []*model.Member, l map[string]local, depth int) {
	y := b.y
	for _, m := range ms {
		if b.full() {
			return
		}
		switch m.Kind {
		case model.Scalar:
			if m.Base.Bits == 0 {
				b.element(m.Base, m, depth)
				break
			}
			var u uses
			collect(s.Members, "", m.Name, &u)
			v := y.choose(m.Base, u)
			n := m.Base.Bits / 8
			off := len(b.out)
			b.out = append(b.out, make([]byte, n)...)
			b.putint(off, v, n)
			l[m.Name] = local{v, off, n, true}
			y.Slots = append(y.Slots, Slot{off, n, m})
		case model.Nulterm:
			n := y.Rng.Intn(6)
			if y.Rng.Intn(12) == 0 {
				n = y.Rng.Intn(70)
			}
			if y.large() {
				n = y.many(16)
			}
			for i := 0; i < n; i++ {
				b.out = append(b.out, byte(1+y.Rng.Intn(255)))
			}
			b.out = append(b.out, 0)
		case model.Fixed, model.Var:
			n := uint64(0)
			if m.Kind == model.Fixed {
				n = y.Env.Int(m.Size)
			} else {
				n = b.ref(l, m.Ref)
				if n > 300 && y.limit == maxSize {
					n = 60
				}
			}
			for i := uint64(0); i < n && !b.full(); i++ {
				b.element(m.Base, m, depth)
			}
		case model.Remainder, model.Leftover:
			n := y.Rng.Intn(5)
			switch y.Rng.Intn(30) {
			case 0, 1:
				n = y.Rng.Intn(40)
			case 2:
				n = y.Rng.Intn(200)
			}
			if y.large() {
				n = y.many(11)
				if m.Base.Char || m.Base.Bits == 8 {
					n = y.many(16)
				}
			}
			for i := 0; i < n && !b.full(); i++ {
				b.element(m.Base, m, depth)
			}
		case model.Ignore:
			n := y.Rng.Intn(5)
			if y.large() {
				n = y.many(16)
			}
			for i := 0; i < n; i++ {
				b.out = append(b.out, byte(y.Rng.Intn(256)))
			}
		case model.Union:
			start := len(b.out)
			k := y.Env.Select(m, b.ref(l, m.Tag))
			if k >= 0 {
				b.members(s, m.Cases[k].Members, l, depth)
			}
			if m.Len != nil && m.Len.Ref != nil {
				r := *m.Len.Ref
				if r.Scope != "" {
					b.fit(start, int(min(b.ctx[r.Scope][r.Name], uint64(y.limit))), m, k)
				} else if f := l[r.Name]; f.ok {
					n := uint64(len(b.out) - start)
					if n <= max64(f.bytes*8) && !y.pct(y.Wild) && y.Rng.Intn(8) > 0 {
						b.putint(f.off, n, f.bytes)
						l[r.Name] = local{n, f.off, f.bytes, true}
					} else {
						b.fit(start, int(min(f.val, uint64(y.limit))), m, k)
					}
				}
			}
		}
	}
}

// fit pads or cuts a union body that can have any size.
func (b *builder) fit(start, want int, u *model.Member, k int) {
	if k < 0 || len(u.Cases[k].Members) == 0 {
		return
	}
	ms := u.Cases[k].Members
	last := ms[len(ms)-1]
	byteish := last.Kind == model.Ignore || last.Kind == model.Remainder && (last.Base.Char || last.Base.Bits == 8)
	if !byteish && b.y.Rng.Intn(4) > 0 {
		return
	}
	for len(b.out)-start < want {
		b.out = append(b.out, byte(b.y.Rng.Intn(256)))
	}
	if len(b.out)-start > want && byteish {
		b.out = b.out[:start+want]
	}
}

// Mutate makes a random change to an input.
func (y *Synth) Mutate(in []byte) []byte {
	b := append([]byte{}, in...)
	for k, n := 0, 1+y.Rng.Intn(2); k < n; k++ {
		switch c := y.Rng.Intn(9); {
		case c == 0 && len(b) > 0:
			b = b[:y.Rng.Intn(len(b))]
		case c == 1:
			x := make([]byte, 1+y.Rng.Intn(4))
			y.Rng.Read(x)
			b = append(b, x...)
		case c == 2 && len(b) > 0:
			b[y.Rng.Intn(len(b))] ^= 1 << uint(y.Rng.Intn(8))
		case c == 3 && len(b) > 0:
			b[y.Rng.Intn(len(b))] = []byte{0, 1, 0x7f, 0x80, 0xff}[y.Rng.Intn(5)]
		case c == 4 && len(b) > 0:
			i := y.Rng.Intn(len(b))
			b = append(b[:i:i], b[i+1:]...)
		case c == 5 && len(b) > 0:
			i := y.Rng.Intn(len(b))
			b = append(b[:i:i], append([]byte{byte(y.Rng.Intn(256))}, b[i:]...)...)
		case len(y.Slots) > 0:
			s := y.Slots[y.Rng.Intn(len(y.Slots))]
			if s.Off+s.Bytes <= len(b) {
				y.setSlot(b, s)
			}
		}
	}
	return b
}

// MutateSlot changes exactly one integer field.
func (y *Synth) MutateSlot(in []byte, s Slot) []byte {
	b := append([]byte{}, in...)
	if s.Off+s.Bytes <= len(b) {
		y.setSlot(b, s)
	}
	return b
}

func (y *Synth) setSlot(b []byte, s Slot) {
	var v uint64
	for i := 0; i < s.Bytes; i++ {
		v = v<<8 | uint64(b[s.Off+i])
	}
	bits := s.Bytes * 8
	switch y.Rng.Intn(5) {
	case 0:
		v++
	case 1:
		v--
	case 2:
		v = y.edge(bits)
	default:
		if s.Member.Kind == model.Scalar && s.Member.Base.Cons != nil {
			v = y.around(s.Member.Base.Cons, bits)
		} else {
			v = y.edge(bits)
		}
	}
	for i := s.Bytes - 1; i >= 0; i-- {
		b[s.Off+i] = byte(v)
		v >>= 8
	}
}

package conform

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/mmcloughlin/trunnel/verif/interp"
	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
)

// Main is the entry point of the generated program.
func Main() {
	p := loadPlan()
	body, ok := map[string]func(*checker){
		"C08": (*checker).values, "C09": (*checker).constraints, "C10": (*checker).unions, "C11": (*checker).extents,
		"C12": (*checker).contexts, "C13": (*checker).hostile, "C14": (*checker).local, "C15": (*checker).prefixes,
		"C23": (*checker).values, "C26": (*checker).concurrent, "C28": (*checker).reuse,
	}[p.ID]
	if !ok {
		report.Fatal("no conformance workload for %s", p.ID)
	}
	report.Main(p.ID, "exploration", func(r *report.Run) {
		c := &checker{r: r, plan: p, ts: targets(p), seen: map[string]int{}}
		for k, v := range p.Counters {
			r.Count(k, int(v))
		}
		if len(c.ts) == 0 {
			report.Fatal("no targets")
		}
		r.Assume("the reference interpreter states the meaning of the format as described in the trunnel manual")
		body(c)
		r.Count("targets", len(c.ts))
		for k, v := range c.seen {
			if !strings.HasPrefix(k, "case ") {
				r.Count("seen_"+strings.ReplaceAll(k, "-", "_"), v)
			}
		}
		n := 0
		for k := range c.seen {
			if strings.HasPrefix(k, "case ") {
				n++
			}
		}
		r.Count("union_cases_taken", n)
		r.Require("accepted", 200)
		r.Require("rejected", 200)
	})
}

type checker struct {
	r    *report.Run
	plan *Plan
	ts   []*target
	mu   sync.Mutex
	seen map[string]int
}

func desc(t *target, in []byte, ctx interp.Ctx) string {
	return fmt.Sprintf("%s\ncontext: %s\ninput (%d): %s", t, ctx, len(in), hex.EncodeToString(in))
}

// one runs a parser on an input and applies every oracle that needs no other
// run. It returns the reference result.
func (c *checker) one(t *target, in []byte, ctx interp.Ctx) (interp.Result, *run) {
	events := map[string]int{}
	res := t.env.Parse(t.s.Name, in, ctx, interp.Options{Observer: func(e string) {
		if strings.HasPrefix(e, "case ") {
			e = fmt.Sprintf("case %d %s", t.spec, e)
		}
		events[e]++
	}})
	if res.Undecided {
		c.r.Count("undecided", 1)
		return res, nil
	}
	strict := res
	if res.Unmatched {
		strict = t.env.Parse(t.s.Name, in, ctx, interp.Options{FailUnmatched: true})
	}
	rn := c.exec(t, in, ctx)
	if rn == nil {
		return res, nil
	}
	c.r.Eval(1)
	d := desc(t, in, ctx)
	if res.OK {
		c.r.Count("accepted", 1)
		if len(in) > 0 {
			c.r.Distinct(d)
		}
	} else {
		c.r.Count("rejected", 1)
		c.r.Count("rejected_"+strings.ReplaceAll(res.Why, " ", "_"), 1)
		if len(in) > 0 {
			c.r.Distinct(d)
		}
	}
	c.mu.Lock()
	for e, n := range events {
		c.seen[e] += n
	}
	c.mu.Unlock()
	var key, what string
	if p := c.r.Case(d, func() { key, what = judge(t, res, in, rn) }); p != nil {
		// Objects that other parsers share change while they are read.
		c.r.Violation(c.plan.ID+":unreadable", "the result cannot be read: "+p.Error(), d+"\n"+p.Stack)
		return res, nil
	}
	if key != "" && res.Unmatched {
		// The manual says that a tag without a case fails; the Go port treats
		// it as an empty case. Either is taken, nothing else is.
		if k2, _ := judge(t, strict, in, rn); k2 == "" {
			c.r.Count("unmatched_failed", 1)
			key = ""
		}
	}
	if key != "" {
		c.r.Violation(c.plan.ID+":"+key, what, d+"\nreference: "+describe(res)+"\nobserved: "+rn.describe())
	}
	return res, rn
}

// exec runs method and constructor on guarded copies of the input.
func (c *checker) exec(t *target, in []byte, ctx interp.Ctx) *run {
	d := desc(t, in, ctx)
	g := newGuard(in)
	rn := &run{obj: t.fresh()}
	g2 := newGuard(in)
	p := c.r.Case(d, func() {
		rn.rest, rn.err = t.parseInto(rn.obj, g.data, ctx)
		rn.ctor, rn.cerr = t.construct(g2.data, ctx)
	})
	if p != nil {
		c.r.Eval(1)
		c.r.Violation(c.plan.ID+":panic:"+panicKey(p), p.Error(), d+"\n"+p.Stack)
		return nil
	}
	if !g.intact() || !g2.intact() {
		c.r.Violation(c.plan.ID+":buffer", "the input buffer was written", d)
	}
	rn.data = g.data
	return rn
}

func panicKey(p *report.Panicked) string {
	s := fmt.Sprint(p.Value)
	for _, w := range []string{"makeslice", "slice bounds", "index out of range", "nil pointer", "out of memory"} {
		if strings.Contains(s, w) {
			return strings.ReplaceAll(w, " ", "-")
		}
	}
	return "other"
}

func describe(r interp.Result) string {
	if !r.OK {
		return "rejects: " + r.Why
	}
	return fmt.Sprintf("accepts, %d bytes used, %s", r.Used, r.Obj)
}

func (rn *run) describe() string {
	if rn.err != nil {
		return fmt.Sprintf("method error %v, constructor error %v", rn.err, rn.cerr)
	}
	return fmt.Sprintf("rest %d bytes, %s, constructor error %v", len(rn.rest), snapshot(rn.obj), rn.cerr)
}

// judge compares a run with a reference result.
func judge(t *target, res interp.Result, in []byte, rn *run) (key, what string) {
	switch {
	case res.OK && rn.err != nil:
		return "rejects", "valid input is rejected: " + rn.err.Error()
	case !res.OK && rn.err == nil:
		return "accepts:" + strings.ReplaceAll(res.Why, " ", "-"), "invalid input is accepted (" + res.Why + ")"
	case (rn.err == nil) != (rn.cerr == nil):
		return "agree", fmt.Sprintf("method and constructor disagree: %v / %v", rn.err, rn.cerr)
	case rn.err != nil && rn.rest != nil:
		return "rest-on-error", "a failed parse returns a rest slice"
	case rn.err != nil && !rn.ctor.IsNil():
		return "object-on-error", "a failed constructor returns an object"
	case !res.OK:
		return "", ""
	}
	if s := compare(t.env, rn.obj, res.Obj, true); s != "" {
		return "value:" + kindOf(s), "wrong value: " + s
	}
	if s := compare(t.env, rn.ctor, res.Obj, true); s != "" {
		return "constructor-value:" + kindOf(s), "constructor: wrong value: " + s
	}
	if !bytes.Equal(rn.rest, in[res.Used:]) {
		return "rest", fmt.Sprintf("rest has %d bytes, want %d", len(rn.rest), len(in)-res.Used)
	}
	return "", ""
}

func kindOf(s string) string {
	i := strings.Index(s, "(")
	j := strings.Index(s, ")")
	if i < 0 || j < i {
		return "other"
	}
	return strings.ReplaceAll(strings.Fields(s[i+1 : j])[0], " ", "-")
}

// inputs calls f with inputs for a target: synthesised ones with tails,
// mutations of them and random bytes.
func (c *checker) inputs(t *target, rng *rand.Rand, n int, tune func(y *interp.Synth), f func(in []byte, ctx interp.Ctx, y *interp.Synth)) {
	y := &interp.Synth{Env: t.env, Rng: rng, Wild: 3, Large: 4}
	if tune != nil {
		tune(y)
	}
	for i := 0; i < n; i++ {
		ctx := y.Context(t.s)
		in := y.Input(t.s, ctx)
		f(in, ctx, y)
		tail := make([]byte, 1+rng.Intn(5))
		rng.Read(tail)
		f(append(append([]byte{}, in...), tail...), ctx, y)
		for k := 0; k < 4; k++ {
			f(y.Mutate(in), ctx, y)
		}
		if i%4 == 0 {
			b := make([]byte, rng.Intn(40))
			rng.Read(b)
			f(b, ctx, y)
			f(nil, ctx, y)
		}
	}
}

func (c *checker) sample(i int, in []byte, ctx interp.Ctx, res interp.Result) {
	if i < 3 {
		c.r.Sample(desc(c.ts[i], in, ctx) + "\n=> " + describe(res))
	}
}

func (c *checker) each(n int, tune func(y *interp.Synth), extra func(t *target, in []byte, ctx interp.Ctx, y *interp.Synth, res interp.Result, rn *run)) {
	c.r.Parallel("conform", len(c.ts), func(i int, rng *rand.Rand) {
		t := c.ts[i]
		k := 0
		c.inputs(t, rng, n, tune, func(in []byte, ctx interp.Ctx, y *interp.Synth) {
			res, rn := c.one(t, in, ctx)
			if k == 0 {
				c.sample(i, in, ctx, res)
			}
			k++
			if extra != nil && rn != nil {
				extra(t, in, ctx, y, res, rn)
			}
		})
	})
	c.r.Parallel("huge", len(c.ts), func(i int, rng *rand.Rand) {
		if rng.Intn(2) == 0 {
			return
		}
		c.huge(c.ts[i], rng)
	})
}

// huge tries inputs with large counts, strings and remainders.
func (c *checker) huge(t *target, rng *rand.Rand) {
	y := &interp.Synth{Env: t.env, Rng: rng, Large: 500}
	for k := 0; k < 3; k++ {
		ctx := y.Context(t.s)
		in := y.Input(t.s, ctx)
		if len(in) < 256 {
			continue
		}
		c.one(t, in, ctx)
		c.one(t, append(append([]byte{}, in...), byte(rng.Intn(256))), ctx)
		c.one(t, in[:len(in)-1], ctx)
		c.r.Count("inputs_huge", 3)
		if len(in) > 1<<16 {
			c.r.Count("inputs_over_64k", 3)
		}
	}
}

const ruleInputs = "inputs synthesised from the specification, the same with tails, 1-2 step mutations (truncation, insertion, bit flips, integer edges), random and empty bytes; " +
	"non-trivial: distinct (specification, struct, context, non-empty input)"

func (c *checker) values() {
	c.r.Rule = "random well-formed specifications, generated with the code under test and compiled; " + ruleInputs
	c.each(c.r.Pick(12, 40), nil, nil)
}

func (c *checker) constraints() {
	c.r.Rule = "specifications full of constrained integers; every constrained field of a valid input is set to the edges of its list, one beyond, and extremes; " + ruleInputs
	c.each(c.r.Pick(6, 20), nil, func(t *target, in []byte, ctx interp.Ctx, y *interp.Synth, res interp.Result, rn *run) {
		if !res.OK {
			return
		}
		var slots []interp.Slot
		values := 0
		for _, s := range y.Slots {
			if s.Member.Kind == model.Scalar && s.Member.Base.Cons != nil && s.Off+s.Bytes <= len(in) {
				slots = append(slots, s)
				values += 7 * len(s.Member.Base.Cons)
			}
		}
		// Of a large input with many fields only some can be tried.
		step := 1 + values*len(in)/(4<<20)
		for i, s := range slots {
			if step > 1 && i%step != y.Rng.Intn(step) {
				continue
			}
			for _, rg := range s.Member.Base.Cons {
				lo, hi := t.env.Bounds(rg)
				for _, v := range []uint64{lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, lo ^ 1<<uint(s.Bytes*8-1)} {
					b := append([]byte{}, in...)
					for k := s.Bytes - 1; k >= 0; k-- {
						b[s.Off+k] = byte(v)
						v >>= 8
					}
					c.one(t, b, ctx)
					c.r.Count("edge_values", 1)
				}
			}
		}
	})
	c.r.Require("edge_values", 500)
	c.r.Require("seen_constraint_no", 100)
	c.r.Require("seen_constraint_yes", 100)
}

func (c *checker) unions() {
	c.r.Rule = "specifications full of unions (all case kinds, defaults in any position, tags of all widths, local and context tags); tags at and around the edges of case lists, all 256 values of 8-bit tags; " + ruleInputs
	c.each(c.r.Pick(8, 30), func(y *interp.Synth) { y.TagEdges = true }, nil)
	// All values of 8-bit local tags in front of a fixed tail.
	c.r.Parallel("tags", len(c.ts), func(i int, rng *rand.Rand) {
		t := c.ts[i]
		y := &interp.Synth{Env: t.env, Rng: rng}
		ctx := y.Context(t.s)
		in := y.Input(t.s, ctx)
		for _, s := range append([]interp.Slot{}, y.Slots...) {
			if s.Bytes != 1 || s.Member.Kind != model.Scalar || !isTag(t.s, s.Member.Name) || s.Off >= len(in) {
				continue
			}
			for v := 0; v < 256; v++ {
				b := append([]byte{}, in...)
				b[s.Off] = byte(v)
				c.one(t, b, ctx)
				c.r.Count("tag_values", 1)
			}
			break
		}
		// All 8-bit context tags.
		for _, n := range t.s.Ctxs {
			for _, f := range t.env.Contexts[n].Fields {
				if f.Base.Bits != 8 {
					continue
				}
				for v := 0; v < 256; v += 1 + rng.Intn(5) {
					x := interp.Ctx{}
					for k, m := range ctx {
						x[k] = map[string]uint64{}
						for kk, vv := range m {
							x[k][kk] = vv
						}
					}
					x[n][f.Name] = uint64(v)
					c.one(t, in, x)
					c.r.Count("context_tag_values", 1)
				}
			}
		}
	})
	c.r.Require("tag_values", 1000)
	c.r.Require("union_cases_taken", 50)
}

func isTag(s *model.Struct, name string) bool {
	for _, m := range s.Members {
		if m.Kind == model.Union && m.Tag.Scope == "" && m.Tag.Name == name {
			return true
		}
	}
	return false
}

func (c *checker) extents() {
	c.r.Rule = "specifications full of extents (union lengths, leftover arrays and unions, remainder arrays, eos, ignore); valid inputs cut and extended at every offset, extent fields moved by one; " + ruleInputs
	c.each(c.r.Pick(6, 20), nil, func(t *target, in []byte, ctx interp.Ctx, y *interp.Synth, res interp.Result, rn *run) {
		if !res.OK || len(in) > 120 {
			return
		}
		for _, s := range append([]interp.Slot{}, y.Slots...) {
			if s.Member.Kind == model.Scalar && s.Off+s.Bytes <= len(in) {
				for _, d := range []int{1, -1} {
					b := append([]byte{}, in...)
					b[s.Off+s.Bytes-1] += byte(d)
					c.one(t, b, ctx)
					c.r.Count("extent_moves", 1)
				}
			}
		}
		if len(in) < 60 {
			for k := 0; k <= len(in); k++ {
				c.one(t, in[:k], ctx)
				b := append(append(append([]byte{}, in[:k]...), 0x41), in[k:]...)
				c.one(t, b, ctx)
				c.r.Count("cuts", 1)
			}
		}
	})
	// Bodies that need more than two bytes to say how long they are.
	c.r.Parallel("wide", len(c.ts), func(i int, rng *rand.Rand) {
		t := c.ts[i]
		if !wideExtent(t) {
			return
		}
		y := &interp.Synth{Env: t.env, Rng: rng, Large: 300}
		for k, ok := 0, 0; k < 60 && ok < 4; k++ {
			ctx := y.Context(t.s)
			in := y.Input(t.s, ctx)
			if len(in) < 1<<16 {
				continue
			}
			if res, _ := c.one(t, in, ctx); res.OK {
				c.r.Count("extents_wide", 1)
				ok++
			}
		}
	})
	c.r.Require("extents_wide", 2)
	c.r.Require("extent_moves", 500)
	c.r.Require("cuts", 500)
	c.r.Require("rejected_unread", 20)
	c.r.Require("rejected_extent", 20)
	c.r.Require("rejected_trailing", 20)
}

// wideExtent reports whether a union of the struct has a length of more than
// 16 bits.
func wideExtent(t *target) bool {
	for _, m := range t.s.Members {
		if m.Kind != model.Union || m.Len == nil || m.Len.Ref == nil {
			continue
		}
		ms := t.s.Members
		if n := m.Len.Ref.Scope; n != "" {
			if t.env.Contexts[n] == nil {
				continue
			}
			ms = t.env.Contexts[n].Fields
		}
		for _, f := range ms {
			if f.Name == m.Len.Ref.Name && f.Base.Bits > 16 {
				return true
			}
		}
	}
	return false
}

func (c *checker) contexts() {
	c.r.Rule = "specifications with one to three contexts in varying orders, used by tags, lengths and extents at any nesting depth; every input is tried under several context values that differ in one field; " + ruleInputs
	c.each(c.r.Pick(8, 30), func(y *interp.Synth) { y.Large = 1 }, func(t *target, in []byte, ctx interp.Ctx, y *interp.Synth, res interp.Result, rn *run) {
		if len(in) > 2000 {
			return
		}
		for _, n := range t.s.Ctxs {
			for _, f := range t.env.Contexts[n].Fields {
				x := interp.Ctx{}
				for k, m := range ctx {
					x[k] = map[string]uint64{}
					for kk, vv := range m {
						x[k][kk] = vv
					}
				}
				mask := uint64(1)<<uint(f.Base.Bits) - 1
				if f.Base.Bits == 64 {
					mask = 1<<64 - 1
				}
				x[n][f.Name] = (x[n][f.Name] + uint64(1+y.Rng.Intn(3))) & mask
				if r2, _ := c.one(t, in, x); r2.OK != res.OK || r2.Used != res.Used {
					c.r.Count("context_matters", 1)
				}
				c.r.Count("context_changes", 1)
			}
		}
	})
	c.r.Require("context_changes", 500)
	c.r.Require("context_matters", 100)
}

// sizes returns the largest object of a specification and whether some counted
// array has elements that may take no input.
func (t *target) sizes() (maxObj uintptr, zero bool) {
	for _, ty := range t.e.types {
		if s := ty.ptr.Elem().Size(); s > maxObj {
			maxObj = s
		}
	}
	var walk func(ms []*model.Member)
	walk = func(ms []*model.Member) {
		for _, m := range ms {
			if m.Kind == model.Var && t.env.MinBase(m.Base) == 0 {
				zero = true
			}
			for _, k := range m.Cases {
				walk(k.Members)
			}
		}
	}
	for _, s := range t.env.Order {
		walk(s.Members)
	}
	return
}

func (c *checker) hostile() {
	c.r.Rule = "specifications with length fields of all widths and context lengths; inputs with extreme integers everywhere, all-ones and random bytes, truncated everywhere; allocation measured per call against " +
		"4096 bytes per input byte plus 65535 elements per counted array that the reference begins; non-trivial: distinct (specification, struct, context, input)"
	c.r.CaseCPU(40)
	var peak uint64
	// One worker: the allocation counter is shared by the process.
	c.r.ParallelN("hostile", len(c.ts), 1, func(i int, rng *rand.Rand) {
		t := c.ts[i]
		maxObj, zero := t.sizes()
		per := uint64(16)
		if zero {
			per += uint64(maxObj) + 16
		}
		try := func(in []byte, ctx interp.Ctx) {
			res, _ := c.one(t, in, ctx)
			if res.Undecided && zero {
				return // arrays of arrays of elements that take no input
			}
			obj := t.fresh()
			args := t.args(newGuard(in).data, ctx)
			m := obj.MethodByName("Parse")
			var a, b runtime.MemStats
			p := c.r.Case(desc(t, in, ctx), func() {
				runtime.ReadMemStats(&a)
				m.Call(args)
				runtime.ReadMemStats(&b)
			})
			if p != nil {
				c.r.Violation("C13:panic:"+panicKey(p), p.Error(), desc(t, in, ctx))
				return
			}
			used := b.TotalAlloc - a.TotalAlloc
			c.r.Count("measured", 1)
			if used > peak {
				peak = used
			}
			if res.Undecided {
				return
			}
			if limit := uint64(2+res.Arrays)*65536*per + uint64(len(in)+16)*(4096+uint64(maxObj)); used > limit {
				c.r.Violation("C13:memory", fmt.Sprintf("%d bytes allocated for %d bytes of input (limit %d)", used, len(in), limit), desc(t, in, ctx))
			}
		}
		y := &interp.Synth{Env: t.env, Rng: rng}
		for k := 0; k < c.r.Pick(16, 60); k++ {
			y.Wild = []int{5, 25, 60, 95}[k%4]
			ctx := y.Context(t.s)
			y.Wild = []int{60, 25, 5, 40, 95}[k%5]
			in := y.Input(t.s, ctx)
			if k == 0 {
				c.sample(i, in, ctx, t.env.Parse(t.s.Name, in, ctx, interp.Options{}))
			}
			try(in, ctx)
			try(y.Mutate(in), ctx)
			ones := bytes.Repeat([]byte{0xff}, rng.Intn(24))
			try(ones, ctx)
			// All ones from some integer on.
			if len(y.Slots) > 0 {
				s := y.Slots[rng.Intn(len(y.Slots))]
				b := append([]byte{}, in...)
				for j := s.Off; j < s.Off+s.Bytes && j < len(b); j++ {
					b[j] = 0xff
				}
				try(b, ctx)
				if s.Off < len(b) {
					b[s.Off] = 0x80
				}
				try(b, ctx)
			}
			b := make([]byte, rng.Intn(60))
			rng.Read(b)
			try(b, ctx)
		}
	})
	c.r.Count("peak_allocation_bytes", int(peak))
	c.r.Require("measured", 1000)
}

func (c *checker) local() {
	c.r.Rule = "every accepted input is parsed again with its tail changed, cut, extended, in buffers with canaries on both sides and spare capacity, and the object compared after the buffer is overwritten; " + ruleInputs
	c.each(c.r.Pick(8, 30), nil, func(t *target, in []byte, ctx interp.Ctx, y *interp.Synth, res interp.Result, rn *run) {
		if !res.OK || rn.err != nil {
			return
		}
		d := desc(t, in, ctx)
		// The rest is the input's own tail, not a copy, and ends where the input ends.
		if len(rn.rest) > 0 {
			if &rn.rest[len(rn.rest)-1] != &rn.data[len(rn.data)-1] {
				c.r.Violation("C14:rest-identity", "the rest slice is not the tail of the input", d)
			}
			c.r.Count("rest_identity", 1)
		}
		// Overwriting the input afterwards must not change the object.
		before := snapshot(rn.obj)
		full := rn.data[:cap(rn.data)]
		for i := range full {
			full[i] ^= 0x5a
		}
		if after := snapshot(rn.obj); after != before {
			c.r.Violation("C14:alias", "the object changes when the input buffer is overwritten", d+"\nbefore "+before+"\nafter "+after)
		}
		c.r.Count("overwritten", 1)
		for i := range full {
			full[i] ^= 0x5a
		}
		if res.Greedy {
			c.r.Count("greedy", 1)
			return
		}
		used := in[:res.Used]
		for k := 0; k < 3; k++ {
			var b []byte
			switch k {
			case 0:
				b = append([]byte{}, used...)
			case 1:
				tail := make([]byte, y.Rng.Intn(20))
				y.Rng.Read(tail)
				b = append(append([]byte{}, used...), tail...)
			case 2:
				b = append(append([]byte{}, used...), bytes.Repeat([]byte{0xff}, len(in)-res.Used)...)
			}
			r2, rn2 := c.one(t, b, ctx)
			if !r2.OK || r2.Used != res.Used {
				report.Fatal("reference is not local: %s", d)
			}
			if rn2 == nil {
				continue
			}
			c.r.Count("tails_changed", 1)
			if rn2.err != nil || len(rn2.rest) != len(b)-res.Used || snapshot(rn2.obj) != before {
				c.r.Violation("C14:tail", "the result depends on bytes after the consumed part", d+"\nother tail: "+hex.EncodeToString(b))
			}
		}
	})
	c.r.Require("tails_changed", 500)
	c.r.Require("overwritten", 500)
	c.r.Require("rest_identity", 200)
}

func (c *checker) prefixes() {
	c.r.Rule = "every accepted input of a format that is not greedy is tried at every shorter length; method and constructor are compared on every input; " + ruleInputs
	c.each(c.r.Pick(8, 30), nil, func(t *target, in []byte, ctx interp.Ctx, y *interp.Synth, res interp.Result, rn *run) {
		if rn.err == nil && rn.cerr == nil && !reflect.DeepEqual(rn.obj.Interface(), rn.ctor.Interface()) {
			c.r.Violation("C15:objects", "method and constructor build different objects", desc(t, in, ctx))
		}
		if !res.OK || res.Greedy || res.Unmatched {
			return
		}
		// Fewer where each parse takes long.
		step := res.Used/max(4, min(64, 1000000/(res.Steps+1))) + 1
		for k := 0; k < res.Used; k += step {
			r2 := t.env.Parse(t.s.Name, in[:k], ctx, interp.Options{})
			if r2.OK {
				report.Fatal("reference accepts a prefix: %s", desc(t, in[:k], ctx))
			}
			c.one(t, in[:k], ctx)
			c.r.Count("prefixes", 1)
		}
	})
	c.r.Require("prefixes", 2000)
}

func (c *checker) reuse() {
	c.r.Rule = "sequences of 2 to 5 inputs, valid and invalid, parsed into one object, each compared with the reference for a fresh object; earlier objects and what the object held before are compared again after each parse; non-trivial: distinct sequence"
	c.r.Parallel("reuse", len(c.ts), func(i int, rng *rand.Rand) {
		t := c.ts[i]
		for k := 0; k < c.r.Pick(14, 50); k++ {
			y := &interp.Synth{Env: t.env, Rng: rng, Wild: 3}
			obj := t.fresh()
			type kept struct {
				obj  reflect.Value
				snap string
			}
			var old []kept
			history := ""
			var parts []kept // copies of the object, with what it held before it was used again
			for j, n := 0, 2+rng.Intn(4); j < n; j++ {
				ctx := y.Context(t.s)
				in := y.Input(t.s, ctx)
				switch rng.Intn(4) {
				case 0:
					in = y.Mutate(in)
				case 1:
					in = append(in, byte(rng.Intn(256)))
				}
				res := t.env.Parse(t.s.Name, in, ctx, interp.Options{})
				if res.Undecided {
					continue
				}
				history += fmt.Sprintf("\nparse %d: context %s input %s", j, ctx, hex.EncodeToString(in))
				g := newGuard(in)
				var rest []byte
				var err error
				p := c.r.Case(t.String()+history, func() { rest, err = t.parseInto(obj, g.data, ctx) })
				c.r.Eval(1)
				d := t.String() + history + "\nreference: " + describe(res)
				if p != nil {
					c.r.Violation("C28:panic", p.Error(), d)
					break
				}
				if res.OK {
					c.r.Count("accepted", 1)
				} else {
					c.r.Count("rejected", 1)
				}
				for _, o := range parts {
					if snapshot(o.obj) != o.snap {
						c.r.Violation("C28:part", "an array or struct taken out of an object is altered by the next parse into the object", d)
					}
					c.r.Count("parts", 1)
				}
				if err == nil {
					was := reflect.New(obj.Elem().Type())
					was.Elem().Set(obj.Elem())
					parts = append(parts, kept{was, snapshot(was)})
				}
				if res.Unmatched {
					// Outcome taken from a fresh object instead.
					f := t.fresh()
					rest2, err2 := t.parseInto(f, newGuard(in).data, ctx)
					if (err == nil) != (err2 == nil) || len(rest) != len(rest2) {
						c.r.Violation("C28:outcome", "a reused object gives another outcome than a fresh one", d)
					}
					continue
				}
				switch {
				case (err == nil) != res.OK:
					c.r.Violation("C28:outcome", fmt.Sprintf("a reused object gives another outcome: %v", err), d)
				case err == nil:
					if s := compare(t.env, obj, res.Obj, false); s != "" {
						c.r.Violation("C28:value:"+kindOf(s), "a reused object has a wrong value: "+s, d)
					}
					if !bytes.Equal(rest, in[res.Used:]) {
						c.r.Violation("C28:rest", "a reused object gives another rest", d)
					}
					if j > 0 {
						c.r.Count("reused_ok", 1)
					}
				}
				now := snapshot(obj)
				// A second object, kept to the end.
				f := t.fresh()
				if p := c.r.Case(t.String()+history, func() { _, err = t.parseInto(f, newGuard(in).data, ctx) }); p == nil && err == nil {
					old = append(old, kept{f, snapshot(f)})
				}
				// And one of the constructor.
				if p := c.r.Case(t.String()+history, func() { f, err = t.construct(newGuard(in).data, ctx) }); p == nil && err == nil {
					old = append(old, kept{f, snapshot(f)})
				}
				for _, o := range append(old, kept{obj, now}) {
					if snapshot(o.obj) != o.snap {
						c.r.Violation("C28:earlier", "an object obtained earlier is altered by a later parse into another", d)
					}
				}
			}
			c.r.Distinct(fmt.Sprint(t.spec, t.s.Name, history))
			if i < 2 && k == 0 {
				c.r.Sample(t.String() + history)
			}
		}
	})
	c.r.Require("reused_ok", 500)
}

func (c *checker) concurrent() {
	c.r.Rule = "generated parsers, built with the race detector, run from 12 goroutines on shared inputs and context values into separate objects, several rounds; each result must be the one of a run alone; non-trivial: distinct (specification, struct, context, input)"
	type job struct {
		t    *target
		in   []byte
		ctx  interp.Ctx
		want string
	}
	for round := 0; round < c.r.Pick(2, 8); round++ {
		var jobs []job
		var mu sync.Mutex
		c.r.Parallel(fmt.Sprint("jobs", round), len(c.ts), func(i int, rng *rand.Rand) {
			t := c.ts[i]
			c.inputs(t, rng, 2, nil, func(in []byte, ctx interp.Ctx, y *interp.Synth) {
				res, rn := c.one(t, in, ctx)
				if res.Undecided || rn == nil {
					return
				}
				w := "error"
				if rn.err == nil {
					w = fmt.Sprint(len(rn.rest)) + snapshot(rn.obj)
				}
				mu.Lock()
				jobs = append(jobs, job{t, in, ctx, w})
				mu.Unlock()
			})
		})
		var wg sync.WaitGroup
		rng := c.r.Rand("order", round)
		start := make(chan struct{})
		for g := 0; g < 12; g++ {
			wg.Add(1)
			order := rng.Perm(len(jobs))[:len(jobs)/3]
			if g < 4 {
				// Some goroutines in lockstep on the same inputs.
				order = make([]int, len(jobs)/3)
				for i := range order {
					order[i] = i
				}
			}
			go func() {
				defer wg.Done()
				<-start
				for _, k := range order {
					j := jobs[k]
					obj := j.t.fresh()
					var got, csnap string
					var cerr error
					p := c.r.Case(desc(j.t, j.in, j.ctx), func() {
						rest, err := j.t.parseInto(obj, j.in, j.ctx)
						if got = "error"; err == nil {
							got = fmt.Sprint(len(rest)) + snapshot(obj)
						}
						var cobj reflect.Value
						if cobj, cerr = j.t.construct(j.in, j.ctx); cerr == nil {
							csnap = snapshot(cobj)
						}
					})
					c.r.Eval(1)
					c.r.Count("concurrent", 1)
					if p != nil {
						c.r.Violation("C26:panic", p.Error(), desc(j.t, j.in, j.ctx))
						continue
					}
					if got != j.want {
						c.r.Violation("C26:result", "a concurrent parse gives another result", desc(j.t, j.in, j.ctx)+"\n"+got+"\n"+j.want)
					}
					if cerr == nil && !strings.HasSuffix(j.want, csnap) {
						c.r.Violation("C26:ctor", "a concurrent constructor gives another result", desc(j.t, j.in, j.ctx))
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	c.r.Require("concurrent", 1000)
	c.r.Require("concurrent_generations", 100)
}

// Command imon monitors interval arithmetic.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/internal/intervals"

	"github.com/mmcloughlin/trunnel/verif/report"
)

func main() {
	if len(os.Args) < 2 || os.Args[1] != "C20" {
		fmt.Fprintln(os.Stderr, "usage: imon C20")
		os.Exit(2)
	}
	report.Main("C20", "exploration", func(r *report.Run) {
		r.Brief = true
		c20(r)
	})
}

const top = math.MaxUint64

// iv is the model of an interval.
type iv struct{ lo, hi uint64 }

func (i iv) has(x uint64) bool { return i.lo <= x && x <= i.hi }

func (i iv) real() intervals.Interval { return intervals.Range(i.lo, i.hi) }

type list []iv

func (l list) count(x uint64) int {
	n := 0
	for _, i := range l {
		if i.has(x) {
			n++
		}
	}
	return n
}

func (l list) has(x uint64) bool { return l.count(x) > 0 }

func (l list) real() []intervals.Interval {
	out := make([]intervals.Interval, len(l))
	for k, i := range l {
		out[k] = i.real()
	}
	return out
}

func (l list) String() string {
	s := []string{}
	for _, i := range l {
		s = append(s, fmt.Sprintf("[%d,%d]", i.lo, i.hi))
	}
	return "{" + strings.Join(s, " ") + "}"
}

// probes are points between which membership in the lists cannot change.
func probes(ls ...list) []uint64 {
	out := []uint64{0, 1, 2, top, top - 1, 1 << 63, 1<<63 - 1}
	for _, l := range ls {
		for _, i := range l {
			out = append(out, i.lo, i.lo-1, i.lo+1, i.hi, i.hi+1, i.hi-1, i.lo/2+i.hi/2)
		}
	}
	return out
}

// read parses the text form back.
func read(s string) (list, error) {
	l := list{}
	if s == "" {
		return l, nil
	}
	for _, p := range strings.Split(s, ",") {
		ends := strings.Split(p, "-")
		lo, err := strconv.ParseUint(ends[0], 10, 64)
		if err != nil {
			return nil, err
		}
		hi := lo
		switch len(ends) {
		case 1:
		case 2:
			if hi, err = strconv.ParseUint(ends[1], 10, 64); err != nil {
				return nil, err
			}
			if hi <= lo {
				return nil, fmt.Errorf("range %s", p)
			}
		default:
			return nil, fmt.Errorf("text %s", p)
		}
		l = append(l, iv{lo, hi})
	}
	return l, nil
}

type monitor struct{ *report.Run }

// same compares a set with a membership function at the probes, through both
// Contains and the text form. It returns what the text says.
func (m monitor) same(key, d string, s *intervals.Set, want func(uint64) bool, ps []uint64) list {
	text := s.String()
	l, err := read(text)
	if err != nil {
		m.Violation("C20:text", "text form "+text+": "+err.Error(), d)
		return nil
	}
	for k := 1; k < len(l); k++ {
		if l[k].lo <= l[k-1].hi {
			m.Violation("C20:"+key+":order", "text form is not in order or overlaps: "+text, d)
		}
	}
	for _, x := range append(ps, probes(l)...) {
		w := want(x)
		if s.Contains(x) != w {
			m.Violation("C20:"+key, fmt.Sprintf("Contains(%d) is %v", x, !w), d+"\nset "+text)
			return nil
		}
		if l.has(x) != w {
			m.Violation("C20:"+key+":text", fmt.Sprintf("the text form is wrong about %d", x), d+"\nset "+text)
			return nil
		}
	}
	return l
}

func (m monitor) guard(d string, f func()) {
	if p := m.Case(d, f); p != nil {
		if p.Value == "too many draws" {
			m.Violation("C20:random-runaway", "random choice does not end", d)
			return
		}
		m.Violation("C20:panic", p.Error(), d+"\n"+p.Stack)
	}
}

// basics checks one list.
func (m monitor) basics(l list) {
	d := l.String()
	m.guard(d, func() {
		m.Eval(1)
		ps := probes(l)
		in := l.real()
		keep := append([]intervals.Interval{}, in...)
		over := false
		for _, x := range ps {
			over = over || l.count(x) > 1
		}
		if over {
			m.Count("overlapping", 1)
		}
		if intervals.Overlaps(in) != over {
			m.Violation("C20:overlaps", fmt.Sprintf("Overlaps is %v", !over), d)
		}
		simple := intervals.Simplify(in)
		ms := list{}
		for _, i := range simple {
			b, err := read(i.String())
			if err != nil || len(b) != 1 {
				m.Violation("C20:text", "text form of an interval: "+i.String(), d)
				return
			}
			ms = append(ms, b[0])
		}
		for _, x := range append(ps, probes(ms)...) {
			if n := ms.count(x); (n > 0) != l.has(x) || n > 1 {
				m.Violation("C20:simplify", fmt.Sprintf("%d is in %d intervals of %v", x, n, ms), d)
				return
			}
		}
		if len(simple) > len(l) {
			m.Violation("C20:simplify-size", "more intervals than before", d)
		}
		s := intervals.NewSet(in...)
		m.same("union", d, s, l.has, ps)
		for i := range in {
			if in[i] != keep[i] {
				m.Violation("C20:input", "the intervals passed in were changed", d)
			}
		}
		if s.Empty() != (len(l) == 0) {
			m.Violation("C20:empty", fmt.Sprintf("Empty is %v", s.Empty()), d)
		}
		// What the caller does with its own list does not matter afterwards.
		for i := range in {
			in[i] = intervals.Single(12345)
		}
		for i := range simple {
			simple[i] = intervals.Single(54321)
		}
		m.same("aliased", d+" after the list was overwritten", s, l.has, ps)
	})
}

// subtract checks a - b, then (a - b) - a and so on.
func (m monitor) subtract(a, b list) {
	d := a.String() + " - " + b.String()
	m.guard(d, func() {
		m.Eval(1)
		ps := probes(a, b)
		s, t := intervals.NewSet(a.real()...), intervals.NewSet(b.real()...)
		before := t.String()
		s.Subtract(t)
		m.same("subtract", d, s, func(x uint64) bool { return a.has(x) && !b.has(x) }, ps)
		if t.String() != before {
			m.Violation("C20:subtract-other", "the set subtracted was changed", d)
		}
		again := s.String()
		s.Subtract(t)
		if s.String() != again {
			m.Violation("C20:subtract-again", "subtracting again changes the set", d+"\n"+again+"\n"+s.String())
		}
		// From everything and from itself.
		all := intervals.NewSet(intervals.OpenLeft(top))
		all.Subtract(t)
		m.same("complement", "everything - "+b.String(), all, func(x uint64) bool { return !b.has(x) }, ps)
		self := intervals.NewSet(a.real()...)
		self.Subtract(intervals.NewSet(a.real()...))
		m.same("self", a.String()+" - itself", self, func(uint64) bool { return false }, ps)
		if !self.Empty() {
			m.Violation("C20:empty", "a set minus itself is not empty", a.String())
		}
		self = intervals.NewSet(a.real()...)
		self.Subtract(self)
		m.same("self", a.String()+" - the same object", self, func(uint64) bool { return false }, ps)
		// A copy is not affected.
		first := intervals.NewSet(a.real()...)
		second := *first
		first.Subtract(t)
		m.same("copy", "copy of "+a.String()+" made before subtracting "+b.String(), &second, a.has, ps)
	})
}

// counting ends a choice that takes too many draws.
type counting struct {
	random.Interface
	n int
}

const maxDraws = 100000

func (c *counting) tick() {
	if c.n++; c.n > maxDraws {
		panic("too many draws")
	}
}
func (c *counting) Int63() int64   { c.tick(); return c.Interface.Int63() }
func (c *counting) Uint64() uint64 { c.tick(); return c.Interface.Uint64() }
func (c *counting) Uint32() uint32 { c.tick(); return c.Interface.Uint32() }
func (c *counting) Int63n(n int64) int64 {
	c.tick()
	return c.Interface.Int63n(n)
}
func (c *counting) Intn(n int) int {
	c.tick()
	return c.Interface.Intn(n)
}

// choose checks random choice from a set given by its own text form, as well
// as by the list it was made from.
func (m monitor) choose(rng *rand.Rand, l list, draws int) {
	d := "random choice from " + l.String()
	m.guard(d, func() {
		m.Eval(1)
		s := intervals.NewSet(l.real()...)
		var size uint64
		flat, _ := read(s.String())
		for _, i := range flat {
			size += i.hi - i.lo + 1
		}
		src := &counting{Interface: random.NewWithSeed(rng.Int63())}
		seen := map[uint64]bool{}
		var or, and uint64 = 0, top
		lower, upper := 0, 0
		for k := 0; k < draws; k++ {
			src.n = 0
			x := s.RandomWithGenerator(src)
			m.Count("draws", 1)
			if !l.has(x) {
				m.Violation("C20:random", fmt.Sprintf("chose %d", x), d)
				return
			}
			if size != 0 && size <= 24 {
				seen[x] = true
			}
			or |= x - flat[0].lo
			and &= x - flat[0].lo
			if x < flat[0].lo+(flat[len(flat)-1].hi-flat[0].lo)/2 {
				lower++
			} else {
				upper++
			}
		}
		if size != 0 && size <= 24 && uint64(len(seen)) != size && draws >= 50*int(size) {
			m.Violation("C20:random-never", fmt.Sprintf("only %d of %d members were ever chosen in %d draws", len(seen), size, draws), d)
		}
		if size != 0 && size <= 24 {
			m.Count("small_choices", 1)
		}
		// One long interval: every bit below its size has to vary.
		if len(flat) == 1 && size != 0 && size&(size-1) == 0 && size > 24 && draws >= 200 {
			m.Count("bit_choices", 1)
			if or != size-1 || and != 0 {
				m.Violation("C20:random-bits", fmt.Sprintf("bits always set %x, ever set %x", and, or), d)
			}
		}
		if len(flat) == 1 && (size == 0 || size > 24) && draws >= 200 && (lower == 0 || upper == 0) {
			m.Violation("C20:random-half", "one half is never chosen", d)
		}
	})
}

// onesided is a source whose bits are nearly all the same.
type onesided struct {
	*rand.Rand
	ones bool
}

func (s onesided) Uint64() uint64 {
	x := s.Rand.Uint64()
	for k := 0; k < 5; k++ {
		x &= s.Rand.Uint64()
	}
	if s.ones {
		return ^x
	}
	return x
}
func (s onesided) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s onesided) Seed(int64)   {}

// ends checks that both ends of an interval can be chosen; its size is a power
// of two and the source nearly always has the bits for one of them.
func (m monitor) ends(rng *rand.Rand, i iv) {
	d := fmt.Sprintf("random choice from [%d,%d] with one-sided bits", i.lo, i.hi)
	m.guard(d, func() {
		m.Eval(1)
		s := intervals.NewSet(i.real())
		for _, ones := range []bool{false, true} {
			src := &counting{Interface: rand.New(onesided{rng, ones})}
			first, last := false, false
			for k := 0; k < 6000 && !(first && !ones || last && ones); k++ {
				src.n = 0
				x := s.RandomWithGenerator(src)
				if !i.has(x) {
					m.Violation("C20:random", fmt.Sprintf("chose %d", x), d)
					return
				}
				first, last = first || x == i.lo, last || x == i.hi
			}
			if !ones && !first || ones && !last {
				m.Violation("C20:random-end", "an end of the interval is never chosen", d)
				return
			}
			m.Count("ends_chosen", 1)
		}
	})
}

func lists(universe []iv, n int) []list {
	out := []list{{}}
	last := []list{{}}
	for k := 0; k < n; k++ {
		var next []list
		for _, l := range last {
			for _, i := range universe {
				next = append(next, append(append(list{}, l...), i))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func c20(r *report.Run) {
	r.Rule = "all lists of up to 3 intervals over 6 neighbouring values at the bottom, in the middle and at the top of the 64-bit range, all differences of two lists of up to 2, random lists of up to 10 intervals with ends at word sizes and edges, some lists of hundreds; " +
		"membership is compared at every point where it can change; non-trivial: distinct list or pair"
	m := monitor{r}
	bases := []uint64{0, 1<<63 - 3, top - 5}
	for _, base := range bases {
		var u []iv
		for a := uint64(0); a < 6; a++ {
			for b := a; b < 6; b++ {
				u = append(u, iv{base + a, base + b})
			}
		}
		base := base
		ls := lists(u, 3)
		r.Parallel(fmt.Sprint("basics", base), len(ls), func(i int, rng *rand.Rand) {
			m.basics(ls[i])
			r.Distinct(ls[i].String())
			if len(ls[i]) == 2 {
				m.choose(rng, ls[i], 320)
			}
		})
		two := lists(u, 2)
		r.Parallel(fmt.Sprint("differences", base), len(two), func(i int, rng *rand.Rand) {
			for j := range two {
				if r.Thorough() || (i+j)%4 == 0 || len(two[i]) < 2 || len(two[j]) < 2 {
					m.subtract(two[i], two[j])
					r.Distinct(two[i].String() + two[j].String())
				}
			}
			r.Count("differences", len(two))
		})
	}
	edge := func(rng *rand.Rand) uint64 {
		switch rng.Intn(5) {
		case 0:
			return rng.Uint64()
		case 1:
			return uint64(rng.Intn(300))
		case 2:
			return top - uint64(rng.Intn(300))
		}
		return uint64(1)<<uint(rng.Intn(64)) + uint64(rng.Intn(5)) - 2
	}
	some := func(rng *rand.Rand, n int) list {
		l := list{}
		for k := 0; k < n; k++ {
			a, b := edge(rng), edge(rng)
			switch rng.Intn(4) {
			case 0:
				b = a
			case 1:
				if len(l) > 0 {
					a = l[rng.Intn(len(l))].hi + uint64(rng.Intn(3)) - 1
				}
			}
			if rng.Intn(3) == 0 && a < top-40 {
				b = a + uint64(rng.Intn(40))
			}
			if a > b {
				a, b = b, a
			}
			l = append(l, iv{a, b})
		}
		return l
	}
	r.Parallel("random", r.Pick(30000, 300000), func(i int, rng *rand.Rand) {
		a, b := some(rng, rng.Intn(10)), some(rng, rng.Intn(8))
		r.Distinct(a.String() + b.String())
		m.basics(a)
		m.subtract(a, b)
		if len(a) > 0 {
			m.choose(rng, a, 10)
		}
		if i < 3 {
			r.Sample(a.String() + " and " + b.String())
		}
	})
	// Hundreds of intervals, many of them around the same value.
	r.Parallel("many", r.Pick(120, 1000), func(i int, rng *rand.Rand) {
		a, b := some(rng, 100+rng.Intn(500)), some(rng, rng.Intn(300))
		if i%4 == 0 {
			// Nested in each other.
			a = nil
			x := iv{edge(rng) / 4, top - edge(rng)/4}
			for k, n := 0, 120+rng.Intn(500); k < n && x.lo+3 < x.hi; k++ {
				a = append(a, x)
				x = iv{x.lo + uint64(rng.Intn(2)), x.hi - uint64(rng.Intn(3))}
			}
			rng.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
		}
		r.Distinct(a.String())
		m.basics(a)
		m.subtract(a, b)
		m.choose(rng, a, 10)
		r.Count("many", 1)
	})
	// Choice from long intervals, word-sized ones above all.
	r.Parallel("long", r.Pick(600, 6000), func(i int, rng *rand.Rand) {
		n := uint(i % 65)
		var size uint64 = 0
		if n < 64 {
			size = 1 << n
		}
		var l list
		switch {
		case n == 64:
			l = list{{0, top}}
		default:
			lo := rng.Uint64()
			if size > 1 {
				lo %= top - size + 2
			}
			switch rng.Intn(4) {
			case 0:
				lo = 0
			case 1:
				lo = top - size + 1
			}
			l = list{{lo, lo + size - 1}}
			if rng.Intn(3) == 0 && l[0].hi < top {
				l[0].hi++ // just above a power of two
			}
		}
		m.choose(rng, l, 1300)
		r.Count("long_choices", 1)
		r.Distinct("choose" + l.String())
	})
	r.Parallel("ends", r.Pick(60, 600), func(i int, rng *rand.Rand) {
		size := uint64(1) << uint(12+i%40)
		lo := rng.Uint64() % (top - size + 2)
		m.ends(rng, iv{lo, lo + size - 1})
	})
	// Every member of sets of some hundred.
	r.Parallel("medium", r.Pick(60, 400), func(i int, rng *rand.Rand) {
		var l list
		at := edge(rng) / 2
		want := uint64(0)
		for k, n := 0, 1+rng.Intn(12); k < n; k++ {
			size := uint64(1 + rng.Intn(60))
			l = append(l, iv{at, at + size - 1})
			want += size
			at += size + 1 + uint64(rng.Intn(1000))
		}
		d := "every member of " + l.String()
		m.guard(d, func() {
			r.Eval(1)
			s := intervals.NewSet(l.real()...)
			src := random.NewWithSeed(rng.Int63())
			seen := map[uint64]bool{}
			for k := uint64(0); k < 50*want; k++ {
				x := s.RandomWithGenerator(src)
				if !l.has(x) {
					r.Violation("C20:random", fmt.Sprintf("chose %d", x), d)
					return
				}
				seen[x] = true
			}
			if uint64(len(seen)) != want {
				r.Violation("C20:random-never", fmt.Sprintf("only %d of %d members were ever chosen", len(seen), want), d)
			}
			if x := s.Random(); !l.has(x) {
				r.Violation("C20:random", fmt.Sprintf("Random chose %d", x), d)
			}
			r.Count("medium_choices", 1)
		})
	})
	// Simple facts.
	r.Parallel("facts", r.Pick(20000, 100000), func(i int, rng *rand.Rand) {
		a, b := edge(rng), edge(rng)
		if a > b {
			a, b = b, a
		}
		x := iv{a, b}
		d := fmt.Sprintf("[%d,%d]", a, b)
		m.guard(d, func() {
			r.Eval(1)
			fact := func(key string, ok bool) {
				if !ok {
					r.Violation("C20:"+key, key+" is wrong", d)
				}
			}
			for _, p := range probes(list{x}) {
				fact("contains", intervals.Range(a, b).Contains(p) == x.has(p))
				fact("open-left", intervals.OpenLeft(a).Contains(p) == (p <= a))
				fact("open-right", intervals.OpenRight(a).Contains(p) == (p >= a))
				fact("single", intervals.Single(a).Contains(p) == (p == a))
			}
			fact("size", b-a == top || intervals.Range(a, b).Size() == b-a+1)
			fact("is-single", intervals.Range(a, b).Single() == (a == b))
			want := fmt.Sprint(a)
			if a != b {
				want += "-" + fmt.Sprint(b)
			}
			fact("string", intervals.Range(a, b).String() == want)
			fact("no-bits", intervals.Bits(0).Contains(0) && !intervals.Bits(0).Contains(b|1))
			n := uint(1 + rng.Intn(64))
			max := uint64(top) >> (64 - n)
			for _, p := range append(probes(list{x}), max, max+1, max-1) {
				in := p <= max
				fact("bits", intervals.Bits(n).Contains(p) == in)
				fact("int-type", intervals.IntType(n).Contains(p) == in)
			}
		})
	})
	r.Require("draws", 100000)
	r.Require("small_choices", 500)
	r.Require("bit_choices", 100)
	r.Require("ends_chosen", 100)
	r.Require("medium_choices", 50)
	r.Require("overlapping", 1000)
	r.Require("many", 100)
}

// Command pmon monitors the parser (properties C01 to C06).
package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/verif/bridge"
	"github.com/mmcloughlin/trunnel/verif/refparse"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
)

func main() {
	if len(os.Args) != 2 {
		report.Fatal("usage: pmon ID")
	}
	id := os.Args[1]
	body, ok := map[string]func(*report.Run){
		"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06,
	}[id]
	if !ok {
		report.Fatal("unknown property %s", id)
	}
	level := "exploration"
	if id == "C04" {
		level = "fault_enumeration"
	}
	report.Main(id, level, func(r *report.Run) {
		r.Brief = true
		body(r)
	})
}

// outcome is what the parser did with a text.
type outcome struct {
	tree  *ast.File
	err   error
	panic *report.Panicked
	dump  string // canonical form of the tree
	odd   string // why the result is not a proper one
}

func observe(r *report.Run, label string, fn func() (*ast.File, error)) outcome {
	var o outcome
	o.panic = r.Case(label, func() { o.tree, o.err = fn() })
	switch {
	case o.panic != nil:
		o.odd = "panicked: " + fmt.Sprint(o.panic.Value)
	case o.err == nil && o.tree == nil:
		o.odd = "returned neither a tree nor an error"
	case o.err != nil && o.tree != nil:
		o.odd = "returned both a tree and an error"
	case o.tree != nil:
		m, err := bridge.File(o.tree)
		if err != nil {
			o.odd = err.Error()
			break
		}
		o.dump = m.Dump()
	}
	return o
}

func str(r *report.Run, s string) outcome {
	return observe(r, "parse.String of:\n"+s, func() (*ast.File, error) { return parse.String(s) })
}

// check compares the parser with the reference on s. It reports acceptance
// differences, or tree differences, according to what.
func check(r *report.Run, what, s string) (accepted bool) {
	want, rerr := refparse.Parse(s)
	o := str(r, s)
	r.Eval(1)
	if o.odd != "" {
		r.Violation(what+":improper", o.odd, s)
		return false
	}
	switch {
	case rerr == nil && o.err != nil:
		r.Count("accept_expected", 1)
		if what == "C01" || what == "C02" {
			r.Violation(what+":rejects", "a text of the language is rejected: "+o.err.Error(), s)
		}
		return false
	case rerr != nil && o.err == nil:
		if what == "C01" {
			r.Violation(what+":accepts", "a text outside the language is accepted", s+"\n\n--- tree\n"+o.dump)
		}
		return false
	case rerr != nil:
		r.Count("rejected", 1)
		return false
	}
	r.Count("accepted", 1)
	if what == "C02" {
		if w := want.Dump(); w != o.dump {
			r.Violation("C02:tree:"+diffKey(w, o.dump), "tree differs from the text", s+"\n\n--- want\n"+w+"\n--- got\n"+o.dump)
		}
	}
	return true
}

// diffKey classifies a difference by the first words of the first differing line.
func diffKey(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return strings.Join(append(strings.Fields(x[i]), "-")[:1], "_")
		}
	}
	return "extra"
}

// corpus returns the trunnel files of the repository, as realistic material.
func corpus() []string {
	var out []string
	filepath.Walk("/repo", func(p string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".trunnel") {
			if b, err := os.ReadFile(p); err == nil && len(b) < 1<<16 {
				out = append(out, string(b))
			}
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func small(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// C01.

// frames are contexts in which short token sequences are enumerated.
var frames = []struct{ pre, post string }{
	{"", ""},
	{"const A ", ""},
	{"context c ", ""},
	{"context c {", "}"},
	{"struct a ", ""},
	{"struct a {", "}"},
	{"struct a {", ";}"},
	{"struct a { u8 x", ";}"},
	{"struct a { u8 x IN ", ";}"},
	{"struct a { u8 x IN [", "];}"},
	{"struct a { u8 x[", "];}"},
	{"struct a { struct b ", ";}"},
	{"struct a { union u[t] ", ";}"},
	{"struct a { union u[", "] { 1: ; };}"},
	{"struct a { union u[t] {", "};}"},
	{"struct a { union u[t] { 1:", "};}"},
	{"struct a { union u[t] { 1: u8 x;", "};}"},
	{"struct a { union u[t] { ", ": u8 x; };}"},
	{"struct a { union u[t] with ", " { 1: ; };}"},
	{"extern struct a ", ""},
	{"trunnel ", ""},
}

var singles = []string{
	"const A = 0x1F;\nconst B_2 = 017; context c { u8 x; } trunnel t a, b;",
	"extern struct e with context c;\nstruct s with context c { u16 n IN [1, A..3]; u8 f[4]; char g[c.x]; @ptr p; nulterm z; struct e h; struct i { eos; } j; u32 r[..-2]; u64 k[]; };",
	"struct s { union u[n] with length c.x { 1..2, 5: u8 a; ...; 3: fail; 4: ignore; 6: ; default: u8 b[]; }; }",
}

var enumTokens = []string{
	"struct", "union", "u8", "u16", "eos", "with", "default", "fail", "IN", "char", "context", "const", "extern", "nulterm",
	"ignore", "length", "trunnel", "@ptr", "{", "}", "[", "]", ";", ":", ",", "=", "..", "...", "..-", ".", "0", "1", "08", "0x1f",
	"9223372036854775808", "A", "a", "b.c", "// x\n", "/* y */",
}

func c01(r *report.Run) {
	r.Rule = "texts: random grammatical files in random layouts, 1-2 token/gap/byte mutations of them and of the repository's own .trunnel files, " +
		"exhaustive short token sequences inside fixed frames, and random bytes; the reference parser decides membership. " +
		"Non-trivial: distinct text that is accepted, or rejected although it is a mutation of an accepted one"
	r.Require("accepted", 500)
	r.Require("rejected", 500)
	r.Assume("the reference parser states the grammar of parse/trunnel.pigeon as of the pinned commit")
	files := corpus()
	r.Count("corpus_files", len(files))
	r.Parallel("valid", r.Pick(4000, 60000), func(i int, rng *rand.Rand) {
		f := specgen.Syntax(rng, i%2 == 0)
		toks := specgen.Tokens(f, rng)
		s := specgen.NewLayout(rng).Render(toks)
		if check(r, "C01", s) {
			r.Distinct(s)
			if i < 2 {
				r.Sample("accepted: " + s)
			}
		}
		for k := 0; k < 6; k++ {
			m := specgen.Mutate(rng, toks)
			check(r, "C01", m)
			r.Distinct(m)
			if i == 0 && k == 0 {
				r.Sample("mutated: " + m)
			}
		}
	})
	r.Parallel("corpus", len(files)*r.Pick(15, 150), func(i int, rng *rand.Rand) {
		s := files[i%len(files)]
		if i < len(files) {
			check(r, "C01", s)
		}
		m := byteMutate(rng, s)
		check(r, "C01", m)
		r.Distinct(m)
	})
	// Exhaustive short sequences.
	depth := r.Pick(2, 3)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(enumTokens) + 1
	}
	r.Parallel("enum", len(frames)*n, func(i int, rng *rand.Rand) {
		fr := frames[i%len(frames)]
		k := i / len(frames)
		var words []string
		for j := 0; j < depth; j++ {
			if t := k % (len(enumTokens) + 1); t > 0 {
				words = append(words, enumTokens[t-1])
			}
			k /= len(enumTokens) + 1
		}
		seps := []string{" "}
		if depth == 2 || i%5 == 0 {
			seps = []string{" ", ""}
		}
		for _, sep := range seps {
			s := fr.pre + strings.Join(words, sep) + fr.post
			check(r, "C01", s)
			r.Distinct(s)
			if i == 12345 {
				r.Sample("enumerated: " + s)
			}
		}
	})
	r.Parallel("garbage", r.Pick(2000, 40000), func(i int, rng *rand.Rand) {
		check(r, "C01", garbage(rng))
	})
	// Every character of a list at every place of small texts.
	var chars []string
	for c := 0; c < 256; c++ {
		chars = append(chars, string([]byte{byte(c)}), string(rune(c)))
	}
	chars = append(chars, "\ufeff", "\u2028", "\u2029", "\u200b", "\u00a0", "\u3000", "\u212a", "\u017f", "\uff10", "\u0660", "\U0001d7d8", "\uff1b", "\u037e",
		"\r\n", "\\\n", "//", "/*", "*/", "/**/", "/*/", "/***/", "//\r", "\xef\xbb\xbf\xef\xbb\xbf", "\xed\xa0\x80", "\x00\x00", "\x1a", "0", "00", "0x", "_", "..", ";;")
	var texts []string
	for _, t := range singles {
		for k := 0; k <= len(t); k++ {
			texts = append(texts, t[:k]+"\x00|"+t[k:])
		}
	}
	r.Parallel("chars", len(texts), func(i int, rng *rand.Rand) {
		pre, post, _ := strings.Cut(texts[i], "\x00|")
		for j, c := range chars {
			if r.Thorough() || (i+j)%3 == 0 || i == 0 || post == "" {
				check(r, "C01", pre+c+post)
				r.Count("single_characters", 1)
			}
		}
	})
	r.Require("single_characters", 5000)
}

func garbage(rng *rand.Rand) string {
	var b strings.Builder
	a := specgen.Alphabet()
	for i, n := 0, rng.Intn(40); i < n; i++ {
		switch rng.Intn(6) {
		case 0:
			b.WriteByte(byte(rng.Intn(256)))
		case 1:
			b.WriteRune(rune(rng.Intn(0x11000)))
		default:
			b.WriteString(a[rng.Intn(len(a))])
			if rng.Intn(2) == 0 {
				b.WriteByte(' ')
			}
		}
	}
	return b.String()
}

func byteMutate(rng *rand.Rand, s string) string {
	b := []byte(s)
	for k, n := 0, 1+rng.Intn(2); k < n && len(b) > 0; k++ {
		i := rng.Intn(len(b))
		switch rng.Intn(6) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(rng.Intn(256))
		case 2:
			j := i + rng.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 3:
			j := i + rng.Intn(min(20, len(b)-i))
			b = append(b[:j:j], b[i:]...)
		case 4:
			b[i] = "{}[];:,.=0xAa u8/*\n"[rng.Intn(19)]
		case 5:
			b = b[:i]
		}
	}
	return string(b)
}

// C02.

func c02(r *report.Run) {
	r.Rule = "random grammatical files (any mixture of declarations, members, inline structs up to depth 3, keyword-like names) in random layouts; " +
		"the tree must equal the reference parser's and, for unambiguous names, the generating model. Non-trivial: distinct accepted file with at least one declaration"
	r.Require("accepted", 500)
	files := corpus()
	for _, s := range files {
		if check(r, "C02", s) {
			r.Distinct(s)
			r.Count("corpus_files_accepted", 1)
		}
	}
	var mu sync.Mutex
	feats := map[string]int{}
	r.Parallel("spec", r.Pick(25000, 150000), func(i int, rng *rand.Rand) {
		plain := i%3 != 0
		f := specgen.Syntax(rng, plain)
		s := specgen.Text(f, rng)
		if !check(r, "C02", s) {
			return
		}
		if plain {
			if o := str(r, s); o.odd == "" && o.err == nil && o.dump != f.Dump() {
				r.Violation("C02:model:"+diffKey(f.Dump(), o.dump), "tree differs from the file that was written",
					s+"\n\n--- want\n"+f.Dump()+"\n--- got\n"+o.dump)
			}
			r.Count("compared_with_model", 1)
		}
		if len(f.Structs)+len(f.Consts)+len(f.Contexts)+len(f.Pragmas) > 0 {
			r.Distinct(s)
		}
		if i < 3 {
			r.Sample(s)
		}
		mu.Lock()
		for _, k := range specgen.Features(f) {
			feats[k]++
		}
		mu.Unlock()
		// Mutations that are still in the language exercise odd corners.
		for k := 0; k < 2; k++ {
			check(r, "C02", specgen.Mutate(rng, specgen.Tokens(f, rng)))
		}
	})
	r.Count("features_seen", len(feats))
	// Whether inline structs survive any amount of backtracking.
	for d := 1; d <= r.Pick(5, 6); d++ {
		for _, tail := range []string{"x;", "x[3];", "x[n];", "x[..-2];", "x[];"} {
			s := "u8 y;"
			for k := 0; k < d; k++ {
				s = fmt.Sprintf("u8 p%d; struct s%d { %s } %s", k, k, s, tail)
			}
			check(r, "C02", "struct top {"+s+"}")
		}
	}
}

// C03.

func c03(r *report.Run) {
	r.Rule = "random grammatical file rendered once minimally and in several random layouts with other spacing, comments, optional semicolons and integer bases; " +
		"all renderings must give the tree of the minimal one. Repository files re-spaced between the places where space already is. Non-trivial: distinct re-rendering that differs from the minimal text"
	r.Require("pairs", 2000)
	r.Parallel("relayout", r.Pick(6000, 120000), func(i int, rng *rand.Rand) {
		f := specgen.Syntax(rng, true)
		base := specgen.Minimal(specgen.Tokens(f, nil))
		o := str(r, base)
		if o.odd != "" || o.err != nil {
			// Whether this text should be accepted is decided elsewhere, but a
			// rendering with space in it must do no better.
			r.Count("base_rejected", 1)
		}
		for k := 0; k < 5; k++ {
			s := specgen.Text(f, rng)
			p := str(r, s)
			r.Eval(1)
			r.Count("pairs", 1)
			if s != base {
				r.Distinct(s)
			}
			if i == 0 && k < 3 {
				r.Sample(small(base) + "\n=>\n" + small(s))
			}
			if why := differ(o, p); why != "" {
				r.Violation("C03:"+why, "re-layout changes the result: "+why, base+"\n\n--- against\n"+s+"\n\n--- trees\n"+o.dump+"---\n"+p.dump+fmt.Sprint(o.err, p.err))
			}
		}
	})
	files := corpus()
	r.Parallel("respace", len(files)*r.Pick(10, 100), func(i int, rng *rand.Rand) {
		src := files[i%len(files)]
		o := str(r, src)
		s := respace(rng, src)
		p := str(r, s)
		r.Eval(1)
		r.Count("respaced", 1)
		r.Distinct(s)
		if why := differ(o, p); why != "" {
			r.Violation("C03:respace:"+why, "re-spacing a repository file changes the result: "+why, src+"\n\n--- against\n"+s)
		}
	})
	// Notation of integers, over the whole range.
	r.Parallel("notation", r.Pick(4000, 60000), func(i int, rng *rand.Rand) {
		v := int64(rng.Uint64()>>1) >> uint(rng.Intn(63))
		if i < 4 {
			v = []int64{0, 1, 1<<63 - 1, 1 << 62}[i]
		}
		tmpl := []string{"const A = %s;", "struct a { u8 x[%s]; }", "struct a { u64 x IN [%s..A]; }", "struct a { u8 t; union u[t] { %s: ; }; }", "struct a { u8 x[..-%s]; }"}[rng.Intn(5)]
		o := str(r, fmt.Sprintf(tmpl, fmt.Sprint(v)))
		s := fmt.Sprintf(tmpl, specgen.Notation(rng, v))
		p := str(r, s)
		r.Eval(1)
		r.Count("notations", 1)
		r.Distinct(s)
		if why := differ(o, p); why != "" {
			r.Violation("C03:notation:"+why, "notation of an integer changes the result: "+why, s)
		}
	})
}

func differ(o, p outcome) string {
	switch {
	case o.odd != "" || p.odd != "":
		return "improper"
	case (o.err == nil) != (p.err == nil):
		return "acceptance"
	case o.dump != p.dump:
		return "tree"
	}
	return ""
}

// respace replaces runs of white space outside comments by other skippable text.
func respace(rng *rand.Rand, s string) string {
	var b strings.Builder
	fill := []string{" ", "\n", "\t", "\r\n", "/* */", "//\n", " /***/ ", "/*//*/", "// /*\n"}
	for i := 0; i < len(s); {
		switch {
		case strings.HasPrefix(s[i:], "//"):
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				j = len(s) - i
			}
			b.WriteString(s[i : i+j])
			i += j
			if i < len(s) {
				b.WriteByte('\n')
				i++
			}
		case strings.HasPrefix(s[i:], "/*") && strings.Contains(s[i+2:], "*/"):
			j := strings.Index(s[i+2:], "*/") + 4
			b.WriteString(s[i : i+j])
			i += j
		case strings.IndexByte(" \t\r\n", s[i]) >= 0:
			for i < len(s) && strings.IndexByte(" \t\r\n", s[i]) >= 0 {
				i++
			}
			for k, n := 0, 1+rng.Intn(3); k < n; k++ {
				b.WriteString(fill[rng.Intn(len(fill))])
			}
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String()
}

// C04.

var errInjected = errors.New("injected read failure")

// chunked delivers s in random pieces and fails at a given offset.
type chunked struct {
	s      string
	pos    int
	fail   int // offset at which to fail, -1 never
	err    error
	mode   int // 0 one byte, 1 random, 2 all, 3 data together with the error or EOF, 4 empty reads in between
	rng    *rand.Rand
	failed bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(c.s)
	if c.fail >= 0 {
		end = c.fail
	}
	if c.pos >= end {
		if c.fail >= 0 {
			c.failed = true
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := len(p)
	switch c.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + c.rng.Intn(17)
	case 4:
		if c.rng.Intn(3) == 0 {
			return 0, nil
		}
		n = 1 + c.rng.Intn(5)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > end-c.pos {
		n = end - c.pos
	}
	copy(p, c.s[c.pos:c.pos+n])
	c.pos += n
	if c.mode == 3 && c.pos == end {
		if c.fail >= 0 {
			c.failed = true
			return n, c.err
		}
		return n, io.EOF
	}
	return n, nil
}

func c04(r *report.Run) {
	r.Rule = "contents: grammatical files, mutations and repository files. Each is parsed as a string, through readers with five chunking behaviours, from a file, and in lists with missing, unreadable and invalid files; " +
		"for each content a read error is injected at every offset (every 1..n-th for long ones). Non-trivial: distinct content, and every (content, fault offset) pair"
	r.Require("agreements", 500)
	r.Require("faults", 2000)
	r.Require("lists", 200)
	r.Require("bad_lists", 100)
	r.Require("large", 10)
	dir, err := os.MkdirTemp("", "verif-c04-")
	if err != nil {
		report.Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	files := corpus()
	content := func(i int, rng *rand.Rand) string {
		switch {
		case i < len(files):
			return files[i]
		case i%4 == 0:
			return specgen.Mutate(rng, specgen.Tokens(specgen.Syntax(rng, false), rng))
		case i%16 == 1:
			return garbage(rng)
		case i%50 == 2:
			// Larger than any internal buffer.
			return strings.Repeat("// padding\n", 5000) + specgen.Text(specgen.Syntax(rng, true), rng) + strings.Repeat("\n/* tail */", 3000)
		}
		return specgen.Text(specgen.Syntax(rng, true), rng)
	}
	r.Parallel("agree", r.Pick(2500, 40000), func(i int, rng *rand.Rand) {
		s := content(i, rng)
		o := str(r, s)
		if o.odd != "" {
			r.Violation("C04:improper", o.odd, s)
			return
		}
		r.Distinct(s)
		if i >= len(files) && i < len(files)+2 {
			r.Sample(small(s))
		}
		for mode := 0; mode < 5; mode++ {
			mode := mode
			p := observe(r, fmt.Sprintf("parse.Reader mode %d of:\n%s", mode, s), func() (*ast.File, error) {
				return parse.Reader("string", &chunked{s: s, fail: -1, mode: mode, rng: rng})
			})
			r.Eval(1)
			r.Count("agreements", 1)
			same(r, "C04:chunking", o, p, true, fmt.Sprintf("mode %d\n%s", mode, s))
		}
		path := filepath.Join(dir, fmt.Sprintf("f%d.trunnel", i))
		if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
			report.Fatal("%v", err)
		}
		p := observe(r, "parse.File of:\n"+s, func() (*ast.File, error) { return parse.File(path) })
		same(r, "C04:file", o, p, false, s)
		q := observe(r, "parse.Reader of:\n"+s, func() (*ast.File, error) { return parse.Reader(path, strings.NewReader(s)) })
		same(r, "C04:file-reader", q, p, true, s)
		r.Eval(2)
		os.Remove(path)
		// Faults at every offset.
		step := 1
		if len(s) > 300 {
			step = len(s)/150 + 1
		}
		if i%5 != 0 && !r.Thorough() {
			step *= 7
		}
		for off := 0; off <= len(s); off += step {
			for _, e := range []error{errInjected, io.ErrUnexpectedEOF, os.ErrClosed} {
				rd := &chunked{s: s, fail: off, err: e, mode: rng.Intn(5), rng: rng}
				p := observe(r, fmt.Sprintf("read fault at %d of:\n%s", off, s), func() (*ast.File, error) {
					return parse.Reader("string", rd)
				})
				r.Eval(1)
				r.Count("faults", 1)
				r.Distinct(fmt.Sprint("fault", off, e, s))
				switch {
				case p.odd != "":
					r.Violation("C04:fault-improper", p.odd, fmt.Sprintf("offset %d\n%s", off, s))
				case p.err == nil:
					r.Violation("C04:fault-lost", fmt.Sprintf("read error %q is not reported", e), fmt.Sprintf("offset %d mode %d\n%s", off, rd.mode, s))
				}
				if step > 1 {
					break
				}
			}
		}
	})
	// Large contents, around sizes that buffers and limits like to have.
	r.Parallel("large", r.Pick(12, 40), func(i int, rng *rand.Rand) {
		size := 1<<uint(15+i%8) + rng.Intn(3) - 1
		head := specgen.Text(specgen.Syntax(rng, true), rng)
		for len(head) > 20000 {
			head = specgen.Text(specgen.Syntax(rng, true), rng)
		}
		tail := specgen.Text(specgen.Syntax(rng, true), rng) + "\nconst LAST = 1;"
		line := "// " + strings.Repeat("padding ", 20) + "\n"
		s := head + "\n" + strings.Repeat(line, size/len(line)+1)
		s = s[:size-len(tail)%64-2] + "\n" + tail
		if i%4 == 3 {
			s += "\n$"
		}
		want, rerr := refparse.Parse(s)
		o := str(r, s)
		r.Eval(1)
		r.Distinct(s)
		r.Count("large", 1)
		if o.odd != "" || (o.err == nil) != (rerr == nil) || rerr == nil && o.dump != want.Dump() {
			r.Violation("C04:large", fmt.Sprintf("a text of %d bytes is not parsed as it is written %s %v", len(s), o.odd, o.err), s)
			return
		}
		for mode := 0; mode < 5; mode++ {
			p := observe(r, fmt.Sprintf("parse.Reader mode %d of %d bytes", mode, len(s)), func() (*ast.File, error) {
				return parse.Reader("string", &chunked{s: s, fail: -1, mode: mode, rng: rng})
			})
			r.Eval(1)
			same(r, "C04:large", o, p, true, fmt.Sprintf("mode %d\n%s", mode, s))
			p = observe(r, fmt.Sprintf("parse.Reader mode %d of %d bytes with a fault at the end", mode, len(s)), func() (*ast.File, error) {
				return parse.Reader("string", &chunked{s: s, fail: len(s), err: errInjected, mode: mode, rng: rng})
			})
			if p.odd != "" || p.err == nil {
				r.Violation("C04:fault-lost", "a read error at the end of a large content is not reported "+p.odd, s)
			}
		}
		path := filepath.Join(dir, fmt.Sprintf("big%d", i))
		if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
			report.Fatal("%v", err)
		}
		defer os.Remove(path)
		p := observe(r, fmt.Sprintf("parse.File of %d bytes", len(s)), func() (*ast.File, error) { return parse.File(path) })
		same(r, "C04:large", o, p, false, s)
	})
	// Lists.
	isdir := filepath.Join(dir, "isdir")
	os.Mkdir(isdir, 0o755)
	dangling := filepath.Join(dir, "dangling")
	os.Symlink(filepath.Join(dir, "nowhere"), dangling)
	bad := filepath.Join(dir, "bad.trunnel")
	os.WriteFile(bad, []byte("struct {"), 0o644)
	faulty := []string{filepath.Join(dir, "missing"), isdir, dangling, bad, "", "/proc/self/mem"}
	for _, p := range faulty {
		o := observe(r, "parse.File "+p, func() (*ast.File, error) { return parse.File(p) })
		r.Eval(1)
		if o.odd != "" || o.err == nil {
			r.Violation("C04:file-fault", "an unreadable or invalid file is not reported: "+p+" "+o.odd, p)
		}
	}
	r.Parallel("lists", r.Pick(1500, 20000), func(i int, rng *rand.Rand) {
		n := rng.Intn(6)
		var paths, texts []string
		for k := 0; k < n; k++ {
			if k > 0 && rng.Intn(5) == 0 {
				j := rng.Intn(k)
				paths, texts = append(paths, paths[j]), append(texts, texts[j])
				continue
			}
			s := specgen.Text(specgen.Syntax(rng, true), rng)
			p := filepath.Join(dir, fmt.Sprintf("l%d-%d", i, k))
			if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
				report.Fatal("%v", err)
			}
			defer os.Remove(p)
			paths, texts = append(paths, p), append(texts, s)
		}
		broken := -1
		if n > 0 && i%2 == 0 {
			broken = rng.Intn(n)
			paths[broken] = faulty[rng.Intn(len(faulty))]
		}
		var fs []*ast.File
		var err error
		arg := append([]string(nil), paths...)
		desc := fmt.Sprintf("parse.Files %q", paths)
		p := r.Case(desc, func() { fs, err = parse.Files(arg) })
		r.Eval(1)
		r.Count("lists", 1)
		r.Distinct(fmt.Sprint(texts, broken))
		switch {
		case p != nil:
			r.Violation("C04:list-panic", p.Error(), desc)
		case broken >= 0:
			r.Count("bad_lists", 1)
			if err == nil || fs != nil {
				r.Violation("C04:list-fault", fmt.Sprintf("a list with a bad file at %d of %d gives trees or no error (trees %d, err %v)", broken, n, len(fs), err), desc)
			}
		case err != nil:
			r.Violation("C04:list-rejects", "a list of valid files is rejected: "+err.Error(), desc)
		case len(fs) != n:
			r.Violation("C04:list-length", fmt.Sprintf("%d files give %d trees", n, len(fs)), desc)
		default:
			for k, f := range fs {
				o := str(r, texts[k])
				m, merr := bridge.File(f)
				if merr != nil || o.dump != m.Dump() {
					r.Violation("C04:list-order", fmt.Sprintf("tree %d is not that of file %d", k, k), desc+"\n"+texts[k])
				}
			}
			if !reflect.DeepEqual(arg, paths) {
				r.Violation("C04:list-arg", "the list of names was modified", desc)
			}
		}
	})
}

// same requires equal outcomes; messages are compared if names are the same.
func same(r *report.Run, key string, o, p outcome, names bool, text string) {
	switch {
	case p.odd != "":
		r.Violation(key+":improper", p.odd, text)
	case (o.err == nil) != (p.err == nil):
		r.Violation(key+":acceptance", fmt.Sprintf("entry points disagree: %v / %v", o.err, p.err), text)
	case o.err == nil && (o.dump != p.dump || !reflect.DeepEqual(o.tree, p.tree)):
		r.Violation(key+":tree", "entry points give different trees", text+"\n\n"+o.dump+"\n---\n"+p.dump)
	case o.err != nil && names && o.err.Error() != p.err.Error():
		r.Violation(key+":failure", fmt.Sprintf("entry points fail differently: %v / %v", o.err, p.err), text)
	}
}

// C05.

func c05(r *report.Run) {
	r.Rule = "byte sequences: grammatical files, mutations, truncations at every offset, invalid UTF-8, random bytes. Each result must be proper; it is repeated after other parses, after scribbling over every earlier tree, and concurrently from 16 goroutines under the race detector. " +
		"Non-trivial: distinct text"
	r.Require("scribbled", 200)
	r.Require("concurrent", 2000)
	r.Require("accepted", 200)
	files := corpus()
	text := func(i int, rng *rand.Rand) string {
		switch i % 6 {
		case 0:
			return specgen.Text(specgen.Syntax(rng, true), rng)
		case 1:
			return specgen.Mutate(rng, specgen.Tokens(specgen.Syntax(rng, false), rng))
		case 2:
			return garbage(rng)
		case 3:
			b := make([]byte, rng.Intn(200))
			rng.Read(b)
			return string(b)
		case 4:
			return byteMutate(rng, files[rng.Intn(len(files))])
		default:
			s := specgen.Text(specgen.Syntax(rng, true), rng)
			b := []byte(s)
			for k := 0; k < 2 && len(b) > 0; k++ {
				j := rng.Intn(len(b))
				bad := [][]byte{{0xff}, {0xc0, 0x80}, {0xed, 0xa0, 0x80}, {0xf5, 0x80, 0x80, 0x80}, {0xe2, 0x82}, {0}}[rng.Intn(6)]
				b = append(b[:j:j], append(append([]byte{}, bad...), b[j:]...)...)
			}
			return string(b)
		}
	}
	improper := func(o outcome, s string) bool {
		if o.odd != "" {
			key := "C05:improper"
			if o.panic != nil {
				key = "C05:panic"
			}
			r.Violation(key, o.odd, s)
			return true
		}
		return false
	}
	r.Parallel("total", r.Pick(4000, 60000), func(i int, rng *rand.Rand) {
		s := text(i, rng)
		o := str(r, s)
		r.Eval(1)
		r.Distinct(s)
		if i < 4 {
			r.Sample(fmt.Sprintf("%q", small(s)))
		}
		if improper(o, s) {
			return
		}
		if !utf8.ValidString(s) {
			r.Count("invalid_utf8", 1)
		}
		if o.err == nil {
			r.Count("accepted", 1)
		}
	})
	// Truncations.
	r.Parallel("trunc", r.Pick(70, 1000), func(i int, rng *rand.Rand) {
		s := specgen.Text(specgen.Syntax(rng, true), rng)
		if i < len(files) {
			s = files[i]
		}
		step := len(s)/120 + 1
		for k := 0; k < len(s); k += step {
			improper(str(r, s[:k]), s[:k])
			r.Eval(1)
			r.Count("truncations", 1)
		}
	})
	// Repeatability, with every earlier tree scribbled over in between.
	r.Parallel("repeat", r.Pick(120, 2500), func(i int, rng *rand.Rand) {
		n := 8
		texts := make([]string, n)
		first := make([]outcome, n)
		for k := range texts {
			texts[k] = text(rng.Intn(9)/8*4, rng)
			if k > 0 && rng.Intn(3) == 0 {
				texts[k] = texts[rng.Intn(k)]
			}
			first[k] = str(r, texts[k])
			if improper(first[k], texts[k]) {
				return
			}
		}
		// Trees must not have changed by the later parses.
		for k, o := range first {
			if o.tree != nil && redump(o.tree) != o.dump {
				r.Violation("C05:later-parse", "a tree changes when another text is parsed", texts[k])
			}
		}
		// Scribble over half of them, the others must stay.
		for k, o := range first {
			if k%2 == 0 && o.tree != nil {
				scribble(reflect.ValueOf(o.tree), map[uintptr]bool{})
				r.Count("scribbled", 1)
			}
		}
		for k, o := range first {
			r.Eval(1)
			if k%2 == 1 && o.tree != nil && redump(o.tree) != o.dump {
				r.Violation("C05:shared-tree", "modifying one tree changes another", texts[k])
			}
			p := str(r, texts[k])
			if improper(p, texts[k]) {
				return
			}
			if (p.err == nil) != (o.err == nil) || p.dump != o.dump || o.err != nil && p.err.Error() != o.err.Error() {
				r.Violation("C05:repeat", "parsing a text again gives another result", texts[k]+"\n\n"+o.dump+"\n---\n"+p.dump+fmt.Sprint(o.err, p.err))
			}
		}
	})
	// Lists with repeated names: every entry has a tree of its own.
	dir, err := os.MkdirTemp("", "verif-c05-")
	if err != nil {
		report.Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	r.Require("repeated_files", 40)
	r.Parallel("files", r.Pick(60, 800), func(i int, rng *rand.Rand) {
		var paths []string
		for k := 0; k < 2; k++ {
			p := filepath.Join(dir, fmt.Sprintf("%d-%d", i, k))
			if err := os.WriteFile(p, []byte(specgen.Text(specgen.Syntax(rng, true), rng)), 0o644); err != nil {
				report.Fatal("%v", err)
			}
			defer os.Remove(p)
			paths = append(paths, p)
		}
		var list []string
		for k, n := 0, 2+rng.Intn(5); k < n; k++ {
			list = append(list, paths[rng.Intn(2)])
		}
		var fs []*ast.File
		desc := fmt.Sprintf("parse.Files %q", list)
		if p := r.Case(desc, func() { fs, _ = parse.Files(list) }); p != nil || len(fs) != len(list) {
			return // C04
		}
		r.Eval(1)
		r.Count("repeated_files", 1)
		want := make([]string, len(fs))
		for k, f := range fs {
			want[k] = redump(f)
		}
		j := rng.Intn(len(fs))
		scribble(reflect.ValueOf(fs[j]), map[uintptr]bool{})
		for k, f := range fs {
			if k != j && redump(f) != want[k] {
				r.Violation("C05:shared-file", "modifying the tree of one entry of a list changes that of another", desc)
			}
		}
		again, err := parse.Files(list)
		if err != nil || len(again) != len(list) {
			r.Violation("C05:repeat-list", fmt.Sprint("parsing a list again gives another result: ", err), desc)
			return
		}
		for k, f := range again {
			if redump(f) != want[k] {
				r.Violation("C05:repeat-list", "parsing a list again gives another tree", desc)
			}
		}
	})
	// Concurrency.
	for round := 0; round < r.Pick(6, 60); round++ {
		rng := r.Rand("conc", round)
		texts := make([]string, 24)
		want := make([]outcome, len(texts))
		for k := range texts {
			texts[k] = text(rng.Intn(5), rng)
			want[k] = str(r, texts[k])
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 16; g++ {
			wg.Add(1)
			order := rng.Perm(len(texts))
			go func() {
				defer wg.Done()
				<-start
				for _, k := range order {
					p := str(r, texts[k])
					r.Eval(1)
					r.Count("concurrent", 1)
					o := want[k]
					if p.odd != "" || (p.err == nil) != (o.err == nil) || p.dump != o.dump || o.err != nil && p.err.Error() != o.err.Error() {
						r.Violation("C05:concurrent", "a concurrent parse gives another result "+p.odd, texts[k]+"\n\n"+o.dump+"\n---\n"+p.dump+fmt.Sprint(o.err, p.err))
					}
					if p.tree != nil {
						scribble(reflect.ValueOf(p.tree), map[uintptr]bool{})
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}

func redump(f *ast.File) string {
	m, err := bridge.File(f)
	if err != nil {
		return err.Error()
	}
	return m.Dump()
}

// scribble overwrites every reachable string and integer and shortens and
// reverses every slice.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribble(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
		if v.Len() > 1 && v.Index(0).CanSet() {
			a, b := v.Index(0), v.Index(v.Len()-1)
			t := reflect.New(a.Type()).Elem()
			t.Set(a)
			a.Set(b)
			b.Set(t)
		}
		if v.CanSet() && v.Len() > 0 {
			// Appending within capacity would show up in shared arrays.
			if v.Cap() > v.Len() {
				w := v.Slice(0, v.Cap())
				w.Index(v.Len()).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled_" + v.String())
		}
	case reflect.Int64, reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x5a5a)
		}
	case reflect.Uint, reflect.Uint8:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x18)
		}
	}
}

// C06.

// named are the words that a name has to follow.
var named = map[string]bool{"struct": true, "const": true, "context": true, "nulterm": true, "union": true, "@ptr": true, "trunnel": true, "extern": true}

func c06(r *report.Run) {
	r.Rule = "a valid file in a random layout (comments with multi-byte characters, CR LF, tabs; some places beyond line or column 256 or 65536) gets one character that is legal nowhere inserted in front of a token or at the end, or an integer literal replaced by one of 2^63 or more; " +
		"line and column are computed independently. Parsed under random file names through Reader and File. Non-trivial: distinct (text, position)"
	r.Require("positions", 2000)
	r.Require("literals", 300)
	r.Require("far", 50)
	dir, err := os.MkdirTemp("", "verif-c06-")
	if err != nil {
		report.Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	names := []string{"a.trunnel", "dir/b.trunnel", "/abs/c", "with space.trunnel", "ünï.trunnel", "x:1:2", "-", "string",
		"./here.trunnel", "../up/there.trunnel", "50%.trunnel", "%s%d%v", "a\\b.trunnel", "UPPER.TRUNNEL", "noext", ".hidden", "dir//twice.trunnel", "a/../b.trunnel",
		strings.Repeat("long/", 60) + "d.trunnel"}
	illegal := []string{"$", "#", "é", "\"", "~", "!", "日", "\x01", "%", "😀"}
	r.Parallel("pos", r.Pick(5000, 80000), func(i int, rng *rand.Rand) {
		f := specgen.Syntax(rng, true)
		toks := specgen.Tokens(f, rng)
		s, pos := specgen.NewLayout(rng).RenderPos(toks)
		if _, err := refparse.Parse(s); err != nil {
			return
		}
		if o := str(r, s); o.odd != "" || o.err != nil {
			return
		}
		for k := 0; k < 4; k++ {
			var off int
			if j := rng.Intn(len(pos) + 1); j < len(pos) {
				off = pos[j]
			} else {
				off = len(s)
				if c := strings.LastIndex(s, "//"); c >= 0 && !strings.Contains(s[c:], "\n") {
					continue // inside a comment
				}
			}
			ill := illegal[rng.Intn(len(illegal))]
			if j := sort.SearchInts(pos, off); j > 0 && off < len(s) && named[toks[j-1].Text] && rng.Intn(2) == 0 {
				// Only a name can follow.
				ill = string("{}[];:,=.-@0123456789"[rng.Intn(21)])
				r.Count("misplaced", 1)
			}
			t := s[:off] + ill + s[off:]
			if k == 0 && i%40 == 7 {
				// Far down or far to the right.
				n := 250 + rng.Intn(30)
				if rng.Intn(4) == 0 {
					n = 65500 + rng.Intn(100)
				}
				far := strings.Repeat([]string{"\n", " ", "// é\n", "\r\n", "\t"}[rng.Intn(5)], n)
				t, off = far+t, off+len(far)
				r.Count("far", 1)
			}
			expectPosition(r, dir, i, k, "C06", t, off, names[rng.Intn(len(names))])
			r.Count("positions", 1)
		}
	})
	r.Parallel("literal", r.Pick(3000, 40000), func(i int, rng *rand.Rand) {
		f := specgen.Syntax(rng, true)
		toks := specgen.Tokens(f, rng)
		var ints []int
		for j, t := range toks {
			if t.Int {
				ints = append(ints, j)
			}
		}
		if len(ints) == 0 {
			return
		}
		j := ints[rng.Intn(len(ints))]
		toks[j].Int = false
		toks[j].Text = []string{"9223372036854775808", "0x8000000000000000", "99999999999999999999999", "01000000000000000000000", "0xffffffffffffffff"}[rng.Intn(5)]
		s, pos := specgen.NewLayout(rng).RenderPos(toks)
		r.Count("literals", 1)
		expectPosition(r, dir, i, 0, "C06:literal", s, pos[j], names[rng.Intn(len(names))])
	})
}

// digit reports whether s starts with a digit.
func digit(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }

func expectPosition(r *report.Run, dir string, i, k int, key, t string, off int, name string) {
	line, col := 1, 1
	for _, c := range t[:off] {
		if c == '\n' {
			line, col = line+1, 1
		} else {
			col++
		}
	}
	var o outcome
	if (i+k)%3 == 0 {
		name = filepath.Join(dir, fmt.Sprintf("%d-%d é.trunnel", i, k))
		if err := os.WriteFile(name, []byte(t), 0o644); err != nil {
			report.Fatal("%v", err)
		}
		defer os.Remove(name)
		o = observe(r, "parse.File of:\n"+t, func() (*ast.File, error) { return parse.File(name) })
	} else {
		o = observe(r, "parse.Reader of:\n"+t, func() (*ast.File, error) { return parse.Reader(name, strings.NewReader(t)) })
	}
	r.Eval(1)
	r.Distinct(fmt.Sprint(off, t))
	if o.odd != "" || o.err == nil {
		r.Violation(key+":accepted", "a file with an illegal character or literal is not rejected properly: "+o.odd, t)
		return
	}
	want := fmt.Sprintf("%s:%d:%d", name, line, col)
	msg := o.err.Error()
	if i < 3 {
		r.Sample(fmt.Sprintf("%q at offset %d: %s", small(t), off, small(msg)))
	}
	// The first place that the message gives for the file.
	at := 0
	for at < len(msg) && !(strings.HasPrefix(msg[at:], name+":") && digit(msg[at+len(name)+1:])) {
		at++
	}
	rest, ok := strings.CutPrefix(msg[at:], want)
	if !ok || digit(rest) {
		r.Violation(key+":position", fmt.Sprintf("want position %s, message %s", want, small(msg)), fmt.Sprintf("offset %d\n%q\n\n%s", off, t, t))
	}
}

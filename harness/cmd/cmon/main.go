// Command cmon monitors the command-line tool: it builds it from the working
// tree and runs it on specifications, good and bad, in scratch directories.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"

	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

func main() {
	if len(os.Args) != 2 || os.Args[1] != "C24" {
		fmt.Fprintln(os.Stderr, "usage: cmon C24")
		os.Exit(2)
	}
	report.Main("C24", "fault_enumeration", func(r *report.Run) {
		r.Brief = true
		c24(r)
	})
}

var tool string

type outcome struct {
	code           int
	stdout, stderr string
}

// invoke runs the tool.
func invoke(r *report.Run, cwd string, args ...string) outcome {
	cmd := exec.Command(tool, args...)
	cmd.Dir = cwd
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		report.Fatal("%v", err)
	}
	r.Eval(1)
	r.Count("invocations", 1)
	return outcome{cmd.ProcessState.ExitCode(), stdout.String(), stderr.String()}
}

func (o outcome) String() string {
	return fmt.Sprintf("exit status %d\nstandard output: %s\nstandard error: %s", o.code, o.stdout, o.stderr)
}

// failed checks that the tool failed with a message.
func failed(r *report.Run, o outcome, key, d string) {
	switch {
	case strings.Contains(o.stderr, "goroutine ") && strings.Contains(o.stderr, "panic"):
		r.Violation("C24:panic", "the tool panics", d+"\n"+o.String())
	case o.code == 0:
		r.Violation("C24:success:"+key, "exit status 0 although "+key, d+"\n"+o.String())
	case o.code < 0:
		r.Violation("C24:killed", "the tool dies", d+"\n"+o.String())
	case strings.TrimSpace(o.stdout+o.stderr) == "":
		r.Violation("C24:silent:"+key, "no message although "+key, d+"\n"+o.String())
	default:
		r.Count("failures_reported", 1)
	}
}

// library generates the package in the library; empty if that fails.
func library(files []string, pkg, dir string) (map[string]string, error) {
	fs, err := parse.Files(files)
	if err != nil {
		return nil, err
	}
	stage.Mkdir(dir)
	if err := gen.Package(gen.Config{Package: pkg, Dir: dir}, fs); err != nil {
		return nil, err
	}
	return stage.Content(dir), nil
}

func same(a, b map[string]string) string {
	if x, y := stage.Names(a), stage.Names(b); x != y {
		return "files differ: " + stage.Difference(x, y)
	}
	var ns []string
	for n := range a {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if a[n] != b[n] {
			return n + " differs: " + stage.Difference(a[n], b[n])
		}
	}
	return ""
}

func profile(f func(p *specgen.Profile)) specgen.Profile {
	p := specgen.Full()
	p.Leftover, p.UnionLeft, p.TailGreedy, p.Roles, p.Wide, p.ConsLen = 0, 0, true, true, 20, 0
	f(&p)
	return p
}

var profiles = []specgen.Profile{
	profile(func(p *specgen.Profile) {}),
	profile(func(p *specgen.Profile) { p.Structs, p.Contexts, p.MinContexts, p.Const = 7, 3, 1, 60 }),
	profile(func(p *specgen.Profile) { p.Leftover = 3 }),
}

func spec(rng *rand.Rand, i int) *model.File {
	for {
		f := specgen.Spec(rng, profiles[i%len(profiles)])
		if specgen.Vectors(f, 150) > 150 {
			continue
		}
		if ok, _, _ := stage.Vectors(f); ok {
			return f
		}
	}
}

// split distributes declarations over files.
func split(f *model.File, rng *rand.Rand) []*model.File {
	n := 1 + rng.Intn(4)
	if rng.Intn(12) == 0 {
		n = 5 + rng.Intn(20)
	}
	fs := make([]*model.File, n)
	for i := range fs {
		fs[i] = &model.File{}
	}
	for _, s := range f.Structs {
		x := fs[rng.Intn(len(fs))]
		x.Structs = append(x.Structs, s)
	}
	for _, c := range f.Contexts {
		x := fs[rng.Intn(len(fs))]
		x.Contexts = append(x.Contexts, c)
	}
	for _, c := range f.Consts {
		x := fs[rng.Intn(len(fs))]
		x.Consts = append(x.Consts, c)
	}
	return fs
}

// workspace is a directory tree for one invocation.
type workspace struct {
	root, cwd, out string
	files          []string // absolute
}

var fileNames = []string{"%d.trunnel", "in %d.trunnel", "%d", "dir%d/x.trunnel", "%d.tar.gz", "ü%d.trunnel", " %d.trunnel ", "%d,x.trunnel", "%d=$HOME.trunnel"}

var outNames = []string{"out", "out", "out", " out", "out ", "o u t", "o,t", "größe", "out.go", "a/b/out", "$HOME", "~", "OUT", strings.Repeat("long", 60), strings.Repeat("long/", 50) + "out"}

func newSpace(rng *rand.Rand, root string, texts []string) *workspace {
	w := &workspace{root: root, cwd: stage.Mkdir(root, "cwd"), out: stage.Mkdir(root, outNames[rng.Intn(len(outNames))])}
	stage.Put(filepath.Join(root, "sentinel"), "untouched")
	for i, t := range texts {
		f := filepath.Join(root, "src", fmt.Sprintf(fileNames[rng.Intn(len(fileNames))], i))
		stage.Mkdir(filepath.Dir(f))
		stage.Put(f, t)
		w.files = append(w.files, f)
	}
	return w
}

// args makes arguments for the workspace. The output directory may be the
// current one.
func (w *workspace) args(rng *rand.Rand, pkg string) []string {
	rel := func(p string) string {
		if rng.Intn(2) == 0 {
			return p
		}
		q, err := filepath.Rel(w.cwd, p)
		if err != nil {
			report.Fatal("%v", err)
		}
		return q
	}
	var flags [][]string
	switch rng.Intn(4) {
	case 0:
		flags = append(flags, []string{"-p", pkg})
	case 1:
		flags = append(flags, []string{"--pkg", pkg})
	case 2:
		flags = append(flags, []string{"-p=" + pkg})
	default:
		flags = append(flags, []string{"--pkg=" + pkg})
	}
	switch rng.Intn(5) {
	case 0:
		flags = append(flags, []string{"-d", rel(w.out)})
	case 1:
		flags = append(flags, []string{"--dir", rel(w.out)})
	case 2:
		flags = append(flags, []string{"--dir=" + rel(w.out) + "/"})
	case 3:
		// The current directory is the default.
		w.out = w.cwd
	default:
		w.out = w.cwd
		flags = append(flags, []string{"-d", "."})
	}
	rng.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
	out := []string{"build"}
	for _, f := range flags {
		out = append(out, f...)
	}
	for _, f := range w.files {
		out = append(out, rel(f))
	}
	return out
}

// outside is everything but the output.
func (w *workspace) outside() string {
	m := stage.Content(w.root)
	rel, _ := filepath.Rel(w.root, w.out)
	var s []string
	for n, c := range m {
		if !strings.HasPrefix(n, rel+"/") {
			s = append(s, n+"="+c)
		}
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func c24(r *report.Run) {
	r.Rule = "the tool is built from the working tree and run with random good specifications in one or several files, all spellings of the flags, absolute and relative paths; results are compared byte for byte with library generation; every file of the list is made missing, unreadable or invalid in turn, and every output file unwritable; non-trivial: distinct invocation"
	scratch := stage.Scratch()
	tool = filepath.Join(scratch, "trunnel")
	cmd := exec.Command("go", "build", "-overlay", "overlay.json", "-o", tool, "github.com/mmcloughlin/trunnel/cmd/trunnel")
	cmd.Dir = "/verif/harness"
	if out, err := cmd.CombinedOutput(); err != nil {
		report.Fatal("go build: %v\n%s", err, out)
	}
	n := r.Pick(250, 2000)
	r.Parallel("good", n, func(i int, rng *rand.Rand) { good(r, i, rng) })
	if r.Violated() {
		return
	}
	shipped(r)
	r.Parallel("bad", r.Pick(120, 1000), func(i int, rng *rand.Rand) { bad(r, i, rng) })
	r.Parallel("unwritable", r.Pick(40, 300), func(i int, rng *rand.Rand) { unwritable(r, i, rng) })
	r.Require("packages_equal", 150)
	r.Require("several_files", 80)
	r.Require("files_given_twice", 10)
	r.Require("shipped_equal", 10)
	r.Require("failures_reported", 500)
}

func good(r *report.Run, i int, rng *rand.Rand) {
	var texts []string
	for _, f := range split(spec(rng, i), rng) {
		texts = append(texts, specgen.Plain(f))
	}
	root := stage.Mkdir(stage.Scratch(), fmt.Sprint("g", i))
	w := newSpace(rng, root, texts)
	twice := i%8 == 4
	if twice {
		// One of the files again: whatever the library makes of it.
		k := rng.Intn(len(w.files) + 1)
		again := []string{w.files[rng.Intn(len(w.files))]}
		w.files = append(w.files[:k:k], append(again, w.files[k:]...)...)
	}
	pkg := []string{"p", "trunneltest", "a_b", "x9"}[rng.Intn(4)]
	args := w.args(rng, pkg)
	if i%25 == 7 {
		// No package name: whatever the library makes of it.
		args = append([]string{"build", "-d", w.out}, w.files...)
		pkg = ""
	}
	d := fmt.Sprintf("%q\nfiles:\n%s", args, strings.Join(texts, "\n--- next file\n"))
	want, err := library(w.files, pkg, filepath.Join(stage.Scratch(), fmt.Sprint("lib", i)))
	before := w.outside()
	o := invoke(r, w.cwd, args...)
	r.Distinct(d)
	if err != nil {
		if pkg != "" && !twice {
			r.Violation("C24:library", "library generation fails: "+err.Error(), d)
			return
		}
		if twice {
			r.Count("files_given_twice", 1)
		} else {
			r.Count("no_package_name", 1)
		}
		failed(r, o, "the library fails", d)
		return
	}
	if o.code != 0 {
		r.Violation("C24:status", "the tool fails on a good specification", d+"\n"+o.String())
		return
	}
	if s := same(want, stage.Content(w.out)); s != "" {
		r.Violation("C24:content", "the tool leaves another package than the library: "+s, d)
		return
	}
	if after := w.outside(); after != before {
		r.Violation("C24:outside", "the tool changes files outside of the output directory", d+"\n"+stage.Difference(before, after))
		return
	}
	r.Count("packages_equal", 1)
	if len(texts) > 1 {
		r.Count("several_files", 1)
	}
	if w.out == w.cwd {
		r.Count("default_directory", 1)
	}
	if i < 3 {
		r.Sample(d + "\n" + o.String())
	}
	if i%10 == 0 {
		// Again on top of it.
		o := invoke(r, w.cwd, args...)
		if s := same(want, stage.Content(w.out)); o.code != 0 || s != "" {
			r.Violation("C24:again", "a second run on top of the first gives something else: "+s, d+"\n"+o.String())
		}
	}
	os.RemoveAll(root)
}

// shipped runs the tool on the files of the repository.
func shipped(r *report.Run) {
	var fs []string
	for _, g := range []string{"/repo/gen/tests/*/*.trunnel", "/repo/examples/*/*.trunnel"} {
		m, err := filepath.Glob(g)
		if err != nil {
			report.Fatal("%v", err)
		}
		fs = append(fs, m...)
	}
	if len(fs) > 40 {
		r.Rand("shipped").Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		fs = fs[:40]
	}
	r.Parallel("shipped", len(fs), func(i int, rng *rand.Rand) {
		b, err := os.ReadFile(fs[i])
		if err != nil {
			report.Fatal("%v", err)
		}
		root := stage.Mkdir(stage.Scratch(), fmt.Sprint("s", i))
		w := newSpace(rng, root, []string{string(b)})
		args := w.args(rng, "p")
		want, err := library(w.files, "p", filepath.Join(stage.Scratch(), fmt.Sprint("slib", i)))
		o := invoke(r, w.cwd, args...)
		r.Distinct(fs[i])
		if err != nil {
			failed(r, o, "the library fails", fs[i]+"\n"+err.Error())
			return
		}
		if s := same(want, stage.Content(w.out)); o.code != 0 || s != "" {
			r.Violation("C24:shipped", "the tool leaves another package than the library: "+s, fs[i]+"\n"+o.String())
			return
		}
		r.Count("shipped_equal", 1)
	})
}

// bad makes each file of a list invalid in turn.
func bad(r *report.Run, i int, rng *rand.Rand) {
	var texts []string
	for _, f := range split(spec(rng, i), rng) {
		texts = append(texts, specgen.Plain(f))
	}
	type wrong struct {
		kind string
		make func(file, text string)
	}
	rm := func(f string) {
		if err := os.RemoveAll(f); err != nil {
			report.Fatal("%v", err)
		}
	}
	wrongs := []wrong{
		{"a file is missing", func(f, t string) { rm(f) }},
		{"a file is a directory", func(f, t string) { rm(f); stage.Mkdir(f) }},
		{"a file is a dangling link", func(f, t string) {
			rm(f)
			if err := os.Symlink(f+"nowhere", f); err != nil {
				report.Fatal("%v", err)
			}
		}},
		{"a file has a syntax error at the end", func(f, t string) { stage.Put(f, t+"\nstruct {") }},
		{"a file has a syntax error at the start", func(f, t string) { stage.Put(f, "$ "+t) }},
		{"a file has an unterminated comment", func(f, t string) { stage.Put(f, t+"\n/* ") }},
		{"a file is binary", func(f, t string) { stage.Put(f, "\x00\x01\xff"+t) }},
		{"a file uses an undefined struct", func(f, t string) { stage.Put(f, t+"\nstruct badq { struct nosuchq a; }") }},
		{"a file uses an undefined constant", func(f, t string) { stage.Put(f, t+"\nstruct badq { u8 a[NOSUCHQ]; }") }},
		{"a file uses an undefined tag", func(f, t string) { stage.Put(f, t+"\nstruct badq { union u[nosuchq] { 1: u8 a; }; }") }},
		{"a file uses an undefined context", func(f, t string) { stage.Put(f, t+"\nstruct badq with context nosuchq { u8 a; }") }},
		{"a file declares a struct twice", func(f, t string) { stage.Put(f, t+"\nstruct badq { u8 a; } struct badq { u8 a; }") }},
		{"a file has a reversed range", func(f, t string) { stage.Put(f, t+"\nstruct badq { u8 a IN[9..1]; }") }},
		{"a file has overlapping ranges", func(f, t string) { stage.Put(f, t+"\nstruct badq { u8 a IN[1..3,2]; }") }},
	}
	for pos := range texts {
		for k, x := range wrongs {
			if len(texts) > 4 && rng.Intn(len(texts)) >= 4 {
				continue
			}
			root := stage.Mkdir(stage.Scratch(), fmt.Sprintf("b%d.%d.%d", i, pos, k))
			w := newSpace(rng, root, texts)
			args := w.args(rng, "p")
			x.make(w.files[pos], texts[pos])
			d := fmt.Sprintf("%q\n%s: file %d of %d\n%s", args, x.kind, pos+1, len(texts), strings.Join(texts, "\n--- next file\n"))
			before := stage.Names(stage.Content(w.out))
			o := invoke(r, w.cwd, args...)
			r.Distinct(d)
			r.Count("bad_"+strings.ReplaceAll(x.kind, " ", "_"), 1)
			failed(r, o, x.kind, d)
			if after := stage.Names(stage.Content(w.out)); after != before {
				r.Violation("C24:left-behind", "files are left behind although "+x.kind, d+"\n"+after)
			}
			rm(root)
			if r.Violated() {
				return
			}
		}
	}
	// One name too many.
	for k, x := range []string{"", ".", "nosuch.trunnel", " ", "no/such"} {
		root := stage.Mkdir(stage.Scratch(), fmt.Sprintf("b%d.x%d", i, k))
		w := newSpace(rng, root, texts)
		args := w.args(rng, "p")
		at := len(args) - rng.Intn(len(texts)+1)
		args = append(args[:at:at], append([]string{x}, args[at:]...)...)
		d := fmt.Sprintf("%q\n%s", args, strings.Join(texts, "\n--- next file\n"))
		before := stage.Names(stage.Content(w.out))
		o := invoke(r, w.cwd, args...)
		r.Distinct(d)
		r.Count("one_name_too_many", 1)
		failed(r, o, fmt.Sprintf("there is no file %q", x), d)
		if after := stage.Names(stage.Content(w.out)); after != before {
			r.Violation("C24:left-behind", "files are left behind although a file is missing", d+"\n"+after)
		}
		rm(root)
	}
	// No files at all.
	root := stage.Mkdir(stage.Scratch(), fmt.Sprintf("b%d", i))
	w := newSpace(rng, root, nil)
	for _, args := range [][]string{{"build"}, {"build", "-p", "p"}, {"build", "-d", w.out}, {"build", "-p", "p", "-d", w.out}, {"build", "--", ""}} {
		o := invoke(r, w.cwd, args...)
		failed(r, o, "there are no files", fmt.Sprintf("%q", args))
		if n := stage.Names(stage.Content(w.cwd)); n != "./" {
			r.Violation("C24:left-behind", "files are left behind although there are no files", n)
		}
		if n := stage.Names(stage.Content(w.out)); n != "./" {
			r.Violation("C24:left-behind", "files are left behind although there are no files", n)
		}
	}
	rm(root)
}

// unwritable makes each output file unwritable in turn.
func unwritable(r *report.Run, i int, rng *rand.Rand) {
	f := spec(rng, i)
	text := specgen.Plain(f)
	root := stage.Mkdir(stage.Scratch(), fmt.Sprint("u", i))
	src := filepath.Join(root, "x.trunnel")
	stage.Put(src, text)
	want, err := library([]string{src}, "p", filepath.Join(root, "lib"))
	if err != nil {
		r.Violation("C24:library", "library generation fails: "+err.Error(), text)
		return
	}
	var ns []string
	for n := range want {
		if n != "./" && (!strings.Contains(n, "/corpus/") || rng.Intn(len(want)) < 5) {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	try := func(kind, dir string) {
		d := kind + "\n" + text
		o := invoke(r, root, "build", "-p", "p", "-d", dir, src)
		r.Distinct(d)
		r.Count("unwritable", 1)
		if o.code == 0 {
			if _, err := os.Stat(dir); err == nil && same(want, stage.Content(dir)) == "" {
				r.Count("replaced_files", 1) // written in some other way
				return
			}
		}
		failed(r, o, "an output file cannot be written", d)
	}
	for k, n := range ns {
		dir := filepath.Join(root, fmt.Sprint("a", k))
		p := filepath.Join(dir, n)
		stage.Mkdir(filepath.Dir(p))
		if strings.HasSuffix(n, "/") {
			stage.Mkdir(filepath.Dir(filepath.Clean(p)))
			if err := os.RemoveAll(filepath.Clean(p)); err != nil {
				report.Fatal("%v", err)
			}
			stage.Put(filepath.Clean(p), "in the way")
		} else {
			stage.Mkdir(p)
		}
		try(n+" is in the way", dir)
		if want[n] != "" {
			dir := filepath.Join(root, fmt.Sprint("f", k))
			p := filepath.Join(dir, n)
			stage.Mkdir(filepath.Dir(p))
			if err := os.Symlink(stage.Full(), p); err != nil {
				report.Fatal("%v", err)
			}
			try(n+" is on a full device", dir)
		}
	}
	try("missing directory", filepath.Join(root, "no", "such"))
	try("directory is a file", src)
	if err := os.RemoveAll(root); err != nil {
		report.Fatal("%v", err)
	}
}

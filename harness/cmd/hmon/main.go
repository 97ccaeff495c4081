// Command hmon monitors the helpers the project's own tests are built on.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/mmcloughlin/trunnel/internal/test"

	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "helper" {
		helper(os.Args[2])
		return
	}
	if len(os.Args) < 2 || os.Args[1] != "C31" {
		fmt.Fprintln(os.Stderr, "usage: hmon C31")
		os.Exit(2)
	}
	report.Main("C31", "exploration", c31)
}

func c31(r *report.Run) {
	r.Rule = "random directories with trunnel files, other files and dependency files, some of them malformed or unreadable; pairs of files that are equal or differ by one byte or a tail; Go sources with and without mistakes; non-trivial: distinct directory, pair or set of sources"
	r.Assume("names of directories contain no pattern characters, and the dependency file is YAML with one list per file name")
	root := stage.Scratch()
	r.Parallel("groups", r.Pick(1500, 15000), func(i int, rng *rand.Rand) {
		dir := filepath.Join(root, fmt.Sprint("g", i))
		stage.Mkdir(dir)
		defer os.RemoveAll(dir)
		groups(r, rng, dir, i)
	})
	r.Parallel("pairs", r.Pick(1500, 15000), func(i int, rng *rand.Rand) {
		dir := filepath.Join(root, fmt.Sprint("p", i))
		stage.Mkdir(dir)
		defer os.RemoveAll(dir)
		pair(r, rng, dir)
	})
	tmp := filepath.Join(root, "tmp")
	stage.Mkdir(tmp)
	os.Setenv("TMPDIR", tmp)
	r.Parallel("builds", r.Pick(24, 160), func(i int, rng *rand.Rand) { build(r, rng, i) })
	if s := stage.Names(stage.Content(tmp)); s != "./" {
		// The go command cleans up behind itself, so this is all Build's.
		r.Violation("C31:left", "building leaves files behind", s)
	}
	r.Parallel("tests", r.Pick(40, 300), func(i int, rng *rand.Rand) {
		dir := filepath.Join(root, fmt.Sprint("t", i))
		stage.Mkdir(dir)
		defer os.RemoveAll(dir)
		tests(r, rng, dir)
	})
	r.Require("groups_with_dependencies", 300)
	r.Require("bad_dependency_files", 50)
	r.Require("equal_pairs", 100)
	r.Require("unequal_pairs", 300)
	r.Require("unreadable_pairs", 50)
	r.Require("builds_good", 5)
	r.Require("builds_bad", 5)
	r.Require("failing_tests", 5)
	r.Require("passing_tests", 5)
}

func base(rng *rand.Rand) string {
	n := specgen.Word(rng)
	switch rng.Intn(8) {
	case 0:
		n = "a b" + n
	case 1:
		n = "." + n
	case 2:
		n += ".x"
	case 3:
		n = "é" + n
	}
	return n
}

// groups checks the files and file groups of a directory.
func groups(r *report.Run, rng *rand.Rand, dir string, i int) {
	var files, all []string
	seen := map[string]bool{}
	for k, n := 0, rng.Intn(8); k < n; k++ {
		b := base(rng)
		ext := []string{".trunnel", ".trunnel", ".trunnel", ".trunnel", ".trunnel.go", ".Trunnel", "trunnel", ""}[rng.Intn(8)]
		if ext == "" && b == "deps.yml" || seen[b+ext] {
			continue
		}
		seen[b+ext] = true
		stage.Put(filepath.Join(dir, b+ext), "u8 x;")
		all = append(all, b+ext)
		if strings.HasSuffix(b+ext, ".trunnel") {
			files = append(files, b+ext)
		}
	}
	if rng.Intn(3) == 0 {
		stage.Mkdir(dir, "below")
		stage.Put(filepath.Join(dir, "below", "deep.trunnel"), "")
	}
	sort.Strings(files)
	deps := map[string][]string{}
	bad := ""
	yml := filepath.Join(dir, "deps.yml")
	has := false
	switch k := rng.Intn(10); {
	case k < 6:
		has = true
		for _, f := range append(append([]string{}, all...), "absent.trunnel") {
			if rng.Intn(2) == 0 {
				continue
			}
			ds := []string{}
			for k, n := 0, rng.Intn(4); k < n; k++ {
				switch {
				case len(all) > 0 && rng.Intn(3) > 0:
					ds = append(ds, all[rng.Intn(len(all))])
				default:
					ds = append(ds, base(rng)+".trunnel")
				}
			}
			deps[f] = ds
		}
		stage.Put(yml, yaml(rng, deps))
	case k == 6:
		bad = []string{"dependencies: [", "dependencies:\n  a.trunnel: {b: c}\n", "\tdependencies", "dependencies: 3\n", "- a\n- b\n"}[rng.Intn(5)]
		stage.Put(yml, bad)
	case k == 7:
		bad = "a directory"
		stage.Mkdir(yml)
	case k == 8:
		has = true
		stage.Put(yml, []string{"", "# nothing\n", "dependencies:\n", "other: 1\n"}[rng.Intn(4)])
	}
	d := fmt.Sprintf("files %q, dependencies %q, has a dependency file %v, bad %q", all, deps, has, bad)
	r.Distinct(d)
	if i < 3 {
		r.Sample(d)
	}
	p := r.Case(d, func() {
		r.Eval(1)
		paths, err := test.TrunnelFiles(dir)
		sort.Strings(paths)
		var want []string
		for _, f := range files {
			want = append(want, filepath.Join(dir, f))
		}
		if err != nil || fmt.Sprintf("%q", paths) != fmt.Sprintf("%q", want) {
			r.Violation("C31:files", fmt.Sprintf("TrunnelFiles gives %q, %v, want %q", paths, err, want), d)
		}
		x, err := test.LoadDependenciesDir(dir)
		switch {
		case bad != "" && err == nil:
			r.Violation("C31:bad-dependencies", "a bad dependency file is accepted", d)
		case bad == "" && (err != nil || x == nil):
			r.Violation("C31:dependencies", fmt.Sprintf("the dependencies are not loaded: %v", err), d)
		case bad == "" && !same(x.Dependencies, deps):
			r.Violation("C31:dependencies", fmt.Sprintf("the dependencies are %q", x.Dependencies), d)
		}
		y, err := test.LoadDependenciesFile(yml)
		switch {
		case (bad != "" || !has) && err == nil:
			r.Violation("C31:bad-dependencies", "a bad or missing dependency file is accepted", d)
		case bad == "" && has && (err != nil || y == nil || !same(y.Dependencies, deps)):
			r.Violation("C31:dependencies", fmt.Sprintf("the dependency file gives %v, %v", y, err), d)
		}
		gs, err := test.LoadFileGroups(dir)
		if bad != "" {
			r.Count("bad_dependency_files", 1)
			if err == nil {
				r.Violation("C31:bad-dependencies", "groups are made in spite of a bad dependency file", d)
			}
			return
		}
		var wantGroups, got []string
		for _, f := range files {
			g := []string{filepath.Join(dir, f)}
			for _, x := range deps[f] {
				g = append(g, filepath.Join(dir, x))
			}
			if len(g) > 1 {
				r.Count("groups_with_dependencies", 1)
			}
			wantGroups = append(wantGroups, fmt.Sprintf("%q", g))
		}
		for _, g := range gs {
			got = append(got, fmt.Sprintf("%q", g))
		}
		sort.Strings(got)
		sort.Strings(wantGroups)
		if err != nil || strings.Join(got, "\n") != strings.Join(wantGroups, "\n") {
			r.Violation("C31:groups", fmt.Sprintf("the groups are %q, %v, want %q", got, err, wantGroups), d)
		}
		r.Count("groups", len(gs))
	})
	if p != nil {
		r.Violation("C31:panic", p.Error(), d+"\n"+p.Stack)
	}
}

// same compares dependencies; a name without any is as good as no name.
func same(a, b map[string][]string) bool {
	for _, m := range []map[string][]string{a, b} {
		for k := range m {
			if fmt.Sprintf("%q", a[k]) != fmt.Sprintf("%q", b[k]) {
				return false
			}
		}
	}
	return true
}

func yaml(rng *rand.Rand, deps map[string][]string) string {
	if rng.Intn(4) == 0 {
		b, _ := json.Marshal(map[string]interface{}{"dependencies": deps}) // JSON is YAML
		return string(b)
	}
	var names []string
	for n := range deps {
		names = append(names, n)
	}
	sort.Strings(names)
	var s strings.Builder
	s.WriteString("# comment\ndependencies:\n")
	if len(names) == 0 {
		s.WriteString("    {}\n")
	}
	for _, n := range names {
		if len(deps[n]) == 0 {
			fmt.Fprintf(&s, "    %q: []\n", n)
			continue
		}
		fmt.Fprintf(&s, "    %q:\n", n)
		for _, d := range deps[n] {
			fmt.Fprintf(&s, "        - %q\n", d)
		}
	}
	return s.String()
}

func content(rng *rand.Rand) []byte {
	n := rng.Intn(40)
	switch rng.Intn(6) {
	case 0:
		n = 0
	case 1:
		n = 1<<uint(9+rng.Intn(9)) + rng.Intn(3) - 1
	}
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// pair checks comparing two files, and whether files exist.
func pair(r *report.Run, rng *rand.Rand, dir string) {
	a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
	x := content(rng)
	y := append([]byte{}, x...)
	kind := "equal"
	switch rng.Intn(7) {
	case 0:
		y = content(rng)
		kind = "unrelated"
	case 1:
		y = append(y, byte(rng.Intn(256)))
		kind = "longer"
	case 2:
		kind = "one byte"
		if len(y) > 0 {
			at := []int{0, len(y) - 1, rng.Intn(len(y))}[rng.Intn(3)]
			y[at] ^= 1 << uint(rng.Intn(8))
		}
	case 3:
		kind = "line ends"
		x = []byte("a\nb\n")
		y = [][]byte{[]byte("a\r\nb\r\n"), []byte("a\nb"), []byte("a\n b\n"), []byte("A\nb\n")}[rng.Intn(4)]
	}
	if rng.Intn(2) == 0 {
		x, y = y, x
	}
	stage.Put(a, string(x))
	stage.Put(b, string(y))
	unreadable := false
	exists := true
	switch rng.Intn(12) {
	case 0:
		os.Remove(b)
		unreadable, exists = true, false
	case 1:
		os.Remove(b)
		stage.Mkdir(b)
		unreadable = true
	case 2:
		os.Remove(b)
		os.Symlink(a, b)
		y = x
	case 3:
		os.Remove(b)
		os.Symlink(filepath.Join(dir, "nowhere"), b)
		unreadable, exists = true, false
	}
	d := fmt.Sprintf("%s, %d and %d bytes, unreadable %v", kind, len(x), len(y), unreadable)
	r.Distinct(d)
	p := r.Case(d, func() {
		for k := 0; k < 2; k++ {
			r.Eval(1)
			eq, err := test.FileContentsEqual(a, b)
			switch {
			case unreadable:
				r.Count("unreadable_pairs", 1)
				if err == nil || eq {
					r.Violation("C31:unreadable", fmt.Sprintf("comparing with a file that cannot be read gives %v, %v", eq, err), d)
				}
			case err != nil || eq != bytes.Equal(x, y):
				r.Violation("C31:compare", fmt.Sprintf("comparing gives %v, %v", eq, err), d)
			case eq:
				r.Count("equal_pairs", 1)
			default:
				r.Count("unequal_pairs", 1)
			}
			a, b = b, a
		}
		if !test.FileExists(a) || test.FileExists(b) != exists || !test.FileExists(dir) || test.FileExists(filepath.Join(dir, "c")) {
			r.Violation("C31:exists", "FileExists is wrong", d)
		}
	})
	if p != nil {
		r.Violation("C31:panic", p.Error(), d+"\n"+p.Stack)
	}
}

// build checks building sources, which are to stay as they are.
func build(r *report.Run, rng *rand.Rand, i int) {
	n := 1 + rng.Intn(4)
	srcs := make([][]byte, n)
	for k := range srcs {
		srcs[k] = []byte(fmt.Sprintf("package p\n\nimport \"strconv\"\n\nfunc f%d() string { return strconv.Itoa(%d) }\n", k, k))
		if k > 0 {
			srcs[k] = append(srcs[k], fmt.Sprintf("\nvar v%d = f%d()\n", k, k-1)...)
		}
	}
	mistake := ""
	if i%2 == 1 {
		at := rng.Intn(n)
		switch i / 2 % 5 {
		case 0:
			mistake = "syntax"
			srcs[at] = append(srcs[at], "func {\n"...)
		case 1:
			mistake = "undefined"
			srcs[at] = append(srcs[at], "var w = g()\n"...)
		case 2:
			mistake = "type"
			srcs[at] = append(srcs[at], fmt.Sprintf("var w int = f%d()\n", at)...)
		case 3:
			mistake = "package"
			srcs = append(srcs, []byte("package q\n"))
		case 4:
			mistake = "twice"
			srcs = append(srcs, srcs[at])
		}
	}
	var before [][]byte
	for _, s := range srcs {
		before = append(before, append([]byte{}, s...))
	}
	d := fmt.Sprintf("mistake %q in\n%s", mistake, bytes.Join(srcs, []byte("----\n")))
	r.Distinct(d)
	p := r.Case(d, func() {
		r.Eval(1)
		out, err := test.Build(srcs)
		switch {
		case mistake == "" && err != nil:
			r.Violation("C31:build-refused", "good sources do not build: "+err.Error(), d+"\n"+string(out))
		case mistake != "" && err == nil:
			r.Violation("C31:build-accepted", "bad sources build", d+"\n"+string(out))
		case mistake != "" && len(out) == 0:
			r.Violation("C31:build-output", "no output says what is wrong", d)
		case mistake != "":
			r.Count("builds_bad", 1)
		default:
			r.Count("builds_good", 1)
		}
		for k := range before {
			if k >= len(srcs) || !bytes.Equal(before[k], srcs[k]) {
				r.Violation("C31:build-altered", "the sources are altered", d)
			}
		}
	})
	if p != nil {
		r.Violation("C31:panic", p.Error(), d+"\n"+p.Stack)
	}
}

// outcome is what a test in the helper process came to.
type outcome struct {
	Visited  []string
	Passed   bool
	Compared bool
	Dir      string
	Was      bool
	Gone     bool
}

// tests runs the helpers that need a running test in another process.
func tests(r *report.Run, rng *rand.Rand, dir string) {
	var want []string
	for k, n := 0, 1+rng.Intn(5); k < n; k++ {
		f := filepath.Join(dir, fmt.Sprintf("%d.in", k))
		stage.Put(f, "x")
		want = append(want, f)
	}
	stage.Put(filepath.Join(dir, "other"), "x")
	equal := rng.Intn(2) == 0
	a, b := content(rng), content(rng)
	if equal {
		b = a
	} else if bytes.Equal(a, b) {
		b = append(append([]byte{}, a...), 1)
	}
	stage.Put(filepath.Join(dir, "a"), string(a))
	stage.Put(filepath.Join(dir, "b"), string(b))
	failing := ""
	if rng.Intn(2) == 0 {
		failing = want[rng.Intn(len(want))]
		stage.Put(filepath.Join(dir, "fail"), failing)
	}
	tmp := filepath.Join(dir, "tmp")
	stage.Mkdir(tmp)
	d := fmt.Sprintf("%d files, equal %v, failing %v", len(want), equal, failing != "")
	r.Distinct(d)
	r.Eval(1)
	exe, err := os.Executable()
	if err != nil {
		report.Fatal("%v", err)
	}
	cmd := exec.Command(exe, "helper", dir)
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
	out, err := cmd.CombinedOutput()
	text, rerr := os.ReadFile(filepath.Join(dir, "outcome"))
	var o outcome
	if rerr != nil || json.Unmarshal(text, &o) != nil {
		if bytes.Contains(out, []byte("panic:")) {
			r.Violation("C31:panic", "the tests panic", d+"\n"+string(out))
			return
		}
		report.Fatal("helper ended with %v: %s", err, out)
	}
	sort.Strings(o.Visited)
	if fmt.Sprintf("%q", o.Visited) != fmt.Sprintf("%q", want) {
		r.Violation("C31:glob", fmt.Sprintf("the test ran on %q, want %q", o.Visited, want), d)
	}
	if o.Passed != (failing == "") {
		r.Violation("C31:glob-result", fmt.Sprintf("the test passed: %v", o.Passed), d)
	}
	if o.Compared != equal {
		r.Violation("C31:assert", fmt.Sprintf("the assertion that files are equal held: %v", o.Compared), d)
	}
	if !o.Was || !o.Gone || !strings.HasPrefix(o.Dir, tmp+"/") {
		r.Violation("C31:temp", fmt.Sprintf("temporary directory %q, there %v, gone after cleaning up %v", o.Dir, o.Was, o.Gone), d)
	}
	if failing == "" {
		r.Count("passing_tests", 1)
	} else {
		r.Count("failing_tests", 1)
	}
}

// helper runs tests that note what they came to; it does not return.
func helper(dir string) {
	fail, _ := os.ReadFile(filepath.Join(dir, "fail"))
	var o outcome
	match := func(pat, s string) (bool, error) { return true, nil }
	testing.Main(match, []testing.InternalTest{
		{Name: "Glob", F: func(t *testing.T) {
			defer func() { o.Passed = !t.Failed() }()
			test.Glob(t, filepath.Join(dir, "*.in"), func(t *testing.T, f string) {
				o.Visited = append(o.Visited, f)
				if f == string(fail) {
					t.Fail()
				}
			})
		}},
		{Name: "Compare", F: func(t *testing.T) {
			defer func() { o.Compared = !t.Failed() }()
			test.AssertFileContentsEqual(t, filepath.Join(dir, "a"), filepath.Join(dir, "b"))
		}},
		{Name: "Temp", F: func(t *testing.T) {
			d, clean := test.TempDir(t)
			o.Dir = d
			i, err := os.Stat(d)
			o.Was = err == nil && i.IsDir()
			os.WriteFile(filepath.Join(d, "x"), []byte("x"), 0o600)
			clean()
			_, err = os.Stat(d)
			o.Gone = os.IsNotExist(err)
		}},
		{Name: "Outcome", F: func(t *testing.T) {
			b, _ := json.Marshal(o)
			if err := os.WriteFile(filepath.Join(dir, "outcome"), b, 0o600); err != nil {
				t.Error(err)
			}
		}},
	}, nil, nil)
}

package stage

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/mmcloughlin/trunnel/verif/report"
)

// Content reads all files below a directory; names of directories end in "/".
func Content(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if os.IsNotExist(err) && p == dir {
			return nil
		}
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		if !i.Mode().IsRegular() {
			m[rel] = i.Mode().String()
			return nil
		}
		b, err := os.ReadFile(p)
		m[rel] = string(b)
		return err
	})
	if err != nil {
		report.Fatal("%v", err)
	}
	return m
}

// Names lists the names of Content.
func Names(m map[string]string) string {
	var s []string
	for n := range m {
		s = append(s, n)
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// Mkdir makes a directory.
func Mkdir(elem ...string) string {
	d := filepath.Join(elem...)
	if err := os.MkdirAll(d, 0o755); err != nil {
		report.Fatal("%v", err)
	}
	return d
}

// Put writes a file.
func Put(file, data string) {
	if err := os.WriteFile(file, []byte(data), 0o644); err != nil {
		report.Fatal("%v", err)
	}
}

// Difference shows the first place where two texts differ.
func Difference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-200, i+300
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("first difference at byte %d\n--- one\n%s\n--- other\n%s", i, cut(a), cut(b))
}

var fullOnce sync.Once
var full = "/dev/full"

// Full is the name of a file that can be opened but not written to. A file of the
// process itself in /proc is preferred: reading it comes to an end, and nothing
// about it can be changed.
func Full() string {
	fullOnce.Do(func() {
		const name = "/proc/self/cmdline"
		f, err := os.OpenFile(name, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		if _, err := f.Write([]byte("x")); err != nil {
			full = name
		}
	})
	return full
}

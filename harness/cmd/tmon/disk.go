package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mmcloughlin/trunnel/tv"

	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
	"github.com/mmcloughlin/trunnel/verif/stage"
)

// diskVector makes data of awkward sizes and content.
func diskVector(rng *rand.Rand) []byte {
	var b []byte
	switch rng.Intn(12) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		b = make([]byte, 1<<uint(8+rng.Intn(10))+rng.Intn(3)-1)
	case 3:
		return []byte(strings.Repeat("\n", 1+rng.Intn(3)))
	case 4:
		return make([]byte, rng.Intn(20))
	case 5:
		return []byte{byte(rng.Intn(3))}
	default:
		b = make([]byte, 1+rng.Intn(40))
	}
	rng.Read(b)
	return b
}

func diskCorpus(rng *rand.Rand) *tv.Corpus {
	c := &tv.Corpus{}
	var pool [][]byte
	types := rng.Intn(6)
	for k := 0; k < types; k++ {
		name := specgen.Word(rng)
		if rng.Intn(5) == 0 && k > 0 {
			name = c.Suites[rng.Intn(k)].Type // again
		}
		n := rng.Intn(6)
		if rng.Intn(12) == 0 {
			n = 50 + rng.Intn(100)
		}
		vs := []tv.Vector{}
		for j := 0; j < n; j++ {
			b := diskVector(rng)
			if len(pool) > 0 && rng.Intn(5) == 0 {
				b = pool[rng.Intn(len(pool))]
			}
			if n := len(pool); n > 0 && len(pool[n-1]) > 2 && rng.Intn(4) == 0 {
				// Like the one before but for one byte.
				b = append([]byte{}, pool[n-1]...)
				b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
			}
			pool = append(pool, b)
			v := tv.NewVector(b)
			if rng.Intn(4) == 0 {
				v.Constraints.Set("ctx", "f", int64(rng.Intn(5)))
			}
			vs = append(vs, v)
		}
		c.AddVectors(name, vs)
	}
	return c
}

// layout is what a corpus looks like on disk.
func layout(c *tv.Corpus) map[string]string {
	m := map[string]string{}
	for _, s := range c.Suites {
		m[s.Type+"/"] = ""
		m[s.Type+"/corpus/"] = ""
		for _, v := range s.Vectors {
			h := sha256.Sum256(v.Data)
			m[s.Type+"/corpus/"+hex.EncodeToString(h[:])] = string(v.Data)
		}
	}
	return m
}

func describeCorpus(c *tv.Corpus) string {
	var b strings.Builder
	for _, s := range c.Suites {
		fmt.Fprintf(&b, "suite %s\n", s.Type)
		for _, v := range s.Vectors {
			if len(v.Data) > 100 {
				fmt.Fprintf(&b, "  %d bytes %x... %v\n", len(v.Data), v.Data[:20], v.Constraints)
			} else {
				fmt.Fprintf(&b, "  %x %v\n", v.Data, v.Constraints)
			}
		}
	}
	return b.String()
}

// missing names what is on disk and should not be, or is not and should be.
func missing(want, got map[string]string) string {
	for n, c := range want {
		if g, ok := got[n]; !ok {
			return n + " is missing"
		} else if g != c {
			return fmt.Sprintf("%s has other content: %d bytes instead of %d", n, len(g), len(c))
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok && n != "./" {
			return n + " is not of the corpus"
		}
	}
	return ""
}

func c30(r *report.Run) {
	r.Rule = "random corpora with empty, repeated, equal and large vectors, suites without vectors and repeated suites, written to new directories, again to the same one, and to directories with other content; every file and directory is made impossible to write in turn; non-trivial: distinct corpus"
	r.Assume("a writer that replaces files instead of writing through links is accepted, if the result is right")
	root := stage.Scratch()
	r.Parallel("corpus", r.Pick(300, 3000), func(i int, rng *rand.Rand) {
		c := diskCorpus(rng)
		d := describeCorpus(c)
		dir := filepath.Join(root, fmt.Sprint("c", i))
		defer os.RemoveAll(dir)
		want := layout(c)
		before := stage.Dump(c.Suites)
		write := func(what, to string) error {
			var err error
			r.Eval(1)
			if p := r.Case(what+"\n"+d, func() { err = tv.WriteCorpus(c, to) }); p != nil {
				r.Violation("C30:panic", what+": "+p.Error(), d+"\n"+p.Stack)
				return p
			}
			return err
		}
		expect := func(key, what, to string, want map[string]string) bool {
			if err := write(what, to); err != nil {
				r.Violation("C30:"+key, what+" fails: "+err.Error(), d)
				return false
			}
			if s := missing(want, stage.Content(to)); s != "" {
				r.Violation("C30:"+key, what+": "+s, d)
				return false
			}
			return true
		}
		r.Distinct(d)
		if i < 3 {
			r.Sample(d)
		}
		at := dir
		if rng.Intn(2) == 0 {
			at = filepath.Join(dir, "not", "yet")
		}
		if len(c.Suites) == 0 {
			stage.Mkdir(at)
		}
		if !expect("files", "writing to a new directory", at, want) {
			return
		}
		r.Count("corpora", 1)
		r.Count("files", len(want))
		if !expect("again", "writing again", at, want) {
			return
		}
		if now := stage.Dump(c.Suites); now != before {
			r.Violation("C30:altered", "the corpus is altered by writing it", d)
		}
		// Among other files, and over shorter and longer ones.
		over := filepath.Join(dir, "over")
		all := map[string]string{}
		for n, x := range want {
			all[n] = x
		}
		var names []string
		for n := range want {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if strings.HasSuffix(n, "/") {
				stage.Mkdir(over, n)
				stage.Put(filepath.Join(over, n, "kept"), "other "+n)
				all[n+"kept"] = "other " + n
			}
		}
		stage.Mkdir(over)
		for _, n := range names {
			if !strings.HasSuffix(n, "/") && rng.Intn(2) == 0 {
				stage.Put(filepath.Join(over, n), []string{"", want[n] + "longer than it should be", "x"}[rng.Intn(3)])
			}
		}
		if !expect("over", "writing among other files", over, all) {
			return
		}
		// Obstacles.
		rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		if len(names) > 12 {
			names = names[:12]
		}
		for k, n := range names {
			to := stage.Mkdir(dir, fmt.Sprint("o", k))
			path := filepath.Join(to, n)
			stage.Mkdir(filepath.Dir(path))
			what := ""
			switch {
			case strings.HasSuffix(n, "/"):
				what = "a file is where " + n + " should be"
				stage.Put(path, "in the way")
			case want[n] != "" && rng.Intn(2) == 0:
				what = n + " cannot hold anything"
				if err := os.Symlink(stage.Full(), path); err != nil {
					report.Fatal("%v", err)
				}
			default:
				what = "a directory is where " + n + " should be"
				stage.Mkdir(path)
			}
			err := write(what, to)
			if err == nil {
				if s := missing(want, stage.Content(to)); s != "" {
					r.Violation("C30:silent", "writing succeeds although "+what+": "+s, d)
					return
				}
				r.Count("obstacles_replaced", 1)
				continue
			}
			r.Count("obstacles_reported", 1)
		}
	})
	r.Require("corpora", 100)
	r.Require("files", 500)
	r.Require("obstacles_reported", 200)
}

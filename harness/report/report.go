// Package report is the common frame of the monitors: it supervises the run in
// a child process, records what was observed, and turns it into a verdict,
// replay files and the evidence file.
//
// Verdicts are three-valued. Exit 0: the property held on everything observed.
// Exit 1: some observation contradicts it. Anything else: no verdict (the
// harness could not be built, the run observed too little, or the harness
// itself failed).
package report

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
)

const (
	root     = "/verif"
	slotSize = 1 << 16
	slots    = 64

	// caseCPU is the processor time one case may use, over all threads of the
	// process, before it counts as not terminating. Cases take milliseconds.
	caseCPU = 240 * time.Second
	// heapLimit is the live heap at which a run counts as running away.
	heapLimit = 10 << 30
)

// Exit codes of the child.
const (
	exitHeld      = 0
	exitViolated  = 1
	exitHarness   = 3
	exitHang      = 5
	exitTooLittle = 4
	exitRace      = 66 // set by the race detector
)

// Run is one run of a check.
type Run struct {
	ID    string
	Tier  string
	Seed  int64
	Level string
	Rule  string

	start    time.Time
	evals    int64
	mu       sync.Mutex
	distinct map[[8]byte]struct{}
	counters map[string]int64
	samples  []string
	viol     map[string]violation
	nviol    int64
	require  map[string]int64
	assume   []string
	known    map[string]string
	slotmem  []byte
	limit    int64 // processor time per case
	slotfree chan int
	active   [slots]int64 // process CPU time at case start, 0 if idle

	// Brief runs of Parallel end soon after a violation.
	Brief bool
	bad   int64
}

type violation struct {
	key, what, replay string
}

// Thorough reports whether the thorough tier was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Rand returns a generator that depends on the seed and the given labels only.
func (r *Run) Rand(labels ...interface{}) *rand.Rand {
	return rand.New(rand.NewSource(r.Derive(labels...)))
}

// Derive derives a seed from the run's seed and labels.
func (r *Run) Derive(labels ...interface{}) int64 {
	h := sha256.Sum256([]byte(fmt.Sprint(append([]interface{}{r.Seed}, labels...)...)))
	return int64(binary.LittleEndian.Uint64(h[:8]) >> 1)
}

// Eval counts n evaluated cases.
func (r *Run) Eval(n int) { atomic.AddInt64(&r.evals, int64(n)) }

// Distinct records a distinct non-trivial case.
func (r *Run) Distinct(key string) {
	h := sha256.Sum256([]byte(key))
	var k [8]byte
	copy(k[:], h[:8])
	r.mu.Lock()
	r.distinct[k] = struct{}{}
	r.mu.Unlock()
}

// Count adds to a named counter.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// Snapshot copies the counters.
func (r *Run) Snapshot(to map[string]int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, v := range r.counters {
		to[k] += v
	}
}

// Require makes the run inconclusive unless the counter reaches min.
func (r *Run) Require(name string, min int) { r.require[name] = int64(min) }

// Assume records an assumption of the run.
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Sample records an example case.
func (r *Run) Sample(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

// Violation records a violation. Violations with equal keys are merged.
func (r *Run) Violation(key, what, replay string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nviol++
	if _, ok := r.known[key]; !ok {
		atomic.StoreInt64(&r.bad, 1)
	}
	if old, ok := r.viol[key]; ok && len(old.replay) <= len(replay) {
		return
	}
	r.viol[key] = violation{key, what, replay}
}

// Violated reports whether some violation that is not a known finding was seen.
func (r *Run) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range r.viol {
		if _, ok := r.known[k]; !ok {
			return true
		}
	}
	return false
}

// CaseCPU sets the processor time one case may use.
func (r *Run) CaseCPU(seconds int) { atomic.StoreInt64(&r.limit, int64(seconds)*int64(time.Second)) }

// Fatal stops the run without a verdict.
func Fatal(format string, a ...interface{}) {
	os.Stderr.WriteString(printable(fmt.Sprintf("HARNESS: "+format+"\n", a...)))
	os.Exit(exitHarness)
}

// Panicked describes a recovered panic of the code under test.
type Panicked struct {
	Value interface{}
	Stack string
}

func (p *Panicked) Error() string { return fmt.Sprintf("panic: %v", p.Value) }

// Case runs code under test. The description is written ahead so that it is
// known even if the process does not survive. The result is non-nil if the
// code panicked.
func (r *Run) Case(desc string, fn func()) (p *Panicked) {
	s := <-r.slotfree
	mem := r.slotmem[s*slotSize : (s+1)*slotSize]
	if len(desc) > slotSize-4 {
		desc = desc[:slotSize-4]
	}
	copy(mem[4:], desc)
	binary.LittleEndian.PutUint32(mem, uint32(len(desc)))
	atomic.StoreInt64(&r.active[s], int64(cpu())+1)
	defer func() {
		if v := recover(); v != nil {
			p = &Panicked{v, string(debug.Stack())}
		}
		atomic.StoreInt64(&r.active[s], 0)
		binary.LittleEndian.PutUint32(mem, 0)
		r.slotfree <- s
	}()
	fn()
	return nil
}

// Parallel runs fn for 0..n-1 on all processors, each with its own generator.
func (r *Run) Parallel(label string, n int, fn func(i int, rng *rand.Rand)) {
	r.ParallelN(label, n, runtime.GOMAXPROCS(0), fn)
}

// ParallelN is Parallel with a number of workers.
func (r *Run) ParallelN(label string, n, workers int, fn func(i int, rng *rand.Rand)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					Fatal("monitor panicked: %v\n%s", v, debug.Stack())
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if r.Brief && atomic.LoadInt64(&r.bad) > 0 && atomic.AddInt64(&r.bad, 1) > 200 {
					return
				}
				fn(i, r.Rand(label, i))
			}
		}()
	}
	wg.Wait()
}

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func (r *Run) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		now := int64(cpu())
		for i := range r.active {
			if s := atomic.LoadInt64(&r.active[i]); s != 0 && now-s > atomic.LoadInt64(&r.limit) {
				fmt.Fprintf(os.Stderr, "RUNAWAY: a case used more than %s of processor time\n", time.Duration(r.limit))
				os.Exit(exitHang)
			}
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			fmt.Fprintf(os.Stderr, "RUNAWAY: live heap of %d bytes\n", ms.HeapAlloc)
			os.Exit(exitHang)
		}
	}
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// New prepares a run; see Main.
func newRun(id, level string) *Run {
	seed, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		Fatal("VERIF_SEED: %v", err)
	}
	tier := env("VERIF_TIER", "quick")
	if tier != "quick" && tier != "thorough" {
		Fatal("VERIF_TIER=%q", tier)
	}
	r := &Run{
		ID: id, Tier: tier, Seed: seed, Level: level,
		start:    time.Now(),
		distinct: map[[8]byte]struct{}{},
		counters: map[string]int64{},
		viol:     map[string]violation{},
		require:  map[string]int64{},
		known:    knownFindings(id),
		slotfree: make(chan int, slots),
		limit:    int64(caseCPU),
	}
	for i := 0; i < slots; i++ {
		r.slotfree <- i
	}
	// The run starts with its first process.
	if ns, err := strconv.ParseInt(os.Getenv("VERIF_START"), 10, 64); err == nil {
		r.start = time.Unix(0, ns)
	} else {
		os.Setenv("VERIF_START", fmt.Sprint(r.start.UnixNano()))
	}
	return r
}

// knownFindings reads the committed list: lines "known: property=ID key=KEY text".
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return m
}

// FlushKnown prints the known findings seen so far, before another program
// takes over the run.
func (r *Run) FlushKnown() {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range r.viol {
		if what, ok := r.known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, what)
		}
	}
}

// Main runs body under supervision and exits with the verdict.
func Main(id, level string, body func(r *Run)) {
	if os.Getenv("VERIF_CHILD") == "" {
		supervise(id, level)
		return
	}
	debug.SetMaxStack(256 << 20)
	r := newRun(id, level)
	f, err := os.OpenFile(os.Getenv("VERIF_CHILD"), os.O_RDWR, 0)
	if err != nil {
		Fatal("%v", err)
	}
	r.slotmem, err = syscall.Mmap(int(f.Fd()), 0, slots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		Fatal("%v", err)
	}
	go r.watchdog()
	func() {
		defer func() {
			if v := recover(); v != nil {
				Fatal("monitor panicked: %v\n%s", v, debug.Stack())
			}
		}()
		body(r)
	}()
	os.Exit(r.finish())
}

func supervise(id, level string) {
	r := newRun(id, level)
	os.Remove(filepath.Join(root, "evidence", id+".json"))
	f, err := os.CreateTemp("", "verif-slots-")
	if err != nil {
		Fatal("%v", err)
	}
	defer os.Remove(f.Name())
	if err := f.Truncate(slots * slotSize); err != nil {
		Fatal("%v", err)
	}
	self, err := os.Executable()
	if err != nil {
		Fatal("%v", err)
	}
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+f.Name())
	cmd.Stdout = os.Stdout
	tail := &tailBuffer{max: 256 << 10}
	cmd.Stderr = tail
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	stderr := tail.String()
	switch code {
	case exitHeld, exitViolated:
		os.Stderr.WriteString(printable(stderr))
		os.Remove(f.Name())
		os.Exit(code)
	case exitHarness, exitTooLittle:
		os.Stderr.WriteString(printable(stderr))
		os.Remove(f.Name())
		os.Exit(code)
	case exitRace:
		os.Remove(f.Name())
		r.races(stderr)
		os.Exit(r.finish())
	}
	// The process died in some other way. If it was running code under test,
	// that is an observation; otherwise it is an error of the harness.
	mem := make([]byte, slots*slotSize)
	f.ReadAt(mem, 0)
	os.Remove(f.Name())
	var armed []string
	for i := 0; i < slots; i++ {
		s := mem[i*slotSize : (i+1)*slotSize]
		if n := binary.LittleEndian.Uint32(s); n > 0 && n < slotSize {
			armed = append(armed, string(s[4:4+n]))
		}
	}
	head := stderr
	if len(head) > 4000 {
		head = head[:4000]
	}
	os.Stderr.WriteString(printable(head))
	crash := strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "SIGSEGV") || code == exitHang ||
		strings.Contains(stderr, "panic:")
	if len(armed) == 0 && crash && strings.Contains(stderr, "WARNING: DATA RACE") {
		r.Rule = "the run ended early: a data race brought it down"
		r.races(stderr)
		os.Exit(r.finish())
	}
	if len(armed) == 0 || !crash {
		fmt.Fprintf(os.Stderr, "HARNESS: child ended with %v\n", err)
		os.Exit(2)
	}
	what := "process died running code under test"
	if code == exitHang {
		what = "code under test does not terminate or exhausts memory"
	}
	r.Eval(1)
	r.Rule = "the run ended early: " + what
	r.Violation("crash", what, fmt.Sprintf("%s: %v\n\n--- cases running at that time\n%s\n\n--- standard error\n%s",
		what, err, strings.Join(armed, "\n----\n"), head))
	os.Exit(r.finish())
}

// races turns the race detector's reports into violations, one for each pair of
// source positions, on top of what the child recorded.
func (r *Run) races(stderr string) {
	if b, err := os.ReadFile(filepath.Join(root, "evidence", r.ID+".json")); err == nil {
		var ev struct {
			Coverage map[string]interface{}
		}
		if json.Unmarshal(b, &ev) == nil {
			for k, v := range ev.Coverage {
				switch v := v.(type) {
				case float64:
					switch k {
					case "evaluations":
						r.evals = int64(v)
					case "distinct_nontrivial":
						for i := 0; i < int(v); i++ {
							r.Distinct(fmt.Sprint("child", i))
						}
					default:
						r.counters[k] = int64(v)
					}
				case string:
					if k == "rule" {
						r.Rule = v
					}
				}
			}
		}
	}
	for _, rep := range strings.Split(stderr, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var where []string
		for _, l := range strings.Split(rep, "\n") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, "/repo/"); i >= 0 {
				where = append(where, strings.Fields(l[i:])[0])
			}
		}
		sort.Strings(where)
		if len(where) > 2 {
			where = where[:2]
		}
		r.Violation("race:"+strings.Join(where, ","), "data race", rep)
	}
}

type tailBuffer struct {
	b   bytes.Buffer
	max int
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	if room := t.max - t.b.Len(); room > 0 {
		if len(p) > room {
			t.b.Write(p[:room])
		} else {
			t.b.Write(p)
		}
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { return t.b.String() }

// finish writes evidence and replays and returns the exit code.
func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	var keys, newKeys []string
	for k := range r.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if what, ok := r.known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, what)
			continue
		}
		newKeys = append(newKeys, k)
	}
	dir := filepath.Join(root, "replay")
	os.MkdirAll(dir, 0o755)
	old, _ := filepath.Glob(filepath.Join(dir, r.ID+"-*.txt"))
	for _, f := range old {
		os.Remove(f)
	}
	var vs []map[string]string
	for i, k := range newKeys {
		v := r.viol[k]
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", r.ID, i))
		if i < 20 {
			text := fmt.Sprintf("property: %s\nkey: %s\nseed: %d tier: %s\n%s\n\n%s\n", r.ID, v.key, r.Seed, r.Tier, v.what, v.replay)
			os.WriteFile(path, []byte(printable(text)), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
			fmt.Printf("  %s: %s\n", printable(v.key), clip(v.what, 600))
		}
		vs = append(vs, map[string]string{"key": v.key, "what": v.what, "replay": path})
	}
	short := []string{}
	for name, min := range r.require {
		if r.counters[name] < min {
			short = append(short, fmt.Sprintf("%s=%d (need %d)", name, r.counters[name], min))
		}
	}
	sort.Strings(short)
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             append([]string{}, r.samples...),
	}
	for k, v := range r.counters {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
	}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	ev["violations"] = len(newKeys)
	if len(vs) > 0 {
		cov["violation_list"] = vs
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		Fatal("%v", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		Fatal("%v", err)
	}
	fmt.Printf("%s tier=%s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n",
		r.ID, r.Tier, r.Seed, r.evals, len(r.distinct), len(newKeys), time.Since(r.start).Seconds())
	var cs []string
	for k, v := range r.counters {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Printf("  observed: %s\n", strings.Join(cs, " "))
	if len(newKeys) > 0 {
		return exitViolated
	}
	if len(short) > 0 || r.evals == 0 {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed too little: %s\n", strings.Join(short, ", "))
		return exitTooLittle
	}
	return exitHeld
}

func clip(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > n {
		s = s[:n] + "..."
	}
	return printable(s)
}

// printable escapes what would upset a reader of text.
func printable(s string) string {
	var b strings.Builder
	for i, w := 0, 0; i < len(s); i += w {
		var c rune
		c, w = utf8.DecodeRuneInString(s[i:])
		switch {
		case c == utf8.RuneError && w == 1, c < ' ' && c != '\n' && c != '\t', c == 0x7f:
			fmt.Fprintf(&b, "\\x%02x", s[i])
		default:
			b.WriteString(s[i : i+w])
		}
	}
	return b.String()
}

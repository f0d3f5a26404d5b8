// Package vk is the common frame of all checks: cases, violations, known
// findings, evidence. It knows nothing about the code under test.
package vk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one run of one check.
type Run struct {
	Prop     string
	Tier     string
	Seed     int
	Thorough bool

	start    time.Time
	deadline time.Time

	evals, trans, traces atomic.Int64
	more                 atomic.Int64
	states               [64]stateShard

	mu         sync.Mutex
	samples    []any
	violations int
	known      map[string]string // key -> text
	knownSeen  map[string]bool
	extra      map[string]any
	bounds     []string
	assume     []string
	capped     string
	only       string
	replays    int
	fatal      bool

	running sync.Map // worker token -> *runningCase
}

type stateShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type runningCase struct {
	since atomic.Int64
	key   atomic.Pointer[func() string]
}

var seed = maphash.MakeSeed()

// Hash hashes a string for state counting.
func Hash(s string) uint64 { return maphash.String(seed, s) }

// State records a distinct observed state.
func (r *Run) State(h uint64) bool {
	sh := &r.states[h&63]
	sh.mu.Lock()
	_, seen := sh.m[h]
	if !seen {
		sh.m[h] = struct{}{}
	}
	sh.mu.Unlock()
	return !seen
}

func (r *Run) StateStr(s string) bool { return r.State(Hash(s)) }

func (r *Run) stateCount() int64 {
	n := r.more.Load()
	for i := range r.states {
		n += int64(len(r.states[i].m))
	}
	return n
}

// States adds states counted elsewhere.
func (r *Run) States(n int64) { r.more.Add(n) }

// Trans counts executed steps (transitions) of the code under test.
func (r *Run) Trans(n int) { r.trans.Add(int64(n)) }

// Trace counts complete behaviours executed on the implementation and compared.
func (r *Run) Trace(n int) { r.traces.Add(int64(n)) }

// Sample keeps an example for the evidence (the first few only).
func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// Bound records a stated bound for the evidence.
func (r *Run) Bound(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.bounds = append(r.bounds, fmt.Sprintf(format, a...))
}

func (r *Run) Assume(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.assume = append(r.assume, fmt.Sprintf(format, a...))
}

// Extra adds a measured figure to the evidence.
func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.extra[k] = v
}

// Capped notes that a cap was hit: the run is not exhaustive.
func (r *Run) Capped(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.capped == "" {
		r.capped = fmt.Sprintf(format, a...)
	}
}

// Expired reports whether the internal time budget is used up; the check then
// stops early, says so in its evidence, and does not claim exhaustiveness.
func (r *Run) Expired() bool {
	if time.Now().After(r.deadline) {
		r.Capped("time budget of %s used up", r.deadline.Sub(r.start))
		return true
	}
	return false
}

func (r *Run) Stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.violations >= 5 || r.fatal
}

// Worker is the per-goroutine handle used to run cases.
type Worker struct {
	*Run
	rc *runningCase
}

func (r *Run) NewWorker() *Worker {
	w := &Worker{Run: r, rc: &runningCase{}}
	r.running.Store(w, w.rc)
	return w
}

func (w *Worker) Close() { w.running.Delete(w) }

// Case runs one deterministic case: fn returns "" if the property holds.
// key names the case, and is only built when needed.
func (w *Worker) Case(key func() string, fn func() string) bool {
	if w.only != "" && key() != w.only {
		return true
	}
	w.evals.Add(1)
	w.rc.key.Store(&key)
	w.rc.since.Store(time.Now().UnixNano())
	msg := protect(fn)
	w.rc.since.Store(0)
	if msg == "" {
		return true
	}
	again := 1
	for i := 0; i < 4; i++ {
		if protect(fn) != "" {
			again++
		}
	}
	w.Violation(key(), msg, map[string]any{"failed_runs_of_5": again})
	return false
}

func protect(fn func() string) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("panic: %v\n%s", p, st)
		}
	}()
	return fn()
}

// Try runs fn and returns the recovered panic value, nil if none.
func Try(fn func()) (p any) {
	defer func() { p = recover() }()
	fn()
	return nil
}

var root = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

// Violation reports a failing case: as a known finding if it is listed, else as
// a violation with a replay file.
func (r *Run) Violation(key, msg string, detail map[string]any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if what, ok := r.known[key]; ok {
		if !r.knownSeen[key] {
			r.knownSeen[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
		}
		return
	}
	r.violations++
	if r.violations > 5 {
		return
	}
	dir := filepath.Join(root, "evidence", "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Prop, r.violations))
	doc := map[string]any{
		"property": r.Prop, "key": key, "what": msg, "tier": r.Tier,
		"replay": fmt.Sprintf("cd /verif && ./run.sh %s --replay %s", r.Prop, path),
	}
	for k, v := range detail {
		doc[k] = v
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	short := msg
	if len(short) > 1500 {
		short = short[:1500] + " ..."
	}
	fmt.Printf("  case: %s\n  %s\n", key, strings.ReplaceAll(short, "\n", "\n  "))
}

// Parallel runs fn(worker, i) for i in [0,n) on all CPUs; it stops early after
// enough violations or when the time budget is used up.
func (r *Run) Parallel(n int, fn func(w *Worker, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	step := stride(n) // where the budget ends a run early, what it covered is spread evenly
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := r.NewWorker()
			defer w.Close()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Stop() || r.Expired() {
					return
				}
				i = i * step % n
				if msg := protect(func() string { fn(w, i); return "" }); msg != "" {
					r.Violation(fmt.Sprintf("work item %d", i), msg, nil)
				}
			}
		}()
	}
	wg.Wait()
}

// stride is a number without a common factor with n, near the golden section of n.
func stride(n int) int {
	gcd := func(a, b int) int {
		for b != 0 {
			a, b = b, a%b
		}
		return a
	}
	for s := n * 618 / 1000; s > 1; s-- {
		if gcd(s, n) == 1 {
			return s
		}
	}
	return 1
}

func (r *Run) watch() {
	limit := 150 * time.Second
	for i := 0; ; i++ {
		time.Sleep(200 * time.Millisecond)
		r.memory()
		if i%10 != 0 {
			continue
		}
		now := time.Now().UnixNano()
		r.running.Range(func(_, v any) bool {
			rc := v.(*runningCase)
			s := rc.since.Load()
			if s != 0 && time.Duration(now-s) > limit {
				key := "?"
				if f := rc.key.Load(); f != nil {
					key = (*f)()
				}
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				st := string(buf)
				if len(st) > 6000 {
					st = st[:6000]
				}
				r.Violation(key, "the operation did not return (no progress for "+limit.String()+", it normally takes microseconds)\n"+st, nil)
				r.finish()
			}
			return true
		})
	}
}

// memory ends the check when the memory grows far beyond what it normally takes.
func (r *Run) memory() {
	b, _ := os.ReadFile("/proc/self/statm")
	var size, rss int
	if fmt.Sscan(string(b), &size, &rss); rss*os.Getpagesize() < 14<<30 {
		return
	}
	key, oldest := "?", int64(math.MaxInt64)
	r.running.Range(func(_, v any) bool {
		rc := v.(*runningCase)
		if s := rc.since.Load(); s != 0 && s < oldest {
			oldest = s
			if f := rc.key.Load(); f != nil {
				key = (*f)()
			}
		}
		return true
	})
	r.Violation(key, "the memory grows without bound: more than 14 GB", nil)
	r.finish()
}

func loadKnown(prop string) map[string]string {
	known := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return known
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		// known: property=C01 key="..." what failed
		line := sc.Text()
		if !strings.HasPrefix(line, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+prop+" key=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		key, _ := strconv.Unquote(q)
		known[key] = strings.TrimSpace(rest[len(q):])
	}
	return known
}

// New starts a run; budget is the internal time limit for the tier.
func New(prop string, quick, thorough time.Duration) *Run {
	r := &Run{Prop: prop, start: time.Now(), Tier: os.Getenv("VERIF_TIER"), extra: map[string]any{}, knownSeen: map[string]bool{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Thorough = r.Tier == "thorough"
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := quick
	if r.Thorough {
		budget = thorough
	}
	r.deadline = r.start.Add(budget)
	for i := range r.states {
		r.states[i].m = map[uint64]struct{}{}
	}
	r.known = loadKnown(prop)
	for i, a := range os.Args {
		if a == "--replay" && i+1 < len(os.Args) {
			b, err := os.ReadFile(os.Args[i+1])
			if err == nil {
				var doc map[string]any
				if json.Unmarshal(b, &doc) == nil {
					r.only, _ = doc["key"].(string)
				}
			}
			if r.only == "" {
				fmt.Println("cannot read replay file", os.Args[i+1])
				os.Exit(3)
			}
			if r.only == "process" {
				r.only = "" // the process died in a case unknown: all of them
			}
		}
	}
	go r.watch()
	return r
}

// Only is the case key to replay, "" for all.
func (r *Run) Only() string { return r.only }

// Add merges counts measured elsewhere (worker processes).
func (r *Run) Add(evals, trans, traces int64) {
	r.evals.Add(evals)
	r.trans.Add(trans)
	r.traces.Add(traces)
}

// Finish writes the evidence and ends the process.
func (r *Run) Finish() { r.finish() }

func (r *Run) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.fatal = true
	cov := map[string]any{
		"states":                        r.stateCount(),
		"transitions":                   r.trans.Load(),
		"traces_validated_against_impl": r.traces.Load(),
		"evaluations":                   r.evals.Load(),
		"exhaustive":                    r.capped == "" && r.violations == 0 && r.only == "",
		"bounds":                        r.bounds,
		"samples":                       r.samples,
	}
	if r.capped != "" {
		cov["cap"] = r.capped
	}
	keys := make([]string, 0, len(r.extra))
	for k := range r.extra {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[k] = r.extra[k]
	}
	doc := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": r.assume, "wall_s": time.Since(r.start).Seconds(), "violations": r.violations,
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	if r.assume == nil {
		delete(doc, "assumptions")
	}
	if r.only == "" {
		_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		b, err := json.MarshalIndent(doc, "", " ")
		if err != nil {
			fmt.Println("evidence:", err)
			os.Exit(3)
		}
		if err := os.WriteFile(filepath.Join(root, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s: %d evaluations, %d states, %d transitions, %d traces, %d violations, %.1fs%s\n", r.Prop,
		r.evals.Load(), r.stateCount(), r.trans.Load(), r.traces.Load(), r.violations, time.Since(r.start).Seconds(),
		map[bool]string{true: "", false: " [capped: " + r.capped + "]"}[r.capped == ""])
	if r.violations > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

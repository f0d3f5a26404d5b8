// Package vx explores the executions of small programs under package vs:
// depth first over the choices of the scheduler, up to a number of deviations
// from the default schedule, spread over worker processes.
package vx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/internal/zzverif/vs"
)

// Job is one small program, explored with up to Bound deviations.
type Job struct {
	Key   string
	Bound int
	// Run executes it under the given choices and judges the execution.
	Run func(prefix []int, verbose bool) (*vs.Sched, string)
}

type report struct {
	Key, Msg string   `json:",omitempty"`
	Log      []string `json:",omitempty"`

	Execs, Steps, Points int64
	Longest              int
	Capped               bool
	Fatal                string `json:",omitempty"`
}

func choices(p []int) string {
	// the tail of defaults says nothing
	for len(p) > 0 && p[len(p)-1] == 0 {
		p = p[:len(p)-1]
	}
	var b strings.Builder
	for i := 0; i < len(p); {
		j := i
		for j < len(p) && p[j] == 0 {
			j++
		}
		if b.Len() > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%d:%d", j, p[j])
		i = j + 1
	}
	return b.String()
}

func parse(s string) (p []int) {
	for _, f := range strings.Fields(s) {
		a, b, _ := strings.Cut(f, ":")
		i, _ := strconv.Atoi(a)
		c, _ := strconv.Atoi(b)
		for len(p) <= i {
			p = append(p, 0)
		}
		p[i] = c
	}
	return p
}

// Main runs the check of a property and ends the process.
func Main(prop string, quick, thorough time.Duration, jobs []Job, describe func(r *vk.Run)) {
	Sharded(prop, quick, thorough, describe, func(w *Shard) {
		only := os.Getenv("VERIF_JOB")
		for i := range jobs {
			if only != "" && !strings.Contains(jobs[i].Key, only) {
				continue
			}
			w.Explore(i, jobs[i])
		}
	}, func(r *vk.Run, only string) { Replay(r, jobs, only) })
}

// Sharded runs a check whose work is done by worker processes of one thread
// each, and ends the process.
func Sharded(prop string, quick, thorough time.Duration, describe func(r *vk.Run), work func(w *Shard), replay func(r *vk.Run, only string)) {
	if sh := os.Getenv("VERIF_SHARD"); sh != "" {
		child(sh, work)
		os.Exit(0)
	}
	r := vk.New(prop, quick, thorough)
	budget := quick
	if r.Thorough {
		budget = thorough
	}
	describe(r)
	if only := r.Only(); only != "" {
		runtime.GOMAXPROCS(1)
		replay(r, only)
		r.Finish()
	}
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var longest int
	var broken []string
	perJob := map[string]int{}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f, err := os.CreateTemp("", "vx")
			if err != nil {
				panic(err)
			}
			defer os.Remove(f.Name())
			_ = f.Truncate(1 << 16)
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d/%d", i, n), "VERIF_BEAT="+f.Name(), fmt.Sprintf("VERIF_BUDGET=%d", int(budget.Seconds())), "GOMAXPROCS=1", "GOMEMLIMIT=2500MiB")
			out, err := cmd.StdoutPipe()
			if err != nil {
				panic(err)
			}
			errFile, _ := os.CreateTemp("", "vx")
			defer os.Remove(errFile.Name())
			cmd.Stderr = errFile
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			sc := bufio.NewScanner(out)
			sc.Buffer(nil, 64<<20)
			done := false
			for sc.Scan() {
				var rep report
				if json.Unmarshal(sc.Bytes(), &rep) != nil {
					continue
				}
				if rep.Fatal != "" {
					mu.Lock()
					broken = append(broken, rep.Fatal)
					mu.Unlock()
					continue
				}
				if rep.Msg != "" {
					mu.Lock()
					base, _, _ := strings.Cut(rep.Key, " | ")
					perJob[base]++
					first := perJob[base] == 1
					mu.Unlock()
					if first {
						r.Violation(rep.Key, rep.Msg, map[string]any{"log": rep.Log})
						if r.Stop() {
							_ = cmd.Process.Kill()
						}
					}
					continue
				}
				done = true
				r.Add(rep.Execs, rep.Steps, rep.Execs)
				mu.Lock()
				longest = max(longest, rep.Longest)
				points.Add(rep.Points)
				mu.Unlock()
				if rep.Capped {
					r.Capped("time budget of %s used up", budget)
				}
			}
			err = cmd.Wait()
			if !done && !r.Stop() {
				b, _ := os.ReadFile(f.Name())
				key := strings.TrimRight(string(b), "\x00")
				if k := strings.IndexByte(key, 0); k >= 0 {
					key = key[:k]
				}
				e, _ := os.ReadFile(errFile.Name())
				if len(e) > 4000 {
					e = e[:4000]
				}
				r.Violation(key, fmt.Sprintf("the process died: %v\n%s", err, e), nil)
			}
		}()
	}
	wg.Wait()
	if len(broken) > 0 && !r.Stop() {
		fmt.Println("the code under test does something the scheduler does not control:", broken[0])
		os.Exit(3)
	}
	r.Extra("decision_points", points.Load())
	r.Extra("longest_execution_in_decisions", longest)
	r.States(points.Load())
	r.Finish()
}

var points atomic.Int64

// Shard is one worker process, number I of N.
type Shard struct {
	I, N     int
	rep      report
	beat     []byte
	deadline time.Time
	begun    atomic.Int64
	out      *json.Encoder
	job      *Job
	failed   bool
}

func child(sh string, work func(w *Shard)) {
	w := &Shard{out: json.NewEncoder(os.Stdout)}
	fmt.Sscanf(sh, "%d/%d", &w.I, &w.N)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	w.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	if f, err := os.OpenFile(os.Getenv("VERIF_BEAT"), os.O_RDWR, 0); err == nil {
		w.beat, _ = syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	debug.SetGCPercent(400)
	go w.watch()
	work(w)
	w.out.Encode(w.rep)
}

// Begin says what is being done now, for the case that it never ends or kills
// the process; End that it is over.
func (w *Shard) Begin(key string) {
	if w.beat != nil {
		n := copy(w.beat[:len(w.beat)-1], key)
		w.beat[n] = 0
	}
	w.begun.Store(time.Now().UnixNano())
}

func (w *Shard) End() { w.begun.Store(0) }

// Count adds to what is reported as covered.
func (w *Shard) Count(execs, steps, points int) {
	w.rep.Execs += int64(execs)
	w.rep.Steps += int64(steps)
	w.rep.Points += int64(points)
}

// Fail reports a violation.
func (w *Shard) Fail(key, msg string) { w.out.Encode(report{Key: key, Msg: msg}) }

func (w *Shard) Stop() bool {
	if w.failed {
		return true
	}
	if time.Now().After(w.deadline) {
		w.rep.Capped = true
		return true
	}
	return false
}

// Explore does this shard's part of exploring job number i.
func (w *Shard) Explore(i int, j Job) {
	w.job, w.failed = &j, false
	if !w.Stop() {
		w.explore(i, nil, w.job.Bound, true)
	}
	w.failed = false
}

// Replay executes a job's program once more, by the key of a violation.
func Replay(r *vk.Run, jobs []Job, only string) {
	key, ch, _ := strings.Cut(only, " | ")
	for _, j := range jobs {
		if j.Key != key {
			continue
		}
		s, msg := j.Run(parse(ch), true)
		for _, l := range s.Log {
			fmt.Println("   ", l)
		}
		if s.Crash != "" {
			fmt.Println(s.Crash)
		}
		if msg != "" {
			r.Violation(only, msg, nil)
		}
	}
}

func (w *Shard) watch() {
	for {
		time.Sleep(time.Second)
		if b := w.begun.Load(); b != 0 && time.Since(time.Unix(0, b)) > 60*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			key, _, _ := strings.Cut(string(w.beat), "\x00")
			w.out.Encode(report{Key: key, Msg: "the program neither ends nor blocks (it normally takes microseconds)\n" + string(buf[:min(len(buf), 5000)])})
			w.out.Encode(w.rep)
			os.Exit(0)
		}
	}
}

func (w *Shard) explore(job int, prefix []int, bound int, top bool) {
	key := w.job.Key + " | " + choices(prefix)
	mine := !top || job%w.N == w.I
	w.Begin(key)
	s, msg := w.job.Run(prefix, false)
	w.End()
	if s.Diverged {
		w.out.Encode(report{Fatal: "replay diverged at " + key})
		w.failed = true
		return
	}
	if mine {
		w.rep.Execs++
		w.rep.Steps += int64(s.Steps)
		w.rep.Points += int64(len(s.Trace) - len(prefix) + 1)
		w.rep.Longest = max(w.rep.Longest, len(s.Trace))
	}
	if msg != "" {
		if mine {
			t, again := w.job.Run(prefix, true)
			if again != msg && again == "" {
				w.out.Encode(report{Fatal: "verdict not repeatable at " + key + ": " + msg})
			} else {
				log := t.Log
				if len(log) > 400 {
					log = log[len(log)-400:]
				}
				w.out.Encode(report{Key: key, Msg: msg, Log: log})
			}
		}
		w.failed = true
		return
	}
	if bound == 0 {
		return
	}
	trace := s.Trace
	p := make([]int, len(trace))
	for i, c := range trace {
		p[i] = c.Took
	}
	for k := len(prefix); k < len(trace); k++ {
		for a := 1; a < trace[k].N; a++ {
			if top {
				h := fnv.New32a()
				fmt.Fprintf(h, "%d/%d/%d", job, k, a)
				if int(h.Sum32()%uint32(w.N)) != w.I {
					continue
				}
			}
			if w.Stop() {
				return
			}
			q := append(append(make([]int, 0, k+1), p[:k]...), a)
			w.explore(job, q, bound-1, false)
		}
	}
}

// Tier reports whether the thorough tier was asked for.
func Tier() bool { return os.Getenv("VERIF_TIER") == "thorough" }

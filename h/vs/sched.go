// Package vs is the world the code under test runs in when it is model checked:
// a cooperative scheduler for goroutines, channels, locks and time, and a
// simulated terminal. At most one goroutine runs at any time; at every visible
// operation the scheduler decides which one goes on, following a list of
// choices. Everything else is deterministic, so that a list of choices is an
// execution.
//
// Outside of a run (Active() == false) the operations fall back to their plain
// meaning where that makes sense.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Choice is one decision of an execution.
type Choice struct {
	N    int    // number of alternatives
	Took int    // the one taken
	What string // what it was about (only if Verbose)
}

type gState int

const (
	gReady gState = iota // may go on at once
	gWait                // at an operation that may be blocked
	gDone
)

type g struct {
	id    int
	name  string
	wake  chan struct{}
	state gState
	// a blocked operation: either a predicate or channel cases
	ready func() bool
	cases []kase
	def   bool
	got   int  // case taken
	env   bool // part of the environment
	fresh bool // environment: not paused yet
	lazy  bool // pausing: goes on only when told to, or when nothing else can
	what  string
	user  bool // inside user code
	hot   int  // statements that are still steps
	at    uintptr
	write bool // is about to write what at identifies, else to read it
}

type kase interface {
	// enabledAlone: can proceed without a partner
	alone() bool
	chanID() uintptr
	isSend() bool
	// commitAlone performs it without a partner
	commitAlone()
	// take transfers a value from the sender
	take(from kase)
}

type timer struct {
	when time.Duration
	seq  int
	fire func()
}

// Sched is one execution.
type Sched struct {
	users   map[uintptr]user
	races   []string
	gs      []*g
	cur     *g
	prefix  []int
	Trace   []Choice
	Steps   int
	MaxStep int
	Verbose bool

	timers []*timer
	tseq   int
	now    time.Duration

	Crash    string // a goroutine panicked without recovering
	Overrun  bool
	Diverged bool // the choices do not fit: the code is not deterministic
	MainDone bool
	dead     bool
	finished chan struct{}
	Log      []string
	closed   bool
	left     []Left
}

// S is the execution under way.
var S *Sched

// Active reports whether a run is under way.
func Active() bool { return S != nil && !S.closed }

type alt struct {
	g       *g
	kase    int // -1: no case (predicate, ready), -2: default
	partner *g
	pkase   int
}

// Run executes main under the given choices and returns the execution.
func Run(prefix []int, maxSteps int, verbose bool, main func()) *Sched {
	s := &Sched{prefix: prefix, MaxStep: maxSteps, Verbose: verbose, finished: make(chan struct{}, 1)}
	S = s
	clear(closedChans)
	handlers = nil
	s.spawn("main", false, func() {
		main()
		s.MainDone = true
	})
	first := s.gs[0]
	s.cur = first
	first.state = gReady
	first.wake <- struct{}{}
	<-s.finished
	s.dead = true
	// let the rest go
	for _, x := range s.gs {
		if x.state != gDone {
			s.cur = x
			x.wake <- struct{}{}
			<-s.finished
		}
	}
	s.closed = true
	S = nil
	return s
}

// Blocked describes the goroutines that have not ended.
func (s *Sched) note(f string, a ...any) {
	if s.Verbose {
		s.Log = append(s.Log, fmt.Sprintf(f, a...))
	}
}

// Left lists goroutines which never ended, as "name: what it waits for"; those
// of the environment and those inside user code are marked.
type Left struct {
	Name, What string
	Env, User  bool
}

// Leftover is filled in when the run ends.
func (s *Sched) Leftover() (l []Left) { return s.left }

func (s *Sched) collect() {
	for _, x := range s.gs {
		if x.state != gDone {
			s.left = append(s.left, Left{x.name, x.what, x.env, x.user})
		}
	}
}

func (s *Sched) spawn(name string, env bool, fn func()) *g {
	x := &g{id: len(s.gs), name: name, wake: make(chan struct{}, 1), state: gReady, env: env, what: "start"}
	s.gs = append(s.gs, x)
	go func() {
		<-x.wake
		defer func() {
			p := recover()
			x.state = gDone
			if s.dead {
				s.finished <- struct{}{}
				return
			}
			if p != nil {
				s.Crash = fmt.Sprintf("panic in goroutine %s: %v\n%s", x.name, p, trim(string(debug.Stack())))
				s.end()
				return
			}
			s.note("%s ends", x.name)
			s.next(nil)
		}()
		if s.dead {
			return
		}
		fn()
	}()
	return x
}

func trim(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/vs/") || strings.Contains(l, "runtime/") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// end stops the run: whoever calls must not run on.
func (s *Sched) end() {
	s.collect()
	s.finished <- struct{}{}
}

func (s *Sched) alts(x *g, out []alt) []alt {
	switch x.state {
	case gReady:
		return append(out, alt{g: x, kase: -1})
	case gDone:
		return out
	}
	if x.ready != nil {
		if x.ready() {
			out = append(out, alt{g: x, kase: -1})
		}
		return out
	}
	had := len(out)
	for i, k := range x.cases {
		if k.chanID() == 0 {
			continue
		}
		if k.alone() {
			out = append(out, alt{g: x, kase: i})
			continue
		}
		for _, y := range s.gs {
			if y == x || y.state != gWait || y.cases == nil {
				continue
			}
			for j, l := range y.cases {
				if l.chanID() == k.chanID() && l.isSend() != k.isSend() {
					out = append(out, alt{x, i, y, j})
				}
			}
		}
	}
	if x.def && len(out) == had {
		out = append(out, alt{g: x, kase: -2})
	}
	return out
}

// Slow is the number of a goroutine that goes on only when no other one can
// (not even the environment), by default; -1 for none. It gives every program
// as many default schedules as it has goroutines.
var Slow = -1

func (x *g) last() bool { return x.lazy || x.id == Slow }

// next picks who goes on. x is the goroutine that asks (nil if it has ended);
// next returns when x goes on.
func (s *Sched) next(x *g) {
	for {
		if s.dead {
			return
		}
		s.Steps++
		if s.Steps > s.MaxStep {
			s.Overrun = true
			s.end()
			s.parkForever(x)
			return
		}
		// the current goroutine first, then the others in order, the pausing last
		var as []alt
		if s.cur != nil && !s.cur.last() {
			as = s.alts(s.cur, as)
		}
		for _, y := range s.gs {
			if y != s.cur && !y.last() {
				as = s.alts(y, as)
			}
		}
		for _, y := range s.gs {
			if y.last() {
				as = s.alts(y, as)
			}
		}
		// one rendezvous is one alternative
		if len(as) > 1 {
			uniq := as[:0]
			for _, a := range as {
				dup := false
				if a.partner != nil {
					for _, b := range uniq {
						if b.g == a.partner && b.partner == a.g && b.kase == a.pkase && b.pkase == a.kase {
							dup = true
							break
						}
					}
				}
				if !dup {
					uniq = append(uniq, a)
				}
			}
			as = uniq
		}
		if len(as) == 0 {
			if len(s.timers) > 0 {
				t := s.timers[0]
				s.timers = s.timers[1:]
				if t.when > s.now {
					s.now = t.when
				}
				s.note("time passes to %s", s.now)
				t.fire()
				continue
			}
			s.end()
			s.parkForever(x)
			return
		}
		took := 0
		if len(as) > 1 {
			if len(s.Trace) < len(s.prefix) {
				took = s.prefix[len(s.Trace)]
				if took >= len(as) {
					s.Diverged = true
					s.end()
					s.parkForever(x)
					return
				}
			}
			c := Choice{N: len(as), Took: took}
			if s.Verbose {
				c.What = s.describe(as[took])
			}
			s.Trace = append(s.Trace, c)
		}
		a := as[took]
		s.note("%s", s.describe(a))
		s.commit(a)
		s.cur = a.g
		if a.g == x {
			return
		}
		a.g.wake <- struct{}{}
		if x == nil {
			return
		}
		<-x.wake
		if s.dead {
			runtime.Goexit()
		}
		return
	}
}

func (s *Sched) describe(a alt) string {
	d := a.g.name + ": " + a.g.what
	if len(a.g.cases) > 1 || a.g.def {
		d += fmt.Sprintf(" case %d", a.kase)
	}
	if a.partner != nil {
		d += " with " + a.partner.name
	}
	return d
}

func (s *Sched) parkForever(x *g) {
	if x == nil {
		return
	}
	<-x.wake
	runtime.Goexit()
}

func (s *Sched) commit(a alt) {
	x := a.g
	if x.state == gReady {
		return
	}
	x.state = gReady
	x.got = a.kase
	x.ready = nil
	if a.kase >= 0 {
		k := x.cases[a.kase]
		if a.partner == nil {
			k.commitAlone()
		} else {
			y := a.partner
			l := y.cases[a.pkase]
			if k.isSend() {
				l.take(k)
			} else {
				k.take(l)
			}
			y.got = a.pkase
			y.state = gReady
			y.cases = nil
			y.def = false
			y.what += " (done)"
		}
	}
	x.cases = nil
	x.def = false
}

// cur returns the goroutine that is running, nil outside a run.
func self() *g {
	if S == nil || S.closed {
		return nil
	}
	if S.dead {
		runtime.Goexit()
	}
	return S.cur
}

func dead() bool { return S != nil && S.dead }

// Yield is a visible step without effect.
func Yield() { YieldAt("yield") }

// YieldAt is Yield with a name for traces.
func YieldAt(what string) {
	x := self()
	if x == nil {
		return
	}
	x.what = what
	x.state = gReady
	S.next(x)
}

// Pause is a step of the environment, taken by default only when nothing else
// can go on.
func Pause(what string) {
	x := self()
	if x.fresh { // the start was the pause
		x.fresh, x.lazy = false, false
		return
	}
	x.lazy = true
	YieldAt(what)
	x.lazy = false
}

// Wait blocks until ready says so.
func Wait(what string, ready func() bool) {
	x := self()
	if x == nil {
		panic("vs: wait outside a run: " + what)
	}
	x.what = what
	x.state = gWait
	x.ready = ready
	S.next(x)
}

// Choose is a decision of the environment among n possibilities.
func Choose(n int, what string) int {
	s := S
	if self() == nil || n < 2 {
		return 0
	}
	took := 0
	if len(s.Trace) < len(s.prefix) {
		took = s.prefix[len(s.Trace)]
		if took >= n {
			s.Diverged = true
			took = 0
		}
	}
	c := Choice{N: n, Took: took}
	if s.Verbose {
		c.What = fmt.Sprintf("%s: %d", what, took)
	}
	s.Trace = append(s.Trace, c)
	s.note("choice: %s: %d of %d", what, took, n)
	return took
}

// Idle reports whether nothing but the environment (and time) can go on.
func Idle() bool {
	for _, x := range S.gs {
		if !x.env && x != S.cur && len(S.alts(x, nil)) > 0 {
			return false
		}
	}
	return true
}

// Note adds a line to the log of a verbose run.
func Note(f string, a ...any) {
	if S != nil {
		S.note(f, a...)
	}
}

// Go starts a goroutine.
func Go(fn func()) {
	if dead() {
		runtime.Goexit()
	}
	if S == nil || S.closed {
		go fn()
		return
	}
	S.spawn(fmt.Sprintf("g%d[%s]", len(S.gs), caller()), false, fn)
}

// Env starts a goroutine of the environment.
func Env(name string, fn func()) {
	x := S.spawn("env "+name, true, fn)
	x.lazy, x.fresh = true, true
}

// User marks the running goroutine as being inside user code.
func User(in bool) {
	if x := self(); x != nil {
		x.user = in
	}
}

func caller() string {
	if S == nil || !S.Verbose {
		return ""
	}
	_, file, line, ok := runtime.Caller(2)
	if !ok {
		return "?"
	}
	if i := strings.LastIndexByte(file, '/'); i >= 0 {
		file = file[i+1:]
	}
	return fmt.Sprintf("%s:%d", file, line)
}

// Goexit ends the running goroutine.
func Goexit() { runtime.Goexit() }

func (s *Sched) addTimer(d time.Duration, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{when: s.now + d, seq: s.tseq, fire: fire}
	s.timers = append(s.timers, t)
	sort.SliceStable(s.timers, func(i, j int) bool { return s.timers[i].when < s.timers[j].when })
	return t
}

func (s *Sched) delTimer(t *timer) bool {
	for i, x := range s.timers {
		if x == t {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			return true
		}
	}
	return false
}

package vs

import (
	"context"
	"sync"
	"sync/atomic"
	"time"
)

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	real   sync.Mutex
}

type Locker = sync.Locker

func (m *Mutex) Lock() {
	if self() == nil {
		m.real.Lock()
		return
	}
	Wait("lock", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if self() == nil {
		return m.real.TryLock()
	}
	YieldAt("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if dead() {
		return
	}
	if self() == nil {
		m.real.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	YieldAt("unlock")
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w    bool
	r    int
	real sync.RWMutex
}

func (m *RWMutex) Lock() {
	if self() == nil {
		m.real.Lock()
		return
	}
	Wait("lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) Unlock() {
	if dead() {
		return
	}
	if self() == nil {
		m.real.Unlock()
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	YieldAt("unlock")
}

func (m *RWMutex) RLock() {
	if self() == nil {
		m.real.RLock()
		return
	}
	Wait("rlock", func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) RUnlock() {
	if dead() {
		return
	}
	if self() == nil {
		m.real.RUnlock()
		return
	}
	m.r--
	YieldAt("runlock")
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if dead() {
		return
	}
	if self() == nil {
		w.real.Add(d)
		return
	}
	YieldAt("waitgroup")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if self() == nil {
		w.real.Wait()
		return
	}
	Wait("waitgroup", func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(fn func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		fn()
	})
}

// Once is sync.Once.
type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(fn func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		fn()
	}
}

func OnceFunc(fn func()) func() {
	var o Once
	return func() { o.Do(fn) }
}

func OnceValue[T any](fn func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = fn() })
		return v
	}
}

func OnceValues[T, U any](fn func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = fn() })
		return v, u
	}
}

// Cond is sync.Cond.
type Cond struct {
	L     Locker
	waits []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waits = append(c.waits, woken)
	c.L.Unlock()
	Wait("cond", func() bool { return *woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	YieldAt("signal")
	if len(c.waits) > 0 {
		*c.waits[0] = true
		c.waits = c.waits[1:]
	}
}

func (c *Cond) Broadcast() {
	YieldAt("broadcast")
	for _, w := range c.waits {
		*w = true
	}
	c.waits = nil
}

// ErrGroup is errgroup.Group.
type ErrGroup struct {
	wg     WaitGroup
	cancel func(error)
	err    error
	failed bool
	limit  int
	live   int
}

func ErrGroupWithContext(ctx context.Context) (*ErrGroup, context.Context) {
	ctx, cancel := CtxWithCancelCause(ctx)
	return &ErrGroup{cancel: cancel}, ctx
}

func (g *ErrGroup) SetLimit(n int) { g.limit = n }

func (g *ErrGroup) start(fn func() error) {
	g.live++
	g.wg.Add(1)
	Go(func() {
		defer func() {
			g.live--
			g.wg.Done()
		}()
		if err := fn(); err != nil && !g.failed {
			g.failed = true
			g.err = err
			if g.cancel != nil {
				g.cancel(err)
			}
		}
	})
}

func (g *ErrGroup) Go(fn func() error) {
	if g.limit > 0 && self() != nil {
		Wait("errgroup limit", func() bool { return g.live < g.limit })
	}
	g.start(fn)
}

func (g *ErrGroup) TryGo(fn func() error) bool {
	YieldAt("errgroup")
	if g.limit > 0 && g.live >= g.limit {
		return false
	}
	g.start(fn)
	return true
}

func (g *ErrGroup) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}

// Contexts: cancelling is a visible step, the rest is the real thing (which
// works synchronously on contexts of the standard library).

func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	return ctx, func() {
		if dead() {
			return
		}
		YieldAt("cancel")
		cancel()
	}
}

func CtxWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	return ctx, func(err error) {
		if dead() {
			return
		}
		YieldAt("cancel")
		cancel(err)
	}
}

type deadlineCtx struct {
	context.Context
	at      time.Time
	expired bool
}

func (d *deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d *deadlineCtx) Err() error {
	if d.expired {
		return context.DeadlineExceeded
	}
	return d.Context.Err()
}

func CtxWithTimeout(parent context.Context, dt time.Duration) (context.Context, context.CancelFunc) {
	if !Active() {
		return context.WithTimeout(parent, dt)
	}
	ctx, cancel := context.WithCancel(parent)
	d := &deadlineCtx{Context: ctx, at: Now().Add(dt)}
	t := S.addTimer(dt, func() {
		if ctx.Err() == nil {
			d.expired = true
		}
		cancel()
	})
	return d, func() {
		if dead() {
			return
		}
		YieldAt("cancel")
		S.delTimer(t)
		cancel()
	}
}

func CtxWithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return CtxWithTimeout(parent, at.Sub(Now()))
}

func CtxAfterFunc(ctx context.Context, fn func()) (stop func() bool) {
	if !Active() {
		return context.AfterFunc(ctx, fn)
	}
	stopped, started := false, false
	Go(func() {
		Wait("context.AfterFunc", func() bool { return stopped || ctx.Err() != nil })
		if stopped {
			return
		}
		started = true
		fn()
	})
	return func() bool {
		YieldAt("stop")
		if started || stopped {
			return false
		}
		stopped = true
		return true
	}
}

// Time is virtual: it passes only when nothing else can happen.

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time {
	if !Active() {
		return time.Now()
	}
	return epoch.Add(S.now)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }

func Sleep(d time.Duration) {
	if dead() {
		return
	}
	if self() == nil {
		time.Sleep(d)
		return
	}
	done := false
	S.addTimer(d, func() { done = true })
	Wait("sleep", func() bool { return done })
}

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	fn func()
	t  *timer
}

func (t *Timer) arm(d time.Duration) {
	t.t = S.addTimer(d, func() {
		t.t = nil
		if t.fn != nil {
			S.spawn("timer", false, t.fn)
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	if !Active() {
		time.AfterFunc(d, func() { c <- time.Now() })
		return t
	}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, fn func()) *Timer {
	t := &Timer{fn: fn}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	if dead() || !Active() {
		return false
	}
	YieldAt("timer stop")
	// as of Go 1.23, no stale value is received after Stop
	for len(t.c) > 0 {
		<-t.c
	}
	if t.t == nil {
		return false
	}
	x := t.t
	t.t = nil
	return S.delTimer(x)
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker; it ticks at most a few times in a run.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	stop bool
	n    int
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	var tick func()
	tick = func() {
		if t.stop {
			return
		}
		t.n++
		select {
		case t.c <- Now():
		default:
		}
		if t.n < 5 {
			S.addTimer(d, tick)
		}
	}
	S.addTimer(d, tick)
	return t
}

func (t *Ticker) Stop()                 { t.stop = true }
func (t *Ticker) Reset(d time.Duration) {}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Pool is sync.Pool; what was put last is got first.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	free []any
}

func (p *Pool) Get() any {
	YieldAt("pool get")
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if dead() || x == nil {
		return
	}
	YieldAt("pool put")
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
}

// SyncMap is sync.Map.
type SyncMap struct{ m sync.Map }

func (m *SyncMap) Load(k any) (any, bool) { YieldAt("map"); return m.m.Load(k) }
func (m *SyncMap) Store(k, v any)         { YieldAt("map"); m.m.Store(k, v) }
func (m *SyncMap) Delete(k any)           { YieldAt("map"); m.m.Delete(k) }
func (m *SyncMap) Clear()                 { YieldAt("map"); m.m.Clear() }
func (m *SyncMap) LoadOrStore(k, v any) (any, bool) {
	YieldAt("map")
	return m.m.LoadOrStore(k, v)
}
func (m *SyncMap) LoadAndDelete(k any) (any, bool) { YieldAt("map"); return m.m.LoadAndDelete(k) }
func (m *SyncMap) Swap(k, v any) (any, bool)       { YieldAt("map"); return m.m.Swap(k, v) }
func (m *SyncMap) CompareAndSwap(k, o, n any) bool {
	YieldAt("map")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *SyncMap) Range(fn func(k, v any) bool) { YieldAt("map"); m.m.Range(fn) }

// Atomics are visible steps.

type number interface {
	~int32 | ~int64 | ~uint32 | ~uint64
}

func AtomicLoad[T number](p *T) T     { YieldAt("load"); return *p }
func AtomicStore[T number](p *T, v T) { YieldAt("store"); *p = v }
func AtomicAdd[T number](p *T, d T) T { YieldAt("add"); *p += d; return *p }
func AtomicSwap[T number](p *T, v T) T {
	YieldAt("swap")
	old := *p
	*p = v
	return old
}
func AtomicCAS[T number](p *T, old, v T) bool {
	YieldAt("cas")
	if *p != old {
		return false
	}
	*p = v
	return true
}

type atomicNumber[T number] struct {
	mu sync.Mutex
	v  T
}

func (a *atomicNumber[T]) do(what string, fn func()) {
	YieldAt(what)
	a.mu.Lock()
	fn()
	a.mu.Unlock()
}

func (a *atomicNumber[T]) Load() (r T)   { a.do("load", func() { r = a.v }); return }
func (a *atomicNumber[T]) Store(x T)     { a.do("store", func() { a.v = x }) }
func (a *atomicNumber[T]) Add(d T) (r T) { a.do("add", func() { a.v += d; r = a.v }); return }
func (a *atomicNumber[T]) Swap(x T) (r T) {
	a.do("swap", func() { r, a.v = a.v, x })
	return
}
func (a *atomicNumber[T]) CompareAndSwap(o, n T) (ok bool) {
	a.do("cas", func() {
		if ok = a.v == o; ok {
			a.v = n
		}
	})
	return
}

type (
	AtomicUint64 struct{ atomicNumber[uint64] }
	AtomicInt64  struct{ atomicNumber[int64] }
	AtomicUint32 struct{ atomicNumber[uint32] }
	AtomicInt32  struct{ atomicNumber[int32] }
)

type AtomicBool struct{ v atomic.Bool }

func (a *AtomicBool) Load() bool       { YieldAt("load"); return a.v.Load() }
func (a *AtomicBool) Store(x bool)     { YieldAt("store"); a.v.Store(x) }
func (a *AtomicBool) Swap(x bool) bool { YieldAt("swap"); return a.v.Swap(x) }
func (a *AtomicBool) CompareAndSwap(o, n bool) bool {
	YieldAt("cas")
	return a.v.CompareAndSwap(o, n)
}

type AtomicPointer[T any] struct{ v atomic.Pointer[T] }

func (a *AtomicPointer[T]) Load() *T     { YieldAt("load"); return a.v.Load() }
func (a *AtomicPointer[T]) Store(x *T)   { YieldAt("store"); a.v.Store(x) }
func (a *AtomicPointer[T]) Swap(x *T) *T { YieldAt("swap"); return a.v.Swap(x) }
func (a *AtomicPointer[T]) CompareAndSwap(o, n *T) bool {
	YieldAt("cas")
	return a.v.CompareAndSwap(o, n)
}

type AtomicValue struct{ v atomic.Value }

func (a *AtomicValue) Load() any      { YieldAt("load"); return a.v.Load() }
func (a *AtomicValue) Store(x any)    { YieldAt("store"); a.v.Store(x) }
func (a *AtomicValue) Swap(x any) any { YieldAt("swap"); return a.v.Swap(x) }
func (a *AtomicValue) CompareAndSwap(o, n any) bool {
	YieldAt("cas")
	return a.v.CompareAndSwap(o, n)
}

package vs

import (
	"runtime"
	"unsafe"
)

func ident[C any](ch C) uintptr {
	return *(*uintptr)(unsafe.Pointer(&ch))
}

// isClosed reports whether an empty channel is closed. No native goroutine is
// ever blocked sending, so a receive succeeds only from a closed channel.
func isClosed[T any](ch <-chan T) bool {
	if len(ch) > 0 {
		return false
	}
	select {
	case _, ok := <-ch:
		if ok {
			panic("vs: a native sender")
		}
		return true
	default:
		return false
	}
}

// RecvCase is a receive in a select.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RecvFrom[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) chanID() uintptr { return ident(c.ch) }
func (c *RecvCase[T]) isSend() bool    { return false }
func (c *RecvCase[T]) alone() bool     { return len(c.ch) > 0 || isClosed(c.ch) }
func (c *RecvCase[T]) commitAlone()    { c.V, c.OK = <-c.ch }
func (c *RecvCase[T]) take(from kase) {
	c.V, c.OK = from.(*SendCase[T]).v, true
}

// SendCase is a send in a select.
type SendCase[T any] struct {
	ch    chan<- T
	v     T
	panic bool
}

type sender[T any] struct{ ch chan<- T }

func SendTo[T any](ch chan<- T) sender[T] { return sender[T]{ch} }

func (s sender[T]) Case(v T) *SendCase[T] { return &SendCase[T]{ch: s.ch, v: v} }

func (s sender[T]) Do(v T) {
	if x := self(); x == nil {
		s.ch <- v
		return
	}
	Select(false, s.Case(v))
}

func (c *SendCase[T]) chanID() uintptr { return ident(c.ch) }
func (c *SendCase[T]) isSend() bool    { return true }
func (c *SendCase[T]) closed() bool {
	// only a channel closed through Close counts
	_, ok := closedChans[ident(c.ch)]
	return ok
}
func (c *SendCase[T]) alone() bool { return c.closed() || len(c.ch) < cap(c.ch) }
func (c *SendCase[T]) commitAlone() {
	if c.closed() {
		c.panic = true
		return
	}
	c.ch <- c.v
}
func (c *SendCase[T]) take(kase) { panic("vs: take on a send") }
func (c *SendCase[T]) check() {
	if c.panic {
		panic("send on closed channel")
	}
}

// channels closed in this run (kept alive so that their addresses stay theirs)
var closedChans = map[uintptr]any{}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	if dead() {
		return
	}
	YieldAt("close")
	if Active() {
		closedChans[ident(ch)] = ch
	}
	close(ch)
}

// Select runs a select statement and returns the index of the case taken, or
// len(cases) for the default.
func Select(def bool, cases ...kase) int {
	if dead() {
		runtime.Goexit()
	}
	x := self()
	if x == nil {
		return native(def, cases)
	}
	x.what = "select"
	if len(cases) == 1 {
		x.what = "receive"
		if cases[0].isSend() {
			x.what = "send"
		}
	}
	x.state = gWait
	x.ready = nil
	x.cases = cases
	if cases == nil {
		x.cases = []kase{}
	}
	x.def = def
	S.next(x)
	if x.got < 0 {
		return len(cases)
	}
	if s, ok := cases[x.got].(interface{ check() }); ok {
		s.check()
	}
	return x.got
}

// native runs a select outside of a run, by polling.
func native(def bool, cases []kase) int {
	for {
		for i, k := range cases {
			if k.chanID() != 0 && k.alone() {
				k.commitAlone()
				return i
			}
		}
		if def {
			return len(cases)
		}
		runtime.Gosched()
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if self() == nil {
		v, ok := <-ch
		return v, ok
	}
	c := RecvFrom(ch)
	Select(false, c)
	return c.V, c.OK
}

package vs

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/charmbracelet/x/term"
	"github.com/muesli/cancelreader"
)

// Fault makes the Nth call (from 0) of an operation fail; with Always every one
// from there on.
type Fault struct {
	N      int
	Always bool
	Short  bool // writes: half of the bytes get through
	Late   bool // writes: all of the bytes get through, the failure is reported all the same
}

// Device is the simulated terminal.
type Device struct {
	W, H     int
	Raw      bool
	StdinTTY bool // whether standard input is the terminal (it is closed if not)
	NoTTY    bool // whether /dev/tty cannot be opened

	In    []byte
	InEOF bool
	InErr error

	Faults map[string]Fault // by operation: write, makeraw, getsize, restore, newreader, opentty
	calls  map[string]int

	// OnWrite sees every write with the bytes that got through and those meant.
	OnWrite func(got, meant []byte)
	OnEvent func(what string) // makeraw, restore, print ...

	Consumed []byte // all that was read
	Reading  int    // reads under way
	Opened   int    // open handles of /dev/tty

	Announced bool // a reader was told of input
}

// Dev is the terminal of this run.
var Dev *Device

var ErrFault = errors.New("injected fault")

func (d *Device) fails(op string) (Fault, bool) {
	if d.calls == nil {
		d.calls = map[string]int{}
	}
	n := d.calls[op]
	d.calls[op]++
	f, ok := d.Faults[op]
	if !ok || n < f.N || n > f.N && !f.Always {
		return Fault{}, false
	}
	d.event("fault " + op)
	return f, true
}

// Calls is how often an operation was called so far.
func (d *Device) Calls(op string) int { return d.calls[op] }

func (d *Device) event(what string) {
	if d.OnEvent != nil {
		d.OnEvent(what)
	}
}

// Type makes input arrive.
func (d *Device) Type(s string) { d.In = append(d.In, s...) }

func (d *Device) ready() bool { return len(d.In) > 0 || d.InEOF || d.InErr != nil }

func (d *Device) read(p []byte) (int, error) {
	if len(d.In) > 0 {
		n := copy(p, d.In)
		d.In = d.In[n:]
		d.Consumed = append(d.Consumed, p[:n]...)
		return n, nil
	}
	if d.InErr != nil {
		return 0, d.InErr
	}
	return 0, io.EOF
}

// File is os.File as far as the terminal goes.
type File struct {
	fd     uintptr
	name   string
	closed bool
}

var (
	Stdin  = &File{fd: 1 << 20, name: "/dev/stdin"}
	Stdout = &File{fd: 1<<20 + 1, name: "/dev/stdout"}
	Stderr = &File{fd: 1<<20 + 2, name: "/dev/stderr"}
)

const ttyFd = 1<<20 + 3

func (f *File) Fd() uintptr  { return f.fd }
func (f *File) Name() string { return f.name }

// tty reports whether the file is the terminal.
func (f *File) tty() bool { return f.fd != Stdin.fd || Dev.StdinTTY }

func (f *File) Close() error {
	if dead() {
		return nil
	}
	YieldAt("close file")
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	if f.fd == ttyFd {
		Dev.Opened--
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if f.closed {
		return 0, os.ErrClosed
	}
	if !f.tty() {
		YieldAt("read")
		return 0, io.EOF
	}
	Dev.Reading++
	Wait("read", Dev.ready)
	Dev.Reading--
	return Dev.read(p)
}

func (f *File) Write(p []byte) (int, error) {
	if dead() {
		return len(p), nil
	}
	if f.fd == Stderr.fd {
		return text(string(p))
	}
	YieldAt("write")
	if f.closed {
		return 0, os.ErrClosed
	}
	got, err := p, error(nil)
	if x, bad := Dev.fails("write"); bad {
		got, err = nil, ErrFault
		if x.Short {
			got = p[:len(p)/2]
		}
		if x.Late {
			got = p
		}
		Note("write fails")
	}
	if Dev.OnWrite != nil {
		Dev.OnWrite(got, p)
	}
	return len(got), err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Sync() error                       { return nil }
func (f *File) Stat() (os.FileInfo, error)        { return nil, errors.New("not supported") }

func open(name string) (*File, error) {
	YieldAt("open")
	if Dev.NoTTY {
		Dev.event("fault opentty")
	}
	if _, bad := Dev.fails("opentty"); bad || Dev.NoTTY || name != "/dev/tty" {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENXIO}
	}
	Dev.Opened++
	return &File{fd: ttyFd, name: name}, nil
}

func Open(name string) (*File, error)                                 { return open(name) }
func OpenFile(name string, flag int, mode os.FileMode) (*File, error) { return open(name) }

func known(fd uintptr) bool { return fd >= 1<<20 && fd <= ttyFd }

func IsTerminal(fd uintptr) bool {
	return known(fd) && (fd != Stdin.fd || Dev.StdinTTY)
}

func MakeRaw(fd uintptr) (*term.State, error) {
	YieldAt("makeraw")
	if _, bad := Dev.fails("makeraw"); bad || !IsTerminal(fd) {
		return nil, ErrFault
	}
	Dev.Raw = true
	Dev.event("makeraw")
	return &term.State{}, nil
}

func GetState(fd uintptr) (*term.State, error) { return &term.State{}, nil }

func Restore(fd uintptr, st *term.State) error {
	if dead() {
		return nil
	}
	YieldAt("restore")
	if _, bad := Dev.fails("restore"); bad || !IsTerminal(fd) {
		Dev.event("restore failed")
		return ErrFault
	}
	Dev.Raw = false
	Dev.event("restore")
	return nil
}

func GetSize(fd uintptr) (int, int, error) {
	YieldAt("getsize")
	if _, bad := Dev.fails("getsize"); bad || !IsTerminal(fd) {
		return 0, 0, ErrFault
	}
	return Dev.W, Dev.H, nil
}

// Reader is cancelreader's reader on a terminal.
type reader struct {
	f                *File
	canceled, closed bool
}

func NewCancelReader(r io.Reader) (cancelreader.CancelReader, error) {
	YieldAt("newreader")
	if _, bad := Dev.fails("newreader"); bad {
		return nil, ErrFault
	}
	if f, ok := r.(*File); ok {
		if !f.tty() {
			return nil, ErrFault
		}
		return &reader{f: f}, nil
	}
	return &fallback{r: r}, nil
}

func (r *reader) Read(p []byte) (int, error) {
	YieldAt("reader")
	if r.canceled {
		return 0, cancelreader.ErrCanceled
	}
	if r.closed || r.f.closed {
		return 0, os.ErrClosed
	}
	Dev.Reading++
	Wait("cancellable read", func() bool { return r.canceled || Dev.ready() })
	if r.canceled && (!Dev.ready() || Choose(2, "the cancellation or the input") == 0) {
		Dev.Reading--
		return 0, cancelreader.ErrCanceled
	}
	Dev.Announced = true
	// between being told of the input and reading it
	Wait("read", Dev.ready)
	Dev.Reading--
	return Dev.read(p)
}

func (r *reader) Cancel() bool {
	if dead() {
		return false
	}
	YieldAt("cancel read")
	r.canceled = true
	return !r.closed
}

func (r *reader) Close() error {
	if dead() {
		return nil
	}
	YieldAt("close reader")
	if r.closed {
		return os.ErrClosed
	}
	r.closed = true
	return nil
}

// fallback is cancelreader's reader on anything else.
type fallback struct {
	r        io.Reader
	canceled bool
}

func (r *fallback) Read(p []byte) (int, error) {
	YieldAt("reader")
	if r.canceled {
		return 0, cancelreader.ErrCanceled
	}
	n, err := r.r.Read(p)
	if r.canceled {
		return 0, cancelreader.ErrCanceled
	}
	return n, err
}

func (r *fallback) Cancel() bool {
	if dead() {
		return false
	}
	YieldAt("cancel read")
	r.canceled = true
	return false
}

func (r *fallback) Close() error { return nil }

// Signals.

type handler struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var handlers []*handler

func SignalNotify(c chan<- os.Signal, sigs ...os.Signal) {
	YieldAt("signal.Notify")
	handlers = append(handlers, &handler{c, sigs})
}

func SignalStop(c chan<- os.Signal) {
	if dead() {
		return
	}
	YieldAt("signal.Stop")
	var keep []*handler
	for _, h := range handlers {
		if h.c != c {
			keep = append(keep, h)
		}
	}
	handlers = keep
}

func SignalReset(...os.Signal)  { YieldAt("signal.Reset"); handlers = nil }
func SignalIgnore(...os.Signal) { YieldAt("signal.Ignore"); handlers = nil }

func SignalNotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := CtxWithCancel(parent)
	c := make(chan os.Signal, 1)
	SignalNotify(c, sigs...)
	Go(func() {
		Select(false, RecvFrom((<-chan os.Signal)(c)), RecvFrom(ctx.Done()))
		cancel()
	})
	return ctx, func() { cancel(); SignalStop(c) }
}

// Handlers is how many signal handlers are installed.
func Handlers() int { return len(handlers) }

// Raise delivers a signal to whoever asked for it.
func Raise(sig os.Signal) {
	for _, h := range handlers {
		want := len(h.sigs) == 0
		for _, s := range h.sigs {
			want = want || s == sig
		}
		if want {
			Select(true, SendTo(h.c).Case(sig))
		}
	}
}

// Text on standard output.

func text(s string) (int, error) {
	if dead() {
		return len(s), nil
	}
	YieldAt("print")
	Dev.event("print " + s)
	return len(s), nil
}

func Print(a ...any) (int, error)            { return text(fmt.Sprint(a...)) }
func Println(a ...any) (int, error)          { return text(fmt.Sprintln(a...)) }
func Printf(f string, a ...any) (int, error) { return text(fmt.Sprintf(f, a...)) }
func PrintStack()                            { text("stack") }

// Exit would end the process.
func Exit(code int) {
	panic(fmt.Sprintf("os.Exit(%d)", code))
}

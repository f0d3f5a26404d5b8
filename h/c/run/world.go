// Command run checks the application runtime (C01-C06): small programs are run
// under a controlled scheduler and a simulated terminal, in every interleaving
// up to a number of deviations from the default schedule, with faults injected.
package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vs"
	"github.com/metafates/bento/internal/zzverif/vt"
	"github.com/metafates/bento/internal/zzverif/vx"
)

// scenario is a small program and its surroundings.
type scenario struct {
	key    string
	props  string // the properties it is explored for
	quick  int    // deviations
	deep   int
	init   func(w *world) bento.Cmd
	update func(w *world, m bento.Msg) bento.Cmd
	render func(w *world)
	env    func(w *world)
	dev    func(d *vs.Device)
	before func(w *world) // before Run
	// lax: the screen is not checked (faults garble it)
	lax bool
	// noIdle: commands may be cut off by a panic even when nothing is left to do
	noIdle bool
	// laxPanic: a normal end may come before the panic
	laxPanic bool
	// stolen: input that was announced is taken away by another reader
	stolen bool
	// kind is the kind of model: a value, a pointer that stays the same, a value
	// that cannot be compared, or each in turn
	kind int
	// next is the program that runs after this one, on the same terminal
	next *scenario
}

type command struct {
	id           string
	starts, ends int
	arrived      int
	hang         bool
}

type world struct {
	sc     *scenario
	dev    *vs.Device
	term   *vt.Term
	ctx    context.Context
	cancel func()
	bad    map[string]string

	busy     string
	version  int // of the model that Update returned last
	drawn    int // of the frame rendered last
	renders  int
	updates  int
	inited   bool
	order    []string // messages of commands, in the order of their arrival
	keys     string   // keys that arrived
	sizes    []bento.Size
	cmds     map[string]*command
	cmdIDs   []string
	seq      []func(started string) string // order constraints of sequences
	after    []func() string
	nquit    int
	epoch    int // resizes so far
	clearAt  int // epoch at the last clearing of the screen
	area     bento.Rect
	typed    string
	resizing bool // the size has changed and the signal has not been sent yet
	idle     bool // the end came when nothing else was left to do
	idleKeys string
	idleRead string
	idleSize bento.Size
	idleLast *bento.Size

	slept     bool // the slow user code is finished
	quitMade  bool // a QuitMsg was produced
	cancelled bool
	panicked  string
	faults    []string // I/O errors that happened
	ioErr     bool

	// output
	alts      int // times the alternate screen was left
	restores  int
	restoring bool
	lost      map[string]bool // modes whose restoration was hit by a fault
	dirty     bool            // a write was cut short

	returned bool
	model    bento.Model
	err      error
	consumed int
	base     int // bytes read by earlier programs
}

// read is the input that this program has read.
func (w *world) read() string { return string(w.dev.Consumed[w.base:]) }

func (w *world) fail(prop, f string, a ...any) {
	if w.bad[prop] == "" {
		w.bad[prop] = fmt.Sprintf(f, a...)
		vs.Note("*** %s: %s", prop, w.bad[prop])
	}
}

// tmsg is the message of a command.
type tmsg struct{ id string }

type model struct {
	w *world
	v int
}

func (w *world) enter(what string) func() {
	if w.busy != "" {
		w.fail("C04", "%s is called while %s is running", what, w.busy)
	}
	if w.returned {
		w.fail("C04", "%s is called after Run has returned", what)
	}
	old := w.busy
	w.busy = what
	vs.User(true)
	vs.YieldAt("in " + what)
	return func() { w.busy = old; vs.User(false) }
}

func (m model) Init() bento.Cmd {
	w := m.w
	defer w.enter("Init")()
	if w.inited {
		w.fail("C04", "Init is called twice")
	}
	w.inited = true
	if w.sc.init == nil {
		return nil
	}
	return w.sc.init(w)
}

func (m model) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	w := m.w
	defer w.enter("Update")()
	w.updates++
	vs.Note("Update(%T %v)", msg, show(msg))
	if m.v != w.version {
		w.fail("C04", "Update is called on model %d, the last Update returned model %d", m.v, w.version)
	}
	if _, ok := msg.(bento.WindowSizeMsg); ok {
		if w.drawn != w.version { // the screen may be cleared already
			w.fail("C04", "the model of the last Update has not been drawn when the next message is handled")
		}
	} else {
		w.checkScreen("when the next message is handled")
	}
	switch msg := msg.(type) {
	case nil:
		w.fail("C03", "Update is given a nil message")
	case tmsg:
		c := w.cmds[msg.id]
		c.arrived++
		if c.arrived > c.ends {
			w.fail("C03", "the message of command %s reaches Update more than once", msg.id)
		}
		w.order = append(w.order, msg.id)
		for _, f := range w.after {
			if bad := f(); bad != "" {
				w.fail("C03", "%s", bad)
			}
		}
	case bento.KeyMsg, bento.MouseMsg, bento.FocusMsg, bento.BlurMsg:
		w.keys += raw(msg)
		if !strings.HasPrefix(w.read(), w.keys) {
			w.fail("C05", "keys %q arrived, of the input %q was read", w.keys, w.read())
			w.fail("C04", "keys %q arrived, of the input %q was read", w.keys, w.read())
		}
	case bento.WindowSizeMsg:
		w.sizes = append(w.sizes, bento.Size(msg))
	}
	var cmd bento.Cmd
	if w.sc.update != nil {
		cmd = w.sc.update(w, msg)
	}
	w.version++
	return model{w, w.version}, cmd
}

// raw is the input that stands for a message.
func raw(msg any) string {
	switch msg := msg.(type) {
	case bento.KeyMsg:
		if msg.Paste {
			return "\x1b[200~" + string(msg.Runes) + "\x1b[201~"
		}
		return msg.String()
	case bento.MouseMsg: // of those that move without a button
		return fmt.Sprintf("\x1b[<35;%d;%dM", msg.X+1, msg.Y+1)
	case bento.FocusMsg:
		return "\x1b[I"
	case bento.BlurMsg:
		return "\x1b[O"
	}
	return ""
}

// Kinds of models.

const (
	valueModel = iota
	pointerModel
	incomparableModel
	changingModel
)

type pmodel struct{ model }

func (p *pmodel) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	m, cmd := p.model.Update(msg)
	if m, ok := m.(model); ok && p.w.sc.kind == pointerModel {
		p.model = m
		return p, cmd
	}
	return p.w.as(m.(model)), cmd
}

type umodel struct {
	model
	list []func()
}

func (u umodel) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	m, cmd := u.model.Update(msg)
	return u.w.as(m.(model)), cmd
}

type vmodel struct{ model }

func (v vmodel) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	m, cmd := v.model.Update(msg)
	return v.w.as(m.(model)), cmd
}

// as is the model in the form the program has.
func (w *world) as(m model) bento.Model {
	k := w.sc.kind
	if k == changingModel {
		k = m.v % 3
	}
	switch k {
	case pointerModel:
		return &pmodel{m}
	case incomparableModel:
		return umodel{m, make([]func(), 1)}
	}
	return vmodel{m}
}

// versionOf is the version of a model of whatever form.
func versionOf(m bento.Model) int {
	switch m := m.(type) {
	case vmodel:
		return m.v
	case *pmodel:
		return m.v
	case umodel:
		return m.v
	}
	return -1
}

func show(msg any) string {
	if v := reflect.ValueOf(msg); v.IsValid() && v.Kind() == reflect.Slice {
		return ""
	}
	return fmt.Sprint(msg)
}

func (m model) Render(area bento.Rect, buf *bento.Buffer) {
	w := m.w
	defer w.enter("Render")()
	w.renders++
	if m.v != w.version {
		w.fail("C04", "Render is called on model %d, the last Update returned model %d", m.v, w.version)
	}
	w.area = area
	if n := len(w.sizes); n > 0 {
		if s := w.sizes[n-1]; area != bento.NewRect(s.Width, s.Height) {
			w.fail("C06", "Render is given %v after the size %v was reported", area, s)
		}
	}
	if w.sc.render != nil {
		w.sc.render(w)
	}
	for y, row := range w.frame(m.v, area) {
		for x, c := range row {
			if cell := buf.CellAt(bento.Position{X: area.X + x, Y: area.Y + y}); cell != nil {
				cell.SetSymbol(string(c))
			}
		}
	}
	w.drawn = m.v
}

// frame is what model v shows.
func (w *world) frame(v int, area bento.Rect) []string {
	var rows []string
	for y := 0; y < area.Height; y++ {
		var b []byte
		for x := 0; x < area.Width; x++ {
			if x%2 == 1 { // the same in all frames
				b = append(b, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(x+5*y)%26])
				continue
			}
			b = append(b, "abcdefghijklmnopqrstuvwxyz"[(v*7+x+3*y*(v%3))%26])
		}
		rows = append(rows, string(b))
	}
	return rows
}

func (w *world) checkScreen(when string) {
	if w.sc.lax || w.renders == 0 || w.clearAt != w.epoch && !w.idle {
		return
	}
	if n := len(w.sizes); w.epoch > 0 && (n == 0 || w.sizes[n-1] != (bento.Size{Width: w.dev.W, Height: w.dev.H})) {
		return
	}
	if w.drawn != w.version {
		w.fail("C04", "%s, the model of the last Update has not been drawn", when)
		return
	}
	for y, row := range w.frame(w.version, w.area) {
		for x, c := range row {
			if x < w.term.W && y < w.term.H && w.term.At(x, y).Glyph != string(c) {
				w.fail("C04", "%s, the screen does not show the frame of model %d: %q at %d,%d instead of %q", when, w.version, w.term.At(x, y).Glyph, x, y, c)
				return
			}
		}
	}
}

// modes are what restoration has to bring back.
var modes = map[string]string{"\x1b[?1049l": "alternate screen", "\x1b[?25h": "cursor", "\x1b[?2004l": "bracketed paste"}

func (w *world) onWrite(got, meant []byte) {
	if w.returned && len(meant) > 0 {
		w.fail("C01", "%q is written after Run has returned", meant)
	}
	before := w.term.Printed
	w.term.Write(got)
	if len(got) < len(meant) {
		w.faults = append(w.faults, fmt.Sprintf("write of %q", meant))
		w.ioErr = true
		w.dirty = true
		for m, name := range modes {
			if strings.Contains(string(meant), m) {
				w.lost[name] = true
			}
		}
	}
	for m, name := range modes {
		if strings.Contains(string(got), m) {
			delete(w.lost, name)
		}
	}
	if strings.Contains(string(got), "\x1b[2J") {
		w.clearAt = w.epoch
	}
	if w.restoring && w.term.Printed > before {
		w.fail("C01", "the program draws during or after the restoration of the terminal")
	}
	n := strings.Count(string(got), "\x1b[?1049l")
	w.alts += n
	if n > 0 {
		w.restoring = true
	}
	if w.alts > 1 {
		w.fail("C01", "the terminal is restored twice (the alternate screen is left %d times)", w.alts)
	}
	if w.term.Err != "" && !w.dirty {
		w.fail("C01", "the output cannot be understood: %s", w.term.Err)
	}
}

func (w *world) onEvent(what string) {
	switch what {
	case "restore", "restore failed":
		w.restores++
		w.restoring = true
		if w.restores > 1 && what == "restore" {
			w.fail("C01", "the terminal mode is restored twice")
		}
		if what == "restore failed" {
			w.faults = append(w.faults, what)
			w.ioErr = true
			w.lost["raw mode"] = true
		}
		if w.returned {
			w.fail("C01", "the terminal mode is changed after Run has returned")
		}
	case "fault write":
		w.faults = append(w.faults, what)
		w.ioErr = true
	case "fault makeraw", "fault newreader", "fault opentty", "fault getsize":
		w.faults = append(w.faults, what)
		if what != "fault getsize" {
			w.ioErr = true
		}
	case "makeraw":
		if w.restoring {
			w.fail("C01", "raw mode is entered after the restoration")
		}
	}
}

// resize changes the size of the terminal and signals it.
func (w *world) resize(width, height int) {
	w.resizing = true
	w.dev.W, w.dev.H = width, height
	w.epoch++
	w.term.Resize(width, height, vt.Cell{Glyph: "#"})
	vs.YieldAt("between resize and signal")
	vs.Raise(syscall.SIGWINCH)
	w.resizing = false
}

func (w *world) typing(s string) {
	w.typed += s
	w.dev.Type(s)
}

// end marks the end of the program by the environment.
func (w *world) end() {
	w.idle = vs.Idle()
	w.idleKeys = w.keys
	w.idleRead = w.read()
	w.idleSize = bento.Size{Width: w.dev.W, Height: w.dev.H}
	if n := len(w.sizes); n > 0 {
		s := w.sizes[n-1]
		w.idleLast = &s
	}
	if w.idle && w.returned {
		w.idle = false
	}
	if w.sc.noIdle {
		w.idle = false
	}
	if w.idle {
		w.checkScreen("when nothing is left to do")
		for _, id := range w.cmdIDs {
			c := w.cmds[id]
			if c.starts != 1 && !c.hang {
				w.fail("C03", "command %s has been executed %d times when nothing is left to do", id, c.starts)
			}
			if c.ends > 0 && c.arrived != 1 && !strings.HasPrefix(id, "n") {
				w.fail("C03", "the message of command %s has reached Update %d times when nothing is left to do", id, c.arrived)
			}
		}
		if string(w.dev.In) == "" && w.keys != w.idleRead && !w.dev.InEOF {
			w.fail("C05", "%q has been read and %q has arrived when nothing is left to do", w.idleRead, w.keys)
		}
		if w.idleLast == nil {
			w.fail("C06", "no size has been reported when nothing is left to do")
		} else if *w.idleLast != w.idleSize && !w.resizing {
			w.fail("C06", "the size reported last is %v, the terminal has %v, and nothing is left to do", *w.idleLast, w.idleSize)
		}
	}
}

// kill cancels the context.
func (w *world) kill() {
	w.end()
	w.cancelled = true
	w.cancel()
}

func (sc *scenario) run(prop string, slow int, prefix []int, verbose bool) (*vs.Sched, string) {
	w := &world{sc: sc, bad: map[string]string{}, cmds: map[string]*command{}, lost: map[string]bool{}}
	d := &vs.Device{W: 4, H: 2, StdinTTY: true, OnWrite: w.onWrite, OnEvent: w.onEvent}
	if sc.dev != nil {
		sc.dev(d)
	}
	w.dev, vs.Dev = d, d
	vs.Slow = slow
	w.term = vt.New(d.W, d.H)
	s := vs.Run(prefix, 20000, verbose, func() {
		w.ctx, w.cancel = context.WithCancel(context.Background())
		app := bento.NewApp(w.as(model{w, 0})).WithContext(w.ctx)
		if sc.env != nil {
			sc.env(w)
		}
		if sc.before != nil {
			sc.before(w)
		}
		m, err := app.Run()
		w.returned, w.model, w.err = true, m, err
		vs.Note("Run returns %v", err)
		w.atReturn()
		if sc.next != nil {
			w.another(sc.next)
			return
		}
		// whoever comes next reads on
		if d.StdinTTY && !d.InEOF && d.InErr == nil {
			left := string(d.In)
			vs.YieldAt("after Run")
			w.typing("ZZ")
			for i := 0; i < 3; i++ {
				vs.YieldAt("after Run")
			}
			if string(d.In) != left+"ZZ" {
				w.fail("C05", "input typed after Run has returned is taken away: %q of %q is left", d.In, left+"ZZ")
			}
		}
	})
	if s.Diverged {
		return s, ""
	}
	w.atEnd(s)
	return s, w.bad[prop]
}

// another runs a second program on the same terminal; what is wrong with it
// counts for the first.
func (w *world) another(sc *scenario) {
	n := &world{sc: sc, bad: w.bad, cmds: map[string]*command{}, lost: map[string]bool{}, dev: w.dev, term: w.term, base: len(w.dev.Consumed)}
	w.dev.OnWrite, w.dev.OnEvent = n.onWrite, n.onEvent
	vs.Note("the next program")
	n.ctx, n.cancel = context.WithCancel(context.Background())
	app := bento.NewApp(n.as(model{n, 0})).WithContext(n.ctx)
	if sc.env != nil {
		sc.env(n)
	}
	m, err := app.Run()
	n.returned, n.model, n.err = true, m, err
	vs.Note("Run returns %v", err)
	n.atReturn()
	w.consumed = n.consumed
}

// atReturn judges the state in which Run returns.
func (w *world) atReturn() {
	if w.alts == 0 && w.term.OnAlt && !w.lost["alternate screen"] {
		w.fail("C01", "Run returns and the alternate screen is still on (%v)", w.err)
	}
	if w.term.OnAlt && !w.lost["alternate screen"] {
		w.fail("C01", "Run returns and the alternate screen is on (%v)", w.err)
	}
	if !w.term.Visible && !w.lost["cursor"] {
		w.fail("C01", "Run returns and the cursor is hidden (%v)", w.err)
	}
	if w.term.Paste && !w.lost["bracketed paste"] {
		w.fail("C01", "Run returns and bracketed paste is on (%v)", w.err)
	}
	if w.dev.Raw && !w.lost["raw mode"] {
		w.fail("C01", "Run returns and the terminal is in raw mode (%v)", w.err)
	}
	if w.dev.Reading > 0 && !w.sc.stolen {
		w.fail("C05", "Run returns and a read of the input is under way (%v)", w.err)
	}
	if w.dev.Opened > 0 {
		w.fail("C05", "Run returns and the terminal it opened for input is still open (%v)", w.err)
	}
	w.consumed = len(w.dev.Consumed)
	if w.busy != "" && w.panicked == "" {
		w.fail("C04", "Run returns while %s is running", w.busy)
	}
	clean := w.panicked == "" && len(w.faults) == 0
	if w.panicked != "" && w.err == nil && !w.sc.laxPanic && !w.quitMade {
		w.fail("C02", "Run returns no error though %s panicked", w.panicked)
	}
	if w.panicked != "" && len(w.faults) == 0 && !w.cancelled && !w.quitMade && !errors.Is(w.err, bento.ErrPanicked) {
		w.fail("C02", "%s panicked and Run returns %v, not ErrPanicked", w.panicked, w.err)
	}
	if w.err == nil {
		if !w.quitMade {
			w.fail("C02", "Run returns no error though no quit message was sent (cancelled: %v, panic: %q, faults: %v)", w.cancelled, w.panicked, w.faults)
		}
		if w.ioErr {
			w.fail("C02", "Run returns no error though %v failed", w.faults)
		}
		if w.busy == "" {
			w.checkScreenAtExit()
		}
	} else {
		if clean && !w.cancelled && w.inited {
			w.fail("C02", "Run returns the error %v though the program quit normally", w.err)
		}
		if clean && w.cancelled && !errors.Is(w.err, bento.ErrKilled) {
			w.fail("C02", "the context was cancelled and Run returns %v, not ErrKilled", w.err)
		}
	}
	if w.model != nil {
		if v := versionOf(w.model); v != w.version {
			w.fail("C04", "Run returns model %d, the last Update returned model %d", v, w.version)
		}
	} else if w.inited && clean {
		w.fail("C04", "Run returns no model")
	}
}

func (w *world) checkScreenAtExit() {
	if w.drawn != w.version {
		w.fail("C04", "Run returns model %d, but the frame drawn last is of model %d", w.version, w.drawn)
	}
}

func (w *world) atEnd(s *vs.Sched) {
	switch {
	case s.Crash != "":
		w.fail("C02", "the process dies: %s", s.Crash)
		w.fail("C01", "the process dies with the terminal not restored: %s", s.Crash)
	case s.Overrun:
		w.fail("C02", "the program does not come to an end within %d steps", s.MaxStep)
	case !s.MainDone:
		w.fail("C02", "Run never returns (quit sent: %v, cancelled: %v, panic: %q, faults: %v); blocked: %s", w.quitMade, w.cancelled, w.panicked, w.faults, leftovers(s))
	default:
		for _, l := range s.Leftover() {
			if l.Env || l.User || l.What == "read" {
				continue
			}
			if l.What == "waitgroup" && w.hanging() {
				continue // it waits for a command
			}
			w.fail("C02", "Run has returned, and this goroutine never ends: %s (%s)", l.Name, l.What)
			if l.What == "cancellable read" {
				w.fail("C05", "Run has returned, and a read of the input is under way for ever")
			}
		}
		if len(w.dev.Consumed) != w.consumed {
			w.fail("C05", "%d bytes of input are read after Run has returned", len(w.dev.Consumed)-w.consumed)
		}
		if n := vs.Handlers(); n > 0 {
			w.fail("C02", "Run has returned, and %d signal handlers are still installed", n)
		}
	}
}

func (w *world) hanging() bool {
	for _, c := range w.cmds {
		if c.hang && c.starts > 0 {
			return true
		}
	}
	return false
}

func leftovers(s *vs.Sched) string {
	var b []string
	for _, l := range s.Leftover() {
		if !l.Env {
			b = append(b, l.Name+" ("+l.What+")")
		}
	}
	return strings.Join(b, ", ")
}

// Commands.

func (w *world) leaf(id string) bento.Cmd {
	if w.cmds[id] != nil {
		panic("two commands " + id)
	}
	c := &command{id: id}
	w.cmds[id] = c
	w.cmdIDs = append(w.cmdIDs, id)
	return func() bento.Msg {
		vs.User(true)
		c.starts++
		vs.Note("command %s starts", id)
		if c.starts > 1 {
			w.fail("C03", "command %s is executed %d times", id, c.starts)
		}
		for _, ok := range w.seq {
			if msg := ok(id); msg != "" {
				w.fail("C03", "%s", msg)
			}
		}
		vs.YieldAt("in command " + id)
		c.ends++
		vs.User(false)
		switch {
		case strings.HasPrefix(id, "n"):
			return nil
		case strings.HasPrefix(id, "q"):
			w.quitMade = true
			c.arrived = 1 // does not reach Update
			return bento.Quit()
		case strings.HasPrefix(id, "p"):
			w.panicked = "command " + id
			c.arrived = 1
			vs.User(true)
			defer vs.User(false)
			panic("planned panic in a command")
		}
		return tmsg{id}
	}
}

// sleep makes user code slow: an hour passes, in which everything else goes on.
func (w *world) sleep() {
	vs.Sleep(time.Hour)
	w.slept = true
}

// tick is bento.Tick with the message of a command.
func (w *world) tick(ms int, id string) bento.Cmd {
	c := w.cmds[id]
	return bento.Tick(time.Duration(ms)*time.Millisecond, func(time.Time) bento.Msg {
		c.starts++
		c.ends++
		if c.starts > 1 {
			w.fail("C03", "tick %s ends %d times", id, c.starts)
		}
		return tmsg{id}
	})
}

// hang is a command that never ends.
func (w *world) hang(id string) bento.Cmd {
	c := &command{id: id, hang: true}
	w.cmds[id] = c
	w.cmdIDs = append(w.cmdIDs, id)
	return func() bento.Msg {
		vs.User(true)
		c.starts++
		vs.Wait("hanging command", func() bool { return false })
		return nil
	}
}

// late is a command that goes on until Run has returned.
func (w *world) late(id string) bento.Cmd {
	c := &command{id: id, hang: true}
	w.cmds[id] = c
	w.cmdIDs = append(w.cmdIDs, id)
	return func() bento.Msg {
		vs.User(true)
		c.starts++
		vs.Wait("the end of the program", func() bool { return w.returned })
		vs.User(false)
		return tmsg{id}
	}
}

// never is a command that follows a late one.
func (w *world) never(id string) bento.Cmd {
	return func() bento.Msg {
		if w.returned {
			w.fail("C02", "the command %s of a sequence is started after Run has returned", id)
		}
		return nil
	}
}

func jobs(prop string, deep bool) []vx.Job {
	var js []vx.Job
	for _, sc := range scenarios(prop, deep) {
		if !strings.Contains(sc.props, prop) {
			continue
		}
		b := sc.quick
		if deep {
			b = sc.deep
		}
		js = append(js, vx.Job{Key: sc.key, Bound: b, Run: func(prefix []int, verbose bool) (*vs.Sched, string) {
			return sc.run(prop, -1, prefix, verbose)
		}})
		// the same with each of the goroutines starved by default
		if b > 0 || deep {
			for k := 0; k < 12; k++ {
				js = append(js, vx.Job{Key: fmt.Sprintf("%s; goroutine %d is slow", sc.key, k), Bound: max(0, b-1), Run: func(prefix []int, verbose bool) (*vs.Sched, string) {
					return sc.run(prop, k, prefix, verbose)
				}})
			}
		}
	}
	return js
}

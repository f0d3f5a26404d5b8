package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/throbberwidget"
)

type tick struct {
	owner, age int // age: accepted ticks of the owner when the tick was made
	msg        throbberwidget.TickMsg
}

type world struct {
	st    []throbberwidget.State
	count []int
	ticks []tick
}

func newWorld(n int) *world {
	w := &world{count: make([]int, n)}
	for i := 0; i < n; i++ {
		s := throbberwidget.NewState()
		s.WithFPS(time.Nanosecond)
		w.st = append(w.st, s)
	}
	return w
}

func (w *world) add(owner int, msg bento.Msg) string {
	t, ok := msg.(throbberwidget.TickMsg)
	if !ok {
		return fmt.Sprintf("the tick is a %T", msg)
	}
	if t.ID() != w.st[owner].ID() {
		return fmt.Sprintf("a tick of throbber %d carries id %d", w.st[owner].ID(), t.ID())
	}
	w.ticks = append(w.ticks, tick{owner, w.count[owner], t})
	return ""
}

type step struct{ kind, who, tick int } // 0: start who, 1: give a tick to who, 2: another message to who

func (s step) String() string {
	switch s.kind {
	case 0:
		return fmt.Sprintf("start %d", s.who)
	case 1:
		return fmt.Sprintf("tick %d to %d", s.tick, s.who)
	}
	return fmt.Sprintf("other message %d to %d", s.tick, s.who)
}

var others = []bento.Msg{nil, "tick", bento.KeyMsg{Type: bento.KeyEnter}, bento.WindowSizeMsg{Width: 3}}

func (w *world) do(s step) string {
	switch s.kind {
	case 0:
		before := bx.Deep(w.st[s.who])
		msg := w.add(s.who, w.st[s.who].Tick())
		if bx.Deep(w.st[s.who]) != before {
			return "making a tick changed the throbber"
		}
		return msg
	case 1, 2:
		before := bx.Deep(w.st)
		var m bento.Msg
		accept := false
		if s.kind == 1 {
			t := w.ticks[s.tick]
			m = t.msg
			accept = t.owner == s.who && t.age == w.count[s.who]
		} else {
			m = others[s.tick]
		}
		cmd, ok := w.st[s.who].TryUpdate(m)
		if ok != accept || (cmd != nil) != accept {
			return fmt.Sprintf("consumed %v, next tick scheduled %v, want %v", ok, cmd != nil, accept)
		}
		if !accept {
			if bx.Deep(w.st) != before {
				return "a message that is not its own current tick changed the throbber"
			}
			return ""
		}
		w.count[s.who]++
		return w.add(s.who, cmd())
	}
	return ""
}

func (w *world) key() string {
	var ts []string
	for _, t := range w.ticks {
		ts = append(ts, fmt.Sprint(t.owner, ".", t.age))
	}
	sort.Strings(ts)
	var uniq []string
	for i, t := range ts { // a tick does not vanish when given, copies do not matter beyond two
		if i < 2 || ts[i-2] != t {
			uniq = append(uniq, t)
		}
	}
	return fmt.Sprint(w.count, uniq)
}

var types = []throbberwidget.Type{throbberwidget.TypeLine, throbberwidget.TypeHorizontalBlock, throbberwidget.TypeVerticalBlock, throbberwidget.TypeBrailleEight, throbberwidget.TypeParenthesis, throbberwidget.TypeCanadian, throbberwidget.TypeEllipsis, throbberwidget.TypeMeter, throbberwidget.TypePulse}

// frameOf checks what a throbber shows after n accepted ticks.
func frameOf(r *vk.Run, st throbberwidget.State, t throbberwidget.Type, n int, area bento.Rect) string {
	r.Trans(1)
	set := t.Set()
	f := string(set[n%len(set)])
	all := bx.R(area.X-1, area.Y-1, area.Width+2, area.Height+2)
	got := bx.Filled(all)
	throbberwidget.New().WithType(t).RenderStateful(area, &got, st)
	r.State(bx.Hash(&got))
	lines := strings.Split(f, "\n")
	width := 0
	for _, l := range lines {
		width = max(width, bx.Width(l))
	}
	if width > area.Width || len(lines) > area.Height {
		for y := all.Top(); y < all.Bottom(); y++ {
			for x := all.Left(); x < all.Right(); x++ {
				if !area.Contains(bento.NewPosition(x, y)) && bx.At(&got, x, y) != bx.PreCell() {
					return "cell outside the area changed\n" + bx.Dump(&got)
				}
			}
		}
		return ""
	}
	msg := ""
	for lean := 0; lean < 4; lean++ {
		want := bx.Filled(all)
		for j, l := range lines {
			x := area.X + (area.Width-width+lean%2)/2
			y := area.Y + (area.Height-len(lines)+lean/2)/2 + j
			for _, g := range bx.Graphemes(l) {
				want.CellAt(bento.NewPosition(x, y)).SetSymbol(g.S)
				x += g.W
			}
		}
		if msg = bx.Diff(&got, &want); msg == "" {
			return ""
		}
	}
	return msg
}

func throbbers() {
	r := vk.New("C30", 240*time.Second, 900*time.Second)
	depth, maxTicks := 7, 6
	if r.Thorough {
		depth, maxTicks = 10, 9
	}
	r.Bound("all sequences of up to %d steps (start a throbber, give any tick made so far to any throbber any number of times, other messages) of 1 and 2 throbbers, states merged by accepted ticks and pending ticks", depth)
	r.Bound("%d frame sets, three turns of each, areas 0x0 to 7x3", len(types))
	r.Assume("ticks are those that throbbers produced (a zero TickMsg made by hand is left out); centring may lean either way")
	for n := 1; n <= 2; n++ {
		seen := map[string]bool{}
		level := [][]step{nil}
		for d := 0; d < depth && len(level) > 0; d++ {
			var next [][]step
			nexts := make([][][]step, len(level))
			keys := make([][]string, len(level))
			r.Parallel(len(level), func(w *vk.Worker, i int) {
				base := newWorld(n)
				for _, s := range level[i] {
					base.do(s)
				}
				var steps []step
				for who := 0; who < n; who++ {
					steps = append(steps, step{0, who, 0})
					for k := range others {
						steps = append(steps, step{2, who, k})
					}
					for k := range base.ticks {
						steps = append(steps, step{1, who, k})
					}
				}
				for _, s := range steps {
					path := append(append([]step{}, level[i]...), s)
					var wd *world
					if !w.Case(func() string { return fmt.Sprintf("%d throbbers: %v", n, path) }, func() string {
						wd = newWorld(n)
						for _, s := range path {
							r.Trans(1)
							if msg := wd.do(s); msg != "" {
								return msg
							}
						}
						for k := range wd.st {
							t := types[(k+len(path))%len(types)]
							if msg := frameOf(r, wd.st[k], t, wd.count[k], bx.R(1, 1, 5, 1)); msg != "" {
								return msg
							}
						}
						return ""
					}) {
						return
					}
					if len(wd.ticks) <= maxTicks {
						nexts[i] = append(nexts[i], path)
						keys[i] = append(keys[i], wd.key())
					}
				}
			})
			for i := range nexts {
				for j, p := range nexts[i] {
					if !seen[keys[i][j]] {
						seen[keys[i][j]] = true
						r.StateStr(fmt.Sprint(n, keys[i][j]))
						next = append(next, p)
					}
				}
			}
			level = next
			if r.Stop() || r.Expired() {
				break
			}
		}
		r.Trace(len(seen))
		if n == 2 && len(level) > 0 {
			r.Sample(fmt.Sprint(level[0]))
		}
	}
	r.Parallel(len(types), func(w *vk.Worker, i int) {
		for n := 0; n <= 3*len(types[i].Set()); n++ {
			wd := newWorld(1)
			wd.do(step{0, 0, 0})
			for k := 0; k < n; k++ {
				wd.do(step{1, 0, len(wd.ticks) - 1})
			}
			for wid := 0; wid <= 7; wid++ {
				for h := 0; h <= 3; h++ {
					w.Case(func() string { return fmt.Sprintf("%v after %d ticks in %dx%d", types[i], n, wid, h) }, func() string {
						return frameOf(r, wd.st[0], types[i], n, bx.R(2, 1, wid, h))
					})
				}
			}
		}
	})
	w := r.NewWorker()
	w.Case(func() string { return "the next tick waits for the frame time" }, func() string {
		s := throbberwidget.NewState()
		s.WithFPS(40 * time.Millisecond)
		cmd, ok := s.TryUpdate(s.Tick())
		if !ok || cmd == nil {
			return "the first tick is refused"
		}
		t0 := time.Now()
		cmd()
		if time.Since(t0) < 39*time.Millisecond {
			return "the next tick comes at once"
		}
		return ""
	})
	long := 70000 // past the range of a 16-bit tag
	if r.Thorough {
		long = 1 << 20
	}
	r.Bound("one throbber through %d accepted ticks: every earlier one of the first 300 given again after each of these, its first and its previous ones at each of all; all frames of the first 1000 ticks and around powers of two", long)
	w.Case(func() string { return "ticks given again to a throbber that runs for long" }, func() string {
		s := throbberwidget.NewState()
		s.WithFPS(time.Nanosecond)
		var old []bento.Msg
		msg := s.Tick()
		for i := 0; i < long; i++ {
			cmd, ok := s.TryUpdate(msg)
			if !ok || cmd == nil {
				return fmt.Sprintf("tick %d is refused", i)
			}
			r.Trans(1)
			if len(old) < 300 {
				old = append(old, msg)
			}
			for k, o := range append(old[:len(old):len(old)], msg) {
				if i >= 300 && k > 1 && k < len(old)-1 {
					continue
				}
				if _, ok := s.TryUpdate(o); ok {
					return fmt.Sprintf("tick %d is accepted again after tick %d", k, i)
				}
			}
			if n := i + 1; n < 1000 || bits.OnesCount(uint(n+8)&^31) == 1 {
				for _, t := range types {
					if bad := frameOf(r, s, t, n, bx.R(1, 1, 5, 1)); bad != "" {
						return fmt.Sprintf("%v after %d ticks: %s", t, n, bad)
					}
				}
			}
			msg = cmd()
		}
		return ""
	})
	w.Case(func() string { return "every throbber has its own id" }, func() string {
		ids := map[int]bool{}
		for i := 0; i < 100; i++ {
			s := throbberwidget.NewState()
			if ids[s.ID()] {
				return "two throbbers share an id"
			}
			ids[s.ID()] = true
		}
		return ""
	})
	r.Finish()
}

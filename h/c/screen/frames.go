package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/internal/zzverif/vt"
	"github.com/muesli/termenv"
)

// tile is a glyph with its width and look.
type tile struct {
	s string
	w int
	l look
}

var (
	noLook = look{fg: bento.ResetColor{}, bg: bento.ResetColor{}}
	redOn  = look{fg: termenv.ANSIColor(1), bg: termenv.ANSIColor(4), m: 0}
	onBlue = look{fg: bento.ResetColor{}, bg: termenv.ANSIColor(4)}
	boldly = look{fg: bento.ResetColor{}, bg: bento.ResetColor{}, m: bento.ModifierBold | bento.ModifierUnderlined}
)

var tiles = []tile{
	{" ", 1, noLook}, {"a", 1, noLook}, {"世", 2, noLook}, {" ", 1, onBlue}, {"e\u0301", 1, redOn}, {"界", 2, boldly}, {"a", 1, boldly}, {"─", 1, noLook},
	{"👩\u200d🚀", 2, noLook}, {"❤\ufe0f", 2, redOn}, {"1\ufe0f\u20e3", 1, noLook},
}

// row is a list of tiles that fill a width exactly.
func rows(use []int, width int) [][]int {
	if width == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, t := range use {
		if tiles[t].w <= width {
			for _, rest := range rows(use, width-tiles[t].w) {
				out = append(out, append([]int{t}, rest...))
			}
		}
	}
	return out
}

type frame [][]int // rows of tiles

func (f frame) String() string {
	var sb strings.Builder
	for i, r := range f {
		if i > 0 {
			sb.WriteString("/")
		}
		for _, t := range r {
			fmt.Fprintf(&sb, "%d", t)
		}
	}
	return sb.String()
}

// paint puts a frame into a buffer; what does not fit is left out.
func (f frame) paint(area bento.Rect, b *bento.Buffer) {
	for y, r := range f {
		x := 0
		for _, k := range r {
			t := tiles[k]
			if y < area.Height && x+t.w <= area.Width {
				*b.CellAt(bento.NewPosition(area.X+x, area.Y+y)) = t.l.cell(t.s)
			}
			x += t.w
		}
	}
}

// shows compares the screen with a frame.
func (f frame) shows(t *vt.Term, area bento.Rect, p termenv.Profile) string {
	b := bento.NewBufferEmpty(area)
	f.paint(area, &b)
	for y := area.Y; y < area.Bottom(); y++ {
		for x := area.X; x < area.Right(); x++ {
			c := *b.CellAt(bento.NewPosition(x, y))
			want := vt.Cell{Glyph: c.Symbol, Pen: penOf(p, c)}
			if got := t.At(x, y); got != want {
				return fmt.Sprintf("cell %d,%d shows %q %+v instead of %q %+v", x, y, got.Glyph, got.Pen, want.Glyph, want.Pen)
			}
			for _, k := range tiles {
				if k.s == c.Symbol && k.w == 2 {
					x++
					if got := t.At(x, y); got.Glyph != "" {
						return fmt.Sprintf("the right half of the glyph at %d,%d shows %q", x, y, got.Glyph)
					}
				}
			}
		}
	}
	return ""
}

type step struct {
	kind byte // 'd' draw, 'c' clear, 'r' resize, 's' cursor shown, 'u' unchanged frame
	arg  int
}

type world struct {
	t     *vt.Term
	term  *bento.Terminal
	area  bento.Rect
	fixed bool
}

func newWorld(w, h int, fixed bool, p termenv.Profile) (*world, string) {
	k := &world{t: vt.New(w, h), area: bento.NewRect(w, h), fixed: fixed}
	var v bento.Viewport = bento.ViewportFullscreen{}
	if fixed {
		k.area = bento.NewRect(w-3, h-2).Positioned(2, 1)
		v = bento.ViewportFixed(k.area)
	}
	k.t.Visible = true
	var err error
	k.term, err = bento.NewTerminal(newBackend(k.t, p), v)
	if err != nil {
		return nil, err.Error()
	}
	// the input is no terminal: there is no mode to change
	if err := k.term.EnableRawMode(); err != nil {
		return nil, "raw mode, the input being no terminal: " + err.Error()
	}
	return k, ""
}

var sizes = [][2]int{{4, 2}, {2, 3}, {5, 1}, {1, 1}, {0, 0}, {7, 4}}

func (k *world) do(s step, fs []frame, p termenv.Profile) string {
	switch s.kind {
	case 'd':
		if _, err := k.term.Draw(painter(fs[s.arg].paint)); err != nil {
			return err.Error()
		}
		if k.t.Err != "" {
			return k.t.Err
		}
		if m := fs[s.arg].shows(k.t, k.area, p); m != "" {
			return m
		}
		if k.t.Visible {
			return "the cursor is visible after a draw"
		}
	case 'u': // the same frame once more
		printed := k.t.Printed
		if m := k.do(step{'d', s.arg}, fs, p); m != "" {
			return "drawn again: " + m
		}
		if k.t.Printed != printed {
			return fmt.Sprintf("drawing the unchanged frame printed %d glyphs", k.t.Printed-printed)
		}
	case 'c':
		if err := k.term.Clear(); err != nil {
			return err.Error()
		}
	case 's':
		if err := k.term.ShowCursor(); err != nil {
			return err.Error()
		}
		if !k.t.Visible {
			return "the cursor stays hidden when it is shown on purpose"
		}
		for _, c := range [][2]int{{k.t.W - 1, 0}, {0, k.t.H - 1}, {k.t.W / 2, k.t.H / 3}, {k.t.W - 1, k.t.H - 1}} {
			if k.t.W == 0 || k.t.H == 0 {
				break
			}
			printed := k.t.Printed
			if err := k.term.SetCursorPosition(bento.Position{X: c[0], Y: c[1]}); err != nil {
				return err.Error()
			}
			if x, y := k.t.Cursor(); x != c[0] || y != c[1] || k.t.Printed != printed {
				return fmt.Sprintf("the cursor put at %v stands at %d,%d (%d glyphs printed)", c, x, y, k.t.Printed-printed)
			}
		}
	case 'r':
		z := sizes[s.arg]
		k.t.Resize(z[0], z[1], vt.Cell{Glyph: "#", Pen: vt.Pen{Fg: 3, Bg: 5, Attr: vt.Italic}})
		k.area = bento.NewRect(z[0], z[1])
		if err := k.term.Resize(k.area); err != nil {
			return err.Error()
		}
	}
	return k.t.Err
}

func frames() {
	r := vk.New("C07", 240*time.Second, 900*time.Second)
	p := termenv.TrueColor
	var jobs []func(w *vk.Worker)
	// large screens
	big := [][2]int{{200, 60}, {300, 3}, {3, 150}, {1000, 12}, {520, 130}}
	kinds := []string{"blank", "full", "wide", "mixed", "sparse", "styled"}
	r.Bound("all sequences of 3 of the frames %v of %v cells (the largest: every pair, then one more)", kinds, big)
	for _, z := range big {
		var fs []frame
		for k := range kinds {
			f := make(frame, z[1])
			for y := range f {
				for x := 0; x < z[0]; {
					var n int
					switch k {
					case 1:
						n = 1
					case 2:
						n = 2
					case 3:
						n = (x*7 + y*3) % 7
					case 4:
						if (x+y)%37 == 0 {
							n = 1
						}
					case 5:
						n = 3 + (x/40+y)%2*3
					}
					if x+tiles[n].w > z[0] {
						n = 0
					}
					f[y] = append(f[y], n)
					x += tiles[n].w
				}
			}
			fs = append(fs, f)
		}
		for a := range fs {
			jobs = append(jobs, func(w *vk.Worker) {
				for b := range fs {
					for c := range fs {
						// more cells than fit 16 bits: each pair of frames once
						if z[0]*z[1] > 1<<16 && c != (a+b)%len(fs) {
							continue
						}
						w.Case(func() string { return fmt.Sprintf("%v cells: %s, %s, %s", z, kinds[a], kinds[b], kinds[c]) }, func() string {
							k, m := newWorld(z[0], z[1], false, p)
							if m != "" {
								return m
							}
							for _, s := range []step{{'d', a}, {'d', b}, {'d', c}, {'u', c}} {
								if m := k.do(s, fs, p); m != "" {
									return m
								}
								r.Trans(1)
							}
							return ""
						})
						r.Trace(1)
					}
				}
			})
		}
	}
	// (a) every pair of frames of one row, (b) of two rows
	pairs := func(name string, w, h int, use []int, fixed bool) {
		var fs []frame
		rs := rows(use, w)
		if h == 1 {
			for _, a := range rs {
				fs = append(fs, frame{a})
			}
		} else {
			for _, a := range rs {
				for _, b := range rs {
					fs = append(fs, frame{a, b})
				}
			}
		}
		r.Bound("all pairs of the %d frames of %dx%d cells over %d tiles (%s), the second drawn directly, redrawn unchanged, and after a clear", len(fs), w, h, len(use), name)
		tw, th := w, h
		if fixed {
			tw, th = w+3, h+2
		}
		for i := range fs {
			f := fs[i]
			jobs = append(jobs, func(wk *vk.Worker) {
				r.StateStr(name + f.String())
				for j := range fs {
					two := []frame{f, fs[j]}
					for _, mid := range []byte{0, 'c'} {
						if r.Stop() {
							return
						}
						wk.Case(func() string { return fmt.Sprintf("%s: %v, then %v (between: %q)", name, f, fs[j], mid) }, func() string {
							k, m := newWorld(tw, th, fixed, p)
							if m != "" {
								return m
							}
							steps := []step{{'d', 0}, {'d', 1}, {'u', 1}}
							if mid != 0 {
								steps = []step{{'d', 0}, {mid, 0}, {'d', 1}}
							}
							for _, s := range steps {
								if m := k.do(s, two, p); m != "" {
									return m
								}
								r.Trans(1)
							}
							return ""
						})
						r.Trace(1)
					}
				}
			})
		}
	}
	if r.Thorough {
		pairs("one row", 5, 1, []int{0, 1, 2, 3, 4, 5, 6, 7}[:6], false)
		pairs("two rows", 3, 2, []int{0, 1, 2, 3, 5}, false)
		pairs("in a fixed viewport", 3, 2, []int{0, 1, 2}, true)
	} else {
		pairs("one row", 4, 1, []int{0, 1, 2, 3, 4, 5, 6}, false)
		pairs("two rows", 3, 2, []int{0, 1, 2, 3}, false)
		pairs("in a fixed viewport", 3, 2, []int{0, 1, 2}, true)
	}
	pairs("one row with glyphs of several characters", 4, 1, []int{0, 1, 2, 8, 9, 10}, false)
	pairs("two rows with glyphs of several characters", 2, 2, []int{0, 1, 8, 9, 10}, false)
	// (c) histories of draws, clears, resizes
	fs := []frame{
		{}, {{1, 1, 1, 1, 1, 1, 1}, {4, 4, 4, 4}, {1, 1, 1}}, {{2, 2, 2, 1}, {1, 2, 2}, {5, 5, 5, 1}, {2, 2, 2}}, {{1, 2, 2, 2}, {2, 1, 1, 2}, {0, 5, 3, 3}}, {{3, 3, 3, 3, 3, 3, 3}, {3, 0, 3, 3}, {3}},
	}
	var alphabet []step
	for i := range fs {
		alphabet = append(alphabet, step{'d', i})
	}
	for i := range sizes {
		alphabet = append(alphabet, step{'r', i})
	}
	alphabet = append(alphabet, step{'c', 0}, step{'s', 0})
	depth := 4
	if r.Thorough {
		depth = 5
	}
	r.Bound("all histories of %d steps from 3 sizes and a fixed viewport: draws of %d frames, resizes to %v, clears and shown cursors; then every frame is drawn, twice", depth, len(fs), sizes)
	r.Assume("buffers are well-formed: a double-width glyph is followed by a blank cell and never starts in the last column; resizing leaves arbitrary junk on the screen; a terminal's cell width of a glyph is uniseg's")
	for _, start := range [][3]int{{4, 2, 0}, {0, 0, 0}, {7, 4, 0}, {7, 4, 1}} {
		for first := range alphabet {
			jobs = append(jobs, func(w *vk.Worker) {
				var rec func(h []step)
				rec = func(h []step) {
					if r.Stop() {
						return
					}
					if len(h) == depth {
						h = append([]step{}, h...)
						for last := range fs {
							w.Case(func() string { return fmt.Sprintf("from %v: %v then draw %d", start, h, last) }, func() string {
								k, m := newWorld(start[0], start[1], start[2] == 1, p)
								if m != "" {
									return m
								}
								for i, s := range append(h[:len(h):len(h)], step{'d', last}, step{'u', last}) {
									if m := k.do(s, fs, p); m != "" {
										return fmt.Sprintf("step %d: %s", i, m)
									}
									r.Trans(1)
								}
								return ""
							})
							r.Trace(1)
						}
						return
					}
					for _, s := range alphabet {
						if s.kind == 'r' && start[2] == 1 {
							continue
						}
						rec(append(h, s))
					}
				}
				if start[2] == 1 && alphabet[first].kind == 'r' {
					return
				}
				rec([]step{alphabet[first]})
				r.Sample(fmt.Sprintf("from %v: %v and all histories that begin so", start, alphabet[first]))
			})
		}
	}
	r.Parallel(len(jobs), func(w *vk.Worker, i int) {
		if !r.Stop() {
			jobs[i](w)
		}
	})
	r.Finish()
}

package main

import (
	"fmt"
	"math"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/scrollwidget"
)

type bar struct {
	orient   scrollwidget.Orientation
	w, h     int
	content  int
	viewport int
}

// edge lists the cells of the bar from its begin to its end.
func (c bar) edge(a bento.Rect) (cells []bento.Position, inner bento.Rect) {
	switch c.orient {
	case scrollwidget.OrientationVerticalRight, scrollwidget.OrientationVerticalLeft:
		x := a.Right() - 1
		inner = bx.R(a.X, a.Y, a.Width-1, a.Height)
		if c.orient == scrollwidget.OrientationVerticalLeft {
			x = a.X
			inner.X++
		}
		for y := a.Top(); y < a.Bottom(); y++ {
			cells = append(cells, bento.NewPosition(x, y))
		}
	default:
		y := a.Bottom() - 1
		inner = bx.R(a.X, a.Y, a.Width, a.Height-1)
		if c.orient == scrollwidget.OrientationHorizontalTop {
			y = a.Y
			inner.Y++
		}
		for x := a.Left(); x < a.Right(); x++ {
			cells = append(cells, bento.NewPosition(x, y))
		}
	}
	return
}

// show renders and checks one position; it returns the start of the thumb in
// the track.
func (c bar) show(r *vk.Run, st scrollwidget.State, pos int) (int, string) {
	r.Trans(1)
	area := bx.R(3, 2, c.w, c.h)
	all := bx.R(2, 1, c.w+2, c.h+2)
	got := bx.Filled(all)
	s := scrollwidget.New(c.orient)
	s.RenderStateful(area, &got, st)
	r.State(bx.Hash(&got))
	in := s.Inner(area)
	var cells []bento.Position
	if area.IsEmpty() {
		if !in.IsEmpty() {
			return 0, fmt.Sprintf("inner %+v of an empty area", in)
		}
	} else {
		var want bento.Rect
		cells, want = c.edge(area)
		if in != want && !(in.IsEmpty() && want.IsEmpty()) {
			return 0, fmt.Sprintf("inner %+v, want %+v", in, want)
		}
	}
	begin, track, thumb, end := "▲", "║", "█", "▼"
	if !c.orient.IsVertical() {
		begin, track, end = "", "═", ""
	}
	n := len(cells)
	if begin != "" {
		n -= 2
	}
	at := map[bento.Position]bool{}
	for _, p := range cells {
		at[p] = true
	}
	drawn := c.content > 0 && n > 0
	for y := all.Top(); y < all.Bottom(); y++ {
		for x := all.Left(); x < all.Right(); x++ {
			cell := bx.At(&got, x, y)
			if at[bento.NewPosition(x, y)] && drawn {
				cell.Symbol = "#" // only the symbols change
			}
			if cell != bx.PreCell() {
				return 0, fmt.Sprintf("cell (%d,%d) is %s\n%s", x, y, bx.CellString(bx.At(&got, x, y)), bx.Dump(&got))
			}
		}
	}
	if !drawn {
		return 0, ""
	}
	var syms []string
	for _, p := range cells {
		syms = append(syms, bx.At(&got, p.X, p.Y).Symbol)
	}
	bad := func(what string) (int, string) { return 0, fmt.Sprintf("position %d: %s: %q", pos, what, syms) }
	if begin != "" {
		if syms[0] != begin || syms[len(syms)-1] != end {
			return bad("begin or end symbol missing")
		}
		syms = syms[1 : len(syms)-1]
	}
	start, length := -1, 0
	for i, s := range syms {
		switch {
		case s == thumb && start < 0:
			start, length = i, 1
		case s == thumb && i == start+length:
			length++
		case s != track:
			return bad("neither track nor one unbroken thumb")
		}
	}
	if length == 0 {
		return bad("no thumb")
	}
	p := min(max(pos, 0), c.content-1)
	if p == 0 && start != 0 {
		return bad("the thumb does not touch the start at the first position")
	}
	if p == c.content-1 && start+length != n && c.content > 1 {
		return bad("the thumb does not touch the end at the last position")
	}
	v := c.viewport
	if v == 0 {
		v = len(cells)
	}
	scale := float64(n) / float64(c.content-1+v)
	if l := float64(v) * scale; math.Abs(float64(length)-l) > 1.001 {
		return bad(fmt.Sprintf("thumb of %d cells, the viewport's share is %.2f", length, l))
	}
	if f := float64(p) * scale; math.Abs(float64(start)-f) > 1.001 {
		return bad(fmt.Sprintf("thumb at %d, the position's share is %.2f", start, f))
	}
	return start, ""
}

func (c bar) check(r *vk.Run) string {
	last := -1
	step := 1
	if c.content > 1<<20 {
		step = c.content / 997
	}
	for p := -1; p <= c.content+1; p += step {
		if p > 0 && p < c.content-1 && p+step > c.content+1 {
			p, step = c.content-1, 1
		}
		st := scrollwidget.NewState(c.content)
		st.SetPosition(p).SetViewportContentLen(c.viewport)
		start, msg := c.show(r, st, p)
		if msg != "" {
			return msg
		}
		if start < last {
			return fmt.Sprintf("the thumb moves back from %d to %d at position %d", last, start, p)
		}
		last = start
	}
	return ""
}

func scrollbars() {
	r := vk.New("C27", 240*time.Second, 900*time.Second)
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20, 31}
	contents := []int{0, 1, 2, 3, 4, 5, 7, 10, 23, 40, 101}
	views := []int{0, 1, 2, 3, 5, 9, 50, 200}
	if r.Thorough {
		lens, contents, views = nil, nil, nil
		for i := 0; i <= 50; i++ {
			lens = append(lens, i)
		}
		for i := 0; i <= 130; i++ {
			contents = append(contents, i)
		}
		contents = append(contents, 1000, 5000)
		for i := 0; i <= 30; i++ {
			views = append(views, i)
		}
		views = append(views, 100, 1000)
	}
	var bars []bar
	for o := scrollwidget.OrientationVerticalRight; o <= scrollwidget.OrientationHorizontalTop; o++ {
		for _, n := range lens {
			for cross := 0; cross <= 2; cross++ {
				w, h := n, cross
				if o.IsVertical() {
					w, h = cross, n
				}
				for _, c := range contents {
					for _, v := range views {
						if cross != 2 && v > 2 {
							continue
						}
						bars = append(bars, bar{o, w, h, c, v})
					}
				}
			}
		}
	}
	for o := scrollwidget.OrientationVerticalRight; o <= scrollwidget.OrientationHorizontalTop; o++ {
		for _, n := range []int{100, 256, 300} {
			for _, c := range []int{99, 257, 1000} {
				for _, v := range []int{0, 1, 300} {
					w, h := n, 1
					if o.IsVertical() {
						w, h = 1, n
					}
					bars = append(bars, bar{o, w, h, c, v})
				}
			}
		}
	}
	for o := scrollwidget.OrientationVerticalRight; o <= scrollwidget.OrientationHorizontalTop; o++ {
		for _, c := range []int{30_000_000, 3_000_000_000, 1 << 50} {
			for _, v := range []int{0, 1, 100, 10_000_000} {
				w, h := 100, 1
				if o.IsVertical() {
					w, h = 1, 100
				}
				bars = append(bars, bar{o, w, h, c, v})
			}
		}
	}
	r.Bound("bars of length 100 for contents of 30 million lines and more, 1000 positions each")
	r.Bound("bars of lengths 100, 256 and 300 for contents of 99, 257 and 1000 lines")
	r.Bound("%d bars: 4 orientations, lengths %d..%d, content lengths up to %d, viewport lengths up to %d, every position from -1 to one past the content", len(bars), lens[0], lens[len(lens)-1], contents[len(contents)-1], views[len(views)-1])
	r.Bound("all reachable positions under Next, Prev, First, Last, Scroll and SetPosition for content lengths 0-12")
	r.Assume("a position outside the content is drawn as the nearest one inside")
	r.Parallel(len(bars), func(w *vk.Worker, i int) {
		c := bars[i]
		w.Case(func() string { return fmt.Sprintf("%+v", c) }, func() string { return c.check(r) })
		r.Trace(1)
		if i%3000 == 8 {
			r.Sample(fmt.Sprintf("%+v", c))
		}
	})
	// stepping: all transitions from all positions
	r.Parallel(13, func(w *vk.Worker, content int) {
		last := max(0, content-1)
		type step struct {
			name string
			do   func(s *scrollwidget.State)
			want func(p int) int
		}
		prev := func(p int) int { return max(0, p-1) }
		next := func(p int) int { return min(last, p+1) }
		steps := []step{
			{"Next", (*scrollwidget.State).Next, next},
			{"Prev", (*scrollwidget.State).Prev, prev},
			{"First", (*scrollwidget.State).First, func(int) int { return 0 }},
			{"Last", (*scrollwidget.State).Last, func(int) int { return last }},
			{"Scroll forward", func(s *scrollwidget.State) { s.Scroll(scrollwidget.DirectionForward) }, next},
			{"Scroll backward", func(s *scrollwidget.State) { s.Scroll(scrollwidget.DirectionBackward) }, prev},
		}
		for p := 0; p <= last; p++ {
			for _, a := range steps {
				for _, b := range steps {
					w.Case(func() string { return fmt.Sprintf("content %d, position %d, %s, %s", content, p, a.name, b.name) }, func() string {
						st := scrollwidget.NewState(content)
						viewport := []int{0, 1, 3, 20}[p%4]
						st.SetViewportContentLen(viewport)
						if st.Position() != 0 {
							return "a new state is not at the start"
						}
						st.SetPosition(p)
						a.do(&st)
						q := a.want(p)
						if st.Position() != q {
							return fmt.Sprintf("position %d, want %d", st.Position(), q)
						}
						b.do(&st)
						r.Trans(2)
						if st.Position() != b.want(q) {
							return fmt.Sprintf("position %d, want %d", st.Position(), b.want(q))
						}
						r.StateStr(fmt.Sprint(content, st.Position()))
						if got := st.Ratio(); content > 0 && math.Abs(got*float64(content)-float64(st.Position())) > 1e-6 {
							return fmt.Sprintf("ratio %v at position %d of %d", got, st.Position(), content)
						}
						_, msg := bar{scrollwidget.OrientationVerticalRight, 2, 8, content, viewport}.show(r, st, st.Position())
						return msg
					})
				}
			}
		}
	})
	r.Finish()
}

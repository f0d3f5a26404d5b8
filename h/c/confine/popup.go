package main

import (
	"fmt"
	"math"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/popupwidget"
)

// size is what a constraint asks of n cells.
type size struct {
	c    bento.Constraint
	want func(n int) float64
}

func fixed(k int) func(int) float64 { return func(n int) float64 { return float64(min(k, n)) } }

func sizes() []size {
	out := []size{}
	for _, k := range []int{0, 1, 2, 3, 5, 8, 100} {
		out = append(out, size{bento.ConstraintLen(k), fixed(k)}, size{bento.ConstraintMax(k), fixed(k)})
	}
	for _, p := range []int{0, 10, 33, 50, 60, 100} {
		out = append(out, size{bento.ConstraintPercentage(p), func(n int) float64 { return float64(n*p) / 100 }})
	}
	for _, q := range [][2]int{{1, 3}, {1, 2}, {3, 4}} {
		out = append(out, size{bento.ConstraintRatio{Num: q[0], Den: q[1]}, func(n int) float64 { return float64(n*q[0]) / float64(q[1]) }})
	}
	for _, k := range []int{0, 3} {
		out = append(out, size{bento.ConstraintMin(k), func(n int) float64 { return float64(n) }})
	}
	return append(out, size{bento.ConstraintFill(1), func(n int) float64 { return float64(n) }})
}

// placed checks one axis of a box: start and length within n cells, for place 0 start, 1 middle, 2 end.
func placed(n, start, length int, want float64, place int) string {
	if start < 0 || length < 0 || start+length > n {
		return fmt.Sprintf("cells %d+%d are not within %d", start, length, n)
	}
	exact := want == math.Trunc(want)
	if exact && place != 1 && float64(length) != want || math.Abs(float64(length)-want) >= 1.0001 {
		return fmt.Sprintf("%d cells long instead of %v", length, want)
	}
	if exact && float64(length) != want {
		return fmt.Sprintf("%d cells long instead of %v", length, want)
	}
	gap := []float64{0, (float64(n) - want) / 2, float64(n) - want}[place]
	if math.Abs(float64(start)-gap) >= 1 {
		return fmt.Sprintf("starts at %d instead of %v", start, gap)
	}
	if place == 0 && start != 0 || place == 2 && start+length != n && length > 0 {
		return fmt.Sprintf("cells %d+%d do not touch the edge they are placed at", start, length)
	}
	return ""
}

type popCase struct {
	w, h, px, py int
	block        int
	pad          int
	style        int
	area         bento.Rect
}

func (c popCase) String() string {
	s := sizes()
	return fmt.Sprintf("width %T%v height %T%v place %d,%d block %d padding %d style %d in %v", s[c.w].c, s[c.w].c, s[c.h].c, s[c.h].c, c.px, c.py, c.block, c.pad, c.style, c.area)
}

func (c popCase) popup(all []size, withBlock bool) popupwidget.Popup {
	p := popupwidget.New().WithWidth(all[c.w].c).WithHeight(all[c.h].c).WithStyle([]bento.Style{bento.NewStyle(), stBlue, stRed}[c.style])
	if c.style > 0 { // the last placement is the one that counts
		p = []func() popupwidget.Popup{p.Right, p.Left, p.Center}[c.px]()
		p = []func() popupwidget.Popup{p.Bottom, p.Top, p.Middle}[c.py]()
	}
	p = []func() popupwidget.Popup{p.Left, p.Center, p.Right}[c.px]()
	p = []func() popupwidget.Popup{p.Top, p.Middle, p.Bottom}[c.py]()
	if b := blocks()[c.block]; withBlock && b != nil {
		p = p.WithBlock(*b)
	}
	return p.WithPadding(popPaddings[c.pad])
}

var popPaddings = []bento.Padding{bento.NewPadding(), bento.NewPadding(1), bento.NewPadding(0, 1, 2, 3)}

func popCheck(r *vk.Run, all []size, c popCase) string {
	buf := bx.R(0, 0, c.area.Right()+2, c.area.Bottom()+2)
	box := c.popup(all, false).Inner(c.area)
	if box.IsEmpty() && c.pad > 0 {
		box = bento.Rect{}
	} else if c.pad == 0 && !c.area.IsEmpty() {
		if m := placed(c.area.Width, box.X-c.area.X, box.Width, all[c.w].want(c.area.Width), c.px); m != "" {
			return "horizontally: " + m
		}
		if m := placed(c.area.Height, box.Y-c.area.Y, box.Height, all[c.h].want(c.area.Height), c.py); m != "" {
			return "vertically: " + m
		}
	}
	if !box.IsEmpty() && box.Intersection(c.area) != box {
		return fmt.Sprintf("the box %v leaves the area", box)
	}
	if padded := c.area.Inner(popPaddings[c.pad]); !box.IsEmpty() && !padded.IsEmpty() && box.Intersection(padded) != box {
		return fmt.Sprintf("the box %v leaves the area less its padding, %v", box, padded)
	}
	p := c.popup(all, true)
	inner := p.Inner(c.area)
	want := box
	block := blocks()[c.block]
	if block != nil {
		want = block.Inner(box)
	}
	if !(inner.IsEmpty() && want.IsEmpty()) && inner != want {
		return fmt.Sprintf("inner area %v instead of %v in the box %v", inner, want, box)
	}
	got, exp := bx.Filled(buf), bx.Filled(buf)
	p.Render(c.area, &got)
	for y := box.Top(); y < box.Bottom(); y++ {
		for x := box.Left(); x < box.Right(); x++ {
			cell := bento.NewEmptyCell()
			*exp.CellAt(bento.NewPosition(x, y)) = bx.Styled(cell, []bento.Style{bento.NewStyle(), stBlue, stRed}[c.style])
		}
	}
	if block != nil && !box.IsEmpty() {
		block.Render(box, &exp)
	}
	r.State(bx.Hash(&got))
	r.Trans(2)
	if d := bx.Diff(&got, &exp); d != "" {
		return fmt.Sprintf("with the box %v: %s", box, d)
	}
	return ""
}

func popups() {
	r := vk.New("C32", 240*time.Second, 900*time.Second)
	all := sizes()
	maxW, maxH := 20, 12
	if r.Thorough {
		maxW, maxH = 24, 16
	}
	var cases []popCase
	add := func(c popCase) { cases = append(cases, c) }
	for w := range all {
		for px := 0; px < 3; px++ {
			for n := 0; n <= maxW; n++ {
				add(popCase{w: w, h: w % 14, px: px, py: w % 3, block: (w + n) % len(blocks()), style: n % 3, area: bx.R(2, 1, n, 4)})
			}
			for n := 0; n <= maxH; n++ {
				add(popCase{w: (w + n) % 14, h: w, px: n % 3, py: px, block: (w + n) % len(blocks()), style: n % 3, area: bx.R(1, 3, 7, n)})
			}
		}
	}
	axis := []int{0, 4, 6, 9, 10, 16, 20, 21, 23}
	for _, w := range axis {
		for _, h := range axis {
			for place := 0; place < 9; place++ {
				for bl := range blocks() {
					for pad := 0; pad < 3; pad++ {
						if !r.Thorough && (pad > 0 && bl > 2) {
							continue
						}
						add(popCase{w: w, h: h, px: place % 3, py: place / 3, block: bl, pad: pad, style: 1 + bl%2, area: bx.R(3, 2, 9, 6)})
					}
				}
			}
		}
	}
	for k, w := range axis {
		for place := 0; place < 9; place++ {
			for i, a := range []bento.Rect{bx.R(3, 2, 80, 25), bx.R(0, 0, 260, 3), bx.R(1, 1, 4, 270)} {
				add(popCase{w: w, h: axis[(k+i)%len(axis)], px: place % 3, py: place / 3, block: (k + place) % len(blocks()), style: k % 3, area: a})
			}
		}
	}
	r.Bound("popups in areas of 80x25, 260x3 and 4x270")
	r.Bound("popups: each of %d width and height constraints x placement x every area width 0..%d and height 0..%d, and %d x %d constraints x 9 placements x 6 blocks x paddings in one area (%d popups); clear and fill in every rectangle of a 5x4 buffer", len(all), maxW, maxH, len(axis), len(axis), len(cases))
	r.Assume("what padding a popup's own Padding means is left open: with one, the box Inner names is required to be what Render draws, within the area less the padding")
	r.Parallel(len(cases), func(w *vk.Worker, i int) {
		if r.Stop() {
			return
		}
		c := cases[i]
		w.Case(c.String, func() string { return popCheck(r, all, c) })
		r.Trace(1)
		if i%300 == 7 {
			r.Sample(c.String())
		}
	})
	w := r.NewWorker()
	buf := bx.R(2, 1, 5, 4)
	for _, a := range rects(buf) {
		for k := 0; k < 4; k++ {
			w.Case(func() string {
				return fmt.Sprintf("%s in %v", []string{"clear", "fill", "styled fill", "wide block fill"}[k], a)
			}, func() string {
				got, want := bx.Filled(buf), bx.Filled(buf)
				var wd bento.Widget
				cell := bento.NewEmptyCell()
				switch k {
				case 0:
					wd = clearwidget.New()
				case 1:
					wd, cell = fillwidget.New("#"), bento.NewCell("#")
				case 2:
					c := bento.NewCell("e\u0301")
					wd, cell = fillwidget.New("e\u0301").WithStyle(stRed), bx.Styled(c, stRed)
				case 3:
					c := bento.NewCell("▒")
					wd, cell = fillwidget.New("▒").WithStyle(stOff), bx.Styled(c, stOff)
				}
				wd.Render(a, &got)
				for y := a.Top(); y < a.Bottom(); y++ {
					for x := a.Left(); x < a.Right(); x++ {
						*want.CellAt(bento.NewPosition(x, y)) = cell
					}
				}
				r.Trace(1)
				r.State(bx.Hash(&got))
				return bx.Diff(&got, &want)
			})
		}
	}
	w.Close()
	r.Finish()
}

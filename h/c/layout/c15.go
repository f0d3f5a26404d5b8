package main

import (
	"fmt"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vk"
)

// tiles checks that segments and spacers alternate and tile [0, c.w).
func (c cfg) tiles(segs, spaces []span) string {
	n := len(c.cs)
	if len(segs) != n || len(spaces) != n+1 {
		return fmt.Sprintf("%d constraints gave %d segments and %d spacers", n, len(segs), len(spaces))
	}
	fail := func(f string, a ...any) string {
		return fmt.Sprintf(f, a...) + fmt.Sprintf("; segments %v, spacers %v (start, size)", segs, spaces)
	}
	overlap := 0
	if c.sp < 0 {
		overlap = -c.sp
	}
	at := 0
	for i := 0; i <= n; i++ {
		s := spaces[i]
		if s.size < 0 {
			return fail("spacer %d has a negative size", i)
		}
		if s.at != at {
			return fail("spacer %d does not start where the segment before it ends (%d)", i, at)
		}
		next := c.w
		if i < n {
			next = segs[i].at
		}
		inner := i > 0 && i < n
		switch {
		case s.at+s.size == next:
		case s.size == 0 && inner && overlap > 0 && next < at && at-next <= overlap:
		default:
			return fail("spacer %d ends at %d, what follows it starts at %d", i, s.at+s.size, next)
		}
		if i == n {
			break
		}
		g := segs[i]
		if g.size < 0 || g.at < 0 || g.at+g.size > c.w {
			return fail("segment %d is not inside the area", i)
		}
		at = g.at + g.size
	}
	return ""
}

type geom struct {
	x, y, cross int
	pad         bento.Padding
}

// unpacked takes the parts out in the ways there are.
func unpacked(segs bento.Splitted) string {
	check := func(how string, got ...bento.Rect) string {
		for i, g := range got {
			if g != segs[i] {
				return fmt.Sprintf("%s: part %d is %+v, want %+v", how, i, g, segs[i])
			}
		}
		return ""
	}
	out := make([]bento.Rect, len(segs))
	to := make([]*bento.Rect, len(segs))
	for i := range to {
		to[i] = &out[i]
	}
	segs.Assign(to...)
	msgs := []string{check("Assign", out...)}
	if n := len(segs); n > 1 {
		keep := bento.Rect{Width: -7}
		last := keep
		some := make([]*bento.Rect, n)
		some[n-1] = &last
		segs.Assign(some...)
		if last != segs[n-1] {
			msgs = append(msgs, fmt.Sprintf("Assign of the last alone: %+v, want %+v", last, segs[n-1]))
		}
		last = keep
		segs.Assign(&last)
		msgs = append(msgs, check("Assign of the first alone", last))
	}
	if len(segs) > 0 {
		msgs = append(msgs, check("Unwrap", segs.Unwrap()))
	}
	if len(segs) > 1 {
		a, b := segs.Unwrap2()
		msgs = append(msgs, check("Unwrap2", a, b))
	}
	if len(segs) > 2 {
		a, b, c := segs.Unwrap3()
		msgs = append(msgs, check("Unwrap3", a, b, c))
	}
	if len(segs) > 3 {
		a, b, c, d := segs.Unwrap4()
		msgs = append(msgs, check("Unwrap4", a, b, c, d))
	}
	for _, m := range msgs {
		if m != "" {
			return m
		}
	}
	return ""
}

func (c cfg) whole(g geom, twice bool) (parts, msg string) {
	inner := func(horizontal bool) (area bento.Rect) {
		if horizontal {
			area = bento.NewRect(c.w+g.pad.Left+g.pad.Right, g.cross+g.pad.Top+g.pad.Bottom)
		} else {
			area = bento.NewRect(g.cross+g.pad.Left+g.pad.Right, c.w+g.pad.Top+g.pad.Bottom)
		}
		return area.Positioned(g.x, g.y)
	}
	var got [2][2][]span
	for d, horizontal := range []bool{true, false} {
		area := inner(horizontal)
		l := c.layout().WithPadding(g.pad)
		if horizontal {
			l = l.Horizontal()
		} else {
			l = l.Vertical()
		}
		segs, spaces := l.SplitWithSpacers(area)
		if twice {
			if only := l.Split(area); fmt.Sprint(only) != fmt.Sprint(segs) {
				return "", fmt.Sprintf("Split gives %v, SplitWithSpacers %v", only, segs)
			}
			if msg := unpacked(segs); msg != "" {
				return "", msg
			}
		}
		for k, rs := range [][]bento.Rect{segs, spaces} {
			for i, r := range rs {
				main, cross := span{r.X - g.x - g.pad.Left, r.Width}, span{r.Y - g.y - g.pad.Top, r.Height}
				if !horizontal {
					main, cross = span{r.Y - g.y - g.pad.Top, r.Height}, span{r.X - g.x - g.pad.Left, r.Width}
				}
				if cross != (span{0, g.cross}) {
					return "", fmt.Sprintf("horizontal=%v: part %d of %v does not span the cross axis of the padded area: %+v in %+v with padding %+v", horizontal, i, rs, r, area, g.pad)
				}
				got[d][k] = append(got[d][k], main)
			}
		}
	}
	if msg := c.tiles(got[0][0], got[0][1]); msg != "" {
		return "", "horizontal: " + msg
	}
	if fmt.Sprint(got[0]) != fmt.Sprint(got[1]) {
		return "", fmt.Sprintf("horizontally %v, vertically %v (segments, spacers)", got[0], got[1])
	}
	return fmt.Sprint(got[0]), ""
}

func c15() {
	r := vk.New("C15", 240*time.Second, 1500*time.Second)
	alpha := []cons{L(0), L(4), Mi(3), Ma(5), P(25), P(100), R(1, 3), F(1), F(2)}
	alpha2 := []cons{L(0), L(3), L(10), Mi(0), Mi(4), Mi(30), Ma(0), Ma(6), Ma(30), P(0), P(33), P(60), P(150), R(1, 3), R(3, 4), R(2, 1), R(1, 0), F(0), F(1), F(2), F(7)}
	sizes := []int{0, 1, 7, 10, 19}
	sps := []int{0, 2, -2}
	depth := 3
	geoms := []geom{{0, 0, 1, bento.Padding{}}, {5, 3, 2, bento.NewPadding(1, 2, 3, 4)}}
	if r.Thorough {
		sizes = []int{0, 1, 2, 3, 5, 7, 10, 13, 19, 50, 100}
		sps = []int{0, 1, 2, 9, -1, -2, -9}
		depth = 4
		geoms = append(geoms, geom{101, 57, 0, bento.NewPadding(0, 1, 0, 0)}, geom{1000, 0, 30, bento.Padding{}})
	}
	r.Bound("all lists of up to %d constraints over %d and up to 2 over %d constraints, all 6 flex modes, spacings %v, sizes %v, %d geometries (origin, cross size, padding), both directions", depth, len(alpha), len(alpha2), sps, sizes, len(geoms))
	four := []cons{L(1), L(2), L(3), F(1)}
	wk := r.NewWorker()
	wk.Case(func() string { return "four parts" }, func() string {
		return unpacked(bento.NewLayout(four...).Horizontal().Split(bento.NewRect(20, 2)))
	})
	wk.Close()
	r.Assume("origins are not negative; a padding larger than the area leaves an empty area whose place is not specified")
	run(r, alpha, depth, alpha2, sizes, sps, func(w *vk.Worker, c cfg) bool {
		w.Case(c.String, func() string {
			var first string
			for i, g := range geoms {
				w.Trans(2)
				got, msg := c.whole(g, i == 0)
				if msg != "" {
					return fmt.Sprintf("geometry %+v: %s", g, msg)
				}
				if i == 0 {
					first = got
					w.StateStr(got)
				} else if got != first {
					return fmt.Sprintf("at the origin: %s, with geometry %+v: %s", first, g, got)
				}
			}
			w.Trace(1)
			return ""
		})
		return !w.Stop() && !w.Expired()
	})
	r.Finish()
}

// run enumerates layouts on all cores.
func run(r *vk.Run, alpha []cons, depth int, alpha2 []cons, sizes, sps []int, do func(w *vk.Worker, c cfg) bool) {
	var all [][]cons
	seen := map[string]bool{}
	add := func(cs []cons) bool {
		k := cfg{cs: cs}.String()
		if !seen[k] {
			seen[k] = true
			all = append(all, cs)
		}
		return true
	}
	lists(alpha2, 2, add)
	lists(alpha, depth, add)
	r.Extra("constraint_lists", len(all))
	// short lists first, so that a run cut off by its time budget is complete up to a length
	byLen := map[int][][]cons{}
	max := 0
	for _, cs := range all {
		byLen[len(cs)] = append(byLen[len(cs)], cs)
		if len(cs) > max {
			max = len(cs)
		}
	}
	for n := 0; n <= max; n++ {
		ls := byLen[n]
		r.Parallel(len(ls), func(w *vk.Worker, i int) {
			for _, f := range flexes {
				for _, sp := range sps {
					for _, size := range sizes {
						if !do(w, cfg{ls[i], f, sp, size}) {
							return
						}
					}
				}
			}
		})
	}
}

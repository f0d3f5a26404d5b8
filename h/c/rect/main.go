// C10: rectangle arithmetic and paddings against sets of cells.
package main

import (
	"fmt"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vk"
)

const lo, hi = -4, 12

type set [hi - lo]uint32

func cells(x, y, w, h int) (s set) {
	for yy := y; yy < y+h; yy++ {
		for xx := x; xx < x+w; xx++ {
			s[yy-lo] |= 1 << (xx - lo)
		}
	}
	return s
}

func of(r bento.Rect) (s set, bad string) {
	if r.Width < 0 || r.Height < 0 {
		return s, fmt.Sprintf("negative size in %+v", r)
	}
	if r.Width == 0 || r.Height == 0 {
		return s, ""
	}
	if r.X < lo || r.Y < lo || r.X+r.Width > hi || r.Y+r.Height > hi {
		return s, fmt.Sprintf("out of range: %+v", r)
	}
	return cells(r.X, r.Y, r.Width, r.Height), ""
}

func (s set) and(o set) (r set) {
	for i := range s {
		r[i] = s[i] & o[i]
	}
	return
}

func (s set) or(o set) (r set) {
	for i := range s {
		r[i] = s[i] | o[i]
	}
	return
}

func main() {
	r := vk.New("C10", 240*time.Second, 300*time.Second)
	minC, maxC, maxS := -1, 2, 4
	if r.Thorough {
		minC, maxC, maxS = -2, 3, 5
	}
	r.Bound("rectangles with corner in [%d,%d]^2 and sizes 0..%d, all pairs of them; paddings with sides 0..3; indents 0..5", minC, maxC, maxS)
	r.Assume("coordinates and sizes outside the bound behave alike; negative sizes and paddings are not rectangles of this library")
	type q struct{ x, y, w, h int }
	var all []q
	for x := minC; x <= maxC; x++ {
		for y := minC; y <= maxC; y++ {
			for w := 0; w <= maxS; w++ {
				for h := 0; h <= maxS; h++ {
					all = append(all, q{x, y, w, h})
				}
			}
		}
	}
	mk := func(a q) bento.Rect { return bento.NewRect(a.w, a.h).Positioned(a.x, a.y) }

	pads := [][4]int{}
	for t := 0; t <= 3; t++ {
		for ri := 0; ri <= 3; ri++ {
			for b := 0; b <= 3; b++ {
				for l := 0; l <= 3; l++ {
					pads = append(pads, [4]int{t, ri, b, l})
				}
			}
		}
	}

	// paddings
	w := r.NewWorker()
	for _, p := range pads {
		p := p
		w.Case(func() string { return fmt.Sprintf("padding %v", p) }, func() string {
			is := func(g bento.Padding, t, ri, b, l int) string {
				if (g != bento.Padding{Top: t, Right: ri, Bottom: b, Left: l}) {
					return fmt.Sprintf("got %+v, want top %d right %d bottom %d left %d", g, t, ri, b, l)
				}
				return ""
			}
			r.Trans(11)
			base := bento.NewPadding(p[0], p[1], p[2], p[3])
			checks := []string{
				is(bento.NewPadding(), 0, 0, 0, 0),
				is(bento.NewPadding(p[0]), p[0], p[0], p[0], p[0]),
				is(bento.NewPadding(p[0], p[1]), p[0], p[1], p[0], p[1]),
				is(base, p[0], p[1], p[2], p[3]),
			}
			for v := 4; v < 6; v++ {
				checks = append(checks,
					is(base.WithTop(v), v, p[1], p[2], p[3]),
					is(base.WithRight(v), p[0], v, p[2], p[3]),
					is(base.WithBottom(v), p[0], p[1], v, p[3]),
					is(base.WithLeft(v), p[0], p[1], p[2], v),
					is(base, p[0], p[1], p[2], p[3]))
			}
			for i, c := range checks {
				if c != "" {
					return fmt.Sprintf("padding operation %d: %s", i, c)
				}
			}
			return ""
		})
	}
	w.Close()
	r.Parallel(len(all), func(w *vk.Worker, i int) {
		a := all[i]
		ra := mk(a)
		sa := cells(a.x, a.y, a.w, a.h)
		w.Case(func() string { return fmt.Sprintf("rect %+v", a) }, func() string {
			r.Trans(12)
			if (ra != bento.Rect{Position: bento.Position{X: a.x, Y: a.y}, Width: a.w, Height: a.h}) {
				return fmt.Sprintf("NewRect/Positioned: %+v", ra)
			}
			if ra.Left() != a.x || ra.Top() != a.y || ra.Right() != a.x+a.w || ra.Bottom() != a.y+a.h || ra.Area() != a.w*a.h || ra.IsEmpty() != (sa == set{}) {
				return fmt.Sprintf("edges of %+v: %d %d %d %d area %d empty %v", ra, ra.Left(), ra.Top(), ra.Right(), ra.Bottom(), ra.Area(), ra.IsEmpty())
			}
			if g := ra.WithWidth(7); g != (bento.Rect{Position: ra.Position, Width: 7, Height: a.h}) {
				return fmt.Sprintf("WithWidth: %+v", g)
			}
			if g := ra.WithHeight(7); g != (bento.Rect{Position: ra.Position, Width: a.w, Height: 7}) {
				return fmt.Sprintf("WithHeight: %+v", g)
			}
			if g := ra.Positioned(-3, 8); g != (bento.Rect{Position: bento.Position{X: -3, Y: 8}, Width: a.w, Height: a.h}) {
				return fmt.Sprintf("Positioned: %+v", g)
			}
			for x := lo; x < hi; x++ {
				for y := lo; y < hi; y++ {
					want := x >= a.x && x < a.x+a.w && y >= a.y && y < a.y+a.h
					if ra.Contains(bento.NewPosition(x, y)) != want {
						return fmt.Sprintf("Contains(%d,%d) = %v", x, y, !want)
					}
				}
			}
			rows, cols := ra.Rows(), ra.Columns()
			if len(rows) != a.h || len(cols) != a.w {
				return fmt.Sprintf("%d rows, %d columns", len(rows), len(cols))
			}
			for k, g := range rows {
				if g != (bento.Rect{Position: bento.Position{X: a.x, Y: a.y + k}, Width: a.w, Height: 1}) {
					return fmt.Sprintf("row %d = %+v", k, g)
				}
			}
			for k, g := range cols {
				if g != (bento.Rect{Position: bento.Position{X: a.x + k, Y: a.y}, Width: 1, Height: a.h}) {
					return fmt.Sprintf("column %d = %+v", k, g)
				}
			}
			for n := 0; n <= 5; n++ {
				g, bad := of(ra.IndentX(n))
				if want := cells(a.x+n, a.y, max(0, a.w-n), a.h); bad != "" || g != want {
					return fmt.Sprintf("IndentX(%d) = %+v %s", n, ra.IndentX(n), bad)
				}
			}
			return ""
		})
		for _, p := range pads {
			w.Case(func() string { return fmt.Sprintf("rect %+v inner %v", a, p) }, func() string {
				r.Trans(1)
				in := ra.Inner(bento.NewPadding(p[0], p[1], p[2], p[3]))
				g, bad := of(in)
				want := cells(a.x+p[3], a.y+p[0], max(0, a.w-p[1]-p[3]), max(0, a.h-p[0]-p[2]))
				if bad != "" || g != want {
					return fmt.Sprintf("Inner = %+v %s", in, bad)
				}
				if want != (set{}) && (in.X != a.x+p[3] || in.Y != a.y+p[0]) {
					return fmt.Sprintf("Inner = %+v", in)
				}
				return ""
			})
		}
		for _, b := range all {
			w.Case(func() string { return fmt.Sprintf("intersection %+v %+v", a, b) }, func() string {
				r.Trans(1)
				in := ra.Intersection(mk(b))
				g, bad := of(in)
				want := sa.and(cells(b.x, b.y, b.w, b.h))
				if bad != "" || g != want {
					return fmt.Sprintf("Intersection = %+v %s", in, bad)
				}
				if in.IsEmpty() != (want == set{}) {
					return fmt.Sprintf("Intersection %+v empty = %v", in, in.IsEmpty())
				}
				return ""
			})
		}
		r.State(vk.Hash(fmt.Sprint(a)))
		r.Trace(1)
		if i%1700 == 0 {
			r.Sample(fmt.Sprintf("%+v", ra))
		}
	})
	// large and far away: cells are products of intervals
	coords := []int{-70000, -1000, -1, 0, 1, 100, 127, 128, 254, 255, 256, 257, 300, 1000, 32767, 65535, 65536, 1 << 30}
	sizes := []int{0, 1, 2, 100, 127, 128, 254, 255, 256, 257, 1000, 65535, 65536, 1 << 30}
	r.Bound("rectangles with corners in %v and sizes in %v, all pairs along each axis", coords, sizes)
	type iv struct{ p, n int }
	var ivs []iv
	for _, p := range coords {
		for _, n := range sizes {
			ivs = append(ivs, iv{p, n})
		}
	}
	rect := func(x, y iv) bento.Rect { return bento.NewRect(x.n, y.n).Positioned(x.p, y.p) }
	r.Parallel(len(ivs), func(w *vk.Worker, i int) {
		a := ivs[i]
		for j, b := range ivs {
			other, other2 := ivs[(i*7+j)%len(ivs)], iv{ivs[(i*7+j)%len(ivs)].p, 5}
			w.Case(func() string { return fmt.Sprintf("intersection of %v and %v", a, b) }, func() string {
				r.Trans(6)
				s := max(a.p, b.p)
				want := iv{s, min(a.p+a.n, b.p+b.n) - s}
				h := rect(a, other).Intersection(rect(b, other2))
				v := rect(other, a).Intersection(rect(other2, b))
				if other.n == 0 || want.n <= 0 {
					if !h.IsEmpty() || !v.IsEmpty() || h.Width < 0 || h.Height < 0 || v.Width < 0 || v.Height < 0 {
						return fmt.Sprintf("%+v, %+v, want nothing", h, v)
					}
				} else {
					o := iv{other.p, min(5, other.n)}
					if h != rect(want, o) || v != rect(o, want) {
						return fmt.Sprintf("%+v, %+v, want %v by %v", h, v, want, o)
					}
				}
				// b.n as the padding or indent of a
				ra := rect(a, iv{3, 4})
				left := max(0, a.n-b.n)
				if left > 0 {
					for k, got := range []bento.Rect{ra.IndentX(b.n), ra.Inner(bento.NewPadding().WithLeft(b.n)), ra.Inner(bento.NewPadding().WithRight(b.n))} {
						want := rect(iv{a.p + b.n, left}, iv{3, 4})
						if k == 2 {
							want = rect(iv{a.p, left}, iv{3, 4})
						}
						if got != want {
							return fmt.Sprintf("taking %d off %+v (%d): %+v, want %+v", b.n, ra, k, got, want)
						}
					}
				} else if e := ra.IndentX(b.n); e.Width != 0 || !ra.Inner(bento.NewPadding(0, b.n)).IsEmpty() {
					return fmt.Sprintf("taking %d off %+v leaves %+v", b.n, ra, e)
				}
				for _, p := range []int{b.p, b.p + b.n, b.p + b.n - 1, a.p - 1, a.p + a.n} {
					in := p >= a.p && p < a.p+a.n
					if rect(a, iv{2, 3}).Contains(bento.NewPosition(p, 4)) != in || rect(iv{2, 3}, a).Contains(bento.NewPosition(4, p)) != in {
						return fmt.Sprintf("Contains(%d) of %v", p, a)
					}
				}
				return ""
			})
		}
		ra := rect(a, iv{9, 2})
		w.Case(func() string { return fmt.Sprintf("rect %+v", ra) }, func() string {
			if ra.Left() != a.p || ra.Right() != a.p+a.n || ra.Area() != 2*a.n || rect(iv{9, 2}, a).Bottom() != a.p+a.n || rect(iv{9, 2}, a).Top() != a.p || ra.IsEmpty() != (a.n == 0) {
				return "edges or area"
			}
			if a.n > 70000 {
				return ""
			}
			cols, rows := ra.Columns(), rect(iv{9, 2}, a).Rows()
			if len(cols) != a.n || len(rows) != a.n {
				return fmt.Sprintf("%d columns, %d rows", len(cols), len(rows))
			}
			for k := range cols {
				if cols[k] != rect(iv{a.p + k, 1}, iv{9, 2}) || rows[k] != rect(iv{9, 2}, iv{a.p + k, 1}) {
					return fmt.Sprintf("column %+v, row %+v", cols[k], rows[k])
				}
			}
			return ""
		})
		r.Trace(1)
	})
	r.Finish()
}

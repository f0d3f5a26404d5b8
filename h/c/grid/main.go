// C34: a buffer is a grid of cells, against a map from positions to cells.
package main

import (
	"fmt"
	"math"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/muesli/termenv"
)

var (
	red   = bento.NewStyle().WithForeground(termenv.ANSIColor(1)).Bold()
	plain = bento.NewStyle().WithBackground(termenv.ANSIColor(2)).WithoutModifier(bento.ModifierBold)
	marks = []bento.Cell{
		{Symbol: "a", Fg: bento.ResetColor{}, Bg: bento.ResetColor{}},
		{Symbol: "b", Fg: termenv.ANSIColor(5), Bg: bento.ResetColor{}, Modifier: bento.ModifierItalic},
		{Symbol: "", Fg: bento.ResetColor{}, Bg: termenv.RGBColor("#010203"), Skip: true},
	}
)

// grid is the reference: a cell for each position of an area.
type grid struct {
	area  bento.Rect
	cells map[bento.Position]bento.Cell
}

func (g *grid) each(area bento.Rect, f func(p bento.Position)) {
	for p := range g.cells {
		if p.X >= area.X && p.X < area.X+area.Width && p.Y >= area.Y && p.Y < area.Y+area.Height {
			f(p)
		}
	}
}

func (g *grid) fill(area bento.Rect, c bento.Cell) {
	g.area, g.cells = area, map[bento.Position]bento.Cell{}
	for y := 0; y < area.Height; y++ {
		for x := 0; x < area.Width; x++ {
			g.cells[bento.Position{X: area.X + x, Y: area.Y + y}] = c
		}
	}
}

// styled is what SetStyle means, by the definition of a style.
func styled(c bento.Cell, s int) bento.Cell {
	if s == 0 {
		c.Fg, c.Modifier = termenv.ANSIColor(1), c.Modifier|bento.ModifierBold
	} else {
		c.Bg, c.Modifier = termenv.ANSIColor(2), c.Modifier&^bento.ModifierBold
	}
	return c
}

// shows compares the buffer with the reference, and looks at its edges.
func (g *grid) shows(b *bento.Buffer) string {
	if b.Area() != g.area {
		return fmt.Sprintf("area %+v, want %+v", b.Area(), g.area)
	}
	a := g.area
	i := 0
	for y := a.Y; y < a.Y+a.Height; y++ {
		for x := a.X; x < a.X+a.Width; x++ {
			p := bento.Position{X: x, Y: y}
			if got := *b.CellAt(p); got != g.cells[p] {
				return fmt.Sprintf("cell %v is %s, want %s", p, bx.CellString(got), bx.CellString(g.cells[p]))
			}
			if got := b.PosOf(i); got != p {
				return fmt.Sprintf("cell number %d is at %v, want %v", i, got, p)
			}
			i++
		}
	}
	return ""
}

func refused(f func()) (ok bool) {
	defer func() { ok = recover() != nil }()
	f()
	return false
}

type op struct {
	name string
	do   func(b *bento.Buffer, g *grid) string
}

func ops(areas []bento.Rect, few bool) []op {
	var out []op
	add := func(name string, do func(b *bento.Buffer, g *grid) string) { out = append(out, op{name, do}) }
	rel := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 1}}
	if few {
		rel = rel[1:3]
	}
	for _, d := range rel {
		for m := range marks {
			if few && m == 1 {
				continue
			}
			add(fmt.Sprintf("write mark %d at +%v", m, d), func(b *bento.Buffer, g *grid) string {
				p := bento.Position{X: g.area.X + d[0], Y: g.area.Y + d[1]}
				if _, in := g.cells[p]; !in {
					if !refused(func() { *b.CellAt(p) = marks[m] }) {
						return fmt.Sprintf("a cell at %v, outside %+v, can be written", p, g.area)
					}
					return ""
				}
				*b.CellAt(p) = marks[m]
				g.cells[p] = marks[m]
				return ""
			})
		}
	}
	for si, s := range []bento.Style{red, plain} {
		for _, d := range [][4]int{{0, 0, 1, 9}, {1, 0, 9, 1}, {-2, -2, 4, 3}, {-9, -9, 99, 99}, {1, 1, 0, 5}, {50, 0, 3, 3}} {
			if few && (si == 1) != (d[0] == 1) {
				continue
			}
			add(fmt.Sprintf("style %d on %v", si, d), func(b *bento.Buffer, g *grid) string {
				area := bx.R(g.area.X+d[0], g.area.Y+d[1], d[2], d[3])
				b.SetStyle(area, s)
				g.each(area, func(p bento.Position) { g.cells[p] = styled(g.cells[p], si) })
				return ""
			})
		}
	}
	add("string", func(b *bento.Buffer, g *grid) string {
		if g.area.Height == 0 {
			return ""
		}
		b.SetString(g.area.X, g.area.Y+g.area.Height-1, "xyz", red)
		for i, s := range []string{"x", "y", "z"} {
			p := bento.Position{X: g.area.X + i, Y: g.area.Y + g.area.Height - 1}
			if c, in := g.cells[p]; in {
				c.Symbol = s
				g.cells[p] = styled(c, 0)
			}
		}
		return ""
	})
	add("reset", func(b *bento.Buffer, g *grid) string {
		b.Reset()
		g.fill(g.area, bento.Cell{Symbol: " ", Fg: bento.ResetColor{}, Bg: bento.ResetColor{}})
		return ""
	})
	for _, a := range areas {
		add(fmt.Sprintf("resize to %+v", a), func(b *bento.Buffer, g *grid) string {
			old := map[bento.Cell]bool{{Symbol: " ", Fg: bento.ResetColor{}, Bg: bento.ResetColor{}}: true}
			for _, c := range g.cells {
				old[c] = true
			}
			same := g.area == a
			b.Resize(a)
			// where former cells go is left open
			before := g.cells
			g.fill(a, bento.Cell{})
			for p := range g.cells {
				c := *b.CellAt(p)
				if !old[c] {
					return fmt.Sprintf("resizing makes the cell %s", bx.CellString(c))
				}
				if same && c != before[p] {
					return "resizing to the same area changes the cells"
				}
				g.cells[p] = c
			}
			return ""
		})
	}
	return out
}

func main() {
	r := vk.New("C34", 240*time.Second, 600*time.Second)
	var areas []bento.Rect
	for _, o := range [][2]int{{0, 0}, {-3, -2}, {5, 2}, {2, 70000}} {
		for w := 0; w <= 3; w++ {
			for h := 0; h <= 3; h++ {
				areas = append(areas, bx.R(o[0], o[1], w, h))
			}
		}
	}
	wide := append(append([]bento.Rect{}, areas...), bx.R(0, 0, 257, 3), bx.R(9, 1, 1, 300), bx.R(-100, -5, 200, 11), bx.R(1<<30, 1<<30, 40, 40), bx.R(3, 2, 520, 130), bx.R(0, 0, 66000, 1), bx.R(-1, -66000, 1, 66000))
	r.Bound("%d areas at different origins: every cell and every position around", len(wide))
	w := r.NewWorker()
	for _, a := range wide {
		w.Case(func() string { return fmt.Sprintf("buffer %+v", a) }, func() string {
			r.Trans(1)
			g := &grid{}
			g.fill(a, marks[1])
			b := bento.NewBufferFilled(a, marks[1])
			if m := g.shows(&b); m != "" {
				return "filled: " + m
			}
			b = bento.NewBufferEmpty(a)
			g.fill(a, bento.Cell{Symbol: " ", Fg: bento.ResetColor{}, Bg: bento.ResetColor{}})
			if m := g.shows(&b); m != "" {
				return "empty: " + m
			}
			for p := range g.cells {
				c := bento.NewCell(fmt.Sprintf("%d,%d", p.X, p.Y))
				*b.CellAt(p) = c
				g.cells[p] = c
			}
			if m := g.shows(&b); m != "" {
				return "written one by one: " + m
			}
			out := 0
			for _, x := range []int{a.X - 300, a.X - 1, a.X, a.X + a.Width - 1, a.X + a.Width, a.X + a.Width + 5, -a.X - 1, math.MaxInt} {
				for _, y := range []int{a.Y - 300, a.Y - 1, a.Y, a.Y + a.Height - 1, a.Y + a.Height, a.Y + a.Height + 5, math.MaxInt} {
					p := bento.Position{X: x, Y: y}
					if _, in := g.cells[p]; !in {
						out++
						if !refused(func() { b.CellAt(p).SetSymbol("!") }) {
							return fmt.Sprintf("there is a cell at %v", p)
						}
					}
				}
			}
			if !refused(func() { b.PosOf(a.Width * a.Height) }) {
				return "there is a cell past the last"
			}
			r.Trans(out)
			return g.shows(&b)
		})
	}
	w.Close()

	// histories
	starts := []bento.Rect{bx.R(0, 0, 3, 2), bx.R(-3, -2, 2, 3), bx.R(5, 2, 3, 3), bx.R(2, 7, 1, 1), bx.R(4, 1, 0, 2)}
	to := []bento.Rect{bx.R(0, 0, 3, 2), bx.R(5, 1, 2, 3), bx.R(1, 0, 4, 4), bx.R(3, 3, 1, 1), bx.R(0, 0, 0, 3), bx.R(-3, -2, 2, 3)}
	run := func(all []op, depth int) {
		r.Bound("all histories of up to %d of %d operations (writes of cells, styles on areas inside and outside, a string, resets, resizes) from %d buffers", depth, len(all), len(starts))
		seqs := bx.Seqs(len(all), depth)
		r.Parallel(len(seqs), func(w *vk.Worker, i int) {
			if r.Stop() {
				return
			}
			name := func(k int) string {
				s := ""
				for _, o := range seqs[i][:k] {
					s += "; " + all[o].name
				}
				return s
			}
			for _, a := range starts {
				w.Case(func() string { return fmt.Sprintf("buffer %+v%s", a, name(len(seqs[i]))) }, func() string {
					b := bento.NewBufferFilled(a, marks[0])
					g := &grid{}
					g.fill(a, marks[0])
					for k, o := range seqs[i] {
						r.Trans(1)
						m := all[o].do(&b, g)
						// the prefixes are histories of their own
						if m == "" && k == len(seqs[i])-1 {
							m = g.shows(&b)
						}
						if m != "" {
							return m
						}
					}
					if i%7 == 0 {
						r.StateStr(bx.Hashable(&b))
					}
					return ""
				})
			}
			r.Trace(1)
			if i%4999 == 0 {
				r.Sample(name(len(seqs[i])))
			}
		})
	}
	if r.Thorough {
		run(ops(to, false), 4)
		run(ops(to[1:3], true), 6)
	} else {
		run(ops(to, false), 3)
		run(ops(to[1:3], true), 4)
	}
	large(r)
	differences(r)
	r.Finish()
}

// glyph on a display: continued marks the right half of a wide one.
type shown struct {
	cell bento.Cell
	half bool
	junk bool
}

func display(b *bento.Buffer) map[bento.Position]shown {
	out := map[bento.Position]shown{}
	a := b.Area()
	for y := a.Y; y < a.Y+a.Height; y++ {
		for x := a.X; x < a.X+a.Width; x++ {
			put(out, bento.Position{X: x, Y: y}, bx.At(b, x, y))
			if bx.Width(bx.At(b, x, y).Symbol) == 2 {
				x++
			}
		}
	}
	return out
}

// put is what a terminal does when a glyph is printed.
func put(d map[bento.Position]shown, p bento.Position, c bento.Cell) {
	next := bento.Position{X: p.X + 1, Y: p.Y}
	prev := bento.Position{X: p.X - 1, Y: p.Y}
	w := bx.Width(c.Symbol)
	if d[p].half {
		d[prev] = shown{junk: true}
	}
	for k := 0; k < w; k++ {
		q := bento.Position{X: p.X + k, Y: p.Y}
		after := bento.Position{X: q.X + 1, Y: q.Y}
		if d[after].half {
			d[after] = shown{junk: true}
		}
	}
	d[p] = shown{cell: c}
	if w == 2 {
		d[next] = shown{half: true}
	}
}

// large compares buffers of many cells that differ in many places.
func large(r *vk.Run) {
	areas := []bento.Rect{bx.R(0, 0, 200, 60), bx.R(3, 2, 520, 130), bx.R(0, -7, 66000, 2), bx.R(-1, 0, 1, 66000), bx.R(0, 0, 255, 1), bx.R(0, 0, 256, 256)}
	differ := []struct {
		name string
		f    func(i, n int) bool
	}{
		{"nowhere", func(i, n int) bool { return false }},
		{"everywhere", func(i, n int) bool { return true }},
		{"in the last cell", func(i, n int) bool { return i == n-1 }},
		{"in the first and the last cell", func(i, n int) bool { return i == 0 || i == n-1 }},
		{"in every other cell", func(i, n int) bool { return i%2 == 1 }},
		{"in every 257th cell", func(i, n int) bool { return i%257 == 0 }},
		{"in the second half", func(i, n int) bool { return i >= n/2 }},
	}
	r.Bound("the differences between buffers of the areas %v that differ %d ways, styling a part of them, and growing and shrinking them", areas, len(differ))
	r.Parallel(len(areas)*len(differ), func(w *vk.Worker, k int) {
		a, d := areas[k/len(differ)], differ[k%len(differ)]
		w.Case(func() string { return fmt.Sprintf("buffers of %+v that differ %s", a, d.name) }, func() string {
			from, to := bento.NewBufferFilled(a, marks[0]), bento.NewBufferFilled(a, marks[0])
			n := a.Width * a.Height
			at := func(i int) bento.Position { return bento.Position{X: a.X + i%a.Width, Y: a.Y + i/a.Width} }
			var want []bento.Position
			for i := 0; i < n; i++ {
				if d.f(i, n) {
					*to.CellAt(at(i)) = marks[1]
					want = append(want, at(i))
				}
			}
			ups := from.Diff(&to)
			r.Trans(n)
			for i := 0; i < len(ups) || i < len(want); i++ {
				switch {
				case i >= len(ups):
					return fmt.Sprintf("%d updates, want %d: none for %v", len(ups), len(want), want[i])
				case i >= len(want):
					return fmt.Sprintf("an update too many, of %v", ups[i].Position)
				case ups[i].Position != want[i] || ups[i].Cell != marks[1]:
					return fmt.Sprintf("update %d is of %v (%s), want %v (%s)", i, ups[i].Position, bx.CellString(ups[i].Cell), want[i], bx.CellString(marks[1]))
				}
			}
			part := bx.R(a.X+a.Width/2, a.Y+a.Height/2, a.Width, a.Height)
			to.SetStyle(part, red)
			for i := 0; i < n; i++ {
				c := marks[0]
				if d.f(i, n) {
					c = marks[1]
				}
				if part.Contains(at(i)) {
					c = styled(c, 0)
				}
				if got := *to.CellAt(at(i)); got != c {
					return fmt.Sprintf("cell %v is %s after a style on %+v, want %s", at(i), bx.CellString(got), part, bx.CellString(c))
				}
			}
			// a resize names no cells: it gives room for each
			for _, z := range []bento.Rect{bx.R(a.X, a.Y, a.Width, a.Height+2), bx.R(a.X, a.Y, a.Width+3, max(1, a.Height/2)), a} {
				to.Resize(z)
				to.Reset()
				*to.CellAt(bento.Position{X: z.X + z.Width - 1, Y: z.Y + z.Height - 1}) = marks[2]
				for y := 0; y < z.Height; y++ {
					for x := 0; x < z.Width; x++ {
						p := bento.Position{X: z.X + x, Y: z.Y + y}
						c := bento.Cell{Symbol: " ", Fg: bento.ResetColor{}, Bg: bento.ResetColor{}}
						if x == z.Width-1 && y == z.Height-1 {
							c = marks[2]
						}
						if got := *to.CellAt(p); got != c {
							return fmt.Sprintf("cell %v is %s after a resize to %+v, want %s", p, bx.CellString(got), z, bx.CellString(c))
						}
					}
				}
			}
			return ""
		})
		r.Trace(1)
	})
}

func differences(r *vk.Run) {
	look := bento.Cell{Fg: termenv.ANSIColor(1), Bg: bento.ResetColor{}, Modifier: bento.ModifierBold}
	empty := bento.Cell{Symbol: " ", Fg: bento.ResetColor{}, Bg: bento.ResetColor{}}
	type tile struct {
		s    string
		w    int
		look bool
		skip bool
	}
	tiles := []tile{{" ", 1, false, false}, {"a", 1, false, false}, {"世", 2, false, false}, {" ", 1, true, false}, {"a", 1, true, false}, {"世", 2, true, false}, {"b", 1, false, true}, {"❤\ufe0f", 2, false, false}}
	var rows func(w int) [][]int
	rows = func(w int) [][]int {
		if w == 0 {
			return [][]int{nil}
		}
		var out [][]int
		for t := range tiles {
			if tiles[t].w <= w {
				for _, rest := range rows(w - tiles[t].w) {
					out = append(out, append([]int{t}, rest...))
				}
			}
		}
		return out
	}
	paint := func(area bento.Rect, rs ...[]int) bento.Buffer {
		b := bento.NewBufferEmpty(area)
		for k, row := range rs {
			x := area.X
			for _, t := range row {
				c := empty
				if tiles[t].look {
					c = look
				}
				c.Symbol, c.Skip = tiles[t].s, tiles[t].skip
				*b.CellAt(bento.Position{X: x, Y: area.Y + k}) = c
				x += tiles[t].w
			}
		}
		return b
	}
	width := 4
	if r.Thorough {
		width = 5
	}
	origins := [][2]int{{0, 0}, {4, 1}, {-2, -7}}
	all := rows(width)
	r.Bound("the differences between all pairs of %d rows of %d cells (wide glyphs, looks, skipped cells), at %d origins, alone and as the middle one of three rows", len(all), width, len(origins))
	r.Assume("a double-width glyph is followed by a blank cell and never starts in the last column")
	r.Parallel(len(all), func(w *vk.Worker, i int) {
		for j := range all {
			for oi, o := range origins {
				if r.Stop() {
					return
				}
				for _, three := range []bool{false, true} {
					w.Case(func() string {
						return fmt.Sprintf("from row %v to row %v, origin %v, among others %v", all[i], all[j], o, three)
					}, func() string {
						r.Trans(1)
						area := bx.R(o[0], o[1], width, 1)
						from, to := paint(area, all[i]), paint(area, all[j])
						if three {
							area.Height = 3
							k := (i + j + oi) % len(all)
							from, to = paint(area, all[k], all[i], all[0]), paint(area, all[k], all[j], all[k])
						}
						copyFrom, copyTo := bx.Cells(&from), bx.Cells(&to)
						d := display(&from)
						last := bento.Position{X: area.X - 1, Y: area.Y}
						ups := from.Diff(&to)
						for _, u := range ups {
							p := u.Position
							if !area.Contains(p) {
								return fmt.Sprintf("an update at %v, outside %+v", p, area)
							}
							if p.Y < last.Y || p.Y == last.Y && p.X <= last.X {
								return fmt.Sprintf("update %v comes after %v", p, last)
							}
							last = p
							if u.Cell != *to.CellAt(p) {
								return fmt.Sprintf("the update of %v is %s, want %s", p, bx.CellString(u.Cell), bx.CellString(*to.CellAt(p)))
							}
							if u.Cell.Skip {
								return fmt.Sprintf("an update of the skipped cell %v", p)
							}
							put(d, p, u.Cell)
						}
						for p, s := range display(&to) {
							if s.cell.Skip {
								continue
							}
							if d[p] != s {
								return fmt.Sprintf("after the updates %v the cell %v shows %+v, want %+v", ups, p, d[p], s)
							}
						}
						if bx.Hashable(&from) == bx.Hashable(&to) && len(ups) > 0 {
							return fmt.Sprintf("updates %v between equal buffers", ups)
						}
						for k, c := range bx.Cells(&from) {
							if c != copyFrom[k] || bx.Cells(&to)[k] != copyTo[k] {
								return "comparing changes a buffer"
							}
						}
						return ""
					})
				}
			}
		}
		r.StateStr(fmt.Sprint(all[i]))
		r.Trace(1)
	})
}

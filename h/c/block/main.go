// C23: blocks against a reference painter.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

var sets = []blockwidget.BorderType{blockwidget.BorderTypeSharp, blockwidget.BorderTypeRounded, blockwidget.BorderTypeDouble, blockwidget.BorderTypeThick}

// top-left, top-right, bottom-left, bottom-right, vertical, horizontal, as the names say
var glyphs = []string{"┌┐└┘│─", "╭╮╰╯│─", "╔╗╚╝║═", "┏┓┗┛┃━"}

var (
	blockStyle  = bento.NewStyle().WithBackground(termenv.ANSIColor(1)).Italic()
	borderStyle = bento.NewStyle().WithForeground(termenv.ANSIColor(2)).Bold().WithoutModifier(bento.ModifierItalic)
	titlesStyle = bento.NewStyle().WithForeground(termenv.ANSIColor(5)).Reversed()
	spanStyle   = bento.NewStyle().WithBackground(termenv.ANSIColor(6))
)

const (
	top = 1 << iota
	right
	bottom
	left
)

type title struct {
	text   string
	align  bento.Alignment // None: the block's
	bottom int             // -1: the block's, 0 top, 1 bottom
}

type config struct {
	sides, set  int
	pad         [4]int
	titles      []title
	defAlign    bento.Alignment
	defBottom   bool
	viaBordered bool
}

func (c config) String() string {
	return fmt.Sprintf("sides %04b set %d pad %v titles %q default align %d bottom %v", c.sides, c.set, c.pad, c.titles, c.defAlign, c.defBottom)
}

func (c config) build() blockwidget.Block {
	b := blockwidget.New().WithStyle(blockStyle).WithBorderStyle(borderStyle).WithTitlesStyle(titlesStyle)
	var sd []blockwidget.Side
	for i, s := range []blockwidget.Side{blockwidget.SideTop, blockwidget.SideRight, blockwidget.SideBottom, blockwidget.SideLeft} {
		if c.sides&(1<<i) != 0 {
			sd = append(sd, s)
		}
	}
	if len(sd) == 4 && c.viaBordered {
		b = b.Bordered()
	} else if len(sd) > 0 {
		b = b.WithBorderSides(sd...)
	} else {
		b = b.WithBorderSides(blockwidget.SideNone)
	}
	if c.viaBordered {
		b = []func() blockwidget.Block{b.Sharp, b.Rounded, b.Double, b.Thick}[c.set]()
	} else {
		b = b.WithBorderType(sets[c.set])
	}
	b = b.WithPadding(bento.NewPadding(c.pad[0], c.pad[1], c.pad[2], c.pad[3]))
	b = b.WithTitlesAlignment(c.defAlign)
	if c.defBottom {
		b = b.WithTitlePosition(blockwidget.TitlePositionBottom)
	}
	for _, t := range c.titles {
		tt := blockwidget.NewTitle(textwidget.NewLine(textwidget.NewSpan(t.text).WithStyle(spanStyle)))
		switch t.align {
		case bento.AlignmentLeft:
			tt = tt.Left()
		case bento.AlignmentCenter:
			tt = tt.Center()
		case bento.AlignmentRight:
			tt = tt.Right()
		}
		switch t.bottom {
		case 0:
			tt = tt.Top()
		case 1:
			tt = tt.Bottom()
		}
		b = b.WithTitle(tt)
	}
	return b
}

func (c config) at(t title) (bento.Alignment, bool) {
	a, b := t.align, c.defBottom
	if a == bento.AlignmentNone {
		a = c.defAlign
	}
	if t.bottom >= 0 {
		b = t.bottom == 1
	}
	return a, b
}

// paint draws the block on a buffer the way the property says. cut chooses which
// end of titles without room is cut (0: the right one, 1: by the alignment the
// title itself has, 2: by the one in force), lean how centred titles lean.
func (c config) paint(b *bento.Buffer, area bento.Rect, cut, lean int) {
	if area.Width == 0 || area.Height == 0 {
		return
	}
	b.SetStyle(area, blockStyle)
	g := strings.Split(glyphs[c.set], "")
	put := func(x, y int, s string) {
		b.CellAt(bento.NewPosition(x, y)).SetSymbol(s).SetStyle(borderStyle)
	}
	x0, y0, x1, y1 := area.Left(), area.Top(), area.Right()-1, area.Bottom()-1
	for y := y0; y <= y1; y++ {
		if c.sides&left != 0 {
			put(x0, y, g[4])
		}
		if c.sides&right != 0 {
			put(x1, y, g[4])
		}
	}
	for x := x0; x <= x1; x++ {
		if c.sides&top != 0 {
			put(x, y0, g[5])
		}
		if c.sides&bottom != 0 {
			put(x, y1, g[5])
		}
	}
	corner := func(sides, x, y int, s string) {
		if c.sides&sides == sides {
			put(x, y, s)
		}
	}
	corner(bottom|right, x1, y1, g[3])
	corner(top|right, x1, y0, g[1])
	corner(bottom|left, x0, y1, g[2])
	corner(top|left, x0, y0, g[0])

	room0, room1 := x0, x1+1
	if c.sides&left != 0 {
		room0++
	}
	if c.sides&right != 0 {
		room1--
	}
	if room1 <= room0 {
		return
	}
	for _, bot := range []bool{false, true} {
		y := y0
		if bot {
			y = y1
		}
		var l, m, r []title
		for _, t := range c.titles {
			a, tb := c.at(t)
			if tb != bot {
				continue
			}
			switch a {
			case bento.AlignmentLeft:
				l = append(l, t)
			case bento.AlignmentCenter:
				m = append(m, t)
			case bento.AlignmentRight:
				r = append(r, t)
			}
		}
		draw := func(t title, x, width int) { // the room for the title
			text := t.text
			gs := bx.Graphemes(text)
			total := bx.Width(text)
			width = min(width, total)
			skip := 0
			a := t.align
			if cut == 2 {
				a, _ = c.at(t)
			}
			switch {
			case cut == 0:
			case a == bento.AlignmentCenter:
				skip = (total - width + lean) / 2
			case a == bento.AlignmentRight:
				skip = total - width
			}
			for k := 0; k < width; k++ {
				b.CellAt(bento.NewPosition(x+k, y)).SetStyle(titlesStyle)
			}
			cols, from, _ := bx.Excerpt(gs, skip, width)
			for k, col := range cols {
				g := gs[from+k]
				b.CellAt(bento.NewPosition(x+col, y)).SetSymbol(g.S).SetStyle(spanStyle)
				for d := 1; d < g.W; d++ {
					b.CellAt(bento.NewPosition(x+col+d, y)).Reset()
				}
			}
		}
		end := room1
		for i := len(r) - 1; i >= 0 && end > room0; i-- {
			w := bx.Width(r[i].text)
			draw(r[i], max(room0, end-w), end-room0)
			end -= w + 1
		}
		total := -1
		for _, t := range m {
			total += bx.Width(t.text) + 1
		}
		x := room0 + (max(0, room1-room0-total)+lean)/2
		limit := room1
		for _, t := range m {
			if x >= limit {
				break
			}
			draw(t, x, limit-x)
			x += bx.Width(t.text) + 1
		}
		x = room0
		for _, t := range l {
			if x >= room1 {
				break
			}
			draw(t, x, room1-x)
			x += bx.Width(t.text) + 1
		}
	}
}

func (c config) inner(a bento.Rect) (x, y, w, h int) {
	var ins [4]int
	for i := range ins {
		if c.sides&(1<<i) != 0 {
			ins[i] = 1
		}
	}
	for _, t := range c.titles {
		if _, b := c.at(t); b {
			ins[2] = 1
		} else {
			ins[0] = 1
		}
	}
	for i := range ins {
		ins[i] += c.pad[i]
	}
	return a.X + ins[3], a.Y + ins[0], max(0, a.Width-ins[1]-ins[3]), max(0, a.Height-ins[0]-ins[2])
}

func check(r *vk.Run, c config, area bento.Rect) string {
	r.Trans(2)
	bl := c.build()
	x, y, w, h := c.inner(area)
	in := bl.Inner(area)
	if w == 0 || h == 0 {
		if !in.IsEmpty() || in.Width < 0 || in.Height < 0 {
			return fmt.Sprintf("inner %+v should be empty", in)
		}
	} else if in != bx.R(x, y, w, h) {
		return fmt.Sprintf("inner %+v, want %+v", in, bx.R(x, y, w, h))
	}
	all := bx.R(area.X-1, area.Y-1, area.Width+2, area.Height+2)
	got := bx.Filled(all)
	bl.Render(area, &got)
	r.State(bx.Hash(&got))
	if area.Width == 1 || area.Height == 1 {
		// corners and edges coincide: which one is on top is not said; only the
		// cells outside, and (without titles) the kind of symbol are compared
		for yy := all.Top(); yy < all.Bottom(); yy++ {
			for xx := all.Left(); xx < all.Right(); xx++ {
				if !area.Contains(bento.NewPosition(xx, yy)) && bx.At(&got, xx, yy) != bx.PreCell() {
					return "cell outside the area changed\n" + bx.Dump(&got)
				}
				if area.Contains(bento.NewPosition(xx, yy)) && len(c.titles) == 0 {
					s := bx.At(&got, xx, yy).Symbol
					edge := c.sides&left != 0 && xx == area.X || c.sides&right != 0 && xx == area.Right()-1 || c.sides&top != 0 && yy == area.Y || c.sides&bottom != 0 && yy == area.Bottom()-1
					if edge != (s != "#") || edge && !strings.Contains(glyphs[c.set], s) {
						return fmt.Sprintf("cell (%d,%d) shows %q\n%s", xx, yy, s, bx.Dump(&got))
					}
				}
			}
		}
		return ""
	}
	var msg string
	for cut := 0; cut < 3; cut++ {
		for lean := 0; lean < 2; lean++ {
			want := bx.Filled(all)
			c.paint(&want, area, cut, lean)
			d := bx.Diff(&got, &want)
			if d == "" {
				return ""
			}
			if msg == "" {
				msg = d
			}
		}
	}
	return msg
}

func main() {
	r := vk.New("C23", 240*time.Second, 900*time.Second)
	var configs []config
	for sides := 0; sides < 16; sides++ {
		for set := range sets {
			for _, p := range [][4]int{{}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {1, 2, 3, 1}, {0, 4, 0, 4}} {
				configs = append(configs, config{sides: sides, set: set, pad: p, defAlign: bento.AlignmentLeft, viaBordered: set%2 == sides%2})
			}
		}
	}
	n0 := len(configs)
	al := []bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}
	var pool []title
	for _, s := range []string{"T", "ab", "世", "wxyz", "🇩🇪1\ufe0f\u20e3", "❤\ufe0f"} {
		for _, a := range al {
			for bt := -1; bt <= 1; bt++ {
				if bt != -1 || a != bento.AlignmentLeft {
					pool = append(pool, title{s, a, bt})
				}
			}
		}
	}
	for _, sides := range []int{0, top, left | top, right | bottom, left | right, 15} {
		for _, def := range al[1:] {
			for _, db := range []bool{false, true} {
				for _, a := range pool {
					base := config{sides: sides, set: sides % 4, defAlign: def, defBottom: db}
					base.titles = []title{a}
					configs = append(configs, base)
					if def != bento.AlignmentLeft && a.align != bento.AlignmentNone || db && a.bottom >= 0 {
						continue
					}
					for _, b := range pool {
						two := base
						two.titles = []title{a, b}
						if a.bottom >= 0 && b.bottom >= 0 && a.bottom != b.bottom && !r.Thorough {
							continue
						}
						configs = append(configs, two)
						if r.Thorough || sides == 15 && !db && def == bento.AlignmentLeft && a.bottom == -1 && b.bottom == -1 {
							for _, c := range pool {
								if c.bottom == b.bottom {
									three := base
									three.titles = []title{a, b, c}
									configs = append(configs, three)
								}
							}
						}
					}
				}
			}
		}
	}
	var areas []bento.Rect
	for w := 0; w <= 4; w++ {
		for h := 0; h <= 4; h++ {
			areas = append(areas, bx.R(3, 2, w, h))
		}
	}
	wide := []bento.Rect{bx.R(1, 1, 2, 2), bx.R(2, 1, 3, 2), bx.R(1, 3, 4, 3), bx.R(1, 1, 5, 2), bx.R(1, 1, 6, 2), bx.R(1, 1, 7, 2), bx.R(1, 1, 8, 2), bx.R(1, 1, 9, 2), bx.R(4, 1, 12, 2), bx.R(1, 1, 17, 2), bx.R(1, 1, 6, 1), bx.R(1, 1, 1, 3), bx.R(1, 1, 0, 2), bx.R(1, 1, 3, 0)}
	r.Bound("%d blocks without titles (16 side sets, 4 border types, 7 paddings) on all areas up to 4x4; %d blocks with up to 3 titles (4 texts, 4 alignments, 3 positions) on %d areas", n0, len(configs)-n0, len(wide))
	nw := len(configs)
	for i := 0; i < nw; i += 31 { // in large areas
		c := configs[i]
		for k := range c.titles {
			if (i/31+k)%2 == 0 {
				c.titles = append([]title{}, c.titles...)
				c.titles[k].text = strings.Repeat(c.titles[k].text, 90)
			}
		}
		configs = append(configs, c)
	}
	big := []bento.Rect{bx.R(2, 1, 80, 25), bx.R(0, 0, 300, 3), bx.R(1, 2, 5, 280)}
	r.Bound("%d blocks with titles of up to 360 graphemes in areas of 80x25, 300x3 and 5x280", len(configs)-nw)
	r.Assume("a title without room may lose either end; where top and bottom edge or left and right edge coincide their order is free; centring may lean either way")
	r.Parallel(len(configs), func(w *vk.Worker, i int) {
		c := configs[i]
		as := areas
		if i >= n0 {
			as = wide
		}
		if i >= nw {
			as = big
		}
		for _, a := range as {
			w.Case(func() string { return fmt.Sprintf("%v area %+v", c, a) }, func() string { return check(r, c, a) })
		}
		r.Trace(1)
		if i%5000 == 11 {
			r.Sample(c.String())
		}
	})
	compose(r)
	r.Finish()
}

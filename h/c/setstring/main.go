// C09: SetStringN/SetString against a reference.
package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/muesli/termenv"
)

func main() {
	r := vk.New("C09", 240*time.Second, 600*time.Second)
	alpha := []string{"a", "世", "e\u0301", "\u200b", "\t", "\n", " ", "👩‍🚀", "❤\ufe0f", "⸻", "\x1b", "\u009b", "\r\n", "🇩🇪", "\u0301"}
	n := 3
	if r.Thorough {
		n = 5
		alpha = alpha[:12]
	}
	words := bx.Words(alpha, n)
	if !r.Thorough {
		words = append(words, bx.Words([]string{"a", "世", "e\u0301", "\u200b", "\n"}, 6)[156:]...)
	}
	styles := []bento.Style{
		bento.NewStyle(),
		bento.NewStyle().WithForeground(termenv.ANSIColor(1)).Bold(),
		bento.NewStyle().WithBackground(termenv.ANSIColor(2)).WithoutModifier(bento.ModifierUnderlined),
	}
	areas := []bento.Rect{bx.R(0, 0, 5, 1), bx.R(-2, 3, 4, 2), bx.R(2, 1, 3, 3), bx.R(1, 0, 1, 1), bx.R(0, 0, 0, 1)}
	r.Bound("all strings of up to %d graphemes over %d graphemes (and up to 6 over 5), %d buffers at different origins, every row, columns from the left edge to 2 past the right edge, limits -1..7 and MaxInt, 3 styles", n, len(alpha), len(areas))
	r.Assume("grapheme clusters and their widths are those of the Unicode tables of rivo/uniseg")
	short := len(words)
	for _, n := range []int{100, 254, 255, 256, 257, 300, 1030} {
		for _, p := range []string{"a", "世", "e\u0301", "a世\u200b", "0123456789\t"} {
			words = append(words, strings.Repeat(p, n/len(bx.Graphemes(p))+1))
		}
	}
	wide := []bento.Rect{bx.R(0, 0, 400, 1), bx.R(3, 1, 1100, 1), bx.R(0, 2, 256, 1)}
	r.Bound("%d strings of 100 to 1030 graphemes in buffers 400, 1100 and 256 wide", len(words)-short)
	limits := []int{-1, 0, 1, 2, 3, 4, 5, 7, math.MaxInt}
	r.Parallel(len(words), func(w *vk.Worker, i int) {
		s := words[i]
		gs := bx.Graphemes(s)
		areas, limits := areas, limits
		if i >= short {
			areas, limits = wide, []int{0, 1, 99, 100, 127, 128, 255, 256, 257, 300, 1029, 1030, math.MaxInt}
		}
		for ai, area := range areas {
			for y := area.Top(); y < area.Bottom(); y++ {
				if len(gs) > 2 && y != area.Bottom()-1 {
					continue
				}
				for x := area.Left(); x <= area.Right()+2; x++ {
					if k := x - area.Left(); i >= short && k > 3 && k != 128 && k < area.Width-3 && k%101 != 100 {
						continue
					}
					for _, lim := range limits {
						style := styles[uint(i+x+lim&7+20)%uint(len(styles))]
						w.Case(func() string { return fmt.Sprintf("%q buffer %d at (%d,%d) limit %d", s, ai, x, y, lim) }, func() string {
							r.Trans(2)
							want := bx.Filled(area)
							room := max(0, min(lim, area.Right()-x))
							cx := x
							for _, g := range gs {
								if g.W == 0 {
									continue
								}
								if g.W > room {
									break
								}
								room -= g.W
								want.CellAt(bento.NewPosition(cx, y)).SetSymbol(g.S).SetStyle(style)
								for k := 1; k < g.W; k++ {
									*want.CellAt(bento.NewPosition(cx+k, y)) = bento.NewEmptyCell()
								}
								cx += g.W
							}
							got := bx.Filled(area)
							gx, gy := got.SetStringN(x, y, s, lim, style)
							if !bx.Equal(&got, &want) {
								return bx.Diff(&got, &want)
							}
							if gx != cx || gy != y {
								return fmt.Sprintf("returned (%d,%d), want (%d,%d)", gx, gy, cx, y)
							}
							if lim == math.MaxInt {
								got := bx.Filled(area)
								got.SetString(x, y, s, style)
								if !bx.Equal(&got, &want) {
									return "SetString differs: " + bx.Dump(&got)
								}
							}
							if ai < 2 {
								r.State(bx.Hash(&got))
							}
							return ""
						})
					}
				}
			}
		}
		r.Trace(1)
		if i%997 == 0 {
			r.Sample(fmt.Sprintf("%q", s))
		}
	})
	r.Finish()
}

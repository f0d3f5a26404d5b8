package main

import (
	"fmt"
	"math"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

type gauge struct {
	unicode bool
	label   int // 0 default
	style   int
	w, h    int
}

var gaugeLabels = []string{"", "", "x", "label", "世界", "a世", "👩\u200d🚀1\ufe0f\u20e3❤\ufe0f"}

var gaugeStyles = []bento.Style{bento.NewStyle(), bento.NewStyle().WithForeground(termenv.ANSIColor(2)).WithBackground(termenv.ANSIColor(5)), bento.NewStyle().WithForeground(termenv.ANSIColor(2))}

const blocks = " ▏▎▍▌▋▊▉█"

// eighths of a cell filled
func filled(s string) int {
	for i, b := range []rune(blocks) {
		if s == string(b) {
			return i
		}
	}
	return -1
}

func (c gauge) check(r *vk.Run, num, den int, percent bool) (total int, msg string) {
	r.Trans(1)
	g := gaugewidget.New().WithUnicode(c.unicode).WithGaugeStyle(gaugeStyles[c.style])
	if percent {
		g = g.WithPercent(num)
	} else {
		g = g.WithRatio(float64(num) / float64(den))
	}
	pct := int(math.Round(float64(num) / float64(den) * 100))
	labels := []string{fmt.Sprintf("%d%%", pct)}
	if 200*num%den == 0 && 200*num/den%2 != 0 { // a tie may be rounded either way
		labels = append(labels, fmt.Sprintf("%d%%", 100*num/den), fmt.Sprintf("%d%%", 100*num/den+1))
	}
	labelStyle := bento.NewStyle()
	switch {
	case c.label == 1:
		g = g.WithLabelStr("")
		labels = []string{""}
	case c.label > 1 && c.label%2 == 0:
		g = g.WithLabelStr(gaugeLabels[c.label])
		labels = []string{gaugeLabels[c.label]}
	case c.label > 1:
		labelStyle = labelStyle.Bold()
		g = g.WithLabel(textwidget.NewSpan(gaugeLabels[c.label]).WithStyle(labelStyle))
		labels = []string{gaugeLabels[c.label]}
	}
	area := bx.R(2, 1, c.w, c.h)
	all := bx.R(1, 0, area.Width+2, area.Height+2)
	got := bx.Filled(all)
	in := area
	for y := in.Top(); y < in.Bottom(); y++ {
		for x := in.Left(); x < in.Right(); x++ {
			got.CellAt(bento.NewPosition(x, y)).Reset()
		}
	}
	g.Render(area, &got)
	r.State(bx.Hash(&got))
	frame := bx.Filled(all)
	for y := all.Top(); y < all.Bottom(); y++ {
		for x := all.Left(); x < all.Right(); x++ {
			if !in.Contains(bento.NewPosition(x, y)) && bx.At(&got, x, y) != bx.At(&frame, x, y) {
				return 0, "cell outside the gauge changed\n" + bx.Dump(&got)
			}
		}
	}
	if in.IsEmpty() {
		return 0, ""
	}
	// the label
	fg, bg := bento.Color(bento.ResetColor{}), bento.Color(bento.ResetColor{})
	probe := bx.Styled(bento.NewEmptyCell(), gaugeStyles[c.style])
	fg, bg = probe.Fg, probe.Bg
	type place struct{ row, from, to int }
	var places []place // usually one; several if nothing of the label has room
	for _, l := range labels {
		gs := bx.Graphemes(l)
		lw := min(bx.Width(l), c.w)
		for lean := 0; lean < 4; lean++ {
			row := in.Y + (c.h-1+lean/2)/2
			from := in.X + (c.w-lw+lean%2)/2
			cols, first, _ := bx.Excerpt(gs, 0, lw)
			ok := true
			for k, col := range cols {
				cell := bx.At(&got, from+col, row)
				if cell.Symbol != gs[first+k].S {
					ok = false
					break
				}
				if readable := cell.Fg != cell.Bg || fg == bg; !readable {
					return 0, "the label is not readable: " + bx.CellString(cell)
				}
				if c.label > 1 && c.label%2 == 1 && cell.Modifier&bento.ModifierBold == 0 {
					return 0, "the label is not in its style: " + bx.CellString(cell)
				}
			}
			if ok {
				places = append(places, place{row, from, from + lw})
			}
		}
	}
	if places == nil {
		return 0, fmt.Sprintf("label %q not centred\n%s", labels, bx.Dump(&got))
	}
	for y := in.Top(); y < in.Bottom(); y++ {
		labelled := false
		inLabel := func(x int) bool {
			for _, p := range places {
				if y == p.row && x >= p.from && x < p.to {
					labelled = true
					return true
				}
			}
			return false
		}
		// the fill of the row: full cells, then a part of one, then empty ones
		sum, upper, done := 0, 0, false
		for x := in.Left(); x < in.Right(); x++ {
			if inLabel(x) {
				if !done {
					upper += 8
				}
				continue
			}
			e := filled(bx.At(&got, x, y).Symbol)
			if e < 0 || done && e > 0 || !c.unicode && e%8 != 0 {
				return 0, fmt.Sprintf("(%d,%d) shows %q\n%s", x, y, bx.At(&got, x, y).Symbol, bx.Dump(&got))
			}
			if e > 0 {
				sum, upper = sum+upper, 0 // the label hid filled cells
			}
			sum += e
			done = e < 8
			if cell := bx.At(&got, x, y); e > 0 && (cell.Fg != fg || cell.Bg != bg) {
				return 0, fmt.Sprintf("filled cell (%d,%d) is %s", x, y, bx.CellString(cell))
			}
		}
		// sum..sum+upper: what the label hides is not known
		exact := float64(8*c.w) * float64(num) / float64(den)
		unit := 8.0
		if c.unicode {
			unit = 1
		}
		if float64(sum)-exact > unit/2+1e-6 || exact-float64(sum+upper) > unit/2+1e-6 {
			return 0, fmt.Sprintf("row %d: %d to %d eighths filled, want %.3f\n%s", y, sum, sum+upper, exact, bx.Dump(&got))
		}
		if num == 0 && sum != 0 || num == den && sum+upper != 8*c.w {
			return 0, "not empty at 0 or not full at 1\n" + bx.Dump(&got)
		}
		if !labelled {
			total = sum
		}
	}
	return total, ""
}

func gauges() {
	r := vk.New("C28", 240*time.Second, 900*time.Second)
	var cs []gauge
	maxW, dens := 13, []int{1, 2, 3, 7, 8, 10, 16, 100, 137}
	if r.Thorough {
		maxW = 40
		for d := 4; d <= 64; d++ {
			dens = append(dens, d)
		}
		dens = append(dens, 1000, 997)
	}
	for _, u := range []bool{false, true} {
		for l := range gaugeLabels {
			for s := range gaugeStyles {
				for w := 0; w <= maxW; w++ {
					for h := 0; h <= 4; h++ {
						if h > 2 && l > 2 && !r.Thorough {
							continue
						}
						cs = append(cs, gauge{u, l, s, w, h})
					}
				}
			}
		}
	}
	for _, w := range []int{100, 128, 255, 256, 257, 300} {
		cs = append(cs, gauge{false, 0, 1, w, 1}, gauge{true, 0, 1, w, 2}, gauge{true, 3, 0, w, 1}, gauge{false, 4, 2, w, 3})
	}
	r.Bound("gauges of widths 100 to 300")
	r.Bound("%d gauges (widths 0-%d, heights 0-4, labels %q, unicode or not, 3 styles), all ratios k/n for n in %v and all percentages", len(cs), maxW, gaugeLabels, dens)
	r.Assume("rounding ties may go either way; the row is the nearest to the middle; cells under the label need not show the fill")
	r.Parallel(len(cs), func(w *vk.Worker, i int) {
		c := cs[i]
		for _, d := range append([]int{-100}, dens...) {
			pct := d < 0
			if pct {
				d = 100
			}
			w.Case(func() string { return fmt.Sprintf("%+v, ratios of %d (percent %v)", c, d, pct) }, func() string {
				last := 0
				for n := 0; n <= d; n++ {
					total, msg := c.check(r, n, d, pct)
					if msg != "" {
						return fmt.Sprintf("%d/%d: %s", n, d, msg)
					}
					if total < last {
						return fmt.Sprintf("%d/%d: the fill shrinks from %d to %d eighths", n, d, last, total)
					}
					last = total
				}
				return ""
			})
			r.Trace(1)
		}
		if i%500 == 3 {
			r.Sample(fmt.Sprintf("%+v", c))
		}
	})
	// refusals
	w := r.NewWorker()
	for p := -250; p <= 250; p++ {
		w.Case(func() string { return fmt.Sprintf("WithPercent(%d)", p) }, func() string {
			if got, want := vk.Try(func() { gaugewidget.New().WithPercent(p) }) != nil, p < 0 || p > 100; got != want {
				return fmt.Sprintf("panics: %v, want %v", got, want)
			}
			return ""
		})
	}
	for _, f := range []float64{-1e300, -2, -1, -0.1, -1e-9, -math.SmallestNonzeroFloat64, 0, 1e-9, 0.5, 1, math.Nextafter(1, 2), 1.5, 2, 100, 1e300, math.Inf(1), math.Inf(-1), math.NaN()} {
		w.Case(func() string { return fmt.Sprintf("WithRatio(%v)", f) }, func() string {
			if got, want := vk.Try(func() { gaugewidget.New().WithRatio(f) }) != nil, !(f >= 0 && f <= 1); got != want {
				return fmt.Sprintf("panics: %v, want %v", got, want)
			}
			return ""
		})
	}
	r.Finish()
}

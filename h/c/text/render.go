// C20: rendering of spans, lines and texts; C21: constructors and measures.
package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

var aligns = []bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}

var styles = []bento.Style{
	bento.NewStyle(),
	bento.NewStyle().WithForeground(termenv.ANSIColor(1)).Bold(),
	bento.NewStyle().WithBackground(termenv.ANSIColor(2)).WithoutModifier(bento.ModifierBold | bento.ModifierUnderlined),
	bento.NewStyle().WithForeground(termenv.ANSIColor(6)).Italic().WithBackground(termenv.ANSIColor(5)),
}

type mspan struct {
	text  string
	style int
}

type mline struct {
	spans []mspan
	style int
	align bento.Alignment
}

func (l mline) String() string {
	var sb strings.Builder
	for _, s := range l.spans {
		fmt.Fprintf(&sb, "%q/%d ", s.text, s.style)
	}
	return fmt.Sprintf("[%sstyle %d align %v]", sb.String(), l.style, l.align)
}

func (l mline) build() textwidget.Line {
	var spans []textwidget.Span
	for _, s := range l.spans {
		spans = append(spans, textwidget.NewSpan(s.text).WithStyle(styles[s.style]))
	}
	return textwidget.NewLine(spans...).WithStyle(styles[l.style]).WithAlignment(l.align)
}

// glyph is what the reference expects at a cell.
type glyph struct {
	sym    string
	style  bento.Style // of the span
	cont   bool        // the rest of a wide glyph: blank, any style
	free   bool        // half of a cut wide glyph: blank or untouched
	loosen bool
}

// layLine says which cells of a row of the given width show what.
func layLine(l mline, align bento.Alignment, width int) map[int]glyph {
	type pg struct {
		bx.G
		st bento.Style
	}
	var gs []pg
	total := 0
	for _, s := range l.spans {
		for _, g := range bx.Graphemes(s.text) {
			if g.W > 0 {
				gs = append(gs, pg{g, styles[s.style]})
				total += g.W
			}
		}
	}
	if align == bento.AlignmentNone {
		align = bento.AlignmentLeft
	}
	off := 0 // column of the line's first cell
	diff := width - total
	switch align {
	case bento.AlignmentCenter:
		if diff >= 0 {
			off = diff / 2
		} else {
			off = -(-diff / 2)
		}
	case bento.AlignmentRight:
		off = diff
	}
	if align == bento.AlignmentLeft {
		off = 0
	}
	out := map[int]glyph{}
	x := off
	for _, g := range gs {
		switch {
		case x >= 0 && x+g.W <= width:
			out[x] = glyph{sym: g.S, style: g.st}
			for k := 1; k < g.W; k++ {
				out[x+k] = glyph{cont: true}
			}
		default:
			for k := 0; k < g.W; k++ {
				if x+k >= 0 && x+k < width {
					out[x+k] = glyph{free: true}
				}
			}
		}
		x += g.W
	}
	return out
}

func strip(s string) string { return strings.ReplaceAll(s, "\u200b", "") }

// compare checks a buffer against rows of glyphs; area is the area drawn in,
// rows the expected ones from its top, base the styles applied before the span's.
func compare(b *bento.Buffer, area bento.Rect, rows []map[int]glyph, base [][]bento.Style) string {
	a := b.Area()
	pre := bx.PreCell()
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			got := bx.At(b, x, y)
			if !area.Contains(bento.NewPosition(x, y)) {
				if got != pre {
					return fmt.Sprintf("cell (%d,%d) outside the area changed to %s\n%s", x, y, bx.CellString(got), bx.Dump(b))
				}
				continue
			}
			i := y - area.Top()
			var g glyph
			ok := false
			var st []bento.Style
			if i < len(rows) {
				g, ok = rows[i][x-area.Left()]
				st = base[i]
			} else if len(base) > 0 && len(base[0]) > 0 {
				st = base[0][:1]
			}
			sym := strip(got.Symbol)
			switch {
			case ok && g.cont:
				if sym != " " {
					return fmt.Sprintf("cell (%d,%d) after a wide glyph shows %q\n%s", x, y, sym, bx.Dump(b))
				}
			case ok && !g.free:
				want := bx.Styled(bx.Styled(pre, st...), g.style)
				want.Symbol = g.sym
				got.Symbol = sym
				if got != want {
					return fmt.Sprintf("cell (%d,%d) is %s, want %s\n%s", x, y, bx.CellString(got), bx.CellString(want), bx.Dump(b))
				}
			default:
				if sym == "" && got.Symbol != "" && i < len(rows) && (len(rows[i]) == 0 || ok && g.free) {
					break // nothing but zero-width graphemes: they have no cell of their own
				}
				if sym != "#" && !(ok && g.free && sym == " ") {
					return fmt.Sprintf("cell (%d,%d) shows %q, nothing belongs there\n%s", x, y, got.Symbol, bx.Dump(b))
				}
			}
		}
	}
	return ""
}

func render(r *vk.Run) {
	n := 2
	if r.Thorough {
		n = 3
	}
	alpha := []string{"a", "世", "e\u0301"}
	words := bx.Words(alpha, n)
	var lines []mline
	for _, a := range words {
		lines = append(lines, mline{spans: []mspan{{a, 1}}})
		for _, b := range words {
			lines = append(lines, mline{spans: []mspan{{a, 1}, {b, 2}}, style: 3})
			if !r.Thorough || len(a)+len(b) < 9 {
				for _, c := range words {
					lines = append(lines, mline{spans: []mspan{{a, 2}, {b, 0}, {c, 3}}, style: 1})
				}
			}
		}
	}
	for _, a := range bx.Words([]string{"a", "世", "e\u0301", "\u200b"}, 5) {
		lines = append(lines, mline{spans: []mspan{{a, 2}}, style: 3})
	}
	for _, a := range bx.Words([]string{"a", "👩\u200d🚀", "🇩🇪", "❤\ufe0f"}, 4) {
		lines = append(lines, mline{spans: []mspan{{a, 2}}, style: 3})
		if len(a) < 20 {
			lines = append(lines, mline{spans: []mspan{{"x", 1}, {a, 2}, {"世" + a, 0}}, style: 1})
		}
	}
	for _, a := range bx.Words([]string{"a", "\t", "b", "\u0007"}, 4) {
		lines = append(lines, mline{spans: []mspan{{a, 1}, {"x", 2}}, style: 0})
	}
	maxW := 7
	r.Bound("%d lines: up to 3 spans of up to %d graphemes over %d graphemes, single spans of up to 5 over 4 (with zero-width) and up to 4 with control characters; widths 0..%d, 4 alignments, areas at 2 offsets", len(lines), n, len(alpha), maxW)
	r.Assume("grapheme clusters and their widths are those of rivo/uniseg; a zero-width grapheme may sit in the cell before or after it")
	r.Parallel(len(lines), func(w *vk.Worker, i int) {
		l := lines[i]
		for width := 0; width <= maxW; width++ {
			for _, al := range aligns {
				l.align = al
				for _, o := range [][2]int{{0, 0}, {-3, 2}} {
					area := bx.R(o[0], o[1], width, 1)
					all := bx.R(o[0]-1, o[1]-1, width+3, 4)
					w.Case(func() string { return fmt.Sprintf("line %s width %d at %v", l, width, o) }, func() string {
						r.Trans(1)
						b := bx.Filled(all)
						l.build().Render(area, &b)
						rows := []map[int]glyph{layLine(l, al, width)}
						r.State(bx.Hash(&b))
						return compare(&b, area, rows, [][]bento.Style{{styles[l.style]}})
					})
				}
			}
			if len(l.spans) == 1 {
				area := bx.R(1, 0, width, 2)
				w.Case(func() string { return fmt.Sprintf("span %q width %d", l.spans[0].text, width) }, func() string {
					r.Trans(1)
					b := bx.Filled(bx.R(0, 0, width+2, 3))
					l.build().Spans[0].Render(area, &b)
					rows := []map[int]glyph{layLine(l, bento.AlignmentLeft, width)}
					return compare(&b, area, rows, [][]bento.Style{nil})
				})
				for _, s := range l.spans {
					if bx.Width(s.text) != l.build().Spans[0].Width() {
						r.Violation(fmt.Sprintf("width of %q", s.text), fmt.Sprint(l.build().Spans[0].Width()), nil)
					}
				}
			}
		}
		r.Trace(1)
		if i%1999 == 0 {
			r.Sample(l.String())
		}
	})

	// texts of lines
	var pool []mline
	for k, s := range []string{"", "a", "世b", "abcd", "e\u0301世世"} {
		for _, al := range aligns {
			pool = append(pool, mline{spans: []mspan{{s, k % 4}}, style: (k + 1) % 4, align: al})
		}
	}
	maxLines := 2
	if r.Thorough {
		maxLines = 3
	}
	seqs := bx.Seqs(len(pool), maxLines)
	// long lines, many lines
	var longs []mline
	for _, k := range []int{40, 85, 86, 128, 200} {
		for _, p := range []string{"a", "世", "xe\u0301世", "ab"} {
			s := strings.Repeat(p, k)
			longs = append(longs, mline{spans: []mspan{{s, 1}}, style: 3}, mline{spans: []mspan{{s[:len(p)*(k/3)], 1}, {s, 2}, {"end", 3}}, style: 1})
		}
	}
	var parts mline
	for i := 0; i < 90; i++ {
		parts.spans = append(parts.spans, mspan{[]string{"a", "世", "", "bcd"}[i%4], i % 4})
	}
	longs = append(longs, parts)
	r.Bound("%d lines of 40 to 600 columns (one of 90 spans) at widths 79, 80, 127, 255, 256, 257 and 700; texts of 120 lines", len(longs))
	r.Parallel(len(longs), func(w *vk.Worker, i int) {
		l := longs[i]
		for _, width := range []int{79, 80, 127, 255, 256, 257, 700} {
			for _, al := range aligns {
				l.align = al
				w.Case(func() string { return fmt.Sprintf("long line %d align %v width %d", i, al, width) }, func() string {
					r.Trans(1)
					b := bx.Filled(bx.R(1, 0, width+2, 3))
					area := bx.R(2, 1, width, 1)
					l.build().Render(area, &b)
					r.State(bx.Hash(&b))
					return compare(&b, area, []map[int]glyph{layLine(l, al, width)}, [][]bento.Style{{styles[l.style]}})
				})
			}
		}
		r.Trace(1)
	})
	w := r.NewWorker()
	for _, ta := range aligns {
		for _, h := range []int{1, 60, 119, 120, 130} {
			w.Case(func() string { return fmt.Sprintf("text of 120 lines align %v height %d", ta, h) }, func() string {
				var ls []textwidget.Line
				var rows []map[int]glyph
				var base [][]bento.Style
				for k := 0; k < 120; k++ {
					m := pool[k%len(pool)]
					ls = append(ls, m.build())
					al := m.align
					if al == bento.AlignmentNone {
						al = ta
					}
					rows = append(rows, layLine(m, al, 90))
					base = append(base, []bento.Style{styles[1], styles[m.style]})
				}
				b := bx.Filled(bx.R(0, 0, 92, h+2))
				area := bx.R(1, 1, 90, h)
				textwidget.NewText(ls...).WithAlignment(ta).WithStyle(styles[1]).Render(area, &b)
				r.State(bx.Hash(&b))
				return compare(&b, area, rows[:min(h, len(rows))], base)
			})
		}
	}
	w.Close()
	r.Bound("texts of up to %d lines out of %d, 4 text alignments, areas 0..6 by 0..%d", maxLines, len(pool), maxLines+1)
	r.Parallel(len(seqs), func(w *vk.Worker, i int) {
		var ls []textwidget.Line
		var ms []mline
		for _, k := range seqs[i] {
			ms = append(ms, pool[k])
			ls = append(ls, pool[k].build())
		}
		for _, ta := range aligns {
			for width := 0; width <= 6; width++ {
				for height := 0; height <= maxLines+1; height++ {
					area := bx.R(1, 2, width, height)
					w.Case(func() string { return fmt.Sprintf("text %v align %v area %v", ms, ta, area) }, func() string {
						r.Trans(1)
						b := bx.Filled(bx.R(0, 1, width+2, height+2))
						ts := styles[1].Dim()
						textwidget.NewText(ls...).WithAlignment(ta).WithStyle(ts).Render(area, &b)
						var rows []map[int]glyph
						var base [][]bento.Style
						for _, m := range ms {
							al := m.align
							if al == bento.AlignmentNone {
								al = ta
							}
							rows = append(rows, layLine(m, al, width))
							base = append(base, []bento.Style{ts, styles[m.style]})
						}
						r.State(bx.Hash(&b))
						return compare(&b, area, rows, base)
					})
				}
			}
		}
		r.Trace(1)
	})
}

func main() {
	prop := os.Getenv("VERIF_PROP")
	r := vk.New(prop, 240*time.Second, 600*time.Second)
	if prop == "C20" {
		render(r)
	} else {
		construct(r)
	}
	r.Finish()
}

package main

import (
	"fmt"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/muesli/termenv"
)

var aligns = []bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}

type pline struct {
	text  string
	align bento.Alignment
}

var (
	textStyle = bento.NewStyle().WithBackground(termenv.ANSIColor(9)).Dim()
	lineStyle = bento.NewStyle().Italic().WithoutModifier(bento.ModifierUnderlined)
	paraStyle = bento.NewStyle().CrossedOut()
)

// rowOK compares one row with a sequence of graphemes starting at one of the given columns.
func rowOK(b *bento.Buffer, area bento.Rect, y int, want []src, offs ...int) string {
	var msg string
	for _, off := range offs {
		if msg = rowAt(b, area, y, want, off); msg == "" {
			return ""
		}
	}
	return msg
}

func rowAt(b *bento.Buffer, area bento.Rect, y int, want []src, off int) string {
	at := map[int]src{}
	cont := map[int]bool{}
	x := area.Left() + off
	for _, g := range want {
		if g.id >= 0 { // an id < 0 is a blank of that width
			at[x] = g
			for k := 1; k < g.W; k++ {
				cont[x+k] = true
			}
		} else {
			for k := 0; k < g.W; k++ {
				cont[x+k] = true
			}
		}
		x += g.W
	}
	pre := bx.PreCell()
	for x := area.Left(); x < area.Right(); x++ {
		got := bx.At(b, x, y)
		g, ok := at[x]
		switch {
		case ok:
			exp := bx.Styled(pre, paraStyle, textStyle, lineStyle, bento.NewStyle().WithForeground(termenv.ANSI256Color(g.id)))
			exp.Symbol = g.S
			if got != exp {
				return fmt.Sprintf("cell (%d,%d) is %s, want %s", x, y, bx.CellString(got), bx.CellString(exp))
			}
		case cont[x]:
		default:
			exp := bx.Styled(pre, paraStyle)
			if got.Symbol != exp.Symbol || got.Fg != exp.Fg {
				return fmt.Sprintf("cell (%d,%d) shows %s where the text has nothing", x, y, bx.CellString(got))
			}
		}
	}
	return ""
}

func buildPara(lines []pline, al bento.Alignment) (paragraphwidget.Paragraph, [][]src) {
	var texts []string
	for _, l := range lines {
		texts = append(texts, l.text)
	}
	srcs, text := source(texts)
	for i := range text.Lines {
		text.Lines[i] = text.Lines[i].WithAlignment(lines[i].align).WithStyle(lineStyle)
	}
	p := paragraphwidget.New(text.WithStyle(textStyle)).WithStyle(paraStyle)
	switch al {
	case bento.AlignmentNone:
		p.Alignment = al
	case bento.AlignmentCenter:
		p = p.Center()
	case bento.AlignmentRight:
		p = p.Right()
	case bento.AlignmentLeft:
		p = p.Left()
	}
	return p, srcs
}

func sumW(gs []src) int {
	n := 0
	for _, g := range gs {
		n += g.W
	}
	return n
}

func offsets(al bento.Alignment, room int) []int {
	switch al {
	case bento.AlignmentCenter:
		return []int{room / 2, (room + 1) / 2}
	case bento.AlignmentRight:
		return []int{room}
	}
	return []int{0}
}

func truncCase(r *vk.Run, lines []pline, al bento.Alignment, width, height, sv, sh int) string {
	r.Trans(1)
	p, srcs := buildPara(lines, al)
	area := bx.R(2, -1, width, height)
	b := bx.Filled(bx.R(1, -2, width+3, height+2))
	p.WithScroll(sv, sh).Render(area, &b)
	r.State(bx.Hash(&b))
	if msg := outside(&b, area); msg != "" {
		return msg + "\n" + bx.Dump(&b)
	}
	for i := 0; i < height; i++ {
		y := area.Top() + i
		k := i + sv
		if k >= len(lines) {
			if msg := rowOK(&b, area, y, nil, 0); msg != "" {
				return msg + "\n" + bx.Dump(&b)
			}
			continue
		}
		a := lines[k].align
		if a == bento.AlignmentNone {
			a = al
		}
		if a == bento.AlignmentNone {
			a = bento.AlignmentLeft
		}
		var gs []src
		for _, g := range srcs[k] {
			if g.W > 0 && g.W <= width {
				gs = append(gs, g)
			}
		}
		variants := [][]src{gs}
		if a == bento.AlignmentLeft {
			skip := sh
			for skip > 0 && len(gs) > 0 && gs[0].W <= skip {
				skip -= gs[0].W
				gs = gs[1:]
			}
			variants = [][]src{gs}
			if skip > 0 && len(gs) > 0 {
				// the offset falls into a wide grapheme: it is shown whole, or its visible half is blank
				variants = append(variants, append([]src{{G: bx.G{S: " ", W: gs[0].W - skip}, id: -1}}, gs[1:]...))
			}
		}
		msg := ""
		for _, v := range variants {
			n, shown := 0, 0
			for _, g := range v {
				if n+g.W > width {
					break
				}
				n += g.W
				shown++
			}
			if msg = rowOK(&b, area, y, v[:shown], offsets(a, width-n)...); msg == "" {
				break
			}
		}
		if msg != "" {
			return fmt.Sprintf("row %d (line %d): %s\n%s", i, k, msg, bx.Dump(&b))
		}
	}
	return ""
}

// wrapped: the rows of the scrolled, aligned paragraph are those of the same
// paragraph unscrolled and left-aligned in a high area, moved.
func wrappedCase(r *vk.Run, lines []pline, al bento.Alignment, width, height, sv int, trim bool) string {
	r.Trans(2)
	plain := make([]pline, len(lines))
	for i, l := range lines {
		plain[i] = pline{l.text, bento.AlignmentNone}
	}
	wr := paragraphwidget.NewWrap().WithTrim(trim)
	ref, srcs := buildPara(plain, bento.AlignmentLeft)
	high := 4
	byID := map[int]src{}
	for _, l := range srcs {
		high += len(l) + 2
		for _, g := range l {
			byID[g.id] = g
		}
	}
	full := bx.R(0, 0, width, high)
	fb := bx.Filled(full)
	ref.WithWrap(wr).Render(full, &fb)
	var rows [][]src
	for y := 0; y < high; y++ {
		row, msg := readRow(&fb, full, y, byID)
		if msg != "" {
			return msg
		}
		rows = append(rows, row)
	}
	p, _ := buildPara(lines, al)
	area := bx.R(2, -1, width, height)
	b := bx.Filled(bx.R(1, -2, width+3, height+2))
	p.WithWrap(wr).WithScroll(sv, 0).Render(area, &b)
	r.State(bx.Hash(&b))
	if msg := outside(&b, area); msg != "" {
		return msg + "\n" + bx.Dump(&b)
	}
	for i := 0; i < height; i++ {
		var want []src
		if i+sv < len(rows) {
			want = rows[i+sv]
		}
		a := al
		if a == bento.AlignmentNone {
			a = bento.AlignmentLeft
		}
		if len(want) > 0 {
			if la := lines[want[0].id/perLine].align; la != bento.AlignmentNone {
				a = la
			}
		}
		if msg := rowOK(&b, area, area.Top()+i, want, offsets(a, width-sumW(want))...); msg != "" {
			return fmt.Sprintf("row %d: %s\n%s", i, msg, bx.Dump(&b))
		}
	}
	return ""
}

func rowsCheck(r *vk.Run) {
	var pool []pline
	texts := []string{"", "a", "bc", "世d", "efgh", "i 世jk", "l  m n"}
	als := []bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}
	for _, t := range texts {
		for _, a := range als {
			pool = append(pool, pline{t, a})
		}
	}
	words := bx.Words([]string{"a", "世", "e\u0301", "\u200b"}, 4)
	if r.Thorough {
		words = bx.Words([]string{"a", "世", "e\u0301", "\u200b"}, 6)
	}
	words = append(words, bx.Words([]string{"a", "👩\u200d🚀", "🇩🇪", "1\ufe0f\u20e3", "❤\ufe0f"}, 3)[1:]...)
	for _, s := range words {
		pool = append(pool, pline{s, bento.AlignmentNone})
	}
	small := 4 * len(texts)
	var texts3 [][]pline
	texts3 = append(texts3, nil)
	for i := range pool {
		texts3 = append(texts3, []pline{pool[i]})
		if i >= small {
			continue
		}
		for j := 0; j < small; j++ {
			texts3 = append(texts3, []pline{pool[i], pool[j]})
			if i%4 == 0 || r.Thorough {
				for k := 0; k < small; k += 3 {
					texts3 = append(texts3, []pline{pool[i], pool[j], pool[k]})
				}
			}
		}
	}
	maxW, maxH, maxS := 6, 4, 4
	r.Bound("%d texts of up to 3 lines (7 contents, 4 alignments each; single lines of up to %d graphemes), 4 paragraph alignments, widths 1..%d, heights 0..%d (for texts of several lines a part of them in the quick tier), vertical scroll 0..%d, horizontal scroll 0..%d, unwrapped, wrapped and trimmed", len(texts3), 4, maxW, maxH, maxS, maxS+2)
	r.Assume("a wide grapheme cut by the horizontal scroll is shown whole or blank; centred text may lean either way by half a cell")
	r.Parallel(len(texts3), func(w *vk.Worker, i int) {
		lines := texts3[i]
		for _, al := range aligns {
			for width := 1; width <= maxW; width++ {
				for sv := 0; sv <= maxS; sv++ {
					for height := 0; height <= maxH; height++ {
						if !r.Thorough && (len(lines) == 1 && i > small*(small+20) && (height != 2 || sv > 1) || len(lines) > 1 && (height == 0 || height == 3) || len(lines) > 1 && sv > 2) {
							continue
						}
						for sh := 0; sh <= maxS+2; sh++ {
							if len(lines) > 1 && (sh > 3 || sh > 1 && height > 2) && !r.Thorough {
								break
							}
							w.Case(func() string {
								return fmt.Sprintf("rows %q para %v area %dx%d scroll %d,%d", lines, al, width, height, sv, sh)
							}, func() string { return truncCase(r, lines, al, width, height, sv, sh) })
						}
						for _, trim := range []bool{false, true} {
							w.Case(func() string {
								return fmt.Sprintf("wrapped %q para %v area %dx%d scroll %d trim %v", lines, al, width, height, sv, trim)
							}, func() string { return wrappedCase(r, lines, al, width, height, sv, trim) })
						}
					}
				}
			}
		}
		r.Trace(1)
		if i%500 == 7 {
			r.Sample(fmt.Sprintf("%q", lines))
		}
	})
	// long lines, many lines, large areas
	var big [][]pline
	for v := 0; v < 3; v++ {
		var ls []pline
		for i := 0; i < 150; i++ {
			t := []string{"", "short", strings.Repeat("0123456789", 2+i%9), strings.Repeat("世a", 30+i%7), "two  words"}[(i+v)%5]
			ls = append(ls, pline{t, als[(i/5+v)%4]})
		}
		big = append(big, ls)
	}
	big = append(big, []pline{{strings.Repeat("abc 世 ", 150), bento.AlignmentNone}}, []pline{{strings.Repeat("x", 700), bento.AlignmentRight}})
	r.Bound("3 texts of 150 lines of up to 100 columns and 2 lines of up to 1200 columns in areas of 80x30, 21x2 and 300x3, scrolled by 0, 1, 90, 149, 200 lines and 0, 1, 75, 260 columns")
	r.Parallel(len(big)*len(aligns), func(w *vk.Worker, i int) {
		lines, al := big[i/len(aligns)], aligns[i%len(aligns)]
		for _, sz := range [][2]int{{80, 30}, {21, 2}, {300, 3}} {
			for _, sv := range []int{0, 1, 90, 149, 200} {
				for _, sh := range []int{0, 1, 75, 260} {
					w.Case(func() string {
						return fmt.Sprintf("rows big %d para %v area %v scroll %d,%d", i/len(aligns), al, sz, sv, sh)
					}, func() string { return truncCase(r, lines, al, sz[0], sz[1], sv, sh) })
				}
				for _, trim := range []bool{false, true} {
					w.Case(func() string {
						return fmt.Sprintf("wrapped big %d para %v area %v scroll %d trim %v", i/len(aligns), al, sz, sv, trim)
					}, func() string { return wrappedCase(r, lines, al, sz[0], sz[1], sv, trim) })
				}
			}
		}
		r.Trace(1)
	})
}

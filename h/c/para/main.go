// C18: word wrap; C19: rows, alignment and scroll of paragraphs.
package main

import (
	"fmt"
	"os"
	"strings"
	"time"
	"unicode"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

func isSpace(s string) bool {
	if s == "\u200b" {
		return true
	}
	if s == "\u00a0" {
		return false
	}
	for _, r := range s {
		if !unicode.IsSpace(r) {
			return false
		}
	}
	return true
}

const perLine = 8192

// one grapheme of the source: every one is in a colour of its own, so that a cell
// tells which grapheme it shows
type src struct {
	bx.G
	id int
	ws bool
}

func source(lines []string) ([][]src, textwidget.Text) {
	var out [][]src
	var ls []textwidget.Line
	for k, s := range lines {
		var one []src
		var spans []textwidget.Span
		for j, g := range bx.Graphemes(s) {
			id := k*perLine + j
			one = append(one, src{g, id, isSpace(g.S)})
			spans = append(spans, textwidget.NewSpan(g.S).WithStyle(bento.NewStyle().WithForeground(termenv.ANSI256Color(id))))
		}
		out = append(out, one)
		ls = append(ls, textwidget.NewLine(spans...))
	}
	return out, textwidget.NewText(ls...)
}

// readRow returns the ids of the graphemes shown in a row of the area, and an error text.
func readRow(b *bento.Buffer, area bento.Rect, y int, byID map[int]src) ([]src, string) {
	var row []src
	x := area.Left()
	for x < area.Right() {
		c := bx.At(b, x, y)
		id, ok := c.Fg.(termenv.ANSI256Color)
		if !ok {
			break
		}
		g, known := byID[int(id)]
		if !known || g.S != c.Symbol {
			return row, fmt.Sprintf("cell (%d,%d) shows %q in the style of %q", x, y, c.Symbol, g.S)
		}
		row = append(row, g)
		if x+g.W > area.Right() {
			return row, fmt.Sprintf("%q at column %d overruns the area", g.S, x)
		}
		x += g.W
	}
	for ; x < area.Right(); x++ {
		if c := bx.At(b, x, y); c.Symbol != "#" {
			return row, fmt.Sprintf("cell (%d,%d) shows %q after the end of the row", x, y, c.Symbol)
		}
	}
	return row, ""
}

// outside: nothing but the area changed
func outside(b *bento.Buffer, area bento.Rect) string {
	a := b.Area()
	pre := bx.PreCell()
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			if !area.Contains(bento.NewPosition(x, y)) && bx.At(b, x, y) != pre {
				return fmt.Sprintf("cell (%d,%d) outside the area changed", x, y)
			}
		}
	}
	return ""
}

func wrapCase(r *vk.Run, lines []string, width int, trim bool) string {
	r.Trans(1)
	lines = append(append([]string{}, lines...), "Z")
	srcs, text := source(lines)
	height := 3
	byID := map[int]src{}
	for _, l := range srcs {
		height += len(l) + 2
		for _, g := range l {
			byID[g.id] = g
		}
	}
	area := bx.R(1, 1, width, height)
	b := bx.Filled(bx.R(0, 0, width+4, height+2))
	paragraphwidget.New(text).WithWrap(paragraphwidget.NewWrap().WithTrim(trim)).Render(area, &b)
	r.State(bx.Hash(&b))
	if msg := outside(&b, area); msg != "" {
		return msg + "\n" + bx.Dump(&b)
	}
	var rows [][]src
	for y := area.Top(); y < area.Bottom(); y++ {
		row, msg := readRow(&b, area, y, byID)
		if msg != "" {
			return msg + "\n" + bx.Dump(&b)
		}
		rows = append(rows, row)
	}
	for len(rows) > 0 && len(rows[len(rows)-1]) == 0 {
		rows = rows[:len(rows)-1]
	}
	if msg := judge(srcs, rows, width, trim); msg != "" {
		return msg + "\n" + bx.Dump(&b)
	}
	return ""
}

func judge(srcs [][]src, rows [][]src, width int, trim bool) string {
	// group rows by input line, in order; blank rows between belong to the blank lines between
	type group struct {
		rows  [][]src
		blank int // blank rows before
	}
	groups := make([]group, len(srcs))
	last, blanks := -1, 0
	prevID := -1
	for y, row := range rows {
		if len(row) == 0 {
			blanks++
			continue
		}
		k := row[0].id / perLine
		for _, g := range row {
			if g.id/perLine != k {
				return fmt.Sprintf("row %d shows parts of two lines", y)
			}
			if g.id <= prevID {
				return fmt.Sprintf("row %d: %q out of order or twice", y, g.S)
			}
			prevID = g.id
		}
		if k < last {
			return fmt.Sprintf("row %d: line %d after line %d", y, k, last)
		}
		if k == last {
			if blanks > 0 {
				// a blank row in the middle of a line: only whitespace may have been there
				ids := groups[k].rows[len(groups[k].rows)-1]
				lo := ids[len(ids)-1].id
				n := 0
				for _, g := range srcs[k] {
					if g.id > lo && (g.id < row[0].id || row[0].ws) {
						n += max(1, g.W)
					}
				}
				if n == 0 {
					return fmt.Sprintf("blank row before row %d in the middle of a line", y)
				}
			}
		} else {
			// blank rows between two lines: one for each line without visible text
			// between them; whitespace at the ends of the lines may add rows
			need, may := 0, 0
			for j := last + 1; j < k; j++ {
				need++
				may += 1 + spaceRows(srcs[j], width)
			}
			if !trim {
				may += leadSpaceRows(srcs[k], width)
			}
			if last >= 0 {
				may += spaceRows(trailing(srcs[last], width), width)
			}
			if blanks < need || blanks > may {
				return fmt.Sprintf("%d blank rows before row %d, want %d to %d", blanks, y, need, may)
			}
		}
		groups[k].rows = append(groups[k].rows, row)
		last, blanks = k, 0
	}
	for k, line := range srcs {
		g := groups[k]
		shown := map[int]int{} // id -> row
		for y, row := range g.rows {
			for _, x := range row {
				shown[x.id] = y
			}
			if trim && isSpace(row[0].S) {
				return fmt.Sprintf("line %d row %d starts with whitespace although trimmed", k, y)
			}
		}
		for _, x := range line {
			if x.ws || x.W == 0 || x.W > width {
				continue
			}
			if _, ok := shown[x.id]; !ok {
				return fmt.Sprintf("line %d: grapheme %d %q is not shown", k, x.id%perLine, x.S)
			}
		}
		// words: maximal runs of non-whitespace graphemes (those too wide to be shown do not count)
		type word struct{ from, to, w int } // indices into vis
		var vis []src
		for _, x := range line {
			if x.W <= width && (x.W > 0 || x.ws) {
				vis = append(vis, x)
			}
		}
		rowWidth := func(y int) int {
			n := 0
			for _, x := range g.rows[y] {
				n += x.W
			}
			return n
		}
		lead := 0
		for i := 0; i < len(vis); {
			if vis[i].ws {
				i++
				continue
			}
			j, w := i, 0
			for j < len(vis) && !vis[j].ws {
				w += vis[j].W
				j++
			}
			for m := i + 1; m < j; m++ {
				if shown[vis[m].id] != shown[vis[m-1].id] {
					// whitespace kept at the start of the row belongs to its first word
					indent := 0
					for _, x := range g.rows[shown[vis[i].id]] {
						if !x.ws {
							if x.id != vis[i].id {
								indent = 0
							}
							break
						}
						indent += x.W
					}
					if indent+w <= width {
						return fmt.Sprintf("line %d: the word at %d (width %d) is split although it fits", k, i, w)
					}
					if rowWidth(shown[vis[m-1].id])+vis[m].W <= width {
						return fmt.Sprintf("line %d: the word at %d is split before the width is reached", k, i)
					}
				}
			}
			// the whitespace before the word
			gap, a := 0, i
			for a > 0 && vis[a-1].ws {
				a--
				gap += vis[a].W
			}
			if a == 0 {
				lead = gap
				if !trim && lead+w <= width {
					for m := 0; m < i; m++ {
						if vis[m].W > 0 {
							if y, ok := shown[vis[m].id]; !ok || y != shown[vis[i].id] {
								return fmt.Sprintf("line %d: leading whitespace is not kept", k)
							}
						}
					}
				}
			} else {
				y0, y1 := shown[vis[a-1].id], shown[vis[i].id]
				if y0 == y1 {
					for m := a; m < i; m++ {
						if vis[m].W > 0 {
							if y, ok := shown[vis[m].id]; !ok || y != y0 {
								return fmt.Sprintf("line %d: whitespace between the words at %d and %d of one row is not shown", k, a-1, i)
							}
						}
					}
				} else {
					// greedy: the word had no room after the previous one
					n := 0
					for _, x := range g.rows[y0] {
						n += x.W
						if x.id == vis[a-1].id {
							break
						}
					}
					if n+gap+w <= width {
						return fmt.Sprintf("line %d: the word at %d starts a new row although it fits (%d+%d+%d <= %d)", k, i, n, gap, w, width)
					}
				}
			}
			i = j
		}
	}
	return ""
}

// spaceRows is how many rows the whitespace of a line may take up, generously
func spaceRows(line []src, width int) int {
	n := 0
	for _, g := range line {
		n += max(1, g.W)
	}
	if n == 0 {
		return 0
	}
	return (n+width-1)/width + 1
}

func leadSpaceRows(line []src, width int) int {
	i := 0
	for i < len(line) && (line[i].ws || line[i].W > width || line[i].W == 0) {
		i++
	}
	return spaceRows(line[:i], width)
}

func trailing(line []src, width int) []src {
	i := len(line)
	for i > 0 && (line[i-1].ws || line[i-1].W > width || line[i-1].W == 0) {
		i--
	}
	return line[i:]
}

func wrap(r *vk.Run) {
	n1, n2, n3 := 8, 6, 3
	if r.Thorough {
		n1, n2, n3 = 11, 8, 4
	}
	a1, a2 := []string{"a", " ", "世"}, []string{"a", " ", "\u200b", "\u3000", "\u00a0", "世"}
	one := bx.Words(a1, n1)
	two := bx.Words(a2, n2-1)
	several := []string{"a", " ", "👩\u200d🚀", "1\ufe0f\u20e3", "❤\ufe0f"}
	two = append(two, bx.Words(several, n2-1)...)
	three := bx.Words(a1, n3)
	r.Bound("single lines of up to %d graphemes over %q and up to %d over %q and %q; all pairs of lines of up to %d and triples of lines of up to 2 over %q; widths 1..6; trimmed and not", n1, a1, n2-1, a2, several, n3, a1)
	r.Assume("whitespace and grapheme widths as in Unicode; whitespace at a line break may be dropped or take rows of its own")
	do := func(w *vk.Worker, lines []string) {
		for width := 1; width <= 6; width++ {
			for _, trim := range []bool{false, true} {
				w.Case(func() string { return fmt.Sprintf("wrap %q width %d trim %v", lines, width, trim) }, func() string {
					return wrapCase(r, lines, width, trim)
				})
			}
		}
		r.Trace(1)
	}
	r.Parallel(len(one), func(w *vk.Worker, i int) { do(w, one[i:i+1]) })
	r.Parallel(len(two), func(w *vk.Worker, i int) { do(w, two[i:i+1]) })
	r.Parallel(len(three)*len(three), func(w *vk.Worker, i int) {
		do(w, []string{three[i/len(three)], three[i%len(three)]})
	})
	small := bx.Words(a1, 2)
	k := len(small)
	r.Parallel(k*k*k, func(w *vk.Worker, i int) { do(w, []string{small[i/k/k], small[i/k%k], small[i%k]}) })
	// long words, wide gaps, many lines
	toks := []string{strings.Repeat("w", 19), strings.Repeat("x", 90), strings.Repeat("y", 300), " ", "      ", strings.Repeat(" ", 130), strings.Repeat("世", 45), "a\u3000b c"}
	var long [][]string
	for _, seq := range bx.Words(toks, 3) {
		long = append(long, []string{seq})
	}
	var many []string
	for i := 0; i < 300; i++ {
		many = append(many, []string{"", "a b", " lead", "word " + strings.Repeat("z", i%45), "世 界"}[i%5])
	}
	long = append(long, many, []string{strings.Repeat("ab ", 700)}, []string{strings.Repeat("a世  ", 600)}, []string{strings.Repeat("p", 2100)})
	widths := []int{1, 7, 40, 80, 200}
	r.Bound("%d long texts (sequences of up to 3 of 8 pieces of up to 300 graphemes; 300 lines; a line of 2100 graphemes) at widths %v", len(long), widths)
	r.Parallel(len(long), func(w *vk.Worker, i int) {
		for _, width := range widths {
			for _, trim := range []bool{false, true} {
				w.Case(func() string { return fmt.Sprintf("wrap long text %d width %d trim %v", i, width, trim) }, func() string {
					return wrapCase(r, long[i], width, trim)
				})
			}
		}
		r.Trace(1)
	})
	r.Sample("lines " + fmt.Sprintf("%q", one[len(one)-1]))
}

func main() {
	prop := os.Getenv("VERIF_PROP")
	r := vk.New(prop, 240*time.Second, 900*time.Second)
	if prop == "C18" {
		wrap(r)
	} else {
		rowsCheck(r)
	}
	r.Finish()
}

var _ = strings.Repeat

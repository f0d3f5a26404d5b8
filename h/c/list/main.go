// C24: lists, all operation sequences to a depth with the states seen so far
// kept, against a model of the selection and the visible window.
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

var (
	listStyle = bento.NewStyle().WithBackground(termenv.ANSIColor(1)).Bold()
	highStyle = bento.NewStyle().WithForeground(termenv.ANSIColor(2)).Reversed().WithoutModifier(bento.ModifierBold)
)

// itemStyle has no part, an own part and one that goes against the list's.
func itemStyle(i int) bento.Style {
	switch i % 3 {
	case 0:
		return bento.NewStyle()
	case 2:
		return bento.NewStyle().WithBackground(termenv.ANSIColor(6)).Underlined().WithoutModifier(bento.ModifierBold)
	}
	return bento.NewStyle().WithForeground(termenv.ANSIColor(5)).Italic()
}

func letter(i, row int) string {
	s := string(rune('a'+i%26)) + string(rune('0'+row%64))
	if i >= 26 {
		s += string(rune('A' + i/26))
	}
	return s
}

type config struct {
	dir     listwidget.Direction
	pad     int
	spacing listwidget.HighlightSpacing
	repeat  bool
	symbol  string
	block   bool
	sets    [][]int // heights of the items; an operation switches between the sets
	width   int
	heights []int // of the areas
	dflt    bool
}

func (c config) String() string {
	return fmt.Sprintf("dir %d pad %d spacing %d repeat %v symbol %q block %v sets %v width %d heights %v default %v", c.dir, c.pad, c.spacing, c.repeat, c.symbol, c.block, c.sets, c.width, c.heights, c.dflt)
}

func (c config) list(set int) listwidget.List {
	var items []textwidget.Text
	for i, h := range c.sets[set] {
		var lines []textwidget.Line
		for row := 0; row < h; row++ {
			lines = append(lines, textwidget.NewLineStr(letter(i, row)))
		}
		items = append(items, textwidget.NewText(lines...).WithStyle(itemStyle(i)))
	}
	l := listwidget.New(items...)
	if c.dflt {
		return l.WithStyle(listStyle).WithHighlightStyle(highStyle).WithHighlightSymbol(c.symbol)
	}
	l = l.WithStyle(listStyle).WithDirection(c.dir).WithScrollPadding(c.pad).WithHighlightSpacing(c.spacing).
		WithRepeatHighlightSymbol(c.repeat).WithHighlightSymbol(c.symbol).WithHighlightStyle(highStyle)
	if c.block {
		l = l.WithBlock(blockwidget.New().Bordered())
	}
	return l
}

const (
	opKey = iota
	opSelect
	opOffset
	opUnselect
	opSet
	opRender
)

type op struct {
	kind, arg int
	key       string
}

func (o op) String() string {
	return []string{"key " + o.key, fmt.Sprint("select ", o.arg), fmt.Sprint("offset ", o.arg), "unselect", fmt.Sprint("items ", o.arg), fmt.Sprint("render ", o.arg)}[o.kind]
}

func key(s string) bento.Msg {
	switch s {
	case "ctrl+u":
		return bento.KeyMsg{Type: bento.KeyCtrlU}
	case "ctrl+d":
		return bento.KeyMsg{Type: bento.KeyCtrlD}
	case "up":
		return bento.KeyMsg{Type: bento.KeyUp}
	case "down":
		return bento.KeyMsg{Type: bento.KeyDown}
	case "tab":
		return bento.KeyMsg{Type: bento.KeyTab}
	case "":
		return "no key"
	}
	return bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(s)}
}

// model of the state; sel is -1 without selection
type model struct {
	sel, offset, set int
}

func add(a, b int) int {
	if b > 0 && a > math.MaxInt-b {
		return math.MaxInt
	}
	return max(0, a+b)
}

func (m *model) key(k string) (consumed bool) {
	from := max(m.sel, 0)
	switch k {
	case "ctrl+u":
		m.sel = add(from, -8)
	case "ctrl+d":
		m.sel = add(from, 8)
	case "G":
		m.sel = math.MaxInt
	case "g":
		m.sel = 0
	case "j", "down":
		if m.sel < 0 {
			m.sel = 0
		} else {
			m.sel = add(m.sel, 1)
		}
	case "k", "up":
		if m.sel < 0 {
			m.sel = math.MaxInt
		} else {
			m.sel = add(m.sel, -1)
		}
	default:
		return false
	}
	return true
}

// window reports the end of the window starting at first.
func window(hs []int, first, height int) int {
	last, sum := first, 0
	for last < len(hs) && sum+hs[last] <= height {
		sum += hs[last]
		last++
	}
	return last
}

// firsts lists the starts of the window that are right.
func (c config) firsts(m model, height int) []int {
	hs := c.sets[m.set]
	kept := min(max(m.offset, 0), len(hs)-1)
	if m.sel < 0 {
		return []int{kept}
	}
	sel := m.sel
	if hs[sel] > height {
		return []int{sel}
	}
	pad := 0
	if !c.dflt {
		pad = c.pad
	}
	var lo, hi int
	for {
		lo, hi = max(0, sel-pad), min(len(hs)-1, sel+pad)
		sum := 0
		for i := lo; i <= hi; i++ {
			sum += hs[i]
		}
		if sum <= height {
			break
		}
		pad--
	}
	ok := func(f int) bool { return f <= lo && hi < window(hs, f, height) }
	if ok(kept) {
		return []int{kept}
	}
	var out []int
	for f := range hs {
		if ok(f) {
			out = append(out, f)
		}
	}
	// the nearest first: usually the one
	sort.SliceStable(out, func(i, j int) bool { return max(out[i]-kept, kept-out[i]) < max(out[j]-kept, kept-out[j]) })
	return out
}

func (c config) paint(b *bento.Buffer, area bento.Rect, m model, first int) {
	b.SetStyle(area, listStyle)
	in := area
	if c.block && !c.dflt {
		bl := blockwidget.New().Bordered()
		bl.Render(area, b)
		in = bl.Inner(area)
	}
	hs := c.sets[m.set]
	if in.IsEmpty() || len(hs) == 0 {
		return
	}
	last := max(window(hs, first, in.Height), first+1)
	used := 0
	symW := bx.Width(c.symbol)
	spacing := m.sel >= 0
	if !c.dflt {
		spacing = c.spacing == listwidget.HighlightSpacingAlways || c.spacing == listwidget.HighlightSpacingWhenSelected && m.sel >= 0
	}
	for i := first; i < last; i++ {
		h := min(hs[i], in.Height)
		y := in.Top() + used
		if c.dir == listwidget.DirectionBottomToTop && !c.dflt {
			y = in.Bottom() - used - h
		}
		used += h
		for row := 0; row < h; row++ {
			for x := in.Left(); x < in.Right(); x++ {
				b.CellAt(bento.NewPosition(x, y+row)).SetStyle(listStyle).SetStyle(itemStyle(i))
			}
			put := func(x int, gs []bx.G, blank bool) {
				for _, g := range gs {
					if x+g.W > in.Right() {
						return
					}
					s := g.S
					if blank {
						s = " "
					}
					b.CellAt(bento.NewPosition(x, y+row)).SetSymbol(s)
					for d := 1; d < g.W; d++ {
						if blank {
							b.CellAt(bento.NewPosition(x+d, y+row)).SetSymbol(" ")
						} else {
							b.CellAt(bento.NewPosition(x+d, y+row)).Reset()
						}
					}
					x += g.W
				}
			}
			x := in.Left()
			if spacing {
				sym := bx.Graphemes(strings.Repeat(" ", symW))
				if m.sel == i && (row == 0 || c.repeat && !c.dflt) {
					sym = bx.Graphemes(c.symbol)
				}
				put(x, sym, false)
				x += symW
			}
			put(x, bx.Graphemes(letter(i, row)), false)
			if m.sel == i {
				for x := in.Left(); x < in.Right(); x++ {
					b.CellAt(bento.NewPosition(x, y+row)).SetStyle(highStyle)
				}
			}
		}
	}
}

type history struct {
	ops   []op
	quiet int // operations since the last render
}

func name(ops []op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, ", ")
}

// run executes a history from a fresh state; it returns what went wrong in its
// last operation, the model and a description of the state.
func run(r *vk.Run, c config, ops []op) (string, model, string) {
	st := listwidget.NewState()
	m := model{sel: -1}
	lists := map[int]listwidget.List{}
	for _, o := range ops {
		r.Trans(1)
		switch o.kind {
		case opKey:
			before := fmt.Sprint(bx.Deep(st))
			cmd, used := st.TryUpdate(key(o.key))
			if want := m.key(o.key); used != want || cmd != nil {
				return fmt.Sprintf("key %q consumed: %v, want %v", o.key, used, want), m, ""
			} else if !want && bx.Deep(st) != before {
				return "an unhandled message changed the state", m, ""
			}
		case opSelect:
			st.Select(o.arg)
			m.sel = max(0, o.arg)
		case opOffset:
			st.SetOffset(o.arg)
			m.offset = o.arg
		case opUnselect:
			st.Unselect()
			m.sel, m.offset = -1, 0
		case opSet:
			m.set = o.arg
		case opRender:
			area := bx.R(2, 1, c.width, o.arg)
			all := bx.R(area.X-1, area.Y-1, area.Width+2, area.Height+3)
			got := bx.Filled(all)
			if _, ok := lists[m.set]; !ok {
				lists[m.set] = c.list(m.set)
			}
			lists[m.set].RenderStateful(area, &got, &st)
			fresh, stateless, none := bx.Filled(all), bx.Filled(all), listwidget.NewState()
			lists[m.set].RenderStateful(area, &fresh, &none)
			lists[m.set].Render(area, &stateless)
			if d := bx.Diff(&stateless, &fresh); d != "" {
				return "without a state: " + d, m, ""
			}
			height := o.arg
			inEmpty := c.width == 0 || o.arg == 0
			if c.block && !c.dflt {
				height -= 2
				inEmpty = c.width < 3 || o.arg < 3
			}
			first := 0
			if len(c.sets[m.set]) > 0 && !inEmpty {
				if m.sel >= 0 {
					m.sel = min(m.sel, len(c.sets[m.set])-1)
				}
				msg, ok := "", false
				for _, f := range c.firsts(m, height) {
					want := bx.Filled(all)
					c.paint(&want, area, m, f)
					if d := bx.Diff(&got, &want); d == "" {
						first, ok = f, true
						break
					} else if msg == "" {
						msg = fmt.Sprintf("window from item %d (possible: %v): %s", f, c.firsts(m, height), d)
					}
				}
				if !ok {
					return msg, m, ""
				}
				m.offset = first
			} else {
				want := bx.Filled(all)
				c.paint(&want, area, m, 0)
				if d := bx.Diff(&got, &want); d != "" {
					return d, m, ""
				}
				// with no items the selection may be kept or clamped
				if s, ok := st.Selected(math.MaxInt); ok && m.sel >= 0 && s == 0 {
					m.sel = 0
				}
			}
		}
		s, ok := st.Selected(math.MaxInt)
		if !ok {
			s = -1
		}
		if s != m.sel {
			return fmt.Sprintf("selected %d, want %d", s, m.sel), m, ""
		}
		for limit := 0; limit < 5; limit++ {
			if s3, ok := st.Selected(limit); ok != (s >= 0) || ok && s3 != min(s, limit) {
				return fmt.Sprintf("selected of %d is %d, %v with %d selected", limit, s3, ok, s), m, ""
			}
		}
	}
	return "", m, bx.Deep(st)
}

func explore(r *vk.Run, w *vk.Worker, c config, maxDepth, maxQuiet int, light bool) {
	ops := []op{}
	for _, k := range []string{"j", "k", "g", "G", "ctrl+d", "ctrl+u", "up", "down", "x", "tab", ""} {
		ops = append(ops, op{kind: opKey, key: k})
	}
	ops = append(ops, op{kind: opUnselect})
	n := 0
	for i, s := range c.sets {
		n = max(n, len(s))
		if len(c.sets) > 1 {
			ops = append(ops, op{kind: opSet, arg: i})
		}
	}
	for i := -1; i <= n; i++ {
		ops = append(ops, op{kind: opSelect, arg: i}, op{kind: opOffset, arg: i})
	}
	if light {
		ops = []op{{kind: opKey, key: "j"}, {kind: opKey, key: "k"}, {kind: opKey, key: "G"}, {kind: opUnselect}}
	}
	for _, h := range c.heights {
		ops = append(ops, op{kind: opRender, arg: h})
	}
	seen := map[string]bool{}
	level := []history{{}}
	for depth := 0; depth < maxDepth && len(level) > 0; depth++ {
		var next []history
		for _, h := range level {
			for _, o := range ops {
				if o.kind != opRender && h.quiet >= maxQuiet {
					continue
				}
				all := append(append([]op{}, h.ops...), o)
				var m model
				var st string
				if !w.Case(func() string { return c.String() + ": " + name(all) }, func() (msg string) { msg, m, st = run(r, c, all); return msg }) {
					return
				}
				q := h.quiet + 1
				if o.kind == opRender {
					if q = 0; m.sel >= len(c.sets[m.set]) { // not clamped
						q = h.quiet
					}
				}
				k := fmt.Sprint(st, m, q)
				r.StateStr(c.String() + k)
				if !seen[k] {
					seen[k] = true
					next = append(next, history{all, q})
				}
			}
		}
		level = next
		if r.Stop() || r.Expired() {
			return
		}
	}
	if len(level) > 0 {
		r.Capped("depth %d reached with %d states left", maxDepth, len(level))
	}
	r.Trace(len(seen))
}

func main() {
	r := vk.New("C24", 240*time.Second, 900*time.Second)
	type job struct {
		c     config
		light bool
	}
	var jobs []job
	sets := [][][]int{{{1, 1, 1, 1, 1, 1}}, {{1, 2, 1, 3, 2}}, {{3, 1, 1, 1}}, {{2, 2, 2}}, {{1, 5, 1, 2}}, {{1}}, {{}, {1, 1}}, {{1, 1, 1, 1}, {1}, {2, 1, 1, 3, 1, 1}}}
	quiet := 2
	if r.Thorough {
		sets = append(sets, [][]int{{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}}, [][]int{{4, 1, 3, 2, 1}, {1, 1, 1, 1, 1, 1, 1}, {}}, [][]int{{6, 6, 6}})
		quiet = 3
	}
	k := 0
	for _, s := range sets {
		for _, dir := range []listwidget.Direction{listwidget.DirectionTopToBottom, listwidget.DirectionBottomToTop} {
			for pad := 0; pad < 4; pad++ {
				k++
				jobs = append(jobs, job{config{dir: dir, pad: pad, sets: s, spacing: listwidget.HighlightSpacing(k % 3), repeat: k%2 == 0,
					symbol: []string{">", "=>", ""}[k%3], width: 5, heights: []int{1, 2, 3, 5, 0}}, false})
			}
		}
	}
	deep := len(jobs)
	for _, dir := range []listwidget.Direction{listwidget.DirectionTopToBottom, listwidget.DirectionBottomToTop} {
		for sp := 0; sp < 3; sp++ {
			for _, rep := range []bool{false, true} {
				for _, sym := range []string{"", ">", "=>", "世", "世>", "👩\u200d🚀❤\ufe0f"} {
					for _, bl := range []bool{false, true} {
						for width := 0; width <= 6; width++ {
							jobs = append(jobs, job{config{dir: dir, pad: 1, spacing: listwidget.HighlightSpacing(sp), repeat: rep, symbol: sym, block: bl,
								sets: [][]int{{1, 3, 1, 2}}, width: width, heights: []int{2, 4, 6}}, true})
						}
					}
				}
			}
		}
	}
	jobs = append(jobs, job{config{sets: [][]int{{1, 2, 1}}, symbol: ">", width: 4, heights: []int{2, 3}, dflt: true}, false})
	r.Bound("all sequences of keys, Select, SetOffset, Unselect, item changes and renders (5 area heights) until no new state appears, at most %d operations between two renders, %d lists (item heights, direction, scroll padding 0-3)", quiet, deep)
	r.Bound("%d more lists (spacing mode, repeat, symbol, block, widths 0-6) under j, k, G, unselect and renders", len(jobs)-deep)
	var long []config
	for k, h := range [][]int{{1}, {1, 2, 1, 3}, {2, 40, 1}} {
		var hs []int
		for i := 0; i < 300; i++ {
			hs = append(hs, h[i%len(h)])
		}
		for _, dir := range []listwidget.Direction{listwidget.DirectionTopToBottom, listwidget.DirectionBottomToTop} {
			long = append(long, config{dir: dir, pad: 4 * k, sets: [][]int{hs, hs[:260]}, symbol: ">", repeat: k == 1, width: 7, heights: []int{30}})
		}
	}
	r.Bound("%d lists of 300 items in areas of height 30 and 70: every selection of 12 x every offset of 6, a render, and all sequences of up to 2 (thorough: 3) of 7 operations each followed by a render", len(long))
	r.Parallel(len(long)*12, func(w *vk.Worker, i int) {
		c, sel := long[i/12], []int{-1, 0, 1, 29, 63, 128, 254, 255, 256, 257, 298, 299}[i%12]
		moves := []op{{kind: opKey, key: "j"}, {kind: opKey, key: "k"}, {kind: opKey, key: "ctrl+d"}, {kind: opKey, key: "ctrl+u"}, {kind: opKey, key: "G"}, {kind: opKey, key: "g"}, {kind: opSet, arg: 1}}
		for _, off := range []int{0, 30, 200, 255, 298, 400} {
			for _, seq := range bx.Seqs(len(moves), 3) {
				if len(seq) == 3 && !r.Thorough {
					continue
				}
				h := 30
				if (off+sel)%2 == 0 {
					h = 70
				}
				ops := []op{{kind: opOffset, arg: off}}
				if sel >= 0 {
					ops = append(ops, op{kind: opSelect, arg: sel})
				}
				ops = append(ops, op{kind: opRender, arg: h})
				for _, k := range seq {
					ops = append(ops, moves[k], op{kind: opRender, arg: h})
				}
				w.Case(func() string { return "300 items " + fmt.Sprint(i/12) + ": " + name(ops) }, func() string {
					msg, _, st := run(r, c, ops)
					r.StateStr(st)
					return msg
				})
			}
		}
		r.Trace(1)
	})
	r.Assume("an index counts as clamped when the list is rendered (the state does not know the number of items); items of height zero are left out")
	r.Parallel(len(jobs), func(w *vk.Worker, i int) {
		explore(r, w, jobs[i].c, 60, quiet, jobs[i].light)
		if i%100 == 7 {
			r.Sample(jobs[i].c.String())
		}
	})
	r.Finish()
}

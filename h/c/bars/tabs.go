package main

import (
	"fmt"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

var (
	tabStyle  = bento.NewStyle().WithBackground(termenv.ANSIColor(1))
	tabHigh   = bento.NewStyle().WithForeground(termenv.ANSIColor(2)).Bold()
	spanA     = bento.NewStyle().WithForeground(termenv.ANSIColor(5))
	lineStyle = bento.NewStyle().Italic()
)

type run struct { // a styled run of text
	s  string
	st bento.Style
}

type tabset struct {
	titles   [][]run
	pads     int
	divider  int
	selected int // -2: none
	block    bool
	defaults bool
	undone   bool // selected and unselected again
}

var (
	tabPads  = [][2]string{{" ", " "}, {"", ""}, {"[", "]"}, {"世", "<>"}, {"", ">>"}}
	tabDivs  = []string{"│", "", "世", " | "}
	tabTexts = [][]run{{{"A", bento.NewStyle()}}, {{"世界", spanA}}, {{"x", spanA}, {"世", bento.NewStyle()}, {"y", spanA}}, {}, {{"long", bento.NewStyle()}}, {{"", spanA}, {"p", bento.NewStyle()}, {"", spanA}, {"q", spanA}, {"\u200b", bento.NewStyle()}, {"", spanA}, {"r", bento.NewStyle()}}, {{"👩\u200d🚀🇩🇪", spanA}, {"1\ufe0f\u20e3❤\ufe0f", bento.NewStyle()}}}
)

func (c tabset) build() tabswidget.Tabs {
	var lines []textwidget.Line
	for _, t := range c.titles {
		var spans []textwidget.Span
		for _, p := range t {
			spans = append(spans, textwidget.NewSpan(p.s).WithStyle(p.st))
		}
		lines = append(lines, textwidget.NewLine(spans...).WithStyle(lineStyle))
	}
	t := tabswidget.New(lines...).WithStyle(tabStyle).WithHighlightStyle(tabHigh)
	if !c.defaults {
		t = t.WithPaddingLeftStr(tabPads[c.pads][0]).WithPaddingRightStr(tabPads[c.pads][1])
		if c.divider%2 == 0 {
			t = t.WithDividerStr(tabDivs[c.divider])
		} else {
			t = t.WithDivider(textwidget.NewSpan(tabDivs[c.divider]).WithStyle(spanA))
		}
	}
	if c.selected != -2 {
		t = t.Select(c.selected)
	}
	if c.undone {
		t = t.Select(0).Unselect()
	}
	if c.block {
		t = t.WithBlock(blockwidget.New().Bordered())
	}
	return t
}

func (c tabset) paint(b *bento.Buffer, area bento.Rect) {
	b.SetStyle(area, tabStyle)
	if c.block {
		bl := blockwidget.New().Bordered()
		bl.Render(area, b)
		area = bl.Inner(area)
	}
	if area.IsEmpty() {
		return
	}
	x, cut := area.X, false
	put := func(rs ...run) {
		for _, r := range rs {
			for _, g := range bx.Graphemes(r.s) {
				if g.W == 0 {
					continue
				}
				if cut || x+g.W > area.Right() {
					cut = true
					return
				}
				b.CellAt(bento.NewPosition(x, area.Y)).SetSymbol(g.S).SetStyle(r.st)
				for d := 1; d < g.W; d++ {
					b.CellAt(bento.NewPosition(x+d, area.Y)).Reset()
				}
				x += g.W
			}
		}
	}
	pads, div := tabPads[c.pads], run{tabDivs[c.divider], bento.NewStyle()}
	if c.divider%2 == 1 {
		div.st = spanA
	}
	if c.defaults {
		pads, div = [2]string{" ", " "}, run{"│", bento.NewStyle()}
	}
	for i, t := range c.titles {
		put(run{pads[0], bento.NewStyle()})
		x0 := x
		var rs []run
		for _, p := range t {
			rs = append(rs, run{p.s, lineStyle.Patched(p.st)})
		}
		put(rs...)
		if i == c.selected {
			for k := x0; k < x; k++ {
				b.CellAt(bento.NewPosition(k, area.Y)).SetStyle(tabHigh)
			}
		}
		put(run{pads[1], bento.NewStyle()})
		if i < len(c.titles)-1 {
			put(div)
		}
	}
}

func tabs() {
	r := vk.New("C29", 240*time.Second, 900*time.Second)
	var cs []tabset
	n := 3
	if r.Thorough {
		n = 4
	}
	for _, seq := range bx.Seqs(len(tabTexts), n) {
		var ts [][]run
		for _, k := range seq {
			ts = append(ts, tabTexts[k])
		}
		for p := range tabPads {
			for d := range tabDivs {
				if len(seq) > 3 && (p+d)%2 == 0 {
					continue
				}
				for sel := -2; sel <= len(ts); sel++ {
					cs = append(cs, tabset{titles: ts, pads: p, divider: d, selected: sel, block: (p+d+sel)%4 == 0, undone: sel == -2 && d%2 == 0, defaults: p == 0 && d == 0 && sel != 0})
				}
			}
		}
	}
	var many [][]run
	for i := 0; i < 30; i++ {
		many = append(many, tabTexts[i%len(tabTexts)])
	}
	for p := range tabPads {
		for d := range tabDivs {
			for _, sel := range []int{-2, 0, 7, 15, 16, 28, 29, 30, 1000} {
				cs = append(cs, tabset{titles: many, pads: p, divider: d, selected: sel})
			}
		}
	}
	r.Bound("bars of 30 titles in widths 40, 80, 119, 200 and 300")
	widths := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 17, 40}
	r.Bound("%d tab bars (up to %d titles out of %d, 5 paddings, 4 dividers, every selection from none and -1 to one past the end), widths %v, heights 0-2", len(cs), n, len(tabTexts), widths)
	r.Parallel(len(cs), func(w *vk.Worker, i int) {
		c := cs[i]
		widths := widths
		if len(c.titles) == 30 {
			widths = []int{40, 80, 119, 120, 200, 300}
		}
		for _, wd := range widths {
			for h := 0; h <= 2; h++ {
				if h != 1 && wd > 4 && i%7 != 0 {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("%+v width %d height %d", c, wd, h) }, func() string {
					area := bx.R(2, 1, wd, h)
					if c.block {
						area.Width += 2
						area.Height += 2
					}
					all := bx.R(1, 0, area.Width+2, area.Height+2)
					got, want := bx.Filled(all), bx.Filled(all)
					c.build().Render(area, &got)
					c.paint(&want, area)
					r.Trans(1)
					r.State(bx.Hash(&got))
					return bx.Diff(&got, &want)
				})
			}
		}
		r.Trace(1)
		if i%1000 == 3 {
			r.Sample(fmt.Sprintf("%+v", c))
		}
	})
	r.Finish()
}

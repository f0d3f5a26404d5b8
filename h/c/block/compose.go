package main

import (
	"fmt"
	"reflect"

	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
)

// A widget with a block is its style, the block and the widget without block
// in what the block leaves.
var (
	widgetStyle = bento.NewStyle().WithBackground(termenv.ANSIColor(3)).Underlined()
	plainStyle  = bento.NewStyle()
	boldStyle   = bento.NewStyle().Bold()
)

type drawFn func(area bento.Rect, b *bento.Buffer, block *blockwidget.Block) any

type wrapped struct {
	name  string
	style bento.Style
	draw  drawFn
}

func composed() []wrapped {
	var out []wrapped
	text := textwidget.NewTextStr("ab 世c\nd\n\nefgh i")
	for _, st := range []bento.Style{widgetStyle, plainStyle} {
		st := st
		for mode := 0; mode < 8; mode++ {
			mode := mode
			out = append(out, wrapped{fmt.Sprintf("paragraph mode %d", mode), st, func(a bento.Rect, b *bento.Buffer, bl *blockwidget.Block) any {
				p := paragraphwidget.New(text).WithStyle(st)
				if mode&1 != 0 {
					p = p.Wrapped()
				}
				if mode&2 != 0 {
					p = p.Center()
				}
				if mode&4 != 0 {
					p = p.WithScroll(1, 0)
				}
				if bl != nil {
					p = p.WithBlock(*bl)
				}
				p.Render(a, b)
				return nil
			}})
		}
		for n := 0; n <= 3; n++ {
			n := n
			out = append(out, wrapped{fmt.Sprintf("tabs %d", n), st, func(a bento.Rect, b *bento.Buffer, bl *blockwidget.Block) any {
				var ls []textwidget.Line
				for i := 0; i < n; i++ {
					ls = append(ls, textwidget.NewLineStr([]string{"a", "世", "tab"}[i]))
				}
				t := tabswidget.New(ls...).WithStyle(st).WithHighlightStyle(boldStyle)
				if n > 1 {
					t = t.Select(1)
				}
				if bl != nil {
					t = t.WithBlock(*bl)
				}
				t.Render(a, b)
				return nil
			}})
		}
		for n := 0; n <= 5; n++ {
			for sel := -1; sel <= n; sel += 2 {
				for off := 0; off < 3; off += 2 {
					n, sel, off := n, sel, off
					out = append(out, wrapped{fmt.Sprintf("list %d selected %d offset %d", n, sel, off), st, func(a bento.Rect, b *bento.Buffer, bl *blockwidget.Block) any {
						var items []textwidget.Text
						for i := 0; i < n; i++ {
							items = append(items, textwidget.NewTextStr([]string{"a", "b\nc", "世", "", "de"}[i]))
						}
						l := listwidget.New(items...).WithStyle(st).WithHighlightStyle(boldStyle).WithHighlightSymbol(">").WithScrollPadding(off / 2)
						if n%2 == 1 {
							l = l.WithDirection(listwidget.DirectionBottomToTop)
						}
						if bl != nil {
							l = l.WithBlock(*bl)
						}
						state := listwidget.NewState()
						state.SetOffset(off)
						if sel >= 0 {
							state.Select(sel)
						}
						l.RenderStateful(a, b, &state)
						return state
					}})
				}
			}
		}
		if st != plainStyle {
			continue // an input has no style to choose
		}
		for _, s := range []string{"", "ab", "世xyz uvw"} {
			for left := 0; left < 6; left += 2 {
				for k, v := range []bento.Flex{bento.FlexStart, bento.FlexCenter, bento.FlexEnd} {
					s, left, v, k := s, left, v, k
					out = append(out, wrapped{fmt.Sprintf("input %q left %d vertical %d", s, left, k), st, func(a bento.Rect, b *bento.Buffer, bl *blockwidget.Block) any {
						in := inputwidget.New().WithVertical(v).WithPrompt("?"[:k%2]).WithPlaceholder("hold")
						if bl != nil {
							in = in.WithBlock(*bl)
						}
						state := inputwidget.NewState()
						state.ShowCursor(true)
						state.Append(s)
						for i := 0; i < left; i++ {
							state.MoveCursorLeft()
						}
						in.RenderStateful(a, b, &state)
						return state
					}})
				}
			}
		}
	}
	return out
}

func composeBlocks() (styled, unstyled []blockwidget.Block, names []string) {
	for sides := 0; sides < 16; sides++ {
		for k, p := range [][4]int{{}, {1, 0, 0, 0}, {0, 1, 2, 1}} {
			c := config{sides: sides, set: sides % 4, pad: p, defAlign: bento.AlignmentLeft}
			if k == 1 {
				c.titles = []title{{"T", bento.AlignmentNone, -1}, {"世", bento.AlignmentRight, 1}}
			}
			b := c.build()
			styled = append(styled, b)
			unstyled = append(unstyled, b.WithStyle(plainStyle))
			names = append(names, c.String())
		}
	}
	return
}

func compose(r *vk.Run) {
	ws := composed()
	styled, unstyled, names := composeBlocks()
	width, height := 8, 5
	if r.Thorough {
		width, height = 12, 7
	}
	r.Bound("%d paragraphs, tabs, lists and inputs with %d blocks in all areas up to %dx%d against their style, the block and themselves without it", len(ws), len(names), width, height)
	r.Parallel(len(ws)*len(names), func(w *vk.Worker, i int) {
		s, k := ws[i/len(names)], i%len(names)
		bl := unstyled[k]
		if s.style == plainStyle {
			bl = styled[k]
		}
		for aw := 0; aw <= width; aw++ {
			for ah := 0; ah <= height; ah++ {
				area := bx.R(2, 1, aw, ah)
				w.Case(func() string { return fmt.Sprintf("%s in %s area %+v", s.name, names[k], area) }, func() string {
					r.Trans(1)
					all := bx.R(1, 0, aw+2, ah+2)
					got, want := bx.Filled(all), bx.Filled(all)
					st := s.draw(area, &got, &bl)
					want.SetStyle(area, s.style)
					bl.Render(area, &want)
					in := bl.Inner(area)
					st2 := s.draw(in, &want, nil)
					r.State(bx.Hash(&got))
					if d := bx.Diff(&got, &want); d != "" {
						return "the widget with the block is not the block and the widget in its inner area: " + d
					}
					if !in.IsEmpty() && !reflect.DeepEqual(st, st2) {
						return fmt.Sprintf("the state after is %s, and %s without block", bx.Deep(st), bx.Deep(st2))
					}
					return ""
				})
			}
		}
		r.Trace(1)
	})
}

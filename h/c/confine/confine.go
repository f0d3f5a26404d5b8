package main

import (
	"fmt"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/muesli/termenv"
)

type drawFn func(area bento.Rect, b *bento.Buffer)

// subject makes a widget with a state of its own.
type subject struct {
	name   string
	clips  bool // may be given areas that reach out of the buffer
	popup  bool // splits layouts: slow
	make   func() drawFn
	moving bool // its layout arithmetic is absolute: not compared across positions
}

var (
	stRed  = bento.NewStyle().WithForeground(termenv.ANSIColor(1)).Bold()
	stBlue = bento.NewStyle().WithBackground(termenv.ANSIColor(4)).Italic()
	stOff  = bento.NewStyle().WithoutModifier(bento.ModifierItalic).Underlined()
)

var texts = []string{
	"", "a", "世", "hello world", "世界 x世 y", "a\nbb\n\nccc dd", "e\u0301\u200bo\tz", "   lead", "👩‍👩‍👧 fam ily", "longer than the area is wide\nand\nmore\nlines\nthan\nrows",
}

func styledText(s string) textwidget.Text {
	t := textwidget.NewTextStr(s).WithStyle(stBlue)
	return t.WithLines(textwidget.NewLine(textwidget.NewSpan("sp").WithStyle(stRed), textwidget.NewSpan("世n")).WithStyle(stOff))
}

func blocks() []*blockwidget.Block {
	mk := func(b blockwidget.Block) *blockwidget.Block { return &b }
	title := func(s string) blockwidget.Title { return blockwidget.NewTitle(textwidget.NewLineStr(s)) }
	return []*blockwidget.Block{
		nil,
		mk(blockwidget.New().Bordered().WithBorderStyle(stRed)),
		mk(blockwidget.New().WithPadding(bento.NewPadding(1, 2)).WithStyle(stBlue)),
		mk(blockwidget.New().WithBorderSides(blockwidget.SideTop).WithTitle(title("ti世")).WithTitle(title("r").Right()).WithTitlesStyle(stOff)),
		mk(blockwidget.New().WithBorderSides(blockwidget.SideLeft | blockwidget.SideBottom).WithTitle(title("世世").Center()).WithTitle(title("bot").Bottom().Right())),
		mk(blockwidget.New().WithTitle(title("above").Center()).WithTitle(title("below").Bottom()).WithPadding(bento.NewPadding(0, 0, 3, 1))),
	}
}

func subjects(thorough bool) []subject {
	var out []subject
	add := func(s subject) { out = append(out, s) }
	bs := blocks()
	stateless := func(name string, clips bool, f func() bento.Widget) {
		add(subject{name: name, clips: clips, make: func() drawFn {
			w := f()
			return func(a bento.Rect, b *bento.Buffer) { w.Render(a, b) }
		}})
	}
	for bi, b := range bs {
		b := b
		if b == nil {
			continue
		}
		stateless(fmt.Sprintf("block %d", bi), true, func() bento.Widget { return *b })
	}
	als := []bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}
	for ti, s := range texts {
		s := s
		stateless(fmt.Sprintf("span %d", ti), true, func() bento.Widget { return textwidget.NewSpan(s).WithStyle(stRed) })
		for _, al := range als {
			al := al
			stateless(fmt.Sprintf("line %d align %d", ti, al), true, func() bento.Widget {
				return textwidget.NewLine(textwidget.NewSpan(s).WithStyle(stRed), textwidget.NewSpan("世b")).WithStyle(stOff).WithAlignment(al)
			})
			stateless(fmt.Sprintf("text %d align %d", ti, al), true, func() bento.Widget { return styledText(s).WithAlignment(al) })
			for bi, b := range bs {
				b := b
				if bi > 1 && al != bento.AlignmentCenter && !thorough {
					continue
				}
				for mode := 0; mode < 4; mode++ {
					mode := mode
					for _, scroll := range [][2]int{{0, 0}, {1, 2}, {9, 40}} {
						scroll := scroll
						stateless(fmt.Sprintf("paragraph %d align %d block %d mode %d scroll %v", ti, al, bi, mode, scroll), false, func() bento.Widget {
							p := paragraphwidget.New(styledText(s)).WithStyle(stBlue).WithScroll(scroll[0], scroll[1])
							switch al {
							case bento.AlignmentNone:
								p.Alignment = al
							case bento.AlignmentLeft:
								p = p.Left()
							case bento.AlignmentCenter:
								p = p.Center()
							case bento.AlignmentRight:
								p = p.Right()
							}
							switch mode {
							case 1:
								p = p.Wrapped()
							case 2:
								p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(true))
							case 3:
								p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(false))
							}
							if b != nil {
								p = p.WithBlock(*b)
							}
							return p
						})
					}
				}
			}
		}
	}
	items := [][]textwidget.Text{
		{}, {styledText("one")}, {styledText("世"), styledText("two\nlines"), textwidget.NewTextStr("")},
		{textwidget.NewTextStr("0"), textwidget.NewTextStr("1"), textwidget.NewTextStr("2\n2"), textwidget.NewTextStr("3"), textwidget.NewTextStr("4"), textwidget.NewTextStr("5\n5\n5")},
	}
	for ii, it := range items {
		it := it
		for bi, b := range bs {
			b := b
			for _, dir := range []listwidget.Direction{listwidget.DirectionTopToBottom, listwidget.DirectionBottomToTop} {
				dir := dir
				for _, sym := range []string{"", ">", "世>"} {
					sym := sym
					for _, sp := range []listwidget.HighlightSpacing{listwidget.HighlightSpacingAlways, listwidget.HighlightSpacingWhenSelected, listwidget.HighlightSpacingNever} {
						sp := sp
						for _, sel := range []int{-1, 0, 2, 99} {
							sel := sel
							for _, off := range []int{0, 2, 50} {
								off := off
								add(subject{name: fmt.Sprintf("list %d block %d dir %v symbol %q spacing %v selected %d offset %d", ii, bi, dir, sym, sp, sel, off), make: func() drawFn {
									l := listwidget.New(it...).WithDirection(dir).WithHighlightSymbol(sym).WithHighlightSpacing(sp).WithHighlightStyle(stRed).WithStyle(stBlue).WithScrollPadding(off / 2).WithRepeatHighlightSymbol(off > 0)
									if b != nil {
										l = l.WithBlock(*b)
									}
									st := listwidget.NewState()
									st.SetOffset(off)
									if sel >= 0 {
										st.Select(sel)
									}
									return func(a bento.Rect, b *bento.Buffer) { l.RenderStateful(a, b, &st) }
								}})
							}
						}
					}
				}
			}
		}
		stateless(fmt.Sprintf("list %d stateless", ii), false, func() bento.Widget { return listwidget.New(it...) })
	}
	for ti, s := range []string{"", "a", "世x", "hello 世界 world", "e\u0301o"} {
		s := s
		for bi, b := range bs {
			b := b
			for _, prompt := range []string{"", "> ", "世:", "a long prompt"} {
				prompt := prompt
				for _, al := range als[1:] {
					al := al
					for _, v := range []bento.Flex{bento.FlexStart, bento.FlexCenter, bento.FlexEnd} {
						v := v
						for _, left := range []int{0, 1, 3} {
							left := left
							if v != bento.FlexCenter && (bi > 1 || left > 0) && !thorough {
								continue
							}
							add(subject{popup: true, name: fmt.Sprintf("input %d block %d prompt %q align %d vertical %v left %d", ti, bi, prompt, al, v, left), make: func() drawFn {
								in := inputwidget.New().WithPrompt(prompt).WithPromptStyle(stRed).WithAlignment(al).WithVertical(v).WithPlaceholder("hold 世").WithPlaceholderStyle(stOff)
								if b != nil {
									in = in.WithBlock(*b)
								}
								st := inputwidget.NewState()
								st.Append(s)
								for i := 0; i < left; i++ {
									st.MoveCursorLeft()
								}
								return func(a bento.Rect, b *bento.Buffer) { in.RenderStateful(a, b, &st) }
							}})
						}
					}
				}
			}
		}
	}
	for n := 0; n < 4; n++ {
		for bi, b := range bs {
			b := b
			for sel := -1; sel <= n; sel++ {
				n, sel := n, sel
				for _, pad := range []string{"", " ", "世"} {
					pad := pad
					stateless(fmt.Sprintf("tabs %d block %d selected %d padding %q", n, bi, sel, pad), false, func() bento.Widget {
						var ls []textwidget.Line
						for i := 0; i < n; i++ {
							ls = append(ls, textwidget.NewLine(textwidget.NewSpan([]string{"a", "世界", "", "tab"}[i]).WithStyle(stRed), textwidget.NewSpan("!")))
						}
						t := tabswidget.New(ls...).WithPaddingLeftStr(pad).WithPaddingRightStr(pad).WithDividerStr([]string{"|", "世", ""}[len(pad)%3]).WithStyle(stBlue).WithHighlightStyle(stOff)
						if b != nil {
							t = t.WithBlock(*b)
						}
						if sel >= 0 {
							t = t.Select(sel)
						}
						return t
					})
				}
			}
		}
	}
	for _, ratio := range []float64{0, 0.01, 0.5, 0.77, 1} {
		for _, label := range []string{"", "50%", "世", "a label longer than all"} {
			for _, uni := range []bool{false, true} {
				ratio, label, uni := ratio, label, uni
				stateless(fmt.Sprintf("gauge %v label %q unicode %v", ratio, label, uni), false, func() bento.Widget {
					g := gaugewidget.New().WithRatio(ratio).WithUnicode(uni).WithGaugeStyle(stRed).WithStyle(stBlue)
					if label != "" {
						g = g.WithLabelStr(label)
					}
					return g
				})
			}
		}
	}
	for o := 0; o < 4; o++ {
		for _, n := range []int{0, 1, 7, 300} {
			for _, pos := range []int{0, 3, 299} {
				for _, vp := range []int{0, 1, 50} {
					o, n, pos, vp := o, n, pos, vp
					add(subject{name: fmt.Sprintf("scroll %d content %d position %d viewport %d", o, n, pos, vp), make: func() drawFn {
						s := scrollwidget.New(scrollwidget.Orientation(o))
						st := scrollwidget.NewState(n)
						st.SetPosition(pos).SetViewportContentLen(vp)
						return func(a bento.Rect, b *bento.Buffer) { s.RenderStateful(a, b, st) }
					}})
				}
			}
		}
	}
	for _, t := range throbberTypes() {
		t := t
		add(subject{name: fmt.Sprintf("throbber %v", t), make: func() drawFn {
			th := throbberwidget.New().WithType(t)
			st := throbberwidget.NewState()
			return func(a bento.Rect, b *bento.Buffer) { th.RenderStateful(a, b, st) }
		}})
	}
	stateless("clear", false, func() bento.Widget { return clearwidget.New() })
	stateless("fill", false, func() bento.Widget { return fillwidget.New("x").WithStyle(stRed) })
	cs := popupConstraints()
	for bi, b := range bs {
		b := b
		for wi := range cs {
			for hi := range cs {
				for f := 0; f < 3; f++ {
					if bi > 1 && (wi+hi+f)%3 != bi%3 && !thorough {
						continue
					}
					wi, hi, f := wi, hi, f
					s := subject{name: fmt.Sprintf("popup block %d width %v height %v place %d", bi, cs[wi], cs[hi], f), popup: true, make: func() drawFn {
						p := popupwidget.New().WithWidth(cs[wi]).WithHeight(cs[hi]).WithStyle(stBlue)
						p = []func() popupwidget.Popup{p.Left, p.Center, p.Right}[f]()
						p = []func() popupwidget.Popup{p.Top, p.Middle, p.Bottom}[(f+wi)%3]()
						if b != nil {
							p = p.WithBlock(*b)
						}
						return func(a bento.Rect, b *bento.Buffer) { p.Render(a, b) }
					}}
					add(s)
				}
			}
		}
	}
	return out
}

func throbberTypes() []throbberwidget.Type {
	return []throbberwidget.Type{throbberwidget.TypeLine, throbberwidget.TypeHorizontalBlock, throbberwidget.TypeVerticalBlock, throbberwidget.TypeBrailleEight, throbberwidget.TypeParenthesis, throbberwidget.TypeCanadian, throbberwidget.TypeEllipsis, throbberwidget.TypeMeter, throbberwidget.TypePulse}
}

func popupConstraints() []bento.Constraint {
	return []bento.Constraint{bento.ConstraintLen(0), bento.ConstraintLen(3), bento.ConstraintLen(50), bento.ConstraintPercentage(60), bento.ConstraintMin(2), bento.ConstraintMax(4), bento.ConstraintFill(1)}
}

func rects(in bento.Rect) []bento.Rect {
	var out []bento.Rect
	for x := in.X; x <= in.Right(); x++ {
		for w := 0; x+w <= in.Right(); w++ {
			for y := in.Y; y <= in.Bottom(); y++ {
				for h := 0; y+h <= in.Bottom(); h++ {
					out = append(out, bx.R(x, y, w, h))
				}
			}
		}
	}
	return out
}

// checkAt draws a subject in an area of a buffer.
func checkAt(r *vk.Run, s subject, buf, area bento.Rect, ref map[[2]int]*bento.Buffer) string {
	got := bx.Filled(buf)
	draw := s.make()
	draw(area, &got)
	if got.Area() != buf {
		return "the buffer's area changed"
	}
	for y := buf.Y; y < buf.Bottom(); y++ {
		for x := buf.X; x < buf.Right(); x++ {
			if !area.Contains(bento.NewPosition(x, y)) && bx.At(&got, x, y) != bx.PreCell() {
				return fmt.Sprintf("the cell %d,%d outside the area %v changed to %s", x, y, area, bx.CellString(bx.At(&got, x, y)))
			}
		}
	}
	for y := max(buf.Y, area.Y); y < min(buf.Bottom(), area.Bottom()); y++ {
		if x := min(buf.Right(), area.Right()) - 1; x >= max(buf.X, area.X) {
			if c := bx.At(&got, x, y); bx.Width(c.Symbol) > 1 {
				return fmt.Sprintf("the wide %q at %d,%d reaches out of the area %v", c.Symbol, x, y, area)
			}
		}
	}
	r.State(bx.Hash(&got))
	again := bx.Filled(buf)
	s.make()(area, &again)
	if d := bx.Diff(&again, &got); d != "" {
		return fmt.Sprintf("drawing the same widget in %v of another buffer gives something else: %s", area, d)
	}
	draw(area, &got)
	if d := bx.Diff(&got, &again); d != "" {
		return fmt.Sprintf("drawing a second time in %v changes the cells: %s", area, d)
	}
	r.Trans(3)
	if ref == nil || s.moving || area.IsEmpty() {
		return ""
	}
	key := [2]int{area.Width, area.Height}
	if ref[key] == nil {
		b := bx.Filled(bx.R(0, 0, area.Width, area.Height))
		s.make()(b.Area(), &b)
		ref[key] = &b
	}
	for y := 0; y < area.Height; y++ {
		for x := 0; x < area.Width; x++ {
			if g, w := bx.At(&got, area.X+x, area.Y+y), bx.At(ref[key], x, y); g != w {
				return fmt.Sprintf("in %v the cell %d,%d of the area is %s, in a buffer of just that size it is %s", area, x, y, bx.CellString(g), bx.CellString(w))
			}
		}
	}
	return ""
}

func confine() {
	r := vk.New("C22", 240*time.Second, 900*time.Second)
	subs := subjects(r.Thorough)
	buf := bx.R(3, 2, 6, 4)
	slow := bx.R(3, 2, 5, 3)
	if r.Thorough {
		buf, slow = bx.R(3, 2, 11, 6), bx.R(3, 2, 9, 5)
	}
	all, few := rects(buf), rects(slow)
	var out []bento.Rect // areas that reach out of the buffer, on the right and at the bottom or all around
	for x := -2; x <= 4; x++ {
		for y := -2; y <= 3; y++ {
			for _, w := range []int{0, 1, 3, 5, 9} {
				for _, h := range []int{0, 1, 2, 4, 7} {
					if x+w > 0 && y+h > 0 && x >= 0 && y >= 0 && x+w <= 4 && y+h <= 3 {
						continue
					}
					out = append(out, bx.R(x, y, w, h))
				}
			}
		}
	}
	r.Bound("%d widgets (every type, its alignments, scrolls, selections, states and constraints, without and with 5 kinds of block) x all %d areas of a buffer at 3,2 of %dx%d (inputs and popups: all %d areas of %dx%d), each drawn twice, in two buffers, and compared with the same size at the origin; in an area of 50x10, every ninth also in 300x2 and 7x86; spans, lines, texts and blocks also in %d areas that reach out of a 4x3 buffer", len(subs), len(all), buf.Width, buf.Height, len(few), slow.Width, slow.Height, len(out))
	r.Assume("areas lie in the buffer, except for spans, lines, texts and blocks, which cut them off; symbols given to fill have width 1; scroll positions and offsets are not negative")
	r.Parallel(len(subs), func(w *vk.Worker, i int) {
		s := subs[i]
		as, bf := all, buf
		if s.popup {
			as, bf = few, slow
		}
		ref := map[[2]int]*bento.Buffer{}
		for _, a := range as {
			if r.Stop() {
				return
			}
			w.Case(func() string { return fmt.Sprintf("%s in %v", s.name, a) }, func() string { return checkAt(r, s, bf, a, ref) })
			r.Trace(1)
		}
		bigs := [][2]bento.Rect{{bx.R(3, 2, 60, 12), bx.R(8, 3, 50, 10)}}
		if i%9 == 0 || r.Thorough {
			bigs = append(bigs, [2]bento.Rect{bx.R(0, 0, 310, 4), bx.R(2, 1, 300, 2)}, [2]bento.Rect{bx.R(0, 0, 9, 90), bx.R(1, 2, 7, 86)})
		}
		for _, g := range bigs {
			w.Case(func() string { return fmt.Sprintf("%s in %v", s.name, g[1]) }, func() string { return checkAt(r, s, g[0], g[1], ref) })
			r.Trace(1)
		}
		if s.clips {
			ob := bx.R(0, 0, 4, 3)
			for _, a := range out {
				w.Case(func() string { return fmt.Sprintf("%s beyond the buffer in %v", s.name, a) }, func() string { return checkAt(r, s, ob, a, nil) })
				r.Trace(1)
			}
		}
		if i%400 == 7 {
			r.Sample(s.name + " in every area")
		}
	})
	r.Finish()
}

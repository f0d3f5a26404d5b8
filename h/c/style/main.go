// C11: style algebra against a direct model of "instructions applied to a cell".
package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/muesli/termenv"
)

// model of a style: what it does to a cell
type model struct {
	fg, bg   bento.Color // nil = leave
	add, sub bento.Modifier
}

type op struct {
	name string
	real func(bento.Style) bento.Style
	mod  func(model) model
}

var mods = []bento.Modifier{1, 2, 4, 8, 16, 32, 64, 128, 256}

func with(m bento.Modifier) func(model) model {
	return func(s model) model { s.sub &^= m; s.add |= m; return s }
}

func without(m bento.Modifier) func(model) model {
	return func(s model) model { s.add &^= m; s.sub |= m; return s }
}

func applyModel(s model, c bento.Cell) bento.Cell {
	if s.fg != nil {
		c.Fg = s.fg
	}
	if s.bg != nil {
		c.Bg = s.bg
	}
	c.Modifier = (c.Modifier | s.add) &^ s.sub
	return c
}

func patchModel(a, b model) model {
	if b.fg != nil {
		a.fg = b.fg
	}
	if b.bg != nil {
		a.bg = b.bg
	}
	for _, m := range mods {
		if b.add&m != 0 {
			a.add |= m
			a.sub &^= m
		}
		if b.sub&m != 0 {
			a.sub |= m
			a.add &^= m
		}
	}
	return a
}

type styled struct {
	s    bento.Style
	m    model
	name string
}

func main() {
	r := vk.New("C11", 240*time.Second, 600*time.Second)
	if len(mods) != 9 || bento.ModifierAll != 0x1ff {
		// the library's modifiers are the nine bits below; anything else changes the model
		r.Assume("modifier set differs from the nine known bits")
	}
	names := []string{"Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "White"}
	var ops []op
	// every named colour method, foreground and background, found by name
	st := reflect.TypeOf(bento.Style{})
	for bright := 0; bright < 2; bright++ {
		for i, n := range names {
			full := n
			if bright == 1 {
				full = "Bright" + n
			}
			col := termenv.ANSIColor(i + 8*bright)
			for _, on := range []bool{false, true} {
				mn := full
				if on {
					mn = "On" + full
				}
				m, ok := st.MethodByName(mn)
				if !ok {
					continue
				}
				ops = append(ops, op{mn, func(s bento.Style) bento.Style {
					return m.Func.Call([]reflect.Value{reflect.ValueOf(s)})[0].Interface().(bento.Style)
				}, func(s model) model {
					if on {
						s.bg = col
					} else {
						s.fg = col
					}
					return s
				}})
			}
		}
	}
	ops = append(ops,
		op{"RGB(1,2,255)", func(s bento.Style) bento.Style { return s.RGB(1, 2, 255) }, func(s model) model { s.fg = termenv.RGBColor("#0102ff"); return s }},
		op{"OnRGB(254,16,0)", func(s bento.Style) bento.Style { return s.OnRGB(254, 16, 0) }, func(s model) model { s.bg = termenv.RGBColor("#fe1000"); return s }},
		op{"WithForeground(256:200)", func(s bento.Style) bento.Style { return s.WithForeground(termenv.ANSI256Color(200)) }, func(s model) model { s.fg = termenv.ANSI256Color(200); return s }},
		op{"WithBackground(256:17)", func(s bento.Style) bento.Style { return s.WithBackground(termenv.ANSI256Color(17)) }, func(s model) model { s.bg = termenv.ANSI256Color(17); return s }},
		op{"WithForeground(reset)", func(s bento.Style) bento.Style { return s.WithForeground(bento.ResetColor{}) }, func(s model) model { s.fg = bento.ResetColor{}; return s }},
		op{"WithBackground(reset)", func(s bento.Style) bento.Style { return s.WithBackground(bento.ResetColor{}) }, func(s model) model { s.bg = bento.ResetColor{}; return s }},
		op{"WithForeground(none)", func(s bento.Style) bento.Style { return s.WithForeground(termenv.NoColor{}) }, func(s model) model { s.fg = termenv.NoColor{}; return s }},
		op{"WithBackground(none)", func(s bento.Style) bento.Style { return s.WithBackground(termenv.NoColor{}) }, func(s model) model { s.bg = termenv.NoColor{}; return s }},
		op{"Bold", bento.Style.Bold, with(bento.ModifierBold)},
		op{"Dim", bento.Style.Dim, with(bento.ModifierDim)},
		op{"Italic", bento.Style.Italic, with(bento.ModifierItalic)},
		op{"Underlined", bento.Style.Underlined, with(bento.ModifierUnderlined)},
		op{"Reversed", bento.Style.Reversed, with(bento.ModifierReversed)},
		op{"CrossedOut", bento.Style.CrossedOut, with(bento.ModifierCrossedOut)},
	)
	// the colour fields themselves
	ops = append(ops,
		op{"Foreground.Reset", func(s bento.Style) bento.Style { s.Foreground.Reset(); return s }, func(s model) model { s.fg = nil; return s }},
		op{"Background.Reset", func(s bento.Style) bento.Style { s.Background.Reset(); return s }, func(s model) model { s.bg = nil; return s }},
		op{"Foreground.Set", func(s bento.Style) bento.Style { s.Foreground.Set(termenv.ANSI256Color(99)); return s }, func(s model) model { s.fg = termenv.ANSI256Color(99); return s }},
		op{"Background.Set", func(s bento.Style) bento.Style { s.Background.Set(termenv.ANSI256Color(98)); return s }, func(s model) model { s.bg = termenv.ANSI256Color(98); return s }},
	)
	for _, m := range mods {
		m := m
		ops = append(ops,
			op{fmt.Sprintf("With(%x)", m), func(s bento.Style) bento.Style { return s.WithModifier(m) }, with(m)},
			op{fmt.Sprintf("Without(%x)", m), func(s bento.Style) bento.Style { return s.WithoutModifier(m) }, without(m)})
	}
	for _, m := range []bento.Modifier{bento.ModifierBold | bento.ModifierItalic, bento.ModifierItalic | bento.ModifierHidden | bento.ModifierCrossedOut, bento.ModifierAll, bento.ModifierNone} {
		m := m
		ops = append(ops,
			op{fmt.Sprintf("With(%x)", m), func(s bento.Style) bento.Style { return s.WithModifier(m) }, with(m)},
			op{fmt.Sprintf("Without(%x)", m), func(s bento.Style) bento.Style { return s.WithoutModifier(m) }, without(m)})
	}

	// cells a style is applied to
	var base []bento.Cell
	for _, fg := range []bento.Color{bento.ResetColor{}, termenv.ANSIRed, termenv.RGBColor("#010203")} {
		for _, bg := range []bento.Color{bento.ResetColor{}, termenv.ANSIBlue} {
			for _, m := range []bento.Modifier{0, 1, bento.ModifierAll, bento.ModifierItalic | bento.ModifierReversed, 0x155, 0xaa} {
				for _, skip := range []bool{false, true} {
					base = append(base, bento.Cell{Symbol: "x", Fg: fg, Bg: bg, Modifier: m, Skip: skip})
				}
			}
		}
	}
	same := func(s styled) string {
		for i, c := range []*bento.StyleColor{&s.s.Foreground, &s.s.Background} {
			want := [2]bento.Color{s.m.fg, s.m.bg}[i]
			if c.IsSet() != (want != nil) {
				return fmt.Sprintf("style %s: colour %d is set: %v", s.name, i, c.IsSet())
			}
			if want != nil && c.Color() != want {
				return fmt.Sprintf("style %s: colour %d is %v, want %v", s.name, i, c.Color(), want)
			}
		}
		for _, c := range base {
			got := c
			got.SetStyle(s.s)
			if want := applyModel(s.m, c); got != want {
				return fmt.Sprintf("style %s on %+v gives %+v, want %+v", s.name, c, got, want)
			}
		}
		r.Trans(len(base))
		return ""
	}

	// the other ways to change a cell change what they say
	r.Parallel(len(base), func(w *vk.Worker, i int) {
		c := base[i]
		w.Case(func() string { return fmt.Sprintf("cell %+v", c) }, func() string {
			for _, k := range []struct {
				name string
				f    func(c *bento.Cell)
				want func(c *bento.Cell)
			}{
				{"SetFg", func(c *bento.Cell) { c.SetFg(termenv.ANSIGreen) }, func(c *bento.Cell) { c.Fg = termenv.ANSIGreen }},
				{"SetBg", func(c *bento.Cell) { c.SetBg(termenv.ANSIGreen) }, func(c *bento.Cell) { c.Bg = termenv.ANSIGreen }},
				{"SetSymbol", func(c *bento.Cell) { c.SetSymbol("yz") }, func(c *bento.Cell) { c.Symbol = "yz" }},
				{"AppendSymbol", func(c *bento.Cell) { c.AppendSymbol("yz") }, func(c *bento.Cell) { c.Symbol = "xyz" }},
				{"Reset", func(c *bento.Cell) { c.Reset() }, func(c *bento.Cell) { *c = bento.NewEmptyCell() }},
			} {
				got, want := c, c
				k.f(&got)
				k.want(&want)
				if got != want {
					return fmt.Sprintf("%s on %+v gives %+v, want %+v", k.name, c, got, want)
				}
			}
			r.Trans(5)
			return ""
		})
	})

	// every value of every channel of an RGB colour, and every indexed colour
	r.Bound("RGB colours: all values of each channel among corner values of the others; all 256 indexed and 16 basic colours; foreground and background")
	corner := []int{0, 1, 15, 16, 127, 128, 255}
	r.Parallel(256, func(w *vk.Worker, v int) {
		w.Case(func() string { return fmt.Sprintf("colours with channel value %d", v) }, func() string {
			for _, x := range corner {
				for _, y := range corner {
					for _, k := range [][3]int{{v, x, y}, {x, v, y}, {x, y, v}} {
						// as the colour library shows this colour (it may be off by one)
						rgb := termenv.RGBColor(fmt.Sprintf("#%02x%02x%02x", k[0], k[1], k[2]))
						want := [2]string{rgb.Sequence(false), rgb.Sequence(true)}
						a, b, c := uint8(k[0]), uint8(k[1]), uint8(k[2])
						f, o := bento.NewStyle().OnRed().RGB(a, b, c), bento.NewStyle().Red().OnRGB(a, b, c)
						r.Trans(2)
						if got := f.Foreground.Color().Sequence(false); got != want[0] || f.Background.Color() != termenv.ANSIRed {
							return fmt.Sprintf("RGB(%d,%d,%d) is shown by %q, on %v", a, b, c, got, f.Background.Color())
						}
						if got := o.Background.Color().Sequence(true); got != want[1] || o.Foreground.Color() != termenv.ANSIRed {
							return fmt.Sprintf("OnRGB(%d,%d,%d) is shown by %q, under %v", a, b, c, got, o.Foreground.Color())
						}
					}
				}
			}
			for _, c := range []bento.Color{termenv.ANSI256Color(v), termenv.ANSIColor(v % 16)} {
				s := styled{bento.NewStyle().WithForeground(c).OnRed(), model{fg: c, bg: termenv.ANSIRed}, fmt.Sprintf("of foreground %T %d", c, c)}
				if m := same(s); m != "" {
					return m
				}
				s = styled{bento.NewStyle().WithBackground(c).Red(), model{bg: c, fg: termenv.ANSIRed}, fmt.Sprintf("of background %T %d", c, c)}
				if m := same(s); m != "" {
					return m
				}
				p := bento.NewStyle().Red().OnRed().Patched(bento.NewStyle().WithForeground(c))
				if m := same(styled{p, model{fg: c, bg: termenv.ANSIRed}, fmt.Sprintf("patched by foreground %T %d", c, c)}); m != "" {
					return m
				}
				p = bento.NewStyle().Red().OnRed().Patched(bento.NewStyle().WithBackground(c))
				if m := same(styled{p, model{bg: c, fg: termenv.ANSIRed}, fmt.Sprintf("patched by background %T %d", c, c)}); m != "" {
					return m
				}
			}
			return ""
		})
	})

	// all operation sequences up to depth
	depth := 3
	r.Bound("all sequences of up to %d of %d style operations on %d cells; all pairs of %s patches", depth, len(ops), len(base), "those depth-1 and selected depth-2 styles as")
	var level []styled
	level = append(level, styled{bento.NewStyle(), model{}, "new"})
	all := append([]styled{}, level...)
	for d := 1; d <= depth; d++ {
		var next []styled
		for _, s := range level {
			for _, o := range ops {
				next = append(next, styled{o.real(s.s), o.mod(s.m), s.name + "." + o.name})
			}
		}
		r.Parallel(len(next), func(w *vk.Worker, i int) {
			s := next[i]
			w.Case(func() string { return s.name }, func() string { return same(s) })
			r.State(vk.Hash(fmt.Sprintf("%#v", s.m)))
			r.Trace(1)
		})
		level = next
		if d <= 2 {
			all = append(all, next...)
		}
	}

	// patches: alphabet of styles with distinct effect
	seen := map[string]bool{}
	var alpha []styled
	for i, s := range all {
		k := fmt.Sprintf("%#v", s.m)
		if seen[k] || (i > len(ops) && i%7 != 0 && !r.Thorough) {
			continue
		}
		seen[k] = true
		alpha = append(alpha, s)
	}
	if len(alpha) > 1200 {
		// keep all depth-1 styles and an even spread of the rest (deterministic)
		head := alpha[:min(len(alpha), len(ops)+1)]
		rest := alpha[len(head):]
		step := len(rest)/1000 + 1
		for i := 0; i < len(rest); i += step {
			head = append(head[:len(head):len(head)], rest[i])
		}
		alpha = head
	}
	r.Extra("patch_alphabet", len(alpha))
	r.Parallel(len(alpha), func(w *vk.Worker, i int) {
		a := alpha[i]
		for _, b := range alpha {
			w.Case(func() string { return a.name + " patched by " + b.name }, func() string {
				p := a.s.Patched(b.s)
				m := patchModel(a.m, b.m)
				for _, c := range base[:min(len(base), 12)] {
					one, two := c, c
					one.SetStyle(p)
					two.SetStyle(a.s).SetStyle(b.s)
					if one != two {
						return fmt.Sprintf("patched style on %+v gives %+v, the two in turn give %+v", c, one, two)
					}
					if want := applyModel(m, c); one != want {
						return fmt.Sprintf("patched style on %+v gives %+v, want %+v", c, one, want)
					}
				}
				r.Trans(24)
				return ""
			})
		}
		// a style is unchanged by being patched or patching
		w.Case(func() string { return a.name + " afterwards" }, func() string { return same(a) })
		r.Trace(len(alpha))
		if i%300 == 5 {
			r.Sample(a.name)
		}
	})
	// triples: patching is associative in effect
	tri := alpha
	if len(tri) > 60 {
		step := len(tri)/60 + 1
		tri = nil
		for i := 0; i < len(alpha); i += step {
			tri = append(tri, alpha[i])
		}
	}
	r.Parallel(len(tri), func(w *vk.Worker, i int) {
		a := tri[i]
		for _, b := range tri {
			for _, c := range tri {
				w.Case(func() string { return a.name + " | " + b.name + " | " + c.name }, func() string {
					for _, x := range base[:4] {
						l, rr := x, x
						l.SetStyle(a.s.Patched(b.s).Patched(c.s))
						rr.SetStyle(a.s.Patched(b.s.Patched(c.s)))
						if l != rr {
							return fmt.Sprintf("(a.b).c gives %+v, a.(b.c) gives %+v on %+v", l, rr, x)
						}
					}
					r.Trans(8)
					return ""
				})
			}
		}
	})
	r.Finish()
}

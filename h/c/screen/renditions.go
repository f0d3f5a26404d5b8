package main

import (
	"fmt"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/internal/zzverif/vt"
	"github.com/muesli/termenv"
)

type look struct {
	fg, bg bento.Color
	m      bento.Modifier
	glyph  string // a letter if empty
}

func (l look) String() string {
	s := fmt.Sprintf("%T(%v)/%T(%v)/%09b", l.fg, l.fg, l.bg, l.bg, l.m)
	if l.glyph != "" {
		s += fmt.Sprintf("%q", l.glyph)
	}
	return s
}

// symbol is what is shown at place i of a row.
func (l look) symbol(i int) string {
	if l.glyph != "" {
		return l.glyph
	}
	return string(rune('a' + i%26))
}

func (l look) cell(s string) bento.Cell {
	return bento.Cell{Symbol: s, Fg: l.fg, Bg: l.bg, Modifier: l.m}
}

var profiles = []termenv.Profile{termenv.TrueColor, termenv.ANSI256, termenv.ANSI, termenv.Ascii}

// show draws rows of looks, one draw each, gap columns apart, and checks every glyph.
func show(r *vk.Run, p termenv.Profile, gap int, draws ...[]look) string {
	n := 0
	for _, d := range draws {
		n = max(n, len(d))
	}
	t := vt.New(n*(gap+1), len(draws))
	term, err := bento.NewTerminal(newBackend(t, p), bento.ViewportFullscreen{})
	if err != nil {
		return err.Error()
	}
	for k := range draws {
		_, err := term.Draw(painter(func(area bento.Rect, b *bento.Buffer) {
			for y, d := range draws[:k+1] {
				for i, l := range d {
					*b.CellAt(bento.NewPosition(i*(gap+1), y)) = l.cell(l.symbol(i))
				}
			}
		}))
		if err != nil {
			return err.Error()
		}
		if t.Err != "" {
			return t.Err
		}
		for y, d := range draws[:k+1] {
			for i, l := range d {
				want := vt.Cell{Glyph: l.symbol(i), Pen: penOf(p, l.cell(""))}
				if got := t.At(i*(gap+1), y); got != want {
					before := ""
					if i > 0 {
						before = " after " + d[i-1].String()
					}
					return fmt.Sprintf("draw %d: %v%s shows as %+v instead of %+v", k, l, before, got, want)
				}
				for g := 1; g <= gap; g++ {
					if got := t.At(i*(gap+1)+g, y); got != (vt.Cell{Glyph: " ", Pen: vt.Pen{Fg: vt.Default, Bg: vt.Default}}) {
						return fmt.Sprintf("draw %d: the blank cell after %v shows %+v", k, l, got)
					}
				}
			}
		}
		r.Trans(len(draws[k]))
	}
	return ""
}

// fan is a row in which a is followed and preceded by every one of the others.
func fan(a look, others []look) []look {
	var row []look
	for _, o := range others {
		row = append(row, a, o)
	}
	return append(row, a)
}

func renditions() {
	r := vk.New("C08", 240*time.Second, 900*time.Second)
	reset := bento.ResetColor{}
	red, rgb := termenv.ANSIColor(1), termenv.RGBColor("#1f8a03")
	var byAttr []look // all 512 attribute sets in two colours
	for m := 0; m < 512; m++ {
		byAttr = append(byAttr, look{fg: reset, bg: reset, m: bento.Modifier(m)})
	}
	colors := []bento.Color{reset, termenv.NoColor{}, nil, termenv.ANSIColor(0), red, termenv.ANSIColor(7), termenv.ANSIColor(8), termenv.ANSIColor(15),
		termenv.ANSI256Color(0), termenv.ANSI256Color(9), termenv.ANSI256Color(16), termenv.ANSI256Color(202), termenv.ANSI256Color(255),
		termenv.RGBColor("#000000"), termenv.RGBColor("#ffffff"), rgb, termenv.RGBColor("nonsense")}
	var byColor []look
	for _, fg := range colors {
		for _, bg := range colors {
			for _, m := range []bento.Modifier{0, bento.ModifierBold | bento.ModifierReversed, bento.ModifierAll} {
				byColor = append(byColor, look{fg: fg, bg: bg, m: m})
			}
		}
	}
	var few []look
	for _, c := range [][2]bento.Color{{reset, reset}, {red, reset}, {reset, rgb}, {termenv.NoColor{}, red}} {
		few = append(few, look{fg: c[0], bg: c[1]}, look{fg: c[0], bg: c[1], m: bento.ModifierAll})
		for _, b := range bits {
			few = append(few, look{fg: c[0], bg: c[1], m: b.m})
		}
	}
	var glyphs []look // the few, as letters, blanks, full cells and with a combining mark
	for _, l := range few {
		for _, g := range []string{"", " ", "█", "e\u0301"} {
			l.glyph = g
			glyphs = append(glyphs, l)
		}
	}
	type job struct {
		name string
		run  func(w *vk.Worker)
	}
	var jobs []job
	mk := func(p termenv.Profile, name string, gap int, a look, others []look) {
		jobs = append(jobs, job{name, func(w *vk.Worker) {
			row := fan(a, others)
			for i := 0; i < len(row); i += 128 { // rows of bounded width, each ending where the next begins
				part := row[i:min(len(row), i+129)]
				w.Case(func() string { return fmt.Sprintf("%s, profile %d, gap %d: %v, part %d", name, p, gap, a, i/128) }, func() string { return show(r, p, gap, part) })
				r.Trace(1)
			}
			r.StateStr(fmt.Sprint(p, gap, name, a))
		}})
	}
	for _, p := range profiles {
		for i := range byAttr {
			mk(p, "attributes", 0, byAttr[i], byAttr[i:])
		}
		for i := range byColor {
			if p == termenv.TrueColor || p == termenv.Ascii || r.Thorough {
				mk(p, "colours", 0, byColor[i], byColor[i:])
			} else {
				mk(p, "colours", 0, byColor[i], few)
			}
		}
		for i := range glyphs {
			mk(p, "glyphs", 0, glyphs[i], glyphs)
			if g := glyphs[i]; g.glyph != "" {
				mk(p, "glyphs with gaps", 1, g, few)
				p := p
				jobs = append(jobs, job{"glyphs", func(w *vk.Worker) {
					for _, b := range glyphs {
						w.Case(func() string { return fmt.Sprintf("profile %d: two draws, %v then %v", p, g, b) }, func() string { return show(r, p, 1, []look{g}, []look{b}) })
						w.Case(func() string { return fmt.Sprintf("profile %d: %v between two %v", p, g, b) }, func() string { return show(r, p, 0, []look{b, g, g, b}, []look{g, b, g}) })
						r.Trace(2)
					}
				}})
			}
		}
		for i := range few {
			mk(p, "with gaps", 1, few[i], byAttr)
			p, a := p, few[i]
			jobs = append(jobs, job{"three", func(w *vk.Worker) {
				for _, b := range few {
					var row []look
					for _, c := range few {
						row = append(row, a, b, c)
					}
					w.Case(func() string { return fmt.Sprintf("profile %d: three in a row from %v, %v", p, a, b) }, func() string { return show(r, p, 0, row) })
					w.Case(func() string { return fmt.Sprintf("profile %d: two draws, %v then %v", p, a, b) }, func() string { return show(r, p, 0, []look{a}, []look{b}) })
					r.Trace(2)
				}
			}})
		}
		for i := range byAttr {
			p, a := p, byAttr[i]
			jobs = append(jobs, job{"draws", func(w *vk.Worker) {
				for _, b := range []look{{fg: reset, bg: reset}, {fg: red, bg: rgb}, {fg: reset, bg: reset, m: bento.ModifierAll}} {
					w.Case(func() string { return fmt.Sprintf("profile %d: two draws, %v then %v", p, a, b) }, func() string { return show(r, p, 1, []look{a}, []look{b}) })
					r.Trace(1)
				}
			}})
		}
	}
	r.Bound("4 colour profiles; every ordered pair of the 512 attribute sets in neighbouring cells; every ordered pair of %d colour pairs with 3 attribute sets (true colour and no colour; against %d looks on the others); %d looks with untouched cells between; all triples of those; all pairs of draws; all pairs of these %d looks as letters, blanks, full cells and with a combining mark", len(byColor), len(few), len(few), len(few))
	r.Assume("terminals keep one bit per attribute; SGR 22 ends bold and dim, 25 both kinds of blinking, 0 everything; termenv's own conversion decides what a profile makes of a colour")
	r.Parallel(len(jobs), func(w *vk.Worker, i int) {
		if r.Stop() {
			return
		}
		jobs[i].run(w)
		if i%500 == 3 {
			r.Sample(jobs[i].name)
		}
	})
	r.Finish()
}

package main

import (
	"fmt"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/textwidget"
)

// normal splits a text into lines: breaks at newlines, a carriage return before
// one dropped, one trailing newline dropped.
func normal(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	var out []string
	for _, l := range strings.Split(s, "\n") {
		out = append(out, strings.TrimSuffix(l, "\r"))
	}
	return out
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", s[:30], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func construct(r *vk.Run) {
	n := 5
	if r.Thorough {
		n = 7
	}
	alpha := []string{"a", "世", "\n", "\r\n", " ", "\u0301", "\u200b"}
	words := bx.Words(alpha, n)
	words = append(words, bx.Words([]string{"👩\u200d🚀", "🇩🇪", "1\ufe0f\u20e3❤\ufe0f", "\n", "a"}, 4)...)
	// long lines
	sizes := []int{}
	for p := 6; p <= 17; p++ {
		for d := -2; d <= 2; d++ {
			sizes = append(sizes, 1<<p+d)
		}
	}
	var long []string
	for _, k := range sizes {
		x := strings.Repeat("x", k)
		long = append(long, x, "p\n"+x+"\nq", x+"\n"+x, strings.Repeat("y", k-1)+"世\nz")
	}
	all := append(words, long...)
	r.Bound("all strings of up to %d pieces over %q; lines of 2^k-2..2^k+2 bytes for k=6..17 alone and among others", n, alpha)
	r.Assume("widths are those of rivo/uniseg")
	r.Parallel(len(all), func(w *vk.Worker, i int) {
		s := all[i]
		w.Case(func() string { return "text " + short(s) }, func() string {
			r.Trans(5)
			want := normal(s)
			width := 0
			for _, l := range want {
				width = max(width, bx.Width(l))
			}
			joined := strings.Join(want, "\n")
			t := textwidget.NewTextStr(s)
			if t.String() != joined {
				return fmt.Sprintf("text reads %s", short(t.String()))
			}
			if t.Height() != len(want) || t.Width() != width {
				return fmt.Sprintf("height %d width %d, want %d and %d", t.Height(), t.Width(), len(want), width)
			}
			ls := textwidget.NewLinesStr(s)
			if ls.String() != joined || ls.Height() != len(want) || ls.Width() != width {
				return fmt.Sprintf("lines read %s, height %d, width %d", short(ls.String()), ls.Height(), ls.Width())
			}
			for k, l := range ls {
				if l.String() != want[k] || l.Width() != bx.Width(want[k]) {
					return fmt.Sprintf("line %d reads %s, width %d", k, short(l.String()), l.Width())
				}
			}
			if l := textwidget.NewLineStr(s); l.String() != strings.Join(want, "") {
				return fmt.Sprintf("line reads %s", short(l.String()))
			}
			if sp := textwidget.NewSpan(s); sp.String() != s || sp.Width() != bx.Width(s) {
				return fmt.Sprintf("span reads %s width %d", short(sp.String()), sp.Width())
			}
			r.StateStr(joined)
			if len(s) < 200 && !strings.Contains(s, "\r") && !startsCombining(want) {
				// a buffer made from the lines shows them
				b := ls.NewBuffer()
				if b.Area() != bx.R(0, 0, width, len(want)) {
					return fmt.Sprintf("buffer area %v", b.Area())
				}
				for y, l := range want {
					if got, exp := bx.Row(&b, b.Area(), y), l+strings.Repeat(" ", width-bx.Width(l)); got != exp {
						return fmt.Sprintf("row %d of the buffer shows %q, want %q", y, got, exp)
					}
				}
			}
			return ""
		})
		r.Trace(1)
	})

	// several strings at once, appended lines and spans
	pieces := []string{"", "a", "世b", "x\ny", "z\n"}
	seqs := bx.Seqs(len(pieces), 4)
	r.Bound("all sequences of up to 4 of %q through every constructor and append operation", pieces)
	r.Parallel(len(seqs), func(w *vk.Worker, i int) {
		var ss []string
		for _, k := range seqs[i] {
			ss = append(ss, pieces[k])
		}
		w.Case(func() string { return fmt.Sprintf("sequence %q", ss) }, func() string {
			r.Trans(8)
			if got, want := textwidget.NewLinesStr(ss...).String(), strings.Join(normal(strings.Join(ss, "\n")), "\n"); got != want {
				return fmt.Sprintf("NewLinesStr reads %q, want %q", got, want)
			}
			base := textwidget.NewTextStr("base")
			if got, want := base.WithLinesStr(ss...).String(), strings.Join(append([]string{"base"}, normal(strings.Join(ss, "\n"))...), "\n"); got != want {
				return fmt.Sprintf("WithLinesStr reads %q, want %q", got, want)
			}
			var lines []textwidget.Line
			var spans []textwidget.Span
			var strs, one []string
			for _, s := range ss {
				lines = append(lines, textwidget.NewLineStr(s))
				strs = append(strs, strings.Join(normal(s), ""))
				spans = append(spans, textwidget.NewSpan(s))
				one = append(one, s)
			}
			if got, want := base.WithLines(lines...).String(), strings.Join(append([]string{"base"}, strs...), "\n"); got != want {
				return fmt.Sprintf("WithLines reads %q, want %q", got, want)
			}
			if got, want := textwidget.NewText(lines...).String(), strings.Join(strs, "\n"); got != want {
				return fmt.Sprintf("NewText reads %q, want %q", got, want)
			}
			if got, want := textwidget.NewLines(lines...).String(), strings.Join(strs, "\n"); got != want {
				return fmt.Sprintf("NewLines reads %q, want %q", got, want)
			}
			cat := strings.Join(one, "")
			l := textwidget.NewLine(textwidget.NewSpan("<"))
			for k, line := range []textwidget.Line{l.WithSpans(spans...), l.WithSpansStr(ss...), textwidget.NewLine(append([]textwidget.Span{textwidget.NewSpan("<")}, spans...)...)} {
				if line.String() != "<"+cat {
					return fmt.Sprintf("spans %d read %q, want %q", k, line.String(), "<"+cat)
				}
				if len(line.Spans) != len(ss)+1 {
					return fmt.Sprintf("spans %d: %d spans", k, len(line.Spans))
				}
				w := 1
				for _, s := range ss {
					w += bx.Width(s)
				}
				if line.Width() != w {
					return fmt.Sprintf("spans %d: width %d, want %d", k, line.Width(), w)
				}
			}
			// AppendTextSpans adds to the last line, or makes the first
			t := textwidget.NewTextStr("p\nq")
			textwidget.AppendTextSpans(&t, spans...)
			if t.String() != "p\nq"+cat {
				return fmt.Sprintf("AppendTextSpans: %q", t.String())
			}
			var empty textwidget.Text
			textwidget.AppendTextSpans(&empty, spans...)
			if empty.String() != cat || empty.Height() != 1 {
				return fmt.Sprintf("AppendTextSpans on an empty text: %q", empty.String())
			}
			// reading the base again: nothing changed
			if base.String() != "base" || l.String() != "<" {
				return "the value appended to changed"
			}
			r.StateStr(t.String())
			return ""
		})
		r.Trace(1)
	})
	_ = bento.AlignmentNone
}

// a combining mark or other zero-width grapheme of its own has no cell to be in
func startsCombining(lines []string) bool {
	for _, l := range lines {
		for _, g := range bx.Graphemes(l) {
			if g.W == 0 || g.S == "\u0301" || strings.HasPrefix(g.S, " \u0301") {
				return true
			}
		}
	}
	return false
}

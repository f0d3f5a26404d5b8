// Package vt is a terminal emulator: what a screen shows after a stream of bytes.
//
// It is written from ECMA-48 and xterm's control sequences, not from the code
// under test, knows every sequence an ANSI terminal program of this size could
// reasonably send, and reports what it does not know.
package vt

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// Attr are rendition bits, one for each attribute.
type Attr uint16

const (
	Bold Attr = 1 << iota
	Dim
	Italic
	Underline
	SlowBlink
	RapidBlink
	Reverse
	Hidden
	CrossedOut
	Other
)

// Color is -1 for the default, 0..255 for a palette entry, 1<<24|rgb for a direct colour.
type Color int

const Default Color = -1

type Pen struct {
	Fg, Bg Color
	Attr   Attr
}

var plain = Pen{Default, Default, 0}

// Cell is what one column of one row shows. The right half of a wide glyph has Glyph "".
type Cell struct {
	Glyph string
	Pen
}

type screen struct {
	cells []Cell
	x, y  int
	wrap  bool // the next glyph goes to the next line
}

type Term struct {
	W, H      int
	main, alt screen
	OnAlt     bool
	saved     screen // cursor of the main screen
	Visible   bool
	Paste     bool
	Pen       Pen
	Printed   int // glyphs printed so far
	Moves     int
	Err       string // the first thing that was not understood
	pending   []byte
	Log       []string
	KeepLog   bool
}

func New(w, h int) *Term {
	t := &Term{W: w, H: h, Visible: true, Pen: plain}
	t.main.cells = blank(w*h, plain)
	t.alt.cells = blank(w*h, plain)
	return t
}

func blank(n int, p Pen) []Cell {
	c := make([]Cell, n)
	for i := range c {
		c[i] = Cell{" ", Pen{Default, p.Bg, 0}}
	}
	return c
}

func (t *Term) cur() *screen {
	if t.OnAlt {
		return &t.alt
	}
	return &t.main
}

func (t *Term) fail(format string, a ...any) {
	if t.Err == "" {
		t.Err = fmt.Sprintf(format, a...)
	}
}

// At is the cell shown at a column and row.
func (t *Term) At(x, y int) Cell { return t.cur().cells[y*t.W+x] }

func (t *Term) Cursor() (int, int) { return t.cur().x, t.cur().y }

// Main is a copy of the main screen.
func (t *Term) Main() []Cell { return append([]Cell(nil), t.main.cells...) }

// Resize changes the size; every cell then shows junk, as terminals reflow as they like.
func (t *Term) Resize(w, h int, junk Cell) {
	t.W, t.H = w, h
	for _, s := range []*screen{&t.main, &t.alt} {
		s.cells = make([]Cell, w*h)
		for i := range s.cells {
			s.cells[i] = junk
		}
		s.x, s.y, s.wrap = min(s.x, max(0, w-1)), min(s.y, max(0, h-1)), false
	}
}

func (t *Term) Write(p []byte) (int, error) {
	b := p
	if len(t.pending) > 0 {
		b = append(t.pending, p...)
		t.pending = nil
	}
	for len(b) > 0 {
		n := t.step(b)
		if n == 0 {
			t.pending = append([]byte(nil), b...)
			break
		}
		if t.KeepLog {
			t.Log = append(t.Log, string(b[:n]))
		}
		b = b[n:]
	}
	return len(p), nil
}

// step handles one control sequence or glyph and returns its length, 0 if it is not complete yet.
func (t *Term) step(b []byte) int {
	s := t.cur()
	switch c := b[0]; {
	case c == 0x1b:
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case 0x1b:
			t.fail("sequence cut off: %q", b[:1])
			return 1
		case '[':
			for i := 2; i < len(b); i++ {
				if b[i] == 0x1b {
					t.fail("sequence cut off: %q", b[:i])
					return i
				}
				if b[i] >= 0x40 && b[i] <= 0x7e {
					t.csi(string(b[2:i]), b[i])
					return i + 1
				}
			}
			return 0
		case ']':
			for i := 2; i < len(b); i++ {
				if b[i] == 7 {
					return i + 1
				}
				if b[i] == '\\' && b[i-1] == 0x1b {
					return i + 1
				}
			}
			return 0
		}
		t.fail("unknown escape %q", b[:2])
		return 2
	case c == '\r':
		s.x, s.wrap = 0, false
		return 1
	case c == '\n':
		t.lineFeed()
		return 1
	case c == '\b':
		s.x, s.wrap = max(0, s.x-1), false
		return 1
	case c == 7:
		return 1
	case c < 0x20 || c == 0x7f:
		t.fail("control character %q", c)
		return 1
	default:
		if !utf8.FullRune(b) {
			return 0
		}
		r, n := utf8.DecodeRune(b)
		if r == utf8.RuneError && n == 1 {
			t.fail("invalid UTF-8 %q", b[:1])
		}
		if len(b) > n && b[n] >= 0x80 { // a glyph may be several characters
			end := n
			for end < len(b) && b[end] >= 0x20 && b[end] != 0x7f && (b[end] < 0x80 || utf8.FullRune(b[end:])) {
				_, k := utf8.DecodeRune(b[end:])
				end += k
			}
			g, _, _, _ := uniseg.FirstGraphemeCluster(b[:end], -1)
			n = max(n, len(g))
		}
		t.print(string(b[:n]))
		return n
	}
}

func (t *Term) lineFeed() {
	s := t.cur()
	s.wrap = false
	if s.y < t.H-1 {
		s.y++
		return
	}
	copy(s.cells, s.cells[t.W:])
	copy(s.cells[(t.H-1)*t.W:], blank(t.W, t.Pen))
}

func (t *Term) print(g string) {
	s := t.cur()
	w := uniseg.StringWidth(g)
	if t.W == 0 || t.H == 0 {
		return
	}
	if w == 0 { // combines with the glyph before the cursor
		x := s.x - 1
		if s.wrap {
			x = s.x
		}
		if x >= 0 && s.cells[s.y*t.W+x].Glyph == "" {
			x--
		}
		if x >= 0 {
			s.cells[s.y*t.W+x].Glyph += g
		}
		return
	}
	t.Printed++
	if s.wrap || s.x+w > t.W {
		s.x = 0
		t.lineFeed()
	}
	if w > t.W {
		return
	}
	for i := 0; i < w; i++ {
		t.erase(s.x + i)
	}
	s.cells[s.y*t.W+s.x] = Cell{g, t.Pen}
	for i := 1; i < w; i++ {
		s.cells[s.y*t.W+s.x+i] = Cell{"", t.Pen}
	}
	if s.x += w; s.x >= t.W {
		s.x, s.wrap = t.W-1, true
	}
}

// erase makes room in a column: half of a wide glyph does not stay.
func (t *Term) erase(x int) {
	s := t.cur()
	row := s.cells[s.y*t.W : (s.y+1)*t.W]
	if row[x].Glyph == "" && x > 0 {
		row[x-1].Glyph = " "
	}
	if x+1 < t.W && row[x+1].Glyph == "" {
		row[x+1].Glyph = " "
	}
	row[x].Glyph = " "
}

func (t *Term) clear(from, to int) {
	s := t.cur()
	for i := max(0, from); i < min(to, len(s.cells)); i++ {
		if s.cells[i].Glyph == "" && i == from && i > 0 {
			s.cells[i-1].Glyph = " "
		}
		if i+1 == to && i+1 < len(s.cells) && s.cells[i+1].Glyph == "" {
			s.cells[i+1].Glyph = " "
		}
		s.cells[i] = Cell{" ", Pen{Default, t.Pen.Bg, 0}}
	}
}

func (t *Term) csi(params string, final byte) {
	s := t.cur()
	if strings.HasPrefix(params, "?") {
		for _, m := range strings.Split(params[1:], ";") {
			t.mode(m, final)
		}
		return
	}
	num := func(i, def int) int {
		ps := strings.Split(params, ";")
		if i >= len(ps) || ps[i] == "" {
			return def
		}
		n, err := strconv.Atoi(ps[i])
		if err != nil {
			t.fail("bad parameters %q", params)
		}
		return n
	}
	to := func(x, y int) {
		s.x, s.y, s.wrap = max(0, min(x, t.W-1)), max(0, min(y, t.H-1)), false
		t.Moves++
	}
	switch final {
	case 'H', 'f':
		y, x := max(1, num(0, 1)), max(1, num(1, 1))
		if x > t.W || y > t.H {
			t.fail("cursor moved to column %d, row %d of %dx%d", x, y, t.W, t.H)
		}
		to(x-1, y-1)
	case 'A':
		to(s.x, s.y-max(1, num(0, 1)))
	case 'B':
		to(s.x, s.y+max(1, num(0, 1)))
	case 'C':
		to(s.x+max(1, num(0, 1)), s.y)
	case 'D':
		to(s.x-max(1, num(0, 1)), s.y)
	case 'G':
		to(max(1, num(0, 1))-1, s.y)
	case 'd':
		to(s.x, max(1, num(0, 1))-1)
	case 'J':
		at := s.y*t.W + s.x
		switch num(0, 0) {
		case 0:
			t.clear(at, len(s.cells))
		case 1:
			t.clear(0, at+1)
		case 2, 3:
			t.clear(0, len(s.cells))
		}
	case 'K':
		at, row := s.y*t.W+s.x, s.y*t.W
		switch num(0, 0) {
		case 0:
			t.clear(at, row+t.W)
		case 1:
			t.clear(row, at+1)
		case 2:
			t.clear(row, row+t.W)
		}
	case 'X':
		at := s.y*t.W + s.x
		t.clear(at, min(at+max(1, num(0, 1)), (s.y+1)*t.W))
	case 'm':
		t.sgr(params)
	default:
		t.fail("unknown sequence CSI %q %q", params, final)
	}
}

func (t *Term) mode(m string, final byte) {
	on := final == 'h'
	if !on && final != 'l' {
		t.fail("unknown sequence CSI ?%s%c", m, final)
	}
	switch m {
	case "25":
		t.Visible = on
	case "2004":
		t.Paste = on
	case "1049", "1047", "47":
		if on && !t.OnAlt {
			t.saved = screen{x: t.main.x, y: t.main.y, wrap: t.main.wrap}
			t.alt = screen{cells: blank(t.W*t.H, t.Pen), x: t.main.x, y: t.main.y}
			t.OnAlt = true
		} else if !on && t.OnAlt {
			t.OnAlt = false
			t.main.x, t.main.y, t.main.wrap = t.saved.x, t.saved.y, t.saved.wrap
		}
	case "7", "12", "1000", "1002", "1003", "1004", "1006", "2026":
	default:
		t.fail("unknown mode ?%s%c", m, final)
	}
}

func (t *Term) sgr(params string) {
	ps := strings.Split(params, ";")
	p := &t.Pen
	flag := func(on bool, a Attr) {
		if on {
			p.Attr |= a
		} else {
			p.Attr &^= a
		}
	}
	for i := 0; i < len(ps); i++ {
		if strings.HasPrefix(ps[i], "4:") {
			flag(ps[i] != "4:0", Underline)
			continue
		}
		n := 0
		if ps[i] != "" {
			var err error
			if n, err = strconv.Atoi(ps[i]); err != nil {
				t.fail("bad rendition %q", params)
				return
			}
		}
		switch {
		case n == 0:
			*p = plain
		case n >= 1 && n <= 9:
			flag(true, []Attr{Bold, Dim, Italic, Underline, SlowBlink, RapidBlink, Reverse, Hidden, CrossedOut}[n-1])
		case n == 21: // double underline on most terminals
			flag(true, Underline)
		case n == 22:
			flag(false, Bold|Dim)
		case n == 23:
			flag(false, Italic)
		case n == 24:
			flag(false, Underline)
		case n == 25:
			flag(false, SlowBlink|RapidBlink)
		case n == 27:
			flag(false, Reverse)
		case n == 28:
			flag(false, Hidden)
		case n == 29:
			flag(false, CrossedOut)
		case n >= 30 && n <= 37:
			p.Fg = Color(n - 30)
		case n >= 90 && n <= 97:
			p.Fg = Color(n - 90 + 8)
		case n >= 40 && n <= 47:
			p.Bg = Color(n - 40)
		case n >= 100 && n <= 107:
			p.Bg = Color(n - 100 + 8)
		case n == 39:
			p.Fg = Default
		case n == 49:
			p.Bg = Default
		case n == 38 || n == 48:
			var c Color
			at := func(k int) int {
				if k >= len(ps) {
					t.fail("cut off rendition %q", params)
					return 0
				}
				v, err := strconv.Atoi(ps[k])
				if err != nil || v < 0 || v > 255 {
					t.fail("bad rendition %q", params)
				}
				return v
			}
			switch at(i + 1) {
			case 5:
				c = Color(at(i + 2))
				i += 2
			case 2:
				c = Color(1<<24 | at(i+2)<<16 | at(i+3)<<8 | at(i+4))
				i += 4
			default:
				t.fail("bad rendition %q", params)
				return
			}
			if n == 38 {
				p.Fg = c
			} else {
				p.Bg = c
			}
		default:
			flag(true, Other)
			t.fail("unknown rendition %d", n)
		}
	}
}

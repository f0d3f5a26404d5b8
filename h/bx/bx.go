// Package bx has helpers shared by the checks that look at buffers.
package bx

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// G is a grapheme with its width in cells.
type G struct {
	S string
	W int
}

// Graphemes splits a string; width by the Unicode tables (trusted).
func Graphemes(s string) []G {
	var out []G
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		out = append(out, G{g.Str(), g.Width()})
	}
	return out
}

// Width of a string in cells.
func Width(s string) int {
	n := 0
	for _, g := range Graphemes(s) {
		n += g.W
	}
	return n
}

// Words returns all concatenations of up to n letters, shortest first.
func Words(alphabet []string, n int) []string {
	out := []string{""}
	prev := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range prev {
			for _, a := range alphabet {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

// Seqs returns all sequences over [0,k) of length 0..n, shortest first.
func Seqs(k, n int) [][]int {
	out := [][]int{{}}
	prev := [][]int{{}}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, p := range prev {
			for a := 0; a < k; a++ {
				next = append(next, append(append([]int{}, p...), a))
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

// Pre is the style of the cells of a pre-filled buffer.
var Pre = bento.NewStyle().WithForeground(termenv.ANSIColor(3)).WithBackground(termenv.ANSIColor(4)).Underlined()

// Filled is a buffer whose cells all hold a recognisable content.
func Filled(area bento.Rect) bento.Buffer {
	c := bento.NewEmptyCell()
	c.SetSymbol("#").SetStyle(Pre)
	return bento.NewBufferFilled(area, c)
}

func PreCell() bento.Cell {
	c := bento.NewEmptyCell()
	c.SetSymbol("#").SetStyle(Pre)
	return c
}

// R makes a rectangle.
func R(x, y, w, h int) bento.Rect {
	return bento.Rect{Position: bento.Position{X: x, Y: y}, Width: w, Height: h}
}

// At reads a cell.
func At(b *bento.Buffer, x, y int) bento.Cell { return *b.CellAt(bento.Position{X: x, Y: y}) }

// Styled is the cell an empty cell becomes when styles are applied in turn.
func Styled(c bento.Cell, styles ...bento.Style) bento.Cell {
	for _, s := range styles {
		c.SetStyle(s)
	}
	return c
}

// Same compares two cells.
func Same(a, b bento.Cell) bool { return a == b }

// Row is the text of a row, a wide grapheme taking its following blanks away.
func Row(b *bento.Buffer, area bento.Rect, y int) string {
	var sb strings.Builder
	for x := area.X; x < area.X+area.Width; {
		s := At(b, x, y).Symbol
		sb.WriteString(s)
		x += max(1, Width(s))
	}
	return sb.String()
}

// Dump is a readable picture of a buffer.
func Dump(b *bento.Buffer) string {
	var sb strings.Builder
	a := b.Area()
	for y := a.Top(); y < a.Bottom(); y++ {
		sb.WriteByte('|')
		for x := a.Left(); x < a.Right(); x++ {
			s := At(b, x, y).Symbol
			if s == "" {
				s = "∅"
			}
			sb.WriteString(s)
			sb.WriteByte('|')
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

// Cells copies all cells of a buffer.
func Cells(b *bento.Buffer) []bento.Cell {
	a := b.Area()
	out := make([]bento.Cell, 0, a.Area())
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			out = append(out, At(b, x, y))
		}
	}
	return out
}

// Equal compares two buffers cell by cell.
func Equal(a, b *bento.Buffer) bool {
	if a.Area() != b.Area() {
		return false
	}
	ar := a.Area()
	for y := ar.Top(); y < ar.Bottom(); y++ {
		for x := ar.Left(); x < ar.Right(); x++ {
			p := bento.Position{X: x, Y: y}
			if *a.CellAt(p) != *b.CellAt(p) {
				return false
			}
		}
	}
	return true
}

// Diff describes the first different cell of two buffers of the same area.
func Diff(got, want *bento.Buffer) string {
	if got.Area() != want.Area() {
		return fmt.Sprintf("area %v, want %v", got.Area(), want.Area())
	}
	ar := got.Area()
	for y := ar.Top(); y < ar.Bottom(); y++ {
		for x := ar.Left(); x < ar.Right(); x++ {
			p := bento.Position{X: x, Y: y}
			if *got.CellAt(p) != *want.CellAt(p) {
				return fmt.Sprintf("cell (%d,%d) is %s, want %s; got\n%swant\n%s", x, y, CellString(*got.CellAt(p)), CellString(*want.CellAt(p)), Dump(got), Dump(want))
			}
		}
	}
	return ""
}

// Hash of all symbols and modifiers, for state counting.
func Hash(b *bento.Buffer) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range Cells(b) {
		for i := 0; i < len(c.Symbol); i++ {
			h = (h ^ uint64(c.Symbol[i])) * 1099511628211
		}
		h = (h ^ uint64(c.Modifier) ^ 0xabcd) * 1099511628211
	}
	return h
}

// Hashable is a compact text of all cells, for state counting.
func Hashable(b *bento.Buffer) string {
	var sb strings.Builder
	fmt.Fprint(&sb, b.Area())
	for _, c := range Cells(b) {
		fmt.Fprint(&sb, c.Symbol, c.Fg, c.Bg, uint16(c.Modifier), c.Skip, ";")
	}
	return sb.String()
}

// CellString describes a cell.
func CellString(c bento.Cell) string {
	return fmt.Sprintf("{%q fg=%v bg=%v mod=%b skip=%v}", c.Symbol, c.Fg, c.Bg, uint16(c.Modifier), c.Skip)
}

// Excerpt places the graphemes of a text on a row of the given width: skip cells
// of it are left of the row. It returns, per visible grapheme, its column; half
// is the column of a blank half of a grapheme cut at the left, -1 if none.
func Excerpt(gs []G, skip, width int) (cols []int, from int, half int) {
	x := -skip
	half = -1
	from = len(gs)
	for i, g := range gs {
		if x < 0 {
			if x+g.W > 0 {
				half = 0
			}
			x += g.W
			continue
		}
		if x+g.W > width {
			break
		}
		if from == len(gs) {
			from = i
		}
		cols = append(cols, x)
		x += g.W
	}
	return cols, from, half
}

// Deep is a text of a value that follows pointers and sees unexported fields.
func Deep(v any) string {
	var sb strings.Builder
	deep(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func deep(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			sb.WriteString(v.Elem().Type().String())
		}
		deep(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			deep(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			deep(sb, v.Index(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	case reflect.Map:
		fmt.Fprintf(sb, "map%d", v.Len())
	default:
		fmt.Fprintf(sb, "%s@%v", v.Kind(), v.IsNil())
	}
}

// C07: the screen shows the last frame. C08: every glyph in its own rendition.
package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"unsafe"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vt"
	"github.com/muesli/termenv"
)

func main() {
	switch os.Getenv("VERIF_PROP") {
	case "C07":
		frames()
	case "C08":
		renditions()
	}
}

// backend is the default backend writing to an emulated terminal.
type backend struct {
	*bento.DefaultBackend
	term *vt.Term
}

func (b backend) GetSize() (bento.Size, bool, error) {
	return bento.Size{Width: b.term.W, Height: b.term.H}, true, nil
}

func newBackend(t *vt.Term, p termenv.Profile) backend {
	d := bento.NewDefaultBackend(strings.NewReader(""), t)
	v := reflect.ValueOf(&d).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeFor[termenv.Profile]() {
			*(*termenv.Profile)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = p
			return backend{&d, t}
		}
	}
	fmt.Println("the default backend has no colour profile any more: adapt h/c/screen")
	os.Exit(3)
	panic("")
}

var bits = []struct {
	m bento.Modifier
	a vt.Attr
}{
	{bento.ModifierBold, vt.Bold}, {bento.ModifierDim, vt.Dim}, {bento.ModifierItalic, vt.Italic}, {bento.ModifierUnderlined, vt.Underline},
	{bento.ModifierSlowBlink, vt.SlowBlink}, {bento.ModifierRapidBlink, vt.RapidBlink}, {bento.ModifierReversed, vt.Reverse}, {bento.ModifierHidden, vt.Hidden}, {bento.ModifierCrossedOut, vt.CrossedOut},
}

func attrOf(m bento.Modifier) (a vt.Attr) {
	for _, b := range bits {
		if m&b.m != 0 {
			a |= b.a
		}
	}
	return
}

// colorOf is what a profile makes of a colour.
func colorOf(p termenv.Profile, c bento.Color) vt.Color {
	if c == nil || p == termenv.Ascii {
		return vt.Default
	}
	switch v := p.Convert(c).(type) {
	case termenv.ANSIColor:
		return vt.Color(v)
	case termenv.ANSI256Color:
		return vt.Color(v)
	case termenv.RGBColor:
		var a, b, d int
		if _, err := fmt.Sscanf(v.Sequence(false), "38;2;%d;%d;%d", &a, &b, &d); err == nil {
			return vt.Color(1<<24 | a<<16 | b<<8 | d)
		}
	}
	return vt.Default
}

func penOf(p termenv.Profile, c bento.Cell) vt.Pen {
	return vt.Pen{Fg: colorOf(p, c.Fg), Bg: colorOf(p, c.Bg), Attr: attrOf(c.Modifier)}
}

// painter is a widget made of a function.
type painter func(area bento.Rect, b *bento.Buffer)

func (p painter) Render(area bento.Rect, b *bento.Buffer) { p(area, b) }

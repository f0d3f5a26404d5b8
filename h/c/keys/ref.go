package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/metafates/bento"
)

// item is a message as text; consecutive plain text is merged.
type item struct {
	s    string
	text bool
	or   string // what may stand here as well
}

func keyItem(k bento.Key) item {
	if k.Type == bento.KeyRunes && !k.Alt && !k.Paste {
		return item{s: string(k.Runes), text: true}
	}
	return item{s: fmt.Sprintf("key %d %q alt=%v paste=%v", k.Type, k.Runes, k.Alt, k.Paste)}
}

// anyMouse stands for some mouse event: the report has a code or a place that no terminal sends.
const anyMouse = "some mouse event"

func mouseItem(m bento.MouseEvent) item {
	return item{s: fmt.Sprintf("mouse %d,%d button %d action %d shift=%v alt=%v ctrl=%v", m.X, m.Y, m.Button, m.Action, m.Shift, m.Alt, m.Ctrl)}
}

func byteItem(b byte) item  { return item{s: fmt.Sprintf("unknown byte %02x", b)} }
func csiItem(b []byte) item { return item{s: fmt.Sprintf("unknown sequence %q", b)} }

// observe turns a message of the code into an item.
func observe(m bento.Msg) item {
	switch m := m.(type) {
	case bento.KeyMsg:
		if s := nameOf(bento.Key(m)); m.String() != s {
			return item{s: fmt.Sprintf("key %d %q alt=%v paste=%v called %q instead of %q", m.Type, m.Runes, m.Alt, m.Paste, m.String(), s)}
		}
		return keyItem(bento.Key(m))
	case bento.MouseMsg:
		return mouseItem(bento.MouseEvent(m))
	case bento.FocusMsg:
		return item{s: "focus"}
	case bento.BlurMsg:
		return item{s: "blur"}
	case nil:
		return item{s: "nil message"}
	}
	v := reflect.ValueOf(m)
	switch {
	case v.Kind() == reflect.Uint8:
		return byteItem(byte(v.Uint()))
	case v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8:
		return csiItem(v.Bytes())
	case v.Kind() == reflect.String:
		return csiItem([]byte(v.String()))
	}
	return item{s: fmt.Sprintf("%T %+v", m, m)}
}

func merge(in []item) (out []item) {
	for _, i := range in {
		if n := len(out); i.text && n > 0 && out[n-1].text {
			out[n-1].s += i.s
			continue
		}
		out = append(out, i)
	}
	return
}

func (i item) String() string {
	if i.text {
		if len(i.s) > 40 {
			return fmt.Sprintf("text of %d bytes %.16q...%q", len(i.s), i.s, i.s[len(i.s)-16:])
		}
		return fmt.Sprintf("text %q", i.s)
	}
	return i.s
}

func same(got, want []item) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if (got[i].s != want[i].s || got[i].text != want[i].text) && (want[i].or == "" || got[i].s != want[i].or) && !(want[i].or == anyMouse && strings.HasPrefix(got[i].s, "mouse ")) {
			return false
		}
	}
	return true
}

func list(is []item) string {
	var s []string
	if len(is) > 12 {
		return fmt.Sprintf("%s; ... (%d more); %s", list(is[:2]), len(is)-8, list(is[len(is)-6:]))
	}
	for _, i := range is {
		s = append(s, i.String())
	}
	return strings.Join(s, "; ")
}

var (
	csiRe  = regexp.MustCompile(`^\x1b\[[0-?]*[ -/]*[@-~]`)
	sgrRe  = regexp.MustCompile(`^\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])`)
	table  = map[string]bento.Key{}
	longer int
)

func init() {
	for _, k := range keyTable {
		key := bento.Key{Type: k.key, Alt: k.alt}
		table[k.seq] = key
		if !k.alt {
			key.Alt = true
			table["\x1b"+k.seq] = key
		}
	}
	for b := 1; b < 128; b++ {
		if (b < 32 && b != 27) || b == 127 {
			table[string([]byte{byte(b)})] = bento.Key{Type: bento.KeyType(b)}
			table[string([]byte{27, byte(b)})] = bento.Key{Type: bento.KeyType(b), Alt: true}
		}
	}
	table[" "] = bento.Key{Type: bento.KeySpace, Runes: []rune{' '}}
	table["\x1b "] = bento.Key{Type: bento.KeySpace, Runes: []rune{' '}, Alt: true}
	table["\x1b\x1b"] = bento.Key{Type: bento.KeyEscape, Alt: true}
	for s := range table {
		longer = max(longer, len(s))
	}
}

// button decodes a button code as xterm defines it.
func button(code int) bento.MouseEvent {
	m := bento.MouseEvent{Shift: code&4 != 0, Alt: code&8 != 0, Ctrl: code&16 != 0}
	low := code & 3
	switch {
	case code >= 128:
		m.Button = []bento.MouseButton{bento.MouseButtonBackward, bento.MouseButtonForward, bento.MouseButton10, bento.MouseButton11}[low]
	case code&64 != 0:
		m.Button = []bento.MouseButton{bento.MouseButtonWheelUp, bento.MouseButtonWheelDown, bento.MouseButtonWheelLeft, bento.MouseButtonWheelRight}[low]
		return m // pressed, never released or moved
	case low == 3:
		m.Button, m.Action = bento.MouseButtonNone, bento.MouseActionRelease
	default:
		m.Button = []bento.MouseButton{bento.MouseButtonLeft, bento.MouseButtonMiddle, bento.MouseButtonRight}[low]
	}
	if code&32 != 0 {
		m.Action = bento.MouseActionMotion
	}
	return m
}

// decode is the reference: the messages of one uncut stretch of input, and the
// bytes of a paste that has not ended yet.
func decode(b []byte) (out []item, rest []byte) {
	for len(b) > 0 {
		it, n := one(b)
		if n == 0 {
			return out, b
		}
		out = append(out, it)
		b = b[n:]
	}
	return out, nil
}

func one(b []byte) (item, int) {
	n := 0
	for n < len(b) && b[n] > ' ' && b[n] < 127 {
		n++
	}
	if n > 0 {
		return item{s: string(b[:n]), text: true}, n
	}
	if bytes.HasPrefix(b, []byte("\x1b[M")) && len(b) >= 6 {
		m := button(int(b[3]) - 32)
		m.X, m.Y = int(b[4])-33, int(b[5])-33
		it := mouseItem(m)
		if b[3] < 32 || b[3] >= 224 || b[4] < 33 || b[5] < 33 {
			it.or = anyMouse
		}
		return it, 6
	}
	if g := sgrRe.FindSubmatch(b); g != nil {
		code, _ := strconv.Atoi(string(g[1]))
		m := button(code)
		x, _ := strconv.Atoi(string(g[2]))
		y, _ := strconv.Atoi(string(g[3]))
		m.X, m.Y = x-1, y-1
		wheel := code < 128 && code&64 != 0
		if string(g[4]) == "m" && !wheel && m.Action != bento.MouseActionMotion {
			m.Action = bento.MouseActionRelease
		}
		it := mouseItem(m)
		if code >= 192 || x < 1 || y < 1 {
			it.or = anyMouse
		}
		return it, len(g[0])
	}
	if start := []byte("\x1b[200~"); bytes.HasPrefix(b, start) {
		i := bytes.Index(b, []byte("\x1b[201~"))
		if i < 0 {
			return item{}, 0
		}
		return pasteItem(b[len(start):i]), i + 6
	}
	for n := min(longer, len(b)); n > 0; n-- {
		k, ok := table[string(b[:n])]
		if !ok {
			continue
		}
		if n == 2 && b[1] == 27 && csiRe.Match(b[1:]) {
			return keyItem(bento.Key{Type: bento.KeyEscape}), 1
		}
		return keyItem(k), n
	}
	if bytes.HasPrefix(b, []byte("\x1b[I")) {
		return item{s: "focus"}, 3
	}
	if bytes.HasPrefix(b, []byte("\x1b[O")) {
		return item{s: "blur"}, 3
	}
	if g := csiRe.Find(b); g != nil {
		return csiItem(g), len(g)
	}
	if b[0] == 0 {
		return keyItem(bento.Key{Type: bento.KeyNull}), 1
	}
	if b[0] == 27 {
		if len(b) == 1 {
			return keyItem(bento.Key{Type: bento.KeyEscape}), 1
		}
		if b[1] == 0 {
			return keyItem(bento.Key{Type: bento.KeyNull, Alt: true}), 2
		}
		if r, n := utf8.DecodeRune(b[1:]); r != utf8.RuneError || n > 1 {
			return keyItem(bento.Key{Type: bento.KeyRunes, Runes: []rune{r}, Alt: true}), 1 + n
		}
		it := byteItem(27)
		it.or = keyItem(bento.Key{Type: bento.KeyEscape}).s
		return it, 1
	}
	if r, n := utf8.DecodeRune(b); r != utf8.RuneError || n > 1 {
		return item{s: string(r), text: true}, n
	}
	return byteItem(b[0]), 1
}

func pasteItem(b []byte) item {
	var rs, all []rune
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		if r != utf8.RuneError || n > 1 {
			rs = append(rs, r)
		}
		all = append(all, r)
		b = b[n:]
	}
	it := keyItem(bento.Key{Type: bento.KeyRunes, Runes: rs, Paste: true})
	it.or = keyItem(bento.Key{Type: bento.KeyRunes, Runes: all, Paste: true}).s
	return it
}

// expect is what a list of reads means: a read that fills the buffer does not
// end anything, every other one does.
func expect(reads [][]byte) []item {
	var out []item
	var cur []byte
	for i, r := range reads {
		cur = append(cur, r...)
		if len(r) == bufSize && i < len(reads)-1 {
			continue
		}
		var is []item
		is, cur = decode(cur)
		out = append(out, is...)
		cur = append([]byte{}, cur...)
	}
	if len(cur) > 0 { // a paste that does not end
		is, _ := decode(append(cur, "\x1b[201~"...))
		out = append(out, is...)
	}
	return merge(out)
}

// due is what must have been delivered before a read: at least n messages,
// and these, if the reads so far end in a boundary.
type due struct {
	n   int
	all []item
}

// expectBefore tells for each read what must have been delivered before it. A
// short read leaves only a paste that is not complete; after a read that fills
// the buffer what ends well before its end must have been delivered, but for the last message.
func expectBefore(reads [][]byte) []due {
	var ds []due
	var out []item
	var cur []byte
	for _, r := range reads {
		full := len(ds) > 0 && len(cur) > 0 && len(reads[len(ds)-1]) == bufSize
		switch {
		case full:
			is := out[:len(out):len(out)]
			for at := 0; at < len(cur); {
				it, w := one(cur[at:])
				if at += w; w == 0 || at > len(cur)-24 {
					break
				}
				is = append(is, it)
			}
			d := due{n: len(merge(is)) - 1}
			if bytes.Contains(cur[max(0, len(cur)-60):], []byte("\x1b\x1b")) {
				d.n = 0
			}
			ds = append(ds, d)
		default:
			ds = append(ds, due{n: len(merge(out)), all: merge(out)})
		}
		cur = append(cur, r...)
		if len(r) != bufSize {
			var is []item
			is, cur = decode(cur)
			out = append(out, is...)
			cur = append([]byte{}, cur...)
		}
	}
	return ds
}

// bufSize is the size of the decoder's reads.
var bufSize = func() int {
	n := 0
	bento.VerifReadInputs(context.Background(), make(chan bento.Msg, 8), probe(func(p []byte) { n = len(p) }))
	return n
}()

type probe func(p []byte)

func (f probe) Read(p []byte) (int, error) {
	f(p)
	return 0, io.EOF
}

// C25 and C26: the text input, all operation sequences until no new state
// appears (texts up to a length), against a plain text field.
package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/muesli/termenv"
)

var (
	cursorStyle = bento.NewStyle().WithForeground(termenv.ANSIColor(2)).Underlined()
	promptStyle = bento.NewStyle().Bold()
	placeStyle  = bento.NewStyle().Italic()
)

type op struct {
	name  string
	do    func(s *inputwidget.State) (handled, want bool)
	model func(m *model)
	check func(s *inputwidget.State, m model) string // nil for most
}

type model struct {
	text   []string
	cursor int
}

func (m *model) insert(gs ...string) {
	t := append([]string{}, m.text[:m.cursor]...)
	t = append(t, gs...)
	m.text = append(t, m.text[m.cursor:]...)
	m.cursor += len(gs)
}

func (m *model) cut(from int) {
	m.text = append(append([]string{}, m.text[:from]...), m.text[m.cursor:]...)
	m.cursor = from
}

func space(g string) bool { return strings.TrimSpace(g) == "" && g != "\u00a0" }

func (m *model) cutWord() {
	i := m.cursor
	for i > 0 && space(m.text[i-1]) {
		i--
	}
	for i > 0 && !space(m.text[i-1]) {
		i--
	}
	m.cut(i)
}

func key(name string, k bento.Key, want bool, f func(m *model)) op {
	return op{"key " + name, func(s *inputwidget.State) (bool, bool) {
		_, ok := s.TryUpdate(bento.KeyMsg(k))
		return ok, want
	}, f, nil}
}

func call(name string, f func(s *inputwidget.State), g func(m *model)) op {
	return op{name, func(s *inputwidget.State) (bool, bool) { f(s); return true, true }, g, nil}
}

func typed(gs ...string) op {
	k := bento.Key{Type: bento.KeyRunes, Runes: []rune(strings.Join(gs, ""))}
	if len(gs) == 1 && gs[0] == " " {
		k.Type = bento.KeySpace
	}
	k.Paste = len(gs) > 1
	return key(fmt.Sprintf("%q", strings.Join(gs, "")), k, true, func(m *model) { m.insert(gs...) })
}

func nop(*model) {}

func editOps() []op {
	left := func(m *model) { m.cursor = max(0, m.cursor-1) }
	right := func(m *model) { m.cursor = min(len(m.text), m.cursor+1) }
	begin := func(m *model) { m.cursor = 0 }
	end := func(m *model) { m.cursor = len(m.text) }
	back := func(m *model) { m.cut(max(0, m.cursor-1)) }
	ops := []op{
		typed("a"), typed(" "), typed("世"), typed("b", " ", "a"), typed("e\u0301", "\u00a0"), typed("👩\u200d🚀", "❤\ufe0f"),
		key("left", bento.Key{Type: bento.KeyLeft}, true, left),
		key("right", bento.Key{Type: bento.KeyRight}, true, right),
		key("ctrl+a", bento.Key{Type: bento.KeyCtrlA}, true, begin),
		key("ctrl+e", bento.Key{Type: bento.KeyCtrlE}, true, end),
		key("backspace", bento.Key{Type: bento.KeyBackspace}, true, back),
		key("ctrl+w", bento.Key{Type: bento.KeyCtrlW}, true, (*model).cutWord),
		call("DeleteLine", (*inputwidget.State).DeleteLine, func(m *model) { m.text, m.cursor = nil, 0 }),
		call("DeleteUnderCursor", (*inputwidget.State).DeleteUnderCursor, back),
		call("DeleteWordUnderCursor", (*inputwidget.State).DeleteWordUnderCursor, (*model).cutWord),
		call("MoveCursorLeft", (*inputwidget.State).MoveCursorLeft, left),
		call("MoveCursorRight", (*inputwidget.State).MoveCursorRight, right),
		call("MoveCursorBegin", (*inputwidget.State).MoveCursorBegin, begin),
		call("MoveCursorEnd", (*inputwidget.State).MoveCursorEnd, end),
		call("Append ab", func(s *inputwidget.State) { s.Append("ab") }, func(m *model) { m.insert("a", "b") }),
	}
	for _, k := range []bento.KeyType{bento.KeyEnter, bento.KeyTab, bento.KeyEsc, bento.KeyUp, bento.KeyDown, bento.KeyCtrlC, bento.KeyPgUp, bento.KeyF1, bento.KeyCtrlU} {
		ops = append(ops, key(k.String(), bento.Key{Type: k}, false, nop))
	}
	for _, m := range []bento.Msg{"text", nil, bento.MouseMsg{}, bento.WindowSizeMsg{}} {
		ops = append(ops, op{fmt.Sprintf("msg %T", m), func(s *inputwidget.State) (bool, bool) {
			_, ok := s.TryUpdate(m)
			return ok, false
		}, nop, nil})
	}
	return ops
}

type input struct {
	prompt      string
	placeholder string
	align       bento.Alignment
	vertical    int // 0 none, 1 top, 2 middle, 3 bottom
	block       bool
	hide        bool
}

func (c input) build() inputwidget.Input {
	w := inputwidget.New().WithCursorStyle(cursorStyle)
	if c.prompt != "" {
		w = w.WithPrompt(c.prompt).WithPromptStyle(promptStyle)
	}
	if c.placeholder != "" {
		w = w.WithPlaceholder(c.placeholder).WithPlaceholderStyle(placeStyle)
	}
	if c.align != bento.AlignmentNone && c.vertical > 0 { // the last choice counts
		w = []func() inputwidget.Input{nil, w.Right, w.Left, w.Center}[c.align]()
		w = []func() inputwidget.Input{nil, w.Middle, w.Bottom, w.Top}[c.vertical]()
	}
	w = []func() inputwidget.Input{func() inputwidget.Input { return w }, w.Left, w.Center, w.Right}[c.align]()
	w = []func() inputwidget.Input{func() inputwidget.Input { return w }, w.Top, w.Middle, w.Bottom}[c.vertical]()
	if c.block {
		w = w.WithBlock(blockwidget.New().Bordered())
	}
	return w
}

type piece struct {
	g     bx.G
	style bento.Style
}

// expected paints what must be shown; first and last choose the excerpt, lean
// the rounding of the centre. ok is false when the area has no room.
func (c input) expected(b *bento.Buffer, area bento.Rect, m model, first, last, lean int) (ok bool) {
	if c.block {
		bl := blockwidget.New().Bordered()
		bl.Render(area, b)
		area = bl.Inner(area)
	}
	if area.IsEmpty() {
		return true
	}
	var line []piece
	add := func(s string, st bento.Style, under bool) {
		for _, g := range bx.Graphemes(s) {
			p := piece{g, st}
			if under && !c.hide {
				p.style = p.style.Patched(cursorStyle)
			}
			line = append(line, p)
		}
	}
	add(c.prompt, promptStyle, false)
	if len(m.text) == 0 {
		if c.placeholder == "" && !c.hide {
			add(" ", bento.NewStyle(), true)
		}
		for i, g := range bx.Graphemes(c.placeholder) {
			add(g.S, placeStyle, i == 0)
		}
	} else {
		for i := first; i < last; i++ {
			add(m.text[i], bento.NewStyle(), i == m.cursor)
		}
		if m.cursor == len(m.text) && !c.hide {
			add(" ", bento.NewStyle(), true)
		}
	}
	width := 0
	for _, p := range line {
		width += p.g.W
	}
	if width > area.Width {
		if len(m.text) > 0 || c.align > bento.AlignmentLeft {
			return false
		}
	}
	x := area.X
	switch c.align {
	case bento.AlignmentCenter:
		x += (area.Width - width + lean%2) / 2
	case bento.AlignmentRight:
		x += area.Width - width
	}
	y := area.Y
	switch c.vertical {
	case 2:
		y += (area.Height - 1 + lean/2) / 2
	case 3:
		y += area.Height - 1
	}
	for _, p := range line {
		if x+p.g.W > area.Right() {
			break
		}
		b.CellAt(bento.NewPosition(x, y)).SetSymbol(p.g.S).SetStyle(p.style)
		for d := 1; d < p.g.W; d++ {
			b.CellAt(bento.NewPosition(x+d, y)).Reset()
		}
		x += p.g.W
	}
	return true
}

func (c input) check(s *inputwidget.State, m model, area bento.Rect) string {
	all := bx.R(area.X-1, area.Y-1, area.Width+2, area.Height+2)
	got := bx.Filled(all)
	s.ShowCursor(!c.hide)
	c.build().RenderStateful(area, &got, s)
	if s.String() != strings.Join(m.text, "") {
		return "rendering changed the text to " + s.String()
	}
	room := area.Width - bx.Width(c.prompt)
	if c.block {
		room -= 2
	}
	sum := make([]int, len(m.text)+1)
	for i, g := range m.text {
		sum[i+1] = sum[i] + bx.Width(g)
	}
	width := func(from, to int) int { return sum[to] - sum[from] }
	cw := 1
	if m.cursor < len(m.text) {
		cw = bx.Width(m.text[m.cursor])
	}
	n := len(m.text)
	msg := "no excerpt has room"
	for first := 0; first <= n; first++ {
		for last := first; last <= n; last++ {
			switch {
			case n == 0:
			case room < cw: // no room for the cursor: anything inside the area
				continue
			case first > m.cursor, m.cursor < n && last <= m.cursor, m.cursor == n && last < n:
				continue
			case m.cursor == n && width(first, last)+1 > room, width(first, last) > room:
				continue
			case width(0, n)+1 <= room && (first > 0 || last < n):
				continue
			case last < n && width(first, last+1)+1 <= room:
				continue
			case last == n && first > 0 && width(first-1, last)+1 <= room:
				continue
			}
			for lean := 0; lean < 4; lean++ {
				want := bx.Filled(all)
				if !c.expected(&want, area, m, first, last, lean) {
					continue
				}
				if d := bx.Diff(&got, &want); d == "" {
					return ""
				} else if msg[0] == 'n' {
					msg = d
				}
			}
		}
	}
	if msg[0] == 'n' || room < cw {
		for y := all.Top(); y < all.Bottom(); y++ {
			for x := all.Left(); x < all.Right(); x++ {
				if !area.Contains(bento.NewPosition(x, y)) && bx.At(&got, x, y) != bx.PreCell() {
					return "cell outside the area changed\n" + bx.Dump(&got)
				}
			}
		}
		return ""
	}
	return msg
}

type node struct {
	path []int
	m    model
}

func explore(r *vk.Run, each func(n int, f func(w *vk.Worker, i int)), title string, ops []op, maxLen, maxDepth int, final func(s *inputwidget.State, m model) string) {
	run := func(path []int) (msg string, m model, st string) {
		s := inputwidget.NewState()
		for k, i := range path {
			r.Trans(1)
			before := ""
			if k == len(path)-1 {
				before = bx.Deep(s)
			}
			got, want := ops[i].do(&s)
			ops[i].model(&m)
			if ops[i].check != nil {
				if msg := ops[i].check(&s, m); msg != "" {
					return msg, m, ""
				}
			}
			if got != want {
				return fmt.Sprintf("%s: handled %v, want %v", ops[i].name, got, want), m, ""
			}
			if !want && k == len(path)-1 && before != bx.Deep(s) {
				return "an unhandled message changed the state", m, ""
			}
			if s.String() != strings.Join(m.text, "") {
				return fmt.Sprintf("text %q, want %q", s.String(), strings.Join(m.text, "")), m, ""
			}
		}
		st = bx.Deep(s)
		if final != nil {
			msg = final(&s, m)
		}
		return msg, m, st
	}
	names := func(path []int) string {
		var out []string
		for _, i := range path {
			out = append(out, ops[i].name)
		}
		return title + strings.Join(out, ", ")
	}
	seen := map[string]bool{}
	var mu sync.Mutex
	level := []node{{}}
	for depth := 0; depth < maxDepth && len(level) > 0; depth++ {
		var next []node
		each(len(level), func(w *vk.Worker, j int) {
			n := level[j]
			for i := range ops {
				t := model{append([]string{}, n.m.text...), n.m.cursor}
				ops[i].model(&t)
				if len(t.text) > maxLen {
					continue
				}
				path := append(append([]int{}, n.path...), i)
				var m model
				var st string
				if !w.Case(func() string { return names(path) }, func() (msg string) { msg, m, st = run(path); return msg }) {
					return
				}
				k := fmt.Sprintf("%q %d %s", m.text, m.cursor, st)
				mu.Lock()
				if !seen[k] {
					seen[k] = true
					r.StateStr(title + k)
					next = append(next, node{path, m})
				}
				mu.Unlock()
			}
		})
		level = next
		if r.Stop() || r.Expired() {
			return
		}
	}
	if len(level) > 0 {
		r.Capped("%d states left at depth %d", len(level), maxDepth)
	}
	r.Trace(len(seen))
}

// long texts: sequences of operations on texts of many graphemes
func long(r *vk.Run, ops []op, c input, widths []int, depth int) {
	var starts []model
	for _, n := range []int{30, 127, 255, 256, 300} {
		var t []string
		for i := 0; i < n; i++ {
			t = append(t, []string{"a", "b", "世", " ", "c", "e\u0301", "👩\u200d🚀", "❤\ufe0f"}[(i+i/17)%8])
		}
		for _, cur := range []int{0, 1, n / 2, n - 1, n} {
			starts = append(starts, model{t, cur})
		}
	}
	r.Bound("%d texts of 30 to 300 graphemes and cursors, all sequences of up to %d of %d operations, rendered at widths %v", len(starts), depth, len(ops), widths)
	seqs := bx.Seqs(len(ops), depth)
	r.Parallel(len(starts)*len(widths), func(w *vk.Worker, i int) {
		m0, wd := starts[i/len(widths)], widths[i%len(widths)]
		for _, seq := range seqs {
			var names []string
			for _, k := range seq {
				names = append(names, ops[k].name)
			}
			w.Case(func() string {
				return fmt.Sprintf("%d graphemes, cursor %d, width %d: %s", len(m0.text), m0.cursor, wd, strings.Join(names, ", "))
			}, func() string {
				s := inputwidget.NewState()
				s.Append(strings.Join(m0.text, ""))
				for k := len(m0.text); k > m0.cursor; k-- {
					s.MoveCursorLeft()
				}
				m := model{append([]string{}, m0.text...), m0.cursor}
				area := bx.R(2, 1, wd, 1)
				if len(m0.text)%2 == 0 {
					if msg := c.check(&s, m, area); msg != "" {
						return "before: " + msg
					}
				}
				for _, k := range seq {
					r.Trans(1)
					if got, want := ops[k].do(&s); got != want {
						return fmt.Sprintf("%s: handled %v", ops[k].name, got)
					}
					ops[k].model(&m)
					if s.String() != strings.Join(m.text, "") {
						return fmt.Sprintf("after %s the text is %q, want %q", ops[k].name, s.String(), strings.Join(m.text, ""))
					}
				}
				r.StateStr(bx.Deep(s))
				return c.check(&s, m, area)
			})
		}
		r.Trace(1)
	})
}

func main() {
	prop := os.Getenv("VERIF_PROP")
	if prop == "C25" {
		r := vk.New("C25", 240*time.Second, 900*time.Second)
		n := 4
		if r.Thorough {
			n = 6
		}
		ops := editOps()
		r.Bound("all sequences of %d operations (typing and pasting of narrow, wide, combining and blank graphemes, all keys, all editing methods, unhandled messages) until no new state appears, text up to %d graphemes", len(ops), n)
		r.Assume("delete, home, end and word movement keys, alt with text and bare combining marks are left out")
		explore(r, r.Parallel, "", ops, n, 40, func(s *inputwidget.State, m model) string {
			return input{prompt: "> "}.check(s, m, bx.R(1, 1, 40, 1))
		})
		var some []op
		for _, o := range ops {
			switch o.name {
			case `key "世"`, `key "b a"`, "key left", "key right", "key ctrl+a", "key ctrl+e", "key backspace", "key ctrl+w", "DeleteLine":
				some = append(some, o)
			}
		}
		depth := 2
		if r.Thorough {
			depth = 3
		}
		long(r, some, input{prompt: "> "}, []int{700}, depth)
		r.Sample("ctrl+w after \"b c\", left: the text is \"c\"")
		r.Finish()
	}
	r := vk.New("C26", 240*time.Second, 900*time.Second)
	n := 4
	if r.Thorough {
		n = 6
	}
	var configs []input
	for _, p := range []string{"", "> ", "世"} {
		for _, pl := range []string{"", "type", "世界"} {
			for _, al := range []bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight} {
				v := len(configs) % 4
				configs = append(configs, input{prompt: p, placeholder: pl, align: al, vertical: v, block: len(configs)%3 == 0, hide: len(configs)%5 == 4})
			}
		}
	}
	var moves []op
	for _, o := range editOps() {
		switch o.name {
		case `key "世"`, "key left", "key right", "key ctrl+a", "key ctrl+e", "key backspace", "key ctrl+w":
			moves = append(moves, o)
		}
	}
	long(r, moves, input{prompt: "> ", placeholder: "type", align: bento.AlignmentLeft}, []int{10, 80, 130, 257, 340, 420}, 2)
	deep := configs
	if !r.Thorough {
		deep = nil
		for i, c := range configs {
			if i%5 == 0 || c.align == bento.AlignmentLeft {
				deep = append(deep, c)
			}
		}
	}
	for v, al := range []bento.Alignment{bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight} {
		configs = append(configs, input{prompt: "👩\u200d🚀❤\ufe0f> ", placeholder: "🇩🇪type", align: al, vertical: v, block: v == 1})
	}
	widths := []int{0, 1, 2, 3, 4, 5, 6, 9}
	r.Bound("all sequences of typing (3 letters, one of them a blank or a combination), left, right, begin, end, backspace, ctrl+w, clearing and renders at widths %v until no new state appears, text up to %d graphemes, %d inputs (prompt, placeholder, alignment, block)", widths, n, len(deep))
	r.Bound("all %d inputs with all texts up to 4 graphemes and cursors, all widths 0-9 and heights 0-4", len(configs))
	r.Assume("what is shown of an input whose area has no room for prompt and cursor is not compared (only that nothing outside the area changes)")
	texts := bx.Words([]string{"a", " ", "世", "e\u0301"}, 4)
	texts = append(texts, bx.Words([]string{"a", "b", "c"}, 4)[1:]...)
	texts = append(texts, bx.Words([]string{"a", "👩\u200d🚀", "🇩🇪", "1\ufe0f\u20e3", "❤\ufe0f"}, 3)[1:]...)
	r.Bound("prompts of up to 4 glyphs (6 cells)")
	r.Parallel(len(deep)+len(configs), func(w *vk.Worker, i int) {
		if i >= len(deep) {
			c := configs[i-len(deep)]
			for _, t := range texts {
				gs := bx.Graphemes(t)
				for cur := 0; cur <= len(gs); cur++ {
					for height := 0; height <= 4; height++ {
						for width := 0; width <= 9; width++ {
							if height != 1 && height != 3 && len(gs) > 1 {
								continue
							}
							w.Case(func() string { return fmt.Sprintf("%+v text %q cursor %d area %dx%d", c, t, cur, width, height) }, func() string {
								s := inputwidget.NewState()
								s.Append(t)
								var m model
								for _, g := range gs {
									m.insert(g.S)
								}
								for m.cursor > cur {
									m.cursor--
									s.MoveCursorLeft()
								}
								r.Trans(1)
								return c.check(&s, m, bx.R(2, 1, width, height))
							})
						}
					}
				}
			}
			return
		}
		c := deep[i]
		var ops []op
		for _, o := range editOps() {
			switch o.name {
			case `key "a"`, `key "世"`, "key left", "key right", "key ctrl+a", "key ctrl+e", "key backspace", "key ctrl+w", "DeleteLine":
				ops = append(ops, o)
			}
		}
		ops = append(ops, typed([]string{"b", " ", "e\u0301", "❤\ufe0f"}[i%4]))
		extra := 0
		if c.block {
			extra = 2
		}
		for _, wd := range widths {
			area := bx.R(2, 1, wd+extra, 1+extra)
			o := call(fmt.Sprintf("render %d", area.Width), func(s *inputwidget.State) {}, nop)
			o.check = func(s *inputwidget.State, m model) string { return c.check(s, m, area) }
			ops = append(ops, o)
		}
		each := func(n int, f func(w *vk.Worker, i int)) {
			for k := 0; k < n && !r.Stop() && !r.Expired(); k++ {
				f(w, k)
			}
		}
		explore(r, each, fmt.Sprintf("%+v: ", c), ops, n, 60, nil)
		r.Sample(fmt.Sprintf("%+v", c))
	})
	r.Finish()
}

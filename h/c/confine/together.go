package main

import (
	"bytes"
	"context"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/internal/zzverif/vs"
	"github.com/metafates/bento/internal/zzverif/vx"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/muesli/termenv"
)

// op is something a program does that shares nothing with the others.
type op struct {
	name string
	kind string
	run  func() string
}

func (o op) result() (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v", p)
		}
	}()
	return o.run()
}

type outBackend struct{ *bento.DefaultBackend }

func (outBackend) GetSize() (bento.Size, bool, error) {
	return bento.Size{Width: 12, Height: 4}, true, nil
}

func newOut(b *bytes.Buffer) bento.TerminalBackend {
	d := bento.NewDefaultBackend(strings.NewReader(""), b)
	v := reflect.ValueOf(&d).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeFor[termenv.Profile]() {
			*(*termenv.Profile)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = termenv.TrueColor
		}
	}
	return outBackend{&d}
}

// session draws frames on a terminal of its own.
func session(ws ...bento.Widget) string {
	var b bytes.Buffer
	t, err := bento.NewTerminal(newOut(&b), bento.ViewportFullscreen{})
	if err != nil {
		return err.Error()
	}
	for _, w := range ws {
		if _, err := t.Draw(w); err != nil {
			return err.Error()
		}
	}
	return b.String()
}

type piece struct{ parts []string }

func (p *piece) Read(b []byte) (int, error) {
	if len(p.parts) == 0 {
		return 0, os.ErrClosed
	}
	n := copy(b, p.parts[0])
	p.parts = p.parts[1:]
	return n, nil
}

func decode(parts ...string) string {
	msgs := make(chan bento.Msg, 64)
	err := bento.VerifReadInputs(context.Background(), msgs, &piece{parts: parts})
	var b strings.Builder
	for len(msgs) > 0 {
		m := <-msgs
		fmt.Fprintf(&b, "%T %+v %v\n", m, m, m)
	}
	return b.String() + fmt.Sprint(err)
}

func ops(thorough bool) []op {
	var out []op
	per := 12
	if thorough {
		per = 40
	}
	byKind := map[string][]subject{}
	var kinds []string
	for _, s := range subjects(false) {
		k, _, _ := strings.Cut(s.name, " ")
		if byKind[k] == nil {
			kinds = append(kinds, k)
		}
		byKind[k] = append(byKind[k], s)
	}
	for _, k := range kinds {
		l := byKind[k]
		n := min(per, len(l))
		for i := 0; i < n; i++ {
			s := l[i*stride(len(l))%len(l)]
			a := []bento.Rect{bx.R(1, 1, 11, 4), bx.R(0, 0, 8, 2), bx.R(2, 0, 17, 5)}[i%3]
			out = append(out, op{fmt.Sprintf("%s in %v", s.name, a), k, func() string {
				b := bx.Filled(bx.R(0, 0, 20, 6))
				s.make()(a, &b)
				h := fnv.New64a()
				for _, c := range bx.Cells(&b) {
					h.Write([]byte(bx.CellString(c)))
				}
				return fmt.Sprintf("%x\n%s", h.Sum64(), bx.Dump(&b))
			}})
		}
	}
	text := func(s string, st bento.Style) bento.Widget { return textwidget.NewTextStr(s).WithStyle(st) }
	for i, s := range []string{"hello 世界", "e\u0301x\ny", "", "aaaaaaaaaaaaaaaa\nb", "👩‍👩‍👧 z"} {
		out = append(out, op{fmt.Sprintf("frames %d", i), "terminal", func() string {
			return session(text(s, stRed), text("other\n"+s, stBlue), text(s, bento.NewStyle().WithForeground(termenv.RGBColor("#102030")).Reversed()))
		}})
		out = append(out, op{fmt.Sprintf("measure %d", i), "text", func() string {
			t := textwidget.NewTextStr(s)
			l := textwidget.NewLineStr(s)
			return fmt.Sprint(t.Width(), t.Height(), l.Width(), bx.Deep(t), bx.Deep(l), bx.Deep(textwidget.NewSpan(s).WithStyle(stRed)), s)
		}})
		out = append(out, op{fmt.Sprintf("print %d", i), "buffer", func() string {
			b := bx.Filled(bx.R(1, 1, 9, 2))
			b.SetString(2, 1, s, stRed)
			b.SetStringN(1, 2, s, 3, stBlue)
			c := bx.Filled(bx.R(1, 1, 9, 2))
			return bx.Dump(&b) + bx.Hashable(&b) + fmt.Sprintf("%+v", c.Diff(&b))
		}})
	}
	for _, in := range [][]string{{"abc", "\x1b[A\x1b[1;5D", "q"}, {"\x1b[<0;3;4M\x1b[<0;3;4m", "\x1b[<64;1;1M"}, {"\x1b[200~pas", "ted\x1b[201~x"}, {"\x1b[Z\x1bO\x01", "世界", "\x1b", "a"}, {"\x1b[M !!", "\x1b[I"}} {
		out = append(out, op{fmt.Sprintf("input %q", in), "decoder", func() string { return decode(in...) }})
	}
	st := []bento.Style{stRed, stBlue, stOff, bento.NewStyle(), bento.NewStyle().WithForeground(termenv.RGBColor("#fff")).WithoutModifier(bento.ModifierBold)}
	for i := range st {
		out = append(out, op{fmt.Sprintf("styles %d", i), "style", func() string {
			s := st[i].Patched(st[(i+1)%len(st)])
			c := bento.NewCell("x")
			c.SetStyle(s)
			return bx.Deep(s) + bx.CellString(c)
		}})
		k := bento.Key{Type: []bento.KeyType{bento.KeyUp, bento.KeyCtrlA, bento.KeySpace, bento.KeyF1, bento.KeyRunes}[i], Alt: i%2 == 1, Runes: []rune("é")}
		m := bento.MouseEvent{X: i, Y: 2, Button: bento.MouseButton(i), Action: bento.MouseAction(i % 3), Ctrl: i%2 == 0}
		c := []bento.Constraint{bento.ConstraintLen(i), bento.ConstraintPercentage(10 * i), bento.ConstraintMin(i), bento.ConstraintFill(i), bento.ConstraintRatio{Num: 1, Den: i + 1}}[i]
		out = append(out, op{fmt.Sprintf("names %d", i), "names", func() string {
			return fmt.Sprintln(k, bento.KeyMsg(k), m, bento.MouseMsg(m), c)
		}})
		out = append(out, op{fmt.Sprintf("layout %d", i), "layout", func() string {
			l := bento.NewLayout(c, bento.ConstraintFill(1), bento.ConstraintLen(2)).WithFlex(bento.Flex(i)).WithSpacing(i % 2)
			return fmt.Sprint(l.Vertical().Split(bx.R(1, 2, 20, 11)), l.Horizontal().Split(bx.R(0, 0, 33, 3)))
		}})
	}
	return out
}

// stride is a number without a common factor with n, near its golden section.
func stride(n int) int {
	for s := n * 618 / 1000; s > 1; s-- {
		a, b := n, s
		for b != 0 {
			a, b = b, a%b
		}
		if a == 1 {
			return s
		}
	}
	return 1
}

// salted operations work on contents that nothing in the process has seen before.
type salted struct {
	name string
	run  func(salt string) string
}

const saltLetters = "αβγδεζηθικλμνξοπρτυφχψω"

func salt(n int) string {
	ls := []rune(saltLetters)
	var out []rune
	for i := 0; i < 5; i++ {
		k := n % len(ls)
		n /= len(ls)
		out = append(out, ls[k])
		ls = append(ls[:k:k], ls[k+1:]...)
	}
	return string(out)
}

// unsalt makes results for different salts alike: letters of the salt become
// digits, those of another one stand out.
func unsalt(s, salt string) string {
	ls := []rune(salt)
	return strings.Map(func(c rune) rune {
		if strings.ContainsRune(saltLetters, c) {
			for i, l := range ls {
				if l == c {
					return rune('0' + i)
				}
			}
			return '!'
		}
		return c
	}, s)
}

func saltedOps() (out []salted) {
	draw := func(name string, mk func(salt string) drawFn) {
		out = append(out, salted{name, func(salt string) string {
			b := bx.Filled(bx.R(0, 0, 16, 4))
			mk(salt)(bx.R(1, 0, 13, 4), &b)
			return bx.Dump(&b) + bx.Hashable(&b)
		}})
	}
	widget := func(name string, mk func(salt string) bento.Widget) {
		draw(name, func(salt string) drawFn {
			w := mk(salt)
			return func(a bento.Rect, b *bento.Buffer) { w.Render(a, b) }
		})
	}
	tx := func(s string) textwidget.Text { return textwidget.NewTextStr(s + " 世x\n" + s).WithStyle(stBlue) }
	widget("text", func(s string) bento.Widget { return tx(s).WithAlignment(bento.AlignmentRight) })
	widget("paragraph", func(s string) bento.Widget { return paragraphwidget.New(tx(s)).Wrapped().Center() })
	widget("cut paragraph", func(s string) bento.Widget { return paragraphwidget.New(tx(s + s + s)).Right() })
	widget("tabs", func(s string) bento.Widget {
		return tabswidget.New(textwidget.NewLineStr(s), textwidget.NewLineStr("b"+s)).Select(1).WithHighlightStyle(stRed)
	})
	widget("gauge", func(s string) bento.Widget { return gaugewidget.New().WithRatio(0.5).WithLabelStr(s) })
	widget("block", func(s string) bento.Widget {
		return blockwidget.New().Bordered().WithTitle(blockwidget.NewTitleStr(s).Center())
	})
	draw("list", func(s string) drawFn {
		l := listwidget.New(tx(s), tx("y"+s)).WithHighlightSymbol(s[:2]).WithHighlightStyle(stRed)
		st := listwidget.NewState()
		st.Select(1)
		return func(a bento.Rect, b *bento.Buffer) { l.RenderStateful(a, b, &st) }
	})
	draw("input", func(s string) drawFn {
		in := inputwidget.New().WithPrompt(s)
		st := inputwidget.NewState()
		st.Append(s + "世")
		st.MoveCursorLeft()
		return func(a bento.Rect, b *bento.Buffer) { in.RenderStateful(a, b, &st) }
	})
	out = append(out, salted{"terminal", func(s string) string { return session(tx(s), tx("z"+s)) }})
	out = append(out, salted{"decoder", func(s string) string { return decode(s, "\x1b[A", "x"+s) }})
	out = append(out, salted{"keys", func(s string) string {
		return fmt.Sprint(bento.Key{Type: bento.KeyRunes, Runes: []rune(s), Alt: true}, bento.KeyMsg{Type: bento.KeyRunes, Paste: true, Runes: []rune(s)})
	}})
	return out
}

var salts int

// saltedPair runs operations on new contents, the same for all or different ones.
func saltedPair(a, b salted, same bool, bound int) vx.Job {
	var want [2]string
	run := func(prefix []int, verbose bool) (*vs.Sched, string) {
		os := []salted{a, b}
		for i := range os {
			if want[i] == "" {
				salts++
				sl := salt(salts)
				want[i] = unsalt(os[i].run(sl), sl)
			}
		}
		sl := [2]string{}
		for i := range sl {
			if i == 0 || !same {
				salts++
			}
			sl[i] = salt(salts)
		}
		var got [2]string
		s := vs.Run(prefix, 400_000, verbose, func() {
			var wg vs.WaitGroup
			for i := range os {
				wg.Add(1)
				vs.Go(func() {
					defer wg.Done()
					got[i] = unsalt(os[i].run(sl[i]), sl[i])
				})
			}
			wg.Wait()
		})
		if !s.MainDone {
			return s, fmt.Sprint("they never end: ", s.Crash, s.Leftover())
		}
		if r := s.Races(); len(r) > 0 {
			return s, r[0]
		}
		for i := range os {
			if got[i] != want[i] {
				return s, fmt.Sprintf("%s gives\n%s\nnext to the other, but alone\n%s", os[i].name, clip(got[i]), clip(want[i]))
			}
		}
		return s, ""
	}
	warm := false
	return vx.Job{Key: fmt.Sprintf("new contents (the same: %v): %s with %s", same, a.name, b.name), Bound: bound, Run: func(prefix []int, verbose bool) (*vs.Sched, string) {
		if !warm {
			warm = true
			vs.QuietWalks = true
			if s, msg := run(nil, false); msg != "" {
				return s, msg
			}
		}
		return run(prefix, verbose)
	}}
}

func freshOp(i int) (string, error) {
	cmd := exec.Command(os.Args[0])
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_SHARD=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_FRESH=%d", i))
	out, err := cmd.Output()
	return string(out), err
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// pair runs operations in goroutines of their own.
func pair(key string, bound int, os ...op) vx.Job {
	want := make([]string, len(os))
	warm := false
	run := func(prefix []int, verbose bool) (*vs.Sched, string) {
		for i, o := range os {
			if want[i] == "" {
				want[i] = o.result()
			}
		}
		got := make([]string, len(os))
		s := vs.Run(prefix, 400_000, verbose, func() {
			var wg vs.WaitGroup
			for i := range os {
				wg.Add(1)
				vs.Go(func() {
					defer wg.Done()
					got[i] = os[i].result()
				})
			}
			wg.Wait()
		})
		if !s.MainDone {
			return s, fmt.Sprint("they never end: ", s.Crash, s.Leftover())
		}
		if r := s.Races(); len(r) > 0 {
			return s, r[0]
		}
		for i := range os {
			if got[i] != want[i] {
				return s, fmt.Sprintf("%s gives\n%s\nnext to the other, but alone\n%s", os[i].name, clip(got[i]), clip(want[i]))
			}
		}
		return s, ""
	}
	return vx.Job{Key: key, Bound: bound, Run: func(prefix []int, verbose bool) (*vs.Sched, string) {
		if !warm { // learns which maps are shared
			warm = true
			vs.QuietWalks = true
			run(nil, false)
		}
		return run(prefix, verbose)
	}}
}

func jobs(thorough bool) (out []vx.Job) {
	all := ops(thorough)
	bound := 1
	if thorough {
		bound = 2
	}
	so := saltedOps()
	for i, a := range so {
		out = append(out, saltedPair(a, a, true, bound), saltedPair(a, a, false, bound), saltedPair(a, so[(i+1)%len(so)], true, bound), saltedPair(a, so[(i+4)%len(so)], true, bound))
	}
	// ids given out at the same time
	for n := 2; n <= 3; n++ {
		out = append(out, vx.Job{Key: fmt.Sprintf("ids of throbbers made by %d goroutines", n), Bound: 4 - n + bound, Run: func(prefix []int, verbose bool) (*vs.Sched, string) {
			ids := make([][]int, n)
			s := vs.Run(prefix, 100_000, verbose, func() {
				var wg vs.WaitGroup
				for i := 0; i < n; i++ {
					wg.Add(1)
					vs.Go(func() {
						defer wg.Done()
						for k := 0; k < 2; k++ {
							st := throbberwidget.NewState()
							ids[i] = append(ids[i], st.ID())
						}
					})
				}
				wg.Wait()
			})
			if !s.MainDone {
				return s, fmt.Sprint("they never end: ", s.Crash, s.Leftover())
			}
			seen := map[int]bool{}
			for _, l := range ids {
				for _, id := range l {
					if seen[id] {
						return s, fmt.Sprintf("two throbbers have the same id: %v", ids)
					}
					seen[id] = true
				}
			}
			return s, ""
		}})
	}
	// within a kind: each with itself and with the next ones; between kinds: the first ones
	byKind := map[string][]op{}
	var kinds []string
	for _, o := range all {
		if byKind[o.kind] == nil {
			kinds = append(kinds, o.kind)
		}
		byKind[o.kind] = append(byKind[o.kind], o)
	}
	add := func(b int, os ...op) {
		var names []string
		for _, o := range os {
			names = append(names, o.name)
		}
		out = append(out, pair("together: "+strings.Join(names, " with "), b, os...))
	}
	for _, k := range kinds {
		l := byKind[k]
		for i := range l {
			add(bound, l[i], l[i])
			for _, d := range []int{1, 2, 5} {
				if j := (i + d) % len(l); j != i && len(l) > 1 {
					add(bound, l[i], l[j])
				}
			}
		}
	}
	for i, k := range kinds {
		for j, m := range kinds {
			if i == j {
				continue
			}
			a, b := byKind[k], byKind[m]
			add(bound, a[j%len(a)], b[i%len(b)])
		}
	}
	for i, k := range kinds {
		a, b := byKind[k], byKind[kinds[(i+1)%len(kinds)]]
		add(1, a[0], a[len(a)-1], b[0])
	}
	return out
}

// past does every operation after every other one, in one process per shard.
func past(w *vx.Shard, thorough bool) {
	all := ops(thorough)
	truth := make([]string, len(all))
	for i := range all {
		key := "past | " + strconv.Itoa(i)
		w.Begin(key)
		t, err := freshOp(i)
		if err != nil {
			w.Fail(key, all[i].name+": the process died: "+err.Error())
			return
		}
		truth[i] = t
	}
	w.End()
	vs.Native = true
	defer func() { vs.Native = false }()
	for d := 0; d < len(all); d++ {
		if d%w.N != w.I {
			continue
		}
		for i := range all {
			if w.Stop() {
				return
			}
			j := (i + d) % len(all)
			w.Begin(fmt.Sprintf("past | %d %d", i, j))
			for _, k := range []int{i, j} {
				if got := all[k].result(); got != truth[k] {
					w.Fail(fmt.Sprintf("past | %d %d", i, j), fmt.Sprintf("after %s, %s gives\n%s\nbut in a fresh process\n%s", all[i].name, all[k].name, clip(got), clip(truth[k])))
					return
				}
			}
			w.End()
			w.Count(1, 2, 1)
		}
	}
}

func together() {
	if f := os.Getenv("VERIF_FRESH"); f != "" {
		i, _ := strconv.Atoi(f)
		vs.Native = true
		fmt.Print(ops(vx.Tier())[i].result())
		os.Exit(0)
	}
	thorough := vx.Tier()
	vx.Sharded("C33", 200*time.Second, 2400*time.Second, func(r *vk.Run) {
		r.Bound("%d operations (widgets of every kind, texts, printing, styles, names, layouts, sessions of a terminal, decoding); all ordered pairs one after the other, compared with processes that did nothing else", len(ops(thorough)))
		r.Bound("%d programs of 2 or 3 goroutines, every execution with up to %d deviations from the default schedule", len(jobs(thorough)), map[bool]int{false: 1, true: 2}[thorough])
		r.Assume("goroutines interleave at synchronisation, at uses of package variables and of maps used by both, and at the %d statements that follow such a use; the statement is the unit", vs.Hot)
		r.Assume("values are not shared between the goroutines by the program itself")
	}, func(w *vx.Shard) {
		vs.QuietWalks = true
		part := os.Getenv("VERIF_PART")
		if part == "" || part == "past" {
			past(w, thorough)
		}
		if part == "" || part == "together" {
			for i, j := range jobs(thorough) {
				w.Explore(i, j)
			}
		}
	}, func(r *vk.Run, only string) {
		if rest, ok := strings.CutPrefix(only, "past | "); ok {
			all := ops(thorough)
			vs.Native = true
			for _, f := range strings.Fields(rest) {
				i, err := strconv.Atoi(f)
				if err != nil || i >= len(all) {
					return
				}
				want, _ := freshOp(i)
				if got := all[i].result(); got != want {
					r.Violation(only, fmt.Sprintf("%s gives\n%s\nbut in a fresh process\n%s", all[i].name, clip(got), clip(want)), nil)
				}
			}
			return
		}
		vx.Replay(r, jobs(thorough), only)
	})
}

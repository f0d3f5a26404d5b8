// C31: builders. All trees of derivations up to a size; after every step every
// value derived so far is observed again.
package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/bx"
	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/muesli/termenv"
)

// observe is everything a program can see of a value.
func observe(v any) string {
	area := bx.R(1, 1, 13, 5)
	b := bx.Filled(bx.R(0, 0, 15, 7))
	switch v := v.(type) {
	case bento.Style:
		c := bento.NewEmptyCell()
		d := bx.PreCell()
		return bx.CellString(bx.Styled(c, v)) + bx.CellString(bx.Styled(d, v))
	case bento.Padding, bento.Rect:
		return fmt.Sprintf("%+v", v)
	case bento.Layout:
		s, p := v.SplitWithSpacers(bx.R(1, 1, 6, 6))
		return fmt.Sprintf("%v %v", s, p)
	case blockwidget.Title:
		return observe(blockwidget.New().Bordered().WithTitle(v))
	case paragraphwidget.Wrap:
		return observe(paragraphwidget.NewStr("some words and more\n  to wrap").WithWrap(v))
	case textwidget.Line:
		v.Render(area, &b)
		return v.String() + fmt.Sprint(v.Width(), v.Alignment) + bx.Hashable(&b)
	case textwidget.Text:
		v.Render(area, &b)
		return v.String() + fmt.Sprint(v.Width(), v.Height()) + bx.Hashable(&b)
	case listwidget.List:
		s := listwidget.NewState()
		s.Select(1)
		v.RenderStateful(area, &b, &s)
		return bx.Hashable(&b)
	case inputwidget.Input:
		var s1, s2 inputwidget.State
		s1, s2 = inputwidget.NewState(), inputwidget.NewState()
		s2.Append("text")
		v.RenderStateful(bx.R(1, 1, 13, 3), &b, &s1)
		v.RenderStateful(bx.R(1, 4, 13, 3), &b, &s2)
		return bx.Hashable(&b)
	case throbberwidget.Throbber:
		v.RenderStateful(area, &b, throbberwidget.State{})
		return bx.Hashable(&b)
	case scrollwidget.Scroll:
		s := scrollwidget.NewState(5)
		v.RenderStateful(area, &b, s)
		return bx.Hashable(&b) + fmt.Sprint(v.Inner(area))
	case blockwidget.Block:
		v.Render(area, &b)
		return bx.Hashable(&b) + fmt.Sprint(v.Inner(area))
	case popupwidget.Popup:
		v.Render(area, &b)
		return bx.Hashable(&b) + fmt.Sprint(v.Inner(area))
	case bento.Widget:
		v.Render(area, &b)
		return bx.Hashable(&b)
	}
	panic(fmt.Sprintf("%T", v))
}

// seeds are the values derivations start from, args the pool of arguments.
func seeds() []any {
	line := textwidget.NewLineStr("seed")
	red, bold := bento.NewStyle().WithForeground(termenv.ANSIColor(1)), bento.NewStyle().Bold().WithBackground(termenv.ANSIColor(6))
	// values that hold others, with settings of their own
	rich := func() textwidget.Line {
		return textwidget.NewLine(textwidget.NewSpan("aa").WithStyle(red), textwidget.NewSpan(" b"), textwidget.NewSpan("c").WithStyle(bold))
	}
	text := func() textwidget.Text {
		return textwidget.NewText(rich().Right().WithStyle(bold), rich().Center(), rich(), rich().Left().WithStyle(red))
	}
	block := blockwidget.New().Bordered().WithTitle(blockwidget.NewTitle(rich()).Right()).WithTitle(blockwidget.NewTitleStr("tt").Center().Bottom()).WithTitleStr("t").WithTitlesStyle(red)
	para := paragraphwidget.New(text()).WithBlock(block).WithWrap(paragraphwidget.NewWrap())
	return []any{
		bento.NewLayout(bento.ConstraintLen(2)), bento.NewStyle(), bento.NewPadding(1), bento.NewRect(3, 4),
		blockwidget.New(), blockwidget.NewTitleStr("t"), line, textwidget.NewSpan("span"), textwidget.NewTextStr("one\ntwo"),
		paragraphwidget.NewStr("a paragraph of\nsome text"), paragraphwidget.NewWrap(), listwidget.New(textwidget.NewTextStr("i1"), textwidget.NewTextStr("i2")),
		inputwidget.New(), tabswidget.New(line, line), gaugewidget.New(), popupwidget.New(), fillwidget.New("f"), throbberwidget.New(), scrollwidget.New(0),
		text(), rich().Right().WithStyle(red), textwidget.NewSpan("span").WithStyle(bold), para, block,
		blockwidget.NewTitle(rich()).Right(), listwidget.New(text(), text().Center()).WithBlock(block).WithHighlightSymbol(">"),
		tabswidget.New(rich().Right(), rich()).WithBlock(block).WithDividerStr("|").Select(1),
		gaugewidget.New().WithLabel(textwidget.NewSpan("l").WithStyle(red)), popupwidget.New().WithBlock(block),
		inputwidget.New().WithPrompt("> ").WithPromptStyle(red), red.Italic(),
		bento.NewLayout(bento.ConstraintLen(1), bento.ConstraintFill(1), bento.ConstraintMin(1)).WithSpacing(bento.SpacingSpace(1)),
	}
}

var interfaces = map[reflect.Type][2]any{
	reflect.TypeFor[bento.Color]():      {termenv.ANSIColor(2), termenv.RGBColor("#123456")},
	reflect.TypeFor[bento.Constraint](): {bento.ConstraintLen(3), bento.ConstraintPercentage(40)},
	reflect.TypeFor[bento.Spacing]():    {bento.SpacingSpace(1), bento.SpacingOverlap(1)},
	reflect.TypeFor[bento.Widget]():     {fillwidget.New("x"), fillwidget.New("y")},
}

func pool() map[reflect.Type][2]any {
	m := map[reflect.Type][2]any{}
	add := func(a, b any) { m[reflect.TypeOf(a)] = [2]any{a, b} }
	red := bento.NewStyle().WithForeground(termenv.ANSIColor(1))
	add(2, 1)
	add("q", "zw")
	add(true, false)
	add(0.25, 0.75)
	add(uint8(7), uint8(200))
	add(red, bento.NewStyle().Bold().WithBackground(termenv.ANSIColor(6)))
	add(bento.ModifierItalic, bento.ModifierDim|bento.ModifierReversed)
	add(bento.AlignmentCenter, bento.AlignmentRight)
	add(bento.FlexCenter, bento.FlexEnd)
	add(bento.DirectionHorizontal, bento.DirectionVertical)
	add(bento.NewPadding(0, 1), bento.NewPadding(1))
	add(bento.NewPosition(1, 2), bento.NewPosition(3, 0))
	add(blockwidget.SideTop, blockwidget.SideLeft)
	add(blockwidget.BorderTypeDouble, blockwidget.BorderTypeThick)
	add(blockwidget.TitlePositionBottom, blockwidget.TitlePositionTop)
	t := blockwidget.NewTitleStr("T1")
	add(t, blockwidget.NewTitleStr("T2").Bottom())
	add(blockwidget.New().Bordered().WithTitle(t).WithTitle(t).WithTitle(t), blockwidget.New().WithTitle(t))
	sp := textwidget.NewSpan("sp").WithStyle(red)
	add(sp, textwidget.NewSpan("u"))
	l := textwidget.NewLine().WithSpans(sp).WithSpans(sp).WithSpans(sp)
	add(l, textwidget.NewLineStr("line"))
	x := textwidget.NewText().WithLines(l).WithLines(l).WithLines(l)
	add(x, textwidget.NewTextStr("te\nxt"))
	add(paragraphwidget.NewWrap(), paragraphwidget.NewWrap().WithTrim(true))
	add(listwidget.DirectionBottomToTop, listwidget.DirectionTopToBottom)
	add(listwidget.HighlightSpacingAlways, listwidget.HighlightSpacingNever)
	add(throbberwidget.TypeMeter, throbberwidget.TypePulse)
	return m
}

func arg(p map[reflect.Type][2]any, t reflect.Type, variant int) (reflect.Value, bool) {
	if v, ok := p[t]; ok {
		return reflect.ValueOf(v[variant]), true
	}
	if v, ok := interfaces[t]; ok {
		return reflect.ValueOf(v[variant]), true
	}
	return reflect.Value{}, false
}

type method struct {
	name    string
	index   int
	variant int
}

func (m method) String() string { return fmt.Sprintf("%s/%d", m.name, m.variant) }

// apply derives a value; ok is false if the call panics or has no arguments here.
func apply(p map[reflect.Type][2]any, v reflect.Value, m method) (out reflect.Value, ok bool) {
	f := v.Method(m.index)
	t := f.Type()
	var in []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		at, n := t.In(i), 1
		if t.IsVariadic() && i == t.NumIn()-1 {
			at, n = at.Elem(), 1+2*m.variant
		}
		for k := 0; k < n; k++ {
			a, ok := arg(p, at, (m.variant+k)%2)
			if !ok {
				return reflect.Value{}, false
			}
			in = append(in, a)
		}
	}
	if vk.Try(func() { out = f.Call(in)[0] }) != nil {
		return reflect.Value{}, false
	}
	return out, true
}

// builders lists the methods of a type that return a value of the type.
func builders(v any) (ms []method, skipped []string) {
	t := reflect.TypeOf(v)
	p := pool()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumOut() != 1 || m.Type.Out(0) != t {
			continue
		}
		any := false
		for variant := 0; variant < 2; variant++ {
			if m.Type.NumIn() == 1 && variant == 1 {
				break
			}
			mm := method{m.Name, i, variant}
			if _, ok := apply(p, reflect.ValueOf(v), mm); ok {
				ms = append(ms, mm)
				any = true
			}
		}
		if !any {
			skipped = append(skipped, t.String()+"."+m.Name)
		}
	}
	return
}

// growing reports whether a method adds something every time it is called.
func growing(v any, m method) bool {
	p := pool()
	cur := reflect.ValueOf(v)
	n := len(bx.Deep(v))
	for i := 0; i < 3; i++ {
		next, ok := apply(p, cur, m)
		if !ok {
			return false
		}
		cur = next
		l := len(bx.Deep(cur.Interface()))
		if l <= n {
			return false
		}
		n = l
	}
	return true
}

type deriv struct {
	parent int
	m      method
}

// from shows a where it first differs from b.
func from(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return a[max(0, i-40):]
}

type memoKey struct {
	seed  int
	chain string
}

type worker struct {
	memo map[memoKey]string
	args map[reflect.Type][2]string
}

func newWorker() *worker {
	k := &worker{memo: map[memoKey]string{}, args: map[reflect.Type][2]string{}}
	for t, a := range pool() {
		switch a[0].(type) {
		case blockwidget.Block, blockwidget.Title, textwidget.Line, textwidget.Span, textwidget.Text, bento.Style, bento.Padding, paragraphwidget.Wrap:
			k.args[t] = [2]string{observe(a[0]), observe(a[1])}
		}
	}
	return k
}

// alone is the observation of a value that nothing else is derived from: the
// chain of calls that leads to it, made from a fresh seed and fresh arguments.
func (k *worker) alone(seed int, chain []method) string {
	key := memoKey{seed, fmt.Sprint(chain)}
	if o, ok := k.memo[key]; ok {
		return o
	}
	p := pool()
	v := reflect.ValueOf(seeds()[seed])
	for _, m := range chain {
		v, _ = apply(p, v, m)
	}
	o := observe(v.Interface())
	if again := observe(v.Interface()); again != o {
		o = "it changes when it is drawn: " + from(again, o)
	}
	k.memo[key] = o
	return o
}

func (k *worker) tree(r *vk.Run, seed int, ds []deriv) string {
	p := pool()
	vals := []reflect.Value{reflect.ValueOf(seeds()[seed])}
	chains := [][]method{nil}
	used := map[reflect.Type]bool{}
	for _, d := range ds {
		t := vals[0].Method(d.m.index).Type()
		for i := 0; i < t.NumIn(); i++ {
			if t.In(i).Kind() == reflect.Slice {
				used[t.In(i).Elem()] = true
			}
			used[t.In(i)] = true
		}
		v, ok := apply(p, vals[d.parent], d.m)
		if !ok {
			return ""
		}
		r.Trans(1)
		vals = append(vals, v)
		c := chains[d.parent]
		chains = append(chains, append(c[:len(c):len(c)], d.m))
	}
	for i := range vals {
		if got, want := observe(vals[i].Interface()), k.alone(seed, chains[i]); got != want {
			return fmt.Sprintf("value %d, made by %v, is no longer what it was before the other values were derived:\n%.400s\nis now\n%.400s", i, chains[i], from(want, got), from(got, want))
		}
	}
	for t, a := range k.args {
		if !used[t] {
			continue
		}
		for i := range a {
			if o := observe(p[t][i]); o != a[i] {
				return fmt.Sprintf("argument %d of type %v changed", i, t)
			}
		}
	}
	r.StateStr(fmt.Sprint(seed, ds))
	return ""
}

func main() {
	r := vk.New("C31", 240*time.Second, 900*time.Second)
	type job struct {
		seed  int
		ms    []method
		depth int
		first deriv
	}
	var jobs []job
	var skipped, grow []string
	total := 0
	for k, s := range seeds() {
		ms, sk := builders(s)
		skipped = append(skipped, sk...)
		total += len(ms)
		var g []method
		for _, m := range ms {
			if growing(s, m) {
				g = append(g, m)
				grow = append(grow, reflect.TypeOf(s).String()+"."+m.String())
			}
		}
		depth := 2
		if r.Thorough {
			depth = 3
		}
		for _, m := range ms {
			jobs = append(jobs, job{k, ms, depth, deriv{0, m}})
		}
		if len(g) > 0 {
			depth := 5
			if r.Thorough {
				depth = 6
			}
			for _, m := range g {
				var same []method // the variants of one call
				for _, x := range g {
					if x.index == m.index {
						same = append(same, x)
					}
				}
				if _, ok := s.(bento.Layout); ok {
					same, depth = []method{m}, depth-1
				}
				jobs = append(jobs, job{k, same, depth, deriv{0, m}})
				jobs = append(jobs, job{k, g, depth - 2, deriv{0, m}})
			}
		}
		// three steps: every method twice, then every other one
		if !r.Thorough {
			var once []method
			for _, m := range ms {
				if m.variant == 0 {
					once = append(once, m)
				}
			}
			if len(once) <= 24 {
				for _, m := range once {
					jobs = append(jobs, job{k, once, 3, deriv{0, m}})
				}
			}
		}
	}
	r.Bound("all derivation trees: 2 steps with all %d builder calls of %d types (2 argument sets each), 3 steps with one argument set (types with at most 24 calls) and with the %d calls that add something (%v), 5 steps (Layout: 4) with each of those; every value is observed (rendered) again after every step", total, len(seeds()), len(grow), grow)
	if len(skipped) > 0 {
		r.Extra("builders_without_arguments", skipped)
	}
	r.Assume("values are observed by rendering them and through their exported fields and measuring methods")
	r.Parallel(len(jobs), func(w *vk.Worker, i int) {
		j := jobs[i]
		k := newWorker()
		var rec func(ds []deriv)
		rec = func(ds []deriv) {
			if len(ds) == j.depth {
				all := append([]deriv{}, ds...)
				w.Case(func() string { return fmt.Sprintf("%T: %v", seeds()[j.seed], all) }, func() string { return k.tree(r, j.seed, all) })
				r.Trace(1)
				return
			}
			for p := 0; p <= len(ds); p++ {
				for _, m := range j.ms {
					if r.Stop() {
						return
					}
					rec(append(ds, deriv{p, m}))
				}
			}
		}
		rec([]deriv{j.first})
		if i%60 == 3 {
			r.Sample(fmt.Sprintf("%T: %v, then all trees of %d steps", seeds()[j.seed], j.first, j.depth))
		}
	})
	r.Finish()
}

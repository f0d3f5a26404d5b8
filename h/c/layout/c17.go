package main

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/metafates/bento"

	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/internal/zzverif/vs"
	"github.com/metafates/bento/internal/zzverif/vx"
)

// call is one application of a layout to an area.
type call struct {
	cfg
	dir  bento.Direction
	pad  bento.Padding
	area bento.Rect
}

func rect(x, y, w, h int) bento.Rect { return bento.NewRect(w, h).Positioned(x, y) }

func plain(c cfg) call {
	return call{cfg: c, dir: bento.DirectionHorizontal, area: rect(0, 0, c.w, 1)}
}

func (c call) String() string {
	d := "vertical"
	if c.dir == bento.DirectionHorizontal {
		d = "horizontal"
	}
	n := c.cfg
	return fmt.Sprintf("%s %s padding=%v area=%v", n, d, c.pad, c.area)
}

func (c call) layout() bento.Layout {
	return c.cfg.layout().WithDirection(c.dir).WithPadding(c.pad)
}

// result is what a call gives, or how it fails.
func (c call) result() (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v", p)
		}
	}()
	return dump(c.layout(), c.area)
}

func dump(l bento.Layout, area bento.Rect) string {
	segs, sps := l.SplitWithSpacers(area)
	var b strings.Builder
	for i, list := range []bento.Splitted{segs, sps} {
		if i == 1 {
			b.WriteString("spacers")
		}
		for j, r := range list {
			fmt.Fprintf(&b, "(%d,%d %dx%d)", r.X, r.Y, r.Width, r.Height)
			list[j] = rect(77, 77, 77, 77) // the result is the caller's own
		}
	}
	return b.String()
}

// --- map orders ---

func small(thorough bool) (out []call) {
	alpha := []cons{L(3), Mi(4), Ma(2), P(30), R(1, 3), F(1), F(2), L(0), Mi(0)}
	add := func(a []cons, n int, sps, ws []int) {
		lists(a, n, func(cs []cons) bool {
			for _, f := range flexes {
				for _, sp := range sps {
					for _, w := range ws {
						out = append(out, plain(cfg{cs, f, sp, w}))
					}
				}
			}
			return true
		})
	}
	if !thorough {
		add(alpha, 2, []int{1}, []int{10})
		add([]cons{L(3), F(1)}, 3, []int{0}, []int{7})
	} else {
		add(alpha, 2, []int{-1, 0, 1}, []int{0, 1, 5, 10})
		add([]cons{L(3), Mi(4), Ma(2), P(30), R(1, 3), F(1), F(2)}, 3, []int{0, 1}, []int{10})
	}
	return out
}

func under(c call, order func(walk int, idx []int)) string {
	vs.ResetWalks()
	vs.Order = order
	defer func() { vs.Order = nil }()
	return c.result()
}

func orderSpec(spec string) func(int, []int) {
	switch {
	case spec == "sorted":
		return nil
	case spec == "reversed":
		return func(_ int, idx []int) {
			for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
	case strings.HasPrefix(spec, "rotated"):
		k, _ := strconv.Atoi(spec[len("rotated"):])
		return func(_ int, idx []int) {
			n := len(idx)
			cp := append([]int{}, idx...)
			for i := range idx {
				idx[i] = cp[(i+k)%n]
			}
		}
	case strings.HasPrefix(spec, "outwards"):
		return func(_ int, idx []int) { // from the middle
			n := len(idx)
			cp := append([]int{}, idx...)
			for i := range idx {
				d := (i + 1) / 2
				if i%2 == 1 {
					d = -d
				}
				idx[i] = cp[((n/2+d)%n+n)%n]
			}
		}
	}
	var at, first int
	fmt.Sscanf(spec, "walk%d first%d", &at, &first)
	return func(walk int, idx []int) {
		if walk != at || first >= len(idx) {
			return
		}
		j := idx[first]
		copy(idx[1:first+1], idx[:first])
		idx[0] = j
	}
}

func orders(w *vx.Shard, thorough bool) {
	specs := []string{"reversed", "outwards"}
	for k := 1; k <= 6; k++ {
		specs = append(specs, fmt.Sprint("rotated", k))
	}
	for i, c := range small(thorough) {
		if i%w.N != w.I {
			continue
		}
		if w.Stop() {
			return
		}
		w.Begin("order | " + c.String() + " | sorted")
		var sizes []int
		vs.ResetWalks()
		vs.Order = func(_ int, idx []int) { sizes = append(sizes, len(idx)) }
		want := c.result()
		vs.Order = nil
		steps := 1
		try := func(spec string) bool {
			key := "order | " + c.String() + " | " + spec
			w.Begin(key)
			got := under(c, orderSpec(spec))
			steps++
			if got != want {
				w.Fail(key, fmt.Sprintf("the result depends on the order in which maps are walked: %s, but sorted: %s", got, want))
				return false
			}
			return true
		}
		ok := true
		for _, s := range specs {
			if ok = try(s); !ok {
				break
			}
		}
		for at := 0; ok && at < len(sizes); at++ {
			for first := 1; ok && first < sizes[at]; first++ {
				ok = try(fmt.Sprintf("walk%d first%d", at, first))
			}
		}
		w.End()
		w.Count(steps, steps*len(sizes), steps)
		if !ok {
			return
		}
	}
}

// --- history ---

func variants() (out []call) {
	seen := map[string]bool{}
	add := func(c call) {
		if k := c.String(); !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	bases := []call{
		{cfg{[]cons{L(3), Mi(4), F(1)}, bento.FlexLegacy, 0, 0}, bento.DirectionHorizontal, bento.Padding{}, rect(0, 0, 20, 7)},
		{cfg{[]cons{P(30), Ma(5)}, bento.FlexSpaceBetween, 1, 0}, bento.DirectionVertical, bento.Padding{Top: 1, Right: 2, Bottom: 0, Left: 1}, rect(2, 3, 20, 20)},
		{cfg{[]cons{R(1, 3), F(2)}, bento.FlexCenter, -1, 0}, bento.DirectionHorizontal, bento.Padding{}, rect(1, 0, 13, 3)},
	}
	kinds := []cons{L(3), Mi(3), Ma(3), P(3), F(3), R(1, 3), R(3, 1), L(4), Mi(4), Ma(4), P(4), F(4), R(2, 6), L(0), F(0)}
	for _, b := range bases {
		add(b)
		for i := range b.cs {
			for _, k := range kinds {
				c := b
				c.cs = append([]cons{}, b.cs...)
				c.cs[i] = k
				add(c)
			}
			c := b
			c.cs = append(append([]cons{}, b.cs[:i]...), b.cs[i+1:]...)
			add(c)
		}
		for _, k := range kinds[:6] {
			c := b
			c.cs = append(append([]cons{}, b.cs...), k)
			add(c)
		}
		c := b
		c.cs = append([]cons{}, b.cs...)
		c.cs[0], c.cs[1] = c.cs[1], c.cs[0]
		add(c)
		for _, f := range flexes {
			c := b
			c.flex = f
			add(c)
		}
		for _, sp := range []int{-2, -1, 0, 1, 2} {
			c := b
			c.sp = sp
			add(c)
		}
		for _, d := range []bento.Direction{bento.DirectionHorizontal, bento.DirectionVertical} {
			c := b
			c.dir = d
			add(c)
		}
		for _, p := range []bento.Padding{{}, {Top: 1}, {Right: 1}, {Bottom: 1}, {Left: 1}, {Top: 1, Left: 1}, {Top: 1, Right: 1, Bottom: 1, Left: 1}} {
			c := b
			c.pad = p
			add(c)
		}
		for _, d := range [][4]int{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {0, 0, -1, 0}, {0, 0, 0, -1}, {1, 1, 0, 0}, {0, 0, 1, -1}, {1, 0, -1, 0}} {
			c := b
			c.area = rect(b.area.X+d[0], b.area.Y+d[1], b.area.Width+d[2], b.area.Height+d[3])
			add(c)
		}
	}
	return out
}

// fresh computes one call in a process that did nothing before.
func fresh(i int) (string, error) {
	cmd := exec.Command(os.Args[0])
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_SHARD=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_FRESH=%d", i))
	out, err := cmd.Output()
	return string(out), err
}

func history(w *vx.Shard, thorough bool) {
	cs := variants()
	truth := make([]string, len(cs))
	for i := range cs {
		key := fmt.Sprintf("history | %s", cs[i])
		w.Begin(key)
		t, err := fresh(i)
		if err != nil {
			w.Fail(key, "the process died: "+err.Error())
			return
		}
		truth[i] = t
	}
	w.End()
	vs.Native = true
	defer func() { vs.Native = false }()
	check := func(seq ...int) bool {
		for n, i := range seq {
			got := cs[i].result()
			if got != truth[i] {
				var names []string
				for _, j := range seq[:n+1] {
					names = append(names, fmt.Sprint(j))
				}
				w.Fail("history | "+strings.Join(names, " "), fmt.Sprintf("%s gives %s, but in a fresh process %s; computed just before: %s", cs[i], got, truth[i], cs[seq[max(0, n-1)]]))
				return false
			}
		}
		return true
	}
	steps := 0
	for a := range cs {
		if a%w.N != w.I {
			continue
		}
		if w.Stop() {
			return
		}
		w.Begin(fmt.Sprintf("history | all pairs with %s", cs[a]))
		for b := range cs {
			steps += 2
			if !check(a, b) {
				return
			}
			if thorough {
				for d := max(0, b-4); d < min(len(cs), b+5); d++ {
					steps += 3
					if !check(a, b, d) {
						return
					}
				}
			}
		}
		w.Count(len(cs), 0, len(cs))
	}
	w.Count(0, steps, 0)
	w.End()
	// one layout value, applied to many areas, stays as it is
	for i, c := range cs {
		if i%w.N != w.I {
			continue
		}
		l := c.layout()
		cons := append([]cons{}, c.cs...)
		l.Constraints = cons
		before := fmt.Sprintf("%#v", l)
		key := "unchanged | " + c.String()
		for _, d := range []int{0, 1, 0, 5, 0} {
			area := c.area
			area.Width += d
			want := call{c.cfg, c.dir, c.pad, area}
			w.Begin(key)
			if got := dump(l, area); got != want.result() {
				w.Fail(key, fmt.Sprintf("the same layout applied to %v again gives %s, a new one %s", area, got, want.result()))
				return
			}
			w.End()
			if after := fmt.Sprintf("%#v", l); after != before || !reflect.DeepEqual(cons, append([]bento.Constraint{}, c.cs...)) {
				w.Fail(key, fmt.Sprintf("splitting changed the layout from %s to %s", before, after))
				return
			}
		}
		w.Count(1, 5, 1)
	}
}

// --- concurrency ---

func together(thorough bool) (out []vx.Job) {
	a := plain(cfg{[]cons{L(3), F(1)}, bento.FlexLegacy, 0, 10})
	b := plain(cfg{[]cons{Mi(4), F(2)}, bento.FlexStart, 1, 11})
	c := plain(cfg{[]cons{P(30)}, bento.FlexSpaceAround, 0, 9})
	d := plain(cfg{[]cons{F(1), R(1, 2)}, bento.FlexCenter, 0, 7})
	e := plain(cfg{[]cons{L(3), F(1)}, bento.FlexLegacy, 0, 30})
	bound := 1
	if thorough {
		bound = 2
	}
	for _, p := range [][]call{{a, a}, {a, b}, {c, a}, {b, b}, {c, d}, {a, e}, {c, a, d}} {
		var names []string
		want := make([]string, len(p))
		for _, x := range p {
			names = append(names, x.String())
		}
		key := "together: " + strings.Join(names, " with ")
		out = append(out, vx.Job{Key: key, Bound: bound, Run: func(prefix []int, verbose bool) (*vs.Sched, string) {
			for i, x := range p {
				if want[i] == "" {
					want[i] = x.result()
				}
			}
			got := make([]string, len(p))
			again := make([]string, len(p))
			s := vs.Run(prefix, 200_000, verbose, func() {
				var wg vs.WaitGroup
				for i := range p {
					wg.Add(1)
					vs.Go(func() {
						defer wg.Done()
						got[i] = p[i].result()
						again[i] = p[i].result()
					})
				}
				wg.Wait()
			})
			if !s.MainDone {
				return s, fmt.Sprint("concurrent splits never end: ", s.Crash, s.Leftover())
			}
			for i := range p {
				for _, g := range []string{got[i], again[i]} {
					if g != want[i] {
						return s, fmt.Sprintf("%s gives %s next to another split, but %s alone", p[i], g, want[i])
					}
				}
			}
			return s, ""
		}})
	}
	return out
}

// --- totality ---

func extreme(thorough bool) (out []call) {
	many := func(n int, f func(i int) cons) []cons {
		var l []cons
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return l
	}
	kinds := []func(i int) cons{
		func(i int) cons { return L(i % 5) },
		func(i int) cons { return Mi(i % 4) },
		func(i int) cons { return Ma(i % 6) },
		func(i int) cons { return P(i % 7) },
		func(i int) cons { return R(1, 1+i%9) },
		func(i int) cons { return F(i % 3) },
		func(i int) cons { return []cons{L(2), Mi(1), Ma(3), P(2), R(1, 50), F(1)}[i%6] },
	}
	counts := []int{8, 16, 24}
	if thorough {
		counts = []int{5, 8, 12, 16, 20, 24, 28, 32, 36}
	}
	for _, n := range counts {
		for _, k := range kinds {
			for _, f := range flexes {
				for _, w := range []int{0, 10, 80, 400} {
					out = append(out, plain(cfg{many(n, k), f, (n / 8) % 2, w}))
				}
			}
		}
	}
	// hundreds, where the number of relations is not quadratic
	for _, n := range []int{40, 64, 65, 100, 150} {
		for ki, k := range kinds[:5] {
			if !thorough && n == 150 && ki > 0 {
				continue
			}
			out = append(out, plain(cfg{many(n, k), bento.FlexLegacy, 0, 200}))
			if ki != 1 && n <= 65 {
				out = append(out, plain(cfg{many(n, k), bento.FlexStart, 1, 200}), plain(cfg{many(n, k), bento.FlexEnd, 0, 100}), plain(cfg{many(n, k), bento.FlexCenter, 0, 300}))
			}
		}
	}
	if thorough {
		for _, f := range flexes[:4] {
			out = append(out, plain(cfg{many(150, kinds[0]), f, 0, 200}))
		}
		out = append(out, plain(cfg{many(250, kinds[0]), bento.FlexLegacy, 0, 200}))
		out = append(out, plain(cfg{many(40, kinds[5]), bento.FlexLegacy, 0, 200}))
	}
	// extreme values
	const mx, mn = int(^uint(0) >> 1), -int(^uint(0)>>1) - 1
	vals := []int{-1, -1000, 65535, 1 << 31, -1 << 31, 1 << 53, mx, mn}
	if !thorough {
		vals = []int{-1, -1000, 65535, 1 << 31, mx, mn}
	}
	var odd []cons
	for _, v := range vals {
		odd = append(odd, L(v), Mi(v), Ma(v), P(v), F(v), R(v, 3), R(1, v), R(v, v))
	}
	odd = append(odd, R(0, 0), R(1, 0), P(0), P(101), R(2, 1))
	for i, a := range odd {
		for _, f := range flexes {
			for _, w := range []int{0, 10, 1 << 31} {
				out = append(out, plain(cfg{[]cons{a}, f, 0, w}))
			}
		}
		for j, b := range append([]cons{L(3), Mi(4), Ma(2), P(30), R(1, 3), F(1)}, odd...) {
			if !thorough && j >= 6 && (i+j)%3 != 0 {
				continue
			}
			fs := flexes
			if !thorough && j >= 6 {
				fs = flexes[(i+j)%6 : (i+j)%6+1]
			}
			for _, f := range fs {
				out = append(out, plain(cfg{[]cons{a, b}, f, 1, 10}))
			}
		}
	}
	for _, sp := range append([]int{}, vals[:3]...) {
		for _, f := range flexes {
			for _, cs := range [][]cons{{L(3), L(3)}, {F(1), Mi(2), Ma(5)}, {}, {P(50)}} {
				out = append(out, plain(cfg{cs, f, sp, 10}), plain(cfg{cs, f, -sp, 10}))
			}
		}
	}
	for _, ar := range []bento.Rect{rect(0, 0, 1<<31, 1), rect(1<<31, 0, 10, 1), rect(0, 0, 1<<40, 1<<40), rect(5, 5, 0, 0)} {
		for _, f := range flexes {
			for _, p := range []bento.Padding{{}, {Left: 1000, Right: 1000}, {Left: -3, Top: -3}} {
				for _, dir := range []bento.Direction{bento.DirectionHorizontal, bento.DirectionVertical} {
					out = append(out, call{cfg{[]cons{L(3), Mi(2), F(1)}, f, 1, 0}, dir, p, ar})
				}
			}
		}
	}
	return out
}

func total(w *vx.Shard, thorough bool) {
	vs.Native = true
	defer func() { vs.Native = false }()
	cs := extreme(thorough)
	// the most expensive ones first
	sort.SliceStable(cs, func(i, j int) bool { return len(cs[i].cs) > len(cs[j].cs) })
	for i, c := range cs {
		if i%w.N != w.I {
			continue
		}
		if w.Stop() {
			return
		}
		key := "total | " + c.String()
		w.Begin(key)
		msg := total1(c)
		w.End()
		w.Count(1, 1, 1)
		if msg != "" {
			w.Fail(key, msg)
			return
		}
	}
}

func total1(c call) string {
	got := c.result()
	if strings.HasPrefix(got, "panic") {
		return got
	}
	n := len(c.cs)
	seg, sp, _ := strings.Cut(got, "spacers")
	if strings.Count(seg, "(") != n || strings.Count(sp, "(") != n+1 {
		return fmt.Sprintf("%d constraints give %d segments and %d spacers", n, strings.Count(seg, "("), strings.Count(sp, "("))
	}
	return ""
}

func c17() {
	if f := os.Getenv("VERIF_FRESH"); f != "" {
		i, _ := strconv.Atoi(f)
		vs.Native = true
		fmt.Print(variants()[i].result())
		os.Exit(0)
	}
	thorough := vx.Tier()
	vx.Sharded("C17", 300*time.Second, 3000*time.Second, func(r *vk.Run) {
		r.Assume("the order in which a map is walked is made a choice in the repository's own source; maps walked by the standard library's maps package as well")
		r.Assume("two goroutines interleave at atomic operations, locks, pools and map walks")
		r.Bound("map orders: %d layouts of up to 3 constraints; every execution in which one walk starts with another key than the smallest, and with all walks reversed, rotated by 1 to 6, or from the middle", len(small(thorough)))
		r.Bound("history: all ordered pairs of %d calls that differ in one component, each compared with the result of a process of its own", len(variants()))
		r.Bound("concurrency: 7 programs of 2 or 3 goroutines, up to %d deviations from the default schedule", map[bool]int{false: 1, true: 2}[thorough])
		r.Bound("totality: %d layouts with up to %d constraints or extreme values, 60 s each", len(extreme(thorough)), map[bool]int{false: 150, true: 250}[thorough])
	}, func(w *vx.Shard) {
		part := os.Getenv("VERIF_PART")
		for _, p := range []struct {
			name string
			run  func(*vx.Shard, bool)
		}{{"history", history}, {"together", func(w *vx.Shard, t bool) {
			for i, j := range together(t) {
				w.Explore(i, j)
			}
		}}, {"total", total}, {"order", orders}} {
			if part == "" || part == p.name {
				p.run(w, thorough)
			}
		}
	}, func(r *vk.Run, only string) {
		kind, rest, _ := strings.Cut(only, " | ")
		switch kind {
		case "order":
			name, spec, _ := strings.Cut(rest, " | ")
			for _, t := range []bool{false, true} {
				for _, c := range small(t) {
					if c.String() != name {
						continue
					}
					want, got := under(c, nil), under(c, orderSpec(spec))
					if got != want {
						r.Violation(only, fmt.Sprintf("the result depends on the order in which maps are walked: %s, but sorted: %s", got, want), nil)
					}
					return
				}
			}
		case "history":
			cs := variants()
			vs.Native = true
			for _, f := range strings.Fields(rest) {
				i, err := strconv.Atoi(f)
				if err != nil {
					return
				}
				want, _ := fresh(i)
				if got := cs[i].result(); got != want {
					r.Violation(only, fmt.Sprintf("%s gives %s, but in a fresh process %s", cs[i], got, want), nil)
				}
			}
		case "total":
			vs.Native = true
			for _, t := range []bool{false, true} {
				for _, c := range extreme(t) {
					if c.String() == rest {
						if msg := total1(c); msg != "" {
							r.Violation(only, msg, nil)
						}
						return
					}
				}
			}
		default:
			vx.Replay(r, together(thorough), only)
		}
	})
}

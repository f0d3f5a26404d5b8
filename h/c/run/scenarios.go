package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vs"
)

// ---------------------------------------------------------------- trees of commands

// node is a command: l leaf, n leaf with a nil message, 0 no command, B Batch,
// S Sequence, L a literal batch message (which may hold nils).
type node struct {
	kind byte
	kids []node
}

func (n node) String() string {
	if n.kids == nil && n.kind != 'B' && n.kind != 'S' && n.kind != 'L' {
		return string(n.kind)
	}
	var b strings.Builder
	b.WriteByte(n.kind)
	b.WriteByte('(')
	for _, k := range n.kids {
		b.WriteString(k.String())
	}
	b.WriteByte(')')
	return b.String()
}

func (n node) leaves() int {
	if n.kind == 'l' || n.kind == 'n' {
		return 1
	}
	t := 0
	for _, k := range n.kids {
		t += k.leaves()
	}
	return t
}

// build makes the command and returns the leaves it leads to.
func (w *world) build(n node, path string) (bento.Cmd, []*command) {
	switch n.kind {
	case '0':
		return nil, nil
	case 'l', 'n':
		id := string(n.kind) + path
		return w.leaf(id), []*command{w.cmds[id]}
	}
	var cmds []bento.Cmd
	var all []*command
	var groups [][]*command
	for i, k := range n.kids {
		c, l := w.build(k, fmt.Sprintf("%s.%d", path, i))
		cmds = append(cmds, c)
		groups = append(groups, l)
		all = append(all, l...)
	}
	// a program may use a slice of commands more than once
	switch n.kind {
	case 'B':
		bento.Batch(cmds...)
		return bento.Batch(cmds...), all
	case 'L':
		return func() bento.Msg { return bento.BatchMsg(cmds) }, all
	}
	w.seq = append(w.seq, func(id string) string {
		at := -1
		for i, g := range groups {
			for _, c := range g {
				if c.id == id {
					at = i
				}
			}
		}
		for i := 0; i < at; i++ {
			for _, c := range groups[i] {
				if c.ends == 0 {
					return fmt.Sprintf("command %s of a sequence starts before %s has finished", id, c.id)
				}
			}
		}
		return ""
	})
	w.after = append(w.after, func() string {
		pos := map[string]int{}
		for i, id := range w.order {
			pos[id] = i
		}
		for i := range groups {
			for j := i + 1; j < len(groups); j++ {
				for _, a := range groups[i] {
					for _, b := range groups[j] {
						if b.arrived > 0 && strings.HasPrefix(a.id, "l") && (a.arrived == 0 || pos[a.id] > pos[b.id]) {
							return fmt.Sprintf("the message of %s reaches Update before that of %s, which precedes it in a sequence", b.id, a.id)
						}
					}
				}
			}
		}
		return ""
	})
	bento.Sequence(cmds...)
	return bento.Sequence(cmds...), all
}

// trees are all commands of up to depth levels and up to two (three) parts.
func trees(depth, width int, leafKinds string) []node {
	var out []node
	for _, k := range leafKinds {
		out = append(out, node{kind: byte(k)})
	}
	if depth == 0 {
		return out
	}
	sub := trees(depth-1, width, leafKinds)
	for _, k := range "BSL" {
		for n := 0; n <= width; n++ {
			idx := make([]int, n)
			for {
				kids := make([]node, n)
				for i, j := range idx {
					kids[i] = sub[j]
				}
				out = append(out, node{byte(k), kids})
				i := n - 1
				for ; i >= 0; i-- {
					if idx[i]++; idx[i] < len(sub) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- surroundings

// killer cancels the context, by default when nothing else is left to do.
func killer(w *world) {
	vs.Env("kill", func() {
		vs.Pause("cancel the context")
		w.kill()
	})
}

// slowKiller is a killer that waits for slow user code.
func slowKiller(w *world) {
	vs.Env("kill", func() {
		vs.Wait("the slow user code", func() bool { return w.slept })
		vs.Pause("let it start")
		vs.Pause("cancel the context")
		w.kill()
	})
}

// slow programs spend an hour in one call.
func slow() []scenario {
	tree := func(w *world) bento.Cmd {
		return bento.Batch(w.leaf("a"), bento.Sequence(w.leaf("b"), bento.Batch(w.leaf("c"), w.leaf("d")), w.leaf("e")), w.leaf("f"))
	}
	env := envs(typist("xy", "z"), resizer([2]int{5, 3}), slowKiller)
	return []scenario{
		{key: "slow first Update", init: tree, update: func(w *world, m bento.Msg) bento.Cmd {
			if w.updates == 1 {
				w.sleep()
			}
			return nil
		}, env: env},
		{key: "slow third Update", init: tree, update: func(w *world, m bento.Msg) bento.Cmd {
			if w.updates == 3 {
				w.sleep()
				return w.leaf("g")
			}
			return nil
		}, env: env},
		{key: "slow Init", init: func(w *world) bento.Cmd { w.sleep(); return tree(w) }, env: env},
		{key: "slow Render", init: tree, render: func(w *world) {
			if w.renders == 3 {
				w.sleep()
			}
		}, env: env},
		{key: "slow command", init: func(w *world) bento.Cmd {
			return bento.Sequence(w.leaf("a"), func() bento.Msg { w.sleep(); return nil }, w.leaf("b"))
		}, env: env},
	}
}

// many commands that hang keep no other from being executed.
func crowd(n int) []scenario {
	hangs := func(w *world, last ...bento.Cmd) (cs []bento.Cmd) {
		for i := 0; i < n; i++ {
			cs = append(cs, w.hang(fmt.Sprint("h", i)))
		}
		return append(cs, last...)
	}
	return []scenario{
		{key: fmt.Sprintf("%d hanging commands in a batch", n), init: func(w *world) bento.Cmd { return bento.Batch(hangs(w, w.leaf("a"), w.leaf("b"))...) }, env: killer},
		{key: fmt.Sprintf("%d hanging commands in a batch in a sequence", n), init: func(w *world) bento.Cmd {
			return bento.Sequence(w.leaf("a"), bento.Batch(hangs(w, w.leaf("b"), w.leaf("c"))...))
		}, env: killer},
		{key: fmt.Sprintf("%d hanging sequences", n), init: func(w *world) bento.Cmd {
			var cs []bento.Cmd
			for _, h := range hangs(w) {
				cs = append(cs, bento.Sequence(h, nil))
			}
			return bento.Batch(append(cs, w.leaf("a"), bento.Sequence(w.leaf("b"), w.leaf("c")))...)
		}, env: killer},
	}
}

func typist(parts ...string) func(w *world) {
	return func(w *world) {
		vs.Env("typist", func() {
			for _, p := range parts {
				vs.Pause("type " + p)
				if w.returned {
					return
				}
				w.typing(p)
			}
		})
	}
}

func eof(w *world) {
	vs.Env("eof", func() {
		vs.Pause("input ends")
		w.dev.InEOF = true
	})
}

func inputError(w *world) {
	vs.Env("input error", func() {
		vs.Pause("input fails")
		if !w.returned {
			w.faults = append(w.faults, "the input")
		}
		w.dev.InErr = errors.New("planned input error")
	})
}

func resizer(sizes ...[2]int) func(w *world) {
	return func(w *world) {
		vs.Env("resizer", func() {
			for _, s := range sizes {
				vs.Pause(fmt.Sprintf("resize to %v", s))
				if w.returned {
					return
				}
				w.resize(s[0], s[1])
			}
		})
	}
}

func envs(es ...func(w *world)) func(w *world) {
	return func(w *world) {
		for _, e := range es {
			e(w)
		}
	}
}

// lastly types s when nothing else is left to do (or earlier).
func lastly(s string) func(w *world) {
	return func(w *world) {
		vs.Env("typist", func() {
			vs.Pause("type " + s)
			if w.returned {
				return
			}
			w.end()
			w.typing(s)
		})
	}
}

// quitOn makes Update ask for the end at key q.
func (w *world) onKeys(m bento.Msg, react map[string]func() bento.Cmd) bento.Cmd {
	if k, ok := m.(bento.KeyMsg); ok {
		if f := react[k.String()]; f != nil {
			delete(react, k.String())
			return f()
		}
	}
	return nil
}

func quitKey(w *world, m bento.Msg) bento.Cmd {
	if k, ok := m.(bento.KeyMsg); ok && strings.Contains(k.String(), "q") {
		w.nquit++
		return w.leaf(fmt.Sprint("q", w.nquit))
	}
	return nil
}

// two commands at the start, more on keys, q quits
func busyInit(w *world) bento.Cmd { return bento.Batch(w.leaf("a"), w.leaf("b")) }

func busyUpdate(w *world, m bento.Msg) bento.Cmd {
	switch m := m.(type) {
	case tmsg:
		if m.id == "a" {
			return bento.Sequence(w.leaf("s1"), w.leaf("s2"))
		}
	case bento.KeyMsg:
		if strings.Contains(m.String(), "c") && w.cmds["c"] == nil {
			return w.leaf("c")
		}
	}
	return quitKey(w, m)
}

func panicWith(w *world, what string) {
	if w.panicked == "" {
		w.panicked = what
		panic("planned panic in " + what)
	}
}

func noTTY(d *vs.Device) { d.StdinTTY = false }

// exits are all the ways out of a program.
func exits() []scenario {
	return []scenario{
		{key: "quit command at start", init: func(w *world) bento.Cmd { return w.leaf("q") }, env: typist("x")},
		{key: "quit key", init: busyInit, update: busyUpdate, env: envs(typist("x"), lastly("q"))},
		{key: "quit key, keys after it", update: quitKey, env: typist("aq", "bc")},
		{key: "quit in a sequence", init: func(w *world) bento.Cmd { return bento.Sequence(w.leaf("a"), w.leaf("q"), w.leaf("b")) }},
		{key: "quit in a batch", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("a"), w.leaf("q"), w.leaf("b")) }},
		{key: "two quits", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("q1"), w.leaf("q2")) }, env: resizer([2]int{5, 3})},
		{key: "context cancelled", init: busyInit, update: busyUpdate, env: envs(typist("x"), killer)},
		{key: "context cancelled before the start", init: busyInit, update: busyUpdate, before: func(w *world) { w.cancelled = true; w.cancel() }, env: typist("x")},
		{key: "context cancelled, resizing", env: envs(resizer([2]int{5, 3}), killer)},
		{key: "context cancelled, hanging command", init: func(w *world) bento.Cmd { return bento.Batch(w.hang("h"), w.leaf("a")) }, env: killer},
		{key: "context cancelled, hanging sequence", init: func(w *world) bento.Cmd {
			return bento.Sequence(bento.Batch(w.hang("h"), w.leaf("a")), w.leaf("b"))
		}, env: killer, noIdle: true},
		{key: "quit key, hanging command", init: func(w *world) bento.Cmd { return w.hang("h") }, update: quitKey, env: lastly("q")},
		{key: "quit and cancel", init: func(w *world) bento.Cmd { return w.leaf("q") }, env: killer},
		{key: "input ends, then cancel", env: envs(typist("x"), eof, killer)},
		{key: "input fails", init: busyInit, update: busyUpdate, env: envs(typist("x"), inputError)},
		{key: "input fails, cancel", env: envs(inputError, killer)},
		{key: "panic in Init", init: func(w *world) bento.Cmd { panicWith(w, "Init"); return nil }, env: typist("x")},
		{key: "panic in the first Update", update: func(w *world, m bento.Msg) bento.Cmd { panicWith(w, "Update"); return nil }, init: busyInit, env: typist("x")},
		{key: "panic in the first Render", render: func(w *world) { panicWith(w, "Render") }, init: busyInit, env: typist("x")},
		{key: "panic in a later Render", render: func(w *world) {
			if w.renders == 3 {
				panicWith(w, "Render")
			}
		}, init: busyInit, update: busyUpdate, env: typist("x", "y")},
		{key: "panic in the last Render", render: func(w *world) {
			if w.quitMade {
				panicWith(w, "Render")
			}
		}, init: func(w *world) bento.Cmd { return w.leaf("q") }, laxPanic: true},
		{key: "panic in a command", init: func(w *world) bento.Cmd { return w.leaf("p") }, env: typist("x")},
		{key: "panic in a batch", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("a"), w.leaf("p"), w.leaf("b")) }, env: typist("x")},
		{key: "panic in a sequence", init: func(w *world) bento.Cmd { return bento.Sequence(w.leaf("a"), w.leaf("p"), w.leaf("b")) }, env: typist("x")},
		{key: "panic in a batch in a sequence", init: func(w *world) bento.Cmd {
			return bento.Sequence(bento.Batch(w.leaf("a"), w.leaf("p")), w.leaf("b"))
		}},
		{key: "panic in two commands", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("p1"), w.leaf("p2")) }},
		{key: "panic in a command, and quit", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("p"), w.leaf("q")) }, laxPanic: true},
		{key: "panic in a command, and cancel", init: func(w *world) bento.Cmd { return w.leaf("p") }, env: killer, noIdle: true},
		{key: "panic in a command, resizing", init: func(w *world) bento.Cmd { return w.leaf("p") }, env: resizer([2]int{6, 3})},
	}
}

func variant(sc scenario, name string, dev func(d *vs.Device)) scenario {
	sc.key += ", " + name
	sc.dev = dev
	return sc
}

func scenarios(prop string, deep bool) (out []scenario) {
	add := func(props string, quick, thorough int, scs ...scenario) {
		for _, sc := range scs {
			sc.props, sc.quick, sc.deep = props, quick, thorough
			out = append(out, sc)
		}
	}
	ex := exits()
	add("C01 C02 C05", 2, 3, ex...)
	for _, sc := range ex {
		add("C01 C02 C05", 1, 2, variant(sc, "input from /dev/tty", noTTY))
	}

	for _, late := range []scenario{
		{key: "a command of a sequence ends late", init: func(w *world) bento.Cmd {
			return bento.Sequence(w.late("h"), w.never("b"), w.never("c"))
		}},
		{key: "a command of a nested sequence ends late", init: func(w *world) bento.Cmd {
			return bento.Sequence(w.leaf("a"), bento.Sequence(w.late("h"), w.never("b")), w.never("c"))
		}},
		{key: "a batch in a sequence ends late", init: func(w *world) bento.Cmd {
			return bento.Sequence(bento.Batch(w.late("h"), bento.Sequence(w.late("h2"), w.never("b"))), bento.Batch(w.never("c"), w.never("d")))
		}},
		{key: "a sequence in a batch ends late", init: func(w *world) bento.Cmd {
			return bento.Batch(bento.Sequence(w.late("h"), w.never("b")), w.leaf("a"))
		}},
	} {
		late.noIdle = true
		late.env = killer
		add("C02", 2, 3, late)
		late.key += ", quit key"
		late.update, late.env = quitKey, lastly("q")
		add("C02", 1, 2, late)
	}

	// input that is announced and then taken by somebody else
	for _, sc := range []scenario{
		{key: "quit command", init: func(w *world) bento.Cmd { return bento.Sequence(w.leaf("a"), w.leaf("q")) }},
		{key: "context cancelled", init: busyInit, env: killer},
		{key: "panic in a command", init: func(w *world) bento.Cmd { return w.leaf("p") }},
	} {
		env := sc.env
		sc.key += ", the input is stolen"
		sc.stolen, sc.noIdle = true, true
		sc.env = func(w *world) {
			vs.Env("thief", func() {
				vs.Pause("type x")
				w.typing("x")
				vs.Wait("the announcement of the input", func() bool { return w.dev.Announced })
				w.dev.In = nil
			})
			if env != nil {
				env(w)
			}
		}
		add("C01 C02", 2, 3, sc)
		add("C01 C02", 1, 2, variant(sc, "input from /dev/tty", noTTY))
	}

	// one program after the other
	next := &scenario{init: busyInit, update: busyUpdate, env: envs(typist("x"), resizer([2]int{6, 3}), lastly("q"))}
	for _, sc := range []scenario{
		{key: "quit key", init: busyInit, update: busyUpdate, env: envs(typist("x"), lastly("q"))},
		{key: "quit command", init: func(w *world) bento.Cmd { return w.leaf("q") }, env: resizer([2]int{5, 3})},
		{key: "context cancelled", init: busyInit, update: busyUpdate, env: envs(resizer([2]int{5, 3}), killer)},
		{key: "panic in a command", init: func(w *world) bento.Cmd { return w.leaf("p") }},
		{key: "panic in Update", update: func(w *world, m bento.Msg) bento.Cmd { panicWith(w, "Update"); return nil }, env: typist("x")},
		{key: "hanging command", init: func(w *world) bento.Cmd { return w.hang("h") }, update: quitKey, env: lastly("q")},
	} {
		sc.key += ", then another program"
		sc.next = next
		add("C01 C02 C04 C05 C06", 1, 2, sc)
		add("C01 C02 C05", 0, 1, variant(sc, "input from /dev/tty", noTTY))
	}

	// faults: each write, transient, lasting, or cut short
	fault := func(op string, f vs.Fault) func(d *vs.Device) {
		return func(d *vs.Device) { d.Faults = map[string]vs.Fault{op: f} }
	}
	base := []scenario{
		{key: "quit key", init: busyInit, update: busyUpdate, env: envs(typist("x"), lastly("q")), lax: true},
		{key: "context cancelled", init: busyInit, update: busyUpdate, env: envs(resizer([2]int{5, 3}), killer), lax: true},
		{key: "panic in a command", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("a"), w.leaf("p")) }, env: envs(typist("x"), killer), lax: true, noIdle: true},
	}
	for _, sc := range base {
		for n := 0; n < 24; n++ {
			for _, f := range []vs.Fault{{N: n}, {N: n, Always: true}, {N: n, Short: true}, {N: n, Late: true}} {
				name := fmt.Sprintf("write %d fails", n)
				if f.Always {
					name += " and all after it"
				}
				if f.Short {
					name += " half way"
				}
				if f.Late {
					name += " after it was done"
				}
				add("C01 C02", 1, 2, variant(sc, name, fault("write", f)))
				add("C05", 0, 1, variant(sc, name, fault("write", f)))
			}
		}
		for n := 0; n < 4; n++ {
			add("C01 C02 C05", 1, 2, variant(sc, fmt.Sprintf("size query %d fails", n), fault("getsize", vs.Fault{N: n})))
		}
		add("C01 C02 C05", 1, 2, variant(sc, "raw mode fails", fault("makeraw", vs.Fault{})),
			variant(sc, "restoring the mode fails", fault("restore", vs.Fault{})),
			variant(sc, "making the reader fails", fault("newreader", vs.Fault{})),
			variant(sc, "no /dev/tty", func(d *vs.Device) { d.StdinTTY = false; d.NoTTY = true }),
			variant(sc, "size query fails from then on, input from /dev/tty", func(d *vs.Device) {
				d.StdinTTY = false
				d.Faults = map[string]vs.Fault{"getsize": {Always: true}}
			}))
	}
	// frames of several thousand bytes, which are written in pieces
	for _, sc := range base {
		big := func(f *vs.Fault) func(d *vs.Device) {
			return func(d *vs.Device) {
				d.W, d.H = 120, 60
				if f != nil {
					d.Faults = map[string]vs.Fault{"write": *f}
				}
			}
		}
		for n := 0; n < 20; n++ {
			for k, f := range []vs.Fault{{N: n}, {N: n, Always: true}, {N: n, Short: true}} {
				add("C01 C02", 0, 1, variant(sc, fmt.Sprintf("a large screen, write %d fails %d", n, k), big(&f)))
			}
		}
		sc.lax = false
		add("C04 C06", 0, 1, variant(sc, "a large screen", big(nil)))
	}

	// two faults: a write and the restoration of the mode
	for n := 0; n < 16; n++ {
		add("C01", 0, 1, variant(base[0], fmt.Sprintf("write %d and restoring the mode fail", n), func(d *vs.Device) {
			d.Faults = map[string]vs.Fault{"write": {N: n}, "restore": {}}
		}))
	}

	add("C03 C04 C05 C06", 1, 2, slow()...)
	add("C03", 1, 2, crowd(3)...)
	add("C03", 0, 1, crowd(40)...)

	// trees of commands
	if prop == "C03" {
		small := trees(1, 2, "ln0")
		var ts []node
		ts = append(ts, small...)
		for _, a := range trees(1, 2, "ln0") {
			for _, k := range "BSL" {
				ts = append(ts, node{byte(k), []node{a, {kind: 'l'}}}, node{byte(k), []node{{kind: 'l'}, a}})
			}
		}
		// two structured parts, and three levels
		pairs := []node{}
		for _, k := range "BSL" {
			pairs = append(pairs, node{byte(k), []node{{kind: 'l'}, {kind: 'l'}}}, node{byte(k), []node{{kind: 'l'}, {kind: '0'}}}, node{byte(k), nil})
		}
		for _, k := range "BSL" {
			for _, a := range pairs {
				for _, b := range pairs {
					ts = append(ts, node{byte(k), []node{a, b}})
				}
				for _, l := range "BSL" {
					ts = append(ts, node{byte(k), []node{{kind: 'l'}, {byte(l), []node{a, {kind: 'l'}}}}}, node{byte(k), []node{{byte(l), []node{a}}, {kind: 'l'}}})
				}
			}
		}
		for _, k := range "BSL" {
			ts = append(ts, node{byte(k), []node{{kind: 'l'}, {kind: 'l'}, {kind: 'l'}}}, node{byte(k), []node{{kind: 'l'}, {kind: '0'}, {kind: 'n'}, {kind: 'l'}}})
		}
		seen := map[string]bool{}
		for _, t := range ts {
			if seen[t.String()] || t.leaves() > 5 {
				continue
			}
			seen[t.String()] = true
			q := 1
			if len(t.String()) <= 8 {
				q = 2
			}
			add("C03", q, 2, scenario{key: "Init returns " + t.String(), init: func(w *world) bento.Cmd {
				c, _ := w.build(t, "")
				return c
			}, env: killer})
			add("C03", 1, 2, scenario{key: "Update returns " + t.String(), update: func(w *world, m bento.Msg) bento.Cmd {
				return w.onKeys(m, map[string]func() bento.Cmd{"c": func() bento.Cmd {
					if w.cmds["x"] != nil {
						return nil
					}
					w.leaf("x")
					w.cmds["x"].starts, w.cmds["x"].ends, w.cmds["x"].arrived = 1, 1, 1
					c, _ := w.build(t, "")
					return c
				}})
			}, env: envs(typist("c"), killer)})
		}
		add("C03", 2, 3,
			scenario{key: "many commands", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("a"), w.leaf("b"), w.leaf("c")) }, update: func(w *world, m bento.Msg) bento.Cmd {
				if t, ok := m.(tmsg); ok && len(t.id) < 3 {
					return w.leaf(t.id + "x")
				}
				return nil
			}, env: killer},
			scenario{key: "sequence, keys and resizes", init: func(w *world) bento.Cmd { return bento.Sequence(w.leaf("a"), w.leaf("n1"), w.leaf("b")) }, env: envs(typist("xy"), resizer([2]int{5, 3}), killer)},
			scenario{key: "ticks", init: func(w *world) bento.Cmd {
				w.leaf("t1")
				w.leaf("t2")
				return bento.Batch(w.tick(20, "t1"), w.tick(10, "t2"))
			}, env: func(w *world) {
				vs.Env("kill", func() {
					vs.Wait("both ticks", func() bool { return len(w.order) == 2 })
					w.kill()
				})
			}},
			scenario{key: "commands and quit", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("a"), w.leaf("b")) }, update: busyUpdate, env: lastly("q")},
			scenario{key: "a command that hangs", init: func(w *world) bento.Cmd {
				return bento.Batch(w.hang("h"), bento.Sequence(w.leaf("a"), w.leaf("b")), w.leaf("c"))
			}, env: killer},
		)
	}

	// serial, ordered, drawn
	add("C04", 2, 3,
		scenario{key: "keys and commands", init: busyInit, update: busyUpdate, env: envs(typist("xc", "y"), killer)},
		scenario{key: "keys, commands, resizes", init: busyInit, update: busyUpdate, env: envs(typist("x"), resizer([2]int{5, 3}, [2]int{3, 1}), killer)},
		scenario{key: "keys and quit", init: busyInit, update: busyUpdate, env: envs(typist("xy"), lastly("q"))},
		scenario{key: "quit while busy", init: busyInit, update: busyUpdate, env: typist("xqy")},
		scenario{key: "sequence and keys", init: func(w *world) bento.Cmd { return bento.Sequence(w.leaf("a"), w.leaf("b"), w.leaf("c")) }, env: envs(typist("xy"), killer)},
		scenario{key: "batch in sequence and keys", init: func(w *world) bento.Cmd {
			return bento.Sequence(bento.Batch(w.leaf("a"), w.leaf("b")), w.leaf("c"))
		}, env: envs(typist("x", "y"), killer)},
		scenario{key: "resizes", env: envs(resizer([2]int{5, 3}, [2]int{2, 2}), killer)},
		scenario{key: "there and back", env: envs(resizer([2]int{5, 3}, [2]int{4, 2}), killer)},
		scenario{key: "no size", dev: func(d *vs.Device) { d.W, d.H = 0, 0 }, env: envs(typist("x"), resizer([2]int{3, 2}), killer)},
		scenario{key: "panic in Update", init: busyInit, update: func(w *world, m bento.Msg) bento.Cmd {
			if w.updates == 3 {
				panicWith(w, "Update")
			}
			return nil
		}, env: typist("xy")},
		scenario{key: "panic in a command while drawing", init: func(w *world) bento.Cmd { return bento.Batch(w.leaf("p"), w.leaf("a")) }, env: typist("x")},
	)

	// models of all kinds
	for kind, name := range []string{"", "a pointer", "not comparable", "of changing type"} {
		if kind > 0 {
			add("C04", 1, 2,
				scenario{key: "keys and commands, the model is " + name, kind: kind, init: busyInit, update: busyUpdate, env: envs(typist("xc", "y"), resizer([2]int{5, 3}), killer)},
				scenario{key: "keys and quit, the model is " + name, kind: kind, init: busyInit, update: busyUpdate, env: envs(typist("xy"), lastly("q"))},
				scenario{key: "panic in Update, the model is " + name, kind: kind, update: func(w *world, m bento.Msg) bento.Cmd {
					if w.updates == 3 {
						panicWith(w, "Update")
					}
					return nil
				}, env: typist("xy")})
		}
	}
	add("C04 C05", 1, 2,
		scenario{key: "one key again and again", init: busyInit, update: busyUpdate, env: envs(typist("aaa", "a", "a"), killer)},
		scenario{key: "mouse, focus and pastes", init: busyInit, update: busyUpdate, env: envs(
			typist("\x1b[<35;1;1M\x1b[<35;2;1M\x1b[<35;3;1Ma", "\x1b[O\x1b[I\x1b[Ib", "\x1b[200~pp\x1b[201~\x1b[200~p\x1b[201~", "\x1b[<35;3;1M\x1b[<35;3;1M"), killer)},
	)

	// the input
	add("C05", 2, 3,
		scenario{key: "long input, then quit", update: quitKey, env: envs(typist("abc", "deq", "f"))},
		scenario{key: "input at any time, quit by command", init: func(w *world) bento.Cmd { return bento.Sequence(w.leaf("a"), w.leaf("q")) }, env: typist("x", "y")},
		scenario{key: "input at any time, cancel", env: envs(typist("abc", "d"), killer)},
		scenario{key: "a paste and keys", env: envs(typist("ab", "cd", "e"), killer), init: busyInit},
	)

	// the size
	add("C06", 3, 4,
		scenario{key: "one resize", env: envs(resizer([2]int{5, 3}), killer)},
		scenario{key: "two resizes", env: envs(resizer([2]int{5, 3}, [2]int{6, 1}), killer)},
		scenario{key: "there and back", env: envs(resizer([2]int{5, 3}, [2]int{4, 2}), killer)},
	)
	add("C06", 2, 3,
		scenario{key: "two resizes and keys", env: envs(typist("ab"), resizer([2]int{5, 3}, [2]int{2, 1}), killer)},
		scenario{key: "a resize and commands", init: busyInit, update: busyUpdate, env: envs(resizer([2]int{5, 3}), killer)},
		scenario{key: "to nothing and back", env: envs(resizer([2]int{0, 0}, [2]int{3, 2}), killer)},
		scenario{key: "from nothing", dev: func(d *vs.Device) { d.W, d.H = 0, 0 }, env: envs(resizer([2]int{3, 2}), killer)},
		scenario{key: "one resize, input from /dev/tty", dev: noTTY, env: envs(resizer([2]int{5, 3}), killer)},
		scenario{key: "a hanging command", init: func(w *world) bento.Cmd { return w.hang("h") }, env: envs(resizer([2]int{5, 3}), killer)},
	)
	add("C06", 1, 2,
		scenario{key: "four resizes", env: envs(resizer([2]int{5, 3}, [2]int{2, 1}, [2]int{6, 2}, [2]int{4, 2}), killer)},
	)
	return out
}

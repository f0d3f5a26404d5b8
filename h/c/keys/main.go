// C12, C13, C14: the input decoder against a reference decoder.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzverif/vk"
)

func main() {
	switch os.Getenv("VERIF_PROP") {
	case "C12":
		tokens()
	case "C13":
		cuts()
	case "C14":
		mouse()
	}
}

// reader hands out reads one by one; the last comes with the end of input if joined.
type reader struct {
	reads  [][]byte
	joined bool
	before func()
	done   int // reads handed out in full
	ended  int
}

func (r *reader) Read(p []byte) (int, error) {
	r.before()
	if len(r.reads) == 0 {
		if r.ended++; r.ended > 3 {
			panic("the decoder goes on reading after the end of input")
		}
		return 0, io.EOF
	}
	n := copy(p, r.reads[0])
	if r.reads[0] = r.reads[0][n:]; len(r.reads[0]) > 0 {
		return n, nil
	}
	r.reads, r.done = r.reads[1:], r.done+1
	if len(r.reads) == 0 && r.joined {
		return n, io.EOF
	}
	return n, nil
}

// run decodes reads; a message is looked at when it arrives and again at the end.
func run(reads [][]byte, joined bool) ([]item, string) {
	total := 0
	for _, r := range reads {
		total += len(r)
	}
	ch := make(chan bento.Msg, 2*total+8)
	var msgs []bento.Msg
	var items []item
	drain := func() {
		for len(ch) > 0 {
			m := <-ch
			msgs = append(msgs, m)
			items = append(items, observe(m))
		}
	}
	due := expectBefore(reads)
	late := ""
	in := &reader{reads: append([][]byte{}, reads...), joined: joined}
	in.before = func() {
		drain()
		if k := in.done; k < len(due) && late == "" && len(in.reads) > 0 && len(in.reads[0]) == len(reads[k]) {
			if got := merge(items); len(got) < due[k].n {
				late = fmt.Sprintf("after %d reads, before the next one, only %s was delivered: %d messages of %d", k, list(got), len(got), due[k].n)
			} else if due[k].all != nil && !same(got, due[k].all) {
				late = fmt.Sprintf("after %d reads, before the next one, this was delivered: %s\ninstead of: %s", k, list(got), list(due[k].all))
			}
		}
	}
	err := bento.VerifReadInputs(context.Background(), ch, in)
	drain()
	if late != "" {
		return nil, late
	}
	for i, m := range msgs {
		if now := observe(m); now != items[i] {
			return nil, fmt.Sprintf("message %d was %v when it was delivered and is %v now", i, items[i], now)
		}
	}
	if err == nil || !errors.Is(err, io.EOF) {
		return nil, fmt.Sprintf("at the end of input the decoder returns %v", err)
	}
	return merge(items), ""
}

func check(r *vk.Run, reads [][]byte, joined bool) string {
	got, m := run(reads, joined)
	if m != "" {
		return m
	}
	r.Trans(len(got))
	if want := expect(reads); !same(got, want) {
		return fmt.Sprintf("decoded as: %s\ninstead of: %s", list(got), list(want))
	}
	return ""
}

func caseOf(r *vk.Run, w *vk.Worker, reads [][]byte, joined bool) {
	w.Case(func() string {
		if len(reads) > 0 && len(reads[0]) > 60 {
			var s []string
			for _, x := range reads {
				s = append(s, fmt.Sprintf("%d bytes %.20q...%q", len(x), x, x[max(0, len(x)-24):]))
			}
			return fmt.Sprintf("reads %s, end with the last: %v", strings.Join(s, ", "), joined)
		}
		return fmt.Sprintf("reads %q, end with the last: %v", reads, joined)
	}, func() string { return check(r, reads, joined) })
	r.Trace(1)
}

// reps are one or more tokens of every kind, and things that look like them.
var reps = []string{
	"a", "Z", "é", "世", "\xf0\x9f\x98\x80", "\ufffd", " ", "\x00", "\x01", "\r", "\x7f", "\x1b", "\x1ba", "\x1b世", "\x1b ", "\x1b\x7f", "\x1b\x00",
	"\x1b[A", "\x1b\x1b[A", "\x1b[1;5D", "\x1b[3~", "\x1b[15;2~", "\x1b[OA", "\x1b[Oa", "\x1bOP", "\x1bOA", "\x1b[[A", "\x1b[7$", "\x1b[7@", "\x1b[1;3P",
	"\x1b[I", "\x1b[O", "\x1b[200~pa st\x1b[A\n世\x1b[201~", "\x1b[200~\x1b[201~", "\x1b[200~x", "\x1b[201~",
	"\x1b[<0;1;1M", "\x1b[<64;12;345m", "\x1b[<35;200;3M", "\x1b[M !!", "\x1b[M\xff\xff\x80", "\x1b[M#\x1b[", "\x1b[M", "\x1b[M a",
	"\x1b[<0;1M", "\x1b[<0;1;2;3M", "\x1b[<", "\x1b[<0;1;1", "\x1b[<a0;1;1M", "0;1;1M", "\x1b[?1;2c", "\x1b[12;34R", "\x1b[99~", "\x1b[1;9A", "\x1b[4 q", "\x1b[", "\x1b[1;", "\x1b[\x01", "\x1b[é",
	"\x1bO", "\x1b]0;t\x07", "\xff", "\xc3", "\xe4\xb8", "\x80", "\x1b\xff", "\u0085",
}

func tokens() {
	r := vk.New("C12", 240*time.Second, 900*time.Second)
	alphabet := []byte{27, 27, '[', 'M', '<', '0', '1', ';', 'm', '~', 'A', 'O', 'I', '2', ' ', 0, 0x7f, 0xc3, 0xa9, 0xe4, 0xff}[1:]
	depth, triple := 4, 24
	if r.Thorough {
		depth, triple = 5, len(reps)
	}
	var all []string
	for s := range table {
		all = append(all, s)
	}
	r.Bound("all strings of up to %d bytes over the %d bytes %q, as one read, as one read with the end of input, and cut in two reads everywhere; each of %d known sequences before and after each of %d pieces of input; all pairs of the pieces and triples of %d of them", depth, len(alphabet), alphabet, len(all), len(reps), triple)
	r.Assume("a read that does not fill the buffer ends a sequence that it cuts; after an escape that begins nothing, the escape byte is an unknown byte or the escape key; bytes of a paste that are not UTF-8 are dropped or replaced; adjacent text may arrive in any number of messages")
	both := func(w *vk.Worker, s string) {
		caseOf(r, w, [][]byte{[]byte(s)}, false)
		caseOf(r, w, [][]byte{[]byte(s)}, true)
		r.StateStr(s)
	}
	var jobs []func(w *vk.Worker)
	for _, a := range alphabet {
		for _, b := range alphabet {
			jobs = append(jobs, func(w *vk.Worker) {
				var rec func(s []byte)
				rec = func(s []byte) {
					if r.Stop() {
						return
					}
					both(w, string(s))
					for k := 1; k < len(s); k++ {
						caseOf(r, w, [][]byte{s[:k:k], s[k:]}, k%2 == 0)
					}
					if len(s) < depth {
						for _, c := range alphabet {
							rec(append(s[:len(s):len(s)], c))
						}
					}
				}
				rec([]byte{a, b})
			})
		}
	}
	jobs = append(jobs, func(w *vk.Worker) {
		for _, a := range alphabet {
			both(w, string(a))
		}
		for b := 0; b < 256; b++ {
			for c := 0; c < 256; c++ {
				both(w, string([]byte{byte(b), byte(c)}))
				both(w, string([]byte{27, byte(b), byte(c)}))
				both(w, string([]byte{27, '[', byte(b), byte(c)}))
			}
		}
	})
	for _, s := range all {
		jobs = append(jobs, func(w *vk.Worker) {
			both(w, s)
			for _, t := range reps {
				both(w, s+t)
				both(w, t+s)
			}
			for b := 0; b < 256; b++ {
				both(w, s+string([]byte{byte(b)}))
			}
			r.Sample(fmt.Sprintf("%q before and after every piece", s))
		})
	}
	for i, a := range reps {
		for j, b := range reps {
			jobs = append(jobs, func(w *vk.Worker) {
				both(w, a+b)
				caseOf(r, w, [][]byte{[]byte(a), []byte(b)}, true)
				if i%(len(reps)/triple) == 0 && j%(len(reps)/triple) == 0 || r.Thorough {
					for k, c := range reps {
						if k%(len(reps)/triple) == 0 || r.Thorough {
							both(w, a+b+c)
							caseOf(r, w, [][]byte{[]byte(a + b), []byte(c)}, false)
						}
					}
				}
			})
		}
	}
	r.Parallel(len(jobs), func(w *vk.Worker, i int) {
		if !r.Stop() {
			jobs[i](w)
		}
	})
	r.Finish()
}

// pad is n bytes of input that do not run into what follows, or do.
func pad(kind, n int) string {
	switch kind {
	case 0:
		return strings.Repeat("x", n)
	case 1: // ends in a control character
		if n == 0 {
			return ""
		}
		return strings.Repeat("x", n-1) + "\r"
	case 2: // ends in a sequence
		if n >= 3 {
			return strings.Repeat("x", n-3) + "\x1b[B"
		}
		return strings.Repeat(" ", n)
	case 3: // inside a paste that began before
		if n >= 6 {
			return "\x1b[200~" + strings.Repeat("p", n-6)
		}
		return strings.Repeat(" ", n)
	case 4: // two-byte characters
		return strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
	}
	panic(kind)
}

func cuts() {
	r := vk.New("C13", 240*time.Second, 900*time.Second)
	var ss []string
	for s := range table {
		ss = append(ss, s)
	}
	ss = append(ss, reps...)
	second := []int{}
	for i := range reps {
		if i%4 == 0 || r.Thorough {
			second = append(second, i)
		}
	}
	r.Bound("each of %d pieces of input (every known sequence, reports, pastes, text, unknown and broken sequences) cut by the end of a full read at each of its bytes, after 5 kinds of input, followed by nothing, by each of %d other pieces, by another full read, or by the end of input in the same read; all of %d pieces cut by both ends of a full read; pastes, text and sequences longer than two reads", len(ss), len(second), len(reps))
	r.Assume("the decoder reads at most %d bytes at a time; a read of fewer bytes is an event boundary", bufSize)
	var jobs []func(w *vk.Worker)
	split := func(s string) [][]byte {
		var out [][]byte
		for len(s) > bufSize {
			out = append(out, []byte(s[:bufSize]))
			s = s[bufSize:]
		}
		return append(out, []byte(s))
	}
	for _, s := range ss {
		jobs = append(jobs, func(w *vk.Worker) {
			for k := 0; k <= len(s); k++ {
				for kind := 0; kind < 5; kind++ {
					if r.Stop() {
						return
					}
					in := pad(kind, bufSize-k) + s
					caseOf(r, w, split(in), false)
					caseOf(r, w, split(in), true)
					if k < len(s) { // the read that fills the buffer comes with the end of input
						caseOf(r, w, [][]byte{[]byte(in[:bufSize])}, true)
						caseOf(r, w, [][]byte{[]byte(in[:bufSize])}, false)
					}
					caseOf(r, w, split(in+pad(1, 2*bufSize-len(in))), false)
					caseOf(r, w, split(in+pad(0, 2*bufSize-len(in))+"tail"), false)
					for _, i := range second {
						caseOf(r, w, split(in+reps[i]), i%2 == 0)
					}
					r.StateStr(in)
				}
			}
			r.Sample(fmt.Sprintf("%q cut everywhere", s))
		})
	}
	for i, a := range reps {
		jobs = append(jobs, func(w *vk.Worker) {
			for j, b := range reps {
				if (i+j)%3 != 0 && !r.Thorough {
					continue
				}
				for k := 0; k <= len(a); k++ {
					for l := 0; l <= len(b); l++ {
						if r.Stop() {
							return
						}
						kind := (i + j) % 3
						in := pad(kind, bufSize-k) + a
						in += pad((kind+k)%3, 2*bufSize-l-len(in)) + b
						caseOf(r, w, split(in+"q\x1b[C"), l%2 == 0)
					}
				}
			}
		})
	}
	for _, n := range []int{240, 250, 256, 300, 505, 512, 700, 1300} {
		for _, unit := range []string{"x", "é", "世", "\xf0\x9f\x98\x80", "y "} {
			long := strings.Repeat(unit, n/len(unit))
			jobs = append(jobs, func(w *vk.Worker) {
				for d := 0; d < 12; d++ {
					lead := strings.Repeat("\r", d)
					for _, s := range []string{long, "\x1b[200~" + long + "\x1b[201~", "\x1b[200~" + long, "\x1b[200~" + long + "\x1b[201~\x1b[A", "\x1b[" + strings.Repeat("1;", n/2) + "z", "\x1b" + long, strings.Repeat("\x1b", n), strings.Repeat("\x1b[A", n/3), long + "\xe4\xb8"} {
						caseOf(r, w, split(lead+s), false)
						caseOf(r, w, split(lead+s), true)
						caseOf(r, w, append(split(lead+s), []byte("z")), false)
					}
				}
			})
		}
	}
	r.Parallel(len(jobs), func(w *vk.Worker, i int) {
		if !r.Stop() {
			jobs[i](w)
		}
	})
	r.Finish()
}

// names checks the text of every event against its parts.
func names(r *vk.Run) {
	r.Bound("the texts of all events of 11 buttons or none, 3 actions and 8 sets of modifiers")
	buttons := []string{"", "left", "middle", "right", "wheel up", "wheel down", "wheel left", "wheel right", "backward", "forward", "button 10", "button 11"}
	w := r.NewWorker()
	defer w.Close()
	for b, name := range buttons {
		for a, act := range []string{"press", "release", "motion"} {
			for mods := 0; mods < 8; mods++ {
				if b == 0 && a == 0 {
					continue
				}
				m := bento.MouseEvent{X: 3, Y: 4, Ctrl: mods&1 != 0, Alt: mods&2 != 0, Shift: mods&4 != 0, Action: bento.MouseAction(a), Button: bento.MouseButton(b)}
				want := ""
				for k, s := range []string{"ctrl+", "alt+", "shift+"} {
					if mods>>k&1 != 0 {
						want += s
					}
				}
				wheel := b >= 4 && b <= 7
				switch {
				case b == 0:
					want += act
				case wheel:
					want += name
				default:
					want += name + " " + act
				}
				w.Case(func() string { return fmt.Sprintf("the text of %+v", m) }, func() string {
					r.Trans(3)
					if m.IsWheel() != wheel {
						return fmt.Sprintf("IsWheel is %v", !wheel)
					}
					if got := m.String(); got != want {
						return fmt.Sprintf("event: %q, want %q", got, want)
					}
					if got := bento.MouseMsg(m).String(); got != want {
						return fmt.Sprintf("message: %q, want %q", got, want)
					}
					return ""
				})
			}
		}
	}
}

func mouse() {
	r := vk.New("C14", 240*time.Second, 900*time.Second)
	var jobs []func(w *vk.Worker)
	coords := []int{1, 2, 3, 9, 10, 80, 99, 100, 223, 224, 255, 256, 999, 1000, 32767, 65536}
	around := [][2]string{{"", ""}, {"a", ""}, {"", "a"}, {"", "M"}, {"\x1b", ""}, {"\x1b[A", "\x1b[<0;1;1M"}, {"", "\x1b"}, {"7", "7m"}, {"\x1b[M !!", "\x1b[M!!!"}, {"\x1b[200~\x1b[<0;1;1M\x1b[201~", ";1M"}}
	r.Bound("SGR: button codes 0..191, coordinates %v in both places, press and release; X10: button bytes 32..223, all coordinate bytes 33..255 in both places for 24 of them; each alone and between %d other pieces of input, and in two reads; resembling text of up to 7 bytes over M m < ; digits after the introducer", coords, len(around))
	r.Assume("codes 192 and above have no meaning; a code of no button (3) is a release unless it is motion")
	names(r)
	put := func(w *vk.Worker, s string, i int) {
		a := around[i]
		caseOf(r, w, [][]byte{[]byte(a[0] + s + a[1])}, i%2 == 0)
	}
	for code := 0; code < 192; code++ {
		jobs = append(jobs, func(w *vk.Worker) {
			for _, x := range coords {
				for _, y := range coords {
					for _, f := range []string{"M", "m"} {
						s := fmt.Sprintf("\x1b[<%d;%d;%d%s", code, x, y, f)
						put(w, s, 0)
						r.StateStr(s)
						if r.Stop() {
							return
						}
					}
				}
			}
			for i := range around {
				for _, f := range []string{"M", "m"} {
					put(w, fmt.Sprintf("\x1b[<%d;12;7%s", code, f), i)
					put(w, fmt.Sprintf("\x1b[<%03d;012;1%s", code, f), i)
				}
				for _, x := range []byte{33, 34, 127, 128, 200, 255} {
					put(w, string([]byte{27, '[', 'M', byte(code + 32), x, 48}), i)
					put(w, string([]byte{27, '[', 'M', byte(code + 32), 50, x}), i)
				}
			}
			if code%8 == 3 || r.Thorough {
				for x := 33; x < 256; x++ {
					for y := 33; y < 256; y++ {
						s := string([]byte{27, '[', 'M', byte(code + 32), byte(x), byte(y)})
						put(w, s, 0)
						if r.Stop() {
							return
						}
					}
				}
			}
			r.Sample(fmt.Sprintf("button code %d", code))
		})
	}
	for _, intro := range []string{"\x1b[<", "\x1b[", "\x1b<", "\x1b[<0;1;1"} {
		for _, first := range "Mm<;012a" {
			jobs = append(jobs, func(w *vk.Worker) {
				var rec func(s string)
				rec = func(s string) {
					if r.Stop() {
						return
					}
					caseOf(r, w, [][]byte{[]byte(s)}, false)
					r.StateStr(s)
					if len(s) < len(intro)+6 {
						for _, c := range "Mm<;012a" {
							rec(s + string(c))
						}
					}
				}
				rec(intro + string(first))
			})
		}
	}
	r.Parallel(len(jobs), func(w *vk.Worker, i int) {
		if !r.Stop() {
			jobs[i](w)
		}
	})
	r.Finish()
}

package main

// An exact linear program: minimise the weighted sum of violations of soft
// constraints over positions a_i (starts) and e_i (ends) of the segments, all
// arithmetic in integers (Edmonds' fraction-free pivoting, Bland's rule).

import (
	"math/big"
	"math/bits"

	"github.com/metafates/bento"
)

// lin is a linear expression over the starts and ends of segments: variable
// 2i is the start of segment i, 2i+1 its end; constant in units.
type lin struct {
	co []int64
	k  int64
}

type soft struct {
	lin        // compared with zero
	op  int    // -1: <= 0, 0: = 0, 1: >= 0
	w   int64  // weight
	why string // for messages
}

type problem struct {
	n     int
	unit  int64 // units per cell
	width int64 // in units
	softs []soft
}

const (
	wRequired = 1_001_001_000
	wStrong   = 1_000_000
	wMedium   = 1_000
	wWeak     = 1
)

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// model states what a layout asks for.
func (c cfg) model() *problem {
	n := len(c.cs)
	p := &problem{n: n, unit: 1000}
	zeroFill, someFill := false, false
	for _, x := range c.cs {
		switch x := x.(type) {
		case bento.ConstraintRatio:
			d := int64(max(1, x.Den))
			p.unit = p.unit / gcd(p.unit, d) * d
		case bento.ConstraintFill:
			if x <= 0 {
				zeroFill = true
			} else {
				someFill = true
			}
		case bento.ConstraintMin:
			someFill = true
		}
	}
	p.width = int64(c.w) * p.unit
	if n == 0 {
		return p
	}
	// all weights are multiplied by wmul, so that tiny fill factors stay integers
	wmul := int64(1)
	const tiny = 1_000_000
	if zeroFill && someFill {
		wmul = tiny
	}
	zero := func() lin { return lin{co: make([]int64, 2*n)} }
	konst := func(k int64) lin { l := zero(); l.k = k; return l }
	sub := func(a, b lin) lin {
		r := zero()
		for i := range r.co {
			r.co[i] = a.co[i] - b.co[i]
		}
		r.k = a.k - b.k
		return r
	}
	mul := func(a lin, f int64) lin {
		r := zero()
		for i := range r.co {
			r.co[i] = a.co[i] * f
		}
		r.k = a.k * f
		return r
	}
	seg := func(i int) lin { l := zero(); l.co[2*i+1] = 1; l.co[2*i] = -1; return l }
	gap := func(i int) lin {
		l := zero()
		if i > 0 {
			l.co[2*i-1] = -1
		}
		if i < n {
			l.co[2*i] = 1
		} else {
			l.k = p.width
		}
		return l
	}
	want := func(l lin, op int, w int64, why string) {
		p.softs = append(p.softs, soft{l, op, w * wmul, why})
	}
	eq := func(a, b lin, w int64, why string) { want(sub(a, b), 0, w, why) }

	const (
		wSpacer = wRequired / 10
		wEmpty  = wRequired - 1
		wGrow   = 100
	)
	sp := konst(int64(c.sp) * p.unit)
	whole := konst(p.width)
	none := konst(0)
	first, last := 0, n

	switch c.flex {
	case bento.FlexLegacy, bento.FlexStart, bento.FlexEnd, bento.FlexCenter:
		for i := 1; i < n; i++ {
			eq(gap(i), sp, wSpacer, "spacing")
		}
		switch c.flex {
		case bento.FlexLegacy:
			eq(gap(first), none, wEmpty, "no space before")
			eq(gap(last), none, wEmpty, "no space after")
		case bento.FlexStart:
			eq(gap(first), none, wEmpty, "no space before")
			eq(gap(last), whole, wGrow, "excess after")
		case bento.FlexEnd:
			eq(gap(last), none, wEmpty, "no space after")
			eq(gap(first), whole, wGrow, "excess before")
		case bento.FlexCenter:
			eq(gap(first), whole, wGrow, "excess before")
			eq(gap(last), whole, wGrow, "excess after")
			eq(gap(first), gap(last), wSpacer, "centred")
		}
	case bento.FlexSpaceBetween, bento.FlexSpaceAround:
		lo, hi := 1, n-1
		if c.flex == bento.FlexSpaceAround {
			lo, hi = 0, n
		} else {
			eq(gap(first), none, wEmpty, "no space before")
			eq(gap(last), none, wEmpty, "no space after")
		}
		for i := lo; i <= hi; i++ {
			for j := i + 1; j <= hi; j++ {
				eq(gap(i), gap(j), wSpacer, "equal spaces")
			}
			want(sub(gap(i), sp), 1, wSpacer, "minimal spacing")
			eq(gap(i), whole, 10*wWeak, "excess between")
		}
	}

	type fill struct {
		i int
		f int64 // factor, 0 for next to nothing
	}
	var fills []fill
	for i, x := range c.cs {
		size := func(v int) lin { return konst(int64(v) * p.unit) }
		switch x := x.(type) {
		case bento.ConstraintMax:
			want(sub(seg(i), size(int(x))), -1, 100*wStrong, "max")
			eq(seg(i), size(int(x)), 10*wMedium, "max preferred")
		case bento.ConstraintMin:
			want(sub(seg(i), size(int(x))), 1, 100*wStrong, "min")
			if c.flex == bento.FlexLegacy {
				eq(seg(i), size(int(x)), 10*wMedium, "min preferred")
			} else {
				eq(seg(i), whole, wMedium, "min grows")
				fills = append(fills, fill{i, 1})
			}
		case bento.ConstraintLen:
			eq(seg(i), size(int(x)), 10*wStrong, "length")
		case bento.ConstraintPercentage:
			eq(seg(i), konst(p.width*int64(x)/100), wStrong, "percentage")
		case bento.ConstraintRatio:
			eq(seg(i), konst(p.width*int64(x.Num)/int64(max(1, x.Den))), wStrong/10, "ratio")
		case bento.ConstraintFill:
			eq(seg(i), whole, wMedium, "fill")
			fills = append(fills, fill{i, int64(max(0, int(x)))})
		}
	}
	for i := range fills {
		for j := i + 1; j < len(fills); j++ {
			a, b := fills[i], fills[j]
			w := int64(wGrow) * wmul
			if a.f == 0 && b.f == 0 {
				a.f, b.f = 1, 1
			} else if a.f == 0 || b.f == 0 {
				// in millionths
				one := func(f int64) int64 {
					if f == 0 {
						return 1
					}
					return f * tiny
				}
				a.f, b.f = one(a.f), one(b.f)
				w /= tiny
			}
			p.softs = append(p.softs, soft{sub(mul(seg(a.i), b.f), mul(seg(b.i), a.f)), 0, w, "fills in proportion"})
		}
	}
	if c.flex != bento.FlexLegacy {
		for i := 0; i+1 < n; i++ {
			eq(seg(i), seg(i+1), wWeak, "equal segments")
		}
	}
	return p
}

type overflow struct{}

// num is the arithmetic of a tableau: machine integers while they last, big
// ones otherwise.
type tableau struct {
	rows  [][]int64
	big   [][]*big.Int
	d     int64
	bd    *big.Int
	basis []int
	cols  int
}

func mul64(a, b int64) int64 {
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<62-1 {
		panic(overflow{})
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

// solve returns the least total violation (as a fraction) and the positions
// (in units, as fractions) of one optimum, with every start and end inside its
// box (in units).
func (p *problem) solve(lo, hi []int64) (z *big.Rat, pos []*big.Rat) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(overflow); !ok {
				panic(e)
			}
			z, pos = p.run(lo, hi, true)
		}
	}()
	return p.run(lo, hi, false)
}

func (p *problem) run(lo, hi []int64, useBig bool) (*big.Rat, []*big.Rat) {
	nv := 2 * p.n
	// rows: e_i >= a_i; upper bounds; softs
	type row struct {
		co   []int64 // structural
		extr [][2]int64
		rhs  int64
		base int
	}
	cols := nv
	cost := map[int]int64{}
	col := func() int { cols++; return cols - 1 }
	var rows []row
	for i := 0; i < p.n; i++ {
		co := make([]int64, nv)
		co[2*i], co[2*i+1] = 1, -1
		s := col()
		rows = append(rows, row{co, [][2]int64{{int64(s), 1}}, lo[2*i+1] - lo[2*i], s})
	}
	for v := 0; v < nv; v++ {
		co := make([]int64, nv)
		co[v] = 1
		s := col()
		rows = append(rows, row{co, [][2]int64{{int64(s), 1}}, hi[v] - lo[v], s})
	}
	for _, c := range p.softs {
		co := append([]int64{}, c.co...)
		rhs := -c.k
		for v := range co {
			rhs -= mul64(co[v], lo[v])
		}
		op := c.op
		if op > 0 {
			op = -1
			rhs = -rhs
			for v := range co {
				co[v] = -co[v]
			}
		}
		if op == 0 {
			if rhs < 0 {
				rhs = -rhs
				for v := range co {
					co[v] = -co[v]
				}
			}
			a, b := col(), col()
			cost[a], cost[b] = c.w, c.w
			rows = append(rows, row{co, [][2]int64{{int64(a), 1}, {int64(b), -1}}, rhs, a})
			continue
		}
		s, e := col(), col()
		cost[e] = c.w
		if rhs >= 0 {
			rows = append(rows, row{co, [][2]int64{{int64(s), 1}, {int64(e), -1}}, rhs, s})
		} else {
			for v := range co {
				co[v] = -co[v]
			}
			rows = append(rows, row{co, [][2]int64{{int64(s), -1}, {int64(e), 1}}, -rhs, e})
		}
	}
	m := len(rows)
	t := &tableau{cols: cols, d: 1}
	t.rows = make([][]int64, m+1)
	exact := make([]*big.Int, cols+1)
	for j := range exact {
		exact[j] = big.NewInt(cost[j])
	}
	for i, r := range rows {
		l := make([]int64, cols+1)
		copy(l, r.co)
		for _, e := range r.extr {
			l[e[0]] = e[1]
		}
		l[cols] = r.rhs
		t.rows[i] = l
		t.basis = append(t.basis, r.base)
		if w := cost[r.base]; w != 0 {
			for j := range l {
				if l[j] != 0 {
					x := big.NewInt(w)
					exact[j].Sub(exact[j], x.Mul(x, big.NewInt(l[j])))
				}
			}
		}
	}
	if useBig {
		t.rows = t.rows[:m]
		t.bd = big.NewInt(1)
		for _, r := range t.rows {
			b := make([]*big.Int, len(r))
			for j, x := range r {
				b[j] = big.NewInt(x)
			}
			t.big = append(t.big, b)
		}
		t.big = append(t.big, exact)
		t.runBig()
		return t.resultBig(lo)
	}
	obj := make([]int64, cols+1)
	for j, x := range exact {
		if x.BitLen() > 61 {
			panic(overflow{})
		}
		obj[j] = x.Int64()
	}
	t.rows[m] = obj
	t.run64()
	z := new(big.Rat).SetFrac64(-t.rows[m][cols], t.d)
	pos := make([]*big.Rat, nv)
	for v := range pos {
		pos[v] = new(big.Rat).SetInt64(lo[v])
	}
	for i, b := range t.basis {
		if b < nv {
			pos[b].Add(pos[b], new(big.Rat).SetFrac64(t.rows[i][cols], t.d))
		}
	}
	return z, pos
}

func (t *tableau) run64() {
	m := len(t.rows) - 1
	for {
		c := -1
		for j := 0; j < t.cols; j++ {
			if t.rows[m][j] < 0 {
				c = j
				break
			}
		}
		if c < 0 {
			return
		}
		r := -1
		for i := 0; i < m; i++ {
			if t.rows[i][c] <= 0 {
				continue
			}
			if r < 0 {
				r = i
				continue
			}
			a, b := mul64(t.rows[i][t.cols], t.rows[r][c]), mul64(t.rows[r][t.cols], t.rows[i][c])
			if a < b || a == b && t.basis[i] < t.basis[r] {
				r = i
			}
		}
		if r < 0 {
			panic("unbounded")
		}
		pr := t.rows[r]
		pv := pr[c]
		for i := range t.rows {
			if i == r {
				continue
			}
			row := t.rows[i]
			f := row[c]
			for j := range row {
				if row[j] == 0 && (f == 0 || pr[j] == 0) {
					continue
				}
				x := mul64(row[j], pv)
				if f != 0 && pr[j] != 0 {
					x -= mul64(f, pr[j])
				}
				row[j] = x / t.d
			}
		}
		t.d = pv
		t.basis[r] = c
	}
}

func (t *tableau) runBig() {
	m := len(t.big) - 1
	a, b := new(big.Int), new(big.Int)
	for {
		c := -1
		for j := 0; j < t.cols; j++ {
			if t.big[m][j].Sign() < 0 {
				c = j
				break
			}
		}
		if c < 0 {
			return
		}
		r := -1
		for i := 0; i < m; i++ {
			if t.big[i][c].Sign() <= 0 {
				continue
			}
			if r < 0 {
				r = i
				continue
			}
			a.Mul(t.big[i][t.cols], t.big[r][c])
			b.Mul(t.big[r][t.cols], t.big[i][c])
			if k := a.Cmp(b); k < 0 || k == 0 && t.basis[i] < t.basis[r] {
				r = i
			}
		}
		if r < 0 {
			panic("unbounded")
		}
		pr := t.big[r]
		pv := pr[c]
		for i := range t.big {
			if i == r {
				continue
			}
			row := t.big[i]
			f := new(big.Int).Set(row[c])
			for j := range row {
				if row[j].Sign() == 0 && (f.Sign() == 0 || pr[j].Sign() == 0) {
					continue
				}
				a.Mul(row[j], pv)
				b.Mul(f, pr[j])
				a.Sub(a, b)
				row[j].Quo(a, t.bd)
			}
		}
		t.bd = new(big.Int).Set(pv)
		t.basis[r] = c
	}
}

func (t *tableau) resultBig(lo []int64) (*big.Rat, []*big.Rat) {
	m := len(t.big) - 1
	z := new(big.Rat).SetFrac(new(big.Int).Neg(t.big[m][t.cols]), t.bd)
	pos := make([]*big.Rat, len(lo))
	for v := range pos {
		pos[v] = new(big.Rat).SetInt64(lo[v])
	}
	for i, b := range t.basis {
		if b < len(lo) {
			pos[b].Add(pos[b], new(big.Rat).SetFrac(t.big[i][t.cols], t.bd))
		}
	}
	return z, pos
}

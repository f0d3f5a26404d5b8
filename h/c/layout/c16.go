package main

import (
	"fmt"
	"math/big"
	"sync/atomic"
	"time"

	"github.com/metafates/bento/internal/zzverif/vk"
)

var firstTry, boxed atomic.Int64

func (c cfg) optimal() string {
	segs, spaces := c.split(0)
	if msg := c.tiles(segs, spaces); msg != "" {
		return msg
	}
	p := c.model()
	nv := 2 * p.n
	if nv == 0 {
		return ""
	}
	lo, hi := make([]int64, nv), make([]int64, nv)
	got := make([]int64, nv)
	for i, s := range segs {
		got[2*i], got[2*i+1] = int64(s.at), int64(s.at+s.size)
	}
	for v := range hi {
		hi[v] = p.width
	}
	best, pos := p.solve(lo, hi)
	// half a cell of rounding, and the hundredths the library works in
	slack := p.unit * 506 / 1000
	near := true
	tol := big.NewRat(slack, 1)
	for v := range got {
		d := new(big.Rat).Sub(pos[v], big.NewRat(got[v]*p.unit, 1))
		if d.Abs(d).Cmp(tol) > 0 {
			near = false
		}
	}
	if near {
		firstTry.Add(1)
		return ""
	}
	boxed.Add(1)
	for v := range got {
		lo[v] = max(0, got[v]*p.unit-slack)
		hi[v] = min(p.width, got[v]*p.unit+slack)
	}
	z, _ := p.solve(lo, hi)
	if z.Cmp(best) == 0 {
		return ""
	}
	var opt []string
	for i := 0; i < p.n; i++ {
		f := func(r *big.Rat) string {
			x, _ := new(big.Rat).Quo(r, big.NewRat(p.unit, 1)).Float64()
			return fmt.Sprintf("%.2f", x)
		}
		opt = append(opt, f(pos[2*i])+"-"+f(pos[2*i+1]))
	}
	bf, _ := best.Float64()
	zf, _ := z.Float64()
	return fmt.Sprintf("the segments %v (start, size) are no optimum: their violation is at least %.6g, the least is %.6g, for instance with segments at %v", segs, zf, bf, opt)
}

func c16() {
	r := vk.New("C16", 240*time.Second, 2400*time.Second)
	alpha := []cons{L(0), L(4), Mi(3), Mi(9), Ma(5), P(25), P(50), P(100), R(1, 3), F(0), F(1), F(2)}
	alpha2 := []cons{L(0), L(3), L(10), Mi(0), Mi(4), Mi(30), Ma(0), Ma(6), Ma(30), P(0), P(33), P(60), P(150), R(1, 3), R(3, 4), R(2, 1), R(1, 0), F(0), F(1), F(2), F(7)}
	sizes := []int{0, 1, 7, 12, 20}
	sps := []int{0, 2, -2}
	depth := 3
	if r.Thorough {
		alpha = []cons{L(4), Mi(3), Ma(5), P(50), R(1, 3), F(1), F(2)}
		sizes = []int{0, 1, 2, 3, 5, 7, 10, 13, 19, 50, 100}
		sps = []int{0, 1, 2, 9, -1, -2, -9}
		depth = 4
	}
	r.Bound("all lists of up to %d constraints over %d and up to 2 over %d constraints, all 6 flex modes, spacings %v, sizes %v", depth, len(alpha), len(alpha2), sps, sizes)
	r.Assume("the weights of the priorities are those documented at the top of layout.go; positions are rounded to whole cells")
	do := func(w *vk.Worker, c cfg) bool {
		w.Case(c.String, func() string {
			w.Trans(1)
			w.Trace(1)
			return c.optimal()
		})
		return !w.Stop() && !w.Expired()
	}
	run(r, alpha, depth, alpha2, sizes, sps, do)
	// large values, weights and areas
	alpha = []cons{L(40), Mi(30), Ma(150), P(50), R(1, 3), F(1), F(200), F(1000)}
	alpha2 = []cons{L(299), L(1000), Mi(1000), Ma(301), P(99), P(1), R(255, 256), R(1, 1000), R(1000, 1), F(99), F(101), F(65536)}
	r.Bound("all lists of up to 3 over %v and up to 2 over %v in areas of 300 and 1000 cells", alpha, alpha2)
	run(r, alpha, 3, alpha2, []int{300, 1000}, []int{0, 3}, do)
	r.Extra("matched_first_optimum", firstTry.Load())
	r.Extra("matched_another_optimum", boxed.Load())
	r.Finish()
}

// C15, C16 and C17: layouts.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/metafates/bento"
)

type cons = bento.Constraint

// cfg is one layout problem: constraints, flex mode, spacing and size of the main axis.
type cfg struct {
	cs   []cons
	flex bento.Flex
	sp   int // negative: overlap
	w    int
}

func (c cfg) String() string {
	var parts []string
	for _, x := range c.cs {
		parts = append(parts, show(x))
	}
	return fmt.Sprintf("[%s] flex=%s spacing=%d size=%d", strings.Join(parts, ","), flexName(c.flex), c.sp, c.w)
}

func show(x cons) string {
	switch x := x.(type) {
	case bento.ConstraintLen:
		return fmt.Sprintf("len%d", int(x))
	case bento.ConstraintMin:
		return fmt.Sprintf("min%d", int(x))
	case bento.ConstraintMax:
		return fmt.Sprintf("max%d", int(x))
	case bento.ConstraintPercentage:
		return fmt.Sprintf("pct%d", int(x))
	case bento.ConstraintRatio:
		return fmt.Sprintf("ratio%d/%d", x.Num, x.Den)
	case bento.ConstraintFill:
		return fmt.Sprintf("fill%d", int(x))
	}
	return "?"
}

var flexes = []bento.Flex{bento.FlexLegacy, bento.FlexStart, bento.FlexEnd, bento.FlexCenter, bento.FlexSpaceBetween, bento.FlexSpaceAround}

func flexName(f bento.Flex) string {
	switch f {
	case bento.FlexLegacy:
		return "legacy"
	case bento.FlexStart:
		return "start"
	case bento.FlexEnd:
		return "end"
	case bento.FlexCenter:
		return "center"
	case bento.FlexSpaceBetween:
		return "between"
	case bento.FlexSpaceAround:
		return "around"
	}
	return "?"
}

func spacing(n int) bento.Spacing {
	if n < 0 {
		return bento.SpacingOverlap(-n)
	}
	return bento.SpacingSpace(n)
}

func (c cfg) layout() bento.Layout {
	return bento.NewLayout(c.cs...).WithFlex(c.flex).WithSpacing(spacing(c.sp))
}

// span is a segment or spacer on the main axis.
type span struct{ at, size int }

func (c cfg) split(x int) (segs, spaces []span) {
	a, b := c.layout().Horizontal().SplitWithSpacers(bento.NewRect(c.w, 1).Positioned(x, 0))
	for _, r := range a {
		segs = append(segs, span{r.X - x, r.Width})
	}
	for _, r := range b {
		spaces = append(spaces, span{r.X - x, r.Width})
	}
	return
}

func lists(alpha []cons, max int, yield func([]cons) bool) {
	var rec func(cur []cons) bool
	rec = func(cur []cons) bool {
		if !yield(append([]cons{}, cur...)) {
			return false
		}
		if len(cur) == max {
			return true
		}
		for _, a := range alpha {
			if !rec(append(cur, a)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

func L(n int) cons    { return bento.ConstraintLen(n) }
func Mi(n int) cons   { return bento.ConstraintMin(n) }
func Ma(n int) cons   { return bento.ConstraintMax(n) }
func P(n int) cons    { return bento.ConstraintPercentage(n) }
func R(a, b int) cons { return bento.ConstraintRatio{Num: a, Den: b} }
func F(n int) cons    { return bento.ConstraintFill(n) }

func main() {
	switch os.Getenv("VERIF_PROP") {
	case "C15":
		c15()
	case "C16":
		c16()
	case "C17":
		c17()
	}
}

From 637f5c5bf3a107e4bede8d702c6efd425e8aa8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 01/43] fix: Padding.WithLeft sets the left side

---
 padding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padding.go b/padding.go
index ba0906c..7a59a52 100644
--- a/padding.go
+++ b/padding.go
@@ -49,6 +49,6 @@ func (p Padding) WithBottom(s int) Padding {
 }
 
 func (p Padding) WithLeft(s int) Padding {
-	p.Bottom = s
+	p.Left = s
 	return p
 }
-- 
2.43.0


From b715a7d0d9b760e11082881195c80c08e9c930cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 02/43] fix: SetStringN skips zero-width graphemes and stops
 before one that does not fit

---
 buffer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9c33822..4078a63 100644
--- a/buffer.go
+++ b/buffer.go
@@ -113,6 +113,14 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 		symbol := graphemes.Str()
 		width := graphemes.Width()
 
+		if width == 0 {
+			continue
+		}
+
+		if width > remainingWidth {
+			break
+		}
+
 		remainingWidth -= width
 
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
-- 
2.43.0


From 23f37cc56a449069e00bf6fab4162cf837421401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 03/43] fix: lines longer than 64 KiB are kept by the text
 constructors

---
 widget/textwidget/line.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e926608..621705e 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -25,6 +25,7 @@ func NewLinesStr(s ...string) Lines {
 		lines = []Line{NewLineStr("")}
 	} else {
 		scanner := bufio.NewScanner(strings.NewReader(joined))
+		scanner.Buffer(nil, len(joined)+1) // a line may be longer than the default limit
 
 		for scanner.Scan() {
 			line := NewLineStr(scanner.Text())
@@ -108,6 +109,7 @@ func NewLine(spans ...Span) Line {
 
 func NewLineStr(s string) Line {
 	lines := bufio.NewScanner(strings.NewReader(s))
+	lines.Buffer(nil, len(s)+1) // a line may be longer than the default limit
 
 	var spans []Span
 
-- 
2.43.0


From b596ffbd36d103e43dd43c8a9ddb6ee316aa1656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 04/43] fix: style a line where its text is, and cut its start
 past zero-width graphemes

---
 widget/textwidget/line.go | 6 ++++--
 widget/textwidget/span.go | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 621705e..c2ac411 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -234,8 +234,6 @@ func (l Line) renderWithAlignment(
 		Height:   1,
 	}
 
-	buffer.SetStyle(area.WithWidth(min(area.Width, lineWidth)), l.Style)
-
 	alignment := l.Alignment
 	if alignment == bento.AlignmentNone {
 		alignment = parentAlignment
@@ -259,6 +257,8 @@ func (l Line) renderWithAlignment(
 
 		area = area.IndentX(indentWidth)
 
+		buffer.SetStyle(area.WithWidth(lineWidth), l.Style)
+
 		renderSpans(l.Spans, area, buffer, 0)
 	} else {
 		// There is not enough space to render the whole line. As the right side is truncated by
@@ -274,6 +274,8 @@ func (l Line) renderWithAlignment(
 			skipWidth = max(0, lineWidth-areaWidth)
 		}
 
+		buffer.SetStyle(area, l.Style)
+
 		renderSpans(l.Spans, area, buffer, skipWidth)
 	}
 }
diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 7c6848f..8ebcfdc 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -182,7 +182,7 @@ func unicodeTruncateStart(s string, maxWidth int) (string, int) {
 	for {
 		_, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
 
-		if width == 0 {
+		if s == "" {
 			break
 		}
 
-- 
2.43.0


From c0fa373c228a3c8f96f77706884ecb6ddc1c7a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 05/43] fix: an unwrapped paragraph shows every line in a row
 of its own

---
 internal/reflow/truncator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/reflow/truncator.go b/internal/reflow/truncator.go
index e891787..c753599 100644
--- a/internal/reflow/truncator.go
+++ b/internal/reflow/truncator.go
@@ -35,7 +35,7 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		return WrappedLine{}, false
 	}
 
-	clear(lt.currentLine)
+	lt.currentLine = lt.currentLine[:0]
 
 	var currentLineWidth int
 
@@ -81,6 +81,8 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 				Grapheme: grapheme.New(symbol),
 			})
 		}
+
+		break
 	}
 
 	lt.inputLines = lt.inputLines[min(len(lt.inputLines), lastIndex+1):]
-- 
2.43.0


From 1eb1036657dae25f12ca6fde6fa42ddd88fa1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 06/43] fix: word wrap starts every line afresh and never
 exceeds the width

---
 internal/reflow/wrapper.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index b406f41..a0e6b1d 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -52,9 +52,9 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious bool
 	)
 
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 	ww.pendingWhitespace.Clear()
-	clear(pendingLine)
+	pendingLine = pendingLine[:0]
 
 	for _, g := range lineSymbols {
 		isWhitespace := g.IsWhitespace()
@@ -64,6 +64,12 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			continue
 		}
 
+		if ww.trim && !isWhitespace && len(pendingLine) == 0 && len(ww.pendingWord) == 0 {
+			// whitespace at the start of a line is trimmed, it takes no room
+			ww.pendingWhitespace.Clear()
+			whitespaceWidth = 0
+		}
+
 		wordFound := nonWhitespacePrevious && isWhitespace
 
 		trimmedOverflow := len(pendingLine) == 0 && ww.trim && wordWidth+symbolWidth > ww.maxLineWidth
@@ -78,7 +84,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 
 			pendingLine = append(pendingLine, ww.pendingWord...)
-			clear(ww.pendingWord)
+			ww.pendingWord = ww.pendingWord[:0]
 
 			lineWidth += wordWidth
 
@@ -88,13 +94,13 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		}
 
 		lineFull := lineWidth >= ww.maxLineWidth
-		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth >= ww.maxLineWidth
+		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth+symbolWidth > ww.maxLineWidth
 
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
 			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			clear(pendingLine)
+			pendingLine = pendingLine[:0]
 
 			lineWidth = 0
 
@@ -119,6 +125,12 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			if isWhitespace && ww.pendingWhitespace.IsEmpty() {
 				continue
 			}
+
+			if wordWidth+symbolWidth > ww.maxLineWidth {
+				ww.wrappedLines.PushBack(slices.Clone(ww.pendingWord))
+				ww.pendingWord = ww.pendingWord[:0]
+				wordWidth = 0
+			}
 		}
 
 		if isWhitespace {
@@ -142,7 +154,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 	}
 
 	pendingLine = append(pendingLine, ww.pendingWord...)
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 
 	if len(pendingLine) > 0 {
 		ww.wrappedLines.PushBack(pendingLine)
-- 
2.43.0


From 55464fb275745e16e311c171ccc15882c95a2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 07/43] fix: list navigation past the last index does not wrap
 around

---
 widget/listwidget/state.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 4e8464c..ba15e1a 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -77,7 +77,7 @@ func (s *State) SelectNext() {
 	var next int
 
 	if s.selected != nil {
-		next = *s.selected + 1
+		next = saturatingAdd(*s.selected, 1)
 	}
 
 	s.Select(next)
@@ -108,7 +108,7 @@ func (s *State) ScrollDownBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected + amount)
+	s.Select(saturatingAdd(selected, amount))
 }
 
 func (s *State) ScrollUpBy(amount int) {
@@ -118,7 +118,7 @@ func (s *State) ScrollUpBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected - amount)
+	s.Select(saturatingAdd(selected, -amount))
 }
 
 func (s *State) Unselect() {
@@ -138,3 +138,13 @@ func (s *State) Selected(max_ int) (index int, ok bool) {
 
 	return min(max_, max(0, *s.selected)), true
 }
+
+// saturatingAdd adds amount to non-negative index without wrapping around,
+// since the index may be as large as [math.MaxInt], see [State.SelectLast]
+func saturatingAdd(index, amount int) int {
+	if amount > math.MaxInt-index {
+		return math.MaxInt
+	}
+
+	return index + amount
+}
-- 
2.43.0


From b7b09c5e1ce1202e1926ce74ce37547eb396c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 08/43] fix: a list shows as many items as fit, and the top of
 one that is too tall

---
 widget/listwidget/list.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index cb53940..287a3dc 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -138,6 +138,10 @@ func (l List) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State
 			Height: item.Height(),
 		}
 
+		// an item taller than the list shows its top part
+		rowArea.Y = max(rowArea.Y, listArea.Y)
+		rowArea = rowArea.Intersection(listArea)
+
 		itemStyle := l.style.Patched(item.Style)
 		buffer.SetStyle(rowArea, itemStyle)
 
@@ -163,13 +167,13 @@ func (l List) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State
 		item.Render(itemArea, buffer)
 
 		if selectionSpacing {
-			for j := 0; j < item.Height(); j++ {
+			for j := 0; j < rowArea.Height; j++ {
 				symbol := blankSymbol
 				if isSelected && (j == 0 || l.repeatHighlightSymbol) {
 					symbol = highlightSymbol
 				}
 
-				buffer.SetStringN(x, y+j, symbol, listArea.Width, itemStyle)
+				buffer.SetStringN(rowArea.X, rowArea.Y+j, symbol, listArea.Width, itemStyle)
 			}
 		}
 
@@ -221,7 +225,7 @@ func (l List) WithBlock(block blockwidget.Block) List {
 
 // getItemsBounds given an offset, calculates which items can fit in a given area
 func (l List) getItemsBounds(selected *int, offset, maxHeight int) (int, int) {
-	offset = min(offset, max(0, len(l.items)-1))
+	offset = max(0, min(offset, len(l.items)-1))
 
 	// NOTE: visible here implies visible in the given area
 	firstVisibleIndex := offset
@@ -289,6 +293,22 @@ func (l List) getItemsBounds(selected *int, offset, maxHeight int) (int, int) {
 		}
 	}
 
+	// The item is taller than the area: show it alone, its top part at least
+	if indexToDisplay < firstVisibleIndex || indexToDisplay >= lastVisibleIndex {
+		return indexToDisplay, indexToDisplay + 1
+	}
+
+	// Hiding previous items may have left enough space to show some of the next ones
+	for _, item := range sliceutil.Skip(l.items, lastVisibleIndex) {
+		if heightFromOffset+item.Height() > maxHeight {
+			break
+		}
+
+		heightFromOffset += item.Height()
+
+		lastVisibleIndex++
+	}
+
 	return firstVisibleIndex, lastVisibleIndex
 }
 
-- 
2.43.0


From 96ba5d82de38461da9c41555536a8a7a5b4c4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 09/43] fix: deleting the word at the start of the input leaves
 no empty grapheme behind

---
 widget/inputwidget/state.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index beb4d38..bcc0054 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -91,18 +91,22 @@ func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
 	current := under
 
 	for cond(current) {
+		s.MoveCursorLeft()
+
 		if len(before) == 0 {
 			current = grapheme.Grapheme{}
 			break
 		}
-		s.MoveCursorLeft()
 
 		current = before[len(before)-1]
 		before = before[:len(before)-1]
 	}
 
-	s.graphemes = append(before, current)
-	s.graphemes = append(s.graphemes, after...)
+	if !current.IsEmpty() {
+		before = append(before, current)
+	}
+
+	s.graphemes = append(before, after...)
 }
 
 func (s *State) DeleteUnderCursor() {
-- 
2.43.0


From c3b994ac9d70a8e65b496d47baaacc3ea9f0fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 10/43] fix: the input always shows its cursor, whatever its
 width and text

---
 widget/inputwidget/input.go |  6 ++--
 widget/inputwidget/state.go | 66 ++++++++++++++++---------------------
 2 files changed, 31 insertions(+), 41 deletions(-)

diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index bf9410b..df49e21 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -127,7 +127,7 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 		offset:    state.offset,
 	}
 
-	before, cursor, after := i.split(tempState)
+	before, cursor, after := i.split(tempState, state.isEmpty())
 
 	if state.showCursor {
 		cursor = cursor.WithStylePatch(i.cursorStyle)
@@ -153,8 +153,8 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 	line.Render(area, buffer)
 }
 
-func (i Input) split(state State) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
-	if state.isEmpty() {
+func (i Input) split(state State, isEmpty bool) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
+	if isEmpty {
 		placeholder := i.placeholder
 		if len(placeholder) == 0 {
 			return textwidget.NewSpan(""), textwidget.NewSpan(""), textwidget.NewSpan("")
diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index bcc0054..e66f251 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -220,20 +220,33 @@ func (s *State) splitAtCursor() (before grapheme.Graphemes, under grapheme.Graph
 	return before, under, after
 }
 
+// getBounds returns the range of graphemes to show around the cursor. maxWidth is
+// the width of the area without the cell reserved for the cursor after the end
 func (s *State) getBounds(maxWidth int) (int, int) {
-	if len(s.graphemes) == 0 {
-		return 0, 0
+	cursorWidth := 1
+	if s.cursor < len(s.graphemes) {
+		cursorWidth = s.graphemes[s.cursor].Width()
 	}
 
-	offset := min(s.offset, max(0, len(s.graphemes)-1))
+	firstVisibleIndex := min(s.offset, s.cursor)
+	lastVisibleIndex := s.cursor
 
-	firstVisibleIndex := offset
-	lastVisibleIndex := offset
+	widthFromOffset := s.graphemes[firstVisibleIndex:s.cursor].Width()
 
-	var widthFromOffset int
+	// Hide graphemes at the start until the cursor is visible
+	for firstVisibleIndex < s.cursor && widthFromOffset+cursorWidth > maxWidth+1 {
+		widthFromOffset -= s.graphemes[firstVisibleIndex].Width()
 
-	for _, g := range sliceutil.Skip(s.graphemes, offset) {
-		if widthFromOffset+g.Width() > maxWidth {
+		firstVisibleIndex++
+	}
+
+	for i, g := range sliceutil.Skip(s.graphemes, s.cursor) {
+		available := maxWidth
+		if i == 0 {
+			available++
+		}
+
+		if widthFromOffset+g.Width() > available {
 			break
 		}
 
@@ -242,40 +255,17 @@ func (s *State) getBounds(maxWidth int) (int, int) {
 		lastVisibleIndex++
 	}
 
-	indexToDisplay := offset
-	if s.cursor != 0 {
-		indexToDisplay = min(s.cursor-1, lastVisibleIndex)
-	}
-
-	for indexToDisplay >= lastVisibleIndex {
-		widthFromOffset += s.graphemes[lastVisibleIndex].Width()
-
-		lastVisibleIndex++
+	// Scroll back when there is room left after the end
+	for lastVisibleIndex == len(s.graphemes) && firstVisibleIndex > 0 {
+		width := s.graphemes[firstVisibleIndex-1].Width()
 
-		for widthFromOffset > maxWidth {
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[firstVisibleIndex].Width())
-
-			firstVisibleIndex++
-		}
-	}
-
-	for indexToDisplay < firstVisibleIndex {
-		firstVisibleIndex--
-
-		widthFromOffset += s.graphemes[firstVisibleIndex].Width()
-
-		for widthFromOffset > maxWidth {
-			lastVisibleIndex--
-
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[lastVisibleIndex].Width())
+		if widthFromOffset+width > maxWidth {
+			break
 		}
-	}
 
-	if s.cursor-firstVisibleIndex >= lastVisibleIndex {
-		diff := s.cursor - lastVisibleIndex
+		widthFromOffset += width
 
-		firstVisibleIndex += diff
-		lastVisibleIndex += diff
+		firstVisibleIndex--
 	}
 
 	return firstVisibleIndex, lastVisibleIndex
-- 
2.43.0


From 32b9dad8befa680ba476879616736c7d803417fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 11/43] fix: horizontal scrollbars lie on their own edge and
 fill it

---
 widget/scrollwidget/scroll.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index a521405..b1f3e6c 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -142,8 +142,12 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 		}
 	}
 
+	var symbols []*_Symbol
+
 	// <
-	symbols := []*_Symbol{begin}
+	if begin != nil && begin.Symbol != "" {
+		symbols = append(symbols, begin)
+	}
 
 	// <═══
 	symbols = append(symbols, sliceutil.Repeat(track, trackStartLen)...)
@@ -155,7 +159,9 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	symbols = append(symbols, sliceutil.Repeat(track, trackEndLen)...)
 
 	// <═══█████═══════>
-	symbols = append(symbols, end)
+	if end != nil && end.Symbol != "" {
+		symbols = append(symbols, end)
+	}
 
 	return symbols
 }
@@ -265,7 +271,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[0], true
+		return rows[len(rows)-1], true
 
 	case OrientationHorizontalTop:
 		rows := area.Rows()
@@ -273,7 +279,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[len(rows)-1], true
+		return rows[0], true
 
 	default:
 		return bento.Rect{}, false
-- 
2.43.0


From 0746479d2d796a94ece212942d72c4a57a31d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 12/43] fix: Gauge.WithRatio refuses ratios outside of 0..1

---
 widget/gaugewidget/gauge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 4916537..abd937a 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -41,7 +41,7 @@ func New() Gauge {
 //
 // See [Gauge.WithPercent] to set from a percentage.
 func (g Gauge) WithRatio(ratio float64) Gauge {
-	if ratio < 0 && ratio > 1 {
+	if !(ratio >= 0 && ratio <= 1) {
 		panic("ratio should be between 0 and 1 inclusively")
 	}
 
-- 
2.43.0


From 133daad385e39ed8f2bf89c665a2e4b5d99785f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 13/43] fix: tabs draw nothing after a cut wide grapheme

---
 widget/tabswidget/tabs.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/widget/tabswidget/tabs.go b/widget/tabswidget/tabs.go
index 4959a46..5a97011 100644
--- a/widget/tabswidget/tabs.go
+++ b/widget/tabswidget/tabs.go
@@ -120,6 +120,11 @@ func (t Tabs) render(area bento.Rect, buffer *bento.Buffer) {
 		// Left padding
 		x, _ = t.paddingLeft.Print(buffer, x, area.Top(), remainingWidth)
 
+		// cut, possibly with a cell left where a wide grapheme did not fit
+		if t.paddingLeft.Width() > remainingWidth {
+			break
+		}
+
 		remainingWidth = max(0, area.Right()-x)
 		if remainingWidth == 0 {
 			break
@@ -140,6 +145,10 @@ func (t Tabs) render(area bento.Rect, buffer *bento.Buffer) {
 
 		x = newX
 
+		if title.Width() > remainingWidth {
+			break
+		}
+
 		remainingWidth = max(0, area.Right()-x)
 		if remainingWidth == 0 {
 			break
@@ -148,11 +157,19 @@ func (t Tabs) render(area bento.Rect, buffer *bento.Buffer) {
 		// Right Padding
 		x, _ = t.paddingRight.Print(buffer, x, area.Top(), remainingWidth)
 
+		if t.paddingRight.Width() > remainingWidth {
+			break
+		}
+
 		remainingWidth = max(0, area.Right()-x)
 		if remainingWidth == 0 || isLast {
 			break
 		}
 
 		x, _ = t.divider.Print(buffer, x, area.Top(), remainingWidth)
+
+		if t.divider.Width() > remainingWidth {
+			break
+		}
 	}
 }
-- 
2.43.0


From b8a4b163c57326dfb35a5a130c94457e9aa0ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 14/43] fix: a throbber accepts its first tick only once

---
 widget/throbberwidget/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/throbberwidget/state.go b/widget/throbberwidget/state.go
index 6fb660d..3b2e71d 100644
--- a/widget/throbberwidget/state.go
+++ b/widget/throbberwidget/state.go
@@ -19,7 +19,7 @@ func NewState() State {
 	return State{
 		frame: 0,
 		id:    nextID(),
-		tag:   0,
+		tag:   1, // 0 would be accepted at any time
 		FPS:   time.Second / 9,
 	}
 }
-- 
2.43.0


From 7f682e8db0ee306dd9b5fa3e35d02c42ffea19d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 15/43] fix: a printed line ends where one of its spans is cut

---
 widget/textwidget/line.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index c2ac411..29a509a 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -203,6 +203,11 @@ func (l Line) Print(buffer *bento.Buffer, x, y, maxWidth int) (int, int) {
 		w := max(0, newX-x)
 		x = newX
 
+		// cut, possibly with a cell left where a wide grapheme did not fit
+		if s.Width() > remainingWidth {
+			break
+		}
+
 		remainingWidth = max(0, remainingWidth-w)
 	}
 
@@ -314,6 +319,11 @@ func setLine(x, y int, buffer *bento.Buffer, line *Line, maxWidth int) (int, int
 		w := max(0, newX-x)
 		x = newX
 
+		// cut, possibly with a cell left where a wide grapheme did not fit
+		if s.Width() > remainingWidth {
+			break
+		}
+
 		remainingWidth = max(0, remainingWidth, w)
 	}
 
-- 
2.43.0


From a788ecb4d28452478f43dcf500f6f87ac36251cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 16/43] fix: values built from the same one do not share their
 lists

---
 layout.go                   | 3 ++-
 widget/blockwidget/block.go | 2 +-
 widget/textwidget/line.go   | 4 ++--
 widget/textwidget/text.go   | 6 ++++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/layout.go b/layout.go
index f6f1b9c..09321f3 100644
--- a/layout.go
+++ b/layout.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/metafates/bento/internal/casso"
 )
@@ -99,7 +100,7 @@ func (l Layout) WithSpacing(spacing Spacing) Layout {
 }
 
 func (l Layout) WithConstraints(constraints ...Constraint) Layout {
-	l.Constraints = append(l.Constraints, constraints...)
+	l.Constraints = append(slices.Clip(l.Constraints), constraints...)
 	return l
 }
 
diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 773d471..c87120f 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -72,7 +72,7 @@ func (b Block) WithTitle(title Title) Block {
 		title.Line = title.Line.WithAlignment(title.Alignment)
 	}
 
-	b.titles = append(b.titles, title)
+	b.titles = append(slices.Clip(b.titles), title)
 	return b
 }
 
diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 29a509a..e91ae1d 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -135,12 +135,12 @@ func (l Line) String() string {
 }
 
 func (l Line) WithSpans(spans ...Span) Line {
-	l.Spans = append(l.Spans, spans...)
+	l.Spans = append(slices.Clip(l.Spans), spans...)
 	return l
 }
 
 func (l Line) WithSpansStr(spans ...string) Line {
-	l.Spans = slices.Grow(l.Spans, len(spans))
+	l.Spans = slices.Grow(slices.Clip(l.Spans), len(spans))
 
 	for _, s := range spans {
 		l.Spans = append(l.Spans, NewSpan(s))
diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ebd552b..56072ac 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -1,6 +1,8 @@
 package textwidget
 
 import (
+	"slices"
+
 	"github.com/metafates/bento"
 )
 
@@ -27,12 +29,12 @@ func NewText(lines ...Line) Text {
 }
 
 func (t Text) WithLines(lines ...Line) Text {
-	t.Lines = append(t.Lines, lines...)
+	t.Lines = append(slices.Clip(t.Lines), lines...)
 	return t
 }
 
 func (t Text) WithLinesStr(lines ...string) Text {
-	t.Lines = append(t.Lines, NewLinesStr(lines...)...)
+	t.Lines = append(slices.Clip(t.Lines), NewLinesStr(lines...)...)
 	return t
 }
 
-- 
2.43.0


From 1f78669cd9bdbccaf85163b3269754be56258922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 17/43] fix: a block is cut where the buffer ends

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index c87120f..7980179 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -165,7 +165,7 @@ func (b Block) hasTitleAtPosition(position TitlePosition) bool {
 }
 
 func (b Block) Render(area bento.Rect, buffer *bento.Buffer) {
-	area = area.Intersection(area)
+	area = area.Intersection(buffer.Area())
 	if area.IsEmpty() {
 		return
 	}
-- 
2.43.0


From 0e30e4ddfbb4052b0216979e56ae44e39539716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 18/43] fix: a missing colour is the terminal's default colour

---
 internal/ansi/command.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/ansi/command.go b/internal/ansi/command.go
index 25d2aa8..833ed35 100644
--- a/internal/ansi/command.go
+++ b/internal/ansi/command.go
@@ -60,16 +60,17 @@ var _ Command = (*SetColors)(nil)
 type SetColors Colors
 
 func (c SetColors) WriteANSI(w io.Writer) error {
-	switch {
-	case c.Foreground != nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+";"+c.Background.Sequence(true)+"m")
-	case c.Foreground == nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+"m")
-	case c.Foreground != nil && c.Background == nil:
-		return write(w, CSI+c.Background.Sequence(true)+"m")
-	default:
-		return nil
+	foreground, background := "39", "49"
+
+	if c.Foreground != nil && c.Foreground.Sequence(false) != "" {
+		foreground = c.Foreground.Sequence(false)
+	}
+
+	if c.Background != nil && c.Background.Sequence(true) != "" {
+		background = c.Background.Sequence(true)
 	}
+
+	return write(w, CSI+foreground+";"+background+"m")
 }
 
 var _ Command = (*Print)(nil)
-- 
2.43.0


From 4bc8de55cb19f35e9d2496992d02029d4f9a4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 19/43] fix: hidden text is hidden, and one kind of blinking
 ends without the other

---
 terminal_backend.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/terminal_backend.go b/terminal_backend.go
index 42a61b4..0578b76 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -336,6 +336,18 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 
 	if removed.Contains(ModifierSlowBlink) || removed.Contains(ModifierRapidBlink) {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoBlink))
+
+		if d.To.Contains(ModifierSlowBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrSlowBlink))
+		}
+
+		if d.To.Contains(ModifierRapidBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
+		}
+	}
+
+	if removed.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoHidden))
 	}
 
 	added := bit.Difference(d.To, d.From)
@@ -372,6 +384,10 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
 	}
 
+	if added.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrHidden))
+	}
+
 	if err := queue(w, cmds...); err != nil {
 		return fmt.Errorf("queue: %w", err)
 	}
-- 
2.43.0


From b2ed07f87c0953a6badb28b68d3dac21e3f206e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 20/43] fix: input that comes with or before the end of the
 input is not dropped

---
 input.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/input.go b/input.go
index 4490cb3..7bb5098 100644
--- a/input.go
+++ b/input.go
@@ -565,9 +565,6 @@ loop:
 	for {
 		// Read and block.
 		numBytes, err := input.Read(buf[:])
-		if err != nil {
-			return fmt.Errorf("error reading input: %w", err)
-		}
 		b := buf[:numBytes]
 		if leftOverFromPrevIteration != nil {
 			b = append(leftOverFromPrevIteration, b...)
@@ -580,12 +577,18 @@ loop:
 		// be more data in the OS buffer ready to be read in, to complete
 		// the last message in the input. In that case, we will retry with
 		// the left over data in the next iteration.
-		canHaveMoreData := numBytes == len(buf)
+		//
+		// Nothing comes after an error, what was read up to it is still input.
+		canHaveMoreData := numBytes == len(buf) && err == nil
 
 		var i, w int
 		for i, w = 0, 0; i < len(b); i += w {
 			var msg Msg
 			w, msg = detectOneMsg(b[i:], canHaveMoreData)
+			if w == 0 && err != nil {
+				// A paste that is not going to be completed.
+				w, msg = detectOneMsg(append(b[i:len(b):len(b)], "\x1b[201~"...), false)
+			}
 			if w == 0 {
 				// Expecting more bytes beyond the current buffer. Try waiting
 				// for more input.
@@ -605,6 +608,10 @@ loop:
 			}
 		}
 		leftOverFromPrevIteration = nil
+
+		if err != nil {
+			return fmt.Errorf("error reading input: %w", err)
+		}
 	}
 }
 
-- 
2.43.0


From b0833d40ae40da2019a21e49d0398e185eb328b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 21/43] fix: a read that fills the buffer does not cut
 sequences and characters

---
 input.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 7bb5098..b0b38ff 100644
--- a/input.go
+++ b/input.go
@@ -616,11 +616,36 @@ loop:
 }
 
 var (
-	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
-	mouseSGRRegex = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	unknownCSIRe    = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
+	incompleteCSIRe = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*$`)
+	mouseSGRRegex   = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
 )
 
+// isIncomplete reports whether more data could make a longer escape sequence of b.
+func isIncomplete(b []byte) bool {
+	if b[0] != '\x1b' {
+		return false
+	}
+
+	for seq := range extSequences {
+		if len(seq) > len(b) && seq[:len(b)] == string(b) {
+			return true
+		}
+	}
+
+	const mouseEventX10Len = 6
+	if bytes.HasPrefix(b, []byte("\x1b[M")) && len(b) < mouseEventX10Len {
+		return true
+	}
+
+	return incompleteCSIRe.Match(b) || len(b) > 1 && isIncomplete(b[1:])
+}
+
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
+	if canHaveMoreData && isIncomplete(b) {
+		return 0, nil
+	}
+
 	// Detect mouse events.
 	// X10 mouse events have a length of 6 bytes
 	const mouseEventX10Len = 6
@@ -679,6 +704,9 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	var runes []rune
 	for rw := 0; i < len(b); i += rw {
 		var r rune
+		if canHaveMoreData && !utf8.FullRune(b[i:]) {
+			return 0, nil
+		}
 		r, rw = utf8.DecodeRune(b[i:])
 		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
-- 
2.43.0


From 688e9d51c8f0701fdd476bc78afdcec9a8c05c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 22/43] fix: unknown sequences are not overwritten by later
 input

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index b0b38ff..d524ad7 100644
--- a/input.go
+++ b/input.go
@@ -869,7 +869,7 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 	}
 	// Is this an unknown CSI sequence?
 	if loc := unknownCSIRe.FindIndex(input); loc != nil {
-		return true, loc[1], unknownCSISequenceMsg(input[:loc[1]])
+		return true, loc[1], unknownCSISequenceMsg(bytes.Clone(input[:loc[1]]))
 	}
 
 	return false, 0, nil
-- 
2.43.0


From 61c25ec91629532cf711b6a1184106640d27a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 23/43] fix: focus reports are recognized whatever follows them

---
 input.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index d524ad7..e81440d 100644
--- a/input.go
+++ b/input.go
@@ -755,9 +755,14 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
 	switch {
-	case bytes.Equal(input, []byte("\x1b[I")):
+	case bytes.HasPrefix(input, []byte("\x1b[I")):
 		return true, 3, FocusMsg{}
-	case bytes.Equal(input, []byte("\x1b[O")):
+	case bytes.HasPrefix(input, []byte("\x1b[O")):
+		if len(input) > 3 {
+			if _, isKey := extSequences[string(input[:4])]; isKey {
+				return false, 0, nil
+			}
+		}
 		return true, 3, BlurMsg{}
 	}
 	return false, 0, nil
-- 
2.43.0


From adfd5a0d31c9445c09cd3760382ba86d9c0ca3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 24/43] fix: a mouse report begins right after its introducer

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index e81440d..604cab2 100644
--- a/input.go
+++ b/input.go
@@ -618,7 +618,7 @@ loop:
 var (
 	unknownCSIRe    = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
 	incompleteCSIRe = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*$`)
-	mouseSGRRegex   = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	mouseSGRRegex   = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
 // isIncomplete reports whether more data could make a longer escape sequence of b.
-- 
2.43.0


From 42529b34541163bd2733505b3b68ef05940dbbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 25/43] fix: a typed or pasted replacement character is text

---
 input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 604cab2..9fa601e 100644
--- a/input.go
+++ b/input.go
@@ -708,7 +708,7 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 			return 0, nil
 		}
 		r, rw = utf8.DecodeRune(b[i:])
-		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
+		if (r == utf8.RuneError && rw <= 1) || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
 			// be handled by detectSequence in the next call to detectOneMsg.
 			break
@@ -803,7 +803,7 @@ func detectBracketedPaste(input []byte) (hasBp bool, width int, msg Msg) {
 	k := Key{Type: KeyRunes, Paste: true}
 	for len(paste) > 0 {
 		r, w := utf8.DecodeRune(paste)
-		if r != utf8.RuneError {
+		if r != utf8.RuneError || w > 1 {
 			k.Runes = append(k.Runes, r)
 		}
 		paste = paste[w:]
-- 
2.43.0


From 1fe058b7f9c635d7c187ecb00d09391c6bdfac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 26/43] fix: the escape key does not take apart the report
 after it

---
 input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/input.go b/input.go
index 9fa601e..26d459b 100644
--- a/input.go
+++ b/input.go
@@ -682,6 +682,10 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	var foundSeq bool
 	foundSeq, w, msg = detectSequence(b)
 	if foundSeq {
+		if w == 2 && unknownCSIRe.Match(b[1:]) {
+			// The escape key, then a control sequence which is not a key.
+			return 1, KeyMsg(Key{Type: KeyEscape})
+		}
 		return w, msg
 	}
 
-- 
2.43.0


From 19528fa42a2aa6bb9f17c59bbb243ede612174d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 27/43] fix: a layout may have more than a few dozen
 constraints

---
 internal/casso/casso.go  | 2 +-
 internal/casso/solver.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index 1487d5b..c04cd62 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -182,7 +182,7 @@ const (
 )
 
 type _Symbol struct {
-	Value uint8
+	Value uint64
 	Type  SymbolType
 }
 
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index fd223d3..4bca582 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -39,7 +39,7 @@ type Solver struct {
 	infeasibleRows     []_Symbol
 	objective          _Row
 	artificial         *_Row
-	idTick             uint8
+	idTick             uint64
 }
 
 func NewSolver() Solver {
-- 
2.43.0


From 892766af7df2db3609771fb1ee393fa50e0799f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 28/43] fix: the layout does not depend on the order in which
 maps are walked

---
 internal/casso/solver.go | 54 ++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 4bca582..98196a6 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -293,6 +293,7 @@ func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
 
 	var (
 		found _Symbol
+		pivot float64
 		ok    bool
 	)
 
@@ -303,8 +304,10 @@ func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
 			if temp < 0 {
 				tempRatio := -r.constant / temp
 
-				if tempRatio < ratio {
+				// equal ratios are decided by the coefficient and the symbol, not by the order of the map
+				if tempRatio < ratio || tempRatio == ratio && (temp < pivot || temp == pivot && s.Value < found.Value) {
 					ratio = tempRatio
+					pivot = temp
 					found = s
 					ok = true
 				}
@@ -428,13 +431,29 @@ func (s *Solver) getVarSymbol(v Variable) _Symbol {
 	return data.symbol
 }
 
-func chooseSubject(row _Row, tag _Tag) _Symbol {
-	for s := range row.cells {
-		if s.Type == SymbolTypeExternal {
-			return s
+// firstSymbol returns the oldest symbol of the row which satisfies the predicate.
+// It does not depend on the order in which the map is walked.
+func firstSymbol(row _Row, predicate func(s _Symbol, coefficient float64) bool) _Symbol {
+	first := newInvalidSymbol()
+
+	for s, v := range row.cells {
+		if (first.Type == SymbolTypeInvalid || s.Value < first.Value) && predicate(s, v) {
+			first = s
 		}
 	}
 
+	return first
+}
+
+func chooseSubject(row _Row, tag _Tag) _Symbol {
+	external := firstSymbol(row, func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeExternal
+	})
+
+	if external.Type == SymbolTypeExternal {
+		return external
+	}
+
 	for _, s := range []_Symbol{tag.marker, tag.other} {
 		switch s.Type {
 		case SymbolTypeSlack, SymbolTypeError:
@@ -458,22 +477,25 @@ func allDummies(row _Row) bool {
 }
 
 func getEnteringSymbol(objective _Row) _Symbol {
+	entering := newInvalidSymbol()
+	lowest := 0.0
+
 	for s, v := range objective.cells {
-		if s.Type != SymbolTypeDummy && v < 0 {
-			return s
+		if s.Type == SymbolTypeDummy {
+			continue
+		}
+
+		if v < lowest || v == lowest && s.Value < entering.Value {
+			entering = s
+			lowest = v
 		}
 	}
 
-	return newInvalidSymbol()
+	return entering
 }
 
 func anyPivotableSymbol(row _Row) _Symbol {
-	for s := range row.cells {
-		switch s.Type {
-		case SymbolTypeSlack, SymbolTypeError:
-			return s
-		}
-	}
-
-	return newInvalidSymbol()
+	return firstSymbol(row, func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeSlack || s.Type == SymbolTypeError
+	})
 }
-- 
2.43.0


From 296d4b68f9bb37d67c9b6e46917e07a85ba32beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 29/43] fix: fills of weight zero share the space equally

---
 layout.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layout.go b/layout.go
index 09321f3..c3cdc98 100644
--- a/layout.go
+++ b/layout.go
@@ -312,6 +312,11 @@ func configureFillConstraints(
 		leftScalingFactor := getScalingFactor(leftConstraint)
 		rightScalingFactor := getScalingFactor(rightConstraint)
 
+		// only the proportion matters, two fills of zero weight are equal
+		if leftScalingFactor == rightScalingFactor && leftScalingFactor < 1 {
+			leftScalingFactor, rightScalingFactor = 1, 1
+		}
+
 		lhs := leftSegment.size().MulConstant(rightScalingFactor)
 		rhs := rightSegment.size().MulConstant(leftScalingFactor)
 
-- 
2.43.0


From 0b1952ab16a7bea37d146094fa423abd0c3fb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 30/43] fix: the solver is not misled by rounding errors

---
 internal/casso/solver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 98196a6..b66cc47 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -477,8 +477,11 @@ func allDummies(row _Row) bool {
 }
 
 func getEnteringSymbol(objective _Row) _Symbol {
+	// coefficients this small are what rounding has left of zero
+	const epsilon float64 = 1e-5
+
 	entering := newInvalidSymbol()
-	lowest := 0.0
+	lowest := -epsilon
 
 	for s, v := range objective.cells {
 		if s.Type == SymbolTypeDummy {
-- 
2.43.0


From a0fb4649dd65ce73116420d0ae4cc8101164a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 31/43] fix: space around puts space around the outer segments
 too

---
 layout.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout.go b/layout.go
index c3cdc98..a0686f0 100644
--- a/layout.go
+++ b/layout.go
@@ -432,11 +432,11 @@ func configureFlexConstraints(
 			}
 		}
 	case FlexSpaceAround:
-		if len(spacersExceptFirstAndLast) >= 2 {
-			for _, indices := range combinations(len(spacersExceptFirstAndLast), 2) {
+		if len(spacers) >= 2 {
+			for _, indices := range combinations(len(spacers), 2) {
 				i, j := indices[0], indices[1]
 
-				left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[j]
+				left, right := spacers[i], spacers[j]
 
 				if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
 					return fmt.Errorf("add has size constraint: %w", err)
@@ -444,7 +444,7 @@ func configureFlexConstraints(
 			}
 		}
 
-		for _, s := range spacersExceptFirstAndLast {
+		for _, s := range spacers {
 			err := solver.AddConstraints(
 				s.hasMinSize(spacing, _spacerSizeEq),
 				s.hasSize(area.size(), _spaceGrow),
-- 
2.43.0


From 4aece2645e88de003f03d2a99408f18972a0e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 32/43] fix: commands of a batch are executed

---
 app.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/app.go b/app.go
index 93a426b..cd28823 100644
--- a/app.go
+++ b/app.go
@@ -314,6 +314,16 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				if err := a.terminal.Resize(NewRect(msg.Width, msg.Height)); err != nil {
 					return model, fmt.Errorf("resize: %w", err)
 				}
+			case BatchMsg:
+				for _, cmd := range msg {
+					select {
+					case a.cmds <- cmd:
+					case <-a.ctx.Done():
+						return model, nil
+					}
+				}
+
+				continue
 			case sequenceMsg:
 				go func() {
 					// Execute commands one at a time, in order.
-- 
2.43.0


From 1150ea2e9cc06a96d4b97ea463cf4b37907570a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 33/43] fix: cancelling the context does not block the event
 loop

---
 app.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index cd28823..b8e761d 100644
--- a/app.go
+++ b/app.go
@@ -354,7 +354,13 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
-			a.cmds <- cmd
+
+			select {
+			case a.cmds <- cmd:
+			case <-a.ctx.Done():
+				return model, nil
+			}
+
 			a.draw(model)
 		}
 	}
-- 
2.43.0


From 8678def49cebea9bbeaa785ba0761da1fd15ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 34/43] fix: a failing draw ends the program instead of
 blocking it

---
 app.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index b8e761d..7b9516f 100644
--- a/app.go
+++ b/app.go
@@ -202,7 +202,10 @@ func (a *appRunner) Run() (model Model, err error) {
 	}
 
 	a.initModel()
-	a.draw(a.model)
+
+	if err := a.draw(a.model); err != nil {
+		return a.model, err
+	}
 
 	err = a.initCancelReader()
 	if err != nil {
@@ -225,7 +228,9 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	a.draw(model)
+	if err := a.draw(model); err != nil {
+		return model, err
+	}
 
 	if err := a.shutdown(); err != nil {
 		return model, fmt.Errorf("shutdown: %w", err)
@@ -361,7 +366,9 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				return model, nil
 			}
 
-			a.draw(model)
+			if err := a.draw(model); err != nil {
+				return model, err
+			}
 		}
 	}
 }
@@ -382,11 +389,12 @@ func (a *appRunner) shutdown() error {
 	return a.restore()
 }
 
-func (a *appRunner) draw(widget Widget) {
-	_, err := a.terminal.Draw(widget)
-	if err != nil {
-		a.errs <- err
+func (a *appRunner) draw(widget Widget) error {
+	if _, err := a.terminal.Draw(widget); err != nil {
+		return fmt.Errorf("draw: %w", err)
 	}
+
+	return nil
 }
 
 func (a *appRunner) init() error {
-- 
2.43.0


From 7805c1de545b95aa0debf7c0a647e1e12f75b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 35/43] fix: the terminal is restored on every way out of Run

---
 app.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/app.go b/app.go
index 7b9516f..5c0607c 100644
--- a/app.go
+++ b/app.go
@@ -17,6 +17,7 @@ import (
 var (
 	ErrInterrupted = errors.New("interrupted")
 	ErrKilled      = errors.New("killed")
+	ErrPanicked    = errors.New("panicked")
 )
 
 type Msg any
@@ -194,7 +195,21 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
-	defer a.recoverFromPanic()
+	// Whatever the way out is, the terminal is restored, and only once.
+	defer func() {
+		r := recover()
+
+		if shutdownErr := a.shutdown(); shutdownErr != nil {
+			err = errors.Join(err, fmt.Errorf("shutdown: %w", shutdownErr))
+		}
+
+		if r != nil {
+			fmt.Printf("Caught panic:\n\n%v\n\n", r)
+			debug.PrintStack()
+
+			model, err = a.model, errors.Join(fmt.Errorf("%w: %v", ErrPanicked, r), err)
+		}
+	}()
 
 	err = a.init()
 	if err != nil {
@@ -232,10 +247,6 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	if err := a.shutdown(); err != nil {
-		return model, fmt.Errorf("shutdown: %w", err)
-	}
-
 	return model, nil
 }
 
@@ -359,6 +370,7 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
+			a.model = model
 
 			select {
 			case a.cmds <- cmd:
-- 
2.43.0


From 23a0ea0d39ed79f82592fb2ff9c3635a23ff2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 36/43] fix: a panic in a command ends the program in order

---
 app.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/app.go b/app.go
index 5c0607c..50dcebf 100644
--- a/app.go
+++ b/app.go
@@ -20,6 +20,20 @@ var (
 	ErrPanicked    = errors.New("panicked")
 )
 
+// panicError is a panic of the user code.
+type panicError struct {
+	value any
+	stack []byte
+}
+
+func (e *panicError) Error() string {
+	return fmt.Sprintf("%v: %v", ErrPanicked, e.value)
+}
+
+func (e *panicError) Unwrap() error {
+	return ErrPanicked
+}
+
 type Msg any
 
 type Cmd func() Msg
@@ -197,17 +211,19 @@ func (a *appRunner) Run() (model Model, err error) {
 
 	// Whatever the way out is, the terminal is restored, and only once.
 	defer func() {
-		r := recover()
+		if r := recover(); r != nil {
+			model, err = a.model, &panicError{value: r, stack: debug.Stack()}
+		}
+
+		var panicked *panicError
+		isPanic := errors.As(err, &panicked)
 
 		if shutdownErr := a.shutdown(); shutdownErr != nil {
 			err = errors.Join(err, fmt.Errorf("shutdown: %w", shutdownErr))
 		}
 
-		if r != nil {
-			fmt.Printf("Caught panic:\n\n%v\n\n", r)
-			debug.PrintStack()
-
-			model, err = a.model, errors.Join(fmt.Errorf("%w: %v", ErrPanicked, r), err)
+		if isPanic {
+			fmt.Printf("Caught panic:\n\n%v\n\n%s\n", panicked.value, panicked.stack)
 		}
 	}()
 
@@ -342,6 +358,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				continue
 			case sequenceMsg:
 				go func() {
+					defer a.recoverFromPanic()
+
 					// Execute commands one at a time, in order.
 					for _, cmd := range msg {
 						if cmd == nil {
@@ -354,6 +372,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 							for _, cmd := range batchMsg {
 								cmd := cmd
 								g.Go(func() error {
+									defer a.recoverFromPanic()
+
 									a.Send(cmd())
 									return nil
 								})
@@ -385,11 +405,14 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 	}
 }
 
+// recoverFromPanic turns the panic of a command into an error that ends the
+// program, so that the terminal is restored by the goroutine that draws on it.
 func (a *appRunner) recoverFromPanic() {
 	if r := recover(); r != nil {
-		a.shutdown()
-		fmt.Printf("Caught panic:\n\n%s\n\nRestoring terminal...\n\n", r)
-		debug.PrintStack()
+		select {
+		case a.errs <- &panicError{value: r, stack: debug.Stack()}:
+		case <-a.ctx.Done():
+		}
 	}
 }
 
-- 
2.43.0


From a001c743b96821c1a0a97c948709d196596f2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 37/43] fix: a failing step of the restoration does not skip
 the others

---
 app.go |  8 +++++---
 tty.go | 12 ++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index 50dcebf..5d6eb6e 100644
--- a/app.go
+++ b/app.go
@@ -445,15 +445,17 @@ func (a *appRunner) init() error {
 }
 
 func (a *appRunner) restore() error {
+	var errs []error
+
 	if err := a.restoreTerminal(); err != nil {
-		return fmt.Errorf("restore terminal: %w", err)
+		errs = append(errs, fmt.Errorf("restore terminal: %w", err))
 	}
 
 	if err := a.terminal.LeaveAlternateScreen(); err != nil {
-		return fmt.Errorf("leave alt screen buffer: %w", err)
+		errs = append(errs, fmt.Errorf("leave alt screen buffer: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // channelHandlers manages the series of channels returned by various processes.
diff --git a/tty.go b/tty.go
index b6c168a..1d64d4d 100644
--- a/tty.go
+++ b/tty.go
@@ -23,13 +23,17 @@ func (a *appRunner) initTerminal() error {
 
 // restoreTerminal restores the terminal to the state prior to running the
 // Bento app.
+//
+// A step that fails does not keep the others from being done.
 func (a *appRunner) restoreTerminal() error {
+	var errs []error
+
 	if err := a.terminal.DisableBracketedPaste(); err != nil {
-		return fmt.Errorf("disable bracketed paste: %w", err)
+		errs = append(errs, fmt.Errorf("disable bracketed paste: %w", err))
 	}
 
 	if err := a.terminal.ShowCursor(); err != nil {
-		return fmt.Errorf("show cursor: %w", err)
+		errs = append(errs, fmt.Errorf("show cursor: %w", err))
 	}
 	// a.disableMouse()
 
@@ -44,10 +48,10 @@ func (a *appRunner) restoreTerminal() error {
 	// time.Sleep(time.Millisecond * 10) //nolint:gomnd
 	// }
 	if err := a.terminal.DisableRawMode(); err != nil {
-		return fmt.Errorf("disable raw mode: %w", err)
+		errs = append(errs, fmt.Errorf("disable raw mode: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 func (a *appRunner) initCancelReader() error {
-- 
2.43.0


From be4c2d29578110c3b451e3f8314eb1dd5ea58316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 38/43] fix: the output is usable again after a write error

---
 terminal_backend.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index 0578b76..2350688 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -130,7 +130,13 @@ func (d *DefaultBackend) ClearUntilNewLine() error {
 }
 
 // Draw implements TerminalBackend.
-func (d *DefaultBackend) Draw(cells []PositionedCell) error {
+func (d *DefaultBackend) Draw(cells []PositionedCell) (err error) {
+	defer func() {
+		if err != nil {
+			d.outputBuf.Reset(d.output)
+		}
+	}()
+
 	var (
 		lastPos  *Position
 		modifier Modifier
@@ -200,8 +206,15 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 }
 
 // Flush implements TerminalBackend.
+//
+// What could not be written is dropped, the writer would fail forever otherwise.
 func (d *DefaultBackend) Flush() error {
-	return d.outputBuf.Flush()
+	err := d.outputBuf.Flush()
+	if err != nil {
+		d.outputBuf.Reset(d.output)
+	}
+
+	return err
 }
 
 // GetCursorPosition implements TerminalBackend.
-- 
2.43.0


From 6affdf95f07fa54cadde7fd3aa6c186084d6e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 39/43] fix: nested batches and sequences of a sequence are
 waited for

---
 app.go | 65 ++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/app.go b/app.go
index 5d6eb6e..b133b95 100644
--- a/app.go
+++ b/app.go
@@ -313,6 +313,45 @@ func (a *appRunner) handleCmd(cmd Cmd) {
 	}()
 }
 
+// execute runs the command and returns once everything it led to is finished:
+// unlike those of the event loop, batches and sequences it results in are waited for.
+func (a *appRunner) execute(cmd Cmd) {
+	if cmd == nil {
+		return
+	}
+
+	switch msg := cmd().(type) {
+	case BatchMsg:
+		g, _ := errgroup.WithContext(a.ctx)
+		for _, cmd := range msg {
+			cmd := cmd
+			g.Go(func() error {
+				defer a.recoverFromPanic()
+
+				a.execute(cmd)
+				return nil
+			})
+		}
+
+		_ = g.Wait() // wait for all commands from batch msg to finish
+	case sequenceMsg:
+		a.executeSequence(msg)
+	default:
+		a.Send(msg)
+	}
+}
+
+// executeSequence runs the commands one at a time, in order, until the program ends.
+func (a *appRunner) executeSequence(cmds []Cmd) {
+	for _, cmd := range cmds {
+		if a.ctx.Err() != nil {
+			return
+		}
+
+		a.execute(cmd)
+	}
+}
+
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
@@ -360,31 +399,7 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				go func() {
 					defer a.recoverFromPanic()
 
-					// Execute commands one at a time, in order.
-					for _, cmd := range msg {
-						if cmd == nil {
-							continue
-						}
-
-						msg := cmd()
-						if batchMsg, ok := msg.(BatchMsg); ok {
-							g, _ := errgroup.WithContext(a.ctx)
-							for _, cmd := range batchMsg {
-								cmd := cmd
-								g.Go(func() error {
-									defer a.recoverFromPanic()
-
-									a.Send(cmd())
-									return nil
-								})
-							}
-
-							_ = g.Wait() // wait for all commands from batch msg to finish
-							continue
-						}
-
-						a.Send(msg)
-					}
+					a.executeSequence(msg)
 				}()
 			}
 
-- 
2.43.0


From 421a86eb29fa3f4924e7f953a27e5e57e53cdac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 40/43] fix: the input is not read any more once Run has
 returned

---
 app.go | 9 +++++++++
 tty.go | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index b133b95..9c9e9be 100644
--- a/app.go
+++ b/app.go
@@ -434,6 +434,15 @@ func (a *appRunner) recoverFromPanic() {
 func (a *appRunner) shutdown() error {
 	a.cancelCtx()
 
+	// Whatever is typed from now on is not for us.
+	if a.cancelReader != nil {
+		if a.cancelReader.Cancel() {
+			a.waitForReadLoop()
+		}
+
+		_ = a.cancelReader.Close()
+	}
+
 	a.handlers.shutdown()
 
 	return a.restore()
diff --git a/tty.go b/tty.go
index 1d64d4d..1efae1a 100644
--- a/tty.go
+++ b/tty.go
@@ -55,7 +55,7 @@ func (a *appRunner) restoreTerminal() error {
 }
 
 func (a *appRunner) initCancelReader() error {
-	r, err := newInputReader(a.terminal)
+	r, err := newInputReader(a.terminal.Input())
 	if err != nil {
 		return fmt.Errorf("new reader: %w", err)
 	}
@@ -72,6 +72,10 @@ func (a *appRunner) readLoop() {
 	defer close(a.readLoopDone)
 
 	err := readInputs(a.ctx, a.msgs, a.cancelReader)
+	if err == nil || a.ctx.Err() != nil {
+		return
+	}
+
 	if !errors.Is(err, io.EOF) && !errors.Is(err, cancelreader.ErrCanceled) {
 		select {
 		case <-a.ctx.Done():
-- 
2.43.0


From e2eceb296fce07b72d760df5bfcef5a9e3a1f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 41/43] fix: a terminal opened for input is closed when its
 size cannot be told

---
 app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app.go b/app.go
index 9c9e9be..b188240 100644
--- a/app.go
+++ b/app.go
@@ -141,6 +141,10 @@ func (a App) Run() (Model, error) {
 	backend := NewDefaultBackend(input, a.output)
 	terminal, err := NewTerminal(&backend, ViewportFullscreen{})
 	if err != nil {
+		if closeInput != nil {
+			_ = closeInput()
+		}
+
 		return nil, fmt.Errorf("new terminal: %w", err)
 	}
 
-- 
2.43.0


From bbbb2fed32549ea31f536890482fefd768cba9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 42/43] fix: the size reported last is the current one

---
 app.go             | 5 +----
 signals_unix.go    | 4 ++++
 signals_windows.go | 1 +
 tty.go             | 8 ++++----
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/app.go b/app.go
index b188240..dda8dfc 100644
--- a/app.go
+++ b/app.go
@@ -359,10 +359,7 @@ func (a *appRunner) executeSequence(cmds []Cmd) {
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
-	// Get the initial terminal size and send it to the program.
-	go a.checkResize()
-
-	// Listen for window resizes.
+	// Send the initial terminal size to the program and listen for window resizes.
 	go a.listenForResize(ch)
 
 	a.handlers.add(ch)
diff --git a/signals_unix.go b/signals_unix.go
index 3a25748..e06f3df 100644
--- a/signals_unix.go
+++ b/signals_unix.go
@@ -21,6 +21,10 @@ func (a *appRunner) listenForResize(done chan struct{}) {
 		close(done)
 	}()
 
+	// The initial size is asked for only now, and here, so that no later
+	// change is missed or overtaken by it.
+	a.checkResize()
+
 	for {
 		select {
 		case <-a.ctx.Done():
diff --git a/signals_windows.go b/signals_windows.go
index 43fb53f..8342412 100644
--- a/signals_windows.go
+++ b/signals_windows.go
@@ -6,5 +6,6 @@ package bento
 // listenForResize is not available on windows because windows does not
 // implement syscall.SIGWINCH.
 func (a *appRunner) listenForResize(done chan struct{}) {
+	a.checkResize()
 	close(done)
 }
diff --git a/tty.go b/tty.go
index 1efae1a..e1d357e 100644
--- a/tty.go
+++ b/tty.go
@@ -99,10 +99,6 @@ func (a *appRunner) waitForReadLoop() {
 // via a WindowSizeMsg.
 func (a *appRunner) checkResize() {
 	size, ok, err := a.terminal.Size()
-	if !ok {
-		return
-	}
-
 	if err != nil {
 		select {
 		case <-a.ctx.Done():
@@ -112,5 +108,9 @@ func (a *appRunner) checkResize() {
 		return
 	}
 
+	if !ok {
+		return
+	}
+
 	a.Send(WindowSizeMsg(size))
 }
-- 
2.43.0


From 312fbc9738bbd9c0ee3fb50a1766d8f2ffe5d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 43/43] fix: a paragraph without an alignment is left-aligned
 instead of panicking

---
 widget/paragraphwidget/paragraph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 7427a82..c43369e 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -110,6 +110,10 @@ func (p Paragraph) render(textArea bento.Rect, buffer *bento.Buffer) {
 			alignment = p.Alignment
 		}
 
+		if alignment == bento.AlignmentNone {
+			alignment = bento.AlignmentLeft
+		}
+
 		styled = append(styled, reflow.InputLine{
 			Graphemes: graphemes,
 			Alignment: alignment,
-- 
2.43.0


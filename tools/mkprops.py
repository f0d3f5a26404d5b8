#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the one place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

S, H, I, C, F = "schedules", "histories", "inputs", "configurations", "fault_sequences"

# ---------------------------------------------------------------- application runtime
prop("C01", "The terminal is restored on every way out",
 "However a program ends (quit message, cancelled context, input error, output error, or a panic in Init, Update, Render or a command), once Run has returned the terminal is as it was before: raw mode undone, alternate screen left, cursor visible, bracketed paste off. "
 "No screen-control output is written after that restoration, restoration never runs twice or concurrently with drawing, and a failure of one restoration step does not skip the others.",
 [S, F], "every interleaving of the runtime's goroutines up to a deviation bound, times every exit cause, times a write/read failure at every position",
 "The tests never call Run; restoring the terminal depends on which goroutine notices the end first and on where an I/O error strikes.",
 ["app.go", "tty.go", "terminal.go", "terminal_backend.go", "signals_unix.go"],
 [("Run/shutdown/restore", "app.go"), ("recoverFromPanic", "app.go"), ("restoreTerminal", "tty.go")],
 ["bytes written to the output", "terminal mode calls", "return of Run"])
prop("C02", "Run always returns and leaves nothing running",
 "After a quit message has been handled, the context is cancelled, an I/O error occurs or user code panics, Run returns in every interleaving (it never deadlocks), with an error unless the program quit normally: a cancelled context yields ErrKilled, a panic ErrPanicked. "
 "No sequence goes on to its next command then. "
 "When it has returned, every goroutine the runtime started has ended or ends by itself, except one still inside a user command or inside an uninterruptible read.",
 [S, F], "every interleaving up to a deviation bound, with the context cancelled, the input ended or failed, or user code panicking at every reachable point",
 "No test runs the event loop; a deadlock needs one particular order of channel operations and cancellation.",
 ["app.go", "tty.go", "signals_unix.go", "cmd.go"],
 [("event loop", "app.go"), ("channelHandlers.shutdown", "app.go"), ("readLoop", "tty.go")],
 ["return of Run", "set of live goroutines"])
prop("C03", "Every command runs exactly once and its message arrives",
 "Every non-nil command returned by Init or Update, each member of a batch included (also batches inside batches or sequences), is executed exactly once, and as long as the program runs, the non-nil message it produces reaches Update exactly once. "
 "The commands of a sequence run one at a time, in the given order, each only after the previous one (a nested batch or sequence in full) has finished and its message has been handed over; nil commands and nil messages are ignored.",
 [S, H], "every interleaving up to a deviation bound of small programs of commands, batches and sequences nested in each other",
 "Tests execute no commands; losing or duplicating one depends on nesting and on goroutine order.",
 ["app.go", "cmd.go"],
 [("handleCommands/handleCmd", "app.go"), ("sequence handling in eventLoop", "app.go"), ("Batch, Sequence", "cmd.go")],
 ["calls of commands", "messages passed to Update"])
prop("C04", "Updates are serial, ordered, and each is drawn",
 "Init, Update and Render are never called concurrently with each other; messages from one source (the input, one command) reach Update in the order they were produced. "
 "After every handled message the screen shows the frame of the model that Update returned, and Run returns the model of the last Update, whose frame was the last one drawn before a normal exit.",
 [S, H], "every interleaving up to a deviation bound of programs with several message sources",
 "Overlap and reordering need a particular interleaving of reader, commands, resize watcher and event loop.",
 ["app.go", "tty.go", "input.go"],
 [("eventLoop", "app.go"), ("readInputs", "input.go"), ("draw", "app.go")],
 ["calls of Update and Render", "bytes written to the output", "result of Run"])
prop("C05", "Input is left alone once Run has returned",
 "When the input is an interruptible terminal, no read of it is outstanding or started after Run has returned, on any exit path, so that what is typed next goes to the next reader, and a terminal opened for the input is closed again. "
 "Everything read before the end was delivered to Update in order, up to the message that ended the program.",
 [S, F], "every interleaving up to a deviation bound, for every exit cause, with input arriving at every point",
 "Needs the exit to race with a pending read; no test runs the reader.",
 ["tty.go", "app.go", "inputreader_other.go"],
 [("cancelReader", "tty.go"), ("waitForReadLoop", "tty.go")],
 ["reads of the input", "return of Run"])
prop("C06", "The window size the program knows is the real one",
 "The size of the terminal at start, and after every size change signalled while the program runs, is reported to Update, and the last reported size is the current size of the terminal, in every interleaving. "
 "From a size report on, frames cover exactly that area: Render is given a rectangle at the origin of that width and height.",
 [S, H], "every interleaving up to a deviation bound of the initial size check, size-change signals and messages",
 "A stale size needs the initial check to race with a signal; the tests never start the watchers.",
 ["app.go", "tty.go", "signals_unix.go", "terminal.go"],
 [("checkResize", "tty.go"), ("listenForResize", "signals_unix.go"), ("Terminal.Resize", "terminal.go")],
 ["WindowSizeMsg passed to Update", "area passed to Render"])

# ---------------------------------------------------------------- screen
prop("C07", "The screen always shows the last frame",
 "After every Draw, whatever frames, resizes and clears went before, an ANSI terminal fed with the output displays exactly the rendered frame: every cell's glyph (double-width glyphs and combining characters included), colours and attributes, and nothing left over from earlier frames. "
 "The cursor is hidden unless shown on purpose, stands where it is put then, and drawing an unchanged frame rewrites no cell.",
 [H, I], "all sequences of frames up to a depth on small screens over an alphabet of narrow, wide, combining and styled cells, with resizes and clears between them",
 "Only differences between frames are written, so an error shows only after particular pairs of frames; no test feeds the output to a terminal.",
 ["terminal.go", "terminal_backend.go", "buffer.go", "cell.go", "internal/ansi/command.go"],
 [("Buffer.Diff", "buffer.go"), ("Terminal.Draw/Flush/Resize/SwapBuffers", "terminal.go"), ("DefaultBackend.Draw", "terminal_backend.go")],
 ["bytes written to the output"],
 [("buffers", "front and back frame", "terminal.go")])
prop("C08", "Each glyph is shown in its own colours and attributes",
 "For every order in which cells with any attributes (all nine) and any colours follow each other, on every colour profile, each glyph is displayed with exactly its own attributes and the profile's rendition of its own foreground and background. "
 "Nothing carries over from one cell, or one draw, to the next, and a cell without a colour (or a profile without colours) shows the terminal's default.",
 [I, H], "all ordered pairs of the 512 attribute sets, all sequences of styles up to a length over an alphabet of colours, on all four colour profiles",
 "Attributes are changed incrementally, so an error depends on the pair of neighbours; no test inspects the escape codes.",
 ["terminal_backend.go", "internal/ansi/attr.go", "internal/ansi/command.go", "color.go", "style.go"],
 [("_StyleModifierDiff", "terminal_backend.go"), ("SetColors", "internal/ansi/command.go"), ("Attr.SGR", "internal/ansi/attr.go")],
 ["bytes written to the output"])
prop("C09", "Printing a string stays in its row and its limit",
 "Printing a string into a buffer writes the longest run of its graphemes that fits both the given width limit and the rest of the row, one grapheme per cell, a double-width one followed by a blank cell, and returns the column after the last one. "
 "Zero-width graphemes and control characters are skipped, no cell outside that run changes, and no string or limit, and no column from the buffer's left edge on, makes it panic.",
 [I], "all strings up to a length over an alphabet of narrow, wide, zero-width and control graphemes, at every column and limit, on buffers at every small offset",
 "Width accounting fails only for particular mixes at particular columns; there is no test of it.",
 ["buffer.go", "cell.go"], [("SetStringN/SetString", "buffer.go"), ("CellAt/indexOf", "buffer.go")], ["buffer cells", "returned position"])

# ---------------------------------------------------------------- geometry and style
prop("C10", "Rectangle arithmetic agrees with sets of cells",
 "Right, Bottom, Area, IsEmpty, Contains, Intersection, Inner, IndentX, Rows and Columns of a rectangle describe exactly the set of cells they name: the intersection holds the common cells, the inner area the cells left after taking the padding off each side, the rows and columns partition it in order. "
 "A padding built from 0, 1, 2 or 4 sides, or changed on one side, has the CSS meaning and changes no other side.",
 [I], "all rectangles, pairs of rectangles, positions and paddings with small coordinates",
 "Off-by-one and side mix-ups show only for particular rectangles; nothing tests this.",
 ["rect.go", "padding.go", "position.go"], [("Inner/Intersection/Contains", "rect.go"), ("NewPadding/With*", "padding.go")], ["results"])
prop("C11", "Patching styles equals applying them in turn",
 "Applying a style to a cell sets the colours the style sets, adds the modifiers it adds and removes those it removes, and leaves everything else alone; applying a patched style gives the same cell as applying the two styles one after the other. "
 "Each named colour and modifier method changes exactly the attribute it names, and the last instruction about a modifier wins.",
 [I, H], "all sequences of style operations up to a length, applied to all small cells, and all pairs and triples of styles over an alphabet",
 "The algebra is over combinations of add and remove masks; the tests use none of it.",
 ["style.go", "cell.go", "internal/bit/bit.go"], [("Patched/WithModifier/WithoutModifier", "style.go"), ("Cell.SetStyle", "cell.go")], ["cells"])

# ---------------------------------------------------------------- input
prop("C12", "Every input byte is decoded exactly once, as what it is",
 "Each byte of the input belongs to exactly one message, in order: known key sequences become their key by longest match (with alt when prefixed by escape), called by its documented name, printable text its runes, a bracketed paste its text verbatim, focus and mouse reports their events, any other CSI sequence or byte an explicit unknown message. "
 "Nothing is lost, duplicated, merged or invented whatever follows or precedes it in the same read, including bytes that arrive together with end of input.",
 [I], "all byte strings up to a length over an alphabet covering every class the decoder distinguishes, and all concatenations of known sequences and texts up to a count",
 "The decoder is a longest-match over overlapping tables; there are no decoder tests at all.",
 ["input.go", "mouse.go", "key_other.go"], [("readAnsiInputs/detectOneMsg", "input.go"), ("sequences/extSequences", "input.go"), ("detectBracketedPaste", "input.go")], ["messages delivered to Update"])
prop("C13", "How input is split into reads does not change what it means",
 "A read that fills the buffer is not a boundary: text, multi-byte characters, key sequences, mouse reports and pastes cut by it decode exactly as if they had arrived uncut, at whatever position the cut falls. "
 "What is complete is delivered without waiting for more input, messages already delivered never change afterwards, and what was pending when the input ends is still delivered.",
 [I, H], "every unit of the alphabet placed at every position across one and two full-buffer boundaries, pastes longer than several buffers, and end of input at every position",
 "Only input bursts of 256 bytes or more with a unit lying across the boundary show it.",
 ["input.go"], [("left-over handling in readAnsiInputs", "input.go"), ("canHaveMoreData", "input.go")], ["messages delivered to Update"])
prop("C14", "Mouse reports decode to the event the terminal sent",
 "For every button code, modifier combination and coordinate that the SGR and X10 encodings can express, the decoded event has the zero-based column and row, the button, the press/release/motion action and the shift/alt/ctrl flags of the report, and the report's bytes are consumed exactly. "
 "Wheel events are never releases, text that merely resembles a report is not taken for one, and the text of an event names its modifiers, button and action.",
 [I], "all 256 X10 button bytes and all SGR button codes up to 255 with both final letters, over all small and boundary coordinates, and all one-byte mutations of reports",
 "The decoding is bit arithmetic over a 256-value space; nothing tests it.",
 ["mouse.go", "input.go"], [("parseMouseButton", "mouse.go"), ("parseSGRMouseEvent/parseX10MouseEvent", "mouse.go")], ["MouseMsg delivered to Update"])

# ---------------------------------------------------------------- layout
prop("C15", "A layout divides its area without gaps or overlap",
 "Splitting an area gives one segment per constraint and one spacer more, which alternate in order and tile the padded area from edge to edge with no gap, overlap (other than a requested negative spacing) or spill, each spanning the full cross axis; sizes are never negative, and unwrapping or assigning the segments hands them out in their order. "
 "A horizontal split is the transpose of the vertical one, and moving the area moves the result with it.",
 [C], "all lists of up to 3 constraints (thorough: 4) over an alphabet of kinds and values, times flex modes, spacings, paddings, sizes and origins",
 "The tests cover single sizes with two constraints; rounding and over-constrained combinations number in the tens of thousands.",
 ["layout.go", "constraint.go", "flex.go", "spacing.go", "internal/casso"], [("split", "layout.go"), ("solver", "internal/casso/solver.go"), ("changesToRects", "layout.go")], ["returned rectangles"])
prop("C16", "Layout constraints are honoured by priority",
 "The sizes a layout returns are (up to rounding to whole cells) an optimum of the requested constraints: minimum and maximum bounds first, then fixed lengths, percentages, ratios, then the preference sizes and growth of fills, so that constraints that can all be met are all met. "
 "The excess goes where the flex mode says: last segment (legacy), after (start), before (end), on both sides (center), between the segments (space between), or between and outside all of them (space around), each in equal shares.",
 [C], "all lists of up to 3 constraints over an alphabet of kinds and values, times flex modes, spacings and sizes, each compared with an exact optimum computed independently",
 "The tests fix about 170 rows of expected letters for a few combinations; priorities interact combinatorially.",
 ["layout.go", "internal/casso"], [("configure*Constraints", "layout.go"), ("strengths", "layout.go"), ("optimize", "internal/casso/solver.go")], ["returned rectangles"])
prop("C17", "A layout is a total, deterministic function",
 "The same layout applied to the same area always gives the same rectangles, whatever was computed before, in whatever order hash maps are walked, and on however many goroutines at once. "
 "It returns for every number of constraints (hundreds included), every value and every area, without panic or endless loop, and leaves the layout unchanged.",
 [C, S], "all map iteration orders (up to a deviation bound) of the solver for every small layout; repeated and interleaved calls; 1 to 150 constraints",
 "Go randomises map order per run, so a test sees one order; no test has more than four constraints.",
 ["layout.go", "internal/casso"], [("pivot selection", "internal/casso/solver.go"), ("symbols", "internal/casso/casso.go")], ["returned rectangles"])

# ---------------------------------------------------------------- text
prop("C18", "Word wrap loses nothing and never exceeds the width",
 "Wrapping shows every non-whitespace grapheme (that is no wider than the area) of every line, in order and in its style, on lines no wider than the area; a line is broken at whitespace whenever the words fit, a word is split only if it (with the whitespace kept before it on its row) is longer than the width, and then at the width, and each input line starts a new line. "
 "Without trimming, leading whitespace is kept; with trimming no wrapped line starts with whitespace.",
 [I], "all texts up to a length over an alphabet of letters, spaces, wide and zero-width graphemes and line breaks, at every small width, trimmed or not",
 "Wrapping keeps several carry-over buffers; errors need particular word and width combinations and several lines.",
 ["internal/reflow/wrapper.go", "widget/paragraphwidget/paragraph.go"], [("WordWrapper", "internal/reflow/wrapper.go")], ["buffer cells"])
prop("C19", "A paragraph puts each line in its own row, aligned and scrolled",
 "Without wrapping, row i of a paragraph shows line i + vertical scroll, cut at the area's width (after skipping the horizontal scroll for left-aligned lines), aligned by the line's or else the paragraph's alignment, in the style of its spans; with wrapping the same holds for the wrapped lines (there is no horizontal scroll then). "
 "Rows beyond the text stay blank, and scrolling never shows anything but the text moved by the offset.",
 [I, C], "all texts of up to 3 short lines over an alphabet, times widths, heights, alignments, horizontal and vertical scroll offsets, wrap modes",
 "There is no paragraph test; rows, scroll and alignment interact.",
 ["widget/paragraphwidget/paragraph.go", "internal/reflow/truncator.go", "internal/reflow/wrapper.go"], [("renderText", "widget/paragraphwidget/paragraph.go"), ("LineTruncator", "internal/reflow/truncator.go")], ["buffer cells"])
prop("C20", "Lines and texts render aligned and cut on the right side",
 "A line, span or text drawn in an area shows its graphemes in order in consecutive cells, starting where its alignment (or the text's, when the line has none) puts it; when too wide, a left-aligned line loses its right end, a right-aligned one its left end and a centred one both. "
 "Styles combine text, then line, then span; nothing outside the area changes.",
 [I, C], "all lines of up to 3 spans over an alphabet of narrow, wide and combining graphemes, at every width, alignment and offset",
 "The tests render a handful of texts; truncation inside wide graphemes and across spans is not reached.",
 ["widget/textwidget/line.go", "widget/textwidget/span.go", "widget/textwidget/text.go"], [("renderWithAlignment", "widget/textwidget/line.go"), ("spansAfterWidth", "widget/textwidget/span.go")], ["buffer cells"])
prop("C21", "Texts keep their content and measure it",
 "Building spans, lines and texts from strings keeps every character: String gives back the text (line breaks normalised to newlines, one trailing newline dropped), whatever the length of a line; Height is the number of lines, Width the widest line in cells. "
 "Appending spans or lines adds them at the end in order, and a buffer made from lines shows exactly those lines.",
 [I, H], "all strings up to a length over an alphabet with line breaks, lines of sizes around every power-of-two buffer limit up to 128 KiB, and all short sequences of append operations",
 "Content is lost only at particular sizes and line-break combinations.",
 ["widget/textwidget/line.go", "widget/textwidget/text.go", "widget/textwidget/span.go"], [("NewLinesStr/NewLineStr", "widget/textwidget/line.go"), ("String", "widget/textwidget/text.go")], ["String, Width, Height", "buffer cells"])

# ---------------------------------------------------------------- widgets
prop("C22", "Widgets draw only inside their area, at any size",
 "Rendering any widget (block, list, paragraph, input, tabs, gauge, scrollbar, throbber, popup, fill, clear, span, line, text), with any block around it, into any area of a buffer, an empty or one-cell one included, changes no cell outside the area and never panics or hangs; spans, lines, texts and blocks also cut off an area that reaches out of the buffer. Rendering twice gives the same cells as rendering once, and what is drawn depends only on the size of the area, not on where it lies.",
 [C, I], "every widget in a set of configurations and contents, in every rectangle of a small buffer, at several buffer origins",
 "Clipping mistakes show only at small or off-origin areas; no test renders into a sub-area.",
 ["widget", "buffer.go"], [("Render/RenderStateful", "widget"), ("Inner", "widget/blockwidget/block.go")], ["buffer cells"])
prop("C23", "A block's border, titles and inner area fit together",
 "A block draws exactly the chosen sides (with corners where both sides are present) in its border set and style along the edge of its area, and its titles on the chosen edge between the corners: left-aligned from the left, right-aligned against the right, centred in the middle, in order, one cell apart, cut where the room ends. "
 "The inner area is exactly what is left after border and title rows and then the padding are taken off, and never leaves the area. A paragraph, list, input or row of tabs with a block is its style, then the block, then what it is without block in the inner area.",
 [C], "all 16 side sets, border types, paddings, areas, and up to 3 titles over alignments, positions and widths",
 "The combinations of sides, titles and small areas are many and untested.",
 ["widget/blockwidget/block.go", "widget/blockwidget/border.go", "widget/blockwidget/title.go"], [("Inner", "widget/blockwidget/block.go"), ("renderBorders/renderTitles", "widget/blockwidget/block.go")], ["buffer cells", "Inner"])
prop("C24", "A list keeps its selection valid and visible",
 "After any sequence of navigation keys, selections, offset changes, item changes and renders, the selected index moves as the operation says, clamped to the items when the list is rendered, and after a render the selected item is fully visible (its top part if taller than the area), with as much scroll padding as fits. "
 "The visible items are consecutive, as many as fit, fully shown, in order (top-down or bottom-up), start at the kept offset whenever the selection allows, in the list's style and then their own, and only the selected one carries the highlight symbol and style. Without a state it is drawn as with a new one.",
 [H, C], "all sequences of list operations up to a depth from every small list of item heights, area heights, scroll paddings and directions",
 "One test covers one offset; the window depends on the history of offsets and selections.",
 ["widget/listwidget/list.go", "widget/listwidget/state.go"], [("getItemsBounds", "widget/listwidget/list.go"), ("applyScrollPaddingToSelectedIndex", "widget/listwidget/list.go"), ("State.update", "widget/listwidget/state.go")], ["Selected", "buffer cells"])
prop("C25", "The text input edits like a text field",
 "After any sequence of typing, pasting, cursor movement and deletion keys, the input's text is that of a plain text field: typed text is inserted at the cursor, backspace removes the grapheme before it, ctrl+w the word (and spaces) before it, left/right move it one grapheme and ctrl+a/ctrl+e to the ends of the text. "
 "The cursor never leaves the text, clearing the line empties it, and keys the input does not handle change nothing and are reported as not consumed.",
 [H], "all key sequences up to a depth over an alphabet of keys and graphemes (wide, combining, whitespace) explored breadth-first over all reachable states",
 "Deletion at the edges and mixed with movement corrupts state only after particular sequences; nothing tests it.",
 ["widget/inputwidget/state.go", "internal/grapheme"], [("Append/Delete*/MoveCursor*", "widget/inputwidget/state.go")], ["String", "TryUpdate result", "rendered cursor"])
prop("C26", "The text input always shows its cursor and a true excerpt",
 "Whatever the text, the cursor, the earlier scrolling and the width, rendering an input never panics, shows the prompt and a contiguous excerpt of the text that contains the cursor position and as much of the text as the room allows (one cell kept for the cursor), with the cursor style on exactly the grapheme at the cursor (or a blank after the end) whenever the area has room for it. "
 "An empty input shows its placeholder, and text that fits is shown in full.",
 [H, C], "all reachable editing states up to a depth rendered at every width sequence of length up to 2, with and without prompt and placeholder, over narrow and wide graphemes",
 "The visible window depends on the history of edits and widths.",
 ["widget/inputwidget/input.go", "widget/inputwidget/state.go"], [("RenderStateful", "widget/inputwidget/input.go"), ("getBounds", "widget/inputwidget/state.go")], ["buffer cells"])
prop("C27", "The scrollbar mirrors the scroll position",
 "The bar fills its edge of the area (right or left column, bottom or top row) from end to end: begin symbol, track, one unbroken thumb of at least one cell, track, end symbol; the thumb's start never moves backwards as the position grows, touches the start of the track at the first position and its end at the last; its start and length are proportional (to within a cell) to the position and to the viewport's share of the content. "
 "Stepping, jumping and scrolling keep the position within the content, whose share it has as its ratio, and the inner area is the area without the bar.",
 [C, H], "all orientations, areas, content lengths, viewport lengths and positions up to a bound, and all sequences of state operations up to a depth",
 "Rounding at particular lengths and orientations; there is no test.",
 ["widget/scrollwidget/scroll.go", "widget/scrollwidget/state.go"], [("partLens", "widget/scrollwidget/scroll.go"), ("scrollbarArea", "widget/scrollwidget/scroll.go")], ["buffer cells", "Position", "Inner"])
prop("C28", "The gauge fills in proportion and shows its label",
 "The filled part of a gauge spans, in every row, the ratio of its width rounded to whole cells (or to eighths in unicode mode), grows monotonically with the ratio, is empty at 0 and full at 1; the label (the rounded percentage by default) is centred, cut to the width and stays readable over both parts. "
 "Ratios outside 0..1 and percentages outside 0..100 are refused by panicking.",
 [I, C], "every ratio k/n and percent on every width and height up to a bound, both modes, labels shorter and longer than the width, and a set of illegal values",
 "Rounding errors occur at particular width-ratio pairs; there is no test.",
 ["widget/gaugewidget/gauge.go"], [("render", "widget/gaugewidget/gauge.go"), ("WithRatio/WithPercent", "widget/gaugewidget/gauge.go")], ["buffer cells", "panics"])
prop("C29", "Tabs appear in order and exactly the selected one is highlighted",
 "Tabs draws its titles in order in the first row of its area, each between its paddings and separated by the divider, cut where the area ends, with nothing drawn after the cut. "
 "Exactly the cells of the selected title carry the highlight style; with no or an out-of-range selection none do.",
 [C], "all lists of up to 3 titles over an alphabet of texts, paddings and dividers, at every width and selection",
 "Cut-off at each part of each tab is position dependent; there is no test.",
 ["widget/tabswidget/tabs.go", "widget/textwidget/line.go"], [("render", "widget/tabswidget/tabs.go"), ("Line.Print", "widget/textwidget/line.go")], ["buffer cells"])
prop("C30", "A throbber advances once per own tick",
 "A throbber moves one frame, cyclically, for exactly those ticks that carry its own id and its current tag, and schedules exactly one next tick each time; ticks of other throbbers, outdated ticks and other messages change nothing and are not consumed. "
 "The rendered frame is the one of its set for the number of accepted ticks, placed centred.",
 [H, S], "all interleavings up to a depth of pending, duplicated and reordered ticks of two throbbers",
 "Doubled speed or a stuck throbber needs duplicated or reordered ticks; there is no test.",
 ["widget/throbberwidget/state.go", "widget/throbberwidget/throbber.go", "widget/throbberwidget/set.go"], [("TryUpdate/tick", "widget/throbberwidget/state.go"), ("Set.Frame", "widget/throbberwidget/set.go")], ["buffer cells", "TryUpdate result"])
prop("C31", "Builders are pure: deriving a value never changes another",
 "Every With... and other chaining method of layouts, blocks, titles, lines, texts, spans, paragraphs, lists, inputs, tabs, gauges, popups, styles, paddings and rectangles returns a new value: the receiver and all values derived from it earlier keep rendering exactly as before. "
 "Rendering a value does not change it either.",
 [H], "all sequences of builder calls up to a depth forming a tree of derived values, each value re-observed after every later call",
 "Sharing of slice storage shows only when two values are derived from the same parent with spare capacity.",
 ["layout.go", "widget"], [("append in With* methods", "layout.go, widget/textwidget, widget/blockwidget")], ["rendered cells and split results of every value"])
prop("C32", "A popup clears and occupies exactly its box",
 "A popup blanks and styles exactly the box given by its width and height constraints and (last chosen) placement within the area less its padding, draws its block on that box, and leaves the rest of the screen as it was; the inner area lies inside the box, inside the block. "
 "Clear blanks, and fill covers with its symbol and style, exactly the cells of their area.",
 [C], "all placements, size constraints, areas and origins up to a bound over a pre-filled buffer",
 "Placement is delegated to layouts; leaking or leaving stale cells depends on size and placement; there is no test.",
 ["widget/popupwidget/popup.go", "widget/clearwidget/clear.go", "widget/fillwidget/fill.go"], [("Render/Inner", "widget/popupwidget/popup.go")], ["buffer cells", "Inner"])

prop("C33", "Widgets, texts and terminals share nothing behind the scenes",
 "Building, measuring, drawing, printing, naming, decoding input and drawing on a terminal give the same result whatever the process did before and whatever other goroutines do with values of their own at the same time: one of them is never changed, torn or crashed by another that it was not given. "
 "Throbbers made at the same time have different ids.",
 [S, H], "all ordered pairs of a few hundred operations in one process, and all interleavings up to a deviation bound of two or three of them in goroutines, on contents seen before and on new ones",
 "Caches, pools and scratch space go wrong only after particular earlier calls or under particular interleavings; no test runs two of them at once.",
 ["widget", "internal/reflow", "internal/grapheme", "internal/ansi", "input.go", "buffer.go", "style.go", "terminal_backend.go"],
 [("nextID", "widget/throbberwidget/msg.go"), ("WordWrapper", "internal/reflow/wrapper.go"), ("readAnsiInputs/readInputs", "input.go"), ("WriteANSI", "internal/ansi/command.go"), ("keyNames", "input.go")],
 ["buffer cells", "returned values", "bytes written to the output"])

prop("C34", "A buffer is a grid of cells addressed by position",
 "A buffer holds one cell of its own for each position of its area, wherever that area lies, numbered row by row, and none outside; writing, styling an area, resetting and resizing change exactly the cells they name. "
 "The difference between two buffers, applied in its order to a display of the first, gives a display of the second; it names only cells of the area, no skipped one, none twice, and nothing at all if the buffers are equal.",
 [I, H], "all histories of buffer operations up to a depth on small buffers at several origins, and all pairs of small rows with wide glyphs",
 "Addressing goes wrong only away from the origin, for some shapes, or after a resize; the only tests use buffers at the origin.",
 ["buffer.go", "cell.go"], [("indexOf/PosOf", "buffer.go"), ("Diff", "buffer.go"), ("Resize/SetStyle", "buffer.go")], ["buffer cells", "list of updates"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

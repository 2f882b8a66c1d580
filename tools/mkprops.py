#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts; the jsonl is what is committed and read)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

NOTEST = "There is no test of the runtime at all: "

prop("R01", "The terminal is handed back exactly as it was on every way out of the app",
 "Whenever running an application returns - after a quit message, a cancelled context, an output or input error, or a panic in the application's initialisation, update, render or any command - the terminal's line settings are exactly what they were before, the main screen is active again, the cursor is visible and bracketed paste is off; afterwards the application neither reads from nor writes to the terminal. A panic in a command, also one inside a sequence or a batch, never takes the process down with the terminal still captured.",
 ["schedules", "crash_points", "histories", "fault_sequences"],
 "every history of messages, commands and resizes, every point at which quit / cancellation / failure / panic can strike, every interleaving of the input reader, the resize listener, the command goroutines and the event loop",
 NOTEST + "no test ever starts an application, and the property quantifies over interleavings and fault points.",
 ["app.go", "tty.go", "terminal_backend.go", "terminal_backend_unix.go", "terminal.go"],
 [("shutdown/restore on every return path of the runner", "app.go:(*appRunner).Run, shutdown, restore"), ("restoreTerminal", "tty.go"), ("panic recovery in command goroutines", "app.go:handleCmd, eventLoop")],
 ["termios of the tty before and after", "byte stream on the output tty", "process exit status"])

prop("R02", "Running an application always terminates after quit, cancellation or failure",
 "Once a quit message has been delivered, the parent context has been cancelled, a callback has panicked or the terminal has failed, running the application returns after finitely many steps, as soon as the callback that is currently executing returns, no matter how many commands are still running or waiting, how much input is pending, or whether commands never return. No internal hand-off can block the application for ever.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of event loop, command dispatcher, command goroutines, reader and resize listener, with the stop cause striking at every point",
 NOTEST + "termination is a liveness property of a concurrent program; a test samples one schedule.",
 ["app.go", "tty.go", "signals_unix.go", "inputreader_other.go"],
 [("context-guarded channel operations", "app.go:Send, handleCommands, eventLoop"), ("handlers waited for on shutdown", "app.go:channelHandlers")],
 ["return of Run", "goroutine dump of the watchdog"])

prop("R03", "Messages reach the model exactly once, one at a time, in order of their source",
 "Every non-nil message produced by a command, decoded from the input or caused by a window resize is given to the model's update exactly once while the application runs; nil results are dropped, and nothing is delivered after the quit message or once running the application has returned. Updates never overlap with each other or with rendering, each one works on the model returned by the previous one, and messages from one source (typed input; one sequence of commands) arrive in the order in which they were produced.",
 ["schedules", "histories"],
 "every history of typed keys, command results and resizes, under every interleaving of their producers",
 NOTEST + "ordering, uniqueness and mutual exclusion are statements over all interleavings.",
 ["app.go", "input.go", "tty.go", "cmd.go"],
 [("single event loop owns the model", "app.go:eventLoop"), ("unbuffered message channel", "app.go:Send")],
 ["calls of Update with their messages"])

prop("R04", "Every command runs exactly once; batches concurrently, sequences in order",
 "Every non-nil command returned by initialisation or by an update, and every non-nil member of a batch or a sequence, is started exactly once while the application runs, and never on the goroutine that runs updates, so a slow command never delays other messages. The members of a batch all run concurrently; a member of a sequence starts only after its predecessor returned and - when the predecessor was a batch or itself a sequence - after all of that one's commands returned. A command made by Tick calls its function once, not before its time.",
 ["schedules", "histories", "inputs"],
 "every nesting of single commands, batches and sequences, and every order in which the commands finish",
 NOTEST + "the property quantifies over command trees and completion orders.",
 ["cmd.go", "app.go"],
 [("handleCmd goroutine per command", "app.go:handleCmd"), ("sequence and batch execution", "app.go:eventLoop"), ("Batch/Sequence constructors", "cmd.go")],
 ["start and end of every command"])

prop("R05", "Every update is drawn at the current size, and the outcome of a run is faithful",
 "After every update, before the next one, exactly the model returned by that update is rendered over the full area of the terminal - the size last announced to the model - and when no more messages arrive the terminal displays that rendering; a resize announces the new size, and the next rendering uses it. After a quit or a cancellation, running the application returns the model of the last update, with no error after the quit and the killed error after the cancellation; it returns an error when the terminal failed or a callback panicked.",
 ["histories", "schedules", "fault_sequences"],
 "every history of messages and resizes, every size (including one with no cells), and every stop cause",
 NOTEST + "no test runs the loop or resizes a terminal.",
 ["app.go", "terminal.go", "signals_unix.go", "tty.go"],
 [("draw after update", "app.go:eventLoop"), ("Resize on WindowSizeMsg", "app.go:eventLoop, terminal.go:Resize"), ("size probe and SIGWINCH listener", "tty.go:checkResize, signals_unix.go")],
 ["calls of Render with area and model", "emulated screen", "result of Run"])

prop("I01", "Terminal input is decoded completely and unambiguously, by longest match",
 "Every byte sequence sent by the terminal is turned into a sequence of messages that accounts for every byte exactly once and in order: each known key sequence (optionally prefixed by escape for Alt), control byte, and space is reported as that key with the right modifiers and name, preferring the longest known sequence; each maximal run of printable characters is reported as one runes message carrying those characters; each well-formed unknown escape sequence and each invalid byte is reported as unknown with its bytes. Decoding never fails, stalls or drops input.",
 ["inputs"],
 "every byte string up to the tested length over a byte alphabet that covers every decoding branch, plus random long strings",
 "No test feeds any input; the domain is all byte strings.",
 ["input.go", "key_other.go"],
 [("sequence table and longest match", "input.go"), ("read loop", "input.go:readAnsiInputs")],
 ["messages emitted for a byte stream"])

prop("I02", "What was typed does not depend on how the bytes arrive in reads",
 "The messages decoded from a stream do not depend on how the stream is cut into reads as long as each read ends between two keys (characters typed in separate reads are separate messages, and a bracketed paste may be cut anywhere), and a burst that fills the read buffer and continues in the next read decodes as if it had arrived at once: no key, mouse report, paste or multi-byte character is torn apart, merged with another one or lost at the end of the stream or when a read delivers data together with an error.",
 ["inputs", "fault_sequences"],
 "every cut of a stream at key boundaries, every burst length around multiples of the read buffer size, every construct placed across the boundary, and read errors at every point",
 "No test feeds any input; boundaries appear only with bursts of at least 256 bytes.",
 ["input.go"],
 [("carry-over of incomplete data", "input.go:readAnsiInputs")],
 ["messages emitted for a sequence of reads"])

prop("I03", "Mouse, focus and paste reports are decoded with the right payload",
 "A legacy or SGR mouse report is decoded to exactly one mouse message with the zero-based coordinates, button, action (press, release, motion) and modifiers it encodes; focus-in and focus-out reports give exactly one focus or blur message wherever they stand in the input; a bracketed paste of any content gives exactly one paste message carrying the characters of that content unchanged. What precedes and follows such a report is decoded as if the report were not there.",
 ["inputs"],
 "all button codes and boundary coordinates of both mouse protocols, all paste contents over the byte alphabet, every neighbour of a report",
 "No test feeds any input.",
 ["mouse.go", "input.go"],
 [("mouse parsers", "mouse.go"), ("paste and focus detection", "input.go")],
 ["messages emitted for a byte stream"])

prop("I04", "Keys and mouse events have names that identify them",
 "Every key has a name a program may compare it by: its modifiers in the order alt, ctrl, shift, each followed by a plus sign, and its base name (enter, up, f5, ctrl+c, alt+ctrl+shift+home; a blank for space); a key made of characters is named by exactly those characters, with alt+ in front if Alt was held, and pasted text by its characters in square brackets. Two different named keys never have the same name, a named key other than space never has the name of a typed character, and pasted text never has the name of a key. The name of a mouse event gives its modifiers (ctrl, alt, shift), its button, and - except for the wheel - what happened to it (press, release, motion; without a button only that); mouse events that differ in one of these have different names. Printing a key or a mouse event prints its name.",
 ["inputs"],
 "all key constants and their aliases with all flags, all runs of characters, all mouse events",
 "No test names a key; uniqueness is a statement over all pairs.",
 ["input.go", "mouse.go"],
 [("key names", "input.go:Key.String, keyNames"), ("mouse event names", "mouse.go:MouseEvent.String")],
 ["String of keys, key types and mouse events", "fmt.Sprint of them"])

prop("S01", "After every draw the terminal shows exactly the frame that was rendered",
 "After every draw, whatever was drawn before, every cell of the terminal inside the drawing area shows exactly the character and style the frame assigned to it - nothing remains of earlier frames, each frame starts out blank, double-width characters are neither torn nor duplicated, cells outside of the area are untouched, and the cursor is hidden. This also holds for the first draw after the terminal was resized or cleared, and drawing an identical frame again sends no cell at all.",
 ["histories", "inputs"],
 "all sequences of frames over an alphabet of narrow and wide characters and styles, interleaved with resizes and clears",
 "Tests compare in-memory buffers once; none draws two frames after each other or looks at a terminal.",
 ["terminal.go", "buffer.go", "terminal_backend.go", "cell.go", "frame.go"],
 [("double buffering", "terminal.go:Draw, SwapBuffers, Resize, Clear"), ("cell diff", "buffer.go:Diff"), ("cursor movement elision", "terminal_backend.go:Draw")],
 ["byte stream written to the output, through a terminal emulator"])

prop("S02", "Colours and modifiers reach the terminal exactly, and never leak",
 "For every sequence of styled cells the terminal displays each cell with exactly the modifiers of that cell and with exactly its colours as far as the terminal's colour capability allows (a colour that cannot be expressed leaves the default colour); no attribute of one cell leaks into another cell or into later output. Drawing never fails because of a colour value.",
 ["inputs", "histories", "configurations"],
 "all pairs of modifier sets and of colours, and random sequences of them, under every colour capability",
 "No test reaches the escape sequences.",
 ["terminal_backend.go", "internal/ansi/command.go", "internal/ansi/attr.go", "color.go", "style.go"],
 [("modifier difference", "terminal_backend.go:_StyleModifierDiff"), ("colour change detection", "terminal_backend.go:Draw")],
 ["byte stream written to the output, through a terminal emulator"])

prop("S03", "Writing strings and styles into a buffer changes exactly the cells it should",
 "Writing a string puts its graphemes one after the other into the row, each occupying its display width (the cells covered by a wide one are blanked), stops before the first grapheme that does not fit into the allowed width or the row, skips zero-width and control graphemes, returns the position after the last written cell and changes nothing else. Applying a style to an area changes the style of exactly the cells of the area that lie in the buffer, and none of their characters.",
 ["inputs", "histories"],
 "all short strings over narrow, wide, combining and control graphemes, every start column and width limit, every area including ones that stick out",
 "The existing tests write plain text that fits.",
 ["buffer.go", "cell.go", "style.go"],
 [("bounded string writes", "buffer.go:SetStringN"), ("area clipping", "buffer.go:SetStyle")],
 ["buffer contents and return values"])

prop("S04", "Styles compose: applying two styles in turn equals applying their combination",
 "Applying one style to a cell and then another gives the same cell as applying the first style patched with the second; patching is associative, the empty style changes nothing, and of the properties two styles both set, the later one wins, a modifier removed by the later style being gone and one added by it being present. Resetting a cell gives a blank with the default style.",
 ["inputs", "histories"],
 "all styles over a two-colour palette and a subset of the modifiers, all sequences of style operations up to the bound",
 "Unit tests check single styles.",
 ["style.go", "cell.go", "internal/bit/bit.go", "color.go"],
 [("patching", "style.go:Patched"), ("cell styling", "cell.go:SetStyle")],
 ["cell contents after style application"])

prop("S05", "Every terminal operation does what it says, at once, and nothing else",
 "Moving, showing and hiding the cursor, entering and leaving the alternate screen, switching bracketed paste, and clearing (everything, up to and including the cursor, from the cursor on, the cursor's row, the rest of it) have exactly the effect they are named after, have it when the call returns, and leave every other cell, mode and attribute as it was; leaving the alternate screen brings back the main screen as it was. Entering raw mode and leaving it again restores the line settings found on entering; without a terminal, and before it was entered, it changes nothing. The size reported is that of the terminal, or none if the output is no terminal; input, output and viewport are the ones the terminal was made with, and reading hands on what the input holds. An operation or a drawing that reports no error has reached the output completely, wherever the output fails.",
 ["histories", "inputs", "fault_sequences"],
 "all histories of operations, drawings and resizes, all cursor positions, line settings and kinds of output, and every byte at which the output may fail",
 "No test uses a terminal.",
 ["terminal.go", "terminal_backend.go", "terminal_backend_unix.go", "internal/ansi/command.go", "internal/ansi/get.go"],
 [("operations", "terminal.go, terminal_backend.go:DefaultBackend"), ("sequences", "internal/ansi/command.go"), ("raw mode", "terminal_backend_unix.go:EnableRawMode, terminal_backend.go:DisableRawMode")],
 ["bytes written by every operation", "line settings of the tty", "errors returned"])

prop("L01", "Layouts tile their area for any constraints: ordered, disjoint, contained",
 "Splitting an area yields exactly one rectangle per constraint, in order and however they are taken out of the result (unwrapped or assigned), each spanning the full cross dimension and lying inside the area inset by the margins; neighbours are separated by at least the spacing where it fits and never overlap, except by at most the overlap where one is asked for, and in the legacy alignment they cover the inset area completely. The spacers returned with them are exactly the gaps between them and around them. Splitting never fails and depends only on its arguments: the same layout and area always give the same result, for any number and kind of constraints, and deriving another layout from a layout does not change either.",
 ["inputs", "configurations"],
 "all constraint lists up to the bound over all kinds and boundary values, all alignments, directions, margins and spacings, all widths including 0, plus random long lists",
 "The tests sample a few hundred fixed layouts of at most five constraints, each solved once.",
 ["layout.go", "constraint.go", "flex.go", "rect.go", "internal/casso/solver.go", "internal/casso/casso.go"],
 [("constraint system", "layout.go"), ("simplex solver", "internal/casso")],
 ["rectangles returned by Split"])

prop("L02", "Layouts honour constraints by priority",
 "When the demands of a layout can all be met, every segment gets exactly what it asks for: lengths and percentages and ratios their exact share, minimums at least and maximums at most their value, fills the rest in proportion to their weights. When they conflict, a demand of higher priority (minimum and maximum, then length, then percentage, then ratio, then fill) is never given up to satisfy one of lower priority.",
 ["inputs", "configurations"],
 "all constraint lists up to the bound over all kinds and boundary values and all widths up to the bound",
 "The tests sample fixed layouts.",
 ["layout.go", "constraint.go", "internal/casso/solver.go"],
 [("constraint strengths", "layout.go")],
 ["rectangles returned by Split"])

prop("L03", "Flex modes distribute the free space as documented",
 "When the segments do not fill the area, the free space is placed as the alignment mode says: all after the segments (start), all before them (end), equally on both sides up to rounding (centre), equally between them (space between), equally around all of them including the ends (space around), all of this up to rounding to whole cells and with more than one segment to put it between; in the stretching mode the segments absorb it. The sizes of fixed segments do not depend on which of the non-stretching modes is used.",
 ["inputs", "configurations"],
 "all lists of fixed segments up to the bound, all modes, spacings and widths",
 "The tests sample fixed layouts.",
 ["layout.go", "flex.go"],
 [("flex constraints", "layout.go")],
 ["rectangles returned by Split"])

prop("G01", "Rectangle operations are exactly set operations on cells",
 "A rectangle denotes a set of cells: intersection is exactly the common cells, containment is membership, the area is the number of cells, iteration over rows and columns partitions it in order, shrinking by a margin or padding removes exactly the cells nearer to the corresponding edge than the margin (nothing remains when it is too large), and offsetting moves every cell by the same amount. All operations are total and never produce a negative size.",
 ["inputs"],
 "all rectangles and margins over a small grid, and random large ones",
 "The tests do not cover rectangle arithmetic.",
 ["rect.go", "padding.go", "position.go"],
 [("rectangle arithmetic", "rect.go"), ("paddings", "padding.go")],
 ["results of rectangle operations"])

prop("T01", "Text lines are aligned and truncated by display width, with the right style",
 "A line of text rendered into an area occupies only the area's first row, starts at the column its alignment dictates (left, centred with rounding to the left, right; an explicit alignment of a line overrides the one of the text) and, when it is too wide, shows exactly the window of its characters that its alignment keeps, in order, without splitting wide characters, whose further columns are left blank; several lines occupy consecutive rows from the top, and surplus lines are cut off. Every character carries the style of its text, patched with that of its line, patched with that of its span; deriving one line or text from another, or appending to a copy, never changes the other. Printing a line or span at a position writes it from there on, as much as fits into the given width, and returns where it ends; a buffer made of lines shows exactly these.",
 ["inputs", "configurations"],
 "all lines up to the bound over spans of narrow, wide and zero-width characters, all widths and alignments, all style combinations",
 "The tests render a few fixed lines.",
 ["widget/textwidget/line.go", "widget/textwidget/text.go", "widget/textwidget/span.go", "alignment.go"],
 [("line rendering and truncation", "widget/textwidget/line.go"), ("text rendering", "widget/textwidget/text.go")],
 ["buffer contents after rendering"])

prop("T02", "Word wrapping loses nothing, breaks only where it must, and fits the width",
 "A wrapped paragraph shows its text in rows no wider than the area, in reading order: concatenating the rows gives back the text without losing, duplicating or reordering any non-blank character, every explicit line break starts a new row, blanks are lost only at row breaks, words are broken only when they do not fit into a row of their own, and a row is only ended early when the next word does not fit. Characters wider than a whole row are left out; with trimming, rows begin without blanks, and without it the indentation of a line belongs to the word it precedes.",
 ["inputs", "configurations"],
 "all texts up to the bound over letters, blanks, wide characters, non-breaking and zero-width spaces and line breaks, all widths, trimming on and off",
 "There is no wrapping test.",
 ["internal/reflow/wrapper.go", "widget/paragraphwidget/paragraph.go", "internal/grapheme/grapheme.go"],
 [("word wrapper", "internal/reflow/wrapper.go")],
 ["rows of the rendered buffer"])

prop("T03", "Unwrapped paragraphs show one row per line; scrolling shifts the view exactly",
 "An unwrapped paragraph shows each of its lines on one row, aligned within the area (centred up to rounding) and cut at its width; scrolling by (y, x) shows the same rows shifted up by y and, for left-aligned lines only, shifted left by x columns, where a wide character the left edge would cut is kept whole. A block around the paragraph only reduces the area available to the text, and paragraph style and line alignment apply as for text.",
 ["inputs", "configurations"],
 "all texts up to the bound, all scroll offsets, widths, heights and alignments",
 "There is no paragraph test.",
 ["widget/paragraphwidget/paragraph.go", "internal/reflow/truncator.go"],
 [("line truncator", "internal/reflow/truncator.go"), ("rendering with scroll", "widget/paragraphwidget/paragraph.go")],
 ["rows of the rendered buffer"])

prop("W01", "Rendering never fails and never touches a cell outside the given area",
 "Rendering any widget of the library, with any text, configuration and state, even the zero value, into any area of a buffer - empty, smaller than the content, or partly or entirely outside the buffer - returns normally and leaves every cell of the buffer outside of that area unchanged.",
 ["inputs", "configurations", "histories"],
 "every widget, over all areas of small buffers including degenerate and sticking-out ones, with generated contents and options",
 "The tests render fixed content into areas that fit.",
 ["widget", "buffer.go", "rect.go"],
 [("clipping to the buffer area", "each widget's Render")],
 ["buffer contents outside of the area", "panics"])

prop("W02", "Lists keep the selection valid and visible and show consecutive items",
 "After rendering a list, the selection is none for an empty list and otherwise lies within the items; the rows show consecutive whole items from the scroll offset on, in order, up to the height, and the selected item is always among them when it fits, with as many of the configured padding items around it as possible. The scroll offset moves only as far as needed, the highlight symbol and style appear exactly on the selected item's rows, and movement operations move the selection by exactly the requested amount, saturating at both ends (the end is known, and applied, when the list is rendered); a copy of a state is not affected by what is done to the other one.",
 ["histories", "inputs", "configurations"],
 "all histories of selection, scrolling and rendering operations with changing items and heights up to the bound",
 "The tests check fixed lists after at most a few operations.",
 ["widget/listwidget/list.go", "widget/listwidget/state.go"],
 [("bounds computation", "widget/listwidget/list.go"), ("selection state", "widget/listwidget/state.go")],
 ["list state and buffer after each operation"])

prop("W03", "The text input edits exactly at the cursor and keeps the cursor visible",
 "A text input behaves like the sequence of its graphemes with a cursor between 0 and its length: typing and pasting insert at the cursor, the deletion keys remove exactly the grapheme before the cursor, the blanks and the word before it, or everything, and the movement keys move the cursor by exactly one grapheme or to the ends, all of them stopping at the ends. No operation affects any other character, and a copy of an input is never changed by edits of the other one. Rendering shows, after the prompt, a contiguous part of the text that fits the width, contains the cursor position (marked with the cursor style), moves no further than that needs and is as long as possible; without text it shows the placeholder.",
 ["histories", "inputs"],
 "all histories of editing keys up to the bound over narrow, wide, blank and combining characters, with renderings at all widths in between",
 "There is no test of the text input.",
 ["widget/inputwidget/input.go", "widget/inputwidget/state.go"],
 [("editing state", "widget/inputwidget/state.go"), ("window computation", "widget/inputwidget/input.go")],
 ["text, cursor and buffer after each key"])

prop("W04", "Scrollbars stay in range and show the true position",
 "Whatever scroll operations are performed, the position of a scroll state stays between 0 and its content length; rendering draws the bar only along the edge its orientation names, with the begin and end symbols at the ends and a non-empty thumb in between whose position never moves backwards as the position grows, touches the beginning at position 0 and the end at the last position. Rendering never changes the position, and the ratio of a state is its position divided by its content length.",
 ["histories", "inputs", "configurations"],
 "all operation histories and all lengths, positions, viewport sizes and areas up to the bound",
 "There is no test of the scrollbar.",
 ["widget/scrollwidget/scroll.go", "widget/scrollwidget/state.go", "widget/scrollwidget/set.go"],
 [("thumb geometry", "widget/scrollwidget/scroll.go"), ("state", "widget/scrollwidget/state.go")],
 ["scroll state and buffer after each operation"])

prop("W05", "Blocks draw exactly their borders and titles and leave exactly the inside",
 "A block draws on each enabled side, and only there, the line and corner symbols of its set, puts its titles on the top or bottom row at the position their alignment names within the corners, cut to fit, and applies its style to its whole area. The inner area is exactly the area minus the enabled borders, the rows needed by titles and the padding, is never negative, and rendering the block leaves the characters of the inner area untouched.",
 ["inputs", "configurations"],
 "all border and padding combinations, title positions and alignments, and areas up to the bound",
 "There is no test of the block.",
 ["widget/blockwidget/block.go", "widget/blockwidget/border.go", "widget/blockwidget/title.go", "padding.go"],
 [("border drawing", "widget/blockwidget/block.go"), ("inner area", "widget/blockwidget/block.go:Inner")],
 ["buffer contents and inner rectangle"])

prop("W06", "Gauges, tabs, popups, fills and clears paint exactly what their values say",
 "A gauge fills exactly its ratio of the width (rounded to the resolution of its symbols), shows its label centred and rejects ratios outside 0 to 1; tabs show their titles left to right with the divider between them and highlight exactly the selected one; a popup clears and paints exactly its computed rectangle inside the area; filling and clearing set every cell of the area to the given symbol or to blank.",
 ["inputs", "configurations"],
 "all ratios, titles, selections, sizes and areas up to the bound",
 "There is no test of these widgets.",
 ["widget/gaugewidget/gauge.go", "widget/tabswidget/tabs.go", "widget/popupwidget/popup.go", "widget/fillwidget/fill.go", "widget/clearwidget/clear.go"],
 [("painting", "each widget's Render")],
 ["buffer contents after rendering"])

prop("W07", "A throbber advances only by its own, current tick and shows its current frame",
 "A throbber advances by exactly one frame, cyclically, for each tick message that is its own and belongs to its most recent tick, and then asks for exactly one next tick, which comes no earlier than the frame time set; foreign, outdated and duplicated ticks change nothing, so a throbber is never sped up by stray messages. Rendering shows exactly the current frame.",
 ["histories", "schedules"],
 "all interleavings of tick deliveries, duplicates and foreign ticks of several throbbers up to the bound",
 "There is no test of the throbber.",
 ["widget/throbberwidget/state.go", "widget/throbberwidget/throbber.go", "widget/throbberwidget/msg.go"],
 [("id and tag matching", "widget/throbberwidget/state.go")],
 ["frame shown, commands returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")

"""Which specifications and drivers decide which property (read by check.py and mkmanifest.py)."""

APP_MC = [
    {"module": "AppMC", "cfg": "AppMC.cfg", "workers": 6},
    {"module": "AppMC", "cfg": "AppResize.cfg", "workers": 2},
    {"module": "AppMC", "cfg": "AppMCbig.cfg", "workers": 8, "heap": "10g", "thorough": True},
    {"module": "AppMC", "cfg": "AppMCres.cfg", "workers": 8, "heap": "8g", "thorough": True},
    {"module": "AppMC", "cfg": "AppDeep.cfg", "workers": 8, "heap": "8g", "thorough": True},
    {"module": "AppMC", "cfg": "AppLive.cfg", "workers": 4, "thorough": True},
] + [{"module": "AppMC", "cfg": "AppBug_%s.cfg" % b, "workers": 4, "thorough": True, "expect": b}
     for b in ("batch", "block", "drawerr", "norestore", "execpanic", "noread", "sizeerr")]
APP_SUITE = {"name": "app", "spec": "AppTrace", "shards": 8,
             "gen": {"module": "AppGen", "cfg": "AppGen.cfg", "simulate": (150, 400), "thorough_simulate": (2500, 400)}}
APP_TECH = ("TLA+ specification of the runtime (App.tla: event loop, command, input and resize goroutines, context, terminal, faults) "
            "model-checked with TLC against an observer (AppObs.tla); behaviours of the specification are replayed on real applications on "
            "pseudo terminals, and TLC checks every recorded trace (spec-generated, fixed and random scripts) against the same observer")


def app(note):
    return {"mc": APP_MC, "suites": [APP_SUITE], "technique": APP_TECH, "note": note,
            "assumptions": ["Linux pseudo terminals stand for terminals; Windows code paths are not run",
                            "schedules of the Go runtime are sampled, steered by holding callbacks and commands in the order of the specification's behaviours"]}


INPUT_MC = [
    {"module": "InputMC", "cfg": "InputMC.cfg", "workers": 4},
    {"module": "InputMC", "cfg": "InputMCbig.cfg", "workers": 8, "heap": "8g", "thorough": True},
    {"module": "InputMC", "cfg": "InputSgr.cfg", "workers": 8, "heap": "8g", "thorough": True},
] + [{"module": "InputMC", "cfg": "InputBug_%s.cfg" % b, "workers": 2, "thorough": True, "expect": b} for b in ("esc", "rune", "run")]
INPUT_SUITE = {"name": "input", "spec": "InputTrace", "shards": 8, "gen": {"module": "InputGen", "cfg": "InputGen.cfg"}}


def inp(note):
    return {"mc": INPUT_MC, "suites": [INPUT_SUITE], "note": note,
            "technique": "TLA+ specification of the meaning of terminal input (Input.tla, Keys.tla) and of the reader with its buffer (InputReader.tla), "
                         "model-checked with TLC over all streams and cuts of small size; streams composed from the specification's tokens are fed to the real "
                         "decoder read by read, and TLC checks every recorded read and message against the specification",
            "assumptions": ["the decoder is called through readInputs of package bento, exported by an overlay file; the Windows console reader is not run"]}


SCREEN_MC = [
    {"module": "ScreenMC", "cfg": "ScreenRows.cfg", "workers": 6},
    {"module": "ModMC", "cfg": "ModMC.cfg", "workers": 2},
    {"module": "ScreenMC", "cfg": "ScreenMC.cfg", "workers": 8, "thorough": True},
    {"module": "ScreenMC", "cfg": "ScreenFixed.cfg", "workers": 8, "thorough": True},
    {"module": "ScreenMC", "cfg": "ScreenWide.cfg", "workers": 8, "thorough": True},
    {"module": "ModMC", "cfg": "ModBug_nointensity.cfg", "workers": 4, "thorough": True, "expect": "nointensity"},
] + [{"module": "ScreenMC", "cfg": "ScreenBug_%s.cfg" % b, "workers": 4, "thorough": True, "expect": b}
     for b in ("noinval", "noskip", "noreset", "keepold", "elide", "clearall")]


def screen(note):
    return {"mc": SCREEN_MC, "suites": [{"name": "screen", "spec": "ScreenTrace", "shards": 8}], "note": note,
            "technique": "TLA+ specification of a terminal (Screen.tla) and of the rendering pipeline (Render.tla: double buffer, difference, cursor elision, attribute "
                         "changes), model-checked with TLC over all histories of small frames; the bytes real applications' terminals receive are recorded and "
                         "TLC runs them through the specified terminal and compares it with the frame",
            "assumptions": ["frames are well-formed: one grapheme of width 1 or 2 per cell, wide ones followed by a blank in the same row",
                            "a fixed viewport starts on a blank area or is cleared first"]}


def buf(mc, note):
    return {"mc": mc, "suites": [{"name": "buffer", "spec": "BufferTrace", "shards": 8}], "note": note,
            "technique": "TLA+ specification of styles, cells and buffers (Style.tla, Buffer.tla), checked with TLC over all styles and histories of small size; "
                         "TLC recomputes every recorded call on real buffers from the recorded state before it",
            "assumptions": ["graphemes and their widths are those of the library bento uses (uniseg)"]}


def lay(note):
    return {"mc": [{"module": "LayoutMC", "cfg": "LayoutMC.cfg", "workers": 4},
                   {"module": "LayoutMC", "cfg": "LayoutMCbig.cfg", "workers": 8, "thorough": True},
                   {"module": "LayoutMC", "cfg": "LayoutBug_order.cfg", "workers": 2, "thorough": True, "expect": "order"}],
            "suites": [{"name": "layout", "spec": "LayoutTrace", "shards": 8}], "note": note,
            "technique": "TLA+ specification of splitting (Layout.tla): structure, priorities, and the exact solution where all demands can be met; TLC shows on all small lists "
                         "that the priority rules hold of exactly the assignments that are best by priority; TLC checks every recorded split against the specification",
            "assumptions": ["positions are compared up to the rounding to whole cells (hundredths of a cell are rounded first)",
                            "fill weights up to 100 are exercised; which of several equally ranked segments gives way in a conflict is not specified"]}


PLAN = {
    "L01": lay("All lists of one and two and samples of longer constraints over all kinds, modes, spacings, overlaps, margins; lists of up to 128 constraints."),
    "L02": lay("All pairs of constraints of all kinds and boundary values, random lists, satisfiable or not."),
    "L03": lay("Fixed segments with room to spare in every mode, growing segments and weights, random lists."),
    "S01": screen("All pairs of frames of a short row, random histories of frames, resizes and clears in full screen and fixed viewports, and frames larger than the output buffer."),
    "S02": screen("All ordered pairs of modifier sets, of colours under every colour capability, and random sequences of both."),
    "S05": {
        "mc": [{"module": "ControlMC", "cfg": "ControlMC.cfg", "workers": 4}, {"module": "ControlMC", "cfg": "ControlMCbig.cfg", "workers": 8, "thorough": True},
               {"module": "ControlMC", "cfg": "ControlBug_line.cfg", "thorough": True, "expect": "line"},
               {"module": "ControlMC", "cfg": "ControlBug_first.cfg", "thorough": True, "expect": "first"}],
        "suites": [{"name": "control", "spec": "ControlTrace", "shards": 8}],
        "technique": "TLA+ specification of a terminal with two screens, modes and line settings and of what every operation makes of it (Control.tla), checked with TLC; "
                     "the bytes and line settings that real operations leave behind are run through it and compared by TLC",
        "note": "Every clearing at every place of both screens, raw mode among all short histories of changes of the line settings, random histories on terminals, plain writers and writers that fail after any number of bytes.",
        "assumptions": ["Linux pseudo terminals stand for terminals; the interpretation of private modes 25, 1049 and 2004 is xterm's"],
    },
    "S03": buf([{"module": "BufferMC", "cfg": "BufferMC.cfg", "workers": 4},
                {"module": "BufferMC", "cfg": "BufferMCbig.cfg", "workers": 8, "thorough": True},
                {"module": "BufferMC", "cfg": "BufferBug_skip.cfg", "workers": 2, "thorough": True, "expect": "skip"}],
               "Every short string over narrow, wide, zero-width and control graphemes at every column and limit, every area of a style, random histories."),
    "S04": buf([{"module": "StyleMC", "cfg": "StyleMC.cfg", "workers": 4},
                {"module": "StyleMC", "cfg": "StyleBug_sub.cfg", "workers": 2, "thorough": True, "expect": "sub"}],
               "All small styles in all triples, every named helper, random triples and histories of a cell."),
    "I01": inp("Every short string over an alphabet that covers every decoding branch, every known sequence with neighbours, and random streams."),
    "I02": inp("Every kind of token is placed at every offset across the end of a full read buffer, before the end of the stream and before an error."),
    "I03": inp("All button codes of both mouse protocols, focus reports between all kinds of neighbours, and pastes of arbitrary content cut anywhere."),
    "I04": {
        "mc": [{"module": "NamesMC", "cfg": "NamesMC.cfg"}, {"module": "NamesMC", "cfg": "NamesMCbig.cfg", "workers": 8, "thorough": True},
               {"module": "NamesMC", "cfg": "NamesBug_bare.cfg", "thorough": True, "expect": "bare"}],
        "suites": [{"name": "names", "spec": "NamesTrace"}],
        "technique": "TLA+ specification of the names of keys and mouse events (Names.tla), checked with TLC to identify what they name; "
                     "TLC compares every name the real code gives with it",
        "note": "Every key constant with and without Alt, every mouse event, characters typed and pasted: single ones up to U+024F, names of keys typed out, random runs.",
    },
    "R01": app("After every way to stop at every point, the line settings, screen, cursor and paste mode are compared with those before; bytes written later and input swallowed later are noticed."),
    "R02": app("Every run has to return after its stop cause; the specification has no reachable state at rest in which a stop cause is pending."),
    "R03": app("Every callback and message delivery of every run is checked by the observer."),
    "R04": app("Every start and end of every command of every tree is checked by the observer."),
    "R05": app("Every rendering, the screen at rest, announced sizes and the result of the run are checked by the observer."),
    "G01": {
        "mc": [{"module": "GeomMC", "cfg": "GeomMC.cfg"}],
        "suites": [{"name": "geom", "spec": "GeomTrace"}],
        "technique": "TLA+ specification of rectangles as cell sets, checked with TLC; trace validation of recorded calls",
        "note": "Every recorded call is compared by TLC with the specification's closed form, which TLC shows equal to the cell-set meaning on an exhaustive small grid.",
    },
}


def txt(note, mc=()):
    return {"mc": list(mc), "suites": [{"name": "text", "spec": "TextTrace", "shards": 8}], "note": note,
            "technique": "TLA+ specification of styled text (Text.tla) and of word wrapping (Wrap.tla); TLC compares every recorded rendering with it cell by cell",
            "assumptions": ["graphemes and their widths are those of the library bento uses (uniseg)"]}


TEXT_MC = [{"module": "TextMC", "cfg": "TextMC.cfg", "workers": 4},
           {"module": "TextMC", "cfg": "TextBug_round.cfg", "workers": 2, "thorough": True, "expect": "round"}]
WRAP_MC = [{"module": "WrapMC", "cfg": "WrapMC.cfg", "workers": 4},
           {"module": "WrapMC", "cfg": "WrapMCbig.cfg", "workers": 8, "thorough": True}] + [
    {"module": "WrapMC", "cfg": "WrapBug_%s.cfg" % b, "workers": 2, "thorough": True, "expect": b} for b in ("lazy", "wide", "hard", "lose")]

PLAN.update({
    "T01": txt("Every short line of narrow, wide and zero-width graphemes in two spans at all widths and alignments, random texts of control characters, emoji and combining marks in areas inside, across and outside of the buffer.", TEXT_MC),
    "T02": txt("Every short text over letters, blanks, wide characters and zero-width spaces, random paragraphs, all small widths.", WRAP_MC),
    "T03": txt("Every short line at every width and offset, random paragraphs with scrolling, alignment, styles and blocks.", TEXT_MC),
})


def wid(name, spec, note, mc=(), extra=()):
    return {"mc": list(mc), "suites": [{"name": name, "spec": spec, "shards": 8}] + list(extra), "note": note,
            "technique": "TLA+ specification of the widget (%s), TLC compares every recorded call with it cell by cell" % spec.replace("Trace", ".tla"),
            "assumptions": ["graphemes and their widths are those of the library bento uses (uniseg)"]}


def mcs(name, bugs):
    return [{"module": name + "MC", "cfg": name + "MC.cfg", "workers": 4},
            {"module": name + "MC", "cfg": name + "MCbig.cfg", "workers": 8, "thorough": True}] + [
        {"module": name + "MC", "cfg": "%sBug_%s.cfg" % (name, b), "workers": 2, "thorough": True, "expect": b} for b in bugs]


PLAN.update({
    "W05": wid("block", "BlockTrace", "All sets of sides in all small areas, titles of all alignments and positions at all widths, random blocks in areas inside, across and outside of the buffer.",
               mcs("Block", ["title", "gap"])),
    "W06": wid("simple", "SimpleTrace", "Gauges at every percentage and every eighth of small widths, random tabs, popups, fills and clears in areas inside, across and outside of the buffer.",
               mcs("Simple", ["shift"])),
    "W07": wid("throb", "ThrobberTrace", "All short histories of starting two throbbers and giving any tick to any of them, random long ones of up to four, every frame of every kind.",
               mcs("Throbber", ["wild", "foreign", "old"])),
    "W03": wid("winput", "FieldTrace", "All short histories of edits seen at small widths, random long ones of inputs and copies of them with renderings in between.",
               mcs("Field", ["free", "word", "still"])),
    "W04": wid("scroll", "ScrollTrace", "Every position of small contents on every small track and side, random histories with areas inside, across and outside of the buffer.",
               mcs("Scroll", ["plain"])),
    "W02": wid("list", "ListTrace", "Every selection and offset in every small list, random histories of operations and renderings with items that come, go and change.",
               mcs("List", ["pad", "lazy"])),
})
PLAN["W01"] = {"mc": mcs("Frame", ["clip", "limit"]), "suites": [{"name": "paint", "spec": "PaintTrace", "shards": 8}],
    "note": "All widgets, with the cases of their own suites and with hostile texts, in areas that are empty, huge, inside, across, around and outside of the buffer.",
    "technique": "TLA+ specification of painting into areas of a buffer (Frame.tla), checked with TLC; TLC compares every cell outside of the area of every recorded rendering",
    "assumptions": ["areas have sizes of 0 or more, below a million", "cells in the area are the subject of the other properties of widgets"]}

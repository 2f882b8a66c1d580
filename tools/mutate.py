#!/usr/bin/env python3
"""Sweeps small changes of the code (development only): mutate.py GROUP [N [SEED [WORKERS]]]

Makes N random one-line changes in the files of a group, keeps those that build and pass the tests, runs the suites of
the group on each, and lists the changes that no suite notices (many of them change no behaviour).
"""
import importlib.util, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("check", os.path.join(HERE, "check.py"))

W = "widget/"
GROUPS = {
    "buffer": (["buffer.go", "cell.go", "style.go", "internal/bit/bit.go"], ["S03", "S01"]),
    "screen": (["terminal.go", "terminal_backend.go", "terminal_backend_unix.go", "frame.go", "internal/ansi/*.go", "viewport.go"], ["S01", "S05", "R01"]),
    "app": (["app.go", "cmd.go", "signals_unix.go", "tty.go", "tty_unix.go", "inputreader_other.go", "widget.go"], ["R01"]),
    "input": (["input.go", "key_other.go", "mouse.go"], ["I01", "I04"]),
    "geom": (["rect.go", "position.go", "size.go", "padding.go"], ["G01"]),
    "layout": (["layout.go", "constraint.go", "spacing.go", "flex.go", "direction.go", "internal/casso/*.go"], ["L01"]),
    "text": (["internal/reflow/*.go", "internal/grapheme/*.go", "internal/sliceutil/*.go", W + "textwidget/*.go", W + "paragraphwidget/*.go"], ["T01"]),
    "block": ([W + "blockwidget/*.go", "alignment.go"], ["W05"]),
    "simple": ([W + d + "/*.go" for d in ("gaugewidget", "tabswidget", "popupwidget", "fillwidget", "clearwidget")], ["W06"]),
    "throb": ([W + "throbberwidget/*.go"], ["W07"]),
    "winput": ([W + "inputwidget/*.go"], ["W03"]),
    "scroll": ([W + "scrollwidget/*.go"], ["W04"]),
    "list": ([W + "listwidget/*.go"], ["W02"]),
}
SUBS = [(r"<=", "<"), (r"(?<![<\-])<(?![=\-<])", "<="), (r">=", ">"), (r"(?<![>\-=])>(?![=>])", ">="), (r"==", "!="), (r"!=", "=="),
        (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"--", "++"), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"(?<![\w.\"'])1(?![\w.])", "2"), (r"(?<![\w.\"'])1(?![\w.])", "0"), (r"(?<![\w.\"'])0(?![\w.x])", "1"), (r"(?<![\w.\"'])2(?![\w.])", "3"),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"Width\b", "Height"), (r"Height\b", "Width"),
        (r"Left\(\)", "Right()"), (r"Right\(\)", "Left()"), (r"Top\(\)", "Bottom()"), (r"Bottom\(\)", "Top()"), (r"\.X\b", ".Y"), (r"\.Y\b", ".X"), (r"(?<=\])?\[(\w+)\+1:\]", r"[\1:]"), (r"(?<=\* )|(?<=\w) / ", " * ")]
# one name for another one
for _a, _b in [("x", "y"), ("width", "height"), ("first", "last"), ("First", "Last"), ("begin", "end"), ("start", "end"), ("Start", "End"), ("fg", "bg"), ("Fg", "Bg"), ("Foreground", "Background"),
               ("added", "removed"), ("From", "To"), ("from", "to"), ("input", "output"), ("Input", "Output"), ("left", "right"), ("top", "bottom"), ("before", "after"), ("previous", "current"), ("Previous", "Current"),
               ("vertical", "horizontal"), ("Vertical", "Horizontal"), ("i", "j"), ("a", "b"), ("area", "inner"), ("position", "contentLen"), ("Next", "Prev"), ("Enable", "Disable"), ("min", "max"), ("Min", "Max"), ("add", "sub"),
               ("Left", "Right"), ("Top", "Bottom"), ("title", "line"), ("row", "column"), ("Row", "Column"), ("Rows", "Columns"), ("Take", "Skip"), ("offset", "cursor"), ("selected", "offset"), ("word", "line"), ("Len", "Width")]:
    for _o, _n in ((_a, _b), (_b, _a)):
        SUBS.append((r"(?<![A-Za-z_])%s(?![a-z_])" % _o if _o[0].islower() else r"%s(?![a-z])" % _o, _n))


def mutants(repo, globs, n, rng):
    import glob
    out = []
    for g in globs:
        for f in sorted(glob.glob(os.path.join(repo, g))):
            if f.endswith("_test.go") or "windows" in f:
                continue
            lines = open(f).read().split("\n")
            infunc = False
            for i, l in enumerate(lines):
                s = l.strip()
                if l.startswith("func "):
                    infunc = True
                if l.startswith("}"):
                    infunc = False
                if not s or s.startswith("//") or s.startswith("import") or s.startswith("package") or not infunc:
                    continue
                for a, b in SUBS:
                    for m in re.finditer(a, l):
                        if l[:m.start()].count('"') % 2 or "//" in l[:m.start()] or m.start() == m.end():
                            continue
                        out.append((f, i, l, l[:m.start()] + m.expand(b) + l[m.end():]))
                if re.match(r"if .*\{$", s) and ";" not in s and ":=" not in s:
                    c = re.match(r"(\s*(?:\} else )?if )(.*)( \{)$", l)
                    if c:
                        out.append((f, i, l, "%s!(%s)%s" % c.groups()))
                        out.append((f, i, l, "%sfalse && (%s)%s" % c.groups()))
                        out.append((f, i, l, "%strue || (%s)%s" % c.groups()))
                if re.match(r"[\w.\[\]\*]+(\(.*\)|\s*[-+|&]?=\s.*|\+\+|--)$", s) or re.match(r"(defer|go) .*\)$", s) or s in ("return", "break", "continue"):
                    out.append((f, i, l, re.match(r"\s*", l).group(0) + "_ = 0"))
                # two statements in the other order, a statement twice
                ind = re.match(r"\s*", l).group(0)
                if i + 1 < len(lines) and lines[i + 1].startswith(ind) and not lines[i + 1][len(ind):][:1].isspace() and not re.search(r"[{}(,]$", s) and not s.startswith(("case", "default", "}", "return", ")")):
                    t = lines[i + 1].strip()
                    if t and not re.search(r"[{}(,:]$", t) and not t.startswith(("case", "default", "}", ")")):
                        out.append((f, i, l, ind + t + "\x00" + l))
                if re.match(r"[\w.\[\]\*]+(\(.*\)|\s*[-+|&]?=\s.*|\+\+|--)$", s):
                    out.append((f, i, l, l + "\n" + l))
    rng.shuffle(out)
    return out[:n]


def main():
    group, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 60
    seed, workers = int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[4]) if len(sys.argv) > 4 else 4
    globs, props = GROUPS[group]
    todo = mutants("/repo", globs, n, random.Random(seed))
    lock = threading.Lock()
    count = {"build": 0, "tests": 0, "killed": 0, "alive": 0, "error": 0}
    base = tempfile.mkdtemp(prefix="mut-")

    def worker(w):
        repo = os.path.join(base, "r%d" % w)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        check = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(check)
        check.REPO = repo
        check.log = lambda *a: None
        while True:
            with lock:
                if not todo:
                    return
                f, i, old, new = todo.pop()
            rf = os.path.join(repo, os.path.relpath(f, "/repo"))
            src = open(rf).read()
            ls = src.split("\n")
            if "\x00" in new:
                del ls[i + 1]
            ls[i] = new.replace("\x00", "\n")
            open(rf, "w").write("\n".join(ls))
            tmp = tempfile.mkdtemp(dir=base)
            what = "%s:%d: %s  =>  %s" % (os.path.relpath(f, "/repo"), i + 1, old.strip(), new.strip().replace("\n", " ; ").replace("\x00", " <-> "))
            res = "alive"
            try:
                if subprocess.run(["go", "build", "./..."], cwd=repo, env=check.go_env(), capture_output=True).returncode:
                    res = "build"
                elif subprocess.run(["timeout", "60", "go", "test", "./..."], cwd=repo, env=check.go_env(), capture_output=True).returncode:
                    res = "tests"
                else:
                    vh = check.build(tmp)
                    for p in props:
                        plan = check.PLAN[p]
                        for suite in plan["suites"]:
                            scripts = None
                            if "gen" in suite:
                                scripts, _ = check.do_gen(tmp, suite["gen"], "quick", 1)
                            out, st = check.run_driver(tmp, vh, suite, "quick", 1, scripts, {})
                            for t in sorted(os.listdir(out)):
                                if t.endswith(".ndjson") and res == "alive":
                                    _, _, mm = check.validate(tmp, suite["spec"], suite.get("cfg", "Trace.cfg"), os.path.join(out, t), suite.get("mode"), p)
                                    if mm:
                                        res = "killed " + ",".join(sorted({m[0] for m in mm}))
                            if res != "alive":
                                break
                        if res != "alive":
                            break
            except check.CheckError as e:
                res = "error " + str(e)[:300].replace("\n", " | ")
            open(rf, "w").write(src)
            shutil.rmtree(tmp, ignore_errors=True)
            with lock:
                count[res.split()[0]] += 1
                if res.split()[0] in ("alive", "error"):
                    print(res, "|", what, flush=True)
                elif os.environ.get("MUT_VERBOSE"):
                    print(res, "|", what, flush=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base, ignore_errors=True)
    print("DONE", group, count, flush=True)


main()

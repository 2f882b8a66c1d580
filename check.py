#!/usr/bin/env python3
"""Decides one property: check.py ID [quick|thorough]   (or check.py --replay FILE)

1. builds the Go harness against /repo's working tree,
2. runs TLC on the design specification(s) of the property (exhaustively, small constants),
3. drives the real code and records traces (also scripts generated by TLC from the specification),
4. has TLC check every recorded trace against the specification,
5. writes evidence/ID.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored. Exit 1: violation. Anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN  # noqa: E402

SPECS = os.path.join(HERE, "specs")
EVID = os.path.join(HERE, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = max(2, os.cpu_count() or 8)


class CheckError(Exception):
    pass


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def go_env():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", CGO_ENABLED="0", GOWORK="off")
    return env


def build(tmp, race=False):
    out = os.path.join(tmp, "vh")
    hd = os.path.join(HERE, "harness")
    if REPO != "/repo":  # development only: build against a scratch copy of the repository
        h2 = os.path.join(tmp, "harness")
        shutil.copytree(hd, h2)
        g = open(os.path.join(h2, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(h2, "go.mod"), "w").write(g)
        hd = h2
    overlay = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "verif_export.go"): os.path.join(HERE, "harness", "overlay", "verif_export.go")}}, open(overlay, "w"))
    tries = [["-overlay", overlay, "-tags", "verifexport"], []]
    if not os.path.exists(os.path.join(HERE, "harness", "overlay", "verif_export.go")):
        tries = [[]]
    err = ""
    for t in tries:
        env = go_env()
        p = subprocess.run(["go", "build"] + t + ["-o", out, "./vh"], cwd=hd, env=env, capture_output=True, text=True)
        if p.returncode == 0:
            return out
        err += p.stderr
        log("build", t, "failed:", p.stderr[-2000:])
    raise CheckError("harness does not build:\n" + err[-3000:])


def run_tlc(tmp, module, cfg, env=None, workers=1, extra=(), timeout=800, heap="3g", deep=False):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=tmp)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss128m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4"]
    if deep:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", os.path.join(SPECS, cfg)]
    cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr, time.time() - t0


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
SIMST = re.compile(r"The number of states generated: (\d+)")
MISM = re.compile(r'^"MISMATCH (\S+) (\d+) (.*)$', re.M)
DONE = re.compile(r'^"TRACE-DONE (\d+)"', re.M)


def tlc_error(out, module, cfg):
    keep = [l for l in out.splitlines() if not re.match(r"^(Parsing|Semantic|Linting|Progress|\"MISM)", l)]
    return CheckError("TLC failed on %s/%s:\n%s" % (module, cfg, "\n".join(keep)[:6000]))


def do_mc(tmp, mc, tier, res):
    """Exhaustive (or simulated) check of a design specification."""
    cfg = mc["cfg"] if tier == "quick" else mc.get("thorough_cfg", mc["cfg"])
    rc, out, dt = run_tlc(tmp, mc["module"], cfg, workers=mc.get("workers", 4), extra=mc.get("extra", ()), heap=mc.get("heap", "6g"), deep=False)
    if "expect" in mc:  # a control: a defect put into the specification has to be noticed
        if rc != 12 and rc != 13 or "is violated" not in out:
            raise CheckError("control %s/%s: no violation found (rc %d)" % (mc["module"], cfg, rc))
    elif rc != 0:
        raise tlc_error(out, mc["module"], cfg)
    m = STATES.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        s = SIMST.findall(out)
        gen = dist = int(s[-1]) if s else 0
    if dist == 0 and "expect" in mc:  # violated by one of the initial states
        gen = dist = max([int(n) for n in re.findall(r"^Computed (\d+) initial states", out, re.M)] or [1])
    if dist == 0:
        raise CheckError("no states explored by %s/%s" % (mc["module"], cfg))
    with res["lock"]:
        res["mc"].append({"module": mc["module"], "cfg": cfg, "states_generated": gen, "distinct": dist, "seconds": round(dt, 1), **({"control": mc["expect"]} if "expect" in mc else {})})
    log("mc", mc["module"], cfg, gen, dist, "%.1fs" % dt)


def do_gen(tmp, g, tier, seed):
    """Behaviours of the specification, printed by TLC as JSON, to be replayed on the real code."""
    cfg = g["cfg"] if tier == "quick" else g.get("thorough_cfg", g["cfg"])
    extra = []
    if "simulate" in g:
        num, depth = g["simulate"] if tier == "quick" else g.get("thorough_simulate", g["simulate"])
        extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    rc, out, dt = run_tlc(tmp, g["module"], cfg, workers=1, extra=extra, heap="4g")
    if rc != 0:
        raise tlc_error(out, g["module"], cfg)
    path = os.path.join(tmp, g["module"] + ".scripts.ndjson")
    n = 0
    seen = set()
    with open(path, "w") as f:
        for line in out.splitlines():
            if line.startswith('"SCRIPT '):
                s = json.loads(line)[7:]
                if s in seen:
                    continue
                seen.add(s)
                f.write(s + "\n")
                n += 1
    if n == 0:
        raise CheckError("no scripts generated by " + g["module"])
    log("gen", g["module"], n, "scripts %.1fs" % dt)
    return path, n


def run_driver(tmp, vh, suite, tier, seed, scripts, res):
    out = os.path.join(tmp, "tr-" + suite["name"])
    os.makedirs(out, exist_ok=True)
    cmd = [vh, "run", suite["name"], "-seed", str(seed), "-tier", tier, "-out", out, "-shards", str(suite.get("shards", JOBS))]
    if scripts:
        cmd += ["-scripts", scripts]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=800, errors="replace", cwd=out)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out: " + suite["name"])
    cur = os.path.join(out, suite["name"] + ".current")
    if p.returncode != 0:
        died = re.search(r"^(fatal error: .*|panic: .*|SIG\w+: .*|runtime: goroutine stack exceeds.*)$", p.stderr, re.M)
        ours = died and died.group(1).startswith("panic:") and "goroutine 1 [running]" in p.stderr and REPO + "/" not in p.stderr
        if not died or ours or not os.path.exists(cur):
            raise CheckError("driver %s failed (%d): %s" % (suite["name"], p.returncode, p.stderr[-3000:]))
        return crashed(out, suite["name"], json.load(open(cur)), died.group(1)[:200], p.stderr[-1500:])
    st = json.load(open(os.path.join(out, suite["name"] + ".stats.json")))
    log("driver", suite["name"], st["cases"], "cases", st["events"], "events %.1fs" % (time.time() - t0))
    return out, st


def crashed(out, name, case, why, err):
    """The process with the code under test died (fatal error): that is the only event of the case it was executing."""
    log("driver", name, "died:", why, err)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    path = os.path.join(out, name + "-00.ndjson")
    why = re.sub(r"[^ -~]|[\\\\\"]", "?", why)
    open(path, "w").write(json.dumps({"op": "hang", "c": 1, "fail": "crash: " + why}) + "\n")
    open(path + ".cases", "w").write("1 " + json.dumps(case) + "\n")
    return out, {"cases": 1, "events": 1, "distinct": 1, "kinds": {"crash": 1}, "samples": [], "diverged": 0}


def find_case(tracefile, line):
    """The case (for replay) and the events of the case that contains the given 1-based line."""
    n = 0
    for row in open(tracefile + ".cases"):
        k, c = row.split(" ", 1)
        if n + int(k) >= line:
            evs = []
            for i, l in enumerate(open(tracefile), 1):
                if i > line:
                    break
                if i > n:
                    evs.append(json.loads(l))
            return json.loads(c), evs, line - n
        n += int(k)
    return None, [], 0


def validate(tmp, module, cfg, path, mode, prop):
    nlines = sum(1 for _ in open(path))
    if nlines == 0:
        return 0, 0, []
    rc, out, dt = run_tlc(tmp, module, cfg, env={"TRACE": path, "PROP": prop}, workers=1, heap="3g", deep=mode == "deep")
    d = DONE.findall(out)
    mm = []
    seen = set()
    if rc != 0 or not d or int(d[-1]) != nlines:
        # an event with values that the specification gives no meaning to: not one of the behaviours it allows
        at = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
        why = re.search(r"(?s)The exception was an? \S+\s*: (.{0,200})", out)
        if not why or not at or int(at[-1]) > nlines or re.search(r"StackOverflow|OutOfMemory|IOException", out):
            raise tlc_error(out, module, cfg + " on " + path)
        log("no meaning:", tlc_error(out, module, cfg))
        seen.add((prop, at[-1]))
        mm.append((prop, int(at[-1]), "an event without a meaning: " + " ".join(why.group(1).split())))
    for p, l, why in MISM.findall(out):
        if (p, l) not in seen:
            seen.add((p, l))
            mm.append((p, int(l), why.rstrip('"')))
    m = STATES.findall(out)
    return nlines, int(m[-1][0]) if m else 0, mm


def load_known():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f))["findings"] if os.path.exists(f) else []


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--replay" in sys.argv:
        return replay(args[0])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = PLAN[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vcheck-%s-" % prop)
    keep = os.environ.get("VERIF_KEEP")
    try:
        return decide(prop, plan, tier, seed, tmp, t0)
    except CheckError as e:
        print("CHECK-ERROR", prop, e, file=sys.stderr)
        return 2
    finally:
        if keep:
            log("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, plan, tier, seed, tmp, t0):
    res = {"lock": threading.Lock(), "mc": []}
    vh = build(tmp)
    pool = ThreadPoolExecutor(JOBS)
    mcs = [pool.submit(do_mc, tmp, m, tier, res) for m in plan.get("mc", []) if tier == "thorough" or not m.get("thorough")]
    stats, traces, transitions, mism, ntr = [], 0, 0, [], 0
    nscripts = 0
    jobs = []
    for suite in plan["suites"]:
        scripts = None
        if "gen" in suite:
            scripts, n = do_gen(tmp, suite["gen"], tier, seed)
            nscripts += n
        out, st = run_driver(tmp, vh, suite, tier, seed, scripts, res)
        stats.append((suite["name"], st))
        if st["cases"] == 0:
            raise CheckError("driver recorded nothing: " + suite["name"])
        for f in sorted(os.listdir(out)):
            if f.endswith(".ndjson"):
                path = os.path.join(out, f)
                jobs.append((suite, path, pool.submit(validate, tmp, suite["spec"], suite.get("cfg", "Trace.cfg"), path, suite.get("mode"), prop)))
    events = 0
    for suite, path, j in jobs:
        n, tr, mm = j.result()
        events += n
        transitions += tr
        for p, l, why in mm:
            mism.append((suite, path, p, l, why))
    for m in mcs:
        m.result()
    ntr = sum(st["cases"] for _, st in stats)

    # verdicts
    known = [k for k in load_known() if k["property"] == prop]
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(EVID, "replay", f))
    mine = [m for m in mism if m[2] == prop]
    other = [m for m in mism if m[2] != prop]
    if other:
        log("%d deviations belong to other properties: %s" % (len(other), sorted({m[2] for m in other})))
        for m in other[:3]:
            log("  ", m[2], m[4][:300])
            if os.environ.get("VERIF_DEBUG"):
                case, evs, _ = find_case(m[1], m[3])
                json.dump({"case": case, "events": evs, "why": m[4]}, open(os.path.join(os.environ["VERIF_DEBUG"], "dev-%d.json" % m[3]), "w"))
    viol, knownhit = [], {}
    for suite, path, p, l, why in mine[:4000]:
        case, evs, idx = find_case(path, l)
        k = next((k for k in known if matches(k, case, why)), None)
        if k:
            knownhit.setdefault(k["id"], (k, why))
            continue
        viol.append((suite, case, evs, l, idx, why))
        if len(viol) >= 5:
            break
    for kid, (k, why) in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rpaths = []
    for i, (suite, case, evs, l, idx, why) in enumerate(viol):
        rp = os.path.join(EVID, "replay", "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "suite": suite["name"], "spec": suite["spec"], "case": case, "event_in_case": idx, "why": why, "events": evs[-40:]}, open(rp, "w"), indent=1)
        rpaths.append(rp)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("   %s" % why[:400])
    samples = []
    for name, st in stats:
        for s in st["samples"][:4]:
            samples.append({"suite": name, "case": s})
    cov = {
        "states": sum(m["distinct"] for m in res["mc"]) or transitions,
        "transitions": sum(m["states_generated"] for m in res["mc"]) + transitions,
        "traces_validated_against_impl": ntr,
        "trace_events_validated": events,
        "distinct_cases": sum(st["distinct"] for _, st in stats),
        "spec_generated_scripts_replayed": nscripts,
        "events_by_operation": {k: v for _, st in stats for k, v in st["kinds"].items()},
        "design_models": res["mc"],
        "samples": samples,
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d events, %d design states, %d deviations, %.1fs" % (prop, tier, ntr, events, cov["states"], len(mine), time.time() - t0))
    return 1 if viol else 0


def matches(k, case, why):
    if "why" in k and not re.search(k["why"], why):
        return False
    if "case" in k:
        for f, v in k["case"].items():
            if (case or {}).get(f) != v:
                return False
    return True


def replay(path):
    r = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vreplay-")
    try:
        vh = build(tmp)
        cf = os.path.join(tmp, "cases")
        open(cf, "w").write(json.dumps(r["case"]) + "\n")
        p = subprocess.run([vh, "exec", r["suite"], "-cases", cf, "-out", tmp, "-shards", "1"])
        if p.returncode != 0:
            print("reproduced: the process died" if "crash:" in r["why"] else "not reproduced: driver failed")
            return 1
        f = os.path.join(tmp, r["suite"] + "-00.ndjson")
        suite = next(s for s in PLAN[r["property"]]["suites"] if s["name"] == r["suite"])
        _, _, mm = validate(tmp, suite["spec"], suite.get("cfg", "Trace.cfg"), f, suite.get("mode"), r["property"])
        for m in mm:
            print("MISMATCH", m)
        print("reproduced" if any(m[0] == r["property"] for m in mm) else "not reproduced")
        return 1 if mm else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

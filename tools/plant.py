#!/usr/bin/env python3
"""Makes and confirms planted bugs (development only; no check reads /verif/seeded).

plant.py make FILE.py [ID...]   FILE.py defines BUGS = {id: {property, edits: [(file, old, new)], pkg, demo, needs, breaks}}
plant.py try ID...              runs the check of the bug's property (VERIF_TIER) against a scratch copy with the bug
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
DEMO = '''#!/bin/sh
# exit 0: behaves as the property says; nonzero: the bug shows. Run with cwd = the repository.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(dir)szz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local
timeout 120 go test -overlay "$T/overlay.json" -count=1 -run '^TestZZDemo$' ./%(pkg)s
'''
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", **kw)


def scratch():
    t = tempfile.mkdtemp(prefix="plant-")
    subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
    sh(["git", "checkout", "-q", "--", "."], t + "/repo")
    return t


def make(file, only):
    g = {}
    exec(open(file).read(), g)
    base_lines = None
    for bid, b in g["BUGS"].items():
        if only and bid not in only:
            continue
        t = scratch()
        r = t + "/repo"
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit("%s: %d matches in %s for\n%s" % (bid, s.count(old), f, old))
                open(p, "w").write(s.replace(old, new))
            d = os.path.join(SEED, bid)
            os.makedirs(d, exist_ok=True)
            diff = sh(["git", "diff"], r).stdout
            # changed lines should be original ones
            bad = []
            for f, old, new in b["edits"]:
                bl = sh(["git", "blame", "-s", "HEAD", "--", f], r).stdout.splitlines()
                cur = open(os.path.join("/repo", f)).read().splitlines()
                nums = set()
                for h in sh(["git", "diff", "-U0", "--", f], r).stdout.splitlines():
                    if h.startswith("@@"):
                        a = h.split()[1][1:].split(",")
                        n = int(a[1]) if len(a) > 1 else 1
                        nums |= set(range(int(a[0]), int(a[0]) + n))
                for n in nums:
                    if n and "f81ca01" not in bl[n - 1].split(")")[0]:
                        bad.append((f, n, cur[n - 1]))
            open(d + "/patch.diff", "w").write(diff)
            pkg = b.get("pkg", ".")
            open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "dir": "" if pkg == "." else pkg + "/"})
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.go.txt", "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            bt = sh(["go", "build", "./..."], r)
            tt = sh(["go", "test", "./..."], r)
            dm = sh(["sh", d + "/demo.sh"], r)
            sh(["git", "checkout", "-q", "--", "."], r)
            d0 = sh(["sh", d + "/demo.sh"], r)
            ok = bt.returncode == 0 and tt.returncode == 0 and dm.returncode != 0 and d0.returncode == 0
            print(bid, "OK" if ok else "BAD", "build", bt.returncode, "tests", tt.returncode, "demo bug", dm.returncode, "demo clean", d0.returncode, "FIXLINES %s" % bad if bad else "", flush=True)
            if not ok:
                print(bt.stderr[-1500:], tt.stdout[-1500:] if tt.returncode else "", "BUG:", dm.stdout[-800:], dm.stderr[-800:], "CLEAN:", d0.stdout[-2500:], d0.stderr[-800:])
            elif "build failed" in dm.stdout:
                print("  demo does not build with the bug!", dm.stdout[-800:])
        finally:
            shutil.rmtree(t, ignore_errors=True)


def try_(ids):
    for bid in ids:
        meta = json.load(open(os.path.join(SEED, bid, "meta.json")))
        t = scratch()
        try:
            p = sh(["git", "apply", os.path.join(SEED, bid, "patch.diff")], t + "/repo")
            if p.returncode:
                print(bid, "patch does not apply", p.stderr)
                continue
            env = dict(os.environ, VERIF_REPO=t + "/repo")
            p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), meta["property"], os.environ.get("VERIF_TIER", "quick")], env=env, capture_output=True, text=True, errors="replace")
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            w = [l.strip() for l in p.stdout.splitlines() if l.startswith("   ")]
            print(bid, meta["property"], "CAUGHT" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode, (w[:1] or [p.stderr[:1500]])[0][:1500], flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], set(sys.argv[3:]))
    else:
        try_(sys.argv[2:] or sorted(os.listdir(SEED)))

#!/bin/bash
# Builds the harness once (warms the Go build cache) and checks that TLC starts. Leaves nothing behind.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, ".")
import check
t = tempfile.mkdtemp()
try:
    check.build(t)
    rc, out, dt = check.run_tlc(t, "GeomMC", "GeomMC.cfg", workers=2)
    assert rc == 0, out
finally:
    shutil.rmtree(t, ignore_errors=True)
print("setup ok")
P

#!/usr/bin/env python3
"""Checks that the tools are there and that all specification modules parse (nothing is kept)."""
import glob, os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla"))):
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", CP, "tla2sany.SANY", os.path.basename(f)],
                           cwd=os.path.join(ROOT, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode("utf-8", "replace")
    ok = p.returncode == 0 and "*** Errors" not in out and "Fatal" not in out
    print(os.path.basename(f), "ok" if ok else "FAILED")
    if not ok:
        print(out[-2000:])
        bad = 1
sys.exit(bad)

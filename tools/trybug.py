#!/usr/bin/env python3
"""trybug.py [ids...]: runs the check of each planted bug's property against a scratch copy of /repo with the bug."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
tier = "thorough" if "--thorough" in sys.argv else "quick"
work = "/tmp/trybug-%d" % os.getpid()
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    subprocess.run(["rm", "-rf", work], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
    subprocess.run(["git", "-C", work, "apply", d + "/patch.diff"], check=True)
    # submodules / ignored dependencies
    for sub in ("gflags", "googletest"):
        if os.path.isdir("/repo/" + sub) and not os.listdir(os.path.join(work, sub) if os.path.isdir(os.path.join(work, sub)) else "/repo/" + sub) == None:
            subprocess.run(["cp", "-a", "-n", "/repo/" + sub, work + "/"])
    p = subprocess.run([sys.executable, ROOT + "/check.py", meta["property"], "--tier", tier], env=dict(os.environ, VERIF_REPO=work),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hit = p.returncode == 1 and "VIOLATION property=" + meta["property"] in p.stdout
    first = [l for l in p.stdout.splitlines() if "violation:" in l][:1]
    print("%-32s %s %s rc=%s %s" % (i, meta["property"], "CAUGHT" if hit else "MISSED", p.returncode, first[0][:150] if first else ""), flush=True)
    if p.returncode not in (0, 1):
        print(p.stdout[-2000:])
subprocess.run(["rm", "-rf", work])

#!/usr/bin/env python3
"""Confirms planted changes in a scratch copy of /repo and files them under seeded/.
   mkseed.py SEEDS.py [id ...]      (SEEDS.py defines SEEDS, a list of dicts)"""
import json, os, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"
DEMO_SH = '''#!/bin/bash
# Runs in the repository after its build: 0 if the behaviour is right, non-zero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -g -Isrc -I_build -Isrc/zlib -I"$here" %s -o "$t/demo" "$here/demo.cc" _build/libvcdenc.a _build/libvcddec.a _build/libvcdcom.a -lpthread || exit 2
cd "$t" && timeout 120 ./demo 2>"$t/err" || { echo "demo failed"; tail -5 "$t/err"; exit 1; }
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def passed():
    # run the suite of the copy with its own build directory
    r = sh("ninja -C %s/_build" % W)
    if r.returncode: return None, r.stdout.decode()[-3000:]
    sh("rm -rf %s/rep; mkdir -p %s/rep/gtest %s/rep/tmp" % (W, W, W))
    r = sh("cd %s/_build && TMPDIR=%s/rep/tmp GTEST_OUTPUT=xml:%s/rep/gtest/ ctest -j8 --timeout 120" % (W, W, W))
    return r.returncode == 0, r.stdout.decode()[-1500:]
def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=W, timeout=300)
    return r.returncode, r.stdout.decode()[-800:]
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    if os.path.exists(W): shutil.rmtree(W)
    sh("cp -a /repo %s && rm -rf %s/_build" % (W, W))
    r = sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -Dvcdiff_use_system_gflags=ON -Dvcdiff_use_system_gtest=ON -DCMAKE_DISABLE_FIND_PACKAGE_GTest=ON && ninja -C %s/_build" % (W, W, W))
    assert r.returncode == 0, r.stdout.decode()[-2000:]
    for s in seeds:
        if only and s["id"] not in only: continue
        d = "/tmp/seedtmp/" + s["id"]
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d)
        for name, text in s["files"].items(): open(os.path.join(d, name), "w").write(text)
        if "demo.sh" not in s["files"]: open(d + "/demo.sh", "w").write(DEMO_SH % s.get("cflags", ""))
        base = demo(d)
        sh("git checkout -q -- .", cwd=W)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, f); t = open(p).read()
            if t.count(old) != 1: print(s["id"], "EDIT DOES NOT MATCH", f, t.count(old)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: sh("git checkout -q -- .", cwd=W); continue
        diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE).stdout
        t, log = passed()
        mut = demo(d) if t is not None else (None, "")
        sh("git checkout -q -- .", cwd=W)
        sh("ninja -C %s/_build" % W)
        good = t and base[0] == 0 and mut[0] not in (0, None)
        print(s["id"], "tests pass" if t else "TESTS FAIL/NO BUILD", "demo base", base[0], "mutant", mut[0], "KEPT" if good else "REJECTED")
        if not good:
            print(log[-900:] if not t else "", base[1][-600:], mut[1][-600:]); continue
        o = os.path.join(ROOT, "seeded", s["id"])
        if os.path.exists(o): shutil.rmtree(o)
        shutil.copytree(d, o)
        open(o + "/patch.diff", "wb").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
main()

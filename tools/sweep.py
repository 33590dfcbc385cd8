#!/usr/bin/env python3
"""sweep.py MUTANTS.jsonl OUT.jsonl: runs the relevant checks against every surviving mutant (development aid).
Results of models that do not depend on the code are kept in /tmp/mut/tlccache."""
import concurrent.futures, json, os, queue, shutil, subprocess, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEC = ["C20", "C04", "C06", "C10", "C09", "C08", "C02", "C07"]
ENC = ["C01", "C14", "C11", "C12", "C13"]
ORDER = {"vcdecoder.cc": DEC, "headerparser.cc": DEC, "headerparser.h": DEC, "decodetable.cc": DEC, "decodetable.h": DEC,
         "varint_bigendian.cc": DEC + ["C16", "C12"], "varint_bigendian.h": DEC + ["C16", "C12"],
         "addrcache.cc": ["C15", "C16", "C09", "C02", "C04", "C07"], "addrcache.h": ["C15", "C16", "C09", "C02", "C04", "C07"],
         "codetable.cc": ["C09", "C16", "C04", "C10"], "checksum.h": ["C05"],
         "encodetable.cc": ["C16", "C12", "C11", "C05", "C15", "C01", "C17"], "google/encodetable.h": ["C16", "C12", "C11"],
         "instruction_map.cc": ["C16", "C12", "C19", "C15"], "instruction_map.h": ["C16", "C12", "C19"],
         "jsonwriter.cc": ["C17", "C11", "C18"], "google/jsonwriter.h": ["C17"], "vcencoder.cc": ENC + ["C19"], "google/vcencoder.h": ENC,
         "vcdiffengine.cc": ENC + ["C19"], "vcdiffengine.h": ENC, "blockhash.cc": ENC[:5], "blockhash.h": ENC[:5], "rolling_hash.h": ["C14", "C01", "C19", "C13"],
         "vcdiff_main.cc": ["C18"], "google/output_string.h": ["C20", "C12", "C01"]}
CHILD = r'''
import sys, os, hashlib, pickle, glob
sys.dont_write_bytecode = True
sys.path.insert(0, %r + "/lib")
import tlc, core
orig = tlc.run
os.makedirs("/tmp/mut/tlccache", exist_ok=True)
H = hashlib.sha1(b"".join(open(f, "rb").read() for f in sorted(glob.glob(tlc.SPEC + "/*.tla")))).hexdigest()
def run(module, constants=None, **kw):
    if "TRACE" in (kw.get("env") or {}): return orig(module, constants, **kw)
    k = hashlib.sha1(repr((H, module, sorted((constants or {}).items(), key=str), sorted((a, b) for a, b in kw.items() if a not in ("scratch",)))).encode()).hexdigest()
    p = "/tmp/mut/tlccache/" + k
    if os.path.exists(p):
        return pickle.load(open(p, "rb"))
    r = orig(module, constants, **kw)
    if "Finished in" in r.out: pickle.dump(r, open(p + ".%%d" %% os.getpid(), "wb")); os.rename(p + ".%%d" %% os.getpid(), p)
    return r
tlc.run = run
class Stop(Exception): pass
ov = core.Ctx.violation
def violation(self, what, content):
    ov(self, what, content)
    print("FIRST", what[:300].replace("\n", " "), flush=True)
    raise Stop()
core.Ctx.violation = violation
core.EVID = sys.argv[2]
import checks
cx = core.Ctx(sys.argv[1], "quick", 1)
try:
    checks.CHECKS[sys.argv[1]](cx); print("QUIET")
except Stop: pass
finally: cx.close()
sys.stdout.flush(); os._exit(0)
''' % ROOT
def main():
    ms = [json.loads(l) for l in open(sys.argv[1])]
    ms = [m for m in ms if m["res"] == "survive"]
    done = {}
    if os.path.exists(sys.argv[2]):
        for l in open(sys.argv[2]): r = json.loads(l); done[r["id"]] = r
    ms = [m for m in ms if m["id"] not in done]
    def dull(m):      # cannot change what the program does
        t = m["text"]
        return ("COMPILE_ASSERT" in t or (m["kind"] == "delete" and ("const" in t or "RollingHashUtil()" in t or "VarintBE()" in t)) or
                (m["kind"] == "narrow" and ("for (int " in t or "static const int" in t or "int length" in t)) or "<<" in t and m["kind"] in ("const", "arith"))
    ms = [m for m in ms if not dull(m)]
    only = os.environ.get("FILES")
    if only: ms = [m for m in ms if m["file"] in only.split(",")]
    print(len(ms), "to try", flush=True)
    N = int(os.environ.get("WAYS", "3"))
    q = queue.Queue(); lock = threading.Lock(); of = open(sys.argv[2], "a")
    for k in range(N): q.put(k)
    def one(m):
        k = q.get(); w = "/tmp/mut/s%d" % k
        try:
            subprocess.run("rm -rf %s %s.ev; git clone -q /repo %s; mkdir -p %s.ev" % (w, w, w, w), shell=True)
            p = os.path.join(w, "src", m["file"]); t = open(p).read()
            if t[m["a"]:m["b"]] != m["old"]: return
            open(p, "w").write(t[:m["a"]] + m["new"] + t[m["b"]:])
            res, by = "MISSED", ""
            for c in m.get("checks") or ORDER[m["file"]]:
                try:
                    r = subprocess.run([sys.executable, "-c", CHILD, c, w + ".ev"], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    out = r.stdout
                except subprocess.TimeoutExpired: out = "TIMEOUT"
                if "FIRST " in out: res, by = c, out[out.index("FIRST ") + 6:][:200]; break
                if "QUIET" not in out: res, by = "BROKEN " + c, out[-600:]; break
        finally: q.put(k)
        with lock:
            of.write(json.dumps(dict(m, caught=res, by=by)) + "\n"); of.flush()
            print("%-9s %s | %s -> %s | %s" % (res, m["id"], m["text"].strip()[:90], m["new"][:40].replace("\n", " "), by[:80]), flush=True)
    with concurrent.futures.ThreadPoolExecutor(N) as ex: list(ex.map(one, ms))
main()

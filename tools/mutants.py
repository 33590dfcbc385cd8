#!/usr/bin/env python3
"""mutants.py OUT.jsonl [files...]: enumerates small syntactic changes of the sources in /repo/src, builds each in a
scratch copy and keeps those that compile and pass the test suite (development aid: what do the checks miss?)."""
import concurrent.futures, json, os, re, subprocess, sys, threading, queue
SRC = "/repo/src"
FILES = ["addrcache.cc", "addrcache.h", "blockhash.cc", "blockhash.h", "codetable.cc", "checksum.h", "decodetable.cc", "decodetable.h",
         "encodetable.cc", "headerparser.cc", "headerparser.h", "instruction_map.cc", "instruction_map.h", "jsonwriter.cc",
         "rolling_hash.h", "varint_bigendian.cc", "varint_bigendian.h", "vcdecoder.cc", "vcdiff_main.cc", "vcdiffengine.cc",
         "vcdiffengine.h", "vcencoder.cc", "google/output_string.h", "google/vcencoder.h", "google/encodetable.h"]
def code_mask(t):
    """True for characters that are code (not comment, string, preprocessor)."""
    m = [True] * len(t); i = 0; n = len(t)
    while i < n:
        if t.startswith("//", i):
            j = t.find("\n", i); j = n if j < 0 else j
            for k in range(i, j): m[k] = False
            i = j
        elif t.startswith("/*", i):
            j = t.find("*/", i) + 2
            for k in range(i, j): m[k] = False
            i = j
        elif t[i] == '"' or t[i] == "'":
            q = t[i]; j = i + 1
            while j < n and t[j] != q: j += 2 if t[j] == "\\" else 1
            for k in range(i, min(n, j + 1)): m[k] = False
            i = j + 1
        elif t[i] == "#" and t[:i].rsplit("\n", 1)[-1].strip() == "":
            j = t.find("\n", i)
            for k in range(i, j): m[k] = False
            i = j
        else: i += 1
    return m
def paren(t, i):
    d = 0
    for k in range(i, len(t)):
        if t[k] == "(": d += 1
        elif t[k] == ")":
            d -= 1
            if d == 0: return k
def mutants(t):
    m = code_mask(t)
    out = []
    def add(a, b, new, kind): out.append((a, b, new, kind))
    for x in re.finditer(r"(?<![<>=!\-&|+*/:])(<=|>=|==|!=|<|>)(?![<>=])", t):
        if not m[x.start()]: continue
        o = x.group(1)
        pre, post = t[max(0, x.start() - 1)], t[x.end():x.end() + 1]
        if o in "<>" and not (pre == " " and post in " \n"): continue
        for new in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[o]:
            add(x.start(1), x.end(1), new, "rel")
    for x in re.finditer(r"&&|\|\|", t):
        if m[x.start()]: add(x.start(), x.end(), "||" if x.group() == "&&" else "&&", "bool")
    for x in re.finditer(r" ([+-]) ", t):
        if m[x.start()]: add(x.start(1), x.end(1), "-" if x.group(1) == "+" else "+", "arith")
    for x in re.finditer(r" ([+-])= ", t):
        if m[x.start()]: add(x.start(1), x.end(1), "-" if x.group(1) == "+" else "+", "arith")
    for x in re.finditer(r"(?<![\w.])(\d+|0x[0-9A-Fa-f]+)(?![\w.])", t):
        if m[x.start()]:
            add(x.start(), x.end(), str(int(x.group(), 0) + 1), "const")
            if int(x.group(), 0) > 1: add(x.start(), x.end(), str(int(x.group(), 0) - 1), "const")
    for x in re.finditer(r"\b(true|false)\b", t):
        if m[x.start()]: add(x.start(), x.end(), "false" if x.group() == "true" else "true", "tf")
    for x in re.finditer(r"\bif \(", t):
        if m[x.start()]:
            e = paren(t, x.end() - 1)
            if e:
                add(x.end(), e, "false && (%s)" % t[x.end():e], "iffalse")
                add(x.end(), e, "true || (%s)" % t[x.end():e], "iftrue")
    for x in re.finditer(r"(?m)^( +)([\w:.\->\[\]*&()+ ,<>]+;)[ ]*$", t):
        s = x.group(2)
        if m[x.start(2)] and not s.startswith(("return", "const ", "class", "typedef", "static ", "virtual", "break", "using", "delete")) and \
           (re.match(r"^[\w.\->\[\]*]+ ?[-+]?= ", s) or re.match(r"^[\w.\->:]+\(.*\);$", s) or re.match(r"^(\+\+|--)", s)):
            add(x.start(2), x.end(2), ";", "delete")
    for x in re.finditer(r"(?m)^( +)return ([^;]*);", t):
        pass
    for x in re.finditer(r"\b(size_t|int64_t|int32_t|int|uint32_t|VCDChecksum|VCDAddress)(?= \w+( =|;|\())", t):
        if m[x.start()]: add(x.start(), x.end(), "uint16_t" if x.group(1) in ("size_t", "uint32_t", "VCDChecksum") else "int16_t", "narrow")
    return out
def main():
    outf = open(sys.argv[1], "a")
    done = set()
    for l in open(sys.argv[1]): done.add(json.loads(l)["id"])
    files = sys.argv[2:] or FILES
    jobs = []
    for f in files:
        t = open(os.path.join(SRC, f)).read()
        for a, b, new, kind in mutants(t):
            if f == "codetable.cc" and kind == "const": continue
            line = t.count("\n", 0, a) + 1
            jobs.append((f, a, b, new, kind, line))
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue()
    N = int(os.environ.get("WAYS", "4"))
    for k in range(N):
        w = "/tmp/mut/w%d" % k
        if not os.path.isdir(w + "/_build"):
            os.makedirs("/tmp/mut", exist_ok=True)
            subprocess.run("rm -rf %s && cp -a /repo %s && rm -rf %s/_build && cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=None -DBUILD_TESTING=ON -Dvcdiff_use_system_gflags=ON -Dvcdiff_use_system_gtest=ON -DCMAKE_DISABLE_FIND_PACKAGE_GTest=ON && ninja -C %s/_build" % (w, w, w, w, w, w), shell=True, check=True, stdout=subprocess.DEVNULL)
        q.put(w)
    lock = threading.Lock(); stat = {}
    def one(j):
        f, a, b, new, kind, line = j
        t = open(os.path.join(SRC, f)).read()
        mid = "%s:%d:%d:%s:%s" % (f, line, a, kind, new[:20].replace("\n", " "))
        if mid in done: return
        w = q.get()
        try:
            p = os.path.join(w, "src", f)
            open(p, "w").write(t[:a] + new + t[b:])
            r = subprocess.run("timeout 120 ninja -j3 -C %s/_build 2>&1 | tail -5; exit ${PIPESTATUS[0]}" % w, shell=True, executable="/bin/bash", stdout=subprocess.PIPE)
            res = "nobuild"
            if r.returncode == 0:
                r = subprocess.run("cd %s/_build && rm -rf %s/tmp && mkdir %s/tmp && TMPDIR=%s/tmp timeout 200 ctest -j4 --stop-on-failure --timeout 20" % (w, w, w, w), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                res = "survive" if r.returncode == 0 else "killed"
            open(p, "w").write(t)
        finally:
            q.put(w)
        with lock:
            stat[res] = stat.get(res, 0) + 1
            outf.write(json.dumps(dict(id=mid, file=f, line=line, a=a, b=b, old=t[a:b], new=new, kind=kind, res=res, text=t.splitlines()[line - 1])) + "\n"); outf.flush()
            if sum(stat.values()) % 50 == 0: print(stat, flush=True)
    with concurrent.futures.ThreadPoolExecutor(N) as ex: list(ex.map(one, jobs))
    print(stat)
main()

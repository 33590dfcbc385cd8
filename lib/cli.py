"""The vcdiff program."""
import hashlib, os, random, subprocess, json
from core import hexs, CheckBroken, Enough
from cache import varint

ALIAS = {"encode": ["encode", "delta"], "decode": ["decode", "patch"], "test": ["test"]}


class Run:
    """One run.  src and dst as clirun takes them."""
    def __init__(self, rid, cmd, dic, data, src, dst, buf=None, inter=0, ck=0, js=0, tm=0, stats=0, allow=1, maxf=None, maxw=None,
                 usage=True, openable=True, rderr=False, cap=-1, expect=None, extra=(), name=None, dspec=None, group=None):
        self.__dict__.update(locals())
        self.full = None
        self.status = self.out = None

    def line(self):
        f = list(self.extra)
        if self.buf is not None: f.append("--buffersize=%d" % self.buf)
        b = lambda n, v: f.append(("--%s" if v else "--no%s") % n)
        if self.cmd != "decode":
            if self.inter: b("interleaved", 1)
            if self.ck: b("checksum", 1)
            if self.js: b("json", 1)
            if self.tm: b("target_matches", 1)
        if self.stats: b("stats", 1)
        if not self.allow: b("allow_vcd_target", 0)
        if self.maxf is not None: f.append("--max_target_file_size=%d" % self.maxf)
        if self.maxw is not None: f.append("--max_target_window_size=%d" % self.maxw)
        return (self.rid, " ".join([self.rid, self.name or self.cmd, self.dspec or hexs(self.dic), self.src, self.dst] + f))

    def record(self):
        return {"id": self.rid, "cmd": self.cmd, "dict": list(self.dic), "in": list(self.data), "out": list(self.out),
                "ok": self.status == "0", "openable": self.openable, "rderr": self.rderr, "cap": self.cap,
                "full": list(self.out if self.full is None else self.full), "usage": self.usage, "allow": bool(self.allow),
                "maxFile": 67108864 if self.maxf is None else self.maxf, "maxWin": 67108864 if self.maxw is None else self.maxw,
                "inter": bool(self.inter), "ck": bool(self.ck), "json": bool(self.js)}


def execute(cx, runs, flavour):
    run_all(cx, runs, flavour)
    rest = [r for r in runs if r.status == "N"]
    late = [r for r in runs if r.status == "T"]
    if rest:
        for r in late[:2]:
            run_all(cx, [r], flavour)
            if r.status == "T":
                cx.violation("%s: the program did not end" % r.rid, "clirun (%s)\n%s" % (flavour, r.line()[1]))
                raise Enough()
        run_all(cx, rest, flavour)
        if any(r.status == "N" for r in rest):
            raise CheckBroken("programs keep ending late, but never by themselves")


def run_all(cx, runs, flavour):
    by = {r.rid: r for r in runs}
    prog = cx.exe[(flavour, "vcdiff")]
    for l in cx.run_lines("fast", "clirun", [r.line() for r in runs], [], [prog], timeout=800):
        w = l.split(" ")
        if w[0] == "R":
            by[w[1]].status, by[w[1]].out = w[2], b"" if w[3] == "-" else bytes.fromhex(w[3])
    for r in runs:
        if r.status is None:
            raise CheckBroken("no result of run " + r.rid)


def suspicious(cx, runs, flavour):
    """Runs that did not end, or ended by a signal or a sanitizer report; confirmed by a second run."""
    bad = [r for r in runs if r.status == "T" or r.status[0] == "s" or r.status == "77"]
    n = 0
    for r in bad[:6]:
        first = r.status
        execute(cx, [r], flavour)
        if r.status == first:
            n += 1
            cx.violation("%s: the program %s" % (r.rid, "did not end" if first == "T" else "crashed (%s)" % first),
                         "clirun (%s)\n%s" % (flavour, r.line()[1]))
    return n


def judge(cx, runs, name, flavour, limit=None):
    """The status expected by the model, and everything against the specification."""
    execute(cx, runs, flavour)
    if suspicious(cx, runs, flavour):
        return
    for r in runs:
        if r.group is not None and r.full is None and r.cap >= 0:
            r.full = r.group.out
    bad = 0
    for r in runs:
        if r.expect is not None and (r.status == "0") != (r.expect == 0):
            again = (r.status, r.out)
            execute(cx, [r], flavour)
            if (r.status, r.out) != again:
                cx.log("not reproduced, not reported:", r.rid)
                continue
            bad += 1
            if bad <= 6:
                cx.violation("%s: exit status %s, the model says %s" % (r.rid, r.status, "0" if r.expect == 0 else "failure"),
                             "clirun (%s)\n%s" % (flavour, r.line()[1]))
    by = {r.rid: r for r in runs}
    if not bad:
        recs = [r.record() for r in runs if len(r.data) < 3000]
        rej = cx.validated("TraceCli", recs if limit is None else recs[:limit], name,
                           describe=lambda i: "clirun (%s)\n%s\nstatus %s output %s" % (flavour, by[i].line()[1], by[i].status, hexs(by[i].out)))
        if not rej and recs:
            for what in ("status", "output"):
                for r in recs:
                    if r["ok"] and r["out"]:
                        x = json.loads(json.dumps(r))
                        if what == "status": x["ok"] = False
                        elif r["cmd"] == "decode": x["out"][-1] ^= 1
                        else: x["out"] = x["out"][:-1]
                        hit = bool(cx.validate("TraceCli", [x], "control", workers=1))
                        cx.controls.append({"control": "TraceCli: other " + what, "refuted": hit})
                        if not hit:
                            raise CheckBroken("TraceCli accepts another " + what)
                        break
    cx.log("%d runs (%s, %s), %d with another status than the model's" % (len(runs), name, flavour, bad))
    if runs and len(cx.samples) < 8:
        cx.samples.append({"run": runs[len(runs) // 2].line()[1][:500], "status": runs[len(runs) // 2].status})


def window(data, bad=False):
    body = varint(len(data)) + bytes([1 if bad else 0]) + varint(len(data))
    inst = b"\x01" + varint(len(data))
    body += varint(len(inst)) + b"\0" + data + inst
    return b"\0" + varint(len(body)) + body


def model(cx):
    """Scenarios of MCCli, made concrete.  Two passes: the runs without fault first."""
    q = cx.quick
    r = cx.tlc("MCCli", dict(MaxIn=3, MaxBuf=4, Stdio=2, Control='"none"'), spec="Spec", invariants=["Truthful", "Written", "Emit"],
               properties=["Ends"])
    for c in ("zerobuf", "nowritecheck", "noreadcheck", "nofinish", "noflush"):
        cx.tlc("MCCli", dict(MaxIn=2, MaxBuf=3, Stdio=2, Control='"%s"' % c), spec="Spec", invariants=["Truthful", "Written"],
               properties=["Ends"], expect="violation", name="MCCli control " + c)
    scens = sorted((s for s in r.prints("SCEN")), key=lambda s: json.dumps(s["sc"], sort_keys=True))
    scenarios(cx, scens, 40, "m", "dbg")
    # the same with units of whole blocks of the standard streams: nothing is left for the last flush
    if not cx.violations:
        scenarios(cx, scens, 4096, "M", "fast")
    if not cx.quick and not cx.violations:
        scenarios(cx, scens, 65536, "N", "fast")


def scenarios(cx, scens, U, tag, flavour):
    rng = random.Random(cx.seed)
    dic = bytes(32 + rng.randrange(90) for _ in range(150))
    text = bytes(32 + rng.randrange(90) for _ in range(20)) + dic[40:100] + bytes(32 + rng.randrange(90) for _ in range(5)) + dic[10:60]
    while len(text) < 3 * U:
        text += bytes(32 + rng.randrange(90) for _ in range(1000))
    first, second, base = [], [], {}
    k = 0
    for s in scens:
        c = s["sc"]
        k += 1
        if c["in"] == "error" and c["src"] == "file" and c["at"] > 0:
            continue                  # nothing here makes a named file fail later
        if c["cmd"] == "decode" and c["cap"] != 99 and (c["bad"] or c["cut"]) and k % 4:
            continue
        h = int(hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest(), 16)
        n = c["at"] if c["in"] == "error" else c["len"]
        opts = dict(inter=h >> 1 & 1, ck=h >> 2 & 1, js=int(h >> 3 & 3 == 0 and c["len"] > 0 and c["cmd"] == "encode"), tm=h >> 5 & 1,
                    stats=int(h >> 6 & 7 == 0))
        if c["cmd"] == "decode":
            units = [bytes.fromhex("d6c3c45300")] + [window(text[i * U:(i + 1) * U]) for i in range(c["len"] - 1)]
            units = units[:c["len"]]
            if c["bad"]:
                i = c["bad"] - 1
                units[i] = bytes.fromhex("d6c3c55300") if i == 0 else window(text[:U], True)
            if c["cut"]:
                units[-1] = units[-1][:3 + (h >> 9) % (len(units[-1]) - 4)]
            data = b"".join(units[:n])
            buf = c["buf"] * (50 if U == 40 else U + 14)
            tot = s["total"] * U
        else:
            data = text[:n * U]
            buf = c["buf"] * U
            tot = None
        if c["src"] == "file":
            src = "~missing" if c["in"] == "missing" else "~dir" if c["in"] == "error" else "f:" + hexs(data)
        else:
            src = "e:" + hexs(data) if c["in"] == "error" else ["r:" + hexs(data), "p:%s:%d" % (hexs(data), 1 + (h >> 20) % 60)][h >> 30 & 1]
        kw = dict(buf=buf, openable=c["dict"] == "ok" and c["in"] != "missing" and c["out"] == "ok", rderr=c["in"] == "error",
                  expect=s["status"], dspec="~missing" if c["dict"] != "ok" else None,
                  name=ALIAS[c["cmd"]][(h >> 40) % len(ALIAS[c["cmd"]])])
        kw.update(opts)
        if c["cap"] == 99:
            dst = {"file": "f:-1", "stdout": ["s:-1", "p"][h >> 41 & 1]}[c["dst"]]
            if c["out"] != "ok":
                dst = ["~nodir", "~dir"][h >> 42 & 1]
            first.append(Run("%s%d" % (tag, k), c["cmd"], dic, data, src, dst, **kw))
        else:
            second.append((c, s, h, Run("%s%d" % (tag, k), c["cmd"], dic, data, src, "", **kw)))
    # what a run without fault writes, per input and options
    runs2 = []
    for c, s, h, x in second:
        if c["cmd"] != "decode":
            key = (x.data, x.buf, x.inter, x.ck, x.js, x.tm)
            if key not in base:
                base[key] = Run("%sb%d" % (tag, len(base)), x.cmd, dic, x.data, "f:" + hexs(x.data), "f:-1", buf=x.buf, inter=x.inter, ck=x.ck,
                                js=x.js, tm=x.tm)
    judge(cx, first + list(base.values()), "scenarios without fault of the output", flavour)
    if cx.violations:
        return
    for c, s, h, x in second:
        if c["cmd"] == "decode":
            full = s["total"] * U
        else:
            x.group = base[(x.data, x.buf, x.inter, x.ck, x.js, x.tm)]
            full = len(x.group.out)
        T = s["total"]
        x.cap = full * c["cap"] // T if c["cap"] < T else full + c["cap"] - T
        if c["cap"] == T - 1 and h >> 43 & 1 and full:
            x.cap = full - 1
        if x.cap == 0 and h >> 44 & 1:
            x.dst = {"file": "n", "stdout": ["q", "x", "d"][(h >> 45) % 3]}[c["dst"]]
        else:
            x.dst = {"file": "f", "stdout": "s"}[c["dst"]] + ":%d" % x.cap
        runs2.append(x)
    judge(cx, runs2, "scenarios with a limited output", flavour)


def usage(cx):
    dic, t = b"dictionary", b"some target data"
    f = "f:" + hexs(t)
    n = [0]

    def u(cmd, src=f, dst="f:-1", name=None, dspec=None, extra=(), **kw):
        n[0] += 1
        return Run("u%d" % n[0], cmd, dic, t, src, dst, name=name, dspec=dspec, extra=extra, usage=False, expect=1, **kw)
    runs = [u(c, dspec="~none") for c in ("encode", "decode", "test")]
    runs += [u(c, extra=["--buffersize=0"]) for c in ("encode", "decode", "test")]
    runs += [u("none", name=x) for x in ("-", "compress", "", "encode2", "Encode", "tes", "tests", "help", "decod") if x]
    runs += [u("encode", extra=["decode"]), u("decode", extra=["x"]), u("encode", extra=["--nosuchflag"]),
             u("encode", extra=["--buffersize=abc"]), u("encode", extra=["--buffersize=-1"]),
             u("test", dst="p"), u("test", src="p:%s:5" % hexs(t)), u("test", src="p:%s:5" % hexs(t), dst="p")]
    judge(cx, runs, "command lines", "dbg")


def text_like(rng, dic, n, ascii_):
    out = b""
    while len(out) < n:
        q = rng.random()
        if q < .4 and len(dic) > 10:
            i = rng.randrange(len(dic)); out += dic[i:i + rng.randrange(1, 120)]
        elif q < .5 and out:
            i = rng.randrange(len(out)); out += out[i:i + rng.randrange(1, 120)]
        elif q < .55: out += bytes([rng.randrange(128)]) * rng.randrange(1, 60)
        else: out += bytes(rng.randrange(128 if ascii_ else 256) for _ in range(rng.randrange(1, 40)))
    return out[:n]


def random_encodings(cx, rng, n, flavour="dbg", pre="e"):
    """encode (and test), then decode what came out, in two passes."""
    enc = []
    for i in range(n):
        js = rng.random() < .15
        asc = js and rng.random() < .8
        dic = text_like(rng, b"", rng.choice([0, 1, 15, 16, 40, 200, 700]), asc)
        data = text_like(rng, dic, rng.choice([0, 1, 5, 31, 32, 100, 400, 900]), asc)
        h = hexs(data)
        cmd = "test" if rng.random() < .25 else "encode"
        src = "f:" + h if cmd == "test" or rng.random() < .4 else rng.choice(["r:" + h, "p:%s:%d" % (h, rng.randrange(1, 200))])
        dst = "f:-1" if cmd == "test" or rng.random() < .4 else rng.choice(["s:-1", "p"])
        kw = dict(maxf=rng.choice([len(data), max(0, len(data) - 1), 5, 5000]), maxw=rng.choice([len(data), 30, 5000])) \
            if cmd == "test" and rng.random() < .4 else {}
        enc.append(Run("%s%d" % (pre, i), cmd, dic, data, src, dst, name=rng.choice(ALIAS[cmd]),
                       buf=rng.choice([None, None, 1, 2, 3, 7, 16, 31, 32, 33, 64, 100, max(1, len(data)), len(data) + 1, max(1, len(data) - 1), 1 << 20, 1 << 40])
                       if src[0] == "f" else rng.choice([None, 1, 3, 32, 100, max(1, len(data)), len(data) + 1, 1 << 20]),
                       inter=rng.randrange(2), ck=rng.randrange(2), js=int(js), tm=rng.randrange(2), stats=int(rng.random() < .1), **kw))
    judge(cx, enc, "encodings", flavour)
    if cx.violations:
        return
    dec = []
    for r in enc:
        if r.status == "0" and not r.js:
            h = hexs(r.out)
            src = rng.choice(["f:" + h, "r:" + h, "p:%s:%d" % (h, rng.randrange(1, 200))])
            dec.append(Run("d" + r.rid, "decode", r.dic, r.out, src, rng.choice(["f:-1", "s:-1", "p"]), name=rng.choice(ALIAS["decode"]),
                           buf=rng.choice([None, 1, 2, 5, 17, 100, max(1, len(r.out)), len(r.out) + 1, 1 << 20]), stats=int(rng.random() < .1), expect=0))
    judge(cx, dec, "decodings", flavour)
    # limited outputs of the same runs
    lim = []
    for r in enc:
        if r.status != "0" or not r.out or rng.random() < .5:
            continue
        cap = rng.choice([0, 1, len(r.out) // 2, len(r.out) - 1, len(r.out) - 1, len(r.out), len(r.out) + 1])
        x = Run("l" + r.rid, r.cmd, r.dic, r.data, r.src, ("f" if r.dst[0] == "f" else "s") + ":%d" % cap, name=r.name, buf=r.buf, inter=r.inter,
                ck=r.ck, js=r.js, tm=r.tm, stats=r.stats, cap=cap, maxf=r.maxf, maxw=r.maxw)
        x.full = r.out
        lim.append(x)
    judge(cx, lim, "limited outputs", flavour)


def deltas(cx, cases, rng, flavour="dbg"):
    """Deltas of the specification through the program."""
    runs = []
    for c in cases:
        if len(c["d"]) > 2500 or "bigdict" in c:
            continue
        d = bytes(c["d"])
        h = hexs(d)
        src = rng.choice(["f:" + h, "r:" + h, "p:%s:%d" % (h, rng.randrange(1, 60))])
        cap, dst = -1, rng.choice(["f:-1", "s:-1", "p"])
        if c["valid"] and c["out"] and rng.random() < .2:
            cap = rng.choice([0, len(c["out"]) // 2, len(c["out"]) - 1, len(c["out"])])
            dst = rng.choice("fs") + ":%d" % cap
        runs.append(Run(c["key"], "decode", bytes(c["dict"]), d, src, dst, buf=rng.choice([None, 1, 2, 3, 10, 100, len(d) or 1, len(d) + 1]),
                        allow=int(c["allow"]), maxf=c["maxFile"], maxw=c["maxWin"], cap=cap, stats=int(rng.random() < .05)))
    judge(cx, runs, "generated deltas", flavour)


def large(cx, rng, n, flavour="fast"):
    """Files of megabytes, through the real program only: the round trip, the statuses."""
    exe = cx.exe[(flavour, "vcdiff")]
    d = os.path.join(cx.scratch, "large")
    os.makedirs(d, exist_ok=True)

    def one(i):
        r = random.Random(cx.seed * 977 + i)
        P = lambda x: os.path.join(d, "%s%d" % (x, i))
        dic = r.randbytes(r.choice([0, 5000, 200000, 1 << 20]) if i >= 4 else 18 << 20)
        parts, size = [], 0
        goal = r.choice([300000, 1 << 20, (1 << 20) + 1, 3 << 20]) if i % 25 != 1 else 20 << 20
        if dic:
            x = dic[-r.randrange(1, min(len(dic), 50000)):]      # up to the last byte
            parts.append(x); size += len(x)
        while size < goal:
            if dic and r.random() < .6:
                a = r.randrange(len(dic)); x = dic[a:a + r.randrange(1, 60000)]
            else:
                x = r.randbytes(r.randrange(1, 8000)) if r.random() < .5 else bytes([r.randrange(256)]) * r.randrange(1, 90000)
            parts.append(x); size += len(x)
        t = b"".join(parts)[:goal]
        open(P("dict"), "wb").write(dic); open(P("t"), "wb").write(t)
        flags = [f for f in ("--interleaved", "--checksum", "--target_matches") if r.random() < .5]
        if "--target_matches" in flags and len(t) > (1 << 20):
            flags.remove("--target_matches")
        eb = ["--buffersize=%d" % r.choice([4096, 4097, 65536, 1 << 20, 1 << 23, len(t), len(t) - 1])] if r.random() < .8 else []
        db = ["--buffersize=%d" % r.choice([1000, 4096, 65535, 1 << 20, 1 << 24])] if r.random() < .8 else []
        cx.enough()
        over = []
        def call(args, inp, outp):
            if over:
                return "not run"
            with open(inp or os.devnull, "rb") as fi, open(outp or os.devnull, "wb") as fo:
                try:
                    return subprocess.run([exe] + args, stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, timeout=60, cwd=d).returncode
                except subprocess.TimeoutExpired:
                    over.append(1)
                    return "no end"
        std = r.random() < .5
        enc = ["encode", "--dictionary=" + P("dict")] + flags + eb
        dec = ["decode", "--dictionary=" + P("dict")] + db
        a = call(enc, P("t"), P("v")) if std else call(enc + ["--target=" + P("t"), "--delta=" + P("v")], None, None)
        b = call(dec, P("v"), P("o")) if not std else call(dec + ["--delta=" + P("v"), "--target=" + P("o")], None, None)
        same = os.path.exists(P("o")) and open(P("o"), "rb").read() == t
        c = call(["test", "--dictionary=" + P("dict"), "--target=" + P("t"), "--delta=" + P("w")] + flags + eb, None, None)
        # the last byte missing
        v = open(P("v"), "rb").read() if os.path.exists(P("v")) else b""
        open(P("x"), "wb").write(v[:-1])
        e = call(dec + ["--delta=" + P("x"), "--target=" + P("o")], None, None)
        res = (a, b, same, c, e)
        for x in "dict t v o w x".split():
            if os.path.exists(P(x)):
                os.unlink(P(x))
        return i, res, "%s %s | %s | dictionary %d target %d seed %d" % (enc, "standard streams" if std else "files", db, len(dic), len(t), cx.seed * 977 + i)
    bad = 0
    for i, (a, b, same, c, e), what in cx.pool.map(one, range(n)):
        cx.count("large_files")
        if (a, b, same, c) != (0, 0, True, 0) or e in (0, "no end"):
            again = one(i)[1]
            if again == (a, b, same, c, e):
                bad += 1
                if bad <= 4:
                    cx.violation("large file %d: encode %s, decode %s, same target %s, test %s, decode of a truncated delta %s" % (i, a, b, same, c, e), what)
    cx.traces += n
    cx.log("%d large files, %d bad" % (n, bad))


def compared(cx, flavour="fast"):
    """The scenarios of MCCompare: what "vcdiff test" says when the delta file holds something else by the time it is read."""
    r = cx.tlc("MCCompare", dict(Units=3, Control='"none"'), spec="Spec", invariants=["Truthful", "Emit"], properties=["Ends"])
    for c in ("first", "short", "nofinish", "noend"):
        cx.tlc("MCCompare", dict(Units=2, Control='"%s"' % c), spec="Spec", invariants=["Truthful"], expect="violation", name="MCCompare control " + c)
    exe = cx.exe[(flavour, "vcdiff")]
    d = os.path.join(cx.scratch, "compared")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "swap.so")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(here, "harness", "swap.c"), "-ldl"], stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise CheckBroken("swap.c: " + p.stderr[:300])
    scens = sorted((s for s in r.prints("SCEN")), key=lambda s: json.dumps(s, sort_keys=True))
    jobs = [(i, s, u) for i, s in enumerate(scens) for u in ([40, 65536] if cx.quick else [1, 2, 40, 4096, 65536, 300000])]

    def one(job):
        i, s, u = job
        c = s["sc"]
        rng = random.Random("%d %d %d" % (cx.seed, i, u))
        P = lambda x: os.path.join(d, "%s%d.%d" % (x, i, u))
        t = rng.randbytes(3 * u)
        unit = [t[k * u:(k + 1) * u] for k in range(3)]
        mine, other = unit[:c["n"]], unit[:c["m"]]
        longer = mine if c["n"] > c["m"] else other
        if c["odd"]:
            longer[-1] = longer[-1][:1]
        if c["diff"]:
            x = bytearray(other[c["diff"] - 1])
            x[rng.choice([0, len(x) - 1, rng.randrange(len(x))])] ^= 1 << rng.randrange(8)
            other[c["diff"] - 1] = bytes(x)
        wins = [window(x) for x in other]
        if c["file"] == "bad": wins[-1] = window(other[-1], True)
        if c["file"] == "cut": wins[-1] = wins[-1][:rng.randrange(1, len(wins[-1]))]
        v = b"" if c["file"] == "empty" else bytes.fromhex("d6c3c45300") + b"".join(wins)
        if os.path.exists(P("m")): os.unlink(P("m"))
        for n, x in (("dict", rng.randbytes(100)), ("t", b"".join(mine)), ("f", v)):
            open(P(n), "wb").write(x)
        buf = max(1, c["buf"] * (u + 14))
        env = dict(os.environ, LD_PRELOAD=so, SWAP_PATH=P("v"), SWAP_FROM=P("f"), SWAP_MARK=P("m"))
        args = ["test", "--dictionary=" + P("dict"), "--target=" + P("t"), "--delta=" + P("v"), "--buffersize=%d" % buf]
        args += [f for f in ("--interleaved", "--checksum", "--target_matches") if rng.random() < .3]
        try:
            st = subprocess.run([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, cwd=d, env=env).returncode
        except subprocess.TimeoutExpired:
            st = "no end"
        swapped = os.path.exists(P("m"))
        for x in "dict t f v m".split():
            if os.path.exists(P(x)):
                os.unlink(P(x))
        return job, st, swapped, args
    bad = swaps = 0
    for job, st, swapped, args in cx.pool.map(one, jobs):
        swaps += swapped
        # without the exchange there is nothing to hold the program to
        if swapped and (st == 0) != (job[1]["status"] == 0) and st != "no end" or st == "no end" or isinstance(st, int) and st < 0:
            if one(job)[1] == st:
                bad += 1
                if bad <= 4:
                    cx.violation("test of a delta file that has become another: exit status %s, the model says %s" % (st, "0" if job[1]["status"] == 0 else "failure"),
                                 "MCCompare scenario %s, units of %d bytes\n%s" % (json.dumps(job[1]), job[2], " ".join(args)))
    cx.count("compared", swaps)
    cx.traces += swaps
    cx.log("%d tests of %d with another delta file, %d with another status than the model's" % (swaps, len(jobs), bad))

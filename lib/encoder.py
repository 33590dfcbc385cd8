"""Encoder scenarios: recorded from the implementation, judged by TraceEncoder; call histories from MCEncHistory."""
import json, os, random, shutil, subprocess, sys, tempfile
import decoder
from core import hexs, CheckBroken


class Scenario:
    """flags: 1 interleaved, 2 checksum, 4 JSON.  ops: 'start', ('chunk', bytes), 'finish', ('whole', bytes)."""
    def __init__(self, sid, flags, match, dic, ops):
        self.id, self.flags, self.match, self.dict, self.ops = sid, flags, match, dic, ops

    def line(self, quiet=False):
        f = lambda o: o if isinstance(o, str) else "%s:%s" % (o[0], hexs(o[1]))
        return (self.id, "%s %d %d %s %s" % (self.id, self.flags, self.match, hexs(self.dict), " ".join(map(f, self.ops))))


# ---- data ----------------------------------------------------------------------------------
SIZES = [0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 80, 100, 127, 128, 200, 272]


def blob(rng, n, style=None, ascii7=False):
    top = 128 if ascii7 else 256
    style = style or rng.choice(["random", "random", "low", "period", "text", "high", "run"])
    if style == "random":
        return bytes(rng.randrange(top) for _ in range(n))
    if style == "low":
        a = rng.sample(range(top), 2)
        return bytes(rng.choice(a) for _ in range(n))
    if style == "period":
        p = bytes(rng.randrange(top) for _ in range(rng.choice([1, 2, 3, 7, 15, 16, 17, 31, 40])))
        return (p * (n // len(p) + 1))[:n]
    if style == "text":
        w = [b"the ", b"quick ", b"\n", b"\"x\"", b"\\", b"brown fox ", b"\t", b"0123456789"]
        r = b""
        while len(r) < n:
            r += rng.choice(w)
        return r[:n]
    if style == "high":
        lo = 0 if ascii7 else 128
        return bytes(rng.randrange(lo, top) for _ in range(n))
    return bytes([rng.randrange(top)]) * n


def target(rng, dic, size, ascii7=False, distinct=False):
    """Pieces of the dictionary, literals, repetitions, runs."""
    r = b""
    lens = [1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 17, 18, 19, 30, 31, 32, 33, 34, 40, 46, 47, 48, 49, 63, 64, 65, 80, 100, 127, 128,
            129, 200, 272, 400]
    while len(r) < size:
        k = rng.random()
        n = min(rng.choice(lens), size - len(r)) if rng.random() < .9 else size - len(r)
        if k < .4 and dic:
            n = min(n, len(dic))
            o = rng.choice([0, len(dic) - n, rng.randrange(len(dic) - n + 1), rng.randrange(len(dic) - n + 1)])
            r += dic[o:o + n]
        elif k < .5 and dic and r:
            # the end of the dictionary followed by the start of the target
            n1 = min(rng.choice([1, 8, 15, 16, 17, 31, 32, 40]), len(dic))
            n2 = min(rng.choice([1, 8, 15, 16, 17, 31, 32, 40]), len(r))
            r += dic[len(dic) - n1:] + r[:n2]
        elif k < .65 and r:
            o = rng.randrange(len(r))
            for i in range(n):
                r += r[o + i:o + i + 1]
        elif k < .72 and not distinct:
            r += bytes([rng.randrange(128 if ascii7 else 256)]) * n
        elif k < .76 and r and dic:
            # an almost-match
            n = min(n, len(dic))
            o = rng.randrange(len(dic) - n + 1)
            x = bytearray(dic[o:o + n])
            x[rng.randrange(n)] ^= 1
            r += bytes(x)
        else:
            r += blob(rng, n, "random" if distinct else None, ascii7)
    return r[:size]


def chunks(rng, t):
    k = rng.random()
    if k < .45 or not t:
        return [t]
    res, p = [], 0
    mx = rng.choice([1, 7, 16, 33, 100, 100, len(t)])
    if mx == 1 and len(t) > 60:
        mx = 50
    while p < len(t):
        n = rng.randint(0 if rng.random() < .15 else 1, mx)
        res.append(t[p:p + n])
        p += n
    return res


def scenario(rng, sid, json_=False, size=None, flags=None, match=None, small=False):
    ascii7 = json_ and rng.random() < .9
    flags = (4 if json_ else 0) + rng.choice([0, 1, 2, 3]) if flags is None else flags
    match = rng.randrange(2) if match is None else match
    dn = rng.choice(SIZES + ([] if small else [300, 500, 1000]))
    dic = blob(rng, dn, None if not small else rng.choice(["random", "random", "text", "period", "low"]), ascii7)
    tn = size if size is not None else rng.choice(SIZES + ([] if small else [300, 600, 1200, 2500]))
    t = target(rng, dic, tn, ascii7)
    ops = ["start"] + [("chunk", c) for c in chunks(rng, t)] + ["finish"]
    return Scenario(sid, flags, match, dic, ops)


def whole_scenarios(rng, n, prefix, **kw):
    some = [Scenario(prefix + "fix1", 0, 1, b"", ["start", ("chunk", blob(rng, 40, "random", True) * 5), "finish"]),
            Scenario(prefix + "fix2", 2, 0, b"", ["start", ("chunk", blob(rng, 70, "random", True)), "finish"])]
    if kw.get("json_"):
        for s in some:
            s.flags = 4
    return some + [scenario(rng, "%s%d" % (prefix, i), **kw) for i in range(n)]


def thresholds(rng, prefix):
    """Literal and copy lengths where opcodes and variable-length integers change."""
    res = []
    k = 0
    for n in list(range(1, 20)) + [31, 32, 33, 126, 127, 128, 129, 254, 255, 256, 257, 16383, 16384, 16385]:
        for flags in ((0, 3) if n < 1000 else (rng.choice([0, 1]),)):
            for kind in ("add", "copy", "addcopy", "copyadd"):
                if n > 1000 and kind in ("addcopy", "copyadd"):
                    continue
                dic = blob(rng, max(n, 40) if "copy" in kind else 40, "random")
                copy = dic[-n:] if kind in ("copy",) else dic[2:40]
                lit = blob(rng, n, "random")
                t = {"add": lit, "copy": copy, "addcopy": lit + copy, "copyadd": copy + lit}[kind]
                res.append(Scenario("%s%d" % (prefix, k), flags, k % 2, dic, ["start", ("chunk", t), "finish"]))
                k += 1
    return res


# ---- recording and judging -----------------------------------------------------------------
def record(cx, scs, flavour="dbg", rules="record"):
    lines = [s.line() for s in scs]
    by = {s.id: s for s in scs}
    recs = []
    for l in cx.run_lines(flavour, "encscript", lines, args=[rules, cx.seed]):
        if l.startswith("BAD "):
            cx.violation(l[4:600], "encscript (%s)\n%s" % (flavour, by[l.split(" ", 2)[1]].line()[1][:20000]))
            continue
        w = l.split(" ")
        if w[0] != "R":
            continue
        s = by[w[1]]
        ev = []
        for o, r in zip(s.ops, w[2:]):
            ret, _, app = r.partition(":")
            ev.append({"op": o if isinstance(o, str) else o[0], "data": [] if isinstance(o, str) else list(o[1]),
                       "ret": ret == "1", "app": [] if app == "-" else list(bytes.fromhex(app))})
        recs.append({"id": s.id, "dict": list(s.dict), "inter": bool(s.flags & 1), "ck": bool(s.flags & 2),
                     "json": bool(s.flags & 4), "match": bool(s.match), "ev": ev})
    cx.count("encodings_recorded", len(recs))
    return recs


def judge(cx, scs, rules, name, flavour="dbg", corrupt=None):
    """rules: subset of TraceEncoder's Judge."""
    by = {s.id: s for s in scs}
    recs = record(cx, scs, flavour)
    k = {"Judge": "{%s}" % ",".join('"%s"' % r for r in rules)}
    rej = cx.validated("TraceEncoder", recs, name, constants=k,
                       describe=lambda i: "encscript (%s), rules %s\n%s\nrecorded: %s" % (
                           flavour, rules, by[i].line()[1], [(e["op"], e["ret"], bytes(e["app"]).hex())
                                                            for r in recs if r["id"] == i for e in r["ev"]]))
    if recs and len(cx.samples) < 8:
        cx.samples.append({"recorded encoding": by[recs[len(recs) // 2]["id"]].line()[1][:800], "judged": sorted(rules)})
    if corrupt and not rej:
        for r in recs:
            x = corrupt(json.loads(json.dumps(r)))
            if x is None:
                continue
            hit = bool(cx.validate("TraceEncoder", [x], "control", workers=1, constants=k))
            cx.controls.append({"control": "TraceEncoder: recorded output altered (%s)" % corrupt.__name__, "refuted": hit})
            if not hit:
                raise CheckBroken("TraceEncoder accepts an altered output (%s)" % corrupt.__name__)
            return rej
        raise CheckBroken("no recorded encoding to alter")
    return rej


def chunk_events(r, least=1):
    return [e for e in r["ev"] if e["op"] == "chunk" and e["ret"] and len(e["data"]) >= least and e["app"]]


def other_byte(r):
    """the target was something else"""
    es = chunk_events(r, 3)
    if r["json"] or not es or any(e["op"] == "chunk" and e["data"] and not e["ret"] for e in r["ev"]):
        return None
    es[-1]["data"][-1] ^= 1
    return r


def other_checksum(r):
    es = chunk_events(r, 3)
    if not r["ck"] or not es:
        return None
    es[-1]["data"][0] ^= 1
    return r


def match_off(r):
    """a copy from the target although target matching was off"""
    es = chunk_events(r, 100)
    if not r["match"] or r["dict"] or r["json"] or not es or len(es[0]["app"]) * 2 > len(es[0]["data"]):
        return None
    r["match"] = False
    return r


def longer_dict(r):
    """literal data that the dictionary contains"""
    if r["dict"] or r["json"] or r["match"]:
        return None
    es = chunk_events(r, 60)
    # the window must still be readable, so the source length is rewritten
    for e in es:
        if e["app"][1] == 0 and len(e["data"]) < 120:
            r["dict"] = e["data"]
            e["app"][1] = len(e["data"])
            r["ev"] = [x for x in r["ev"] if x is e or x["op"] == "start"]
            return r
    return None


def shorter_copy(r):
    """the byte that ended a copy is one that would have continued it"""
    if r["json"] or r["match"] or len(r["dict"]) < 60:
        return None
    for e in chunk_events(r, 40):
        w = e["app"]
        # exactly one copy, or the alteration might touch another
        if bytes(r["dict"]).find(bytes(e["data"][:40])) == 0 and len(e["data"]) < 100 and len(w) < 40:
            n = next((k for k in range(40, len(e["data"]) + 1) if e["data"][:k] != r["dict"][:k]), 0)
            if n and n <= len(r["dict"]) and bytes(r["dict"]).count(bytes(e["data"][:16])) == 1:
                e["data"][n - 1] = r["dict"][n - 1]
                return r
    return None


def json_text(r):
    es = chunk_events(r, 3)
    if not r["json"] or len(es) < 1 or r["ev"][-1]["op"] != "finish" or not r["ev"][-1]["ret"]:
        return None
    r["ev"][-1]["app"] = [44] + r["ev"][-1]["app"]
    return r


# ---- volume: the round trip itself, run natively --------------------------------------------
def expressions(rng, n, prefix, big=False, js=False):
    """Scripts with generated data, too large to write down."""
    lines = []
    for i in range(n):
        dn = rng.choice([0, 1, 40, 1000, 5000, 20000, 65536, 70000, 131072] if not big else [70000, 1 << 20, 2097152, 3000000])
        style = rng.choice("ssab" if js else "rraab")
        dic = "-" if dn == 0 else "~%s:%d:%d" % (style, rng.randrange(128 if js else 256) if style == "b" else rng.randrange(1 << 30), dn)
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            ops.append("start")
            for _ in range(rng.choice([1, 1, 2, 5])):
                ops.append("chunk:" + expr(rng, dn, 400000 if big else 60000, js))
            ops.append("finish")
        if rng.random() < .5:
            ops.append("whole:" + expr(rng, dn, 30000, js))
        sid = "%s%d" % (prefix, i)
        lines.append((sid, "%s %d %d %s %s" % (sid, rng.randrange(4) + 4 * js, rng.randrange(2), dic, " ".join(ops))))
    return lines


POWERS = sorted(set(v for k in range(4, 22) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1)) | set([5551, 5552, 5553, 1000000, 3000000]))


def powers(rng, rounds, prefix, js=False):
    """Chunks, dictionaries, literals and copies whose sizes are powers of two or next to one, one window behind the other."""
    lines, new = [], "s" if js else "r"
    for r in range(rounds):
        sizes = POWERS[:]
        rng.shuffle(sizes)
        while sizes:
            dn = rng.choice([0, 16, 100] + POWERS) if r % 4 else rng.choice([40, 100000])
            dic = "-" if dn == 0 else "~%s:%d:%d" % (new, rng.randrange(1 << 40), dn)
            ops = ["start"]
            for n in [sizes.pop() for _ in range(min(len(sizes), 4))]:
                ps, have = [], 0
                kind = rng.choice(["add", "copy", "self", "mix", "mix", "run"])
                if kind == "copy" and dn < n: kind = "self"
                if kind == "add": ps = ["%s:%d:%d" % (new, rng.randrange(1 << 40), n)]
                elif kind == "run": ps = ["b:%d:%d" % (rng.randrange(128 if js else 256), n)]
                elif kind == "copy": ps = ["d:%d:%d" % (rng.randrange(dn - n + 1), n)]
                elif kind == "self":
                    k = min(n, rng.choice([17, 40, 1000]))
                    ps = ["%s:%d:%d" % (new, rng.randrange(1 << 40), k)] + (["t:0:%d" % (n - k)] if n > k else [])
                else:
                    while have < n:
                        k = min(n - have, rng.choice(POWERS + [1, 2, 7, 31, 32, 33]))
                        if rng.random() < .4 and dn >= k:
                            ps.append("d:%d:%d" % (rng.randrange(dn - k + 1), k))
                        elif rng.random() < .3 and have:
                            ps.append("t:%d:%d" % (rng.randrange(have), k))
                        else:
                            ps.append("%s:%d:%d" % (new, rng.randrange(1 << 40), k))
                        have += k
                ops.append("chunk:~" + "+".join(ps))
            sid = "%s%d" % (prefix, len(lines))
            lines.append((sid, "%s %d %d %s %s finish" % (sid, rng.randrange(4) + 4 * js, rng.randrange(2), dic, " ".join(ops))))
    return lines


def wide(rng, n, prefix):
    """A dictionary whose addresses need five groups; matches at and beyond 2^28 (each must be found: it is unique)."""
    lines = []
    for i in range(n):
        dn = 268435456 + rng.choice([40, 33000, 70000])
        spots = [268435456 - 16, 268435455, 268435456, 268435457, 268435440, dn - 32, dn - 40, dn - 47, 5, 1 << 27, 2097151] + \
                [rng.randrange(dn - 400) for _ in range(12)]
        rng.shuffle(spots)
        ops = ["start"]
        for _ in range(2):
            ps, at, must = [], 0, []
            for o in spots[:rng.choice([6, 12])]:
                k = rng.choice([1, 3, 20])
                ps.append("r:%d:%d" % (rng.randrange(1 << 30), k))
                at += k
                k = min(dn - o, rng.choice([32, 48, 100, 300]))
                ps.append("d:%d:%d" % (o, k))
                if k >= 32:
                    must.append(at)
                at += k
            ops += ["must:32:" + ",".join(map(str, must)), "chunk:~" + "+".join(ps)]
        sid = "%s%d" % (prefix, i)
        lines.append((sid, "%s %d %d ~r:%d:%d %s finish" % (sid, i % 4, rng.randrange(2), rng.randrange(1 << 30), dn, " ".join(ops))))
    return lines


def expr(rng, dn, mx, js=False):
    ps, have = [], 0
    for _ in range(rng.choice([1, 2, 3, 6, 12])):
        n = rng.choice([1, 15, 16, 17, 31, 32, 33, 47, 48, 100, 127, 128, 1000, 5552, 5553, 16383, 16384, 30000, mx])
        if have + n > 4 * mx:
            break
        k = rng.random()
        if k < .45 and dn:
            n = min(n, dn)
            o = rng.choice([0, dn - n, rng.randrange(dn - n + 1)])
            ps.append("d:%d:%d" % (o, n))
        elif k < .65 and have:
            ps.append("t:%d:%d" % (rng.randrange(have), n))
        elif k < .75:
            ps.append("b:%d:%d" % (rng.randrange(128 if js else 256), n))
        else:
            ps.append("%s:%d:%d" % (rng.choice("sa" if js else "ra"), rng.randrange(1 << 30), n))
        have += n
    return "~" + "+".join(ps) if ps else "-"


def native(cx, lines, rules, what, flavour="dbg", **kw):
    return cx.expect_lines(flavour, "encscript", lines, args=[rules, cx.seed], what=what, **kw)


def lines_of(scs):
    return [s.line() for s in scs]


# ---- histories enumerated by TLC -------------------------------------------------------------
def histories(cx, maxlen, controls=True):
    """All call sequences; per sequence the scripts of every format that fits."""
    lines = []
    rng = random.Random(cx.seed * 31 + 11)
    dic = {True: bytes(rng.randrange(97, 123) for _ in range(50)), False: bytes(rng.randrange(128, 256) for _ in range(50))}
    chunk = {2: None, 3: None}
    if controls:
        for c, j in (("keepwriter", "TRUE"), ("stayson", "FALSE")):
            cx.tlc("MCEncHistory", dict(MaxLen=4, JsonFmt=j, DictAscii="TRUE", Control='"%s"' % c), spec="Spec",
                   invariants=["OnlyOwnChunks", "InOrder"], expect="violation", name="MCEncHistory/" + c)
    for js in (False, True):
        for asc in (True, False):
            if not asc and not js:
                continue
            r = cx.tlc("MCEncHistory", dict(MaxLen=maxlen, JsonFmt=str(js).upper(), DictAscii=str(asc).upper(), Control='"none"'),
                       spec="Spec", invariants=["OnlyOwnChunks", "InOrder", "Emit"], name="MCEncHistory/json=%s,ascii=%s" % (js, asc))
            for n, p in enumerate(r.prints("P")):
                d = dic[asc]
                # a: copies from dictionary and target and literals; b: repeats part of a; x: bytes beyond 127
                a = d[5:45] + b"XYZ,\"" + d[5:45] + b"\n"
                b = a[10:80]
                x = bytes([200, 7]) + d[:35] + bytes(range(128, 170)) * 2
                if js and not asc:
                    a, b = b"abc" * 20, b"q"
                data = {2: a, 3: b, 4: x, 5: b""}
                toks = ["%s=%d" % ("start" if c == 1 else "finish" if c == 6 else "chunk:" + hexs(data[c]), ok) for c, ok in p]
                for flags in ((0, 1, 2, 3) if not js else (4, 7)):
                    m = (n + flags) % 2
                    sid = "h%d%d-%d-%d" % (js, asc, flags, n)
                    # followed by a complete encoding
                    tail = "start chunk:%s chunk:%s finish" % (hexs(b), hexs(a))
                    lines.append((sid, "%s %d %d %s %s %s" % (sid, flags, m, hexs(d), " ".join(toks), tail if asc or not js else "")))
    cx.count("encoder_histories", len(lines))
    return lines


def one_shot(cx, maxlen):
    """All histories of one VCDiffEncoder whose settings change."""
    cx.tlc("MCOneShot", dict(MaxLen=4, Control='"stale"'), spec="Spec", invariants=["AsFresh"], expect="violation", name="MCOneShot/stale")
    r = cx.tlc("MCOneShot", dict(MaxLen=maxlen, Control='"none"'), spec="Spec", invariants=["AsFresh", "Emit"])
    rng = random.Random(cx.seed * 31 + 12)
    d = bytes(rng.randrange(97, 123) for _ in range(60))
    a = d[5:45] + b"XYZ,\"" + d[5:45] + b"0123456789" * 9
    data = {7: a, 8: a[30:100] * 2, 9: bytes([200, 7]) + d[:35] + bytes(range(128, 170)) * 3, 10: b""}
    lines = []
    for n, p in enumerate(sorted(r.prints("P"), key=json.dumps)):
        toks = []
        for k, ok in p:
            toks.append("flags:%d" % (0, 2, 3, 4)[k - 1] if k < 5 else "match:%d" % (k - 5) if k < 7 else "whole:%s=%d" % (hexs(data[k]), ok))
        lines.append(("o%d" % n, "o%d 0 1 %s %s" % (n, hexs(d), " ".join(toks))))
    cx.count("one_shot_histories", len(lines))
    return lines


# ---- the matching engine ---------------------------------------------------------------------
ENGINE_INV = ["Reproduces", "Allowed", "NoShort", "FoundInDict", "FoundInTarget", "FoundInTarget2", "Maximal", "InRange"]
ENGINE_CONTROLS = {"noleft": dict(MinDict=5, MaxDict=5, MinTarget=4, MaxTarget=5), "crossend": dict(MinDict=4, MaxDict=5, MinTarget=5, MaxTarget=6),
                   "ahead": dict(MinDict=0, MaxDict=1, MinTarget=6, MaxTarget=8), "short": dict(MinDict=4, MaxDict=5, MinTarget=4, MaxTarget=5),
                   "forget": dict(MinDict=4, MaxDict=4, MinTarget=9, MaxTarget=9), "endearly": dict(MinDict=5, MaxDict=5, MinTarget=4, MaxTarget=5),
                   "firstonly": dict(MinDict=8, MaxDict=9, MinTarget=5, MaxTarget=5),
                   "capright": dict(MinDict=5, MaxDict=5, MinTarget=5, MaxTarget=5)}


def engine(cx, sizes, controls=(), syms="{0,1}", out=True):
    """Checks the engine model exhaustively for these sizes; returns the scripts of its runs, one symbol being
    eight bytes (so that a block of the model is a block of the implementation)."""
    base = dict(B=2, Symbols="{0,1}", MaxProbes=16, MaxMatches=64, Out="FALSE")
    for c in controls:
        cx.tlc("MCEngine", dict(base, Control='"%s"' % c, **ENGINE_CONTROLS[c]), spec="Spec", invariants=ENGINE_INV, properties=["LongestTaken"],
               expect="violation", name="MCEngine/" + c)
    lines, n = [], 0
    rng = random.Random(cx.seed * 77 + 5)
    for sym, mind, maxd, mint, maxt in sizes:
        r = cx.tlc("MCEngine", dict(base, Symbols=sym, Control='"none"', Out="TRUE" if out else "FALSE", MinDict=mind, MaxDict=maxd, MinTarget=mint,
                                    MaxTarget=maxt), spec="Spec", invariants=ENGINE_INV + ["Emit"], properties=["Progress", "LongestTaken"],
                   name="MCEngine/%s,%d..%d,%d..%d" % (sym, mind, maxd, mint, maxt), timeout=3000)
        for e in r.prints("E"):
            unit = {}
            firsts, lasts = rng.sample(range(256), 4), rng.sample(range(256), 4)
            for s in range(4):
                unit[s] = bytes([firsts[s]] + [rng.randrange(256) for _ in range(6)] + [lasts[s]])
            d = b"".join(unit[x] for x in e["d"])
            t = b"".join(unit[x] for x in e["t"])
            m = []
            if e["md"]:
                m.append("must:32:" + ",".join(str(8 * p) for p in e["md"]))
            if e["mt"]:
                m.append("must:48:" + ",".join(str(8 * p) for p in e["mt"]))
            n += 1
            sid = "g%d" % n
            lines.append((sid, "%s 0 %d %s start %s chunk:%s finish" % (sid, e["m"], hexs(d), " ".join(m), hexs(t))))
    cx.count("engine_runs_replayed", len(lines))
    return lines


def must_scripts(rng, n, prefix, big=False):
    """Large dictionaries and targets of distinct data, pieces of which recur."""
    lines = []
    for i in range(n):
        dn = rng.choice([32, 33, 40, 47, 48, 64, 1000, 4096, 20000, 65536, 70001] if not big else [262144, 1 << 20, 3000001, 9000000])
        style = rng.choice("ra")
        match = rng.randrange(2)
        must32, must47 = [], []
        ps, have, distinct, nt = [], 0, [], 0
        for _ in range(rng.choice([2, 4, 9, 20])):
            k = rng.random()
            n = rng.choice([1, 7, 15, 16, 17, 31, 32, 33, 34, 46, 47, 48, 49, 63, 64, 100, 1000, 5000])
            if k < .45:
                n = min(n, dn)
                o = rng.choice([0, dn - n, rng.randrange(dn - n + 1), rng.randrange(dn - n + 1)])
                ps.append("d:%d:%d" % (o, n))
                if n >= 32:
                    must32 += sorted(set([have, have + n - 32] + [have + rng.randrange(n - 31) for _ in range(4)]))
            elif k < .65 and distinct and nt < 6:
                o0, n0 = rng.choice(distinct)
                n = min(n, n0)
                o = o0 + rng.choice([0, n0 - n, rng.randrange(n0 - n + 1)])
                ps.append("t:%d:%d" % (o, n))
                nt += 1
                if n >= 47:
                    must47 += sorted(set([have, have + n - 47] + [have + rng.randrange(n - 46) for _ in range(3)]))
            else:
                ps.append("%s:%d:%d" % (style, rng.randrange(1 << 40), n))
                distinct.append((have, n))
            have += n
        sid = "%s%d" % (prefix, i)
        toks = []
        if must32:
            toks.append("must:32:" + ",".join(map(str, must32)))
        if must47 and match:
            toks.append("must:47:" + ",".join(map(str, must47)))
        toks.append("chunk:~" + "+".join(ps))
        lines.append((sid, "%s %d %d ~%s:%d:%d start %s finish" % (sid, rng.randrange(4), match, style, rng.randrange(1 << 40), dn, " ".join(toks))))
    return lines


def colliding_scripts(rng, n, prefix):
    """Up to twelve different blocks of the dictionary (and, with target matching, of the chunk) for which the
    rolling hash has one value; the demanded pieces begin at the blocks."""
    lines = []
    for i in range(n):
        k = rng.choice([2, 3, 5, 8, 10, 12])
        match = rng.randrange(2)
        front, back = 16 * rng.choice([0, 1, 5]), rng.choice([16, 32, 48])
        # every block is followed by one of its own
        seed = rng.randrange(1 << 40)
        blocks = "x:%d:%d:%d" % (rng.randrange(1 << 40), k, seed)
        if match and i % 2:
            dic = "~r:%d:%d" % (rng.randrange(1 << 40), rng.choice([16, 100, 1000]))
            ps = ([] if not front else ["r:%d:%d" % (rng.randrange(1 << 40), front)]) + [blocks]
            have, base, need = front + 48 * k, front, 47
        else:
            dic = "~" + "+".join(([] if not front else ["r:%d:%d" % (rng.randrange(1 << 40), front)]) + [blocks] +
                                 ["r:%d:%d" % (rng.randrange(1 << 40), back)])
            ps, have, base, need = [], 0, front, 32
        must = []
        js = list(range(k)) * 2
        rng.shuffle(js)
        for j in js[:rng.choice([2, 6, 12])]:
            lit = rng.choice([1, 3, 16, 17])
            ps.append("r:%d:%d" % (rng.randrange(1 << 40), lit))
            have += lit
            size = 48 if need == 47 else rng.choice([32, 40, 48])
            ps.append(("t" if need == 47 else "d") + ":%d:%d" % (base + 48 * j, size))
            must.append(have)
            have += size
        sid = "%s%d" % (prefix, i)
        lines.append((sid, "%s %d %d %s start must:%d:%s chunk:~%s finish" % (sid, rng.randrange(4), match, dic, need, ",".join(map(str, must)), "+".join(ps))))
    return lines


def must_control(cx, flavour="dbg"):
    """A demand the implementation cannot meet has to be noticed."""
    l = ("control", "control 0 0 ~r:1:100 start must:32:0 chunk:~r:987654321:100 finish")
    out = cx.run_lines(flavour, "encscript", [l], args=["found", 1], ways=1)
    hit = any(x.startswith("BAD") for x in out)
    cx.controls.append({"control": "replay: new data demanded to be copied", "refuted": hit})
    if not hit:
        raise CheckBroken("the replay does not notice literal data")


# ---- more scenarios --------------------------------------------------------------------------
def big_scenarios(rng, n, prefix, flags=None):
    """Windows beyond the sizes at which checksums and lengths change their treatment."""
    res = []
    for i in range(n):
        dic = blob(rng, rng.choice([0, 100, 1000]))
        tn = rng.choice([5551, 5552, 5553, 5568, 11104, 11105, 16383, 16384, 20000])
        style = rng.choice(["high", "random", "run", "mix"])
        t = b"\xff" * tn if style == "run" else blob(rng, tn, style) if style != "mix" else target(rng, dic, tn)
        res.append(Scenario("%s%d" % (prefix, i), rng.choice([0, 1, 2, 3]) if flags is None else flags | rng.randrange(2), rng.randrange(2), dic,
                            ["start", ("chunk", t), ("chunk", t[:rng.randrange(1, 60)]), "finish"]))
    return res


def random_histories(rng, n, prefix, json_=False):
    """Several encodings on one object, with calls out of order, abandoned encodings, refused chunks."""
    res = []
    for i in range(n):
        flags = (4 if json_ or rng.random() < .2 else 0) + rng.randrange(4)
        asc = bool(flags & 4)
        dic = blob(rng, rng.choice(SIZES), None, asc and rng.random() < .93)
        ops = []
        for _ in range(rng.randint(2, 5)):
            if rng.random() < .15:
                ops.append(rng.choice(["finish", ("chunk", b"abc"), ("chunk", b"")]))
            ops.append("start")
            t = target(rng, dic, rng.choice(SIZES + [300, 600]), asc)
            for c in chunks(rng, t)[:30]:
                ops.append(("chunk", c))
                if rng.random() < .06:
                    ops.append(rng.choice(["start", "finish", ("chunk", b""), ("chunk", b"\xe4\x80" * 20)]))
            if rng.random() < .85:
                ops.append("finish")
        res.append(Scenario("%s%d" % (prefix, i), flags, rng.randrange(2), dic, ops))
    return res


def json_bytes(rng, prefix):
    """Every byte value, alone, doubled, between others, in dictionary or target."""
    res = []
    for b in range(256):
        x = bytes([b])
        d = b"abcdefghijklmnopqrstuvwxyz0123456789" + (x if b % 3 == 0 else b"")
        res.append(Scenario("%s%d" % (prefix, b), 4, b % 2, d, ["start", ("chunk", x), ("chunk", b"a" + x + b"b" + x + x), ("chunk", x * 70 + d), "finish"]))
        res.append(Scenario("%sd%d" % (prefix, b), 4, b % 2, x * 40, ["start", ("chunk", x * 40 + b"z"), "finish"]))
    return res


def refused_output(r):
    es = [e for e in r["ev"] if not e["ret"]]
    if not es:
        return None
    es[0]["ret"] = True
    return r


def solo(cx, hs, flavour="fast"):
    """Each encoding of a history alone in a process of its own: the same bytes."""
    recs = {r["id"]: r for r in record(cx, hs, flavour)}
    jobs = []
    for s in hs:
        r = recs.get(s.id)
        if not r:
            continue
        cur = None
        for o, e in zip(s.ops, r["ev"]):
            if e["op"] == "start" and e["ret"]:
                cur = [[o], e["app"][:]]
            elif cur and e["op"] == "chunk" and e["ret"]:
                cur[0].append(o)
                cur[1] += e["app"]
            elif cur and e["op"] == "finish" and e["ret"]:
                jobs.append((s, cur[0] + [o], cur[1] + e["app"]))
                cur = None
    jobs = jobs[:250 if cx.quick else 4000]

    def one(k):
        s, ops, want = jobs[k]
        x = Scenario("solo%d" % k, s.flags, s.match, s.dict, ops)
        fd, fn = tempfile.mkstemp(prefix="solo", dir=cx.scratch)
        with os.fdopen(fd, "w") as f:
            f.write(x.line()[1] + "\n")
        r = cx.run_driver(cx.exe[(flavour, "encscript")], [fn, "record", 1])
        os.unlink(fn)
        got = [w.partition(":")[2] for l in r[1].splitlines() if l.startswith("R ") for w in l.split(" ")[2:]]
        return r[0], "".join("" if g == "-" else g for g in got)
    for k, (rc, got) in enumerate(cx.pool.map(one, range(len(jobs)))):
        s, ops, want = jobs[k]
        if rc != 0 or got != bytes(want).hex():
            cx.violation("%s: an encoding in a history differs from the same encoding in a fresh process" % s.id,
                         "%s\n\nalone: %s\nhere: %s" % (s.line()[1][:30000], got[:4000], bytes(want).hex()[:4000]))
            break
    cx.traces += len(jobs)
    cx.count("encodings_compared_with_fresh_process", len(jobs))
    cx.log("%d encodings repeated alone" % len(jobs))


def json_large(rng, n, prefix):
    """Offsets and lengths with many digits, strings of some length."""
    res = []
    for i in range(n):
        dn = rng.choice([9990, 12000, 40000, 66000, 101000])
        dic = blob(rng, dn, "random", True)
        parts, have = [], 0
        for _ in range(rng.choice([2, 4, 7])):
            q = rng.random()
            m = rng.choice([40, 100, 999, 1000, 1001, 5000, 10001])
            if q < .5:
                m = min(m, dn)
                o = rng.choice([0, dn - m, rng.randrange(dn - m + 1)])
                parts.append(dic[o:o + m])
            elif q < .75 and have:
                t = b"".join(parts)
                o = rng.randrange(len(t))
                parts.append(t[o:o + m])
            else:
                parts.append(blob(rng, rng.choice([1, 17, 300, 3000]), rng.choice(["random", "run"]), True))
            have += len(parts[-1])
        t = b"".join(parts)
        k = rng.randrange(len(t) + 1)
        cs = [t] if rng.random() < .5 else [t[:k], t[k:]]
        res.append(Scenario("%s%d" % (prefix, i), 4 + rng.randrange(4), rng.randrange(2), dic, ["start"] + [("chunk", c) for c in cs] + ["finish"]))
    return res


# ---- what encoding takes ---------------------------------------------------------------------
def work(cx, deep=False):
    """The engine looks at a bounded number of blocks per position, and ends."""
    base = dict(B=2, Symbols="{0,1}", MaxProbes=1, MaxMatches=1, Out="FALSE")
    sizes = dict(MinDict=8, MaxDict=8, MinTarget=2, MaxTarget=5) if not deep else dict(MinDict=8, MaxDict=10, MinTarget=2, MaxTarget=8)
    for c in ("allmatches", "allprobes"):
        k = dict(base, Control='"%s"' % c, MinDict=10, MaxDict=10, MinTarget=2, MaxTarget=2)
        cx.tlc("MCEngine", k, spec="Spec", invariants=["WorkBounded"], expect="violation", name="MCEngine/" + c)
    inv = ["WorkBounded", "InRange", "Reproduces", "Allowed", "NoShort"]
    cx.tlc("MCEngine", dict(base, Control='"none"', **sizes), spec="Spec", invariants=inv, properties=["Progress", "Terminates"],
           name="MCEngine/work", timeout=3000)
    cx.tlc("MCEngine", dict(base, Control='"none"', MinDict=0, MaxDict=1, MinTarget=8, MaxTarget=8 if not deep else 11), spec="Spec",
           invariants=inv, properties=["Progress", "Terminates"], name="MCEngine/work in the target", timeout=3000)


def heavy(rng, mb=16):
    """Data that fills chains, matches without end, or comes in many small pieces."""
    n = mb << 20
    s = lambda: rng.randrange(1 << 30)
    res = [
        # every block of the dictionary is a candidate, none is good enough
        ("0 0 ~b:0:%d" % n, "start chunk:~z:%d:17:%d finish" % (s(), n // 4)),
        # ... all are good
        ("1 1 ~b:0:%d" % n, "start chunk:~b:0:%d finish" % n),
        ("2 1 ~b:0:%d" % n, "start chunk:~b:0:%d+b:1:1+b:0:%d finish" % (n // 2, n // 2)),
        # different blocks with the same hash value, in the dictionary and in the target
        ("0 0 ~c:%d:%d" % (s(), n // 16), "start chunk:~c:%d:%d finish" % (s(), n // 64)),
        ("3 1 ~r:%d:1000" % s(), "start chunk:~c:%d:%d finish" % (s(), n // 16)),
        # the target repeats blocks
        ("0 1 ~r:%d:100" % s(), "start chunk:~z:%d:32:%d finish" % (s(), n)),
        ("0 1 -", "start chunk:~b:7:%d finish" % n),
        ("4 1 ~a:1:%d" % (n // 4), "start chunk:~a:%d:%d finish" % (s(), n // 4)),
        # many small pieces
        ("0 0 ~r:%d:1000" % s(), "start rep:400000 chunk:~d:300:64+r:%d:3+d:0:90 finish start rep:400000 chunk:~d:100:64 finish" % s()),
        ("3 1 ~r:%d:1000" % s(), "start rep:300000 chunk:~d:300:64+r:%d:3+d:0:90+t:3:70 finish" % s()),
        ("4 1 ~a:%d:1000" % s(), "start rep:300000 chunk:~d:300:64+a:%d:3+d:0:90+t:3:70 finish" % s()),
        ("1 1 ~r:%d:%d" % (s(), n), "start rep:200000 chunk:~r:%d:40 rep:200000 chunk:~d:77:40 finish" % s()),
        ("0 0 ~r:%d:%d" % (s(), n), "start rep:100000 chunk:~r:%d:10 finish start rep:1000 chunk:~d:1000:3000 finish" % s()),
        ("2 1 ~r:%d:%d" % (s(), n), " ".join("whole:~d:%d:100" % rng.randrange(n - 100) for _ in range(400))),
    ]
    return [("H%d" % i, "H%d %s %s" % (i, a, b)) for i, (a, b) in enumerate(res)]


def memory(cx, lines, flavour):
    by = dict(lines)
    recs, left = {}, {}
    for l in cx.run_lines(flavour, "encmem", lines, solo_timeout=150):
        w = l.split(" ")
        if w[0] == "M":
            names = ["", ""] + [x for x in by[w[1]].split(" ")[4:] if not x.startswith("rep:")]
            recs[w[1]] = {"id": w[1], "kind": "enc", "ops": [[min(int(x), 2147483647) for x in r.split(":")] + [int(n.startswith("whole"))]
                                                             for n, r in zip(names, w[2:])]}
        if w[0] == "L":
            left[w[1]] = list(map(int, w[2:]))
    recs = [dict(r, left=left[i]) for i, r in recs.items() if i in left]
    decoder.judge_memory(cx, recs, lambda i: "encmem (%s)\n%s" % (flavour, by[i][:20000]))
    cx.log("memory (%s): %d encodings" % (flavour, len(recs)))


def memory_lines(rng, n, prefix, reps=(1, 1, 2, 50, 300)):
    """Many chunks, repeated encodings."""
    lines = []
    for i in range(n):
        dn = rng.choice([0, 1, 100, 5000, 70000, 1000000])
        style = rng.choice("rab")
        ops = []
        for _ in range(rng.choice([1, 2, 4])):
            ops.append("start")
            for _ in range(rng.choice([1, 2, 5])):
                ops += ["rep:%d" % rng.choice(reps), "chunk:" + expr(rng, dn, rng.choice([100, 3000]))]
            if rng.random() < .8:
                ops.append("finish")
        if rng.random() < .4:
            ops += ["whole:" + expr(rng, dn, 3000) for _ in range(rng.choice([1, 2, 6]))]
        sid = "%s%d" % (prefix, i)
        lines.append((sid, "%s %d %d %s %s" % (sid, rng.randrange(8) if style == "a" else rng.randrange(4), rng.randrange(2),
                                              "-" if not dn else "~%s:%d:%d" % (style, rng.randrange(128), dn), " ".join(ops))))
    return lines


def returns(cx, lines, flavour):
    """The calls return; demands and results recorded in the scripts are of no interest here."""
    strip = lambda l: " ".join(w for w in l.split(" ") if not w.startswith(("must:", "one:"))).replace("=0", "").replace("=1", "")
    cx.run_lines(flavour, "encscript", [(i, strip(l)) for i, l in lines], args=["none", cx.seed])
    cx.traces += len(lines)
    cx.log("encscript: %d scripts have returned (%s)" % (len(lines), flavour))


def compact_lines(rng, n, prefix):
    """Random data with pieces copied from it: long copies with other bytes around them."""
    res = []
    for i in range(n):
        dic = blob(rng, rng.choice([64, 100, 300, 1000]), "random")
        t = b""
        for _ in range(rng.choice([1, 2, 5])):
            k = rng.randint(0, len(dic) - 45)
            t += dic[k:k + rng.choice([40, 41, 47, 64, 100, 300])] + blob(rng, rng.choice([0, 1, 2, 17, 18, 40]), "random")
        if i < 20:
            t = dic[:50] + bytes([dic[50] ^ 1, 7])
        res.append(Scenario("%s%d" % (prefix, i), rng.choice([0, 1, 2, 3]), 0 if i < 20 else rng.randrange(2), dic, ["start", ("chunk", t), "finish"]))
    return res


def longest_scripts(rng, n, prefix):
    """A stretch that occurs completely in one place and in parts in others, all equally aligned: it has to be copied at once."""
    lines = []
    for i in range(n):
        N = rng.choice([48, 49, 63, 64, 80, 100, 333, 1000])
        x = blob(rng, N, "random")
        off = rng.randrange(16)                     # alignment of x
        in_target = rng.random() < .4
        parts = []
        for _ in range(rng.choice([1, 2, 5, 20, 50])):
            a = rng.choice([0, 0, rng.randrange(N - 31)])
            b = rng.choice([N, rng.randint(a + 32, N), rng.randint(a + 32, N)])
            if (a, b) != (0, N):
                parts.append((a, b))
        whole = None
        if not in_target:
            whole = rng.randint(0, len(parts))
            parts.insert(whole, (0, N))

        # what surrounds the places never agrees by chance
        fill = lambda k, lo: bytes(rng.randrange(lo, lo + 64) for _ in range(k))

        def lay(parts, start, lo):
            r = b""
            for a, b in parts:
                pad = (off + a - start - len(r) - 1) % 16 + 1 + 16 * rng.choice([0, 1, 2])
                r += fill(pad, lo) + x[a:b]
            return r + fill(rng.choice([0, 5, 40]), lo)
        d = lay(parts, 0, 192)
        t = fill(rng.choice([0, 1, 7, 40]), 64)
        if in_target:
            t += lay([(0, N)] if rng.random() < .5 else [(0, N)] + parts[:3], len(t), 64)
        t += fill(rng.choice([1, 2, 17, 30]), 0)
        p = len(t)
        t += x + fill(rng.choice([0, 1, 20]), 0)
        sid = "%s%d" % (prefix, i)
        lines.append((sid, "%s %d %d %s start one:%d:%d chunk:%s finish" % (sid, rng.randrange(4), 1 if in_target else rng.randrange(2), hexs(d), p, N, hexs(t))))
    return lines


def uninitialised(cx, rng, n):
    """Under memcheck: no decision depends on memory that was never written."""
    scs = whole_scenarios(rng, n, "v") + whole_scenarios(rng, n // 3, "vj", json_=True)
    cx.memcheck("fast", "encscript")
    returns(cx, lines_of(scs), "memcheck")


RSS = """
import os, sys
pid = os.posix_spawnp(sys.argv[1], sys.argv[1:], os.environ)
_, st, ru = os.wait4(pid, 0)
sys.stderr.write("RSS %d %d" % (st, ru.ru_maxrss))
"""


def run_memory(cx, mb):
    """The command-line encoder: as much memory for a large input as for a small one."""
    exe = cx.exe[("fast", "vcdiff")]
    d = os.path.join(cx.scratch, "rss")
    os.makedirs(d)
    rng = random.Random(5)
    piece = blob(rng, 4000, "text") * 250 + bytes(50000)
    dic = os.path.join(d, "dic")
    open(dic, "wb").write(piece[:3000])
    names = {}
    for n in (4, mb):
        names[n] = os.path.join(d, "in%d" % n)
        with open(names[n], "wb") as f:
            for i in range(n):
                f.write(piece[:1 << 20].ljust(1 << 20, b"x"))
    recs = []
    for k, flags in enumerate(([], ["-interleaved", "-checksum"], ["-json"], ["-target_matches"], ["-buffersize=100000", "-target_matches", "-interleaved"])):
        def rss(n):         # in a small process: the child of a large one starts with its size
            with open(names[n], "rb") as i, open("/dev/null", "wb") as o:
                try:
                    p = subprocess.run([sys.executable, "-S", "-c", RSS, "timeout", "300", exe, "encode", "-dictionary", dic] + flags,
                                       stdin=i, stdout=o, stderr=subprocess.PIPE, timeout=320)
                except subprocess.TimeoutExpired:
                    return 0
            w = p.stderr.decode("latin-1").split("RSS ")[-1].split()
            return int(w[1]) if p.returncode == 0 and w[0] == "0" else 0
        a, b = rss(4), rss(mb)
        if a and b:
            recs.append({"id": "run%d" % k, "kind": "run", "ops": [[a, b]], "left": [0, 0, 0], "flags": " ".join(flags)})
    shutil.rmtree(d)
    cx.validated("TraceMemory", recs, "runs", constants=dict(PerDict=8, PerChunk=16, Slack=262144),
                 describe=lambda i: "vcdiff encode: %s" % [r for r in recs if r["id"] == i])
    cx.count("runs", 2 * len(recs))
    cx.log("command-line encodings of %d MB: %s" % (mb, [r["ops"][0] for r in recs]))

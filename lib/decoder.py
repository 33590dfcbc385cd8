"""Decoder call histories: generated from MCHistory, and recorded ones validated by TraceDecoder."""
import json, random
from core import hexs, CheckBroken


# ---- histories enumerated by TLC -----------------------------------------------------------
def op_token(e):
    if e["op"] in ("start", "chunk"):
        return "%s:%s" % (e["op"], hexs(e["data"]))
    if e["op"] == "finish":
        return "finish"
    if e["op"] == "maxwin" and e["n"] < 0:
        return "maxwin:2147483648"
    return "%s:%d" % (e["op"], e["n"])


def histories(cx, name, calls, maxlen, epochs, flavour="rel", controls=(), settings_only=None):
    def run(ctl, **kw):
        return cx.tlc("MCHistory", dict(MaxLen=maxlen, MaxEpochs=epochs, Control='"%s"' % ctl,
                                        Calls="{%s}" % ",".join(map(str, calls))),
                      spec="Spec", invariants=["NothingLeft"], properties=["SettingsKept", "Refused"],
                      extra_cfg="VIEW View\n", name="MCHistory/%s%s" % (name, "" if ctl == "none" else "/" + ctl), **kw)
    for c in controls:
        run(c, expect="violation")
    r = run("none")
    al = list(r.prints("ALPHABET"))[0]
    toks = [None] + [op_token(e) for e in al["a"]]
    kinds = [None] + [e["op"] for e in al["a"]]

    def play(p, on):
        res = []
        for i, ret, app in p:
            k = kinds[i]
            refused = not on and k in ("chunk", "finish")
            if k == "start":
                on = True
            if k == "finish" or (k == "chunk" and not ret):
                on = False
            # nothing is said about what a call that fails in order has already delivered
            res.append("%%%d=%d:%s" % (i, ret, "*" if (k == "chunk" and not ret and not refused) else hexs(app)))
        return " ".join(res)

    head = []
    probes = {}
    for k, p in enumerate(r.prints("PROBE")):
        probes[(p["allow"], p["maxFile"], p["maxWin"])] = k
        head.append("MACRO p%d %s" % (k, play(p["res"], False)))
    # calls are abbreviated as well
    head = ["MACRO %d %s" % (i, t) for i, t in enumerate(toks) if t] + head
    lines = []
    for n, t in enumerate(r.prints("T")):
        last = t["p"][-1]
        pr = probes[(t["allow"], t["maxFile"], t["maxWin"])]
        if t["on"]:
            # an abandoned decoding: finish it first (its own result has been covered by another history)
            tail = "finish"
        else:
            tail = ""
        lines.append(("%s-%d" % (name, n), "%s-%d %s %s %%p%d" % (name, n, play(t["p"], False), tail, pr)))
    cx.count("histories_" + name, len(lines))
    return head, lines


def replay_histories(cx, *a, **kw):
    flavour = kw.get("flavour", "rel")
    head, lines = histories(cx, *a, **kw)
    cx.expect_lines(flavour, "decscript", lines, head, what="call histories")
    if len(cx.samples) < 6:
        cx.samples.append({"history with expected results": lines[len(lines) // 2][1]})
    # binding control: one expectation changed
    bad = lines[-1][1].replace("=1:", "=0:", 1)
    if bad != lines[-1][1] and not cx.violations:
        out = cx.run_lines(flavour, "decscript", [(lines[-1][0], bad)], head, ways=1)
        hit = any(l.startswith("BAD") for l in out)
        cx.controls.append({"control": "replay: one expected result inverted", "refuted": hit})
        if not hit:
            raise CheckBroken("the replay does not notice an inverted result")


# ---- recorded histories --------------------------------------------------------------------
def tok_event(tok, res):
    name, _, arg = tok.partition(":")
    ret, _, app = res.partition(":")
    e = {"op": name, "ret": ret == "1", "app": [] if app == "-" else list(bytes.fromhex(app))}
    b = lambda h: [] if h == "-" else list(bytes.fromhex(h))
    if name in ("start", "chunk"):
        e["data"] = b(arg)
    elif name in ("maxfile", "maxwin", "allow"):
        n = int(arg)
        e["n"] = n if n <= 2147483647 else (-1 if name == "maxwin" else 2147483647)
    elif name == "decode":
        d, _, x = arg.partition(":")
        e["dict"], e["data"] = b(d), b(x)
    return e


def record(cx, scripts, flavour):
    """scripts: list of (id, [tokens]); returns records for TraceDecoder."""
    lines = [(i, i + " " + " ".join(t)) for i, t in scripts]
    out = cx.run_lines(flavour, "decscript", lines)
    toks = dict(scripts)
    recs = []
    for l in out:
        if l.startswith("BAD "):
            cx.violation(l[4:400], l)
            continue
        w = l.split(" ")
        if w[0] != "R":
            continue
        recs.append({"id": w[1], "ev": [tok_event(t.lstrip("?"), r) for t, r in zip(toks[w[1]], w[2:]) if r != "skip"]})
    return recs


def check_recorded(cx, scripts, flavour, name, judge="exact", control=True):
    recs = record(cx, scripts, flavour)
    toks = dict(scripts)
    k = {"Judge": '"%s"' % judge}
    rej = cx.validated("TraceDecoder", recs, name, constants=k,
                       describe=lambda i: "decscript (%s)\n%s %s" % (flavour, i, " ".join(toks[i])))
    cx.count("recorded_" + name, len(recs))
    if recs and len(cx.samples) < 8:
        cx.samples.append({"recorded history": " ".join(toks[recs[0]["id"]])[:800]})
    if control and not rej and recs:
        # behaviour that was not observed must be refused
        for r in recs:
            x = json.loads(json.dumps(r))
            ends = [e for e in x["ev"] if e["op"] == "finish" and e["ret"] == (judge != "reject")]
            if judge == "returns":
                ends = [e for e in x["ev"] if e["op"] == "chunk"]
                if ends:
                    ends[-1]["app"] = [0] * 4000000
            if judge == "prompt":
                ends = [e for e in x["ev"] if e["op"] == "chunk" and not e["ret"]]
            if judge == "reject":
                # only one that had not been refused earlier
                ends = ends if all(e["ret"] for e in x["ev"] if e["op"] == "chunk") else []
            if not ends:
                continue
            if judge != "returns":
                ends[0]["ret"] = not ends[0]["ret"]
            hit = bool(cx.validate("TraceDecoder", [x], "control", workers=1, constants=k))
            cx.controls.append({"control": "TraceDecoder: one recorded result changed", "refuted": hit})
            if not hit:
                raise CheckBroken("TraceDecoder accepts a changed result")
            break
    return rej


# ---- random scripts ------------------------------------------------------------------------
def cut(rng, b):
    """A random chunking of b."""
    res, p = [], 0
    mx = rng.choice([2, 5, 20, 80, len(b) + 1])
    while p < len(b):
        k = rng.randint(0 if rng.random() < .2 else 1, mx)
        res.append(b[p:p + k])
        p += k
    if rng.random() < .2:
        res.append([])
    return res


def mutate(rng, d, others):
    d = list(d)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        if not d:
            d = [rng.randrange(256)]
        q = rng.randrange(9)
        k = rng.randrange(len(d))
        if q == 0:
            d[k] = rng.randrange(256)
        elif q == 1:
            d[k] ^= 1 << rng.randrange(8)
        elif q == 2:
            d[k] = rng.choice([0, 1, 127, 128, 129, 255, 254, 83, 2, 4, 5, 6, 7])
        elif q == 3:
            d[k:k] = [rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 5]))]
        elif q == 4:
            del d[k:k + rng.choice([1, 1, 2, 4, 16])]
        elif q == 5:
            d = d[:k]
        elif q == 6:
            o = rng.choice(others)
            if o:
                j = rng.randrange(len(o))
                d[k:] = o[j:]
        elif q == 7:
            # a large number in place of whatever is there
            d[k:k + 1] = rng.choice([[135, 255, 255, 255, 127], [136, 128, 128, 128, 0], [255] * 9 + [127], [128] * 5 + [1],
                                     [129, 0], [131, 255, 127]])
        else:
            j = rng.randrange(len(d))
            a, b = min(j, k), max(j, k)
            d[a:a] = d[a:b][:64]
    return d


def random_history(rng, cases, misuse):
    """A long sequence of calls on one object, mixing decodings of generated cases."""
    toks = []
    total = 0
    for _ in range(rng.randint(2, 6)):
        c = rng.choice(cases)
        if rng.random() < .3:
            toks.append("allow:%d" % rng.randrange(2))
        if rng.random() < .3:
            n = sum(c["sizes"]) if c["valid"] else 50
            toks.append("maxfile:%d" % rng.choice([0, max(0, n - 1), n, n + 1, 67108864, 100000, 4294967296]))
        if rng.random() < .3:
            n = max(c["sizes"] or [0]) if c["valid"] else 50
            toks.append("maxwin:%d" % rng.choice([max(0, n - 1), n, n + 1, 100000, 2147483647, 2147483648]))
        if misuse and rng.random() < .2:
            toks.append(rng.choice(["finish", "chunk:" + hexs(c["d"][:3]), "chunk:-"]))
        if rng.random() < .15:
            x = rng.choice(cases)
            toks.append("decode:%s:%s" % (hexs(x["dict"]), hexs(x["d"])))
        toks.append("start:" + hexs(c["dict"]))
        pieces = cut(rng, c["d"])
        if rng.random() < .3:
            pieces = pieces[:rng.randrange(len(pieces) + 1)]
        for p in pieces[:120]:
            toks.append("chunk:" + hexs(p))
            if misuse and rng.random() < .04:
                toks.append(rng.choice(["start:-", "allow:0", "allow:1", "finish"]))
            if rng.random() < .04:
                toks.append("maxfile:%d" % rng.choice([10, 60, 300, 67108864]))
            if rng.random() < .04:
                toks.append("maxwin:%d" % rng.choice([10, 60, 300, 67108864]))
        toks.append("finish")
    return toks


def limit_history(rng, cases):
    """Like random_history, in order only, with limits close to what is decoded, changed in between."""
    toks = []
    for _ in range(rng.randint(2, 5)):
        c = rng.choice(cases)
        near = [max(0, x + rng.choice([-1, 0, 1])) for x in c["sizes"]] or [5]
        tot = sum(c["sizes"])

        def limit():
            # (limits of 2^31 and more are no limit to these files)
            huge = rng.choice([1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 63]) + rng.choice([-1, 0, 1, rng.choice(near), max(0, tot - 1)])
            return rng.choice(["maxfile:%d" % rng.choice([tot, max(0, tot - 1), tot + 1, rng.choice(near), 67108864, huge, huge, (1 << 64) - 1, 0]),
                               "maxwin:%d" % rng.choice(near + [67108864, 2147483647, 2147483648, 4294967296, 0, 100000])])
        for _ in range(rng.randrange(3)):
            toks.append(limit())
        if rng.random() < .2:
            toks.append("allow:%d" % rng.randrange(2))
        toks.append("start:" + hexs(c["dict"]))
        pieces = cut(rng, c["d"])
        for p in pieces[:80]:
            toks.append("chunk:" + hexs(p))
            if rng.random() < .1:
                toks.append(limit())
        toks.append("?finish")
    # after a failed call no further calls of the same decoding: decided while running ("?")
    return toks


def fuzz_history(rng, cases, misuse):
    """Mutated files with small limits; in the default build calls after an error are left out ("?")."""
    toks = ["maxwin:%d" % rng.choice([100000, 100000, 1000, 70]), "maxfile:%d" % rng.choice([200000, 200000, 1500, 90]),
            "allow:%d" % rng.randrange(2)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = rng.choice(cases)
        d = mutate(rng, c["d"], [x["d"] for x in rng.sample(cases, 2)]) if rng.random() < .93 else c["d"]
        if not misuse:
            d = tame(d)
        dic = c["dict"] if rng.random() < .9 else rng.choice(cases)["dict"]
        if rng.random() < .1:
            toks.append("decode:%s:%s" % (hexs(dic), hexs(d)))
            continue
        toks.append("start:" + hexs(dic))
        for p in cut(rng, d)[:60]:
            toks.append("chunk:" + hexs(p))
            if misuse and rng.random() < .03:
                toks.append(rng.choice(["start:-", "allow:0", "finish", "chunk:ff"]))
        toks.append("?finish" if not misuse else "finish")
    return toks


def tame(d):
    """Out-of-range cache sizes end the process in the default build by design: keep them out."""
    if len(d) >= 5 and d[:3] == [214, 195, 196] and d[4] & 2:
        d = list(d)
        # single-byte sizes never exceed the range
        for k in (5, 6):
            if k < len(d):
                d[k] &= 63
    return d


def returns(cx, scripts, flavour):
    lines = [(i, "!" + i + " " + " ".join(t)) for i, t in scripts]
    out = cx.run_lines(flavour, "decscript", [(i, l) for i, l in lines])
    for l in out:
        if l.startswith("BAD "):
            cx.violation(l[4:400], l)
    cx.count("returned_" + flavour, len(scripts))
    cx.log("decscript (%s): %d histories returned" % (flavour, len(scripts)))


def uninitialised(cx, scripts):
    """Under memcheck: no decision depends on memory that was never written."""
    cx.memcheck("fastrel", "decscript")
    returns(cx, scripts, "memcheck")


# ---- totals beyond 32 bits -----------------------------------------------------------------
def wide_limits(cx, n):
    """Histories of MCLimits with a unit of 2^26 bytes."""
    depth = 6
    r = cx.tlc("MCLimits", dict(Depth=depth, Control='"none"'), spec="Spec", invariants=["Emit"], properties=["WithinLimit", "NotRefused"])
    for c in ("total32", "rest32"):
        cx.tlc("MCLimits", dict(Depth=depth, Control='"%s"' % c), spec="Spec", properties=["WithinLimit", "NotRefused"], expect="violation",
               name="MCLimits control " + c)
    U = 1 << 26
    hs = sorted(r.prints("HIST"), key=lambda h: json.dumps(h, sort_keys=True))
    rng = random.Random(cx.seed * 1000 + 66)
    # prefer those that end beyond 2^32, or at a limit that is
    rng.shuffle(hs)
    picked, seen = [h for h in hs if h[0]["op"] == "window"], {}
    hs = [h for h in hs if h[0]["op"] != "window"]
    n += len(picked)
    for h in hs:
        k = (h[0]["n"]["k"], h[0]["n"]["e"], h[2]["n"]["k"], h[-1]["op"], h[-1]["ret"])
        if seen.get(k, 0) < max(6, n // 20):
            seen[k] = seen.get(k, 0) + 1
            picked.append(h)
        if len(picked) >= n:
            break
    lines = []
    for i, h in enumerate(picked):
        val = lambda e: e["n"]["k"] if e["op"] == "burst" else e["n"]["k"] * U + e["n"]["e"]
        lines.append(("w%d" % i, "w%d " % i + " ".join("%s:%d=%d" % (e["op"], val(e), e["ret"]) for e in h)))
    cx.expect_lines("fast", "limits", lines, what="histories beyond 2^32 bytes (of %d)" % len(hs), timeout=700)


# ---- memory --------------------------------------------------------------------------------
def memory(cx, scripts, flavour):
    """What the decoder holds during a call is bounded by what it was given, the limits and what it has delivered
    (which target windows may refer to); nothing is left when it is destroyed."""
    by = dict(scripts)
    lines = [(i, i + " " + " ".join(t)) for i, t in scripts]
    recs, left = {}, {}
    for l in cx.run_lines(flavour, "memscript", lines):
        w = l.split(" ")
        if w[0] == "L":
            left[w[1]] = list(map(int, w[2:]))
        if w[0] != "M":
            continue
        ops = []
        mfile, mwin = 67108864, 67108864
        for tok, r in zip(by[w[1]], w[2:]):
            name, _, arg = tok.lstrip("?").partition(":")
            if name == "maxfile": mfile = int(arg)
            if name == "maxwin" and int(arg) <= 2147483647: mwin = int(arg)
            _, peak, n = map(int, r.split(":")) if r != "skip" else (0, 0, 0)
            ops.append([len(arg) // 2 if name in ("start", "chunk") else 0, min(mfile, mwin, 134217728), min(peak, 2147483647), n])
        recs[w[1]] = {"id": w[1], "kind": "dec", "ops": ops}
    recs = [dict(r, left=left[i]) for i, r in recs.items() if i in left]
    judge_memory(cx, recs, lambda i: "memscript (%s)\n%s" % (flavour, " ".join(by[i])))
    cx.log("memory (%s): %d histories" % (flavour, len(recs)))


def judge_memory(cx, recs, describe):
    k = dict(PerDict=8, PerChunk=16, Slack=262144)
    cx.validated("TraceMemory", recs, "memory", constants=k, describe=describe)
    if recs:
        x = json.loads(json.dumps(recs[-1]))
        x["id"], x["left"] = "control", [100, 100, 100]
        y = json.loads(json.dumps(recs[-1]))
        y["id"] = "control2"
        y["ops"][-1][3 if x["kind"] == "enc" else 2] = 2000000000
        if x["kind"] == "dec":
            y["ops"] = [[a, min(b, 1000), c, d] for a, b, c, d in y["ops"]]
        hit = len(cx.validate("TraceMemory", [x, y], "control", workers=1, constants=k)) == 2
        cx.controls.append({"control": "TraceMemory: recorded memory altered", "refuted": hit})
        if not hit:
            raise CheckBroken("TraceMemory accepts altered records")


# ---- streaming -----------------------------------------------------------------------------
def _v(n):
    from cache import varint
    return varint(n)


def stream_window(rng, shape, size, dic, of):
    """A window of two units of delta: (first, second, target size).  Interleaved ones give half of their target with the first."""
    half = size // 2
    parts = []
    for _ in range(2):
        k = rng.choice(of if dic >= half else of.replace("c", ""))
        if k == "r":
            parts.append((b"\0" + _v(half), bytes([rng.randrange(256)]), b""))
        elif k == "a":
            parts.append((b"\1" + _v(half), bytes(rng.randrange(256) for _ in range(16)) * (half // 16) + bytes(half % 16), b""))
        elif k == "c":
            parts.append((b"\x13" + _v(half), b"", _v(rng.randint(0, dic - half))))
        else:                                       # one byte, copied on
            parts.append((b"\2\x13" + _v(half - 1), b"m", None))
    here = dic
    done = []
    for inst, data, addr in parts:
        done.append((inst, data, _v(here) if addr is None else addr))
        here += half
    head = b"\1" + _v(dic) + b"\0" if dic else b"\0"
    if shape == "inter":
        chunks = []
        for inst, data, addr in done:
            x = inst + data + addr if inst[0] != 2 else inst[:1] + data + inst[1:] + addr
            chunks.append(x)
        body = _v(2 * half) + b"\0" + b"\0" + _v(sum(map(len, chunks))) + b"\0"
        n = len(body) + sum(map(len, chunks))
        return head + _v(n) + body + chunks[0], chunks[1], 2 * half
    inst, data, addr = (b"".join(d[i] for d in done) for i in (0, 1, 2))
    body = _v(2 * half) + b"\0" + _v(len(data)) + _v(len(inst)) + _v(len(addr)) + data + inst + addr
    w = head + _v(len(body)) + body
    cut = rng.choice([1, len(w) // 2, len(w) - 1, rng.randint(1, len(w) - 1)])
    return w[:cut], w[cut:], 2 * half


def stream(cx, n):
    """Long streams, chunked as MCStream's histories have it: what is held does not grow."""
    k = dict(MaxUnits=6, MaxChunk=6, Size=4, Control='"none"')
    inv = ["Delivered", "OneWindow", "AllThere", "PendingBounded"]
    r = cx.tlc("MCStream", k, spec="Spec", invariants=inv + ["Emit"])
    for c in ("neverdrop", "alwaysdrop", "keepdelta"):
        cx.tlc("MCStream", dict(k, Control='"%s"' % c), spec="Spec", invariants=inv, expect="violation", name="MCStream control " + c)
    hs = sorted(r.prints("HIST"), key=lambda h: json.dumps(h, sort_keys=True))
    rng = random.Random(cx.seed * 1000 + 23)
    quiet = [h for h in hs if not h["allow"]]
    free = [h for h in hs if h["allow"]]
    scripts, meta = [], {}
    for i in range(n):
        h = rng.choice(quiet)
        size = rng.choice([2000, 20000, 20000, 50000, 150000])
        dic = rng.choice([0, 0, 100, size])
        reps = max(4, min(400, (2 * (200000 + 8 * size) + 6000000) // (3 * size)))
        if i % 4 == 3:                              # everything in a few large chunks
            group = reps
        else:
            group = 1
        # (a large chunk takes memory itself: no literals then)
        kinds = [stream_window(rng, h["shape"], size, dic, "racm" if group == 1 else "rcm") for _ in range(3)]
        units = [u for w in kinds for u in w[:2]]
        ops = ["allow:0", "maxfile:4000000000", "start:" + ((b"d" * dic).hex() or "-")]
        first = b"\xd6\xc3\xc4" + (b"S" if h["shape"] == "inter" else b"\0") + b"\0"
        chunks, u = [], 0
        for _ in range(reps):
            for c in h["chunks"]:
                chunks.append(b"".join(units[(u + j) % len(units)] for j in range(c)))
                u += c
        if group > 1:
            chunks = [b"".join(chunks)] if rng.random() < .6 else [b"".join(chunks[:len(chunks) // 2]), b"".join(chunks[len(chunks) // 2:])]
        chunks[0] = first + chunks[0]
        ops += ["chunk:" + (c.hex() or "-") for c in chunks] + ["finish"]
        if rng.random() < .3:                       # again on the same object
            ops += ops[2:]
        sid = "s%d" % i
        scripts.append((sid, ops))
        meta[sid] = (max(w[2] for w in kinds), max(len(w[0] + w[1]) for w in kinds) + 10, u // 2 * size)
    by = dict(scripts)
    recs, left, total = {}, {}, 0
    for l in cx.run_lines("fastrel", "memscript", [(i, i + " " + " ".join(t)) for i, t in scripts]):
        w = l.split(" ")
        if w[0] == "L":
            left[w[1]] = list(map(int, w[2:]))
        if w[0] != "M":
            continue
        ops = []
        for tok, x in zip(by[w[1]], w[2:]):
            name, _, arg = tok.partition(":")
            _, peak, got = map(int, x.split(":"))
            total += got
            ops.append([len(arg) // 2 if name in ("start", "chunk") else 0, 0, min(peak, 2147483647), min(got, 2147483647)])
        recs[w[1]] = {"id": w[1], "kind": "stream", "ops": ops, "window": meta[w[1]][0], "delta": meta[w[1]][1]}
    recs = [dict(x, left=left[i]) for i, x in recs.items() if i in left]
    judge_memory(cx, recs, lambda i: "memscript (fastrel)\n%s" % " ".join(by[i])[:20000])
    cx.count("streamed_MB", total >> 20)
    cx.log("streams: %d, %d MB of target" % (len(recs), total >> 20))

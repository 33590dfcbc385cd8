"""Programs of GenScale under morphisms with blocks of up to megabytes."""
import random, zlib
from cache import varint
from core import CheckBroken

ADD, RUN, COPY = 1, 2, 3


class Morphism:
    """Letter -> block.  A block is given by its length and what it is made of; texts are lists of tokens of the replay driver."""
    def __init__(self, blocks):
        self.blocks = blocks            # per letter: (length, token, bytes or None)

    def width(self, s):
        return sum(self.blocks[l][0] for l in s)

    def text(self, s):
        return [self.blocks[l][1] for l in s]


def small(blocks):
    return Morphism([(len(b), "x" + bytes(b).hex(), bytes(b)) for b in blocks])


def vast(rng, p, cap):
    """Widths such that target and dictionary stay below cap bytes."""
    count = [max(1, p["out"].count(l) + p["dict"].count(l)) for l in range(6)]
    ws = []
    for l in range(6):
        mx = max(1, cap // 3 // count[l])
        k = rng.randrange(4)
        if k == 0:
            w = rng.randint(1, 300)
        elif k == 1:
            w = (1 << rng.randint(3, 26)) + rng.choice([-1, 0, 0, 1])
        else:
            w = int(2 ** rng.uniform(6, 26))
        ws.append(max(1, min(w, mx)))
    res = []
    for l, w in enumerate(ws):
        if l < 2:
            b = rng.choice([0, 255, rng.randrange(256)])
            res.append((w, "r%d:%d" % (w, b), bytes([b])))
        else:
            res.append((w, "b%d:%d" % (w, rng.randrange(1 << 40)), None))
    return Morphism(res)


def literal(b):
    return ["x" + bytes(b).hex()] if b else []


def size(h, toks):
    n = 0
    for t in toks:
        n += (len(t) - 1) // 2 if t[0] == "x" else int(t[1:].split(":")[0]) if t[0] in "rb" else 5
    return n


def write(p, h):
    """The delta file: tokens, positions at which data has been delivered, positions at which it is complete.  Mirrors GenScale!File."""
    toks = literal([0xd6, 0xc3, 0xc4, 0x53 if p["ext"] else 0, 0])
    pos, got = 5, 0
    out, steps, comp, sizes = [], [], [0, 5], []
    for k, w in enumerate(p["wins"]):
        mu = p["mu"] if k + 1 == p["mw"] else "none"
        frm = out if w["src"] == 2 else p["dict"]
        seg = frm[w["pos"]:w["pos"] + w["len"]] if w["src"] else []
        win, near, nxt, same = [], [0] * 4, 0, {}
        I, D, A, marks = [], [], [], []
        copied = False
        for j, i in enumerate(w["insts"]):
            last = j == len(w["insts"]) - 1
            more = 1 if mu == "long" and last else 0
            whole = seg + win
            data, addr = [], []
            if i["k"] == ADD:
                inst = b"\1" + varint(h.width(i["w"]) + more)
                data = h.text(i["w"]) + (["x07"] if more else [])
                prod = i["w"]
            elif i["k"] == RUN:
                inst = b"\0" + varint(i["n"] * h.blocks[i["w"][0]][0] + more)
                data = literal(h.blocks[i["w"][0]][2][:1])
                prod = [i["w"][0]] * i["n"]
            else:
                here = h.width(whole)
                if mu == "addr" and not copied:
                    a, mode, b = here, 0, varint(here)
                else:
                    a = h.width(whole[:i["a"]])
                    mode, b = 0, varint(a)
                    f = i["pref"]
                    if f == 1:
                        mode, b = 1, varint(here - a)
                    elif 2 <= f <= 5 and near[f - 2] <= a:
                        mode, b = f, varint(a - near[f - 2])
                    elif f >= 6 and same.get(a % 768, 0) == a:
                        mode, b = 6 + a % 768 // 256, bytes([a % 256])
                copied = True
                near[nxt] = a
                nxt = (nxt + 1) % 4
                same[a % 768] = a
                inst = bytes([19 + 16 * mode]) + varint(h.width(i["w"]) + more)
                addr = literal(b)
                prod = i["w"]
            win = win + prod
            if w["inter"]:
                I += literal(inst) + data + addr
                marks.append((size(h, I), h.width(win)))
            else:
                I += literal(inst)
                D += data
                A += addr
        if mu == "rest":
            if w["inter"]:
                I.append("x07")
            else:
                D.append("x07")
        tl = h.width(win)
        sizes.append(tl)
        decl = tl + {"more": 1, "less": -1}.get(mu, 0)
        head = literal(varint(decl) + b"\0" + varint(size(h, D)) + varint(size(h, I)) + varint(size(h, A)))
        if w["ck"]:
            head.append("a%d:%d:%d" % (got, got + tl, 65536 if mu == "ck" else 0))
        body = head + D + I + A
        n = size(h, body)
        ind = bytes([w["src"] + (4 if w["ck"] else 0)])
        if w["src"]:
            ln = h.width(frm[w["pos"]:]) + 1 if mu == "seg" else h.width(seg)
            ind += varint(ln) + varint(h.width(frm[:w["pos"]]))
        ind += varint(n)
        toks += literal(ind) + body
        start = pos + len(ind) + size(h, head)
        if w["inter"]:
            steps += [(start + a, got + b) for a, b in marks if b]
        pos += len(ind) + n
        got += tl
        if not w["inter"]:
            steps.append((pos, got))
        comp.append(pos)
        out = out + win
    if p["mu"] == "cut":
        t = toks[-1]
        if t[0] == "x":
            toks[-1] = t[:-2]
            toks = [t for t in toks if t != "x"]
        else:
            toks.append("cut")
    return toks, pos, steps, comp, sizes


def expand(toks, out):
    r = b""
    for t in toks:
        if t[0] == "x":
            r += bytes.fromhex(t[1:])
        elif t[0] == "a":
            a, b, d = map(int, t[1:].split(":"))
            v = (zlib.adler32(out[a:b], 0) + d) % (1 << 32)
            r += bytes([128 | v >> 28, 128 | v >> 21 & 127, 128 | v >> 14 & 127, 128 | v >> 7 & 127, v & 127])
        elif t == "cut":
            r = r[:-1]
    return r


def programs(cx, first, last):
    """Programs from the specification; the writer here is compared with the specification's."""
    r = cx.tlc("GenScale", dict(Seed=cx.seed, From=first, To=last, Control='"none"'), invariants=["Commutes"], name="GenScale")
    if first == 1:
        cx.tlc("GenScale", dict(Seed=1, From=1, To=100, Control='"shift"'), invariants=["Commutes"], expect="violation", name="GenScale control shift")
    ps = sorted(r.prints("CASE"), key=lambda p: p["id"])
    if len(ps) != last - first + 1:
        raise CheckBroken("GenScale produced %d programs" % len(ps))
    h1 = small([[9], [5] * 3, [1, 2], [3], [4, 6, 8, 10], [250, 0, 7]])
    h2 = small([[0] * 31, [255] * 130, [1, 2], [i * i % 256 for i in range(1, 71)], [99 + i for i in range(1, 18)], [77]])
    for p in ps:
        for h, f in ((h1, "f1"), (h2, "f2")):
            out = b"".join(h.blocks[l][2] for l in p["out"])
            if expand(write(p, h)[0], out) != bytes(p[f]):
                raise CheckBroken("program %d is written differently" % p["id"])
    return ps


def cases(cx, n, cap=16000000, valid=None, times=1, limits=False):
    """Cases for the replay driver.  valid: only those (or only the others)."""
    res, at = [], 1
    rng = random.Random(cx.seed * 1000 + 77)
    while len(res) < n:
        step = max(60, 3 * n)
        for p in programs(cx, at, at + step - 1):
            if valid is not None and (p["mu"] == "none") != valid:
                continue
            for t in range(times):
                if len(res) >= n:
                    break
                h = vast(rng, p, rng.choice([200000, 2000000, 2000000, cap, cap, cap, 60000000]))
                toks, L, steps, comp, sizes = write(p, h)
                ok = p["mu"] == "none"
                e = lambda x: "=" + ",".join(x) if x else "-"
                j = lambda xs: ",".join(xs) or "-"
                key = "scale-%d.%d" % (p["id"], t)
                mf, mw, good = 67108864, 67108864, ok
                if limits and ok:
                    mf = rng.choice([sum(sizes), sum(sizes) - 1, sum(sizes) + 1, 67108864])
                    mw = rng.choice([max(sizes), max(sizes) - 1, max(sizes) + 1, 67108864])
                    good = sum(sizes) <= mf and max(sizes) <= mw
                res.append({"key": key, "fam": "scale", "id": p["id"], "valid": good, "size": L,
                            "line": " ".join([key, e(h.text(p["dict"])), e(toks), "1" if p["allow"] else "0", str(mf), str(mw),
                                              "1" if good else "0", e(h.text(p["out"])), "0", "0",
                                              j("%d:%d" % s for s in steps), j(map(str, comp)) if ok else "-", j(map(str, sizes))])})
        at += step
    return res

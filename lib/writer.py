"""The code table writer and the address cache."""
import json, random
from core import hexs, CheckBroken

ADD, RUN, COPY = 1, 2, 3


def entry_table(entries):
    """256 entries (i1, s1, m1, i2, s2, m2) -> 1536 bytes in file order."""
    return bytes(e[k] for k in (0, 3, 1, 4, 2, 5) for e in entries)


def default_entries():
    es = []
    for op in range(256):
        if op == 0: e = (RUN, 0, 0, 0, 0, 0)
        elif op <= 18: e = (ADD, op - 1, 0, 0, 0, 0)
        elif op <= 162:
            m, k = divmod(op - 19, 16)
            e = (COPY, 0 if k == 0 else k + 3, m, 0, 0, 0)
        elif op <= 234:
            k = op - 163
            e = (ADD, (k % 12) // 3 + 1, 0, COPY, k % 3 + 4, k // 12)
        elif op <= 246:
            k = op - 235
            e = (ADD, k % 4 + 1, 0, COPY, 4, k // 4 + 6)
        else: e = (COPY, 4, op - 247, ADD, 1, 0)
        es.append(e)
    return es


def random_table(rng, near, same):
    mm = near + same + 1
    es = [(RUN, 0, 0, 0, 0, 0), (ADD, 0, 0, 0, 0, 0)] + [(COPY, 0, m, 0, 0, 0) for m in range(mm + 1)]
    style = rng.randrange(5)
    singles = []
    while len(es) < 256:
        def one(none):
            i = rng.choice([ADD, RUN, COPY, COPY] + ([0] * none))
            s = 0 if i == 0 else rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 17, 18, 32, 33] + ([200, 254, 255] if style in (1, 4) else []))
            return (i, s, rng.randrange(min(mm + 1, 9) if rng.random() < .7 else mm + 1) if i == COPY else 0)
        if style == 0:
            a, b = one(0), (0, 0, 0)
        elif style == 2 and singles and rng.random() < .6:
            # combinations of what exists
            a, b = rng.choice(singles), rng.choice(singles)
        elif style == 3:
            # first sizes small, second sizes not
            a, b = one(1), one(1)
            a = (a[0], min(a[1], 3), a[2])
            if b[0] and rng.random() < .4:
                a, b = (0, 0, 0), (b[0], rng.choice([0, 4, 40, 199]), b[2])
        else:
            a, b = one(1), one(3)
        if b == (0, 0, 0):
            singles.append(a)
        es.append(a + b)
    if rng.random() < .8:
        rng.shuffle(es)
    return entry_table(es)


CACHES = [(4, 3), (4, 3), (0, 0), (1, 0), (0, 1), (2, 2), (1, 5), (9, 1), (30, 20), (252, 1), (1, 252), (127, 127), (0, 253), (253, 0), (254, 0), (0, 254)]


class WScript:
    def __init__(self, wid, inter, near, same, tname, dic, ops):
        self.id, self.inter, self.near, self.same, self.tname, self.dict, self.ops = wid, inter, near, same, tname, dic, ops

    def line(self):
        return (self.id, " ".join([self.id, str(self.inter), str(self.near), str(self.same), self.tname, hexs(self.dict)] + self.ops))

    def windows(self):
        """[(requests, checksum)] per output; a checksum "*" is resolved by simulation."""
        res, cur, ck = [], [], None
        for o in self.ops:
            f = o.split(":")
            if f[0] == "a": cur.append([ADD, [] if f[1] == "-" else list(bytes.fromhex(f[1]))])
            elif f[0] == "r": cur.append([RUN, int(f[1]), int(f[2])])
            elif f[0] == "c": cur.append([COPY, int(f[1]), int(f[2])])
            elif f[0] == "k": ck = f[1]
            elif f[0] == "i": cur, ck = [], None
            elif f[0] == "o":
                if ck == "*":
                    w = bytearray()
                    for r in cur:
                        effect(self.dict, w, r)
                    a = b = 0
                    for c in w:
                        a = (a + c) % 65521
                        b = (b + a) % 65521
                    ck = b * 65536 + a
                res.append((cur, [] if ck is None else [int(ck) >> 16, int(ck) & 65535]))
                cur, ck = [], None
        return res


def effect(dic, w, r):
    if r[0] == ADD: w += bytes(r[1])
    elif r[0] == RUN: w += bytes([r[2]]) * r[1]
    else:
        for i in range(r[2]):
            x = r[1] + i
            w.append(dic[x] if x < len(dic) else w[x - len(dic)])


SIZES = [1, 1, 2, 3, 4, 4, 5, 6, 7, 16, 17, 18, 19, 20, 32, 33, 40, 127, 128, 200, 254, 255, 256, 300]


def requests(rng, dic, n, sizes=SIZES, zero=True, kinds="aarccccc", top=256, cross=True):
    ops, w, seen = [], 0, []
    for _ in range(n):
        k = rng.choice(kinds)
        s = 0 if zero and rng.random() < .03 else rng.choice(sizes)
        here = len(dic) + w
        if k == "c" and here == 0:
            k = "a"
        if k == "a": ops.append("a:" + hexs(bytes(rng.randrange(top) for _ in range(s))))
        elif k == "r": ops.append("r:%d:%d" % (s, rng.randrange(top)))
        else:
            q = rng.random()
            # addresses met before, close to them, close to here, the same slot of the same cache
            if q < .3 and seen: a = rng.choice(seen)
            elif q < .5 and seen: a = rng.choice(seen) + rng.choice([1, 3, 100, 127, 128, 256, 768])
            elif q < .6: a = here - 1 - rng.randrange(min(here, 200))
            elif q < .7: a = rng.randrange(min(here, 130))
            else: a = rng.randrange(here)
            a = max(0, min(here - 1, a))
            seen.append(a)
            if not cross and a < len(dic):
                s = min(s, len(dic) - a)
            ops.append("c:%d:%d" % (a, s))
        w += s
    return ops


def script(rng, wid, tables, long=False, copies=False):
    kinds = "acccccccccc" if copies else "aarccccc"
    tname, near, same = rng.choice(tables)
    dic = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 100, 300, 900] if not long else [3000, 20000])))
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .1:
            # something abandoned
            ops += requests(rng, dic, 2) + (["k:77"] if rng.random() < .5 else []) + ["i"]
        rs = requests(rng, dic, rng.choice([0, 1, 2, 3, 5, 9, 20] if not long else [30, 80]), kinds=kinds)
        if rng.random() < .5:
            k = "k:" + rng.choice(["*", "*", "0", "1", "4294967295", "2147483648", "2147483647", "127", "128", "268435456", str(rng.randrange(1 << 32))])
            rs.insert(rng.choice([0, len(rs)]), k)
        ops += rs + ["o"]
    return WScript(wid, rng.randrange(2), near, same, tname, dic, ops)


EDGES = [127, 128, 255, 256, 16383, 16384, 65535, 65536, 70000, 2097151, 2097152]


class Lines:
    """A script given by its text."""
    def __init__(self, wid, text):
        self.id, self.text = wid, text

    def line(self):
        return (self.id, self.id + " " + self.text)


def big_script(rng, wid, tables):
    """Beyond what one or two bytes can count: many requests in a window, large sizes, far addresses."""
    tname, near, same = rng.choice(tables)
    dlen = rng.choice([0, 100, 65536, 200000, (1 << 21) + 5])
    kind = rng.choice(["many", "many", "large"])
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        w, seen = 0, []
        for k in range(rng.choice([3000, 12000, 25000]) if kind == "many" else rng.choice([4, 12])):
            here = dlen + w
            s = rng.choice(SIZES if kind == "many" else EDGES)
            q = rng.choice("Aarccccc")
            if q == "c" and here == 0:
                q = "a"
            if q in "aA": ops.append("A:%d:%d" % (rng.randrange(1 << 30), s))
            elif q == "r": ops.append("r:%d:%d" % (s, rng.randrange(256)))
            else:
                z = rng.random()
                if z < .3 and seen: a = rng.choice(seen[-20:])
                elif z < .5 and seen: a = rng.choice(seen[-20:]) + rng.choice([1, 100, 127, 128, 256, 16384])
                elif z < .65: a = here - rng.choice([1, 2, 127, 128, 129, 16383, 16384, 65536])
                elif z < .8: a = rng.choice([0, 127, 128, 16383, 16384, 65535, 65536, 2097151, 2097152])
                else: a = rng.randrange(here)
                a = max(0, min(here - 1, a))
                seen.append(a)
                ops.append("c:%d:%d" % (a, s))
            w += s
        if rng.random() < .5:
            ops.append("k:*")
        ops.append("o")
    return Lines(wid, " ".join(["%d" % rng.randrange(2), str(near), str(same), tname, "~%d:%d" % (rng.randrange(1 << 30), dlen)] + ops))


def pair_scripts(rng, prefix, tname, near, same, dic):
    """Every request behind every other, many sizes."""
    res = []
    reqs = []
    for s in list(range(1, 20)) + [255, 256]:
        reqs.append(("a", s))
        reqs.append(("r", s))
        for m in range(4):
            reqs.append(("c%d" % m, s))
    # a path through all pairs would be long: random pairings, several rounds
    for rnd in range(6):
        rng.shuffle(reqs)
        ops, w, prev = [], 0, 7
        for k, s in reqs:
            here = len(dic) + w
            if k == "a": ops.append("a:" + hexs(bytes(rng.randrange(256) for _ in range(s))))
            elif k == "r": ops.append("r:%d:%d" % (s, rng.randrange(256)))
            else:
                a = {"c0": rng.randrange(50), "c1": here - 1 - rng.randrange(20), "c2": prev + rng.randrange(60), "c3": prev}[k]
                a = max(0, min(here - 1, a))
                prev = a
                ops.append("c:%d:%d" % (a, s))
            w += s
            if rng.random() < .05:
                ops.append("o")
                w = 0
        res.append(WScript("%s%s-%d" % (prefix, tname, rnd), rnd % 2, near, same, tname, dic, ops + ["o"]))
    return res


def record(cx, ss, tables, flavour="dbg"):
    head = ["TABLE %s %s" % (n, hexs(t)) for n, t in tables.items()]
    by = {s.id: s for s in ss}
    recs = []
    for l in cx.run_lines(flavour, "writer", [s.line() for s in ss], head, ["record"]):
        w = l.split(" ")
        if l.startswith("BAD "):
            cx.violation(l[4:], by[w[1]].line()[1])
        if w[0] != "R":
            continue
        s = by[w[1]]
        recs.append({"id": s.id, "inter": bool(s.inter), "near": s.near, "same": s.same,
                     "tab": list(tables[s.tname]) if s.tname in tables else [], "dict": list(s.dict),
                     "ws": [{"reqs": r, "ck": c, "app": [] if a == "-" else list(bytes.fromhex(a))}
                            for (r, c), a in zip(s.windows(), w[2:])]})
    cx.count("writer_scripts_recorded", len(recs))
    return recs


def judge(cx, ss, tables, name, flavour="dbg", control=True):
    by = {s.id: s for s in ss}
    recs = record(cx, ss, tables, flavour)
    rej = cx.validated("TraceWriter", recs, name, describe=lambda i: "writer (%s)\n%s\n%s" % (
        flavour, by[i].line()[1], "TABLE %s %s" % (by[i].tname, hexs(tables[by[i].tname])) if by[i].tname in tables else ""))
    if any("fault of the check" in r["why"] for r in rej):
        raise CheckBroken("invalid table generated")
    if recs and len(cx.samples) < 8:
        cx.samples.append({"writer requests": by[recs[0]["id"]].line()[1][:600]})
    if control and not rej:
        for what in ("data", "ck"):
            for r in recs:
                x = json.loads(json.dumps(r))
                w = x["ws"][-1]
                if not w["app"]:
                    continue
                if what == "data" and w["reqs"][0][0] == ADD and w["reqs"][0][1]:
                    w["reqs"][0][1][0] ^= 1
                elif what == "ck" and w["ck"]:
                    w["ck"] = []
                else:
                    continue
                hit = bool(cx.validate("TraceWriter", [x], "control", workers=1))
                cx.controls.append({"control": "TraceWriter: other " + what, "refuted": hit})
                if not hit:
                    raise CheckBroken("TraceWriter accepts other " + what)
                break
    return rej


def native(cx, ss, tables, flavour="dbg"):
    head = ["TABLE %s %s" % (n, hexs(t)) for n, t in tables.items()]
    return cx.expect_lines(flavour, "writer", [s.line() for s in ss], head, ["round"], what="writer scripts")


def tables(rng, n):
    res, names = {}, []
    for i in range(n):
        near, same = rng.choice(CACHES)
        if near + same + 4 > 256:
            near, same = 4, 3
        name = "t%d" % i
        res[name] = random_table(rng, near, same)
        names.append((name, near, same))
    return res, names


def json_script(rng, wid):
    """For the JSON writer: 7-bit data, several windows of one document; like the encoder, no copy spans the
    end of the dictionary (C13), which JSON could not express from the second window on."""
    dic = bytes(rng.randrange(128) for _ in range(rng.choice([0, 1, 10, 100, 300])))
    ops = requests(rng, dic, 2, top=128, cross=False) + ["i"] if rng.random() < .2 else []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops += requests(rng, dic, rng.choice([1, 1, 2, 3, 5, 9]), top=128, cross=False, sizes=[1, 1, 2, 3, 5, 17, 40, 128, 300]) + ["o"]
    return WScript(wid, 0, 4, 3, "json", dic, ops)


def judge_json(cx, ss, flavour="dbg"):
    by = {s.id: s for s in ss}
    recs = []
    for l in cx.run_lines(flavour, "writer", [s.line() for s in ss], [], ["record"]):
        w = l.split(" ")
        if l.startswith("BAD "):
            cx.violation(l[4:], by[w[1]].line()[1])
        if w[0] == "R":
            recs.append({"id": w[1], "dict": list(by[w[1]].dict), "ws": [r for r, _ in by[w[1]].windows()],
                         "text": list(bytes.fromhex("".join(a for a in w[2:] if a != "-")))})
    cx.count("json_writer_scripts_recorded", len(recs))
    rej = cx.validated("TraceJsonWriter", recs, "requests", describe=lambda i: "writer (%s)\n%s" % (flavour, by[i].line()[1]))
    if recs and not rej:
        x = json.loads(json.dumps(recs[0]))
        x["text"] = x["text"][:-1]
        hit = bool(cx.validate("TraceJsonWriter", [x], "control", workers=1))
        cx.controls.append({"control": "TraceJsonWriter: closing bracket missing", "refuted": hit})
        if not hit:
            raise CheckBroken("TraceJsonWriter accepts truncated text")
    return rej

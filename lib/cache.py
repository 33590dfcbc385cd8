"""Address caches."""
import random
from core import hexs, CheckBroken


def varint(v):
    r = [v & 127]
    v >>= 7
    while v:
        r.insert(0, 128 | (v & 127))
        v >>= 7
    return bytes(r)


def model(cx, sizes, depth, windows, maxhere, block=2):
    """Exhaustive: any choice of modes.  Then all shorter histories, to be replayed with real block sizes."""
    lines = []
    for near, same in sizes:
        base = dict(Near=near, Same=same, Block=block, MaxHere=maxhere, Windows=windows, Control='"none"')
        ov = "CONSTANT SameBlock <- SmallBlock\n"
        cx.tlc("MCCache", dict(base, Depth=depth, Keep="FALSE"), spec="Spec", invariants=["Agree", "InStep"], extra_cfg=ov,
               name="MCCache %d,%d" % (near, same))
        r = cx.tlc("MCCache", dict(base, Depth=2 if maxhere > 4 else 3, Windows=1, Keep="TRUE"), spec="Spec", invariants=["Agree", "Emit"],
                   extra_cfg=ov, name="MCCache histories %d,%d" % (near, same))
        k = 0
        # the addresses with the same collisions among real same blocks
        big = lambda a: a if not same else (a // (same * block)) * same * 256 + (a % (same * block)) // block * 256 + (a % block)
        for h in r.prints("HIST"):
            k += 1
            e, d = [], []
            for st in h:
                if st[0] == -1:
                    e.append("i"); d.append("i")
                    continue
                a, here, mode, v = st
                A, H = big(a), big(here - 1) + 1
                e.append("e:%d:%d" % (A, H))
                # the decoding side, told in this mode
                if mode == 0: b = varint(A)
                elif mode == 1: b = varint(H - A)
                elif mode < 2 + near:
                    # the difference between the real addresses: v = a - near
                    b = varint(A - big(a - v))
                else: b = bytes([A % 256])
                d.append("d:%d:%s:%d=%d" % (mode, hexs(b), H, A))
            lines.append(("h%d,%d-%d" % (near, same, k), "h%d,%d-%d %d %d %s" % (near, same, k, near, same, " ".join(d))))
            lines.append(("g%d,%d-%d" % (near, same, k), "g%d,%d-%d %d %d %s" % (near, same, k, near, same, " ".join(e))))
    for c in ("samenoupdate", "slot", "noreset"):
        cx.tlc("MCCache", dict(Near=2, Same=1, Block=2, MaxHere=4, Windows=2, Control='"%s"' % c, Depth=4, Keep="FALSE"), spec="Spec",
               invariants=["Agree"], extra_cfg=ov, expect="violation", name="MCCache control " + c)
    return lines


def address(rng, seen, here, mod):
    q = rng.randrange(7)
    s = rng.choice(seen) if seen else 0
    x = [s, s + mod * rng.choice([1, 2, 3]), s + rng.randrange(200), here - 1 - rng.randrange(200), rng.randrange(200),
         s - rng.randrange(300), rng.randrange(here)][q]
    return x if 0 <= x < here else rng.randrange(here)


SIZES = [(4, 3), (0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (3, 5), (254, 0), (0, 254), (127, 127), (253, 1), (1, 253), (200, 10), (10, 200)]


def script(rng, i):
    near, same = rng.choice(SIZES) if rng.random() < .6 else (lambda n: (n, rng.randrange(255 - n)))(rng.randrange(255))
    here = rng.choice([1, 5, 300, 5000, 200000, 2147483647 - 30000])
    seen, ops, mod = [], [], max(1, same) * 256
    last = near + same + 1
    dec = i % 2
    for _ in range(rng.randrange(3, 40)):
        if rng.random() < .04:
            ops.append("i")
            seen = []
        a = address(rng, seen, here, mod)
        if dec:
            m = rng.choice([0, 1, rng.randrange(last + 1), min(last, 2 + rng.randrange(5))])
            q = rng.random()
            if m >= 2 + near: b = bytes([a % 256]) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1])))
            else:
                v = a if m == 0 else here - a if m == 1 else rng.choice([0, 1, 5, 100, 3000, a, here, 2147483647, 2147483646 - a])
                if q < .1: v = rng.choice([here, here - 1, here + 1, 2147483647, 0])
                b = varint(max(0, min(v, 2147483647)))
                if q > .93: b = b[:-1]
                elif q > .9: b = rng.choice([bytes.fromhex("8880808000"), bytes.fromhex("8780808080"), bytes.fromhex("808080808001"), bytes.fromhex("ffffffff7f")])
                elif q > .85: b += bytes([rng.randrange(256)])
            ops.append("d:%d:%s:%d" % (m, hexs(b), here))
        else:
            ops.append("e:%d:%d" % (a, here))
        seen.append(a)
        here = min(2147483647, here + rng.randrange(300))
    cid = "c%d" % i
    return (cid, "%s %d %d %s" % (cid, near, same, " ".join(ops)))


def judge(cx, lines, name, flavour="dbg"):
    by = dict(lines)
    recs = []
    for l in cx.run_lines(flavour, "cachescript", lines, [], ["record"]):
        w = l.split(" ")
        if l.startswith("BAD "):
            cx.violation(l[4:], by[w[1]])
        if w[0] != "R":
            continue
        near, same = by[w[1]].split(" ")[1:3]
        ops = []
        for o in w[2:]:
            f = o.split(":")
            hx = lambda h: [] if h == "-" else list(bytes.fromhex(h))
            if f[0] == "e": ops.append(["e", int(f[1]), int(f[2]), int(f[3]), hx(f[4]), int(f[5])])
            elif f[0] == "d": ops.append(["d", int(f[1]), hx(f[2]), int(f[3]), int(f[4]), int(f[5])])
            else: ops.append(["i"])
        recs.append({"id": w[1], "near": int(near), "same": int(same), "ops": ops})
    rej = cx.validated("TraceCache", recs, name, describe=lambda i: "cachescript (%s)\n%s" % (flavour, by[i]))
    if recs and len(cx.samples) < 8:
        cx.samples.append({"recorded addresses": recs[len(recs) // 2]["ops"][:6]})
    if not rej:
        for k in ("e", "d"):
            for r in recs:
                i = [j for j, o in enumerate(r["ops"]) if o[0] == k and (k == "e" or o[4] >= 0)]
                if i:
                    o = r["ops"][i[0]]
                    o[5 if k == "e" else 4] += 1
                    hit = bool(cx.validate("TraceCache", [r], "control", workers=1))
                    cx.controls.append({"control": "TraceCache: another address " + k, "refuted": hit})
                    if not hit:
                        raise CheckBroken("TraceCache accepts another address")
                    break
    return rej


def pairs(cx, n, flavour="fast", parts=64):
    total = 255 * 256 // 2
    step = -(-total // parts)
    ls = [("p%d" % k, "p%d pairs %d %d %d %d" % (k, cx.seed + 17 * k, n, k * step, min(total, (k + 1) * step))) for k in range(parts)]
    cx.expect_lines(flavour, "cachescript", ls, [], ["judge"], what="parts of all cache sizes")

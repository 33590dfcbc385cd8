"""Threads sharing a dictionary."""
import random
from core import hexs, CheckBroken


def model(cx):
    q = cx.quick
    th, ca = ("{1,2,3}", 4) if q else ("{1,2,3,4}", 4)
    cx.tlc("MCConcurrent", dict(Threads=th, Calls=ca, Control='"none"'), spec="Spec", invariants=["NoRace", "Alone"],
           properties=["Finishes"], extra_cfg="VIEW NoOrder\n", timeout=3000)
    for c in ("flag", "early", "scratch"):
        cx.tlc("MCConcurrent", dict(Threads="{1,2}", Calls=3, Control='"%s"' % c), spec="Spec", invariants=["NoRace"], expect="violation",
               name="MCConcurrent control " + c)
    cx.tlc("MCConcurrent", dict(Threads="{1,2}", Calls=3, Control='"scratch"'), spec="Spec", invariants=["Alone"], expect="violation",
           name="MCConcurrent control scratch (results)")
    res = []
    for th, ca in (("{1,2}", 4), ("{1,2,3}", 3)):
        r = cx.tlc("MCConcurrent", dict(Threads=th, Calls=ca, Control='"none"'), spec="Spec", invariants=["Emit"],
                   extra_cfg="CONSTRAINT Serial\n", name="MCConcurrent orders of calls")
        res += [(ca, "".join(str(t) for t in o)) for o in sorted(r.prints("ORDER"))]
    return res


def roles(rng, n, cases, enc=.7):
    out = []
    for _ in range(n):
        x = rng.random()
        if x < enc: out.append("e%d%d" % (rng.randrange(8), rng.randrange(2)))
        elif x < enc + .1: out.append("v")
        else:
            c = rng.choice(cases)
            out.append("d:%s:%s" % (hexs(c["dict"]), hexs(c["d"])))
    return out


def sched(cx, orders, cases, flavour="fast"):
    rng = random.Random(cx.seed * 1000 + 19)
    lines = []
    for i, (ca, o) in enumerate(orders):
        cid = "s%d" % i
        lines.append((cid, "%s sched %d %d %s %s" % (cid, rng.randrange(1 << 30), ca, o, " ".join(roles(rng, max(map(int, o)), cases)))))
    by = dict(lines)
    recs = []
    for l in cx.run_lines(flavour, "concur", lines):
        if l.startswith("BAD "):
            cx.violation(l[4:3000], by[l.split(" ")[1]])
        elif l.startswith("R "):
            a, b = l[2:].split(" | ")
            w = a.split(" ")
            recs.append({"id": w[0], "ev": [[int(x.split(":")[0]), x.split(":", 1)[1]] for x in w[1:]],
                         "solo": [s.split(",") for s in b.split(";")]})
    rej = cx.validated("TraceConcurrent", recs, "orders of calls", describe=lambda i: by[i])
    if recs and not rej:
        x = recs[0]
        x["ev"][-1][1] += "00"
        hit = bool(cx.validate("TraceConcurrent", [x], "control", workers=1))
        cx.controls.append({"control": "TraceConcurrent: other output", "refuted": hit})
        if not hit:
            raise CheckBroken("TraceConcurrent accepts other output")


def free(cx, n, cases, flavour, pre):
    rng = random.Random(cx.seed * 1000 + 20 + len(pre))
    lines = []
    for i in range(n):
        cid = "%s%d" % (pre, i)
        rs = roles(rng, rng.choice([2, 3, 4, 8]), cases, 1.0 if i % 3 == 0 else .6)
        if i % 5 == 0:
            rs = [rs[0]] * len(rs)
        lines.append((cid, "%s free %d %d - %s" % (cid, rng.randrange(1 << 30), rng.choice([3, 4, 6]), " ".join(rs))))
    # the threads of one line want cores of their own
    bad = [l for l in cx.run_lines(flavour, "concur", lines, ways=4, timeout=800) if l.startswith("BAD ")]
    by = dict(lines)
    seen = 0
    for l in bad[:6]:
        # whether a race shows again is a matter of luck: the report itself is the proof
        seen += 1
        cx.violation(l[4:3000], "concur (%s)\n%s\n%s" % (flavour, by[l.split(" ")[1]], l.replace(" / ", "\n")))
    cx.traces += n
    cx.log("concur: %d scenarios (%s), %d bad" % (n, flavour, len(bad)))

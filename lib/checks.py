"""One function per property."""
import random
import decoder, encoder, writer, cache, cli, concur, scale
from core import hexs, CheckBroken

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


MC_INV = ["Verdict", "Output", "Sticky", "ChunkFree", "Within", "Prompt"]


def mc_decoder(cx, controls=(), bases="{1,2,3,4,5,6,7,8,9}", deep=False):
    """The specification itself: streaming machine against RFC, all chunkings of a bounded set of files."""
    if cx.quick:
        k = dict(Bases=bases, Values="{0,128}", Steps="{0,1,2}")
    else:
        k = dict(Bases=bases, Values="{0,1,2,3,4,5,7,127,128,129,255}", Steps="{0,1,2,3,4,5,6,7,11}")
    cx.tlc("MCDecoder", dict(k, Control='"none"'), spec="Spec", invariants=MC_INV, properties=["AppendOnly"],
           timeout=3000)
    for c, b in controls:
        cx.tlc("MCDecoder", dict(Bases=b, Values="{0}", Steps="{0,1,2}", Control='"%s"' % c), spec="Spec",
               invariants=MC_INV, properties=["AppendOnly"], expect="violation", name="MCDecoder/" + c)


def families(cx, plan, rules, flavour="dbg", nrandom=12):
    allc = []
    for fam, nq, nt in plan:
        n = nq if cx.quick else nt
        cs = cx.gen(fam, 1, n)
        cx.replay(cs, rules, flavour, nrandom=nrandom if cx.quick else 4 * nrandom)
        allc.append(cs)
    cx.binding_control(allc[0], rules, flavour)
    return allc


def vast(cx, rules, nq, nt, flavour="dbg", **kw):
    """Files of up to tens of megabytes: GenScale's programs with large blocks."""
    cs = scale.cases(cx, nq if cx.quick else nt, **kw)
    cx.replay(cs, rules, flavour, nrandom=0)
    cx.count("scaled_MB", sum(c["size"] for c in cs) >> 20)


def recorded_mutations(cx, fams, judge, n):
    """Mutations of generated files, decoded by the implementation; TLC decides on the recorded calls."""
    small = [c for cs in fams for c in cs if len(c["d"]) < 500]
    rng = random.Random(cx.seed * 1000 + 4)
    decoder.check_recorded(cx, [("m%d" % i, decoder.fuzz_history(rng, small, False)) for i in range(n)], "dbg", "mutated", judge)


@check
def C02(cx):
    cx.build([("dbg", "replay"), ("dbg", "decscript")])
    mc_decoder(cx, [("dropbuf", "{1}")])
    small = families(cx, [("valid", 2048, 20000), ("target", 300, 4000), ("ck", 200, 2000), ("big", 48, 400),
                  ("bigdict", 48, 300), ("table", 48, 600), ("huge", 24, 200), ("bigtarget", 24, 300), ("many", 8, 300), ("wide", 48, 400)], ["accept"], nrandom=3)
    recorded_mutations(cx, small[:3], "accept", 2000 if cx.quick else 60000)
    vast(cx, ["accept"], 400, 6000, valid=True)


@check
def C03(cx):
    cx.build([("dbg", "replay")])
    mc_decoder(cx, [("dropbuf", "{1}"), ("noreset", "{3}")])
    families(cx, [("valid", 1000, 10000), ("mal", 1500, 20000), ("target", 300, 3000), ("limits", 200, 2000),
                  ("big", 32, 300), ("table", 40, 500), ("huge", 24, 200), ("bigtarget", 24, 300), ("many", 8, 200),
                  ("widemal", 64, 400)], ["chunk"])
    vast(cx, ["chunk"], 300, 4000)


@check
def C04(cx):
    cx.build([("dbg", "replay"), ("rel", "replay"), ("dbg", "decscript")])
    mc_decoder(cx, [("unsticky", "{2}"), ("dropbuf", "{1}")])
    small = families(cx, [("mal", 3000, 40000), ("target", 150, 1500), ("valid", 300, 3000), ("ckmal", 400, 4000)], ["reject", "finish"], nrandom=3)
    families(cx, [("widemal", 100, 1000)], ["reject"], nrandom=3)
    families(cx, [("mal", 1000, 10000), ("badtable", 60, 600)], ["reject", "sticky"], "rel", nrandom=3)
    recorded_mutations(cx, small, "reject", 3000 if cx.quick else 60000)
    vast(cx, ["reject"], 300, 4000, valid=False)


@check
def C06(cx):
    cx.build([("dbg", "replay"), ("rel", "decscript"), ("dbg", "decscript"), ("fast", "limits")])
    q = cx.quick
    mc_decoder(cx, [("latelimit", "{1}")])
    cs = families(cx, [("limits", 1500, 20000)], ["accept", "reject", "early"], nrandom=6)[0]
    # limits changed at any time, in every history
    decoder.replay_histories(cx, "limits", [1, 3, 5, 6, 7, 8, 12, 13, 17, 18, 19, 20, 21, 24], 8 if q else 10, 2 if q else 3,
                             controls=["losesettings"])
    rng = random.Random(cx.seed * 1000 + 6)
    decoder.check_recorded(cx, [("l%d" % i, decoder.limit_history(rng, cs)) for i in range(700 if q else 6000)], "dbg", "limits")
    decoder.wide_limits(cx, 120 if q else 1000)
    vast(cx, ["accept", "reject"], 300, 4000, valid=True, limits=True)


@check
def C08(cx):
    cx.build([("dbg", "replay")])
    mc_decoder(cx)
    families(cx, [("target", 800, 10000), ("valid", 800, 8000), ("notarget", 600, 6000), ("bigtarget", 64, 800)],
             ["accept", "reject", "allow"], nrandom=6)
    vast(cx, ["accept", "reject", "allow"], 300, 4000)


@check
def C09(cx):
    cx.build([("rel", "replay")])
    mc_decoder(cx)
    families(cx, [("table", 240, 3000), ("badtable", 200, 3000)], ["accept", "reject", "chunk"], "rel", nrandom=20)


@check
def C20(cx):
    cx.build([("dbg", "replay")])
    mc_decoder(cx, [("dropbuf", "{1}"), ("noreset", "{3}")])
    families(cx, [("valid", 1200, 12000), ("target", 300, 4000), ("mal", 600, 6000), ("big", 32, 300),
                  ("table", 40, 400), ("many", 8, 300)], ["deliver", "grow", "kinds"], nrandom=10)
    vast(cx, ["deliver", "grow", "kinds"], 300, 4000, valid=True)


ALL_CALLS = list(range(1, 25))


@check
def C10(cx):
    cx.build([("rel", "decscript"), ("dbg", "decscript")])
    q = cx.quick
    decoder.replay_histories(cx, "all", ALL_CALLS, 5 if q else 6, 2 if q else 3, controls=["keeptable", "losesettings"])
    # without settings, longer
    decoder.replay_histories(cx, "deep", [1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 14, 23], 7 if q else 9, 3)
    # limits and target windows, longer
    decoder.replay_histories(cx, "limits", [1, 3, 5, 6, 7, 8, 12, 13, 17, 18, 19, 21, 24], 8 if q else 10, 2)
    cases = cx.gen("valid", 1, 150 if q else 1500) + cx.gen("mal", 1, 150 if q else 1500) + cx.gen("table", 1, 12 if q else 100)
    rng = random.Random(cx.seed * 1000 + 10)
    decoder.check_recorded(cx, [("h%d" % i, decoder.random_history(rng, cases, True)) for i in range(400 if q else 6000)],
                           "rel", "misuse")


def means(cx):
    """The native reader of the harness agrees with the specification on the specification's own files."""
    q = cx.quick
    for fam, nq, nt in (("valid", 300, 4000), ("mal", 1200, 15000), ("ck", 200, 2000), ("ckmal", 300, 3000), ("target", 100, 1000),
                        ("limits", 150, 1500), ("table", 24, 300), ("badtable", 40, 400)):
        cases = cx.gen(fam, 1, nq if q else nt)
        out = cx.run_lines("fast", "meaning", [(c["key"], cx.case_line(c)) for c in cases])
        if any(l.startswith("BAD ") for l in out):
            raise CheckBroken("meaning.h differs from VcdRfc: " + [l for l in out if l.startswith("BAD ")][0])
        if fam in ("mal", "ckmal"):
            c = [c for c in cases if not c["valid"]][0]
            hit = any(l.startswith("BAD ") for l in cx.run_lines("fast", "meaning", [(c["key"], cx.case_line(dict(c, valid=not c["valid"])))], ways=1))
            cx.controls.append({"control": "meaning.h: verdict of the specification inverted (%s)" % c["key"], "refuted": hit})
            if not hit:
                raise CheckBroken("the comparison of meaning.h with the specification notices nothing")


def means_json(cx):
    q = cx.quick
    n = 2500 if q else 30000
    r = cx.tlc("GenJson", dict(Seed=cx.seed, From=1, To=n), spec="Spec", invariants=["AsWritten"])
    cases = list(r.prints("CASE"))
    if len(cases) != n:
        raise CheckBroken("GenJson produced %d cases" % len(cases))
    line = lambda c, ok: ("json-%d" % c["id"], "json-%d %s %s %d %s" % (c["id"], hexs(c["dict"]), hexs(c["text"]), ok, hexs(c["target"])))
    bad = lambda ls, **kw: [l for l in cx.run_lines("fast", "meaning", ls, **kw) if l.startswith("BAD ")]
    b = bad([line(c, c["ok"]) for c in cases])
    if b:
        raise CheckBroken("jsonmeaning.h differs from VcdJson: " + b[0])
    c = [c for c in cases if not c["ok"]][0]
    hit = bool(bad([line(c, True)], ways=1))
    cx.controls.append({"control": "jsonmeaning.h: verdict of the specification inverted", "refuted": hit})
    if not hit:
        raise CheckBroken("the comparison of jsonmeaning.h with the specification notices nothing")


def volume(cx, rng, rule):
    """Encodings too many or too large for TLC, read by meaning.h."""
    q = cx.quick
    means(cx)
    encoder.native(cx, encoder.lines_of(encoder.whole_scenarios(rng, 6000 if q else 60000, "vn")), rule, "encodings", "fast")
    encoder.native(cx, encoder.expressions(rng, 700 if q else 8000, "vx"), rule, "large encodings", "fast")
    encoder.native(cx, encoder.expressions(rng, 24 if q else 300, "vb", True), rule, "very large encodings", "fast")
    encoder.native(cx, encoder.powers(rng, 4 if q else 40, "vP"), rule, "encodings of sizes at powers of two", "fast")
    encoder.native(cx, encoder.wide(rng, 2 if q else 8, "vW"), rule, "encodings with addresses beyond 2^28", "fast")


@check
def C05(cx):
    cx.build([("dbg", "replay"), ("dbg", "encscript"), ("fast", "encscript"), ("fast", "meaning")])
    q = cx.quick
    mc_decoder(cx, [("nocheck", "{2}")], bases="{2,8}")
    families(cx, [("ck", 800, 8000), ("ckmal", 1200, 12000), ("ckbig", 48, 400)], ["accept", "reject"], nrandom=6)
    rng = random.Random(cx.seed * 1000 + 5)
    encoder.judge(cx, encoder.whole_scenarios(rng, 500 if q else 6000, "e"), ["ck"], "encodings", corrupt=encoder.other_checksum)
    encoder.judge(cx, encoder.big_scenarios(rng, 24 if q else 200, "g", flags=2), ["ck"], "large windows")
    volume(cx, rng, "ck")
    vast(cx, ["accept", "reject"], 400, 4000)


@check
def C07(cx):
    cx.build([("dbg", "replay"), ("rel", "replay"), ("dbg", "decscript"), ("rel", "decscript"), ("fastrel", "memscript"), ("fastrel", "decscript")])
    q = cx.quick
    mc_decoder(cx)
    allc = []
    # every family, every chunking, under the sanitizers; here only that the calls return
    for fl in ("dbg", "rel"):
        plan = [("valid", 300, 4000), ("mal", 1200, 20000), ("limits", 150, 1500), ("target", 150, 1500), ("big", 24, 200)]
        for fam, nq, nt in plan:
            if fl == "dbg":
                allc.append(cx.gen(fam, 1, nq if q else nt))
            cx.replay(allc[[p[0] for p in plan].index(fam)], ["none"] if fl == "dbg" else ["goon"], fl, nrandom=4)
    tab = cx.gen("table", 1, 40 if q else 400)
    cx.replay(tab, ["none"], "dbg", nrandom=4)
    bad = cx.gen("badtable", 1, 100 if q else 1000)
    cx.replay(bad, ["goon"], "rel", nrandom=4)
    # mutated files and mixed-up histories: recorded from the implementation, explained by the specification
    small = [c for cs in allc[:4] for c in cs if len(c["d"]) < 500 and "bigdict" not in c]
    rng = random.Random(cx.seed * 1000 + 7)
    for fl, n in (("dbg", 3000 if q else 40000), ("rel", 3000 if q else 40000)):
        decoder.check_recorded(cx, [("%s%d" % (fl, i), decoder.fuzz_history(rng, small, fl == "rel")) for i in range(n)], fl, "mutated-" + fl, "returns")
    decoder.memory(cx, [("m%d" % i, decoder.fuzz_history(rng, small + tab + bad, True)) for i in range(4000 if q else 60000)], "fastrel")
    decoder.uninitialised(cx, [("u%d" % i, decoder.fuzz_history(rng, small + tab[:10] + bad[:20], True)) for i in range(1500 if q else 30000)])
    # volume: the same without validation
    for fl, n in (("dbg", 30000 if q else 600000), ("rel", 30000 if q else 600000)):
        decoder.returns(cx, [("v%s%d" % (fl, i), decoder.fuzz_history(rng, small + tab + (bad if fl == "rel" else []), fl == "rel"))
                             for i in range(n)], fl)
    vast(cx, ["none"], 200, 3000)


@check
def C01(cx):
    cx.build([("dbg", "encscript"), ("fast", "encscript")])
    q = cx.quick
    # the engine model reproduces every target (exhaustively, small block size)
    runs = encoder.engine(cx, [("{0,1}", 0, 5, 0, 7)] if q else [("{0,1}", 0, 6, 0, 9), ("{0,1,2}", 0, 5, 0, 6)], ["ahead", "crossend"])
    encoder.native(cx, runs, "round", "engine runs")
    rng = random.Random(cx.seed * 1000 + 1)
    scs = encoder.whole_scenarios(rng, 700 if q else 8000, "e") + encoder.thresholds(rng, "th")
    encoder.judge(cx, scs, ["round"], "encodings", corrupt=encoder.other_byte)
    encoder.native(cx, encoder.lines_of(encoder.whole_scenarios(rng, 4000 if q else 60000, "n")), "round", "encodings")
    encoder.native(cx, encoder.expressions(rng, 700 if q else 8000, "x"), "round", "large encodings")
    encoder.native(cx, encoder.expressions(rng, 24 if q else 300, "b", True), "round", "very large encodings")
    encoder.native(cx, encoder.powers(rng, 4 if q else 40, "P"), "round", "encodings of sizes at powers of two", "fast")
    encoder.native(cx, encoder.wide(rng, 2 if q else 8, "W"), "round", "encodings with addresses beyond 2^28", "fast")


@check
def C11(cx):
    cx.build([("rel", "encscript"), ("fast", "encscript")])
    q = cx.quick
    encoder.native(cx, encoder.histories(cx, 5 if q else 6), "fresh", "call histories", "rel")
    encoder.native(cx, encoder.one_shot(cx, 5 if q else 6), "fresh", "histories of one-shot encodings", "fast" if q else "rel")
    rng = random.Random(cx.seed * 1000 + 11)
    hs = encoder.random_histories(rng, 600 if q else 8000, "r")
    encoder.native(cx, encoder.lines_of(hs), "fresh", "random histories", "rel")
    encoder.native(cx, encoder.expressions(rng, 300 if q else 4000, "x"), "fresh", "large encodings", "fast")
    encoder.native(cx, encoder.expressions(rng, 16 if q else 200, "b", True), "fresh", "very large encodings", "fast")
    encoder.native(cx, encoder.powers(rng, 2 if q else 20, "P"), "fresh", "encodings of sizes at powers of two", "fast")
    encoder.judge(cx, hs[:200 if q else 3000], ["calls"], "histories", "rel", corrupt=encoder.refused_output)
    encoder.solo(cx, hs[:120 if q else 1500])


@check
def C12(cx):
    cx.build([("dbg", "encscript"), ("fast", "encscript"), ("fast", "meaning")])
    q = cx.quick
    rng = random.Random(cx.seed * 1000 + 12)
    scs = encoder.whole_scenarios(rng, 1500 if q else 15000, "e") + encoder.thresholds(rng, "th")
    encoder.judge(cx, scs, ["format"], "encodings", corrupt=encoder.other_byte)
    encoder.judge(cx, encoder.big_scenarios(rng, 24 if q else 200, "g"), ["format"], "large windows")
    volume(cx, rng, "format")


@check
def C13(cx):
    cx.build([("dbg", "encscript"), ("fast", "encscript")])
    q = cx.quick
    runs = encoder.engine(cx, [("{0,1}", 0, 6, 0, 8)] if q else [("{0,1}", 0, 7, 0, 9), ("{0,1,2}", 0, 5, 0, 6)], ["ahead", "crossend"])
    encoder.native(cx, runs, "copies", "engine runs")
    rng = random.Random(cx.seed * 1000 + 13)
    scs = encoder.whole_scenarios(rng, 1200 if q else 12000, "e")
    encoder.judge(cx, scs, ["copies"], "encodings", corrupt=encoder.match_off)
    encoder.native(cx, encoder.lines_of(encoder.whole_scenarios(rng, 4000 if q else 60000, "n")), "copies", "encodings")
    encoder.native(cx, encoder.expressions(rng, 500 if q else 8000, "x"), "copies", "large encodings")
    encoder.native(cx, encoder.expressions(rng, 16 if q else 300, "b", True), "copies", "very large encodings")
    encoder.native(cx, encoder.powers(rng, 4 if q else 40, "P"), "copies", "encodings of sizes at powers of two", "fast")
    encoder.native(cx, encoder.wide(rng, 2 if q else 8, "W"), "copies", "encodings with addresses beyond 2^28", "fast")


@check
def C14(cx):
    cx.build([("dbg", "encscript"), ("fast", "encscript")])
    q = cx.quick
    runs = encoder.engine(cx, [("{0,1}", 0, 6, 0, 8)] if q else [("{0,1}", 0, 7, 0, 9), ("{0,1,2}", 0, 5, 0, 6)],
                          ["noleft", "short", "forget", "endearly"])
    encoder.native(cx, runs, "found", "engine runs")
    encoder.must_control(cx)
    rng = random.Random(cx.seed * 1000 + 14)
    encoder.judge(cx, encoder.whole_scenarios(rng, 1500 if q else 15000, "s", small=True), ["found"], "encodings", corrupt=encoder.longer_dict)
    encoder.native(cx, encoder.must_scripts(rng, 3000 if q else 40000, "m"), "found", "large encodings")
    encoder.native(cx, encoder.must_scripts(rng, 48 if q else 600, "M", True), "found", "very large dictionaries")
    encoder.native(cx, encoder.colliding_scripts(rng, 1500 if q else 20000, "k"), "found", "blocks of one hash value")
    encoder.native(cx, encoder.wide(rng, 2 if q else 8, "W"), "found", "encodings with addresses beyond 2^28", "fast")


@check
def C17(cx):
    cx.build([("dbg", "encscript"), ("rel", "encscript"), ("dbg", "writer"), ("fast", "encscript"), ("fast", "meaning")])
    q = cx.quick
    rng = random.Random(cx.seed * 1000 + 17)
    means_json(cx)
    encoder.judge(cx, encoder.whole_scenarios(rng, 900 if q else 9000, "j", json_=True), ["json"], "encodings", corrupt=encoder.json_text)
    encoder.judge(cx, encoder.random_histories(rng, 200 if q else 3000, "r", json_=True), ["json"], "histories", "rel")
    encoder.judge(cx, encoder.json_bytes(rng, "b"), ["json"], "every byte")
    encoder.judge(cx, encoder.json_large(rng, 40 if q else 600, "L"), ["json"], "large files")
    encoder.native(cx, encoder.lines_of(encoder.whole_scenarios(rng, 6000 if q else 60000, "vn", json_=True)), "json", "encodings", "fast")
    encoder.native(cx, encoder.expressions(rng, 700 if q else 8000, "vx", js=True), "json", "large encodings", "fast")
    encoder.native(cx, encoder.expressions(rng, 24 if q else 300, "vb", True, js=True), "json", "very large encodings", "fast")
    encoder.native(cx, encoder.powers(rng, 4 if q else 40, "vP", js=True), "json", "encodings of sizes at powers of two", "fast")
    writer.judge_json(cx, [writer.json_script(rng, "w%d" % i) for i in range(600 if q else 8000)])
    runs = encoder.histories(cx, 4 if q else 6)
    encoder.native(cx, [l for l in runs if l[1].split(" ")[1] in "4567"], "fresh", "call histories", "rel")


@check
def C15(cx):
    cx.build([("dbg", "cachescript"), ("fast", "cachescript"), ("dbg", "writer")])
    q = cx.quick
    lines = cache.model(cx, [(0, 0), (1, 1), (2, 1), (1, 2), (0, 2)] if q else [(0, 0), (1, 1), (2, 1), (1, 2), (0, 2), (3, 1), (2, 2), (4, 3)],
                        4 if q else 5, 2, 5 if q else 6)
    cx.expect_lines("dbg", "cachescript", lines, [], ["judge"], what="histories of the model")
    rng = random.Random(cx.seed * 1000 + 15)
    cache.judge(cx, [cache.script(rng, i) for i in range(1200 if q else 15000)], "addresses")
    cache.pairs(cx, 60 if q else 1500)
    # through whole windows: caches start empty in each
    tabs, names = writer.tables(rng, 16 if q else 60)
    names += [("default", 4, 3)] * 4
    writer.judge(cx, [writer.script(rng, "w%d" % i, names, copies=True) for i in range(300 if q else 4000)], tabs, "windows")
    writer.native(cx, [writer.script(rng, "n%d" % i, names, long=i % 4 == 0, copies=True) for i in range(4000 if q else 60000)], tabs)


@check
def C16(cx):
    cx.build([("dbg", "writer"), ("fast", "meaning")])
    q = cx.quick
    means(cx)
    cx.tlc("MCWriter", dict(MaxReqs=5 if q else 6, Sizes="{1,2,3,4}", Control='"none"'), spec="Spec", invariants=["Means"])
    for c in ("stale", "nosize"):
        cx.tlc("MCWriter", dict(MaxReqs=4, Sizes="{1,2,3}", Control='"%s"' % c), spec="Spec", invariants=["Means"], expect="violation",
               name="MCWriter control " + c)
    rng = random.Random(cx.seed * 1000 + 16)
    tabs, names = writer.tables(rng, 20 if q else 100)
    names += [("default", 4, 3)] * 8
    writer.judge(cx, [writer.script(rng, "w%d" % i, names) for i in range(800 if q else 8000)], tabs, "windows")
    dic = bytes(rng.randrange(256) for _ in range(500))
    ps = [s for n, a, b in names[:-7] for s in writer.pair_scripts(rng, "p", n, a, b, dic)]
    writer.judge(cx, ps if not q else ps[-60:], tabs, "pairs", control=False)
    for k in range(1 if q else 12):
        tabs, names = writer.tables(rng, 40)
        names += [("default", 4, 3)] * 8
        writer.native(cx, [writer.script(rng, "n%d" % i, names, long=i % 8 == 0) for i in range(12000)], tabs)
        writer.native(cx, [s for n, a, b in names[:-7] for s in writer.pair_scripts(rng, "q", n, a, b, dic)], tabs)
        writer.native(cx, [writer.big_script(rng, "g%d" % i, names) for i in range(150)], tabs)


@check
def C18(cx):
    cx.build([("dbg", "vcdiff"), ("fast", "vcdiff"), ("fast", "clirun")])
    q = cx.quick
    cli.model(cx)
    cli.usage(cx)
    rng = random.Random(cx.seed * 1000 + 18)
    cli.random_encodings(cx, rng, 1200 if q else 12000)
    cases = cx.gen("valid", 1, 400 if q else 4000) + cx.gen("mal", 1, 400 if q else 4000) + cx.gen("limits", 1, 150 if q else 1500) + \
        cx.gen("target", 1, 100 if q else 1000) + cx.gen("table", 1, 12 if q else 100)
    cli.deltas(cx, cases, rng)
    cli.large(cx, rng, 100 if q else 300)
    cli.compared(cx)


@check
def C19(cx):
    cx.build([("tsan", "concur"), ("fast", "concur")])
    q = cx.quick
    cases = cx.gen("valid", 1, 120 if q else 1000) + cx.gen("mal", 1, 40 if q else 400) + cx.gen("table", 1, 8 if q else 60)
    cases = [c for c in cases if len(c["d"]) < 2500 and c["allow"]]
    concur.sched(cx, concur.model(cx), cases)
    concur.free(cx, 160 if q else 3000, cases, "tsan", "r")
    concur.free(cx, 600 if q else 10000, cases, "fast", "fr")


@check
def C21(cx):
    cx.build([("dbg", "encscript"), ("rel", "encscript"), ("fast", "encscript"), ("fast", "encmem")])
    q = cx.quick
    encoder.work(cx, not q)
    rng = random.Random(cx.seed * 1000 + 21)
    # under the sanitizers; only that the calls return
    runs = encoder.engine(cx, [("{0,1}", 0, 5, 0, 7)] if q else [("{0,1}", 0, 6, 0, 9)])
    hist = encoder.histories(cx, 4 if q else 6, controls=False)
    for fl in ("dbg", "rel"):
        ls = encoder.lines_of(encoder.whole_scenarios(rng, 6000 if q else 60000, "e" + fl) + encoder.whole_scenarios(rng, 2000 if q else 20000, "j" + fl, json_=True)
                              + encoder.thresholds(rng, "th" + fl))
        ls += encoder.expressions(rng, 300 if q else 6000, "x" + fl) + encoder.expressions(rng, 12 if q else 200, "b" + fl, True)
        ls += runs + encoder.must_scripts(rng, 500 if q else 10000, "m" + fl)
        if fl == "rel":
            ls += hist + encoder.lines_of(encoder.random_histories(rng, 600 if q else 8000, "r"))
        encoder.returns(cx, ls, fl)
    # time and memory
    encoder.memory(cx, encoder.heavy(rng, 16 if q else 32), "fast")
    encoder.memory(cx, encoder.memory_lines(rng, 2000 if q else 12000, "m"), "fast")
    encoder.uninitialised(cx, rng, 1200 if q else 12000)


@check
def C22(cx):
    cx.build([("dbg", "encscript"), ("fast", "encscript")])
    q = cx.quick
    runs = encoder.engine(cx, [("{0,1}", 0, 6, 0, 8)] if q else [("{0,1}", 0, 7, 0, 9), ("{0,1,2}", 0, 5, 0, 6)], ["noleft", "capright", "firstonly"])
    encoder.native(cx, runs, "compact", "engine runs")
    rng = random.Random(cx.seed * 1000 + 22)
    scs = encoder.compact_lines(rng, 300 if q else 3000, "c") + encoder.whole_scenarios(rng, 1500 if q else 15000, "e") + encoder.thresholds(rng, "th")
    encoder.judge(cx, scs, ["compact"], "encodings", corrupt=encoder.shorter_copy)
    encoder.native(cx, encoder.lines_of(encoder.whole_scenarios(rng, 6000 if q else 60000, "n")), "compact", "encodings")
    encoder.native(cx, encoder.expressions(rng, 700 if q else 8000, "x"), "compact", "large encodings")
    encoder.native(cx, encoder.expressions(rng, 24 if q else 300, "b", True), "compact", "very large encodings")
    encoder.native(cx, encoder.longest_scripts(rng, 6000 if q else 80000, "o"), "compact", "stretches with several sources")
    encoder.native(cx, encoder.must_scripts(rng, 48 if q else 600, "M", True), "compact", "very large dictionaries", "fast")
    encoder.native(cx, encoder.powers(rng, 4 if q else 40, "P"), "compact", "encodings of sizes at powers of two", "fast")
    encoder.native(cx, encoder.wide(rng, 2 if q else 8, "W"), "compact", "encodings with addresses beyond 2^28", "fast")


@check
def C23(cx):
    cx.build([("fastrel", "memscript"), ("fast", "encmem"), ("fast", "vcdiff")])
    q = cx.quick
    decoder.stream(cx, 400 if q else 6000)
    rng = random.Random(cx.seed * 1000 + 23)
    encoder.memory(cx, encoder.memory_lines(rng, 300 if q else 4000, "m", (300, 1000)), "fast")
    encoder.run_memory(cx, 48 if q else 400)


@check
def C24(cx):
    cx.build([("dbg", "replay"), ("dbg", "decscript"), ("rel", "replay")])
    q = cx.quick
    mc_decoder(cx, [("late", "{1}")])
    small = families(cx, [("valid", 100, 1000), ("mal", 2500, 40000), ("limits", 400, 4000), ("notarget", 300, 3000),
                          ("target", 150, 1500), ("ckmal", 400, 4000)], ["late"], nrandom=6)
    families(cx, [("badtable", 80, 1000)], ["late"], "rel", nrandom=6)
    recorded_mutations(cx, small, "prompt", 2500 if q else 60000)

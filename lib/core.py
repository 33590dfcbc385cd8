"""What all checks share: context, violations, evidence, replay of generated cases, trace validation."""
import concurrent.futures, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
import build, tlc

ROOT = build.ROOT
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class CheckBroken(Exception):
    """The machinery itself is at fault (never the code under test)."""


def hexs(b):
    return bytes(b).hex() or "-"


class Enough(Exception):
    """Violations have been confirmed and the time is better not spent on more of them."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.violations = []          # (what, replay file)
        self.controls = []            # negative controls: (name, detected)
        self.assumptions = []
        self.exe = {}
        self.rdir = os.path.join(EVID, "replay", prop)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.first_violation = None

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    # ---- building -----------------------------------------------------------------
    def build(self, wanted):
        t = time.time()
        self.exe.update(build.build(self.scratch, wanted))
        self.log("built", ", ".join("%s/%s" % w for w in wanted), "in %.1fs" % (time.time() - t))

    def memcheck(self, flavour, driver):
        """The driver under valgrind, as flavour "memcheck"."""
        wrap = os.path.join(self.scratch, "memcheck-" + driver)
        with open(wrap, "w") as f:
            f.write('#!/bin/sh\nexec valgrind -q --error-exitcode=77 --undef-value-errors=yes "%s" "$@"\n' % self.exe[(flavour, driver)])
        os.chmod(wrap, 0o755)
        self.exe[("memcheck", driver)] = wrap

    # ---- violations ---------------------------------------------------------------
    def enough(self):
        """Ends the check once violations are confirmed and it has had some time to find others."""
        if self.violations and (len(self.violations) >= 12 or time.time() - self.first_violation > 40
                                or time.time() - self.t0 > 400):
            raise Enough()

    def violation(self, what, content):
        os.makedirs(self.rdir, exist_ok=True)
        p = os.path.join(self.rdir, "%03d.txt" % (len(self.violations) + 1))
        with open(p, "w") as f:
            f.write("property %s\n%s\n\n%s\n" % (self.prop, what, content))
        self.violations.append((what, p))
        self.first_violation = self.first_violation or time.time()
        self.log("violation:", what[:300])
        self.enough()

    # ---- TLC ----------------------------------------------------------------------
    def tlc(self, module, constants=None, expect="ok", name=None, **kw):
        """Runs a model.  expect 'ok': it must hold on the specification;
        expect 'violation': a negative control that TLC has to refute."""
        self.enough()
        r = tlc.run(module, constants, scratch=self.scratch, **kw)
        self.states += r.distinct
        self.transitions += r.states
        name = name or module
        self.log("TLC %s: %s, %d states, %.1fs" % (name, "ok" if r.ok else "violated " + str(r.violation),
                                                    r.distinct, r.wall))
        if expect == "ok":
            if not r.ok:
                lines = [l for l in r.out.splitlines() if not l.startswith('"')]
                raise CheckBroken("TLC %s failed on the specification:\n%s" % (name, "\n".join(lines[-60:])))
        else:
            hit = bool(r.violation)
            self.controls.append({"control": name, "refuted": r.violation})
            if not hit:
                lines = [l for l in r.out.splitlines() if not l.startswith('"')]
                raise CheckBroken("negative control %s was not refuted:\n%s" % (name, "\n".join(lines[-40:])))
        return r

    # ---- running drivers ------------------------------------------------------------
    def run_driver(self, exe, args, timeout=300, stdin=None, env=None, stderr_limit=4000):
        """Returns (rc, stdout, stderr tail, progress).  rc is "timeout" when it did not end in time, or when
        it stayed at the same item for too long (which is then confirmed by itself, with a limit of its own)."""
        self.enough()
        fd, prog = tempfile.mkstemp(prefix="prog", dir=self.scratch)
        os.close(fd)
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
                             "max_allocation_size_mb=3000:detect_stack_use_after_return=0")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1"
        e["VERIF_PROGRESS"] = prog
        e.update(env or {})
        fe = tempfile.TemporaryFile(dir=self.scratch)
        fo = tempfile.TemporaryFile(dir=self.scratch)
        p = subprocess.Popen([exe] + [str(a) for a in args], stdin=stdin or subprocess.DEVNULL, stdout=fo,
                             stderr=fe, env=e, cwd=self.scratch, start_new_session=True)
        end = time.time() + timeout
        stall = 90 if self.quick else 300
        at, since, rc = "", time.time(), None
        while rc is None:
            try:
                rc = p.wait(min(1.0, max(0.01, end - time.time())))
                break
            except subprocess.TimeoutExpired:
                pass
            with open(prog, errors="replace") as f:
                now = f.readline()
            if now != at or not now:
                at, since = now, time.time()
            if time.time() > end or time.time() - since > stall:
                rc = "timeout"
            if rc == "timeout" or (self.violations and time.time() - self.first_violation > 60):
                rc = "timeout"
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        self.enough()
        fo.seek(0)
        out = fo.read().decode("utf-8", "replace")
        n = fe.seek(0, 2)
        fe.seek(max(0, n - 200000))
        err = fe.read().decode("utf-8", "replace")
        k = err.find("ERROR: AddressSanitizer")
        if k < 0:
            k = err.find("runtime error:")
        if k < 0:
            k = err.find("WARNING: ThreadSanitizer")
        err = err[max(0, k - 200):][:stderr_limit] if k >= 0 else err[-stderr_limit:]
        with open(prog, errors="replace") as f:
            progress = (f.readline() or "").strip()
        os.unlink(prog)
        return rc, out, err, progress

    # ---- generation and replay ------------------------------------------------------
    def gen(self, fam, first, last, workers=8, timeout=800):
        """Cases of a family from the specification."""
        r = self.tlc("GenDelta", dict(Seed=self.seed, From=first, To=last, Fam='"%s"' % fam),
                     invariants=["Agreement"], name="GenDelta/" + fam, workers=workers, timeout=timeout)
        cases = list(r.prints("CASE"))
        if len(cases) != last - first + 1:
            raise CheckBroken("GenDelta/%s produced %d cases" % (fam, len(cases)))
        cases.sort(key=lambda c: c["id"])
        dic = list(r.prints("DICT"))
        for c in cases:
            c["key"] = "%s-%d" % (c["fam"], c["id"])
            if dic:
                c["bigdict"] = dic[0]
        return cases

    @staticmethod
    def case_line(c):
        if "line" in c:
            return c["line"]
        j = lambda xs: ",".join(xs) or "-"
        return " ".join([c["key"], "@wide" if c["fam"].startswith("wide") else "@big" if "bigdict" in c else hexs(c["dict"]), hexs(c["d"]),
                         "1" if c["allow"] else "0", str(c["maxFile"]), str(c["maxWin"]),
                         "1" if c["valid"] else "0", hexs(c["out"]), str(c["err"]), str(c["errDone"]),
                         j("%d:%d" % tuple(s) for s in c["steps"]), j(str(k) for k in c["comp"]),
                         j(str(k) for k in c["sizes"])])

    def replay(self, cases, rules, flavour="dbg", nrandom=12, timeout=400, only_note=None):
        """Replays cases in all chunkings; every BAD line and every crash is a violation."""
        exe = self.exe[(flavour, "replay")]
        parts = [cases[i::8] for i in range(8)]

        def one(part, n, tmo):
            if not part:
                return None
            fd, fn = tempfile.mkstemp(prefix="cases", dir=self.scratch)
            with os.fdopen(fd, "w") as f:
                if any("bigdict" in c for c in part):
                    f.write("DICT @big %s\n" % hexs([c for c in part if "bigdict" in c][0]["bigdict"]))
                if any(c["fam"].startswith("wide") for c in part):
                    f.write("DICT @wide wide:268505456\n")
                for c in part:
                    f.write(self.case_line(c) + "\n")
            r = self.run_driver(exe, [fn, ",".join(rules), self.seed, n], timeout=tmo)
            os.unlink(fn)
            return r

        def bads(r):
            return [l for l in r[1].splitlines() if l.startswith("BAD ")] if r else []

        futs = [self.pool.submit(one, p, nrandom, timeout) for p in parts]
        nbad = 0
        for part, fu in zip(parts, futs):
            r = fu.result()
            if r is None:
                continue
            byid = {c["key"]: c for c in part}
            seen = set()
            todo = []
            for l in bads(r):
                cid = l.split(" ", 2)[1]
                if cid not in seen:
                    seen.add(cid)
                    todo.append((cid, l))
            if r[0] != 0:
                cid = r[3]
                todo.append((cid, "the decoder %s" % ("did not return within the time limit" if r[0] == "timeout"
                                                      else "crashed or ended the process (status %s)" % r[0])))
            for l in r[1].splitlines():
                if l.startswith("STAT "):
                    w = l.split()[1:]
                    for k, v in zip(w[::2], w[1::2]):
                        if k != "bad":
                            self.count("replay_" + k, int(v))
            for cid, what in todo[:6]:
                c = byid.get(cid)
                if c is None:
                    raise CheckBroken("driver failed outside a case: %s %s" % (r[0], r[2][-2000:]))
                # confirm by itself
                again = one([c], nrandom, 120)
                if again[0] == 0 and not bads(again):
                    again = one([c], nrandom * 4, 120)
                if again[0] == 0 and not bads(again):
                    self.log("not reproduced, not reported:", what)
                    continue
                nbad += 1
                self.violation(what, "case %s\ndriver: replay (%s) rules %s\n%s\n\n%s\n%s" % (
                    cid, flavour, rules, self.case_line(c)[:20000], "\n".join(bads(again)[:20]), again[2]))
        self.traces += len(cases)
        self.count("cases_" + cases[0]["fam"] if cases else "cases_none", len(cases))
        if cases and "line" in cases[0] and len(self.samples) < 9:
            self.samples.append({"family": "scale", "case": cases[len(cases) // 2]["line"][:1500], "rules": rules})
        elif cases and len(self.samples) < 6:
            c = cases[len(cases) // 2]
            self.samples.append({"family": c["fam"], "case": c["id"], "seed": self.seed,
                                 "delta": hexs(c["d"])[:400], "dictionary": hexs(c["dict"])[:200],
                                 "specification says": "accept, %d bytes of target" % len(c["out"]) if c["valid"]
                                 else "reject at byte %d" % c["err"] if c["err"] else "incomplete",
                                 "rules": rules})
        self.log("replayed %d cases (%s), %d bad" % (len(cases), ",".join(rules), nbad))
        return nbad

    def binding_control(self, cases, rules, flavour="dbg"):
        """Corrupt what the specification said about one case: the replay must notice."""
        exe = self.exe[(flavour, "replay")]
        for c in cases:
            if ("line" not in c and c["valid"] and len(c["out"]) > 2 and "bigdict" not in c and not c["fam"].startswith("wide") and len(c["d"]) < 1200):
                x = dict(c)
                if "accept" in rules or "deliver" in rules:
                    x["out"] = list(c["out"])
                    x["out"][-1] ^= 1
                    what = "one byte of the expected target changed"
                elif "late" in rules:
                    x["err"] = len(c["d"])
                    what = "an error declared at the last byte of a valid case"
                elif "reject" in rules:
                    x["valid"] = False
                    what = "a valid case declared invalid"
                else:
                    return
                fn = os.path.join(self.scratch, "control.txt")
                with open(fn, "w") as f:
                    f.write(self.case_line(x) + "\n")
                r = self.run_driver(exe, [fn, ",".join(rules), self.seed, 2])
                hit = r[0] == 0 and any(l.startswith("BAD ") for l in r[1].splitlines())
                self.controls.append({"control": "replay: " + what, "refuted": hit})
                if not hit and r[0] == 0 and not self.violations:
                    raise CheckBroken("the replay does not notice: " + what)
                return

    # ---- scripts: one item per line, run in parallel ----------------------------------
    def run_lines(self, flavour, driver, lines, head=(), args=(), timeout=400, ways=8, solo_timeout=120, env=None):
        """lines: list of (id, text).  Runs them all; returns the output lines.  An item during which the
        process died or hung is confirmed by itself and reported as a violation."""
        exe = self.exe[(flavour, driver)]

        def one(part, tmo):
            fd, fn = tempfile.mkstemp(prefix="lines", dir=self.scratch)
            with os.fdopen(fd, "w") as f:
                for h in head:
                    f.write(h + "\n")
                for _, l in part:
                    f.write(l + "\n")
            r = self.run_driver(exe, [fn] + list(args), timeout=tmo, env=env)
            os.unlink(fn)
            return r

        def whole(part):
            """Runs a part; after a death continues behind the item that caused it."""
            outs, dead = [], []
            while part:
                r = one(part, timeout)
                outs += r[1].splitlines()
                if r[0] == 0:
                    break
                if outs and not r[1].endswith("\n"):
                    outs.pop()
                k = [i for i, (x, _) in enumerate(part) if x == r[3]]
                if not k:
                    raise CheckBroken("%s failed outside an item: %s\n%s" % (driver, r[0], r[2][-2000:]))
                item = part[k[0]]
                again = one([item], solo_timeout)
                if again[0] != 0:
                    dead.append((item, again))
                else:
                    self.log("not reproduced, not reported: status %s in %s" % (r[0], item[0]))
                    outs += again[1].splitlines()
                if len(dead) > 3:
                    break
                part = part[k[0] + 1:]
            return outs, dead

        futs = [self.pool.submit(whole, lines[i::ways]) for i in range(ways) if lines[i::ways]]
        out = []
        for fu in futs:
            o, dead = fu.result()
            for l in o:
                if l.startswith("STAT "):
                    w = l.split()[1:]
                    for k, v in zip(w[::2], w[1::2]):
                        if k != "bad":
                            self.count("%s_%s" % (driver, k), int(v))
                else:
                    out.append(l)
            for (cid, text), r in dead[:3]:
                what = ("%s: a call did not return within the time limit" if r[0] == "timeout" else
                        "%%s: the process crashed or was ended (status %s)" % r[0]) % cid
                self.violation(what, "driver: %s (%s)\n%s\n\n%s" % (driver, flavour, text[:20000], r[2]))
        return out

    def expect_lines(self, flavour, driver, lines, head=(), args=(), what="", **kw):
        """Like run_lines, for drivers that judge: every BAD line (confirmed) is a violation."""
        out = self.run_lines(flavour, driver, lines, head, args, **kw)
        byid = None
        nbad = 0
        for l in out:
            if not l.startswith("BAD "):
                continue
            if byid is None:
                byid = dict(lines)
            nbad += 1
            if nbad > 6:
                continue
            cid = l.split(" ", 2)[1]
            again = self.run_lines(flavour, driver, [(cid, byid[cid])], head, args, ways=1, **kw)
            if any(x.startswith("BAD ") for x in again):
                self.violation(l[4:600], "driver: %s (%s)\n%s\n%s\n%s" % (
                    driver, flavour, "\n".join(head)[:8000], byid[cid][:20000], l[:4000]))
            else:
                self.log("not reproduced, not reported:", l[:200])
        self.traces += len(lines)
        self.log("%s: %d %s, %d bad" % (driver, len(lines), what or "scripts", nbad))
        return nbad

    # ---- validation of recorded traces against a Trace* module ---------------------------
    def validate(self, module, records, name=None, constants=None, timeout=700, workers=8, describe=None):
        """Every record (a dict with id) must be accepted.  Returns the rejections."""
        if not records:
            return []
        fn = os.path.join(self.scratch, "trace-%d.ndjson" % time.monotonic_ns())
        with open(fn, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        r = tlc.run(module, constants, init_next=("TraceInit", "TraceNext"), scratch=self.scratch,
                    env={"TRACE": fn}, timeout=timeout, workers=workers)
        os.unlink(fn)
        self.states += r.distinct
        self.transitions += r.states
        acc = set(x["id"] for x in r.prints("ACCEPT"))
        rej = list(r.prints("REJECT"))
        self.log("TLC %s%s: %d traces accepted, %d rejected, %.1fs" % (module, "/" + name if name else "",
                                                                     len(acc), len(rej), r.wall))
        if not r.ok or len(acc) + len(rej) != len(records):
            lines = [l for l in r.out.splitlines() if not l.startswith('"')]
            raise CheckBroken("TLC %s: %d of %d traces decided\n%s" % (module, len(acc) + len(rej), len(records),
                                                                      "\n".join(lines[-60:])))
        return rej

    def validated(self, module, records, name=None, describe=None, **kw):
        """validate; rejections are violations."""
        rej = self.validate(module, records, name, **kw)
        byid = {r["id"]: r for r in records}
        for x in rej[:6]:
            self.violation("%s: the recorded behaviour is none of the specification %s: %s" % (
                x["id"], module, json.dumps({k: v for k, v in x.items() if k != "id"})[:500]),
                (describe(x["id"]) if describe else json.dumps(byid[x["id"]]))[:60000])
        self.traces += len(records)
        return rej

    # ---- end -------------------------------------------------------------------------
    def finish(self, level="model_checking"):
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:12],
                   negative_controls=self.controls)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.rename(tmp, os.path.join(EVID, self.prop + ".json"))
        for what, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        self.log("%d violations; %d states, %d traces; %s" % (
            len(self.violations), self.states, self.traces,
            {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        # what is still running below this process
        for _ in range(5):
            kids = {}
            for d in os.listdir("/proc"):
                if d.isdigit():
                    try:
                        with open("/proc/%s/stat" % d) as f:
                            kids.setdefault(int(f.read().rpartition(")")[2].split()[1]), []).append(int(d))
                    except (OSError, ValueError, IndexError):
                        pass
            todo, found = list(kids.get(os.getpid(), [])), []
            while todo:
                x = todo.pop()
                found.append(x)
                todo += kids.get(x, [])
            if not found:
                break
            for x in found:
                try:
                    os.kill(x, signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(0.1)
        shutil.rmtree(self.scratch, ignore_errors=True)

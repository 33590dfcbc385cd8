"""Running TLC."""
import json, os, re, subprocess, tempfile, time

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.states = self.distinct = 0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.states, self.distinct = int(m[-1][0]), int(m[-1][1])
        self.ok = "Model checking completed. No error has been found" in out
        self.violation = re.findall(r"Invariant (\S+) is violated", out) + \
            re.findall(r"Temporal propert(?:y [^\n]* was|ies were) violated", out) + \
            re.findall(r"Action property (?:line [^\n]*|\S+) (?:of module \S+ )?is violated", out) + \
            re.findall(r"Postcondition \S+ .*violated", out)

    def prints(self, tag):
        """PrintT("TAG " \\o ToJson(..)) lines."""
        pre = '"' + tag + " "
        for line in self.out.splitlines():
            if line.startswith(pre):
                yield json.loads(json.loads(line)[len(tag) + 1:])


def run(module, constants=None, init_next=("Init", "Next"), spec=None, invariants=(), properties=(),
        extra_cfg="", workers=8, timeout=800, scratch=None, heap="6g", args=(), env=None, deadlock=False,
        spec_dir=SPEC):
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        if spec:
            f.write("SPECIFICATION %s\n" % spec)
        else:
            f.write("INIT %s\nNEXT %s\n" % init_next)
        if constants:
            f.write("CONSTANTS\n")
            for k, v in constants.items():
                f.write("  %s = %s\n" % (k, v))
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for i in properties:
            f.write("PROPERTY %s\n" % i)
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        f.write(extra_cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-Xms512m",
           "-Djava.io.tmpdir=" + d, "-cp", TLA_CP,
           "tlc2.TLC", "-metadir", os.path.join(d, "st"), "-workers", str(workers), "-nowarning",
           "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=spec_dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT", 124
    subprocess.run(["rm", "-rf", d])
    return TlcResult(out, rc, time.time() - t0)

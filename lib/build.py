"""Builds /repo's working tree (out of tree) and the drivers."""
import os, subprocess, concurrent.futures, glob

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")

SAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all "
       "-D_GLIBCXX_ASSERTIONS")
FLAVOURS = {
    # as the repository is built by default: internal errors end the process
    "dbg": (SAN, "g++", "gcc"),
    # release: internal errors are logged, calls return
    "rel": (SAN + " -DNDEBUG", "g++", "gcc"),
    # fast, for volume
    "fast": ("-O2 -g1", "g++", "gcc"),
    "fastrel": ("-O2 -g1 -DNDEBUG", "g++", "gcc"),
    "tsan": ("-O1 -g1 -fsanitize=thread", "g++", "gcc"),
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-6000:]))
    return p.stdout.decode("utf-8", "replace")


def flavour_dir(scratch, fl):
    return os.path.join(scratch, "build-" + fl)


def libs(scratch, fl, exe=False):
    """Configures and builds the libraries (and the vcdiff program)."""
    flags, cxx, cc = FLAVOURS[fl]
    b = flavour_dir(scratch, fl)
    sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
        "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_COMPILER=" + cxx,
        "-DCMAKE_C_COMPILER=" + cc, "-DBUILD_TESTING=OFF", "-Dvcdiff_use_system_gflags=ON"],
       env=dict(os.environ, CC=cc, CXX=cxx))
    targets = ["vcdcom_STATIC", "vcddec_STATIC", "vcdenc_STATIC"] + (["vcdiff"] if exe else [])
    sh(["ninja", "-C", b] + targets)
    return b


def driver(scratch, fl, name):
    flags, cxx, _ = FLAVOURS[fl]
    b = flavour_dir(scratch, fl)
    out = os.path.join(b, name)
    sh([cxx, "-std=c++14"] + flags.split() + ["-I" + b, "-I" + os.path.join(REPO, "src"),
        "-I" + os.path.join(REPO, "src", "zlib"), "-I" + HARNESS, os.path.join(HARNESS, name + ".cc"), "-o", out + ".tmp",
        "-L" + b, "-lvcdenc", "-lvcddec", "-lvcdcom", "-lpthread"])
    os.rename(out + ".tmp", out)
    return out


def build(scratch, wanted):
    """wanted: list of (flavour, driver or 'vcdiff')."""
    res = {}
    fls = sorted(set(f for f, _ in wanted))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda f: libs(scratch, f, (f, "vcdiff") in wanted), fls))
        jobs = {}
        for f, d in wanted:
            if d == "vcdiff":
                res[(f, d)] = os.path.join(flavour_dir(scratch, f), "vcdiff")
            else:
                jobs[(f, d)] = ex.submit(driver, scratch, f, d)
        for k, j in jobs.items():
            res[k] = j.result()
    return res

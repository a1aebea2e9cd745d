"""Builds Cottontail's library and the drivers from /repo's working tree.

Objects are cached by content hash (source + every header + flags), so a check
always reflects the current tree whatever the time stamps say, and a change to
one .cc file costs one compilation.
"""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
FLAVORS = {
    "std": ["-std=c++20", "-O1", "-g1", "-w", "-pthread"],
    "fast": ["-std=c++20", "-O2", "-DNDEBUG", "-w", "-pthread"],
}
HOOK = []  # no hooks are needed at present


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers(root):
    hs = []
    for d in ("src", "gcl", "meadowlark", "external"):
        for dp, _, fs in os.walk(os.path.join(root, d)):
            hs += [os.path.join(dp, f) for f in fs if f.endswith((".h", ".hpp"))]
    return sorted(hs)


def _compile(src, obj, flags):
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile %s failed:\n%s" % (src, r.stderr[-4000:]))
    os.replace(tmp, obj)


def build(drivers, flavor="std"):
    """Returns {driver: path}. A driver is harness/<name>.cc."""
    os.makedirs(os.path.join(BUILD, flavor), exist_ok=True)
    lock = open(os.path.join(BUILD, flavor, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        flags = FLAVORS[flavor] + HOOK + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
        rh = _sha(*[x for h in _headers(REPO) for x in (os.path.relpath(h, REPO), _read(h))])
        hh = _sha(*[_read(h) for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))])
        jobs, libobjs = [], []
        odir = os.path.join(BUILD, flavor, "obj")
        os.makedirs(odir, exist_ok=True)
        keep = set()
        for d in ("src", "gcl", "meadowlark"):
            for s in sorted(glob.glob(os.path.join(REPO, d, "*.cc"))):
                k = _sha(" ".join(flags), rh, os.path.relpath(s, REPO), _read(s))
                o = os.path.join(odir, k + ".o")
                libobjs.append(o)
                if not os.path.exists(o):
                    jobs.append((s, o))
        drvobjs = {}
        for d in drivers:
            s = os.path.join(VERIF, "harness", d + ".cc")
            k = _sha(" ".join(flags), rh, hh, d, _read(s))
            o = os.path.join(odir, k + ".o")
            drvobjs[d] = (o, k)
            if not os.path.exists(o):
                jobs.append((s, o))
        with ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
            list(ex.map(lambda j: _compile(j[0], j[1], flags), jobs))
        lk = _sha(*[os.path.basename(o) for o in libobjs])
        lib = os.path.join(BUILD, flavor, "lib%s.a" % lk)
        if not os.path.exists(lib):
            tmp = lib + ".tmp"
            if os.path.exists(tmp):
                os.remove(tmp)
            subprocess.run(["ar", "rcs", tmp] + libobjs, check=True)
            for old in glob.glob(os.path.join(BUILD, flavor, "lib*.a")):
                os.remove(old)
            os.replace(tmp, lib)
        out = {}
        for d in drivers:
            o, k = drvobjs[d]
            exe = os.path.join(BUILD, flavor, "%s-%s" % (d, _sha(lk, k)[:12]))
            if not os.path.exists(exe):
                for old in glob.glob(os.path.join(BUILD, flavor, d + "-*")):
                    os.remove(old)
                tmp = exe + ".tmp"
                r = subprocess.run([CXX, "-pthread", "-rdynamic", "-o", tmp, o, lib, "-lz", "-ldl"],
                                   capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError("link %s failed:\n%s" % (d, r.stderr[-4000:]))
                os.replace(tmp, exe)
            out[d] = exe
        return out
    finally:
        lock.close()


def build_preload():
    """The fault-injection library (no Cottontail code in it)."""
    os.makedirs(BUILD, exist_ok=True)
    s = os.path.join(VERIF, "harness", "faultfs.c")
    so = os.path.join(BUILD, "faultfs-%s.so" % _sha(_read(s))[:12])
    if not os.path.exists(so):
        tmp = so + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", tmp, s, "-ldl", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("faultfs failed:\n" + r.stderr)
        os.replace(tmp, so)
    return so


if __name__ == "__main__":
    ds = [os.path.basename(f)[:-3] for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cc")))]
    print(build(ds))
    if os.path.exists(os.path.join(VERIF, "harness", "faultfs.c")):
        print(build_preload())

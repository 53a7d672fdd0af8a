"""Out-of-tree builds of the code under test.

The sources are compiled from /repo's working tree into /verif/.build (ignored
by git), one object per source file, keyed by a hash of everything that can
influence it, so an unchanged tree is compiled once and a changed one again.
"""
import hashlib, os, subprocess, sys, glob, concurrent.futures, fcntl, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".build"))
HARN = os.path.join(VERIF, "harness")
PYINC = "/usr/include/python3.12"
NPINC = "/usr/lib/python3/dist-packages/numpy/core/include"
PYLIB = "/usr/lib/python3.12/config-3.12-x86_64-linux-gnu"
CXX = "g++"


class BuildError(Exception):
    pass


def _hash_tree():
    h = hashlib.sha256()
    fs = []
    for d, _, names in os.walk(SRC):
        for n in names:
            if n.endswith((".h", ".hpp", ".cpp", ".c", ".cc", ".inc")):
                fs.append(os.path.join(d, n))
    fs.sort()
    for f in fs:
        h.update(os.path.relpath(f, SRC).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ("shim.h", "engine.cpp"):
        with open(os.path.join(HARN, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def _flags(engine, extra=()):
    f = ["-O1", "-g1", "-std=c++11", "-w", "-fPIC", "-include", os.path.join(HARN, "shim.h"),
         "-I" + SRC, "-I" + HARN, "-I" + PYINC, "-I" + NPINC]
    if engine:
        f.append("-DVERIF_ENGINE")
    return f + list(extra)


def library(engine=True):
    """Compile every source of the repository except main.cpp; return the archive."""
    key = _hash_tree() + ("e" if engine else "n")
    d = os.path.join(CACHE, key)
    lib = os.path.join(d, "libfs.a")
    if os.path.exists(lib):
        return lib
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib):
            return lib
        srcs = [f for f in sorted(glob.glob(SRC + "/**/*.cpp", recursive=True))
                if os.path.basename(f) != "main.cpp"]
        srcs.append(os.path.join(HARN, "engine.cpp"))
        jobs = []
        for s in srcs:
            o = os.path.join(d, hashlib.md5(s.encode()).hexdigest() + ".o")
            jobs.append((s, o, [CXX] + _flags(engine) + ["-c", s, "-o", o]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: _run(j[2]), jobs))
        bad = [(j[0], r[1]) for j, r in zip(jobs, res) if r[0] != 0]
        if bad:
            raise BuildError("cannot compile %s:\n%s" % bad[0])
        tmp = lib + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        rc, out = _run(["ar", "rcs", tmp] + [j[1] for j in jobs])
        if rc:
            raise BuildError(out)
        os.rename(tmp, lib)
        for j in jobs:
            os.remove(j[1])
        _prune(key)
    return lib


def _prune(keep):
    """Keep the cache small: drop the oldest builds."""
    ds = [os.path.join(CACHE, x) for x in os.listdir(CACHE) if x != keep]
    ds = sorted([x for x in ds if os.path.isdir(x)], key=os.path.getmtime)
    for x in ds[:-6]:
        if time.time() - os.path.getmtime(x) > 1800:
            shutil.rmtree(x, ignore_errors=True)


def driver(name, engine=True, extra=()):
    """Build /verif/harness/<name>.cpp against the library; return the binary."""
    lib = library(engine)
    d = os.path.dirname(lib)
    src = os.path.join(HARN, name + ".cpp")
    h = hashlib.sha256()
    for f in [src] + sorted(glob.glob(HARN + "/*.h")):
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    exe = os.path.join(d, name + "-" + h.hexdigest()[:12])
    if os.path.exists(exe):
        return exe
    with open(os.path.join(d, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp"
        rc, out = _run([CXX] + _flags(engine, extra) + [src, "-o", tmp, lib, "-L" + PYLIB,
                        "-lpython3.12", "-ldl", "-lm", "-lpthread"])
        if rc:
            raise BuildError("cannot build the driver %s:\n%s" % (name, out[-6000:]))
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(driver(n))

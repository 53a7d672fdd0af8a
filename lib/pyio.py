"""The repository's IO.py is Python 2 and needs hickle; neither is here.  This
installs its own text, with the syntax brought up to date, and a stand-in for
hickle (pickle inside), in a scratch directory."""
import os
import build, core

HICKLE = '''
# stands in for hickle: same two functions, pickle inside
import pickle, sys, numpy
_spo = numpy.set_printoptions
def _patched(*a, **k):
    # Python 2 era numpy took nan for "no threshold"
    t = k.get("threshold")
    if t is not None and t != t:
        k["threshold"] = sys.maxsize
    return _spo(*a, **k)
numpy.set_printoptions = _patched
def dump(root, filename, mode="w", **kw):
    with open(filename, "wb") as f:
        pickle.dump(root, f)
def load(filename, **kw):
    with open(filename, "rb") as f:
        try:
            return pickle.load(f)
        except Exception as e:
            raise IOError("not a file of this kind: " + str(e)) # as h5py does
'''


def install(d):
    import py2
    with open(os.path.join(build.REPO, "IO.py"), errors="replace") as f:
        t = py2.module(f.read(), "IO.py")
    with open(os.path.join(d, "IO.py"), "w") as f:
        f.write(t)
    with open(os.path.join(d, "hickle.py"), "w") as f:
        f.write(HICKLE)


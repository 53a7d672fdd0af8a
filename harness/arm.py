
# the driver's: send a signal at a moment of a save
import os as _os
def _arm(p):
    try:
        with open("arm") as f:
            w, s = f.read().split()
    except (IOError, ValueError):
        return
    if w == p:
        _os.remove("arm")
        _os.kill(_os.getpid(), int(s))
def _armed(f, what):
    def g(*a, **k):
        _arm("before-" + what)
        r = f(*a, **k)
        _arm("after-" + what)
        return r
    return g
SaveDict = _armed(SaveDict, "para")
SaveBigDict = _armed(SaveBigDict, "statis")

"""Configurations for the Monte Carlo driver: input files for the real code and
the same numbers as constants of spec/Diagram.tla."""
import json, os, random
import numpy as np

IO_PY = '''
import pprint, pickle
from numpy import *
import sys
set_printoptions(threshold=sys.maxsize)
def SaveDict(filename, mode, root):
    if filename[-4:] != ".txt":
        filename += ".txt"
    with open(filename, mode) as f:
        f.write(pprint.pformat(root))
def LoadDict(filename):
    if filename[-4:] != ".txt":
        filename += ".txt"
    with open(filename, "r") as f:
        return eval(f.read())
def SaveBigDict(filename, root):
    if filename[-4:] != ".hkl":
        filename += ".hkl"
    with open(filename, "wb") as f:
        pickle.dump(root, f)
def LoadBigDict(filename):
    if filename[-4:] != ".hkl":
        filename += ".hkl"
    with open(filename, "rb") as f:
        return pickle.load(f)
'''


def code(e, p):
    return (e + 8) * 4 + p


def val(c, scale=0):
    if c < 0:
        return 0j
    e, p = c // 4 - 8 + scale, c % 4
    return 2.0 ** e * [1, 1j, -1, -1j][p]


# kind: full (no zero weights), spin (spin-conserving and local, as the physical
# models are)
CONFIGS = {
    "A": dict(L=[4, 1], nsub=1, nt=4, ntt=2, order=3, lb=0, g3=False, kind="full"),
    "B": dict(L=[1, 4], nsub=1, nt=4, ntt=4, order=4, lb=1, g3=False, kind="full"),
    "C": dict(L=[2, 2], nsub=2, nt=8, ntt=2, order=3, lb=-1, g3=False, kind="spin"),
    "D": dict(L=[2, 4], nsub=1, nt=4, ntt=4, order=4, lb=2, g3=True, kind="local"),
    "E": dict(L=[4, 1], nsub=1, nt=2, ntt=4, order=5, lb=1, g3=False, kind="full"),
    "F": dict(L=[4, 1], nsub=1, nt=8, ntt=2, order=2, lb=0, g3=True, kind="local"),
    "G": dict(L=[4, 1], nsub=2, nt=4, ntt=2, order=6, lb=0, g3=True, kind="spin"),
    "H": dict(L=[2, 1], nsub=1, nt=16, ntt=8, order=9, lb=3, g3=True, kind="local"),
}


def make(d, name, seed, **over):
    c = dict(CONFIGS[name])
    c.update(over)
    rnd = random.Random(seed * 1000 + sum(map(ord, name)))
    L, nsub, nt, ntt = c["L"], c["nsub"], c["nt"], c["ntt"]
    vol = L[0] * L[1]
    beta = 2.0 ** c["lb"]
    order = c["order"]
    kind = c["kind"]
    # flat: all weights of modulus one
    rc = lambda: code(0 if c.get("flat") else rnd.choice([-1, 0, 0, 1]), rnd.randrange(4))

    # propagator: diagonal in spin and, unless "full", local in space
    GT = []
    for si in range(2):
        for a in range(nsub):
            for so in range(2):
                for b in range(nsub):
                    for r in range(vol):
                        for t in range(nt):
                            z = si != so or (kind != "full" and (a != b or r != 0))
                            GT.append(-1 if z else rc())
    WT, DT = [], []
    for pi in range(4):
        for a in range(nsub):
            for po in range(4):
                for b in range(nsub):
                    for r in range(vol):
                        # in/out spins of the two ends
                        ii, io, oi, oo = pi >> 1, pi & 1, po >> 1, po & 1
                        ok = kind in ("full",) or ii + oi == io + oo
                        for t in range(nt):
                            WT.append(rc() if ok else -1)
                        okd = ok and (kind == "full" or (a == b and r == 0) or c.get("flat") or rnd.random() < 0.7)
                        DT.append(rc() if okd else -1)
    GGT = [rc() for _ in range(2 * vol * nt * nt)]
    # squeezed index tables: any maps will do for the bookkeeping
    RSize = max(1, vol * vol // 2 + 1)
    TauSize = ntt * (ntt + 1) // 2
    RSq = [rnd.randrange(RSize) for _ in range(vol * vol)]
    RSym = [rnd.choice([1, 2]) if c.get("rsym") else 1 for _ in range(vol * vol)]
    TSq = [rnd.randrange(TauSize) for _ in range(ntt * ntt)]
    TSym = [rnd.choice([1, 2]) for _ in range(ntt * ntt)]
    TFlag = [rnd.choice([0, 1]) for _ in range(ntt * ntt)]
    WWT = [rc() for _ in range(2 * RSize * TauSize)]
    orw = [rnd.choice([-1, 0, 1]) for _ in range(order + 1)]
    ratio = [rnd.choice([-1, 0, 0, 1]) if c.get("rsym") else 0 for _ in range(order + 1)]
    wsr, pr, ggr, gwr = [rnd.choice([-2, -1, 0, 1]) for _ in range(4)]

    if c.get("rsym"):
        # low orders and no worm, where there is something to measure
        slope = rnd.choice([-2, -1, -1, 0])
        orw = [max(-5, x + slope * n) for n, x in enumerate(orw)]
        wsr = rnd.choice([-6, -4, -2, -1])

    wsr = c.get("wsr", wsr)
    # the higher an order, the more diagrams it has
    orw = [x - c.get("slope", 0) * n for n, x in enumerate(orw)]
    if c.get("scale"):
        orw = [x + c["scale"] * (n > 0) for n, x in enumerate(orw)]
        pr += -3 * c["scale"]

    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "IO.py"), "w") as f:
        f.write(IO_PY)
    seedv = rnd.randrange(1, 2 ** 30)
    para = {"Job": {"Type": "MC", "DoesLoad": False, "Sample": 100, "PID": 1,
                    "WeightFile": "Weight", "MessageFile": "Message"},
            "Para": {"Version": 0,
                     "Tau": {"Beta": beta, "MaxTauBin": nt, "MaxTauBinTiny": ntt},
                     "Lattice": {"NSublat": nsub, "L": L},
                     "Markov": {"Toss": 10, "Sweep": 1,
                                "WormSpaceReweight": 2.0 ** wsr, "PolarReweight": 2.0 ** pr,
                                "runGamma3": c["g3"],
                                "GammaGReweight": 2.0 ** ggr, "GammaWReweight": 2.0 ** gwr,
                                "OrderReWeight": [2.0 ** x for x in orw],
                                "OrderTimeRatio": [2.0 ** x for x in ratio],
                                "Order": order, "Counter": 0, "Seed": seedv,
                                "Timer": {"PrinterTimer": 100, "DiskWriterTimer": 100,
                                          "MessageTimer": 100, "ReweightTimer": 100}}}}
    import pprint
    with open(os.path.join(d, "infile.txt"), "w") as f:
        f.write(pprint.pformat(para))
    for b in ("FermiBasis", "BoseBasis"):
        with open(os.path.join(d, b + ".dat.txt"), "w") as f:
            f.write(pprint.pformat({"Beta": beta, "MaxTauBin": float(ntt), "Number": 2.0,
                                    "Basis": [[1.0] * ntt, [0.5] * ntt]}))
    # scale s: propagators 2^s times larger and interactions 4^s times smaller, so that the weights of lines
    # and of diagrams are far from one; the reweighting of orders and sectors makes up for what remains
    sc = c.get("scale", 0)
    arr = lambda t, sh, e=-2 * sc: np.array([val(x, e) for x in t], dtype=complex).reshape(sh)
    weight = {"G": {"SmoothT": arr(GT, (2, nsub, 2, nsub, vol, nt), sc)},
              "W": {"SmoothT": arr(WT, (4, nsub, 4, nsub, vol, nt)),
                    "DeltaT": arr(DT, (4, nsub, 4, nsub, vol))}}
    if c["g3"]:
        weight["GGGammaG"] = {"SmoothT": arr(GGT, (2, vol, nt, nt), sc)}
        weight["WWGammaW"] = {"SmoothT": arr(WWT, (2, RSize, TauSize)),
                              "RSqueeze": RSq, "RSymFactor": RSym, "TauSqueeze": TSq,
                              "TauSymFactor": TSym, "TauFlag": TFlag,
                              "RSize": RSize, "TauSize": TauSize}
    import pickle
    with open(os.path.join(d, "Weight.hkl"), "wb") as f:
        pickle.dump(weight, f)
    cfg = dict(maxk=10000, maxord=order, lb=c["lb"], Lx=L[0], Ly=L[1], nsub=nsub, nt=nt, ntt=ntt,
               g3=c["g3"], orw=orw, wsr=wsr, pr=pr, ggr=ggr, gwr=gwr, GT=GT, WT=WT, DT=DT,
               GGT=GGT, WWT=WWT, RSq=RSq, TSq=TSq, TFlag=TFlag, RSize=RSize, TauSize=TauSize,
               gs=sc, ws=-2 * sc, flat=bool(c.get("flat")), fine=bool(c.get("fine")), RSym=RSym, TSym=TSym, ratio=ratio, seed=seedv, nonlocalg=(kind == "full"))
    with open(os.path.join(d, "cfg.json"), "w") as f:
        json.dump(cfg, f)
    if c.get("anneal"):
        # what a second round publishes: another temperature, other weights with the same zeros
        new = lambda t: [x if x < 0 else rc() for x in t]
        cfg2 = dict(cfg, lb=c["lb"] + c["anneal"], GT=new(GT), WT=new(WT), DT=new(DT), GGT=new(GGT), WWT=new(WWT))
        w2 = {"G": {"SmoothT": arr(cfg2["GT"], (2, nsub, 2, nsub, vol, nt), sc)},
              "W": {"SmoothT": arr(cfg2["WT"], (4, nsub, 4, nsub, vol, nt)),
                    "DeltaT": arr(cfg2["DT"], (4, nsub, 4, nsub, vol))}}
        if c["g3"]:
            w2["GGGammaG"] = {"SmoothT": arr(cfg2["GGT"], (2, vol, nt, nt), sc)}
            w2["WWGammaW"] = dict(weight["WWGammaW"], SmoothT=arr(cfg2["WWT"], (2, RSize, TauSize)))
        with open(os.path.join(d, "Weight2.hkl"), "wb") as f:
            pickle.dump(w2, f)
        for b in ("FermiBasis", "BoseBasis"):
            with open(os.path.join(d, b + ".dat2.txt"), "w") as f:
                f.write(pprint.pformat({"Beta": 2.0 ** cfg2["lb"], "MaxTauBin": float(ntt), "Number": 2.0,
                                        "Basis": [[1.0] * ntt, [0.5] * ntt]}))
        with open(os.path.join(d, "Message2.txt"), "w") as f:
            f.write(pprint.pformat({"Version": 1, "Beta": 2.0 ** cfg2["lb"], "SqueezeFactor": 2.0}))
        with open(os.path.join(d, "cfg2.json"), "w") as f:
            json.dump(cfg2, f)
    return cfg

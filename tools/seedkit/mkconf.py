"""mkconf.py DIR SEED ORDER NSUB G3 KIND [key=value ...]: an input file, bases and weights for one run."""
import sys, os, random, pprint, pickle
import numpy as np
d, seed, order, nsub, g3, kind = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] == "1", sys.argv[6]
kv = dict(x.split("=") for x in sys.argv[7:])
rnd = random.Random(seed)
L = [2, 2]; vol = 4; nt = 8; ntt = 4
beta = float(kv.get("beta", 1.0))
z = lambda: 1.0 if "flat" in kv else complex(rnd.uniform(.4, 1.2) * rnd.choice([1, -1]), rnd.uniform(.4, 1.2))
G = np.zeros((2, nsub, 2, nsub, vol, nt), complex)
for s in range(2):
    for a in range(nsub):
        for b in range(nsub):
            for r in range(vol):
                for t in range(nt):
                    if kind == "full" or (a == b and r == 0):
                        G[s, a, s, b, r, t] = z()
W = np.zeros((4, nsub, 4, nsub, vol, nt), complex)
D = np.zeros((4, nsub, 4, nsub, vol), complex)
for p in range(4):
    for q in range(4):
        if (p >> 1) + (q >> 1) == (p & 1) + (q & 1) or kind == "full":
            for a in range(nsub):
                for b in range(nsub):
                    for r in range(vol):
                        D[p, a, q, b, r] = z()
                        for t in range(nt):
                            W[p, a, q, b, r, t] = z()
w = {"G": {"SmoothT": G}, "W": {"SmoothT": W, "DeltaT": D}}
if g3:
    w["GGGammaG"] = {"SmoothT": np.array([z() for _ in range(2 * vol * nt * nt)]).reshape(2, vol, nt, nt)}
    RS, TS = 5, 10
    w["WWGammaW"] = {"SmoothT": np.array([z() for _ in range(2 * RS * TS)]).reshape(2, RS, TS),
                     "RSqueeze": [rnd.randrange(RS) for _ in range(vol * vol)], "RSymFactor": [1] * (vol * vol),
                     "TauSqueeze": [rnd.randrange(TS) for _ in range(ntt * ntt)], "TauSymFactor": [1] * (ntt * ntt),
                     "TauFlag": [rnd.choice([0, 1]) for _ in range(ntt * ntt)], "RSize": RS, "TauSize": TS}
para = {"Job": {"Type": "MC", "DoesLoad": False, "Sample": 100, "PID": 1, "WeightFile": "Weight", "MessageFile": "Message"},
        "Para": {"Version": 0, "Tau": {"Beta": beta, "MaxTauBin": nt, "MaxTauBinTiny": ntt},
                 "Lattice": {"NSublat": nsub, "L": L},
                 "Markov": {"Toss": 10, "Sweep": 1, "WormSpaceReweight": float(kv.get("wsr", .5)), "PolarReweight": float(kv.get("pr", 2.)),
                            "runGamma3": g3, "GammaGReweight": float(kv.get("ggr", 1.)), "GammaWReweight": float(kv.get("gwr", 1.)),
                            "OrderReWeight": [float(kv.get("or%d" % i, 1.)) for i in range(order + 1)],
                            "OrderTimeRatio": [1.0] * (order + 1), "Order": order, "Counter": 0, "Seed": 519 + seed,
                            "Timer": {"PrinterTimer": 100, "DiskWriterTimer": 100, "MessageTimer": 100, "ReweightTimer": 100}}}}
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "infile.txt"), "w").write(pprint.pformat(para))
for b in ("FermiBasis", "BoseBasis"):
    open(os.path.join(d, b + ".dat.txt"), "w").write(pprint.pformat(
        {"Beta": beta, "MaxTauBin": float(ntt), "Number": 2.0, "Basis": [[1.0] * ntt, [.5] * ntt]}))
pickle.dump(w, open(os.path.join(d, "Weight.hkl"), "wb"))
open(os.path.join(d, "IO.py"), "w").write('''
import pprint, pickle
from numpy import *
import sys
set_printoptions(threshold=sys.maxsize)
def _n(f, e):
    return f if f[-4:] == e else f + e
def SaveDict(filename, mode, root):
    with open(_n(filename, ".txt"), mode) as f:
        f.write(pprint.pformat(root))
def LoadDict(filename):
    with open(_n(filename, ".txt"), "r") as f:
        return eval(f.read())
def SaveBigDict(filename, root):
    with open(_n(filename, ".hkl"), "wb") as f:
        pickle.dump(root, f)
def LoadBigDict(filename):
    with open(_n(filename, ".hkl"), "rb") as f:
        return pickle.load(f)
''')

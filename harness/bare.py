"""Bare propagators and interactions the coordinator's own model.BareFactory
builds, in the directory it is started in.
   bare.py OUT SEED ROUNDS"""
import copy, itertools, json, math, os, random, sys
import numpy as np

WS = os.getcwd()
OUT = None
NAMES = ["Chain", "Square", "Checkerboard", "ValenceBond", "Triangular", "Assymetric_Triangular", "Honeycomb", "Kitaev", "Kagome", "Cubic", "3DCheckerboard", "Pyrochlore"]
DIM = dict(Chain=1, Cubic=3, Pyrochlore=3)
DIM["3DCheckerboard"] = 3
NSUB = dict(Checkerboard=2, ValenceBond=2, Assymetric_Triangular=3, Honeycomb=2, Kitaev=2, Kagome=3, Pyrochlore=4)
NSUB["3DCheckerboard"] = 2


def emit(k, **kw):
    OUT.write('{"k":"%s",' % k + json.dumps(kw)[1:] + "\n")
    OUT.flush()


def ri(x, u=1.0):
    x = float(x) * u
    return int(round(x)) if abs(x) < 2e9 else 2147483646


def look(Map, G0, W0, L, nsub, nt):
    W0.FFT("R", "T")
    G0.FFT("R", "T")
    rows, g = [], []
    exact = True
    if list(W0.Data.shape) != [4, nsub, 4, nsub, Map.Vol] or list(G0.Data.shape) != [2, nsub, 2, nsub, Map.Vol, nt]:
        emit("fail", what="shape of the bare weights")
        return
    for p, a, q, b, v in itertools.product(range(4), range(nsub), range(4), range(nsub), itertools.product(*[range(n) for n in L])):
        z = complex(W0.Data[p, a, q, b, Map.CoordiIndex(v)])
        if abs(z) > 1e-9:
            rows.append([p, a, q, b, list(v), ri(z.real, 64)])
            exact = exact and abs(z.real * 64 - ri(z.real, 64)) < 1e-6 and abs(z.imag) < 1e-9
    rest = G0.Data.copy()
    for s, a in itertools.product(range(2), range(nsub)):
        o = Map.CoordiIndex((0,) * len(L))
        g.append([[ri(z.real, 10000), ri(z.imag, 10000)] for z in rest[s, a, s, a, o, :]])
        rest[s, a, s, a, o, :] = 0
    emit("built", w=rows, exact=int(exact), g=g, elsewhere=int(np.count_nonzero(np.abs(rest) > 1e-12)))


def round_(rng, r):
    import weight, model, lattice
    name = NAMES[r % len(NAMES)]
    lat = "Honeycomb" if name == "Kitaev" else name
    dim, nsub = DIM.get(name, 2), NSUB.get(name, 1)
    L = [rng.choice([2, 3, 4] if dim < 3 and nsub < 3 else [2, 3]) for _ in range(dim)]
    if dim == 1:
        L = [rng.choice([2, 3, 4, 5, 6])]
    if dim == 3 and nsub == 4:
        L = rng.choice([[2, 2, 2], [3, 2, 2], [2, 3, 2], [2, 2, 3], [3, 3, 2]])
    nt = rng.choice([1, 2, 3, 4])
    beta = rng.choice([0.5, 0.9, 1.0, 2.0, 3.7])
    unit = 2 * math.log(2.0) / beta / 8
    J = [rng.randrange(-40, 41) for _ in range(4)]
    how = rng.randrange(3)
    if name == "Kitaev":
        mod, given = "Kitaev", J[:3]
    elif name == "ValenceBond":
        mod, given = "J1J2", J
        J[2] = 0
    elif how == 0 and name not in ("Assymetric_Triangular",):
        mod, given, J = "Heisenberg", J[:1], [J[0], 0, 0, 0]
    elif how == 1 or name not in ("Kagome", "Pyrochlore"):
        mod, given, J = "J1J2", J[:2], [J[0], J[1], 0, 0]
    else:
        mod, given, J = "J1J2", J[:3], J[:3] + [0]
    # fields, in eighths of 2 ln 2 / beta
    total = [rng.choice([-8, 0, 8]) if rng.random() < 0.7 else rng.choice([-8, 0, 8]) + rng.choice([-4, 4]) for _ in range(nsub)]
    delta = [0] * nsub if rng.random() < 0.4 else [rng.choice([-16, -8, 0, 8, 16]) for _ in range(nsub)]
    ext = [t - d for t, d in zip(total, delta)]
    interval = [rng.choice([-8, 8, 16, -16]) for _ in range(nsub)]
    if delta[0] and rng.random() < 0.5:
        interval = [-8 if d > 0 else 8 if d < 0 else 0 for d in delta]
    emit("about", name="C3D" if lat == "3DCheckerboard" else lat, kitaev=int(name == "Kitaev"), L=L, nsub=nsub, nt=nt, beta=ri(beta, 1000), J=J, ext=ext, delta=delta, interval=interval, model=mod)
    Map = weight.IndexMap(Beta=beta, L=list(L), NSublat=nsub, MaxTauBin=nt, MaxTauBinTiny=1, BasisNum=1, Symmetry=["none", lat])
    Lat = lattice.Lattice(lat, Map)
    pts = []
    for a, b, v in itertools.product(range(nsub), range(nsub), itertools.product(*[range(n) for n in L])):
        x = np.array(Lat.GetRealVec(np.array(v), a, b, np.array([0] * dim)), dtype=float)
        pts.append([a, b, list(v), ri(np.dot(x, x), 14400)])
    emit("sites", pts=pts)
    ham = {"Name": mod, "Interaction": [x / 16.0 for x in given], "ExternalField": [x * unit for x in ext]}
    anneal = {"DeltaField": [x * unit for x in delta], "Interval": [x * unit for x in interval]}
    F = model.BareFactory(Map, Lat, ham, anneal)
    for step in range(rng.randrange(2, 6)):
        G0, W0 = F.Build()
        look(Map, G0, W0, L, nsub, nt)
        if rng.random() < 0.65:
            f = F.DecreaseField(anneal)
            emit("decrease", said=int(bool(f)), delta=[ri(x, 1 / unit) for x in anneal["DeltaField"]], interval=[ri(x, 1 / unit) for x in anneal["Interval"]])
        elif max(abs(x) for x in anneal["Interval"]) > 3.9 * unit:
            F.RevertField(anneal)
            emit("revert", delta=[ri(x, 1 / unit) for x in anneal["DeltaField"]], interval=[ri(x, 1 / unit) for x in anneal["Interval"]])


def go():
    global OUT
    out, seed, rounds = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sys.argv[:] = ["main.py"]
    sys.path[:0] = [os.path.join(WS, "dyson"), WS]
    OUT = open(out, "w")
    emit("run", seed=seed)
    n = os.open("python.log", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(n, 1)
    os.dup2(n, 2)
    for r in range(rounds):
        try:
            round_(random.Random(seed * 1000 + r), seed + r)
        except BaseException:
            import traceback
            t = traceback.format_exc()
            print(t)
            emit("fail", what="".join(ch for ch in t[-300:] if 32 <= ord(ch) < 127 and ch not in '"\\'))
    OUT.write('{"k":"end"}\n')
    OUT.flush()


go()

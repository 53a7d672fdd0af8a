"""Fourier transforms and observables of the coordinator's own modules, in the
directory it is started in.
   observe.py OUT SEED ROUNDS"""
import itertools, json, math, os, random, sys
import numpy as np

WS = os.getcwd()
OUT = None
NAMES = ["Chain", "Square", "Checkerboard", "ValenceBond", "Triangular", "Assymetric_Triangular", "Honeycomb", "Kagome", "Cubic", "3DCheckerboard", "Pyrochlore"]
DIM = dict(Chain=1, Cubic=3, Pyrochlore=3)
DIM["3DCheckerboard"] = 3
NSUB = dict(Checkerboard=2, ValenceBond=2, Assymetric_Triangular=3, Honeycomb=2, Kagome=3, Pyrochlore=4)
NSUB["3DCheckerboard"] = 2


def emit(k, **kw):
    OUT.write('{"k":"%s",' % k + json.dumps(kw)[1:] + "\n")
    OUT.flush()


def ri(x, u=1.0):
    x = float(x) * u
    return int(round(x)) if abs(x) < 2e9 else 2147483646


def zi(z, u=1.0):
    z = complex(z)
    return [ri(z.real, u), ri(z.imag, u)]


def flat(a, u=1.0):
    return [zi(z, u) for z in np.asarray(a).flatten()]


def numbers(rng, shape, real=False):
    n = int(np.prod(shape))
    return np.array([complex(rng.randrange(-9, 10), 0 if real else rng.randrange(-9, 10)) for _ in range(n)]).reshape(shape)


def pretty(name):
    return "C3D" if name == "3DCheckerboard" else name


def makemap(weight, L, nsub, nt, beta):
    return weight.IndexMap(Beta=beta, L=list(L), NSublat=nsub, MaxTauBin=nt, MaxTauBinTiny=1, BasisNum=1, Symmetry=["none", "Square"])


def transforms(rng, weight):
    dim = rng.choice([1, 2, 2, 3])
    L = [rng.choice([1, 2, 3, 4] if dim < 3 else [1, 2, 3]) for _ in range(dim)]
    if np.prod(L) > 9:
        L = [2] * dim
    nt, nsub = rng.choice([1, 2, 3]), rng.choice([1, 1, 2])
    kind, spins, sym = rng.choice(["SmoothT", "SmoothT", "DeltaT"]), rng.choice(["NoSpin", "TwoSpins"]), rng.choice(["Symmetric", "AntiSymmetric"])
    if np.prod(L) * nt > 12 and nsub == 2:
        spins = "NoSpin"
    Map = makemap(weight, L, nsub, nt, rng.choice([0.5, 1.0, 3.0]))
    # the class compares these names by identity
    S = {"SmoothT": "SmoothT", "DeltaT": "DeltaT"}
    W = weight.Weight(S[kind], Map, sys.intern(spins), sys.intern(sym), "R", "T")
    W.Data = numbers(rng, W.Shape)
    before = flat(W.Data)
    ops, where = [], ["R", "T"]
    for _ in range(rng.randrange(1, 6)):
        args = rng.choice([["K"], ["R"], ["W"], ["T"], ["K", "W"], ["R", "T"], ["R", "W"], ["K", "T"], ["W", "K"], ["T", "R"]])
        W.FFT(*[sys.intern(a) for a in args])
        ops.append(args)
        for a in args:
            where[0 if a in "RK" else 1] = a
    emit("fft", smooth=int(kind == "SmoothT"), anti=int(sym == "AntiSymmetric"), L=L, nt=nt, sp=(1 if spins == "NoSpin" else 2) * nsub, ops=ops, space=where[0], time=where[1],
         before=before, after=flat(W.Data, 1000), shape=[int(x) for x in W.Data.shape])
    # back again
    W.FFT("R", "T")
    emit("back", before=before, after=flat(W.Data, 1000), ops=ops)


def choose(rng, names, even=False):
    name = rng.choice(names)
    dim, nsub = DIM.get(name, 2), NSUB.get(name, 1)
    L = [rng.choice([2, 4] if even else [2, 3, 4]) for _ in range(dim)]
    while np.prod(L) * nsub * nsub > 130:
        L[rng.randrange(dim)] = 2
    return name, L, nsub


def components(lat, K):
    """A momentum by its products with the unit vectors, in units of 2 pi / size."""
    return [ri(np.dot(np.array(lat.LatVec[d], dtype=float), K) / (2 * math.pi) * lat.L[d], 1000) for d in range(len(lat.L))]


def momenta(rng, weight, lattice):
    name, L, nsub = choose(rng, NAMES)
    Map = makemap(weight, L, nsub, 1, 1.0)
    lat = lattice.Lattice(name, Map)
    D = numbers(rng, (nsub, nsub, Map.Vol))
    ps = [[rng.randrange(-5, 9) for _ in L] for _ in range(3)]
    K, F = lat.FourierTransformation(D.copy(), [tuple(p) for p in ps], "Integer")
    emit("ft", name=pretty(name), L=L, nsub=nsub, data=flat(D), p=ps, K=[components(lat, k) for k in K], F=[zi(f * nsub, 1000) for f in F])
    # the same by the momentum itself
    K2, F2 = lat.FourierTransformation(D.copy(), [tuple(k) for k in K], "Real")
    emit("ft", name=pretty(name), L=L, nsub=nsub, data=flat(D), p=ps, K=[components(lat, k) for k in K2], F=[zi(f * nsub, 1000) for f in F2])
    if hasattr(lat, "Path") and name not in ("Kagome",):
        i = rng.randrange(len(lat.Path) - 1)
        a, b = np.atleast_1d(np.array(lat.Path[i], dtype=float)), np.atleast_1d(np.array(lat.Path[i + 1], dtype=float))
        c = np.array(rng.choice(lat.IndependtBZCenter), dtype=float)
        ks = lat.GetKVecAlongPath(a, b, c)
        frac = lambda x: [ri(np.dot(np.array(lat.LatVec[d], dtype=float), x) / (2 * math.pi), 24) for d in range(len(L))]
        emit("path", name=pretty(name), L=L, start=frac(a), end=frac(b), K=[components(lat, np.asarray(k) - c) for k in ks])


def measuring(rng, weight, lattice, measure, model):
    name, L, nsub = choose(rng, [n for n in NAMES if n not in ("Honeycomb",)], even=True)
    if name == "Triangular":
        L = rng.choice([[2, 2], [3, 3], [4, 4]])
    nt, beta = rng.choice([2, 3, 4]), rng.choice([0.5, 1.0, 2.0])
    Map = makemap(weight, L, nsub, nt, beta)
    lat = lattice.Lattice(name, Map)
    mk = lambda sp, sym: weight.Weight("SmoothT", Map, sys.intern(sp), sys.intern(sym), "R", "T")
    F = model.BareFactory(Map, lat, {"Name": "J1J2", "Interaction": [1.0, 0.5, 0.25, 0.125], "ExternalField": [0.0] * 4}, {"DeltaField": [0.0] * 4, "Interval": [0.0] * 4})
    F.Build()
    obs = measure.Observable(Map, lat)
    count = rng.randrange(1, 4)
    emit("system", name=pretty(name), L=L, nsub=nsub, nt=nt, beta=ri(beta, 1000))
    if rng.random() < 0.5:
        try:
            obs.Load("nothing_there")
        except Exception:
            pass
    for n in range(count):
        Chi, BK, G = mk("NoSpin", "Symmetric"), mk("NoSpin", "Symmetric"), mk("TwoSpins", "AntiSymmetric")
        for w in (Chi, BK, G):
            w.Data = numbers(rng, w.Shape)
        D = np.array([[float(rng.randrange(-50, 50)) for _ in range(nt)] for _ in range(Map.Vol)])
        given = dict(chi=flat(Chi.Data), bk=flat(BK.Data), g=flat(G.Data), least=ri(D.min()))
        # wherever they are when they come
        for w in (Chi, BK, G):
            w.FFT(*[sys.intern(x) for x in rng.choice([["R"], ["K"], ["K", "W"], ["W"]])])
        obs.Measure(Chi, BK, D, G, F.NearestNeighbor)
        obs.Save("Observed")
        for w in (Chi, BK, G):
            w.FFT("R", "T")
        kept = dict(chi=flat(Chi.Data), bk=flat(BK.Data), g=flat(G.Data))
        with open([f for f in os.listdir(".") if f.startswith("Observed")][0]) as f:
            got = eval(f.read(), {"nan": float("nan"), "inf": float("inf"), "array": np.array, "np": np, "complex": complex, "float": float})
        emit("measured", n=n + 1, given=given, kept=kept, values=[[k, [zi(x, 1000) for x in v]] for k, v in sorted(got.items())])
        if rng.random() < 0.3:
            try:
                obs.Load("nothing_there")
            except Exception:
                pass
        if rng.random() < 0.3:
            obs = measure.Observable(Map, lat)
            obs.Load([f for f in os.listdir(".") if f.startswith("Observed")][0].replace(".txt", ""))


def round_(rng):
    import weight, lattice, measure, model
    for _ in range(3):
        transforms(rng, weight)
    for _ in range(2):
        momenta(rng, weight, lattice)
    measuring(rng, weight, lattice, measure, model)


def go():
    global OUT
    out, seed, rounds = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sys.argv[:] = ["main.py"]
    sys.path[:0] = [os.path.join(WS, "dyson"), WS]
    OUT = open(out, "w")
    emit("run", seed=seed)
    n = os.open("python.log", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(n, 1)
    os.dup2(n, 2)
    for r in range(rounds):
        for f in os.listdir("."):
            if f.startswith("Observed"):
                os.remove(f)
        try:
            round_(random.Random(seed * 1000 + r))
        except BaseException:
            import traceback
            t = traceback.format_exc()
            print(t)
            emit("fail", what="".join(ch for ch in t[-300:] if 32 <= ord(ch) < 127 and ch not in '"\\'))
    OUT.write('{"k":"end"}\n')
    OUT.flush()


go()

"""Weights on their way from the coordinator to a worker, and statistics on
their way back, in the directory it is started in.
   layout.py OUT SEED ROUNDS DRIVER
Every round is a process of its own: the coordinator's own main.Measure writes
a weight file whose numbers say where they belong, a real worker (DRIVER) reads
and measures, and the coordinator's own collect.CollectStatis reads what the
worker has saved."""
import inspect, itertools, json, os, pickle, pprint, random, shutil, subprocess, sys
import numpy as np

WS = os.getcwd()
U = 2.0 ** 20
OUT = None


def emit(k, **kw):
    OUT.write('{"k":"%s",' % k + json.dumps(kw)[1:] + "\n")
    OUT.flush()


class Stub(object):
    """Takes anything."""
    def __getattr__(self, n):
        return lambda *a, **k: None


def ri(x):
    x = float(np.real(x))
    return int(round(x)) if abs(x) < 2e9 else 2147483646


def zi(z, u=1.0):
    return [ri(z.real * u), ri(z.imag * u)]


def call(f, named):
    """f with the arguments it wants, by name."""
    p = inspect.signature(f).parameters
    return f(**{n: named[n] for n in p if n in named})


def maps(Map, L, nsub):
    vecs = list(itertools.product(*[range(n) for n in L]))
    emit("map", L=L, nsub=nsub, nt=Map.MaxTauBin, vol=ri(Map.Vol),
         index=[[list(v), ri(Map.CoordiIndex(v)), [ri(Map.LatIndex(v, s)) for s in range(nsub)]] for v in vecs],
         coordi=[[k, [ri(x) for x in Map.IndexToCoordi(k)]] for k in range(len(vecs))],
         all=[[ri(x) for x in v] for v in Map.GetAllCoordi()],
         spin2=[[a, b, ri(Map.Spin2Index(a, b))] for a in (0, 1) for b in (0, 1)],
         conserved=[[s, ri(Map.IsConserved(4, ((s >> 3 & 1, s >> 2 & 1), (s >> 1 & 1, s & 1))))] for s in range(16)],
         allowed=sorted([list(map(int, a + b)) for a, b in Map.GetConservedSpinTuple("FourSpins")]),
         allowed2=sorted([list(map(int, t)) for t in Map.GetConservedSpinTuple("TwoSpins")]),
         sublat=[[int(x) for x in t] for t in Map.GetAllSublatTuple()], local=[[int(x) for x in t] for t in Map.GetLocalSublatTuple()],
         # differences in quarters of a bin
         tau=[[d, ri(Map.TauIndex(Map.Beta * 0.5, Map.Beta * 0.5 + d * Map.Beta / Map.MaxTauBin / 4))] for d in range(-2 * Map.MaxTauBin + 1, 2 * Map.MaxTauBin) if d % 4 and abs(d) < 2 * Map.MaxTauBin],
         middle=[ri(Map.IndexToTau(b) * Map.MaxTauBin / Map.Beta * 2) for b in range(Map.MaxTauBin)])


def symmetric(rng, g3, Map, name):
    """A random function with the symmetries three-point functions have, by brute force."""
    V, T = Map.Vol, Map.MaxTauBinTiny
    L = Map.L
    crd = list(itertools.product(range(L[0]), range(L[1])))
    pos = {v: i for i, v in enumerate(crd)}
    def images(v):
        x, y = v
        if name == "Triangular":
            l = [(x, y), (-x, -y), (-x - y, y), (x + y, -y)]
        elif name == "Square":
            l = [(x, y), (-x, -y), (-x, y), (x, -y)]
        else:
            l = [(x, y)]
        return [pos[a % L[0], b % L[1]] for a, b in l]
    im = [images(v) for v in crd]
    A = np.zeros((2, V, V, T, T), dtype=complex)
    done = np.zeros((2, V, V, T, T), dtype=bool)
    for s, r1, r2, t1, t2 in itertools.product(range(2), range(V), range(V), range(T), range(T)):
        if not done[s, r1, r2, t1, t2]:
            z = complex(rng.randrange(-99, 100), rng.randrange(-99, 100))
            for a, b in zip(im[r1], im[r2]):
                A[s, a, b, t1, t2] = z
                done[s, a, b, t1, t2] = True
                if t1 != t2:
                    A[s, b, a, t2, t1] = -z.conjugate()
                    done[s, b, a, t2, t1] = True
    return A


def tables(rng, Map, name, gamma3):
    TS, TR, TF, TG, RS, RR, RF = gamma3.SymmetryMapping(Map)
    A = symmetric(rng, gamma3, Map, name)
    B = gamma3.UnCompressGammaW(gamma3.CompressGammaW(A.copy(), Map), Map)
    C = np.array([[[complex(rng.randrange(-99, 100), rng.randrange(-99, 100)) for _ in TR] for _ in RR] for _ in range(2)], dtype=np.complex64)
    E = gamma3.UnCompressGammaW(C.copy(), Map)
    flat = lambda a: [x for z in np.asarray(a).flatten() for x in zi(z)]
    emit("sym", name=name, L=Map.L, nt=Map.MaxTauBinTiny, ts=[int(x) for x in np.asarray(TS).flatten()], tf=[int(x) for x in np.asarray(TF).flatten()],
         tg=[int(bool(x)) for x in np.asarray(TG).flatten()], rs=[int(x) for x in np.asarray(RS).flatten()], rf=[int(x) for x in np.asarray(RF).flatten()],
         tr=[[int(a), int(b)] for a, b in TR], rr=[[int(a), int(b)] for a, b in RR], given=flat(A), back=flat(B), packed=flat(C), unpacked=flat(E))
    return A


def many(rng, weight, gamma3):
    """As many bins of time as are used in earnest, and more."""
    nt = rng.choice([120, 300])
    Map = weight.IndexMap(Beta=1.0, L=[1, 1], NSublat=1, MaxTauBin=nt, MaxTauBinTiny=nt, BasisNum=2, Symmetry=["SU2", "Square"])
    TS, TR, TF, TG, RS, RR, RF = gamma3.SymmetryMapping(Map)
    ts = [(t, t) for t in range(nt)] + [(rng.randrange(nt), rng.randrange(nt)) for _ in range(100)]
    emit("many", nt=nt, size=len(TR), at=[[a, b, int(TS[a, b]), int(TS[b, a]), int(TF[a, b]), int(TF[b, a]), int(bool(TG[a, b])), int(bool(TG[b, a]))] + [int(x) for x in TR[TS[a, b]]] for a, b in ts])


def write_inputs(c, WeightFile):
    para = {"Job": {"Type": "MC", "DoesLoad": False, "Sample": 100, "PID": 1, "WeightFile": WeightFile, "MessageFile": "Message"},
            "Para": {"Version": 0, "Tau": {"Beta": c["beta"], "MaxTauBin": c["nt"], "MaxTauBinTiny": c["ntt"]}, "Lattice": {"NSublat": c["nsub"], "L": c["L"]},
                     "Markov": {"Toss": 10, "Sweep": 1, "WormSpaceReweight": 1.0, "PolarReweight": 1.0, "runGamma3": c["g3"], "GammaGReweight": 1.0, "GammaWReweight": 1.0,
                                "OrderReWeight": [1.0] * (c["order"] + 1), "OrderTimeRatio": [1.0] * (c["order"] + 1), "Order": c["order"], "Counter": 0, "Seed": 7,
                                "Timer": {"PrinterTimer": 100, "DiskWriterTimer": 100, "MessageTimer": 100, "ReweightTimer": 100}}}}
    with open("infile.txt", "w") as f:
        f.write(pprint.pformat(para))
    for b in ("FermiBasis", "BoseBasis"):
        with open(b + ".dat.txt", "w") as f:
            f.write(pprint.pformat({"Beta": c["beta"], "MaxTauBin": float(c["ntt"]), "Number": 2.0, "Basis": [[1.0] * c["ntt"], [0.5] * c["ntt"]]}))


def rows(entries):
    return [list(map(int, p)) + zi(z) for p, z in entries if abs(z) > 1e-4]


def round_(rng, driver):
    import weight, main, collect, gamma3_calc as gamma3
    g3 = rng.random() < 0.6
    name = rng.choice(["Square", "Triangular", "Honeycomb"])
    nsub = 1 if g3 else rng.choice([1, 2])
    L = rng.choice([[2, 2], [3, 2], [2, 3], [3, 3], [4, 1], [1, 3], [4, 2]])
    if name == "Triangular":
        L = rng.choice([[2, 2], [3, 3]])
    nt = rng.choice([2, 3, 4])
    c = dict(g3=g3, name=name, nsub=nsub, L=L, nt=nt, ntt=rng.choice([2, 3, nt]) if nt > 2 else 2, beta=rng.choice([0.5, 0.9, 1.3, 2.0, 3.0]), order=rng.choice([1, 2, 3]))
    c["ntt"] = min(c["ntt"], nt)
    if len(L) == 2 and L[0] * L[1] > 6:
        c["ntt"] = 2
    if rng.random() < 0.2:
        many(rng, weight, gamma3)
    emit("about", **dict(c, beta=int(round(c["beta"] * 1000))))
    for LL in ([rng.randrange(2, 6)], [rng.randrange(1, 4), rng.randrange(2, 5)], [2, rng.randrange(1, 4), rng.randrange(2, 4)]):
        s = rng.randrange(1, 4)
        maps(weight.IndexMap(rng.choice([0.5, 0.9, 2.0]), LL, s, rng.randrange(1, 7), 2, 2, []), LL, s)
    Map = weight.IndexMap(Beta=c["beta"], L=list(L), NSublat=nsub, MaxTauBin=nt, MaxTauBinTiny=c["ntt"], BasisNum=2, Symmetry=["SU2", name])
    V, T = L[0] * L[1], c["ntt"]
    vecs = list(itertools.product(range(L[0]), range(L[1])))
    # every number says where it belongs
    W_ = lambda kind, n, s="Symmetric": weight.Weight(kind, Map, n, s, "R", "T")
    G, G0, Sigma, Polar, Chi = W_("SmoothT", "TwoSpins", "AntiSymmetric"), W_("SmoothT", "TwoSpins", "AntiSymmetric"), W_("SmoothT", "TwoSpins", "AntiSymmetric"), W_("SmoothT", "FourSpins"), W_("SmoothT", "FourSpins")
    W, W0, SigmaDeltaT = W_("SmoothT", "FourSpins"), W_("DeltaT", "FourSpins"), W_("DeltaT", "TwoSpins")
    for si, a, so, b, (k, v), t in itertools.product(range(2), range(nsub), range(2), range(nsub), enumerate(vecs), range(nt)):
        G.Data[si, a, so, b, Map.CoordiIndex(v), t] = complex(((((si * nsub + a) * 2 + so) * nsub + b) * V + k) * nt + t + 1, 3) / U
    for i1, o1, a, i2, o2, b, (k, v) in itertools.product(range(2), range(2), range(nsub), range(2), range(2), range(nsub), enumerate(vecs)):
        p, q = Map.Spin2Index(i1, o1), Map.Spin2Index(i2, o2)
        n = ((((2 * i1 + o1) * nsub + a) * 4 + 2 * i2 + o2) * nsub + b) * V + k
        W0.Data[p, a, q, b, Map.CoordiIndex(v)] = complex(-n - 1, 5) / U
        for t in range(nt):
            W.Data[p, a, q, b, Map.CoordiIndex(v), t] = complex(n * nt + t + 1, 7) / U
    GG = WW = None
    if g3:
        GG = np.zeros((2, V, nt, nt), dtype=complex)
        for s, (k, v), t1, t2 in itertools.product(range(2), enumerate(vecs), range(nt), range(nt)):
            GG[s, Map.CoordiIndex(v), t1, t2] = complex(((s * V + k) * nt + t1) * nt + t2 + 1, 11) / U
        WW = tables(rng, Map, name, gamma3) / U
    main.WeightFile, main.ParaFile, main.OutputFile = "Weight", "0_DYSON_para", "Dyson_Output"
    main.Lat = None
    named = dict(para={"Gamma3": g3, "Version": 1}, Observable=Stub(), Factory=Stub(), G0=G0, W0=W0, G=G, W=W, SigmaDeltaT=SigmaDeltaT, Sigma=Sigma, Polar=Polar,
                 Determ=np.ones((V, nt)), ChiTensor=Chi, GGGammaG=GG, WWGammaW=WW)
    call(main.Measure, named)
    if not os.path.exists("Weight.hkl"):
        emit("fail", what="no weight file")
        return
    write_inputs(c, "Weight")
    sys.stdout.flush()
    p = subprocess.run([driver, "worker.json", str(rng.randrange(1 << 30)), "160", "120"], timeout=120)
    with open("worker.json") as f:
        got = [l for l in f.read().split("\n") if l]
    for l in got:
        OUT.write(l + "\n")
    if p.returncode != 0 or not got or '"saved"' not in got[-1]:
        emit("fail", what="the worker ended with %d" % p.returncode)
        return
    if not [n for n in os.listdir(".") if "statis" in n]:
        emit("fail", what="no statistics")
        return
    collect.workspace = WS
    norm = {}
    with open([n for n in os.listdir(".") if n.endswith("_statis.hkl")][0], "rb") as f:
        raw = pickle.load(f)
    for what in ("GammaG", "GammaW"):
        if g3:
            norm[what] = raw[what + "Statis"]["NormAccu"] / raw[what + "Statis"]["Norm"]
    S, P, GA, WA = collect.CollectStatis(Map, g3)
    for what, est, ns in (("Sigma", S, 2), ("Polar", P, 4)):
        a = est.ToDict()["SmoothT"]["WeightAccu"]
        if ns == 2:
            ent = (((o + 1, si, so, aa, b) + v + (t,), a[o, si, aa, so, b, Map.CoordiIndex(v), t])
                   for o, si, aa, so, b, v, t in itertools.product(range(a.shape[0]), range(2), range(nsub), range(2), range(nsub), vecs, range(nt)))
        else:
            ent = (((o + 1, 2 * i1 + o1, 2 * i2 + o2, aa, b) + v + (t,), a[o, Map.Spin2Index(i1, o1), aa, Map.Spin2Index(i2, o2), b, Map.CoordiIndex(v), t])
                   for o, i1, o1, aa, i2, o2, b, v, t in itertools.product(range(a.shape[0]), range(2), range(2), range(nsub), range(2), range(2), range(nsub), vecs, range(nt)))
        emit("back", what=what, shape=list(a.shape), rows=rows(ent))
    if g3:
        GA = np.asarray(GA) * norm["GammaG"]
        emit("back", what="GammaG", shape=list(GA.shape), rows=rows(((s,) + v + (t1, t2), GA[s, Map.CoordiIndex(v), t1, t2])
                                                                   for s, v, t1, t2 in itertools.product(range(2), vecs, range(nt), range(nt))))
        F = gamma3.UnCompressGammaW(np.asarray(WA), Map) * norm["GammaW"]
        emit("back", what="GammaW", shape=list(F.shape), rows=[list(map(int, (s,) + v1 + v2 + (t1, t2))) + zi(F[s, Map.CoordiIndex(v1), Map.CoordiIndex(v2), t1, t2] * 8)
                                                               for s, v1, v2, t1, t2 in itertools.product(range(2), vecs, vecs, range(T), range(T))
                                                               if abs(F[s, Map.CoordiIndex(v1), Map.CoordiIndex(v2), t1, t2]) > 1e-4])


def go():
    global OUT
    out, seed, rounds, driver = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sys.argv[:] = ["main.py"]
    sys.path[:0] = [os.path.join(WS, "dyson"), WS]
    with open(out, "w") as f:
        f.write('{"k":"run","seed":%d}\n' % seed)
    for r in range(rounds):
        for n in os.listdir("."):
            if n.endswith((".hkl", ".txt")) or n == "worker.json":
                os.remove(n)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            st = 1
            try:
                n = os.open("python.log", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(n, 1)
                os.dup2(n, 2)
                OUT = open(out, "a")
                round_(random.Random(seed * 1000 + r), driver)
                st = 0
            except BaseException:
                import traceback
                t = traceback.format_exc()
                print(t)
                emit("fail", what="".join(ch for ch in t[-300:] if 32 <= ord(ch) < 127 and ch not in '"\\'))
                st = 0
            finally:
                sys.stdout.flush()
                os._exit(st)
        _, st = os.waitpid(pid, 0)
        if st:
            with open(out, "a") as f:
                f.write('{"k":"fail","what":"a round died with %d"}\n' % st)
    with open(out, "a") as f:
        f.write('{"k":"end"}\n')


go()

"""First-order diagrams and Dyson equations of the coordinator's calculator, in
the directory it is started in.
   perturb.py OUT SEED ROUNDS"""
import itertools, json, math, os, random, sys
import numpy as np

WS = os.getcwd()
OUT = None


def emit(k, **kw):
    OUT.write('{"k":"%s",' % k + json.dumps(kw)[1:] + "\n")
    OUT.flush()


def ri(x, u=1.0):
    x = float(x) * u
    return int(round(x)) if abs(x) < 2e9 else 2147483646


def flat(a, u=1.0):
    a = np.asarray(a)
    if a.dtype.kind != "c":
        a = a.astype(complex)
    return [[ri(z.real, u), ri(z.imag, u)] for z in a.flatten()]


class Case:
    def __init__(self, rng, weight, small=False):
        dim = rng.choice([1, 2, 2])
        self.L = [rng.choice([1, 2, 3]) for _ in range(dim)]
        self.ns = rng.choice([1, 1, 2])
        self.nt = rng.choice([2, 3])
        while np.prod(self.L) * self.nt * self.ns ** 2 > (16 if small else 24):
            self.L[rng.randrange(dim)] = 1
        self.V = int(np.prod(self.L))
        # beta / nt = f / 8
        self.f = rng.choice([1, 2, 3])
        self.Map = weight.IndexMap(Beta=self.f * self.nt / 8.0, L=self.L, NSublat=self.ns, MaxTauBin=self.nt, MaxTauBinTiny=1, BasisNum=1, Symmetry=["none", "Square"])
        self.rng, self.weight = rng, weight
        self.real = rng.random() < 0.5
        self.away = rng.random() < 0.6

    def num(self, m=3):
        return complex(self.rng.randrange(-m, m + 1), 0 if self.real else self.rng.randrange(-m, m + 1))

    def new(self, kind, spins, sym, space, time):
        return self.weight.Weight({"S": "SmoothT", "D": "DeltaT"}[kind], self.Map, sys.intern(spins), sys.intern(sym), sys.intern(space), sys.intern(time))

    def fill(self, w, fours, local=False, m=3):
        sp = range(2)
        ok = lambda i, j: (i == j) if not fours else ((i >> 1) + (j >> 1) == (i & 1) + (j & 1))
        sh = w.Shape
        for i, a, j, b in itertools.product(range(sh[0]), range(self.ns), range(sh[0]), range(self.ns)):
            if not ok(i, j):
                continue
            for rest in itertools.product(*[range(x) for x in sh[4:]]):
                if local and rest[0] != 0:
                    continue
                w.Data[(i, a, j, b) + rest] = self.num(m)
        return w

    def move(self, w):
        """Wherever it is when it comes."""
        if self.away:
            w.FFT(*[sys.intern(x) for x in self.rng.choice([["R"], ["K"], ["K", "W"], ["W"], ["R", "T"]])])

    def about(self):
        return dict(L=self.L, ns=self.ns, nt=self.nt, f=self.f, V=self.V, real=int(self.real))


def home(w, space, time):
    w.FFT(sys.intern(space), sys.intern(time))
    return flat(w.Data)


def G_(c):
    """A propagator: local, or (one sublattice) the same to either side."""
    G = c.fill(c.new("S", "TwoSpins", "AntiSymmetric", "R", "T"), False, local=True)
    if c.ns == 1 and c.rng.random() < 0.5:
        c.fill(G, False)
        D = G.Data.reshape([2, 1, 2, 1] + c.L + [c.nt])
        E = D.copy()
        for d in range(len(c.L)):
            E = np.roll(np.flip(E, 4 + d), 1, axis=4 + d)
        G.Data = (D + E).reshape(G.Shape)
    return G


def first(rng, weight, calc):
    c = Case(rng, weight)
    G, W = G_(c), c.fill(c.new("S", "FourSpins", "Symmetric", "R", "T"), True)
    V = c.fill(c.new("D", "FourSpins", "Symmetric", "R", "T"), True)
    g, w, v = flat(G.Data), flat(W.Data), flat(V.Data)
    for x in (G, W, V):
        c.move(x)
    which = rng.randrange(3)
    if which == 0:
        S = calc.SigmaSmoothT_FirstOrder(G, W, c.Map)
        emit("fock", G=g, W=w, out=home(S, "R", "T"), kept=int(home(G, "R", "T") == g and home(W, "R", "T") == w), **c.about())
    elif which == 1:
        S = calc.SigmaDeltaT_FirstOrder(G, V, c.Map)
        S.FFT("R")
        emit("instant", G=g, W=v, out=flat(S.Data, 2), kept=int(home(G, "R", "T") == g and home(V, "R", "T") == v), **c.about())
    else:
        P = calc.Polar_FirstOrder(G, c.Map)
        emit("bubble", G=g, out=home(P, "R", "T"), kept=int(home(G, "R", "T") == g), **c.about())


def caught(f, calc):
    try:
        return f(), "no"
    except calc.DenorminatorTouchZero:
        return None, "touch"
    except (ValueError, np.linalg.LinAlgError):
        return None, "singular"


def dysons(rng, weight, calc):
    c = Case(rng, weight, True)
    if rng.random() < 0.5:
        G0, S = [c.fill(c.new("S", "TwoSpins", "AntiSymmetric", "K", "W"), False, m=2) for _ in range(2)]
        D = c.fill(c.new("D", "TwoSpins", "AntiSymmetric", "K", "W"), False, m=2)
        g0, s, d = flat(G0.Data), flat(S.Data), flat(D.Data)
        for x in (G0, S, D):
            c.move(x)
        G, how = caught(lambda: calc.G_Dyson(G0, D, S, c.Map), calc)
        if G is not None:
            G.FFT("K", "W")
        emit("gdyson", G0=g0, D=d, S=s, how=how, G=[] if G is None else flat(G.Data, 1000),
             kept=int(home(G0, "K", "W") == g0 and home(S, "K", "W") == s and home(D, "K", "W") == d), **c.about())
    else:
        P = c.fill(c.new("S", "FourSpins", "Symmetric", "K", "W"), True, m=2)
        J = c.fill(c.new("D", "FourSpins", "Symmetric", "K", "W"), True, m=1)
        p, j = flat(P.Data), flat(J.Data)
        for x in (P, J):
            c.move(x)
        out, how = caught(lambda: calc.W_Dyson(J, P, c.Map, None), calc)
        if out is not None:
            for x in out[:2]:
                x.FFT("K", "W")
        emit("wdyson", P=p, J=j, how=how, W=[] if out is None else flat(out[0].Data, 1000), C=[] if out is None else flat(out[1].Data, 1000),
             det=[] if out is None else flat(out[2], 1000), kept=int(home(P, "K", "W") == p and home(J, "K", "W") == j), **c.about())


def correlations(rng, weight, calc, gamma3):
    c = Case(rng, weight)
    C = c.new("S", "FourSpins", "Symmetric", "R", "T")
    C.Data = np.array([c.num(9) for _ in range(int(np.prod(C.Shape)))]).reshape(C.Shape)
    G = c.new("S", "TwoSpins", "AntiSymmetric", "R", "T")
    G.Data = np.array([c.num(5) for _ in range(int(np.prod(G.Shape)))]).reshape(G.Shape)
    ten, g = flat(C.Data), flat(G.Data)
    for x in (C, G):
        c.move(x)
    if rng.random() < 0.5:
        R = calc.Add_ChiTensor_ZerothOrder(C, G, c.Map)
        R.FFT("R", "T")
        emit("means", C=ten, G=g, out=flat(R.Data, 4), kept=int(home(G, "R", "T") == g), **c.about())
    else:
        which = rng.choice([calc, gamma3])
        R = which.Calculate_Chi(C, c.Map)
        R.FFT("R", "T")
        emit("szsz", C=ten, out=flat(R.Data, 4), kept=int(home(C, "R", "T") == ten), **c.about())


def round_(rng):
    import weight
    import calculator as calc
    import gamma3_calc as gamma3
    for _ in range(3):
        first(rng, weight, calc)
    for _ in range(4):
        dysons(rng, weight, calc)
    correlations(rng, weight, calc, gamma3)


def go():
    global OUT
    out, seed, rounds = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sys.argv[:] = ["main.py"]
    sys.path[:0] = [os.path.join(WS, "dyson"), WS]
    OUT = open(out, "w")
    emit("run", seed=seed)
    n = os.open("python.log", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(n, 1)
    os.dup2(n, 2)
    for r in range(rounds):
        try:
            round_(random.Random(seed * 1000 + r))
        except BaseException:
            import traceback
            t = traceback.format_exc()
            print(t)
            emit("fail", what="".join(ch for ch in t[-300:] if 32 <= ord(ch) < 127 and ch not in '"\\'))
    OUT.write('{"k":"end"}\n')
    OUT.flush()


go()

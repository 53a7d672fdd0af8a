"""Three-point functions of the coordinator, in the directory it is started in.
   threepoint.py OUT SEED ROUNDS"""
import json, os, random, sys
import numpy as np

WS = os.getcwd()
OUT = None


def emit(k, **kw):
    OUT.write('{"k":"%s",' % k + json.dumps(kw)[1:] + "\n")
    OUT.flush()


def ri(x, u=1.0):
    x = float(x) * u
    return int(round(x)) if abs(x) < 2e9 else 2147483646


def flat(a, u=1.0):
    return [[ri(z.real, u), ri(z.imag, u)] for z in np.asarray(a).astype(complex).flatten()]


class Case:
    def __init__(self, rng, weight, cells=6):
        self.rng, self.weight = rng, weight
        self.L = [rng.choice([1, 2, 3]) for _ in range(2)]
        while np.prod(self.L) > cells:
            self.L[rng.randrange(2)] = 1
        self.V = int(np.prod(self.L))
        self.nt = rng.choice([1, 2, 3])
        self.f = rng.choice([1, 2, 3])
        self.name = rng.choice(["none", "Square"] + (["Triangular"] if self.L[0] == self.L[1] else []))
        self.Map = weight.IndexMap(Beta=self.f * self.nt / 8.0, L=self.L, NSublat=1, MaxTauBin=self.nt, MaxTauBinTiny=self.nt, BasisNum=1, Symmetry=["none", self.name])
        self.away = rng.random() < 0.6

    def num(self, m=3):
        return complex(self.rng.randrange(-m, m + 1), self.rng.randrange(-m, m + 1))

    def numbers(self, shape, m=3):
        return np.array([self.num(m) for _ in range(int(np.prod(shape)))]).reshape(shape)

    def new(self, kind, spins, sym, space="R", time="T"):
        w = self.weight.Weight({"S": "SmoothT", "D": "DeltaT"}[kind], self.Map, sys.intern(spins), sys.intern(sym), sys.intern(space), sys.intern(time))
        return w

    def move(self, w):
        if self.away:
            w.FFT(*[sys.intern(x) for x in self.rng.choice([["R"], ["K"], ["K", "W"], ["W"], ["R", "T"]])])

    def about(self):
        return dict(L=self.L, V=self.V, nt=self.nt, f=self.f)

    def G(self):
        G = self.new("S", "TwoSpins", "AntiSymmetric")
        for s in range(2):
            G.Data[s, 0, s, 0, 0, :] = self.numbers([self.nt])
        g = flat(G.Data)
        self.move(G)
        return G, g

    def W(self):
        W = self.new("S", "FourSpins", "Symmetric")
        W.Data = self.numbers(W.Shape)
        w = flat(W.Data)
        self.move(W)
        return W, w


def round_(rng):
    import weight
    import gamma3_calc as g3
    for _ in range(6):
        c = Case(rng, weight, 6)
        G, g = c.G()
        W, w = c.W()
        V = c.numbers([2, c.V, c.nt, c.nt])
        v = flat(V)
        which = rng.randrange(5)
        if which == 0:
            out, u, k = g3.SimpleGG(G, c.Map), 1, "bare"
        elif which == 1:
            out, u, k = g3.AddW_To_GGGammaG(V, W, c.Map), 2, "exchanged"
        elif which == 2:
            out, u, k = g3.AddTwoG_To_GammaG(V, G, c.Map), 256, "legs"
        elif which == 3:
            out, u, k = g3.AddG_To_GGGammaG(V, G, c.Map), 2, "loop"
        else:
            M = c.numbers([2, c.V, c.V, c.nt, c.nt])
            m = flat(M)
            out, u, k = g3.AddG_To_WWGammaW(M, G, c.Map), 2, "closed"
            emit(k, M=m, G=g, out=flat(out, u), kept=int(flat(M) == m), **c.about())
            continue
        G.FFT(sys.intern("R"), sys.intern("T"))
        W.FFT(sys.intern("R"), sys.intern("T"))
        emit(k, Vx=v, G=g, W=w, out=flat(out, u), kept=int(flat(V) == v and flat(G.Data) == g and flat(W.Data) == w), **c.about())
    # with the interactions
    c = Case(rng, weight, 4)
    while c.V * c.nt > 8:
        c = Case(rng, weight, 4)
    W, w = c.W()
    W0 = c.new("D", "FourSpins", "Symmetric")
    W0.Data = c.numbers(W0.Shape, 2)
    w0 = flat(W0.Data)
    c.move(W0)
    M = c.numbers([2, c.V, c.V, c.nt, c.nt], 2).astype(np.complex64)
    given = M
    if rng.random() < 0.5:
        # as the workers deliver it
        given = g3.CompressGammaW(M, c.Map)
        M = g3.UnCompressGammaW(given, c.Map).copy()
    m = flat(M)
    out = g3.AddTwoW_To_GammaW(given, W0, W, c.Map)
    W.FFT(sys.intern("R"), sys.intern("T"))
    W0.FFT(sys.intern("R"), sys.intern("T"))
    emit("dressed", M=m, W=w, W0=w0, out=flat(out, 256), kept=int(flat(W.Data) == w and flat(W0.Data) == w0), **c.about())
    # all correlations
    for _ in range(2):
        c = Case(rng, weight, 4)
        P, J = c.new("S", "FourSpins", "Symmetric", "K", "W"), c.new("D", "FourSpins", "Symmetric", "K")
        uu, du = c.numbers([c.V, c.nt], 2), c.numbers([c.V, c.nt], 2)
        for p in (0, 3):
            for q in (0, 3):
                P.Data[p, 0, q, 0] = uu if p == q else du
        x = np.array([rng.randrange(-1, 2) for _ in range(c.V)])
        for p in (0, 3):
            for q in (0, 3):
                J.Data[p, 0, q, 0] = x if p == q else -x
        J.Data[1, 0, 2, 0] = J.Data[2, 0, 1, 0] = 2 * x
        p, j = flat(P.Data), flat(J.Data)
        P.FFT(sys.intern("R"), sys.intern("T"))
        c.move(J)
        V = c.numbers([2, c.V, c.nt, c.nt])
        for t in range(c.nt):
            V[1, :, t, t] = P.Data[3, 0, 3, 0, :, t]
            V[0, :, t, t] = P.Data[0, 0, 3, 0, :, t]
        try:
            C, det = g3.FullGGGammaG(V, J, c.Map)
        except ValueError:
            continue
        C.FFT(sys.intern("K"), sys.intern("W"))
        J.FFT(sys.intern("K"))
        emit("full", P=p, J=j, C=flat(C.Data, 1000), det=flat(det, 1000), ns=1, real=0, kept=int(flat(J.Data) == j), **c.about())


def go():
    global OUT
    out, seed, rounds = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sys.argv[:] = ["main.py"]
    sys.path[:0] = [os.path.join(WS, "dyson"), WS]
    OUT = open(out, "w")
    emit("run", seed=seed)
    n = os.open("python.log", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(n, 1)
    os.dup2(n, 2)
    for r in range(rounds):
        try:
            round_(random.Random(seed * 1000 + r))
        except BaseException:
            import traceback
            t = traceback.format_exc()
            print(t)
            emit("fail", what="".join(ch for ch in t[-300:] if 32 <= ord(ch) < 127 and ch not in '"\\'))
    OUT.write('{"k":"end"}\n')
    OUT.flush()


go()

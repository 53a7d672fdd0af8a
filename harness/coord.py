"""Drives the real coordinator (dyson/main.py, brought up to date by lib/py2.py)
in the directory it is started in, and records what it publishes.
   coord.py OUT SEED SESSIONS ROUNDS
Every session is a process of its own (forked), so that it can be killed; what
one leaves behind is where the next begins.  What the coordinator does to its
files is seen through Python's audit events, whatever functions it goes through;
it waits for statistics in time.sleep."""
import gc, json, os, pickle, random, resource, runpy, signal, sys, time, traceback
import numpy as np
import scipy.linalg.lapack, scipy.interpolate  # before the forks

U = 1e-5        # unit of the weights
WS = os.getcwd()
L, NT, BETA = [2, 2], 8, 0.5
VOL = 4
POS = [(1, 0, 1, 0, 0, 0), (0, 0, 0, 0, 1, 3), (1, 0, 1, 0, 2, 7), (0, 0, 0, 0, 3, 5)]   # where weights are looked at
PPOS = [(3, 0, 3, 0, 0, 0), (0, 0, 3, 0, 1, 3), (1, 0, 2, 0, 2, 7), (0, 0, 0, 0, 3, 5)]
GPOS = [(0, 0, 1, 2), (1, 3, 7, 0), (1, 1, 4, 4)]           # of the three-point functions
WPOS = [(0, 0, 3), (1, 2, 20), (1, 1, 7)]
PUBLISHED = {"Weight.hkl": "weights", "0_DYSON_para.txt": "para", "Message.txt": "message"}
_sleep = time.sleep


def ints(a, pos):
    a = np.asarray(a)
    out = []
    for p in pos:
        z = a[p[:a.ndim]]
        for x in (z.real, z.imag):
            out.append(int(round(float(x) / U)) if abs(x) < 1e4 else 2000000000)
    return out


def para_of(d):
    p = d["Para"]
    a = p["Dyson"]["Annealing"]
    return dict(ver=int(p.get("Version", 0)), os=int(p["Dyson"]["OrderAccepted"]["Sigma"]), op=int(p["Dyson"]["OrderAccepted"]["Polar"]),
                field=[int(round(x * 2 ** 26)) for x in a["DeltaField"]], interval=[int(round(x * 2 ** 26)) for x in a["Interval"]])


def evaluate(text):
    ns = {n: getattr(np, n) for n in ("array", "nan", "inf", "complex64", "complex128", "float64", "int64")}
    return eval(text, ns)


def content(kind, path):
    try:
        with open(path, "rb") as f:
            raw = f.read()
        if kind == "weights":
            d = pickle.loads(raw)
            return dict(readable=True, polar=ints(d["Polar"]["SmoothT"], PPOS), chi=ints(d["Chi"]["SmoothT"], [(0, 0, 0, 0, 0, 0)]), sigma=ints(d["Sigma"]["SmoothT"], POS), sdt=ints(d["SigmaDeltaT"]["DeltaT"], POS),
                        names=sorted(k for k in d if k in ("G", "W", "Sigma", "Polar", "SigmaDeltaT", "Chi")),
                        kinds=sorted("%s.%s" % (a, b) for a in ("G", "W", "Sigma", "Polar", "SigmaDeltaT", "GGGammaG", "WWGammaW") if a in d for b in d[a]),
                        finite=bool(all(np.isfinite(np.asarray(d[a][b])).all() for a in ("G", "W", "Sigma", "Polar", "GGGammaG") if a in d for b in d[a])))
        d = evaluate(raw.decode())
        if kind == "para":
            return dict(readable=True, para=para_of(d))
        return dict(readable=True, ver=int(d["Version"]), beta=int(round(d["Beta"] * 1e6)), factor=int(round(d["SqueezeFactor"] * 1e6)), names=sorted(d))
    except Exception as e:
        return dict(readable=False, why=repr(e)[:120])


def disk():
    return {k: (content(k, n) if os.path.exists(n) else dict(readable=False, why="absent")) for n, k in PUBLISHED.items()}


TOTAL = os.path.join(WS, "statis_total.hkl")


def total(mode):
    """What all statistics together are said to be."""
    if mode != "total":
        return dict(there=False)
    if not os.path.exists(TOTAL):
        return dict(there=False)
    try:
        with open(TOTAL, "rb") as f:
            raw = f.read()
        if raw == b"a total":
            return dict(there=False)
        d = pickle.loads(raw)
        out = dict(there=True, readable=True)
        for what, pos in (("Sigma", POS), ("Polar", PPOS)):
            h = d[what]["Histogram"]["SmoothT"]
            a = h["WeightAccu"]
            out[what] = dict(acc=int(round(h["NormAccu"] * 1000)), norm=int(round(h["Norm"])), a=[ints(a[o], pos) for o in range(len(a))])
        return out
    except Exception as e:
        return dict(there=True, readable=False, why=repr(e)[:100])


class Session:
    """In the child."""

    def __init__(self, fd, plan, rng):
        self.fd, self.plan, self.rng = fd, plan, rng
        self.ops = 0
        self.inside = False
        self.round = 0
        self.writes = 0

    def emit(self, k, **kw):
        self.events = getattr(self, "events", 0) + 1
        if self.events > 400 and k == "part":
            k, kw = "killed", dict(at="too many rounds")
        s = (('{"k":"%s",' % k + json.dumps(kw)[1:] if kw else '{"k":"%s"}' % k) + "\n").encode()
        while s:
            s = s[os.write(self.fd, s):]
        if k == "killed":
            os._exit(9)

    def hook(self, event, args):
        if self.inside or event not in ("open", "os.rename", "os.remove", "os.truncate", "os.link"):
            return
        try:
            paths = [os.path.relpath(os.fspath(a), WS) if not isinstance(a, bytes) else os.path.relpath(a.decode(), WS) for a in args[:2 if event in ("os.rename", "os.link") else 1]
                     if isinstance(a, (str, bytes)) or hasattr(a, "__fspath__")]
        except (TypeError, ValueError):
            return
        if not paths or any(p.startswith("..") for p in paths):
            return
        if event == "open":
            mode, flags = args[1], args[2]
            w = (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)) or (isinstance(mode, str) and any(c in mode for c in "wax+"))
            if not w:
                return
        if any(p.endswith(".log") or "__pycache__" in p or p.startswith(os.path.join("infile", "")) for p in paths):
            return
        target = paths[-1]
        kind = PUBLISHED.get(target, "other")
        self.inside = True
        try:
            way = {"open": "write", "os.rename": "rename", "os.remove": "remove", "os.truncate": "write", "os.link": "link"}[event]
            self.ops += 1
            act = self.plan.get("ops", {}).get(self.ops)
            when = self.plan.get("kinds", {}).get((self.round, kind, way))
            if when:
                act = when
            e = dict(file=kind, way=way, path=target)
            if act == "kill":
                self.emit("killed", at=[way, target])
            if act == "fail":
                self.emit("fault", **e)
                raise OSError(28, "No space left on device (injected)", target)
            if act in ("term", "int"):
                self.emit("signal", **e)
            if kind != "other":
                if way in ("rename", "link"):
                    e["c"] = content(kind, paths[0])
                    e["solves"] = []
                    if kind == "weights" and e["c"].get("readable"):
                        e["solves"] = self.solves(paths[0])
                    e["now"] = {f: os.path.exists(n) for n, f in PUBLISHED.items()}
                self.emit("op", **e)
            elif way == "rename" and paths[0] in PUBLISHED:
                self.emit("op", file=PUBLISHED[paths[0]], way="moved away", path=target)
        finally:
            self.inside = False
        if act in ("term", "int"):
            os.kill(os.getpid(), signal.SIGTERM if act == "term" else signal.SIGINT)

    def sleep(self, s=0):
        if sys.exc_info()[0] is not None:
            return                      # on its way out
        self.inside = True
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            if self.round >= self.plan["rounds"]:
                self.emit("stop")
                raise SystemExit(0)
            self.round += 1
            limit = self.plan.get("limit", {}).get(self.round)
            files = statistics(self.rng, self.plan, limit)
            self.emit("round", files=files, limit=limit or 0)
            if limit:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
        finally:
            self.inside = False

    def solves(self, path):
        """How far the propagator and the interaction in the file are from what Dyson's equations make of the rest of it; -1: not known."""
        try:
            import weight
            G0, W0 = self.bare
            m, lat = G0.Map, self.lattice
            with open(path, "rb") as f:
                d = pickle.loads(f.read())
            S = weight.Weight("SmoothT", m, "TwoSpins", "AntiSymmetric", "R", "T").FromDict(d["Sigma"])
            D = weight.Weight("DeltaT", m, "TwoSpins", "AntiSymmetric", "R").FromDict(d["SigmaDeltaT"])
            P = weight.Weight("SmoothT", m, "FourSpins", "Symmetric", "R", "T").FromDict(d["Polar"])
            G = self.G_Dyson(G0.Copy(), D, S, m)
            G.FFT("R", "T")
            out = [np.abs(np.asarray(G.Data) - np.asarray(d["G"]["SmoothT"])).max()]
            W, chi = self.W_Dyson(W0.Copy(), P, m, lat)[:2]
            W.FFT("R", "T")
            out.append(np.abs(np.asarray(W.Data) - np.asarray(d["W"]["SmoothT"])).max())
            out.append(np.abs(np.asarray(W0.Data) - np.asarray(d["W"]["DeltaT"])).max())
            # the susceptibility, with what is of order zero added once
            chi = self.Chi(self.Add(chi, G, m), m)
            chi.FFT("R", "T")
            out.append(np.abs(np.asarray(chi.Data) - np.asarray(d["Chi"]["SmoothT"])).max())
            return [int(round(x / U)) if x < 1e4 else 2000000000 for x in out]
        except Exception:
            if os.environ.get("COORD_DEBUG"):
                traceback.print_exc(file=sys.stderr)
            return [-1]

    def run(self, argv):
        sys.argv = argv
        sys.path[:0] = [os.path.join(WS, "dyson"), WS]
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        time.sleep = self.sleep
        self.inside = True
        import calculator, gamma3_calc, IO, weight, model, lattice  # noqa: the repository's
        self.inside = False
        session = self
        # what this life goes on from
        try:
            with open("Weight.hkl", "rb") as f:
                left = pickle.loads(f.read())
        except Exception:
            left = None
        self.bare = self.lattice = None
        self.G_Dyson, self.W_Dyson = getattr(calculator, "G_Dyson", None), getattr(calculator, "W_Dyson", None)
        self.Add, self.Chi = getattr(calculator, "Add_ChiTensor_ZerothOrder", None), getattr(calculator, "Calculate_Chi", None)
        factory = getattr(model, "BareFactory", None)
        if factory is not None and hasattr(factory, "Build"):
            build = factory.Build

            def built(self_, *a, **k):
                r = build(self_, *a, **k)
                try:
                    session.bare = tuple(x.Copy() for x in r)
                    for x in session.bare:
                        x.FFT("R", *["T"] * (x.Data.ndim > 5))
                    session.lattice = lattice.Lattice("Square", r[0].Map)
                except Exception:
                    session.bare = None
                return r
            factory.Build = built

        known = set()

        def watch(name, pos):
            f = getattr(calculator, name, None)
            if f is None:
                return

            def g(*a, **k):
                resumed = []
                if name == "SigmaDeltaT_FirstOrder" and left is not None and name not in known:
                    # of the propagator that was left
                    try:
                        G = weight.Weight("SmoothT", a[0].Map, "TwoSpins", "AntiSymmetric", "R", "T").FromDict(left["G"])
                        c = f(G, *a[1:], **k)
                        c.FFT("R", "T")
                        resumed = ints(c.Data, pos)
                    except Exception:
                        if os.environ.get("COORD_DEBUG"):
                            traceback.print_exc(file=sys.stderr)
                known.add(name)
                w = f(*a, **k)
                session.inside = True
                try:
                    c = w.Copy()
                    c.FFT("R", "T")
                    session.emit("part", what=name, v=ints(c.Data, pos), resumed=resumed)
                finally:
                    session.inside = False
                return w
            setattr(calculator, name, g)
        def arg(name, what, pos):
            f = getattr(gamma3_calc, name, None)
            if f is None:
                return

            def g(x, *a, **k):
                session.inside = True
                if np.asarray(x).ndim == len(pos[0]) and all(i < n for p in pos for i, n in zip(p, np.shape(x))):
                    resumed = []
                    if what == "GGGammaG" and what not in known and left is not None and "GGGammaG" in left:
                        resumed = ints(left["GGGammaG"]["SmoothT"], pos)
                    known.add(what)
                    session.emit("part", what=what, v=ints(x, pos), resumed=resumed)
                session.inside = False
                return f(x, *a, **k)
            setattr(gamma3_calc, name, g)
        if self.plan["mode"] == "mc":
            arg("AddTwoG_To_GammaG", "GammaG", GPOS)
            arg("AddTwoW_To_GammaW", "GammaW", WPOS)
        else:
            arg("AddW_To_GGGammaG", "GGGammaG", GPOS)
            solve = getattr(calculator, "W_Dyson", None)

            def touching(*a, **k):
                session.solved = getattr(session, "solved", 0) + 1
                try:
                    r = solve(*a, **k)
                except calculator.DenorminatorTouchZero:
                    session.emit("touch")
                    raise
                if session.solved in session.plan.get("touch", ()):
                    session.emit("touch")
                    raise calculator.DenorminatorTouchZero(-1.0, [0] * len(L), 0)
                return r
            solveg = getattr(calculator, "G_Dyson", None)

            def touchingg(*a, **k):
                try:
                    return solveg(*a, **k)
                except calculator.DenorminatorTouchZero:
                    session.emit("touch")
                    raise
            if solve is not None and hasattr(calculator, "DenorminatorTouchZero"):
                calculator.W_Dyson = touching
                if solveg is not None:
                    calculator.G_Dyson = touchingg
        watch("SigmaDeltaT_FirstOrder", POS)
        watch("SigmaSmoothT_FirstOrder", POS)
        watch("Polar_FirstOrder", PPOS)
        sys.addaudithook(self.hook)
        how = "returned"
        try:
            if self.plan["mode"] in ("mc", "total"):
                self.sleep(0)       # the statistics of the first round
            runpy.run_path(os.path.join(WS, "dyson", "main.py"), run_name="__main__")
        except SystemExit:
            how = "exit"
        except BaseException as e:
            how = "raised " + repr(e)[:200]
        self.inside = True
        self.emit("exit", how=how)


RSIZE = 0       # of the compressed three-point function
HUGE = 3e8 * (1 + 0.5j)


def statistics(rng, plan, limit):
    g3 = plan.get("g3", False)
    """Replaces the workers' files.  Returns what they hold, in units of 1e-5."""
    for n in os.listdir(WS):
        if "statis" in n:
            p = os.path.join(WS, n)
            os.rmdir(p) if os.path.isdir(p) else os.remove(p)
    out = []
    n = rng.choice([0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8]) if rng.random() < 0.6 else 4
    calm = rng.random() < 0.45          # nothing wrong
    norders = rng.choice([1, 2, 3])
    norm = dict(Sigma=rng.choice([2, 4]), Polar=rng.choice([2, 4]))
    noisy = dict(Sigma=[o > 0 and rng.random() < 0.4 for o in range(norders)], Polar=[o > 0 and rng.random() < 0.4 for o in range(norders)])
    if rng.random() < 0.08 and not calm:
        noisy[rng.choice(["Sigma", "Polar"])][0] = True
    huge = rng.random() < 0.2 and not calm
    # an order of which there are no samples yet: there is nothing to judge it by
    hollow = dict(Sigma=[rng.random() < 0.08 * (o + 1) for o in range(norders)], Polar=[rng.random() < 0.08 * (o + 1) for o in range(norders)])
    kinds = ["good"] * n
    if not calm:
        for j in range(n):
            if rng.random() < 0.3:
                # with little room left, or with a denominator that touches zero, it would not show which file was read first
                kinds[j] = rng.choice(["garbage", "short", "nopolar", "nosigma", "empty", "nohist"] + ["noGammaG", "noGammaW"] * g3 + (["oddnorm_GammaG", "fewer_GammaG", "oddnorm_GammaW", "fewer_GammaW"] * g3 if not (limit or huge) else []) + ([] if limit or huge else ["oddnorm_Sigma", "oddnorm_Polar", "fewer_Polar", "fewer_Sigma"]) + ["nan"] * (rng.random() < 0.1))
    for kind in ("fewer_GammaG", "fewer_GammaW"):
        if kinds.count(kind) * 2 >= n:  # nothing to compare them with
            kinds = ["good" if k == kind else k for k in kinds]
    gnorm = rng.choice([2, 4])
    nogamma = rng.random() < 0.1 and not calm
    allzero = rng.random() < 0.06 and not calm
    pids = rng.sample(range(40), n)
    for j in range(n):
        kind = kinds[j]
        name = "%d_MC_statis.hkl" % pids[j]
        d = {}
        rec = dict(name=name, kind=kind, g3=g3, readable=kind not in ("garbage", "short", "empty"), huge=huge, nan=kind == "nan")   # nothing can be made of these
        for what, ns, pos in (("Sigma", 2, POS), ("Polar", 4, PPOS)):
            no = norders
            if kind == "fewer_" + what:
                no = norders - 1 if norders > 1 else 2
            a = np.zeros([no, ns, 1, ns, 1, VOL, NT], dtype=complex)
            base = np.random.RandomState(rng.randrange(1 << 30))
            for o in range(no):
                x = base.randint(1, 90, [ns, 1, ns, 1, VOL, 1]) * rng.choice([1, 2, 3]) + np.arange(NT) * rng.choice([-2, 1, 3])
                y = base.randint(-40, 40, [ns, 1, ns, 1, VOL, 1]) + np.arange(NT) * 1
                a[o] = x + 1j * y
                if o < norders and noisy[what][o]:
                    a[o] += 600 * (-1) ** np.arange(NT)
                if o < norders and hollow[what][o]:
                    a[o] = 0
                if what == "Polar" and huge and o == 0:
                    # far beyond where the denominator changes its sign, one spin component only
                    a[o][0, 0, 0, 0] += HUGE
            acc = 0 if allzero else rng.choice([1, 2, 4, 8]) 
            if kind == "nan":
                a[0, 0, 0, 0, 0, 0, 0] = np.nan
            d[what] = {"Histogram": {"SmoothT": {"WeightAccu": a * U, "NormAccu": float(acc), "Norm": float(norm[what] * (2 if kind == "oddnorm_" + what else 1))}}}
            rec[what] = dict(there=not (kind == "nopolar" and what == "Polar" or kind == "nosigma" and what == "Sigma" or kind == "nohist"), acc=acc, norm=norm[what] * (2 if kind == "oddnorm_" + what else 1),
                             a=[[int(round(v)) for p in pos for v in (a[o][p].real, a[o][p].imag)] if not huge and kind != "nan" else [0] * (2 * len(pos)) for o in range(no)], noisy=[bool(o < norders and noisy[what][o]) for o in range(no)], hollow=[bool(o < norders and hollow[what][o] and not (huge and what == "Polar" and o == 0)) for o in range(no)])
        for what, shape, pos in (("GammaG", [2, VOL, NT, NT], GPOS), ("GammaW", [2, RSIZE, NT * (NT + 1) // 2], WPOS)):
            base = np.random.RandomState(rng.randrange(1 << 30))
            if kind == "fewer_" + what:
                shape[1] = 1
            a = base.randint(1, 90, shape) + 1j * base.randint(-40, 40, shape)
            acc = 0 if allzero or nogamma else rng.choice([1, 2, 4, 8])
            nrm = gnorm * (2 if kind == "oddnorm_" + what else 1)
            if g3 and kind != "no" + what:
                d[what + "Statis"] = {"WeightAccu": a * U, "NormAccu": float(acc), "Norm": float(nrm)}
            rec[what] = dict(there=kind != "no" + what, acc=acc, norm=nrm, n=shape[1], a=[[int(v) for p in pos for v in ((a[p].real, a[p].imag) if p[1] < shape[1] else (0, 0))]])
        if kind == "nopolar":
            del d["Polar"]
        if kind == "nosigma":
            del d["Sigma"]
        if kind == "nohist":
            del d["Sigma"]["Histogram"]
            del d["Polar"]["Histogram"]
        raw = pickle.dumps(d)
        if kind == "garbage":
            raw = b"\x89HDF\r\n" + raw[:50]
        if kind == "short":
            raw = raw[:len(raw) // 2]
        if kind == "empty":
            raw = b""
        with open(os.path.join(WS, name), "wb") as f:
            f.write(raw)
        out.append(rec)
    # what is not a worker's file
    if rng.random() < 0.3:
        with open(os.path.join(WS, "_9_MC_statis.hkl"), "wb") as f:
            f.write(b"being written")
    if rng.random() < 0.2:
        with open(os.path.join(WS, "statis_total.hkl"), "wb") as f:
            f.write(b"a total")
    if rng.random() < 0.2:
        os.mkdir(os.path.join(WS, "7_MC_statis_old"))
    return out


def infile(rng, dyson_only, g3):
    job = {"Type": "DYSON", "PID": 0, "WeightFile": "Weight", "MessageFile": "Message", "OutputFile": "Dyson_Output", "DysonOnly": dyson_only, "SumRule": False}
    f = rng.choice([[0.0] * 4, [1.0 / 64, -1.0 / 64, 0.0, 0.0], [1.0 / 32, 1.0 / 64, 0.0, 0.0], [2.0, -1.0, 0.0, 0.0], [4.0, 2.0, 0.0, 0.0]])
    iv = [-x / 4 for x in f]
    para = {"Gamma3": g3, "Tau": {"MaxTauBin": NT, "Beta": BETA, "MaxTauBinTiny": NT, "BasisNum": 4}, "Lattice": {"Name": "Square", "NSublat": 1, "L": list(L)},
            "Model": {"Name": "J1J2", "Interaction": [1.0, 0.0, 0.0, 0.0], "ExternalField": [0.0] * 4, "Symmetry": ["SU2", "ParticleHole"], "Hopping": [1.0, 0.0, 0.0, 0.0],
                      "Phase": [0.0] * 4, "HubbardInteraction": 0.0, "ChemicalPotential": [0.0] * 4},
            "Dyson": {"SleepTime": 1, "Gamma3": False, "OrderAccepted": {"Sigma": rng.choice([0, 1, 1]), "Polar": rng.choice([0, 1, 1, 2])}, "ErrorThreshold": 1e-4,
                      "Annealing": {"DeltaField": f, "Interval": iv}}}
    return {"Job": job, "Para": para}


def plan_of(rng, mode, rounds):
    p = dict(mode=mode, rounds=rounds if mode == "mc" else 1, ops={}, kinds={}, limit={})
    if mode == "total":
        r = rng.random()
        if r < 0.1:
            p["ops"][rng.randrange(1, 3)] = rng.choice(["kill", "fail"])
        elif r < 0.2:
            p["limit"][1] = rng.choice([200, 2000])
        return p
    if mode != "mc":
        if rng.random() < 0.3:
            p["ops"][rng.randrange(2, 30)] = "fail"
        p["ops"][rng.randrange(2, 40)] = "kill"
        p["touch"] = [k for k in range(1, 12) if rng.random() < 0.25]
        return p
    r = rng.random()
    for rd in range(1, rounds + 1):
        x = rng.random()
        if x < 0.06:
            p["kinds"][(rd, "weights", "rename")] = "fail"
        elif x < 0.10:
            p["kinds"][(rd, "para", "rename")] = "fail"
        elif x < 0.16:
            p["limit"][rd] = rng.choice([200, 2000, 20000])
        elif x < 0.18:
            p["kinds"][(rd, "message", "rename")] = "fail"
    if r < 0.4:
        p["ops"][rng.randrange(2, 8 * rounds)] = "kill"
    elif r < 0.55:
        p["kinds"][(rng.randrange(1, rounds + 1), rng.choice(["weights", "para"]), "rename")] = rng.choice(["term", "int"])
    return p


def main():
    out, seed, sessions, rounds = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    rng = random.Random(seed)
    # before anything else looks at standard output
    os.makedirs("infile", exist_ok=True)
    g3 = rng.random() < 0.5
    first = infile(rng, False, g3)
    global RSIZE
    sys.path[:0] = [os.path.join(WS, "dyson"), WS]
    if g3:
        out0 = os.dup(1)
        os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
        import gamma3_calc, weight
        RSIZE = len(gamma3_calc.SymmetryMapping(weight.IndexMap(BETA, L, 1, NT, NT, 4, ["Square"]))[5])
        os.dup2(out0, 1)
    with open(out, "w", buffering=1) as f:
        f.write('{"k":"about","seed":%d}\n' % seed)
        for s in range(sessions):
            have = os.path.exists("Weight.hkl")
            dyson = rng.random() < 0.15
            mode = "new" if not have else "dyson" if dyson else "total" if rng.random() < 0.25 else "mc"
            first["Job"]["DysonOnly"] = dyson
            first["Job"]["SumRule"] = mode in ("new", "dyson") and rng.random() < 0.3
            with open("infile/_in_DYSON_0.txt", "w") as g:
                g.write(repr(first))
            eff = first
            if have and os.path.exists("0_DYSON_para.txt"):
                try:
                    eff = evaluate(open("0_DYSON_para.txt").read())
                except Exception:
                    pass
            plan = plan_of(rng, mode, rounds)
            plan["g3"] = g3 and mode != "total"     # which adds up self-energy and polarization only
            f.write('{"k":"begin",' + json.dumps(dict(mode=mode, para=para_of(eff), disk=disk(), beta=int(round(BETA * 1e6)), sumrule=first['Job']['SumRule'], watch=True, g3=g3, plan=repr(plan)))[1:] + "\n")
            f.flush()
            crng = random.Random(rng.randrange(1 << 40))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                n = os.open(os.environ.get("SESSION_OUT", "/dev/null"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(n, 1)
                os.dup2(n, 2)
                signal.alarm(100)
                try:
                    Session(w, plan, crng).run(["main.py", "-p", "0"] + (["-c"] if plan["mode"] == "total" else []))
                finally:
                    sys.stdout.flush()
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as p:
                got = p.read().decode()
            _, status = os.waitpid(pid, 0)
            if got and not got.endswith("\n"):
                got = got[:got.rfind("\n") + 1]
            f.write(got)
            f.write('{"k":"over",' + json.dumps(dict(status=status, disk=disk(), total=total(mode)))[1:] + "\n")
        f.write('{"k":"end"}\n')


main()

"""Components with a small interface of their own: the pool (C07), streams
(C18), timers (C21), arithmetic (C22), space-time bins (C17), estimators (C11),
the interrupt handler (C15)."""
import json, os, shutil, sys
import a_mc, build, core, mcconf


def mc(ctx, module, cfg=None, **kw):
    """Exhaustive check of a design module."""
    r = core.tlc(module, cfg or module + ".cfg", ctx.sub("mc_" + module), workers=4, **kw)
    if not r["ok"]:
        raise core.CheckError("TLC rejects the design %s (rc %d):\n%s" % (module, r["rc"], r["out"][-3000:]))
    ctx.add(states=r["distinct"], transitions=r["generated"], evaluations=r["distinct"])
    ctx.notes.setdefault("exhaustive", {})[module] = dict(distinct=r["distinct"], generated=r["generated"])
    return r


def record(ctx, exe, args, spec, cwd, timeout=400, env=None, cfgenv=None, mem="3g", died=None):
    """Run a driver and judge its recording."""
    out = os.path.join(cwd, "trace.json")
    rc, o = core.run((exe if isinstance(exe, list) else [exe]) + [out] + [str(a) for a in args], cwd=cwd, timeout=timeout, env=env)
    lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
    while lines and lines[-1] == "":
        lines.pop()
    if lines:
        try:
            json.loads(lines[-1])
        except ValueError:
            lines.pop()
    if not lines or json.loads(lines[-1])["k"] != "end":
        # the driver itself died: the code under test did it
        lines.append(json.dumps({"k": "died", "rc": rc}))
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = dict(TRACE=out)
    e.update(cfgenv or {})
    r = core.tlc_trace(spec, "Trace.cfg", cwd, e, mem=mem)
    kinds = {}
    for l in lines:
        k = l[6:l.index('"', 6)]
        kinds[k] = kinds.get(k, 0) + 1
    ctx.add(evaluations=len(lines), distinct_nontrivial=len(set(lines)), states=r["distinct"], transitions=len(lines),
            traces_validated_against_impl=1)
    n = ctx.notes.setdefault("events_by_kind", {})
    for k, v in kinds.items():
        n[k] = n.get(k, 0) + v
    for l in lines[1:4]:
        ctx.sample(l[:300], 3)
    for b in r["bads"]:
        if b[1] == "*":
            b[1] = ctx.prop
        ctx.bad(b[1], "/".join([b[1]] + [str(x) for x in b[2:3]]), "line %s: %s; event %s" % (b[0], b[2:], lines[b[0] - 1][:300]), [out])
    return lines, r


def seeds(ctx, n):
    return [ctx.seed * 100 + j for j in range(n)]


def many(ctx, name, spec, argsets, extra=(), engine=True, **kw):
    exe = build.driver(name, engine, extra)
    def one(j):
        d = ctx.sub("%s_%d" % (name, j))
        return record(ctx, exe, argsets[j], spec, d, **kw)
    return core.pmap(one, range(len(argsets)))


def pool(ctx):
    mc(ctx, "PoolImpl", mem="4g")
    many(ctx, "pool", "PoolTrace", [(s, 1500 if ctx.quick else 6000) for s in seeds(ctx, 4 if ctx.quick else 16)])
    # the real chain under low limits, which it keeps hitting
    confs = [("A", dict(order=1)), ("B", dict(order=2)), ("D", dict(order=1)), ("G", dict(order=2)), ("E", dict(order=3)), ("F", dict(order=2)), ("H", {}), ("C", dict(order=2))]
    a_mc.record(ctx, confs, (500 if ctx.quick else 3000, 0, 0, 1, False), [ctx.seed * 100] if ctx.quick else seeds(ctx, 3))
    return "model_checking", ("a case is one operation on a real component pool (adds, removes, recoveries, illegal accesses) or one update of the real chain under a low "
                              "order limit, judged by TLC against spec/Pool.tla and spec/Diagram.tla; non-trivial = distinct events")


def timers(ctx):
    mc(ctx, "Timer")
    many(ctx, "clockd", "TimerTrace", [(s, 400 if ctx.quick else 2000) for s in seeds(ctx, 4 if ctx.quick else 16)],
         extra=("-rdynamic",))
    ctx.assume.append("time(), clock(), clock_gettime() and gettimeofday() are replaced by the driver's clock")
    return "model_checking", "a case is one call on a real timer at a chosen time, judged by TLC against spec/Timer.tla; non-trivial = distinct events"


def streams(ctx):
    many(ctx, "rngd", "StreamTrace", [(s, 500 if ctx.quick else 2500) for s in seeds(ctx, 4 if ctx.quick else 16)])
    return "model_checking", "a case is one draw, export, import or reseed of a real RandomFactory, judged by TLC against spec/StreamTrace.tla; non-trivial = distinct events"


def arith(ctx):
    mc(ctx, "Arith")
    many(ctx, "arith", "ArithTrace", [(s, 400 if ctx.quick else 4000) for s in seeds(ctx, 4 if ctx.quick else 8)])
    ctx.assume.append("complex results are compared in units of 10^-4 (10^-2 for the modulus), on Gaussian integers")
    return "model_checking", "a case is one arithmetic operation of the real code with its result, judged by TLC against spec/Arith.tla; non-trivial = distinct events"


def index(ctx):
    mc(ctx, "Index")
    many(ctx, "index", "IndexTrace", [(s, 30 if ctx.quick else 300) for s in seeds(ctx, 4 if ctx.quick else 8)])
    return "model_checking", ("a case is a batch of table positions (300 pairs of ends each) the real maps return for one lattice, judged by TLC against "
                              "spec/Index.tla; non-trivial = distinct batches")


def estimator(ctx):
    mc(ctx, "Estimator")
    many(ctx, "estimator", "EstimatorTrace", [(s, 300 if ctx.quick else 1500, 45000 if j == 0 else 0) for j, s in enumerate(seeds(ctx, 4 if ctx.quick else 12))])
    ctx.assume.append("sums and norms are compared exactly in units of 1/64, means and errors to 1/1000")
    return "model_checking", ("a case is one operation on real estimators or a bundle with the state every one of them shows afterwards, judged by TLC "
                              "against spec/Estimator.tla; non-trivial = distinct events")


def interrupt(ctx):
    mc(ctx, "Interrupt")
    q = ctx.quick
    many(ctx, "interrupt", "InterruptTrace", [(6 if q else 7, 4 if q else 5, s, 300 if q else 3000) for s in seeds(ctx, 1)])
    return "model_checking", ("a case is one sequence of operations (every sequence up to a length, and seeded longer ones) carried out on the real handler in a "
                              "process of its own, judged by TLC against spec/Interrupt.tla; non-trivial = distinct sequences")


def dictionary(ctx):
    import pyio
    exe = build.driver("dict", True, ())
    ss = seeds(ctx, 4 if ctx.quick else 12)

    def one(j):
        d = ctx.sub("dict_%d" % j)
        pyio.install(d)
        return record(ctx, exe, (ss[j], 60 if ctx.quick else 400), "DictTrace", d)
    core.pmap(one, range(len(ss)))
    ctx.assume.append("IO.py runs with its Python 2 syntax brought up to date and with a stand-in for hickle that pickles")
    return "model_checking", ("a case is one store, read, update, file round trip or script of the real Dictionary, with the Python objects looked at "
                              "independently, judged by TLC against spec/Values.tla; non-trivial = distinct events")


def tables(ctx):
    for p in (2, 3):
        mc(ctx, "Table", "Table%d.cfg" % p)
    many(ctx, "tables", "TableTrace", [(s, 12 if ctx.quick else 120) for s in seeds(ctx, 4 if ctx.quick else 12)])
    ctx.assume.append("tables are driven with values, temperatures and squeezes that stay exact in units of 1/4096")
    return "model_checking", ("a case is one operation on a real self-energy, polarization or three-point table with the full table shown afterwards, judged by TLC "
                              "against spec/Table.tla and spec/Index.tla; non-trivial = distinct events")


WORKERS = [("A", {}), ("B", {}), ("C", {}), ("D", {}), ("E", dict(order=1)), ("F", {}), ("G", dict(order=3)), ("H", {}),
           ("D", dict(order=1)), ("G", {}), ("A", dict(order=2, L=[3, 2])), ("F", dict(order=4, L=[2, 3]))]


def worker(ctx):
    import pyio
    mc(ctx, "Worker", mem="4g")
    exe = build.driver("worker", True, ())
    steps = 1000 if ctx.quick else 2000
    jobs = [(n, o, s) for s in seeds(ctx, 2 if ctx.quick else 6) for n, o in WORKERS]

    def one(j):
        name, over, s = jobs[j]
        d = ctx.sub("worker_%d_%s" % (j, name))
        mcconf.make(d, name, s, rsym=True, **over)
        pyio.install(d)
        return record(ctx, exe, (s * 100 + j, steps), "WorkerTrace", d, cfgenv=dict(CFG=os.path.join(d, "cfg.json")))
    core.pmap(one, range(len(jobs)))
    ctx.assume += ["IO.py runs with its Python 2 syntax brought up to date and with a stand-in for hickle that pickles",
                   "weights, factors, temperatures and squeezes are powers of two, so that statistics are compared exactly in units of 1/4096"]
    return "model_checking", ("a case is one action of a real worker (steps, a measurement, a save, a restart in a new process, a resumed run against one never interrupted, "
                              "a message or set of weights published, a look for messages, a reweighting) with everything the worker is afterwards, judged by TLC against "
                              "spec/WorkerTrace.tla; non-trivial = distinct events")


CRASHES = [("A", {}), ("C", {}), ("G", {}), ("B", {}), ("D", dict(order=1)), ("H", dict(order=2)), ("F", {}), ("E", dict(order=1))]


def crash(ctx):
    import pyio
    mc(ctx, "Save", mem="3g")
    exe = build.driver("crash", True, ())
    jobs = [(n, o, s) for s in seeds(ctx, 1 if ctx.quick else 4) for n, o in CRASHES]

    def one(j):
        name, over, s = jobs[j]
        d = ctx.sub("crash_%d_%s" % (j, name))
        mcconf.make(d, name, s, rsym=True, **over)
        pyio.install(d)
        return record(ctx, exe, (s * 100 + j, 12 if ctx.quick else 40), "SaveTrace", d)
    core.pmap(one, range(len(jobs)))
    ctx.assume += ["IO.py runs with its Python 2 syntax brought up to date and with a stand-in for hickle that pickles",
                   "the process dies, the machine does not: what a system call has done stays done"]
    return "fault_enumeration", ("a case is one save of a real worker under a tracer: every system call that can change the directory, the directory after it, a kill after it and (for writes) "
                                 "in the middle of it with a restart from what is left, and the same call failing; judged by TLC against spec/FileSystem.tla; non-trivial = distinct events")


PY2 = ["IO.py and the coordinator's modules run with their Python 2 syntax brought up to date, with stand-ins for hickle (pickles) and matplotlib (draws nothing)"]


def python(ctx, script, spec, argsets, **kw):
    """Run a driver written in Python on the repository's modules, and judge its recordings."""
    import py2
    base = ctx.sub("py_" + script)
    py2.install(base)
    exe = [sys.executable, "-W", "ignore", os.path.join(core.VERIF, "harness", script + ".py")]

    def one(j):
        d = ctx.sub("%s_%d" % (script, j))
        shutil.copytree(base, d, dirs_exist_ok=True)
        env = {v: "1" for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS")}
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        return record(ctx, exe, argsets[j], spec, d, env=env, **kw)
    return core.pmap(one, range(len(argsets)))


def coordinator(ctx):
    mc(ctx, "Coordinator", mem="4g")
    python(ctx, "coord", "CoordTrace", [(s, 14 if ctx.quick else 60, 8) for s in seeds(ctx, 8 if ctx.quick else 16)], timeout=700)
    ctx.assume += PY2 + ["the coordinator waits for statistics in time.sleep, and what it publishes is looked at where it is put in place",
                         "weights are compared in units of 10^-5, averages to a part in a thousand; published weights are put into the Dyson equations by the functions C29 judges"]
    return "fault_enumeration", ("a case is one step of a real coordinator (a round with the statistics it finds, an estimate it makes, a file it puts in place, a failing "
                                 "call, a signal, a death, a restart), judged by TLC against spec/Coordinator.tla; non-trivial = distinct events")


def layout(ctx):
    mc(ctx, "Symmetry")
    exe = build.driver("layout", True, ())
    python(ctx, "layout", "LayoutTrace", [(s, 12 if ctx.quick else 80, exe) for s in seeds(ctx, 6 if ctx.quick else 16)], timeout=700)
    ctx.assume += PY2 + ["weights are in units of 2^-20 and exact; times lie well inside of bins",
                         "a displacement is taken from the end to the third point on both sides, as the workers do"]
    return "model_checking", ("a case is one weight a real worker reads from a file the real coordinator wrote, one sample on its way back, or one table of the coordinator's maps, "
                              "judged by TLC against spec/Index.tla and spec/Symmetry.tla; non-trivial = distinct events")


def bare(ctx):
    mc(ctx, "Lattice")
    python(ctx, "bare", "BareTrace", [(s * 48, 48 if ctx.quick else 240) for s in seeds(ctx, 6 if ctx.quick else 16)], timeout=700)
    ctx.assume += PY2[:1] + ["couplings are sixteenths and the interaction exact; the propagator is judged to four digits, and up to four bins at fields that make its size rational",
                             "sides of at least two cells; models of free fermions (Hubbard, Haldane) are not judged"]
    return "model_checking", ("a case is one bare model the real coordinator builds (a lattice, a size, couplings, a history of fields), judged by TLC entry by entry against "
                              "spec/Lattice.tla; non-trivial = distinct events")


def observe(ctx):
    mc(ctx, "Fourier")
    python(ctx, "observe", "ObserveTrace", [(s, 24 if ctx.quick else 300) for s in seeds(ctx, 8 if ctx.quick else 16)], timeout=700)
    ctx.assume += PY2[:1] + ["what is transformed is of small integers, and phases are of multiples of a twelfth of a turn over four sizes at most; values are judged to about a thousandth",
                             "the staggered order of the triangular lattice with three sublattices (an irrational momentum) and paths on the kagome lattice are not judged"]
    return "model_checking", ("a case is one transform, structure factor, path or measurement of the real coordinator's modules, judged by TLC as a sum over cells and times "
                              "(spec/Fourier.tla, spec/Lattice.tla); non-trivial = distinct events")


def perturb(ctx):
    mc(ctx, "Dyson")
    python(ctx, "perturb", "DysonTrace", [(s, 30 if ctx.quick else 500) for s in seeds(ctx, 8 if ctx.quick else 16)], timeout=700)
    ctx.assume += PY2[:1] + ["inputs are small integers, first-order diagrams exact; solutions are judged by what is left of the equation, to about a hundredth",
                             "determinants are judged for one sublattice; the compiled solver (lu_fast) is not there, the one in Python is judged"]
    return "model_checking", ("a case is one first-order diagram, Dyson equation or correlation of the real calculator, judged entry by entry by TLC against spec/Dyson.tla; "
                              "non-trivial = distinct events")


def threepoint(ctx):
    mc(ctx, "ThreePoint")
    python(ctx, "threepoint", "ThreePointTrace", [(s, 30 if ctx.quick else 500) for s in seeds(ctx, 8 if ctx.quick else 16)], timeout=700)
    ctx.assume += PY2[:1] + ["inputs are small integers and results exact, but for those by way of Fourier transforms (single precision)", "one sublattice, two dimensions, as the code"]
    return "model_checking", ("a case is one vertex of the real coordinator dressed in one way, judged entry by entry by TLC against spec/ThreePoint.tla; non-trivial = distinct events")


def jobs(ctx):
    mc(ctx, "Jobs")
    python(ctx, "jobs", "JobsTrace", [(s, 120 if ctx.quick else 900) for s in seeds(ctx, 6 if ctx.quick else 16)], timeout=700)
    ctx.assume += PY2[:1] + ["processes are stand-ins, started by subprocess.Popen and by os.system (which run the real scripts for the queue), and time passes in time.sleep",
                             "signals arrive between lines of the manager; one project in a directory has one kind of worker"]
    return "model_checking", ("a case is one step of a real job manager (a process started, ended or told to end, a wait, a request to stop, an end), judged by TLC against spec/Jobs.tla; "
                                    "non-trivial = distinct events")


PROGRAMS = [("A", {}), ("B", {}), ("C", {}), ("D", {}), ("E", dict(order=1)), ("F", {}), ("G", dict(order=3)), ("H", {})]


def program(ctx):
    import pyio
    mc(ctx, "Program")
    exe = build.driver("program", True, ("-rdynamic",))
    with open(os.path.join(core.VERIF, "harness", "arm.py")) as f:
        arm = f.read()
    jobs = [(n, o, s) for s in seeds(ctx, 2 if ctx.quick else 6) for n, o in PROGRAMS]

    def one(j):
        name, over, s = jobs[j]
        d = ctx.sub("program_%d_%s" % (j, name))
        mcconf.make(d, name, s, rsym=True, **over)
        pyio.install(d)
        with open(os.path.join(d, "IO.py"), "a") as f:
            f.write(arm)
        return record(ctx, exe, (s * 100 + j, 15 if ctx.quick else 60), "ProgramTrace", d)
    core.pmap(one, range(len(jobs)))
    ctx.assume += ["IO.py runs with its Python 2 syntax brought up to date and with a stand-in for hickle that pickles",
                   "main() runs on a clock of the driver's own; a look at the clock after new measurements is where it is about to do what is due",
                   "weights and squeezes are powers of two, so that norms are compared exactly in units of 1/64"]
    return "model_checking", ("a case is one session of the real main() (a run refused, or started, resumed, sent messages, signals and inconsistencies, and ended), look by look at the "
                              "clock, judged by TLC against spec/Program.tla; non-trivial = distinct events")


# how often each kind of diagram is visited: flat tables (weights of modulus one) reach third order
SAMPLINGS = [dict(L=[2, 1], nsub=1, order=3, lb=0, flat=True, kind="spin"),
             dict(L=[2, 1], nsub=1, order=2, lb=1, kind="spin"),
             dict(L=[1, 1], nsub=2, order=2, lb=-1, g3=True, kind="spin"),
             dict(L=[1, 4], nsub=1, order=2, lb=0, kind="spin"),
             dict(L=[2, 1], nsub=1, order=3, lb=-1, g3=True, flat=True, kind="spin")]


def sampling(ctx):
    exe = build.driver("sampling", True, ())
    jobs = [(o, s) for s in seeds(ctx, 1 if ctx.quick else 2) for o in SAMPLINGS[:3 if ctx.quick else 5]]
    looks = 1000000 if ctx.quick else 2500000
    for j, (over, s) in enumerate(jobs):
        d = ctx.sub("sampling_%d" % j)
        mcconf.make(d, "C", s, nt=1, ntt=1, fine=True, wsr=-4, slope=2, **over)
        record(ctx, exe, ("infile", s + j, 16 if ctx.quick else 24, looks, 25, 1), "SamplingTrace", d, timeout=700,
               cfgenv=dict(CFG=os.path.join(d, "cfg.json")), mem="6g")
    ctx.assume += ["one time bin, so that the modulus of a weight does not depend on the times, which are then integrated exactly",
                   "kinds of diagrams up to third order; a frequency is judged to eight standard errors over independent runs and a third of a per cent"]
    return "exploration", ("a case is the frequency of one kind of diagram over independent runs of the real chain, judged by TLC against the census of all diagrams "
                                             "written down in spec/Sampling.tla; non-trivial = distinct kinds")

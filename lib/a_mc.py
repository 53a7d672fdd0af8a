"""Monte Carlo updates: recordings of the real mc::Markov judged by TLC against
spec/Diagram.tla (C01-C06, C08, C20)."""
import json, os, shutil
import build, core, mcconf

# per tier: events per recording, avail events, hop events, seeds per configuration
QUICK = dict(default=(900, 0, 0, 1, False), C20=(600, 0, 0, 1, False), C06=(260, 6, 2, 1, True), C05=(800, 3, 2, 1, False))
THOROUGH = dict(default=(4000, 0, 0, 4, False), C06=(1500, 30, 8, 3, True), C05=(3000, 8, 6, 4, False))


def one(ctx, exe, name, seed, steps, avail, hops, thr, over, tag):
    d = ctx.sub("mc_%s_%d_%s" % (name, seed, tag))
    mcconf.make(d, name, seed, **over)
    out = os.path.join(d, "trace.json")
    rc, o = core.run([exe, "infile", out, str(seed), str(steps), str(avail), str(hops), "1000000", "1" if thr else "0", str((3 if ctx.prop in ("C05", "C08") else 1) * (1 if ctx.quick else 4)),
                      str(0 if ctx.prop != "C20" else 2 if ctx.quick else 4)],
                     cwd=d, timeout=700)
    if not os.path.exists(out):
        raise core.CheckError("driver mc produced nothing: %d %s" % (rc, o[-500:]))
    parts = [(out, "cfg.json")]
    if os.path.exists(out + ".2"):
        parts.append((out + ".2", "cfg2.json"))
    res = []
    for n, (path, cfg) in enumerate(parts):
        res.append(judge(ctx, d, path, cfg, name, seed, rc, n + 1 == len(parts)))
    if sum(r["kinds"].get("op", 0) for r in res) < steps // 3 and not any(r["bads"] for r in res):
        raise core.CheckError("recording %s has too few updates" % name)
    return res


def judge(ctx, d, out, cfg, name, seed, rc, final):
    lines = open(out, errors="replace").read().split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    last = None
    if lines:
        try:
            last = json.loads(lines[-1])
        except ValueError:
            lines.pop()
    if last is None or last["k"] not in ("end", "fail"):
        # the driver itself died: the code corrupted it
        lines.append(json.dumps({"k": "fail", "op": "?", "msg": "driver died, exit status %d" % rc}))
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")
    kinds, ops, nontriv = {}, {}, set()
    for l in lines:
        k = l[6:l.index('"', 6)]
        kinds[k] = kinds.get(k, 0) + 1
        if k == "op":
            op = l[16:l.index('"', 16)]
            ops[op] = ops.get(op, 0) + 1
            nontriv.add(hash(l))
    r = core.tlc_trace("DiagramTrace", "DiagramTrace.cfg", d,
                       dict(TRACE=out, CFG=os.path.join(d, cfg)), mem="3g")
    return dict(name=name, seed=seed, kinds=kinds, ops=ops, n=len(lines), distinct=len(nontriv), bads=r["bads"],
                states=r["distinct"],
                files=[out, os.path.join(d, cfg), os.path.join(d, "infile.txt")],
                first=lines[min(3, len(lines) - 1)][:400])


def record(ctx, confs, par, seeds):
    exe = build.driver("mc")
    jobs = []
    steps, avail, hops, _, thr = par
    for s in seeds:
        for name, over in confs:
            jobs.append((name, s, over))
    res = core.pmap(lambda j: one(ctx, exe, j[0], j[1], steps, avail, hops, thr, j[2], "x%d" % abs(hash(str(j[2])))), jobs)
    res = [r for x in res for r in x]
    ops = {}
    for r in res:
        ctx.add(evaluations=r["n"], distinct_nontrivial=r["distinct"], states=r["states"], transitions=r["n"],
                traces_validated_against_impl=1)
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
        ctx.sample("config %s seed %d, event: %s" % (r["name"], r["seed"], r["first"]), 3)
        for b in r["bads"]:
            if b[1] == "*":
                b[1] = ctx.prop
            ctx.bad(b[1], "%s/%s" % (b[1], "/".join(str(x) for x in b[2:4])),
                    "config %s seed %d line %s: %s" % (r["name"], r["seed"], b[0], b[2:]), r["files"])
    ctx.notes["updates_by_kind"] = ops
    missing = [o for o in OPS if not ops.get(o)]
    if missing and not any(b[0] == ctx.prop for b in ctx.bads):
        ctx.notes["updates_never_proposed"] = missing
    return res


OPS = ["CreateWorm", "DeleteWorm", "MoveWormOnG", "MoveWormOnW", "Reconnect", "AddInteraction", "DeleteInteraction",
       "AddDeltaInteraction", "DeleteDeltaInteraction", "ChangeTauOnVertex", "ChangeRLoop", "ChangeMeasureFromGToW",
       "ChangeMeasureFromWToG", "ChangeDeltaToContinuous", "ChangeContinuousToDelta", "JumpToOrder0", "JumpBackToOrder1",
       "JumpToGGGammaG", "JumpFromGGGammaGToG", "JumpToWWGammaW", "JumpFromWWGammaWToW"]

RULE = ("a case is one recorded event of the real Markov chain (an update's proposal, threshold and result; the frequencies of "
        "one update's choices; one step's dispatch), generated by a seeded driver over %d configurations and judged by TLC "
        "against spec/Diagram.tla; non-trivial = the event changes the diagram and is distinct")


def check(ctx):
    import a_units
    t = QUICK if ctx.quick else THOROUGH
    # the updates as specified keep what is to be kept, and have partners
    a_units.mc(ctx, "DiagramMC")
    if not ctx.quick:
        a_units.mc(ctx, "DiagramMC", "DiagramMC3.cfg", mem="6g")
    par = t.get(ctx.prop, t["default"])
    confs = [(n, {}) for n in "ABCDEFGH"]
    if ctx.prop == "C08":
        confs = [(n, {}) for n in "DFGH"] + [("D", dict(order=2)), ("F", dict(order=3)), ("G", dict(order=2)), ("C", dict(g3=True))]
    elif not ctx.quick or ctx.prop != "C06":
        confs = [(n, dict(order=2) if i % 3 == ctx.seed % 3 else {}) for i, (n, _) in enumerate(confs)]
    if ctx.prop in ("C20", "C04"):
        # weights far from one
        confs += [("A", dict(scale=17))]
    # half of the runs change temperature on the way
    if ctx.prop != "C06":
        confs = [(n, dict(o, anneal=(-1, 1, 2, -2)[(i + ctx.seed) // 2 % 4]) if (i + ctx.seed) % 2 else o)
                 for i, (n, o) in enumerate(confs)]
    seeds = [ctx.seed * 100 + j for j in range(par[3])]
    record(ctx, confs, par, seeds)
    if ctx.prop == "C02":
        # how momenta combine, beyond what the recordings reach
        a_units.many(ctx, "arith", "ArithTrace", [(s, 400) for s in a_units.seeds(ctx, 2 if ctx.quick else 4)])
    ctx.assume += ["random draws are taken through std::mt19937 (the harness substitutes a logging subclass)",
                   "weights are powers of two times powers of i, on which the code's double arithmetic is exact",
                   "TLC and the JSON projection in harness/mcstate.h are trusted"]
    return "model_checking", RULE % len(confs)

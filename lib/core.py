"""Shared machinery of the checks: contexts, TLC, known findings, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not decide (not a violation)."""


def findings():
    """known findings: property, key -> text.  Lines starting with 'fixed:' suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(C\d+)\s+key=(\S+)\s+(.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.bads = []       # (property, key, text, replay files)
        self.cov = dict(evaluations=0, distinct_nontrivial=0, states=0, transitions=0,
                        traces_validated_against_impl=0, samples=[])
        self.assume = []
        self.notes = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def bad(self, prop, key, text, files=()):
        self.bads.append((prop, key, text, list(files)))

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s if isinstance(s, str) else json.dumps(s)[:600])


def run(cmd, cwd=None, env=None, timeout=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace", stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        return 124, o.decode("utf8", "replace") if isinstance(o, bytes) else o


def tlc(module, cfg, workdir, env=None, workers=1, timeout=800, mem="2g", extra=()):
    """Run TLC; return dict(ok, bads, generated, distinct, depth, out)."""
    md = tempfile.mkdtemp(prefix="tlc_", dir=workdir)
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xmx" + mem, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2",
           "-cp", JARS, "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    rc, out = run(cmd, cwd=workdir, env=env, timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    r = dict(rc=rc, out=out, bads=[], generated=0, distinct=0, depth=0, prints=[])
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"') and l.endswith('"'):
            try:
                x = json.loads(json.loads(l))
            except ValueError:
                continue
            if isinstance(x, list) and x and x[0] == "BAD":
                r["bads"].append(x[1:])
            else:
                r["prints"].append(x)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if m:
        r["generated"] = int(m[-1][0].replace(",", ""))
        r["distinct"] = int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        r["generated"] = r["distinct"] = int(m[-1].replace(",", ""))
    r["ok"] = rc == 0
    return r


def tlc_trace(module, cfg, workdir, env, **kw):
    """Trace checking.  An event on which the specification is not even defined
    (a field out of its domain) is one it cannot account for: reported against
    the property being checked.  Any other failure is an error of the check."""
    r = tlc(module, cfg, workdir, env=env, **kw)
    if not r["ok"] and r["rc"] != 124 and r["distinct"] > 0 and re.search("was evaluating|Reason:", r["out"]) and "OutOfMemory" not in r["out"]:
        m = re.search(r"Reason:\s*(.*)", r["out"]) or re.search(r"Error: (?!The behavior|The error occurred)(.*(?:\n(?!Error|State).*){0,3})", r["out"])
        r["bads"].append([r["distinct"], "*", "the specification cannot account for the event", (m.group(1) if m else "")[:300]])
        return r
    if not r["ok"]:
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, r["rc"], r["out"][-3000:]))
    return r


def pmap(f, xs, n=8):
    xs = list(xs)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def finish(ctx, level, rule):
    """Report, write the evidence file, return the exit code."""
    known = findings()
    fresh, hit = [], {}
    for p, key, text, files in ctx.bads:
        if p != ctx.prop:
            continue
        if (p, key) in known:
            hit[key] = known[(p, key)]
        else:
            fresh.append((key, text, files))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s [%s]" % (ctx.prop, hit[k], k))
    rc = 0
    if fresh:
        rp = os.path.join(VERIF, "replay", ctx.prop)
        shutil.rmtree(rp, ignore_errors=True)
        os.makedirs(rp, exist_ok=True)
        with open(os.path.join(rp, "violation.txt"), "w") as f:
            f.write("property %s, tier %s, seed %d\n" % (ctx.prop, ctx.tier, ctx.seed))
            f.write("re-run: VERIF_SEED=%d python3 check.py %s %s\n" % (ctx.seed, ctx.prop, ctx.tier))
            for key, text, files in fresh[:200]:
                f.write("[%s] %s\n" % (key, text))
        n = 0
        for key, text, files in fresh[:3]:
            for x in files:
                if os.path.exists(x) and os.path.getsize(x) < 30 << 20:
                    shutil.copy(x, os.path.join(rp, "%d_%s" % (n, os.path.basename(x))))
                    n += 1
        for key, text, _ in fresh[:8]:
            print("  [%s] %s" % (key, text[:400]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
        rc = 1
    c = ctx.cov
    c["rule"] = rule
    if not c["samples"]:
        c["samples"] = ["(none recorded)"]
    c.update(ctx.notes)
    c["evaluations"] = int(c["evaluations"])
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=c,
              assumptions=ctx.assume, wall_s=round(time.time() - ctx.t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % ctx.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", ctx.prop + ".json"))
    print("%s %s: %s  (%.1f s, %d cases, %d states)" % (ctx.prop, ctx.tier, "VIOLATED" if rc else "held",
          time.time() - ctx.t0, c["evaluations"], c["states"]))
    return rc

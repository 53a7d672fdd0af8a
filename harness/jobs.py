"""Runs the real job manager (job_manager.py, job_class.py) on projects in
directories of its own, with processes, time and signals under control, and
records what it starts, waits for and stops.
   jobs.py OUT SEED ROUNDS
Signals arrive at any line the manager executes, and again while it stops its
processes.  Processes are stand-ins that behave as those of Python 2 do."""
import errno, json, logging, os, random, runpy, shutil, signal, subprocess, sys, time, traceback, types
import numpy  # before the forks

WS = os.getcwd()
FD = None
_sleep = time.sleep
_run, _popen = subprocess.run, subprocess.Popen


def emit(k, **kw):
    s = (('{"k":"%s",' % k + json.dumps(kw)[1:] if kw else '{"k":"%s"}' % k) + "\n").encode()
    while s:
        s = s[os.write(FD, s):]


def canon(x):
    return json.dumps(x, sort_keys=True)


def asked(para):
    """What was asked for, without what every job gets for itself."""
    p = json.loads(canon(para))
    t = p.get("Markov", {}).pop("Timer", {})
    p.get("Markov", {}).pop("Seed", None)
    return canon(p), [int(t[k]) for k in sorted(t)], sorted(t)


class Project:
    """In the child."""

    def __init__(self, rng, d):
        self.rng, self.d = rng, d
        self.procs = []
        self.lines = self.calls = self.sleeps = 0
        self.nsystem = 0

    def rel(self, p):
        return str(p).replace(self.d, "WS")

    def run(self):
        rng, d = self.rng, self.d
        os.makedirs(d)
        os.chdir(d)
        # what is left of an earlier project
        old = sorted(rng.sample(range(13), rng.choice([0, 0, 1, 2, 3, 5]))) if rng.random() < .6 else []
        for p in old:
            open("%d_MC_statis.hkl" % p, "w").close()
            if rng.random() < .4:
                open("%d_MC_para.txt" % p, "w").close()
            if rng.random() < .3:
                open("_%d_MC_statis.hkl" % p, "w").close()      # interrupted while writing
        for n, pr in (("statis_total.hkl", .25), ("_20_MC_statis.hkl", .2), ("0_DYSON_para.txt", .3), ("Weight.hkl", .3), ("17_MC.log", .2)):
            if rng.random() < pr:
                open(n, "w").close()
        for n in ("sim.exe", "dyson/main.py"):
            os.makedirs(os.path.dirname(n) or ".", exist_ok=True)
            with open(n, "w") as f:
                f.write('#!/bin/sh\necho "$0|$*|$PWD" >> %s/ran\n' % d)
            os.chmod(n, 0o755)
        cluster = rng.random() < .25
        auto = [rng.random() < .85, rng.random() < .85]
        dup = rng.choice([0, 1, 2, 3, 4, 6])
        dy = rng.choice([0, 1, 1, 1])
        order = rng.randrange(0, 5)
        n = order + rng.choice([0, 1, 1, 1, 2, 3]) if rng.random() < .3 else order + 1 + rng.randrange(3)
        exe = "" if rng.random() < .04 else "./sim.exe"
        common = {"Tau": {"MaxTauBin": rng.choice([8, 16]), "Beta": rng.choice([0.5, 1.0, 2.25])}, "Lattice": {"Name": "Square", "NSublat": 1, "L": [rng.randrange(2, 9) for _ in range(2)]},
                  "Model": {"Name": "J1J2", "Interaction": [rng.randrange(8) / 4.0, 0.0]}, "Gamma3": rng.random() < .5}
        mc = {"Control": {"__Execute": exe, "__Duplicate": dup, "__IsCluster": cluster, "__AutoRun": auto[0]},
              "Job": {"Sample": rng.randrange(1, 100)},
              "Markov": {"Order": order, "Sweep": rng.randrange(1, 9), "OrderReWeight": [rng.randrange(1, 9) / 4.0 for _ in range(n)], "WormSpaceReweight": 0.05,
                         "Timer": {"PrinterTimer": rng.randrange(10, 40), "DiskWriterTimer": rng.randrange(10, 400), "MessageTimer": 30, "ReweightTimer": 1000}}}
        dys = {"Control": {"__Execute": ["sh", "./dyson/main.py"], "__Duplicate": dy, "__IsCluster": cluster, "__AutoRun": auto[1]},
               "Job": {"DysonOnly": dup == 0, "SumRule": False}, "Dyson": {"SleepTime": rng.randrange(9), "ErrorThreshold": 0.05}}
        if rng.random() < .5:
            dys["Control"]["__PBSCommand"] = "#PBS -l mem=%dgb" % rng.randrange(1, 9)
        mc.update(common)
        dys.update(common)
        valid = exe != "" and n >= order + 1
        self.cpu = rng.choice([1, 1, 2, 3, 8])
        plan = []
        for kind, p, ex, w in (("MC", mc, "WS/sim.exe", True), ("DYSON", dys, "sh WS/dyson/main.py", False)):
            a, t, tn = asked({k: v for k, v in p.items() if k not in ("Control", "Job")})
            plan.append(dict(type=kind, dup=p["Control"]["__Duplicate"], exe=ex, cluster=cluster, auto=p["Control"]["__AutoRun"], worker=w, para=a, timer=t, timers=tn,
                             job=canon(p["Job"]), pbs=p["Control"].get("__PBSCommand", "")))
        emit("plan", jobs=plan, old=old, cpu=self.cpu, valid=valid)
        random.seed(rng.randrange(10 ** 9))
        self.patch()
        code, crash = None, None
        try:
            import job_class
            todo = [job_class.JobMonteCarlo(mc)] if rng.random() < .5 else []
            todo.append(job_class.JobDyson(dys))
            if len(todo) == 1:
                todo.append(job_class.JobMonteCarlo(mc))
            m = types.ModuleType("inlist")
            m.TO_DO, m.CPU, m.SLEEP = todo, self.cpu, 1
            sys.modules["inlist"] = m
            # when to ask it to stop
            self.at = rng.choice([0, 0, 1]) * rng.randrange(1, 160) if rng.random() < .8 else rng.randrange(1, 40)
            self.again = rng.choice([0, 0, 1, 2, 3, 5])
            self.sig = rng.choice([signal.SIGTERM, signal.SIGINT])
            sys.settrace(self.trace)
            try:
                runpy.run_path(os.path.join(WS, "job_manager.py"), run_name="__main__")
                code = 0
            finally:
                sys.settrace(None)
        except SystemExit as e:
            code = e.code or 0
        except BaseException as e:
            crash = repr(e)[:200]
        self.at = 0
        left = []
        for top, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith(".txt") and not f.endswith("_para.txt"):
                    left.append(self.content(os.path.join(top, f)))
        if crash:
            emit("crash", why=crash)
        else:
            emit("exit", code=code, left=left, unread=sum(p.returncode is None for p in self.procs))

    # ---- what the manager sees of the system
    def patch(self):
        P = self

        class Popen:
            def __init__(self, args, **kw):
                cmd = args if isinstance(args, str) else " ".join(args)
                self.n, self.returncode, self.ended, self.told, self.pid = len(P.procs), None, False, False, 100000 + len(P.procs)
                P.spawn(cmd, self)
                P.procs.append(self)

            def finish(self):
                if not self.ended:
                    self.ended = True
                    emit("ended", n=self.n)

            def poll(self):
                if self.ended:
                    self.returncode = 0
                return self.returncode

            def wait(self, *a, **kw):
                P.call()
                if self.returncode is None:
                    self.finish()
                    self.returncode = 0
                return self.returncode

            def communicate(self, *a, **kw):
                self.wait()
                return None, None

            def send_signal(self, s):
                P.call()
                if self.returncode is not None:
                    raise OSError(errno.ESRCH, "No such process")   # Python 2 does not look
                self.told = True
                emit("term", n=self.n)

            def terminate(self):
                self.send_signal(signal.SIGTERM)

            def kill(self):
                self.send_signal(signal.SIGKILL)

        subprocess.Popen = Popen
        subprocess.call = subprocess.check_call = lambda args, **kw: P.system(args if isinstance(args, str) else " ".join(args))
        os.system = self.system
        time.sleep = self.sleep

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith("job_manager.py"):
            return None
        if event == "line" and self.at:
            if signal.getsignal(signal.SIGTERM) not in (signal.SIG_DFL, signal.SIG_IGN, None):
                self.lines += 1
                if self.lines == self.at:
                    self.signal()
        return self.trace

    def signal(self):
        self.at = 0
        emit("signal", what=int(self.sig))
        signal.raise_signal(self.sig)

    def call(self):
        """While processes are stopped, it may be asked again."""
        if self.again and not self.at:
            self.calls += 1
            if self.calls == self.again:
                self.again = 0
                self.sig = self.rng.choice([signal.SIGTERM, signal.SIGINT])
                if signal.getsignal(self.sig) not in (signal.SIG_DFL, signal.SIG_IGN, signal.default_int_handler, None):
                    self.signal()

    def sleep(self, t=0):
        self.sleeps += 1
        emit("sleep")
        r = self.rng.random()
        for p in self.procs:
            if not p.ended and (self.sleeps > 60 or p.told or self.rng.random() < r * .6):
                p.finish()
        if self.sleeps > 400:
            emit("stuck")
            os._exit(0)

    def content(self, path):
        try:
            with open(path) as f:
                d = eval(f.read(), {})
            a, t, tn = asked(d["Para"])
            j = dict(d["Job"])
            own = {k: j.pop(k, None) for k in ("Type", "PID", "DoesLoad", "WeightFile", "MessageFile", "OutputFile")}
            seed = d["Para"].get("Markov", {}).get("Seed", -1)
            return dict(readable=True, file=self.rel(path), type=str(own["Type"]), pid=-1 if own["PID"] is None else int(own["PID"]), loads=str(own["DoesLoad"]),
                        weight=str(own["WeightFile"]), message=str(own["MessageFile"]), output=str(own["OutputFile"]),
                        job=canon(j), para=a, timer=t, timers=tn, seed=int(seed) if -2 ** 31 < seed < 2 ** 31 else -2)
        except Exception as e:
            return dict(readable=False, file=self.rel(path), why=repr(e)[:120])

    def start(self, n, exe, infile, cluster, where, logged=True, pbs=True):
        path = infile if os.path.exists(infile) and not os.path.isdir(infile) else infile + ".txt"
        emit("spawn", n=n, exe=self.rel(exe), cluster=cluster, c=self.content(path), home=os.path.realpath(where) == os.path.realpath(self.d), logged=logged, pbs=pbs)

    def spawn(self, cmd, proc):
        c = cmd.strip()
        if c.startswith("exec "):
            c = c[5:]
        exe, _, infile = c.partition(" -f ")
        self.start(proc.n, exe.strip(), infile.split(" ")[0].strip(), False, os.getcwd())

    def system(self, cmd):
        w = cmd.split()
        if w[:1] == ["mkdir"]:
            for x in w[1:]:
                if not x.startswith("-"):
                    os.makedirs(x, exist_ok=True)
        elif w[:1] == ["rm"]:
            for x in w[1:]:
                if os.path.realpath(x).startswith(self.d + "/") and os.path.isfile(x):
                    os.remove(x)
        elif w[:1] == ["qsub"]:
            # run it as the queue would
            self.nsystem += 1
            n = 1000 + self.nsystem
            if os.path.exists("ran"):
                os.remove("ran")
            subprocess.Popen = _popen
            try:
                _run(["sh", os.path.realpath(w[-1])], cwd="/", env={"PATH": os.environ["PATH"], "PBS_JOBID": str(n)}, stdin=subprocess.DEVNULL)
            finally:
                self.patch()
            with open(w[-1]) as f:
                text = f.read().split("\n")
            ran = open("ran").read().strip().split("\n") if os.path.exists("ran") else []
            log = open("id_job.log").read().split() if os.path.exists("id_job.log") else []
            pbs = [l.strip() for l in text if l.startswith("#PBS -l mem")]
            if len(ran) != 1:
                emit("queue", ran=len(ran))
                return 0
            exe, args, where = ran[0].split("|")
            exe = exe if exe.endswith("sim.exe") else "sh " + exe
            a = args.split()
            self.start(n, exe, a[a.index("-f") + 1] if "-f" in a[:-1] else "", True, where, log.count(str(n)) == 1, pbs[0] if pbs else "")
        else:
            emit("system", cmd=cmd[:80])
        return 0


def killing(rng, d):
    """killthemall.py"""
    os.makedirs(d)
    os.chdir(d)
    ids = rng.sample(range(1000, 9999), rng.randrange(0, 6))
    with open("id_job.log", "w") as f:
        f.write("".join("%d.host\n" % x for x in ids))
    args, want = [], ["%d.host" % x for x in ids]
    force = rng.random() < .5
    if force:
        args.append(rng.choice(["-f", "--force"]))
    if rng.random() < .4:
        a = rng.randrange(100)
        b = a + rng.randrange(5)
        args += [rng.choice(["-r", "--range"]), str(a), str(b)]
        want = [str(x) for x in range(a, b)]
    cmds = []

    def system(cmd):
        w = (cmd if isinstance(cmd, str) else " ".join(cmd)).split()
        cmds.append([" ".join(w[:-1]), w[-1]])
        return 0
    os.system = subprocess.call = subprocess.check_call = system
    sys.argv = ["killthemall.py"] + args
    try:
        runpy.run_path(os.path.join(WS, "killthemall.py"), run_name="__main__")
    except SystemExit:
        pass
    emit("kill", want=want, force=force, cmds=cmds)


def main():
    global FD
    FD = os.open(sys.argv[1], os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
    seed, rounds = int(sys.argv[2]), int(sys.argv[3])
    sys.path.insert(0, WS)
    for r in range(rounds):
        d = os.path.join(WS, "project%d" % r)
        pid = os.fork()
        if pid == 0:
            try:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(os.open(d + ".err", os.O_WRONLY | os.O_CREAT, 0o644), 2)
                rng = random.Random(seed * 1000003 + r)
                if r % 12 == 11:
                    killing(rng, d)
                else:
                    Project(rng, d).run()
            except BaseException as e:
                traceback.print_exc()
                emit("driver", why=repr(e)[:200])
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            emit("dead", rc=st)
        shutil.rmtree(d, ignore_errors=True)
    emit("end")


main()

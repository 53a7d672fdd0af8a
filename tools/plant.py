#!/usr/bin/env python3
"""plant.py SPEC.json...: create seeded/<id> from (file, old, new) edits and a demo.  Used while writing planted bugs."""
import sys, os, json, shutil, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(here, "tools", "seedkit")
def plant(id, prop, needs, breaks, edits, demo_sh, files):
    wt = "/tmp/plant.%s" % id
    subprocess.run(["rm", "-rf", wt]); subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    for f, old, new in edits:
        p = os.path.join(wt, f); s = open(p, errors="surrogateescape").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w", errors="surrogateescape").write(s.replace(old, new))
    d = os.path.join(here, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n in files:
        src, dst = (n, n) if isinstance(n, str) else n
        s = open(src if os.path.isabs(src) else os.path.join(KIT, src)).read()
        open(os.path.join(d, dst), "w").write(s)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    subprocess.run(["rm", "-rf", wt])
    print("planted", id)
KITF = ["common.sh", "shim.h", "engine.cpp", "sim.h", "mkconf.py"]

# runs demo.py on the repository's Python modules, their syntax brought up to date, in a scratch directory
import os, sys, runpy
HERE, T = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import py2
py2.install(T)
sys.path.remove(HERE)
for m in ("build", "core", "py2", "pyio"):
    sys.modules.pop(m, None)
os.chdir(T)
sys.argv[:] = ["main.py"]
sys.path[:0] = [os.path.join(T, "dyson"), T]
runpy.run_path(os.path.join(HERE, "demo.py"), run_name="demo")

import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant, KITF
from bugs2 import one, CONF, U
from bugs1 import ST, sh
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")
PY = [os.path.join(LIB, "py2.py"), os.path.join(LIB, "pyio.py"), ("build_py.py", "build.py"), ("core_py.py", "core.py"), "pyrun.py"]
PY = [(f, os.path.basename(f)) if isinstance(f, str) else f for f in PY]
PYSH = '''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
DEMO_REPO=$PWD PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 timeout 200 python3 -W ignore "$HERE/pyrun.py" "$HERE" "$T"
'''
MK = "src/module/markov/markov.cpp"; G3 = "src/module/markov/gamma3_updates.cpp"
def all():
    plant("C33_same_spins", "C33", "many returns from order 0",
          "a diagram of first order made from nothing always has parallel spins, so that those are sampled too often",
          [(MK, "    spin SpinG2 = RandomPickSpin();\n\n    vertex Ver1 = &Diag->Ver[0];", "    spin SpinG2 = SpinG1;\n\n    vertex Ver1 = &Diag->Ver[0];")],
          one("x", CONF % "3 1 1 0 spin flat=1 wsr=0.02 or0=1 or1=0.1"), KITF + [("demo_flat.cpp", "demo.cpp")])
    plant("C05_external_point", "C05", "an insertion is there while another one is proposed",
          "a proposal that is then dropped moves the external point of the insertion that is there",
          [(G3, "    if (Diag->Order == 0 || Worm->Exist || Diag->HasGammaGW != 0)\n        return;\n\n    gLine gAB = Diag->G.RandomPick(*RNG);", "    if (Diag->Order == 0 || Worm->Exist)\n        return;\n\n    gLine gAB = Diag->G.RandomPick(*RNG);"),
           (G3, "    Complex GGGammaGWeight = G->Weight(vA->R, vB->R, vA->Tau, vB->Tau, spinA, spinB, false, true, UExt);\n\n    Complex weightRatio = GGGammaGWeight / (gAB->Weight);", "    if (Diag->HasGammaGW != 0)\n        return;\n\n    Complex GGGammaGWeight = G->Weight(vA->R, vB->R, vA->Tau, vB->Tau, spinA, spinB, false, true, UExt);\n\n    Complex weightRatio = GGGammaGWeight / (gAB->Weight);")],
          sh(["3 3 1 1 spin wsr=0.01 ggr=1"], 100000, 2), ST)
    plant("C18_seed_zero", "C18", "a run whose seed is 0",
          "a stream that is given the seed 0 again is seeded at random",
          [("src/utility/rng.cpp", "void RandomFactory::Reset(int seed)\n{\n    _eng.seed(seed);", "void RandomFactory::Reset(int seed)\n{\n    if (seed == 0)\n        return Reset();\n    _eng.seed(seed);")],
          one("x"), U + ["sim.h", ("demo_seed.cpp", "demo.cpp")])
    plant("C29_hartree_sublattice", "C29", "two sublattices whose propagators differ",
          "the Hartree term on a sublattice is computed with its own propagator in place of the other sublattice's",
          [("dyson/calculator.py", "1.5*G.Data[sp2,sub2,sp2,sub2,0,-1]-0.5*G.Data[sp2,sub2,sp2,sub2,0,-2]", "1.5*G.Data[sp2,sub1,sp2,sub1,0,-1]-0.5*G.Data[sp2,sub1,sp2,sub1,0,-2]")],
          PYSH, PY + [("demo_hartree.py", "demo.py")])
    plant("C28_sides", "C28", "a lattice whose sides differ",
          "the transform to momentum space takes the sides of the lattice in the opposite order",
          [("dyson/weight.py", "        SpatialShape=shape[0:InsertPos]+self.L+shape[InsertPos+1:]", "        SpatialShape=shape[0:InsertPos]+self.L[::-1]+shape[InsertPos+1:]")],
          PYSH, PY + [("demo_space.py", "demo.py")])
    plant("C23_refused_order", "C23", "an order whose error is too large",
          "the order that was refused for its error is added to the estimate all the same",
          [("dyson/collect.py", "np.sum(self.OrderWeight[:NewOrderAccepted], axis=0)", "np.sum(self.OrderWeight[:max(NewOrderAccepted, order+1)], axis=0)")],
          PYSH, PY + [("demo_accept.py", "demo.py")])
    plant("C27_revert_sublattice", "C27", "a field that differs between sublattices, lowered and then taken back",
          "taking a field back changes every sublattice's by the first one's interval",
          [("dyson/model.py", "            self.__DeltaField[i] -= Anneal[\"Interval\"][i]\n", "            self.__DeltaField[i] -= Anneal[\"Interval\"][0]\n")],
          PYSH, PY + [("demo_field.py", "demo.py")])
    plant("C24_restart_bare", "C24", "a restart over published weights",
          "a restarted coordinator goes on from the bare propagator in place of the published one",
          [("dyson/main.py", "        SigmaDeltaT.FromDict(data[\"SigmaDeltaT\"])\n", "        SigmaDeltaT.FromDict(data[\"SigmaDeltaT\"])\n        G=G0.Copy()\n")],
          PYSH, PY + [("demo_restart.py", "demo.py")])
    plant("C24_stale_propagator", "C24", "a coordinator that works without workers",
          "the propagator published belongs to the self-energy of the version before",
          [("dyson/main.py", "                G = calc.G_Dyson(G0, SigmaDeltaT, Sigma, Map)\n                Polar.Merge(ratio, calc.Polar_FirstOrder(G, Map))", "                Polar.Merge(ratio, calc.Polar_FirstOrder(G, Map))")],
          PYSH, PY + [("demo_belongs.py", "demo.py")])
if __name__ == "__main__":
    all()

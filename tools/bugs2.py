import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant, KITF
def one(demo, pre="", args=""):
    return '''#!/bin/bash
. "$(dirname "$0")/common.sh"
build_demo
%stimeout 200 "$T/demo" %s
''' % (pre, args)
CONF = 'python3 "$HERE/mkconf.py" r %s && cd r && '
U = ["common.sh", "shim.h", "engine.cpp"]
def all():
    plant("C15_term_not_delayed", "C15", "a SIGTERM (not a SIGINT) arrives while termination is delayed",
          "SIGTERM ends the process in the middle of a section that asked for termination to be delayed",
          [("src/utility/abort.cpp", "    signal(SIGTERM, __DelayedSignalHandler);\n", "")],
          one("x"), U + [("demo_term.cpp", "demo.cpp")])
    plant("C21_boundary", "C21", "a timer asked exactly when its interval has passed",
          "a timer is not due at the moment its interval has passed, only after it",
          [("src/utility/timer.cpp", "    if (acc_sec < Interval)", "    if (acc_sec <= Interval)")],
          one("x"), U + [("demo_timer.cpp", "demo.cpp")])
    plant("C22_self_multiply", "C22", "a complex number multiplied in place by itself",
          "the square of a complex number computed in place has a wrong imaginary part",
          [("src/utility/complex.cpp", "    real cre = c.Re; // backup c.Re too, in case c *= c;\n    Re = Re * c.Re - Im * c.Im;\n    Im = re * c.Im + Im * cre;",
            "    Re = Re * c.Re - Im * c.Im;\n    Im = re * c.Im + Im * (this == &c ? Re : c.Re);")],
          one("x"), U + [("demo_square.cpp", "demo.cpp")])
    plant("C11_interval", "C11", "an estimator whose history has been compacted at least twice",
          "after its second compaction a history is no longer spaced evenly",
          [("src/estimator/estimator.cpp", "        _interval *= 2; //", "        _interval += 1; //")],
          one("x"), U + [("demo_history.cpp", "demo.cpp")])
    plant("C10_reload_leftover", "C10", "statistics of fewer orders loaded over a table that holds samples",
          "what was sampled at the orders the loaded statistics do not have stays in the table",
          [("src/module/weight/weight_estimator.cpp", "    _WeightAccu.Assign(0.0);\n    _WeightAccu.Assign(arr", "    _WeightAccu.Assign(arr")],
          one("x"), U + [("demo_leftover.cpp", "demo.cpp")])
    plant("C07_remove_name", "C07", "a component removed from the middle of a pool is later handed out again or recovered",
          "a component removed by its name keeps that name, so that two components of the pool share one",
          [("src/module/diagram/component_bundle.cpp", "    T *last = _component_name[_available_space];\n    T *target = _component_name[name];\n\n    //switch name\n    target->Name = _available_space;\n    last->Name = name;\n",
            "    T *last = _component_name[_available_space];\n    T *target = _component_name[name];\n\n    //switch name\n    last->Name = name;\n")],
          one("x"), U + [("demo_pool.cpp", "demo.cpp")])
    plant("C12_worm_dspin", "C12", "a checkpoint taken while a worm is there",
          "a worm read back from a checkpoint has lost its spin",
          [("src/module/diagram/diagram_IO.cpp", '    WormDict.Get("dSpin", worm.dSpin);\n', "")],
          one("x", CONF % "3 3 1 0 full wsr=8"), KITF + [("demo_reload.cpp", "demo.cpp")])
    plant("C14_same_message", "C14", "the same message read a second time",
          "a message that has been adopted is adopted again at every look, squeezing the statistics each time",
          [("src/environment/envMonteCarlo.cpp", "if (Para.Version >= Message_.Version)", "if (Para.Version > Message_.Version)")],
          one("x", CONF % "3 3 1 0 spin"), KITF + [("demo_again.cpp", "demo.cpp")])
    plant("C16_gammaw_ratio", "C16", "reweighting with three-point functions, when the self-energy and the polarization are not sampled equally often",
          "the factor of one three-point function is adjusted to the samples of the self-energy in place of the polarization's",
          [("src/module/markov/markov_monitor.cpp", "Para->GammaWReweight *= polarweight/ gammawweight;", "Para->GammaWReweight *= sigmaweight/ gammawweight;")],
          one("x", CONF % "3 3 1 1 spin"), KITF + [("demo_ratio.cpp", "demo.cpp")])
    plant("C09_gammaw_factor", "C09", "the two three-point functions have different reweighting factors",
          "samples of one three-point function are divided by the other's reweighting factor",
          [("src/module/markov/markov_monitor.cpp", "Diag->Phase * OrderWeight/Para->GammaWReweight);", "Diag->Phase * OrderWeight/Para->GammaGReweight);")],
          one("x", CONF % "3 3 1 1 spin wsr=0.01 ggr=0.125 gwr=2"), KITF + [("demo_gammaw.cpp", "demo.cpp")])
    plant("C20_delta_tau", "C20", "an instantaneous line whose ends have drifted apart while a worm is there",
          "the self-check accepts an instantaneous line whose ends are at two times when a worm is there",
          [("src/module/diagram/diagram_check.cpp", "        if (W(i)->IsDelta) {\n            if (W(i)->NeighVer(IN)->Tau", "        if (W(i)->IsDelta) {\n            if (!Worm.Exist && W(i)->NeighVer(IN)->Tau")],
          one("x", CONF % "3 3 1 0 spin wsr=4"), KITF + [("demo_selfcheck.cpp", "demo.cpp")])
    plant("C13_two_steps", "C13", "the process dies between two writes of one save",
          "the parameter file is first written without the diagram, so that a death right after leaves a checkpoint that cannot be read",
          [("src/environment/envMonteCarlo.cpp", "        para_[ParaKey] = Para.ToDict();\n        para_[ConfigKey] = Diag.ToDict();\n",
            "        para_[ParaKey] = Para.ToDict();\n        para_.Save(Job.ParaFile, \"w\");\n        para_[ConfigKey] = Diag.ToDict();\n")],
          one("x", CONF % "3 3 1 0 spin"), KITF + [("demo_die.cpp", "demo.cpp")])
    plant("C32_message_starved", "C32", "the checkpoint and the look for a message are due at the same look at the clock",
          "a message is not looked for when the checkpoint is due too, so that with equal intervals it never is",
          [("src/main.cpp", "            if (MessageTimer.check(Para.MessageTimer))", "            else if (MessageTimer.check(Para.MessageTimer))")],
          one("x", CONF % "3 3 1 0 spin"), KITF + [("demo_main.cpp", "demo.cpp")])
    plant("C17_sublattice", "C17", "more than one sublattice and an interaction line between different ones",
          "instantaneous interactions between different sublattices are looked up with the sublattices exchanged",
          [("src/module/weight/index_map.cpp", SUBO, SUBN)],
          one("x"), U + [("demo_index.cpp", "demo.cpp")])
SUBO = "    uint Index = SpinIndex(SpinIn) * _CacheDeltaT[SP1] + rin.Sublattice * _CacheDeltaT[SUB1]\n                 + SpinIndex(SpinOut) * _CacheDeltaT[SP2] + rout.Sublattice * _CacheDeltaT[SUB2]\n"
SUBN = "    uint Index = SpinIndex(SpinIn) * _CacheDeltaT[SP1] + rin.Sublattice * _CacheDeltaT[SUB2]\n                 + SpinIndex(SpinOut) * _CacheDeltaT[SP2] + rout.Sublattice * _CacheDeltaT[SUB1]\n"
if __name__ == "__main__":
    all()

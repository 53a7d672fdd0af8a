import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant, KITF
MK = "src/module/markov/markov.cpp"; G3 = "src/module/markov/gamma3_updates.cpp"
def sh(conf, n, want):
    return '''#!/bin/bash
. "$(dirname "$0")/common.sh"
build_demo
%s
''' % "\n".join('python3 "$HERE/mkconf.py" r%d %s && ( cd r%d && timeout 100 "$T/demo" %d %d ) || exit 1' % (i, c, i, n, want) for i, c in enumerate(conf))
ST = KITF + [("demo_struct.cpp", "demo.cpp")]
if __name__ == "__main__":
    plant("C04_rloop_twice", "C04", "a fermion loop that holds both ends of one interaction line, moved to another site",
          "the weight of such a line enters the weight ratio twice, so the diagram's weight, phase and acceptance are wrong",
          [(MK, "            flagW[w->Name] = 0;\n", "")], sh(["3 3 1 0 spin", "4 4 2 0 spin"], 40000, 2), ST)
    plant("C02_deleteworm_hash", "C02", "a worm is deleted; the stale momentum is then never handed out again",
          "the occupancy table of interaction momenta keeps the momentum the line had before the worm was deleted",
          [(MK, "        w->IsWorm = false;\n        Diag->ReplaceWHash(w->K, k);\n        w->K = k;\n", "        w->IsWorm = false;\n        w->K = k;\n        Diag->ReplaceWHash(w->K, k);\n")],
          sh(["3 3 1 0 spin"], 20000, 1), ST)
    plant("C08_measure_with_insertion", "C08", "an insertion is present while the measuring line is an interaction and the step that moves it is proposed",
          "the measuring line moves from an interaction line to a propagator while a three-point insertion exists",
          [(MK, '''    if (Diag->Order == 0 || Worm->Exist || Diag->MeasureGLine)
        return;
    if (Diag->HasGammaGW != 0)
        return;
''', '''    if (Diag->Order == 0 || Worm->Exist || Diag->MeasureGLine)
        return;
    if (Diag->HasGammaGW == 1)
        return;
''')], '''#!/bin/bash
. "$(dirname "$0")/common.sh"
build_demo
python3 "$HERE/mkconf.py" r 3 3 1 1 spin wsr=0.01 ggr=0.2 && cd r && timeout 200 "$T/demo"
''', KITF + [("demo_ins.cpp", "demo.cpp")])
    plant("C03_delete_measuring", "C03", "the worm ends sit on either side of a pair whose second propagator is the measuring line, joined by an instantaneous line",
          "deleting the instantaneous interaction can remove the propagator that is the measuring line",
          [(MK, '''    if (GMB->IsMeasure || GMB->IsGGGammaG)
        return;

    vertex vA = GIA->NeighVer(dir), vB = GMB->NeighVer(dir);
    if (vA->Spin(IN) != vA->Spin(OUT))
        return;
    if (vB->Spin(IN) != vB->Spin(OUT))
        return;

    if (vA->NeighW() != vB->NeighW())
        return;

    wLine wAB = vA->NeighW();
    if (wAB->IsMeasure || wAB->IsWorm || !wAB->IsDelta''', '''    if (GIA->IsMeasure || GMB->IsGGGammaG)
        return;

    vertex vA = GIA->NeighVer(dir), vB = GMB->NeighVer(dir);
    if (vA->Spin(IN) != vA->Spin(OUT))
        return;
    if (vB->Spin(IN) != vB->Spin(OUT))
        return;

    if (vA->NeighW() != vB->NeighW())
        return;

    wLine wAB = vA->NeighW();
    if (wAB->IsMeasure || wAB->IsWorm || !wAB->IsDelta''')], sh(["3 3 1 0 full wsr=8", "4 4 1 0 full wsr=8"], 150000, 1), ST)
    plant("C06_wwgammaw_reweight", "C06", "an insertion on an interaction line is removed while the measuring line is an interaction line and the two reweighting factors differ",
          "the removal of an insertion is accepted with the other observable's reweighting factor, so insertion and removal are not reciprocal",
          [(G3, '''            / (ProbofCall[JUMP_FROM_WWGAMMAW_TO_W] * Diag->Order);

    if(Diag->MeasureGLine)
        prob /= (*GammaGReweight);
    else
        prob /= (*GammaWReweight);''', '''            / (ProbofCall[JUMP_FROM_WWGAMMAW_TO_W] * Diag->Order);

    prob /= Diag->HasGammaGW == 1 ? (*GammaGReweight) : (*GammaWReweight);''')], '''#!/bin/bash
. "$(dirname "$0")/common.sh"
build_demo
python3 "$HERE/mkconf.py" r 3 3 1 1 spin wsr=0.01 ggr=0.125 gwr=2 && cd r && timeout 200 "$T/demo"
''', KITF + [("demo_recip.cpp", "demo.cpp")])

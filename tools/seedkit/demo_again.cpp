#include "sim.h"
#include <fstream>
int main()
{
    EnvMonteCarlo* e = boot();
    hush();
    for (int n = 0; n < 3000; n++) {
        e->Markov.Hop(3);
        e->MarkovMonitor.Measure();
    }
    for (int v : { 3, 3, 2, 5, 5, 5, 1 }) {
        ofstream("Message.txt") << "{'Beta': 1.0, 'Version': " << v << ", 'SqueezeFactor': 2.0}";
        int had = e->Para.Version;
        double n0 = e->MarkovMonitor.PhyEstimator[0].Norm();
        bool r = e->ListenToMessage();
        double n1 = e->MarkovMonitor.PhyEstimator[0].Norm();
        if (r != (v > had))
            FAIL("version %d on top of %d: %d", v, had, r);
        if (n1 != (v > had ? n0 / 2 : n0))
            FAIL("version %d on top of %d squeezes %g to %g", v, had, n0, n1);
        if (e->Para.Version != (v > had ? v : had))
            FAIL("version");
    }
    _exit(0);
}

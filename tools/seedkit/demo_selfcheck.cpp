#include "sim.h"
int main()
{
    EnvMonteCarlo* e = boot();
    hush();
    auto& d = e->Diag;
    int seen[2] = { 0, 0 };
    for (int n = 0; n < 400000 && (seen[0] < 20 || seen[1] < 20); n++) {
        e->Markov.Hop(3);
        if (d.Order == 0)
            continue;
        for (int i = 0; i < d.W.HowMany(); i++) {
            wLine w = d.W(i);
            if (!w->IsDelta)
                continue;
            if (!d.CheckDiagram())
                FAIL("a sound diagram is rejected");
            vertex v = w->nVer[IN];
            real tau = v->Tau;
            // within the same bin of time: nothing else can tell
            v->Tau = tau * (1 - 1e-12) + 1e-13;
            bool ok;
            try {
                ok = d.CheckDiagram();
            }
            catch (...) {
                ok = false;
            }
            if (v->Tau != tau && ok)
                FAIL("an instantaneous line between two times is accepted %s", d.Worm.Exist ? "with a worm" : "without a worm");
            v->Tau = tau;
            seen[d.Worm.Exist]++;
        }
    }
    if (!seen[0] || !seen[1])
        FAIL("no instantaneous lines");
    _exit(0);
}

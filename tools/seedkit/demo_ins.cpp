// while an insertion is present the measuring line stays where it is
#include "sim.h"
int main()
{
    hush();
    EnvMonteCarlo& e = *boot();
    Diagram& d = e.Diag;
    for (int i = 0; i < 400000; i++) {
        int ins = d.HasGammaGW;
        bool mg = d.MeasureGLine;
        e.Markov.Hop(1);
        if (ins && d.HasGammaGW && d.MeasureGLine != mg)
            FAIL("the measuring line moved while an insertion was present");
        if (d.HasGammaGW && d.Order == 0)
            FAIL("order zero with an insertion");
    }
    _exit(0);
}

// hops, and looks at the diagram after every one
#include "sim.h"
int main(int argc, char** argv)
{
    hush();
    EnvMonteCarlo& e = *boot();
    int n = atoi(argv[1]), want = atoi(argv[2]);
    for (int i = 0; i < n; i++) {
        e.Markov.Hop(1);
        if (e.Diag.Order > e.Para.Order || e.Diag.Order < 0)
            FAIL("order %d", e.Diag.Order);
        if (want & 1)
            structure(e.Diag);
        if ((want & 2) && i % 20 == 0)
            weights(e);
    }
    _exit(0);
}

// equal weights: at first order, diagrams with parallel and with opposite spins are seen equally often
#include "sim.h"
int main()
{
    hush();
    EnvMonteCarlo& e = *boot();
    double same = 0, other = 0;
    for (int i = 0; i < 3000000; i++) {
        e.Markov.Hop(5);
        Diagram& d = e.Diag;
        if (d.Order == 1 && !d.Worm.Exist)
            (d.Ver(0)->Spin(OUT) == d.Ver(1)->Spin(OUT) ? same : other) += 1;
    }
    fprintf(stderr, "%g %g\n", same, other);
    if (same + other < 10000)
        FAIL("hardly any diagram of first order");
    if (fabs(same / other - 1) > 0.15)
        FAIL("%g against %g", same, other);
    _exit(0);
}

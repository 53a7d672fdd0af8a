#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(0); _exit(1); } while (0)
#include "module/weight/index_map.h"
#include "lattice/lattice.h"
#include <set>
using namespace weight;
int main()
{
    Vec<int> L;
    L[0] = 2, L[1] = 3;
    int nsub = 3;
    Lattice lat(L, nsub);
    IndexMapSPIN4 m(1.0, 8, lat, TauSymmetric);
    for (int s = 0; s < 16; s++)
        for (int a = 0; a < nsub; a++)
            for (int b = 0; b < nsub; b++)
                for (int x = 0; x < 2; x++)
                    for (int y = 0; y < 3; y++) {
                        spin p[2] = { spin(s & 1), spin(s >> 1 & 1) }, q[2] = { spin(s >> 2 & 1), spin(s >> 3 & 1) };
                        Vec<int> o, r;
                        o[0] = o[1] = 0;
                        r[0] = x, r[1] = y;
                        Site in(a, o), out(b, r);
                        // instantaneous and smooth tables are laid out alike
                        uint d = m.GetIndex(p, q, in, out), t = m.GetIndex(p, q, in, out, 0.0, 0.01);
                        if (t != d * 8)
                            FAIL("sublattices %d and %d: %d and %d", a, b, d, t);
                    }
    return 0;
}

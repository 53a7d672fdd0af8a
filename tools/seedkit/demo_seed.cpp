#include "sim.h"
#include "utility/rng.h"
int main()
{
    for (int seed = -3; seed <= 3; seed++) {
        RandomFactory a, b(seed);
        a.Reset(seed);
        for (int i = 0; i < 100; i++)
            if (a.urn() != b.urn())
                FAIL("seed %d gives two streams", seed);
    }
    _exit(0);
}

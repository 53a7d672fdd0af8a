#include "sim.h"
#include <string.h>
int main()
{
    EnvMonteCarlo* e = boot();
    hush();
    int seen = 0;
    for (int n = 0; n < 4000 && seen < 12; n++) {
        e->Markov.Hop(7);
        if (!e->Diag.Worm.Exist || n % 5)
            continue;
        seen++;
        e->Save();
        EnvMonteCarlo* f = new EnvMonteCarlo(para::Job(string("infile")));
        memset(&f->Diag.Worm.dSpin, 0x5a, sizeof f->Diag.Worm.dSpin);
        f->Load();
        auto &a = e->Diag.Worm, &b = f->Diag.Worm;
        if (!b.Exist || a.dSpin != b.dSpin || a.K.K != b.K.K || a.Ira->Name != b.Ira->Name || a.Masha->Name != b.Masha->Name)
            FAIL("worm read back: spin %d, it was %d", (int)b.dSpin, (int)a.dSpin);
        if (!near(e->Diag.Weight, f->Diag.Weight))
            FAIL("weight read back");
        structure(f->Diag);
        weights(*f);
        delete f;
    }
    if (!seen)
        FAIL("no worm");
    _exit(0);
}

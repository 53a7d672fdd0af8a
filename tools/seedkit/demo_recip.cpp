// acceptance of inserting and of removing an insertion on an interaction line are reciprocal
#include "sim.h"
#include <sys/wait.h>
static EnvMonteCarlo* E;
template <class F>
static bool accepted(F f, vector<uint32_t> draws, uint32_t last, int before)
{
    draws.push_back(last);
    pid_t p = fork();
    if (p == 0) {
        verif::scripted = draws;
        verif::scriptpos = 0;
        verif::logging = true;
        f();
        _exit(E->Diag.HasGammaGW != before ? 1 : 0);
    }
    int st;
    waitpid(p, &st, 0);
    return WEXITSTATUS(st) == 1;
}
// probability of acceptance, by bisection over the last draw
template <class F>
static double prob(F f, const vector<uint32_t>& draws)
{
    int before = E->Diag.HasGammaGW;
    long long lo = -2147483648LL, hi = 2147483647LL;
    while (hi - lo > 4096) {
        long long mid = (lo + hi) / 2;
        if (accepted(f, draws, (uint32_t)(int32_t)mid, before))
            lo = mid;
        else
            hi = mid;
    }
    return (lo + 2147483648.0) / 4294967296.0;
}
int main()
{
    hush();
    E = boot();
    Diagram& d = E->Diag;
    int seen = 0;
    for (int i = 0; i < 2000000 && seen < 12; i++) {
        E->Markov.Hop(1);
        if (d.HasGammaGW || d.Worm.Exist || d.Order == 0 || i % 10)
            continue;
        bool mg = d.MeasureGLine;
        if (mg && seen % 2 == 0)
            continue;
        // insert by hand: every draw but the acceptance is prescribed
        verif::drawn.clear();
        verif::scripted.clear();
        verif::scriptpos = 0;
        E->Para.RNG.Reset(i + 1);
        pid_t p;
        int fd[2];
        pipe(fd);
        if ((p = fork()) == 0) {
            verif::logging = true;
            E->Markov.JumpToWWGammaW();
            vector<uint32_t> v = verif::drawn;
            uint32_t n = v.size();
            write(fd[1], &n, 4);
            write(fd[1], v.data(), 4 * n);
            _exit(0);
        }
        close(fd[1]);
        uint32_t n = 0;
        read(fd[0], &n, 4);
        vector<uint32_t> v(n);
        read(fd[0], v.data(), 4 * n);
        close(fd[0]);
        int st;
        waitpid(p, &st, 0);
        if (n < 4)
            continue; // the pick was a measuring or instantaneous line
        // with and without an acceptance draw
        vector<uint32_t> w = v;
        w.push_back(0x80000001u);
        bool drew = true;
        auto ins = [&] { E->Markov.JumpToWWGammaW(); };
        auto rem = [&] { E->Markov.JumpFromWWGammaWToW(); };
        vector<uint32_t> base(v.begin(), v.end() - 1);
        double pi = prob(ins, base);
        if (pi < 1e-4)
            continue;
        if (pi > 0.999) {
            // certain: the list may or may not end with an acceptance draw; accept as it is
            if (accepted(ins, v, 0x80000001u, 0) == false)
                continue;
        }
        // take it
        verif::scripted = pi > 0.999 ? v : base;
        verif::scripted.push_back(0x80000001u);
        verif::scriptpos = 0;
        verif::logging = true;
        E->Markov.JumpToWWGammaW();
        verif::logging = false;
        if (d.HasGammaGW != 2)
            continue;
        double pr = prob(rem, vector<uint32_t>());
        real ratio = pi < 0.999 ? pi : 1 / pr;
        // min(1,R) and min(1,1/R): one of them is one, and never both far below
        if (pi < 0.99 && pr < 0.99)
            FAIL("insertion %g and removal %g are both uncertain", pi, pr);
        // the weights decide which
        wLine l = (*d.Vin)->nW;
        real target = mod(l->Weight);
        vertex a = l->nVer[IN], b = l->nVer[OUT];
        real plain = mod(E->Weight.W->Weight(a->R, b->R, a->Tau, b->Tau, a->Spin(), b->Spin(), false, false, false, false, &d.UExt));
        real R = target / plain * d.Order * E->Para.Beta * E->Para.Lat.Vol * E->Para.Lat.SublatVol
                 * (mg ? E->Para.GammaGReweight : E->Para.GammaWReweight);
        if (fabs(pi - min(1.0, R)) > 1e-3 || fabs(pr - min(1.0, 1 / R)) > 1e-3)
            FAIL("ratio %g, insertion %g, removal %g", R, pi, pr);
        seen++;
        (void)ratio;
        (void)drew;
        // and go on without it
        for (int j = 0; j < 100000 && d.HasGammaGW; j++)
            E->Markov.JumpFromWWGammaWToW();
    }
    if (seen < 6)
        FAIL("only %d cases", seen);
    _exit(0);
}

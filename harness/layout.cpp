// What a worker reads where in a weight file, and what it leaves where in its
// statistics: layout OUT SEED READS MEASURES, in a directory with infile.txt,
// the weight file it names and what IO.py needs.
#include "util.h"
#include "environment/environment.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "utility/pyglue/pywrapper.h"
#include "utility/pyglue/pyarraywrapper.h"
using namespace std;
using namespace weight;
static ofstream Out;
static Rng R;
static const double U = 1 << 20; // weights are in units of 1/U

static string site(const Site& s)
{
    string o = "[" + to_string(s.Sublattice);
    for (int i = 0; i < D; i++)
        o += "," + to_string(s.Coordinate[i]);
    return o + "]";
}
static string cplx(const Complex& c, double s) { return "[" + to_string(fix(c.Re, s)) + "," + to_string(fix(c.Im, s)) + "]"; }
static string two(const spin* s) { return "[" + to_string((int)s[IN]) + "," + to_string((int)s[OUT]) + "]"; }
static spin sp() { return R.below(2) ? UP : DOWN; }
static Vec<int> L;
static int nsub;
static Site rsite()
{
    Vec<int> v;
    for (int i = 0; i < D; i++)
        v[i] = R.below(L[i]);
    return Site(R.below(nsub), v);
}
// times in quarters of a bin, whose differences are well inside of bins
static void times(int n, int* t, int nt, int ref)
{
    for (int i = 0; i < n; i++)
        do
            t[i] = R.below(4 * nt);
        while (i != ref && (t[i] - t[ref]) % 4 == 0);
}
int main(int argc, char** argv)
{
    if (argc < 5)
        return 3;
    Out.open(argv[1]);
    R.s = strtoull(argv[2], 0, 10) * 104729 + 3;
    int reads = atoi(argv[3]), measures = atoi(argv[4]);
    quiet();
    Python::Initialize();
    Python::ArrayInitialize();
    EnvMonteCarlo* Env = 0;
    try {
        Env = new EnvMonteCarlo(para::Job("infile.txt"));
        if (!Env->BuildNew())
            throw std::runtime_error("nothing built");
    }
    catch (std::exception& e) {
        Ev x("fail");
        Out << x.s("what", e.what()).str();
        return 0;
    }
    auto& P = Env->Para;
    auto& W = Env->Weight;
    for (int i = 0; i < D; i++)
        L[i] = P.Lat.Size[i];
    nsub = P.Lat.SublatVol;
    double beta = P.Beta;
    int nt = P.MaxTauBin, ntt = P.MaxTauBinTiny;
    bool g3 = P.runGamma3;
    auto tm = [&](int n, int q) { return beta / (4.0 * n) * q; };
    // spins of the two ends of an interaction that conserve spin between them
    auto six = [&](spin* in, spin* out) {
        int k = R.below(6);
        out[IN] = k == 0 || k == 2 || k == 4 ? UP : DOWN;
        out[OUT] = k == 0 || k == 2 || k == 5 ? UP : DOWN;
        in[IN] = k == 0 || k == 3 || k == 5 ? UP : DOWN;
        in[OUT] = k == 0 || k == 3 || k == 4 ? UP : DOWN;
    };
    for (int step = 0; step < reads + measures; step++) {
        bool reading = step < reads;
        Ev e(reading ? "read" : "measure");
        int what = reading ? R.below(g3 ? 5 : 3) : R.below(g3 ? 4 : 2);
        Site a = rsite(), b = rsite(), u = rsite();
        int t[3];
        Complex w(16 * R.range(-20, 20), 16 * R.range(-20, 20)), v;
        int dir = R.below(3), ord = R.range(1, P.Order);
        if (what == 0) {
            times(2, t, nt, 0);
            spin x = sp(), y = sp();
            e.s("what", reading ? "G" : "Sigma").raw("a", site(a)).raw("b", site(b)).i("sa", x).i("sb", y).i("d", t[1] - t[0]);
            if (!reading)
                W.Sigma->Measure(a, b, tm(nt, t[0]), tm(nt, t[1]), x, y, ord, w);
            else if (dir == 0)
                v = W.G->Weight(a, b, tm(nt, t[0]), tm(nt, t[1]), x, y, false, false);
            else if (dir == 1)
                v = W.G->Weight(IN, a, b, tm(nt, t[0]), tm(nt, t[1]), x, y, false, false);
            else
                v = W.G->Weight(OUT, b, a, tm(nt, t[1]), tm(nt, t[0]), y, x, false, false);
        }
        else if (what == 1 || (reading && what == 2)) {
            times(2, t, nt, 0);
            bool delta = what == 2;
            spin x[2] = { sp(), sp() }, y[2] = { sp(), sp() };
            e.s("what", !reading ? "Polar" : delta ? "WDelta" : "W").raw("a", site(a)).raw("b", site(b)).raw("inn", two(x)).raw("out", two(y)).i("d", t[1] - t[0]);
            if (!reading)
                W.Polar->Measure(a, b, tm(nt, t[0]), tm(nt, t[1]), x, y, ord, w);
            else if (dir == 0)
                v = W.W->Weight(a, b, tm(nt, t[0]), tm(nt, t[1]), x, y, false, false, delta, false);
            else if (dir == 1)
                v = W.W->Weight(IN, a, b, tm(nt, t[0]), tm(nt, t[1]), x, y, false, false, delta, false);
            else
                v = W.W->Weight(OUT, b, a, tm(nt, t[1]), tm(nt, t[0]), y, x, false, false, delta, false);
        }
        else if (what == (reading ? 3 : 2)) {
            times(3, t, nt, 0);
            spin x = sp();
            e.s("what", "GammaG").raw("a", site(a)).raw("u", site(u)).i("sa", x).i("d1", t[2] - t[0]).i("d2", t[1] - t[0]);
            if (!reading)
                W.GammaG->Measure(a, b, u, tm(nt, t[1]), tm(nt, t[2]), tm(nt, t[0]), x, x, sp(), w);
            else
                v = W.GammaG->Weight(a, b, u, tm(nt, t[1]), tm(nt, t[2]), tm(nt, t[0]), x, x, sp());
        }
        else {
            times(3, t, ntt, 0);
            spin x[2], y[2];
            six(x, y);
            e.s("what", "GammaW").raw("a", site(a)).raw("b", site(b)).raw("u", site(u)).raw("inn", two(x)).raw("out", two(y)).i("d1", t[2] - t[0]).i("d2", t[1] - t[0]);
            if (!reading)
                W.GammaW->Measure(a, b, u, tm(ntt, t[1]), tm(ntt, t[2]), tm(ntt, t[0]), x, y, sp(), w);
            else
                v = W.GammaW->Weight(a, b, u, tm(ntt, t[1]), tm(ntt, t[2]), tm(ntt, t[0]), x, y, sp());
        }
        if (reading)
            Out << e.raw("v", cplx(v, U)).str();
        else
            Out << e.i("ord", ord).raw("w", cplx(w, 1)).str();
    }
    W.Sigma->Estimator.MeasureNorm(3.0);
    W.Polar->Estimator.MeasureNorm(5.0);
    if (g3) {
        W.GammaG->MeasureNorm(7.0);
        W.GammaW->MeasureNorm(2.5);
    }
    try {
        Env->Save();
    }
    catch (std::exception& e) {
        Ev x("fail");
        Out << x.s("what", e.what()).str();
        return 0;
    }
    Ev x("saved");
    Out << x.str();
    return 0;
}

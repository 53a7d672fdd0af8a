#include "sim.h"
#include "module/weight/gamma3.h"
#include "utility/pyglue/pyarraywrapper.h"
static Complex total(Dictionary d)
{
    auto a = d.Get<Python::ArrayObject>("WeightAccu");
    Complex* x = a.Data<Complex>();
    Complex s(0.0, 0.0);
    for (uint i = 0; i < a.Size(); i++)
        s += x[i];
    return s;
}
int main()
{
    EnvMonteCarlo* e = boot();
    hush();
    auto& d = e->Diag;
    int seen = 0;
    for (int n = 0; n < 600000 && seen < 60; n++) {
        e->Markov.Hop(1);
        if (d.HasGammaGW == 0 || d.Worm.Exist || d.Order == 0)
            continue;
        seen += !d.MeasureGLine;
        Complex g0 = total(e->Weight.GammaG->StatisToDict()), w0 = total(e->Weight.GammaW->StatisToDict());
        e->MarkovMonitor.Measure();
        double dg = mod(total(e->Weight.GammaG->StatisToDict()) - g0), dw = mod(total(e->Weight.GammaW->StatisToDict()) - w0);
        double o = 1.0 / e->Para.OrderReWeight[d.Order], wg = d.MeasureGLine ? o / e->Para.GammaGReweight : 0, ww = d.MeasureGLine ? 0 : o / e->Para.GammaWReweight;
        // a sample may be kept in several places; what matters is that it does not scale with the other factor
        if ((dg > 1e-9) != (wg > 0) || (dw > 1e-9) != (ww > 0))
            FAIL("sample of the wrong kind");
        double r = d.MeasureGLine ? dg / wg : dw / ww;
        // an insertion may be told apart from its mirror image at a weight of one half
        if (fabs(r - 1) > 1e-6 && fabs(r - 0.5) > 1e-6)
            FAIL("a sample of weight %g in place of %g", d.MeasureGLine ? dg : dw, d.MeasureGLine ? wg : ww);
    }
    if (!seen)
        FAIL("no samples");
    _exit(0);
}

#include "sim.h"
int main()
{
    EnvMonteCarlo* e = boot();
    hush();
    auto& M = e->MarkovMonitor;
    auto& P = e->Para;
    auto fill = [](Estimator<real>& x, int n, double v) { for (int i = 0; i < n; i++) x.Measure(v); };
    for (int i = 0; i <= P.Order; i++)
        fill(M.PhyEstimator[i], 2000, 1.0), fill(M.WormEstimator[i], 2000, 1.0);
    fill(M.SigmaEstimator, 4000, 1.0), fill(M.PolarEstimator, 1000, 1.0), fill(M.GammaGEstimator, 2000, 1.0), fill(M.GammaWEstimator, 1000, 0.5);
    double p = P.PolarReweight, g = P.GammaGReweight, w = P.GammaWReweight;
    e->AdjustOrderReWeight();
    auto is = [](double a, double b) { return fabs(a - b) < 1e-9 * b; };
    if (!is(P.PolarReweight, p * 4))
        FAIL("factor of the polarization");
    if (!is(P.GammaGReweight, g * 2))
        FAIL("factor of the first three-point function");
    if (!is(P.GammaWReweight, w * 2))
        FAIL("factor of the second three-point function: %g in place of %g", P.GammaWReweight, w * 2);
    _exit(0);
}

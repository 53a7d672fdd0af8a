// What a worker is: everything its checkpoint should hold.
#ifndef VERIF_WORKEROBS_H
#define VERIF_WORKEROBS_H
#include "mcstate.h"
#include "util.h"
#include "module/weight/gamma3.h"
#include "utility/pyglue/pyarraywrapper.h"
using namespace std;
static EnvMonteCarlo* Env;
static const double U = 4096;
static double beta(int lb) { return ldexp(1.0, lb); }
static int lg(double x)
{
    int e;
    if (!(x > 0) || frexp(x, &e) != 0.5)
        return 9999;
    return e - 1;
}
static string hex(uint64_t h)
{
    char b[20];
    sprintf(b, "%016llx", (unsigned long long)h);
    return b;
}
static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 1099511628211ULL;
    return h;
}
static vector<Complex> arr(Python::ArrayObject a)
{
    Complex* x = a.Data<Complex>();
    return vector<Complex>(x, x + a.Size());
}
static uint64_t hasharr(const vector<Complex>& v, uint64_t h)
{
    for (auto& z : v) {
        double d[2] = { z.Re + 0.0, z.Im + 0.0 };
        h = fnv(d, sizeof d, h);
    }
    return h;
}
static string weights()
{
    uint64_t h = 7;
    auto& W = Env->Weight;
    h = hasharr(arr(W.G->ToDict().Get<Python::ArrayObject>("SmoothT")), h);
    Dictionary w = W.W->ToDict();
    h = hasharr(arr(w.Get<Python::ArrayObject>("SmoothT")), h);
    h = hasharr(arr(w.Get<Python::ArrayObject>("DeltaT")), h);
    if (Env->Para.runGamma3) {
        h = hasharr(arr(W.GammaG->WeightToDict().Get<Python::ArrayObject>("SmoothT")), h);
        h = hasharr(arr(W.GammaW->WeightToDict().Get<Python::ArrayObject>("SmoothT")), h);
    }
    return hex(h);
}
struct Tab {
    double n, c;
    vector<Complex> v;
};
static Tab tab(int which)
{
    auto& W = Env->Weight;
    Dictionary d;
    if (which == 0)
        d = W.Sigma->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT");
    else if (which == 1)
        d = W.Polar->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT");
    else if (which == 2)
        d = W.GammaG->StatisToDict();
    else
        d = W.GammaW->StatisToDict();
    Tab t;
    t.n = d.Get<real>("NormAccu");
    t.c = d.Get<real>("Norm");
    t.v = arr(d.Get<Python::ArrayObject>("WeightAccu"));
    return t;
}
static const char* TabName[4] = { "sigma", "polar", "gammag", "gammaw" };
static string tabs()
{
    string o = "{";
    for (int k = 0; k < (Env->Para.runGamma3 ? 4 : 2); k++) {
        Tab t = tab(k);
        o += string(k ? ",\"" : "\"") + TabName[k] + "\":{\"a\":[";
        bool f = true;
        for (size_t i = 0; i < t.v.size(); i++)
            if (t.v[i].Re != 0 || t.v[i].Im != 0) {
                o += (f ? "[" : ",[") + to_string(i) + "," + to_string(fix(t.v[i].Re, U)) + "," + to_string(fix(t.v[i].Im, U)) + "]";
                f = false;
            }
        o += "],\"n\":" + to_string(fix(t.n, U)) + ",\"norm\":" + to_string(fix(t.c * pow(Env->Para.Beta, k < 2 ? 2 : 3) * Env->Para.Lat.Vol, 16)) + "}";
    }
    return o + "}";
}
static string cnt(Estimator<real>& e) { return "[" + to_string(fix(e.Value(), U)) + "," + to_string(fix(e.Norm(), U)) + "]"; }
static string counters()
{
    auto& M = Env->MarkovMonitor;
    string o = "{\"worm\":[";
    for (int i = 0; i < M.WormEstimator.HowMany(); i++)
        o += (i ? "," : "") + cnt(M.WormEstimator[i]);
    o += "],\"phy\":[";
    for (int i = 0; i < M.PhyEstimator.HowMany(); i++)
        o += (i ? "," : "") + cnt(M.PhyEstimator[i]);
    o += "],\"sec\":[" + cnt(M.SigmaEstimator) + "," + cnt(M.PolarEstimator) + "," + cnt(M.GammaGEstimator) + "," + cnt(M.GammaWEstimator) + "]}";
    return o;
}
// everything a worker is, in two parts: what the parameter file and what the
// statistics file should hold
static string obs()
{
    auto& P = Env->Para;
    ostringstream o;
    string rng = ToString(P.RNG);
    o << "{\"p\":{\"ver\":" << P.Version << ",\"lb\":" << lg(P.Beta) << ",\"cnt\":" << P.Counter << ",\"rng\":\"" << hex(fnv(rng.data(), rng.size())) << "\",\"orw\":[";
    for (int i = 0; i <= P.Order; i++)
        o << (i ? "," : "") << lg(P.OrderReWeight[i]);
    o << "],\"wsr\":" << lg(P.WormSpaceReweight) << ",\"pr\":" << lg(P.PolarReweight) << ",\"ggr\":" << lg(P.GammaGReweight) << ",\"gwr\":" << lg(P.GammaWReweight);
    o << ",\"ratio\":[";
    for (int i = 0; i <= P.Order; i++)
        o << (i ? "," : "") << lg(P.OrderTimeRatio[i]);
    string rest = ToString(P.Order) + " " + ToString(P.Toss) + " " + ToString(P.Sweep) + " " + ToString(P.runGamma3) + " " + ToString(P.MaxTauBin) + " " + ToString(P.MaxTauBinTiny)
        + " " + ToString(P.NSublat) + " " + ToString(P.Lat.Size[0]) + "x" + ToString(P.Lat.Size[1]) + " " + ToString(P.PrinterTimer) + " " + ToString(P.DiskWriterTimer) + " "
        + ToString(P.MessageTimer) + " " + ToString(P.ReweightTimer) + " " + (P.T == 1.0 / P.Beta ? "T" : "badT");
    o << "],\"rest\":\"" << rest << "\",\"st\":" << vs::Proj(Env->Diag, P.Beta, true).structure() << "},\"s\":{\"c\":" << counters() << ",\"t\":" << tabs() << "},\"wt\":\"" << weights()
      << "\",\"ph\":" << vs::wcode(Env->Diag.Phase) << "}";
    return o.str();
}
#endif

// helpers of the demonstrations
#ifndef SIM_H
#define SIM_H
#include "environment/environment.h"
#include "module/weight/component.h"
#include "utility/dictionary.h"
#include "utility/pyglue/pywrapper.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <set>
#include <map>
#include <vector>
using namespace std;
using diag::Diagram;
using diag::vertex;
using diag::gLine;
using diag::wLine;
inline void hush()
{
    int dn = open("log", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(dn, 1);
}
inline EnvMonteCarlo* boot(const char* in = "infile")
{
    Python::Initialize();
    Python::ArrayInitialize();
    EnvMonteCarlo* e = new EnvMonteCarlo(para::Job(string(in)));
    e->BuildNew();
    return e;
}
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(0); _exit(1); } while (0)
inline int sgn(int dir) { return dir == IN ? 1 : -1; }
// wiring, conservation, irreducibility, flags
inline void structure(Diagram& d)
{
    if (d.Order == 0)
        return;
    if (d.Ver.HowMany() != 2 * d.Order || d.G.HowMany() != 2 * d.Order || d.W.HowMany() != d.Order)
        FAIL("component counts");
    int meas = 0, ins = 0;
    set<int> gk, wk;
    for (int i = 0; i < d.Ver.HowMany(); i++) {
        vertex v = d.Ver(i);
        if (v->nG[IN]->nVer[OUT] != v || v->nG[OUT]->nVer[IN] != v || v->nW->nVer[v->Dir] != v)
            FAIL("wiring");
        Momentum k = v->nG[IN]->K - v->nG[OUT]->K + (-sgn(v->Dir)) * v->nW->K;
        if (d.Worm.Exist && v == d.Worm.Ira)
            k = k - d.Worm.K;
        if (d.Worm.Exist && v == d.Worm.Masha)
            k = k + d.Worm.K;
        if (k.K != 0)
            FAIL("momentum not conserved");
    }
    for (int i = 0; i < d.G.HowMany(); i++) {
        gLine g = d.G(i);
        if (g->nVer[IN]->Spin(OUT) != g->nVer[OUT]->Spin(IN))
            FAIL("spin along a propagator");
        if (!gk.insert(g->K.K).second)
            FAIL("two propagators share a momentum");
        if (!d.GHashCheck(g->K))
            FAIL("occupancy table of propagators");
        meas += g->IsMeasure;
        ins += g->IsGGGammaG;
    }
    for (int i = 0; i < d.W.HowMany(); i++) {
        wLine w = d.W(i);
        if (w->K.K == 0 || !wk.insert(abs(w->K.K)).second)
            FAIL("interaction momentum");
        if (!d.WHashCheck(w->K))
            FAIL("occupancy table of interactions");
        bool worm = d.Worm.Exist && (w->nVer[IN] == d.Worm.Ira || w->nVer[IN] == d.Worm.Masha || w->nVer[OUT] == d.Worm.Ira || w->nVer[OUT] == d.Worm.Masha);
        if (worm != w->IsWorm)
            FAIL("worm mark");
        if (w->IsDelta && (w->IsMeasure || w->nVer[IN]->Tau != w->nVer[OUT]->Tau))
            FAIL("instantaneous line");
        meas += w->IsMeasure;
        ins += w->IsWWGammaW;
    }
    if (meas != 1 || (d.MeasureGLine ? !d.GMeasure->IsMeasure : !d.WMeasure->IsMeasure))
        FAIL("measuring line");
    if (ins != (d.HasGammaGW != 0))
        FAIL("insertion mark");
    int occ = 0;
    for (int k = -MAX_K; k <= MAX_K; k++)
        occ += d.GHashCheck(Momentum(k));
    if (occ != 2 * d.Order)
        FAIL("stale propagator momentum");
    occ = 0;
    for (int k = 1; k <= MAX_K; k++)
        occ += d.WHashCheck(Momentum(k));
    if (occ != d.Order)
        FAIL("stale interaction momentum");
}
inline bool near(Complex a, Complex b) { return mod(a - b) <= 1e-6 * (mod(a) + mod(b)) + 1e-300; }
// all stored weights against the tables
inline void weights(EnvMonteCarlo& e)
{
    Diagram& d = e.Diag;
    if (d.Order == 0)
        return;
    weight::GClass& G = *e.Weight.G;
    weight::WClass& W = *e.Weight.W;
    Complex tot(1.0, 0.0);
    for (int i = 0; i < d.G.HowMany(); i++) {
        gLine g = d.G(i);
        vertex a = g->nVer[IN], b = g->nVer[OUT];
        Complex w = G.Weight(a->R, b->R, a->Tau, b->Tau, a->Spin(OUT), b->Spin(IN), g->IsMeasure, g->IsGGGammaG, &d.UExt);
        if (!near(w, g->Weight))
            FAIL("weight of a propagator");
        tot *= w;
    }
    for (int i = 0; i < d.W.HowMany(); i++) {
        wLine l = d.W(i);
        vertex a = l->nVer[IN], b = l->nVer[OUT];
        Complex w = W.Weight(a->R, b->R, a->Tau, b->Tau, a->Spin(), b->Spin(), l->IsWorm, l->IsMeasure, l->IsDelta, l->IsWWGammaW, &d.UExt);
        if (!near(w, l->Weight))
            FAIL("weight of an interaction");
        tot *= w;
    }
    // fermion loops
    set<vertex> seen;
    int loops = 0;
    for (int i = 0; i < d.Ver.HowMany(); i++) {
        vertex v = d.Ver(i);
        if (seen.count(v))
            continue;
        loops++;
        while (seen.insert(v).second)
            v = v->nG[OUT]->nVer[OUT];
    }
    real s = loops % 2 ? 1.0 : -1.0;
    if (d.SignFermiLoop != s)
        FAIL("loop sign");
    tot *= s * (d.Order % 2 ? -1.0 : 1.0);
    if (!near(tot, d.Weight))
        FAIL("weight of the diagram");
    if (!near(phase(tot), d.Phase))
        FAIL("phase of the diagram");
}
#endif

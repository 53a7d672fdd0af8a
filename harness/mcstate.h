// Projection of a diag::Diagram onto the state of spec/Diagram.tla, as JSON.
#ifndef MCSTATE_H
#define MCSTATE_H
#include "environment/environment.h"
#include "module/weight/component.h"
#include "utility/dictionary.h"
#include "utility/pyglue/pywrapper.h"
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <string>
#include <set>
#include <sstream>
#include <map>

namespace vs {
using diag::Diagram;
using diag::vertex;
using diag::gLine;
using diag::wLine;

inline std::string num(long long x) { return std::to_string(x); }

inline std::string id(const char* pre, const Diagram& d, const void* p)
{
    if (p == nullptr)
        return "none";
    char b[40];
    long long off = (const char*)p - (const char*)&d;
    sprintf(b, "%s%lld", pre, off);
    return b;
}
inline std::string q(const std::string& s) { return "\"" + s + "\""; }

// a number 2^e i^p as [e,p]; [-9999,0] for zero; [77777,0] for anything else
inline std::string wcode(double re, double im)
{
    if (re == 0.0 && im == 0.0)
        return "[-9999,0]";
    double m;
    int p;
    if (im == 0.0) {
        m = fabs(re);
        p = re > 0 ? 0 : 2;
    }
    else if (re == 0.0) {
        m = fabs(im);
        p = im > 0 ? 1 : 3;
    }
    else
        return "[77777,0]";
    int e;
    double f = frexp(m, &e);
    if (f != 0.5)
        return "[77777,0]";
    return "[" + num(e - 1) + "," + num(p) + "]";
}
inline std::string wcode(const Complex& c) { return wcode(c.Re, c.Im); }

inline std::string tcode(double tau, double beta)
{
    // 35 bits: the 32 the generator gives, and three for the temperature to fall
    double x = tau / beta * 34359738368.0;
    if (!(x >= 0 && x < 34359738368.0) || x != floor(x))
        return "[-1,0]";
    unsigned long long u = (unsigned long long)x;
    return "[" + num(u >> 19) + "," + num(u & 524287) + "]";
}
inline std::string rcode(const Site& r)
{
    std::string s = "[" + num(r.Sublattice);
    for (int i = 0; i < D; i++)
        s += "," + num(r.Coordinate[i]);
    return s + "]";
}

struct Proj {
    Diagram& d;
    double beta;
    bool byName; // components by their number rather than by their address
    Proj(Diagram& dd, double b, bool n = false)
        : d(dd)
        , beta(b)
        , byName(n)
    {
    }
    template <class T>
    std::string any(const char* pre, T p)
    {
        if (!byName || p == nullptr)
            return id(pre, d, p);
        return pre + num(p->Name);
    }
    std::string v(vertex p) { return any("v", p); }
    std::string g(gLine p) { return any("g", p); }
    std::string w(wLine p) { return any("w", p); }

    // mask: blank out momenta and times (times as same/different from ref)
    std::string structure(bool mask = false, const std::map<std::string, std::string>* reft = nullptr)
    {
        std::ostringstream o;
        o << "{\"ord\":" << d.Order << ",\"v\":{";
        for (int i = 0; i < d.Ver.HowMany(); i++) {
            vertex x = d.Ver(i);
            std::string t = tcode(x->Tau, beta);
            if (mask && reft) {
                auto it = reft->find(v(x));
                t = (it != reft->end() && it->second == t) ? "\"s\"" : "\"d\"";
            }
            o << (i ? "," : "") << q(v(x)) << ":{\"gi\":" << q(g(x->nG[IN])) << ",\"go\":" << q(g(x->nG[OUT]))
              << ",\"w\":" << q(w(x->nW)) << ",\"d\":" << x->Dir << ",\"si\":" << (int)x->_spin[IN]
              << ",\"so\":" << (int)x->_spin[OUT] << ",\"r\":" << rcode(x->R) << ",\"t\":" << t << "}";
        }
        o << "},\"g\":{";
        for (int i = 0; i < d.G.HowMany(); i++) {
            gLine x = d.G(i);
            o << (i ? "," : "") << q(g(x)) << ":{\"i\":" << q(v(x->nVer[IN])) << ",\"o\":" << q(v(x->nVer[OUT]))
              << ",\"k\":" << (mask ? 0 : x->K.K) << "}";
        }
        o << "},\"w\":{";
        for (int i = 0; i < d.W.HowMany(); i++) {
            wLine x = d.W(i);
            o << (i ? "," : "") << q(w(x)) << ":{\"i\":" << q(v(x->nVer[IN])) << ",\"o\":" << q(v(x->nVer[OUT]))
              << ",\"k\":" << (mask ? 0 : x->K.K) << ",\"dl\":" << (x->IsDelta ? "true" : "false") << "}";
        }
        o << "},\"worm\":";
        if (d.Worm.Exist)
            o << "{\"e\":true,\"i\":" << q(v(d.Worm.Ira)) << ",\"m\":" << q(v(d.Worm.Masha)) << ",\"k\":"
              << (mask ? 0 : d.Worm.K.K) << ",\"s\":" << d.Worm.dSpin << "}";
        else
            o << "{\"e\":false,\"i\":\"none\",\"m\":\"none\",\"k\":0,\"s\":0}";
        o << ",\"meas\":" << q(d.MeasureGLine ? g(d.GMeasure) : w(d.WMeasure));
        o << ",\"sg\":" << (d.SignFermiLoop == 1.0 ? 1 : d.SignFermiLoop == -1.0 ? -1 : 99);
        o << ",\"ins\":" << d.HasGammaGW << ",\"host\":";
        std::string host = "none";
        int nf = 0;
        if (d.HasGammaGW == 1) {
            for (int i = 0; i < d.G.HowMany(); i++)
                if (d.G(i)->IsGGGammaG)
                    host = g(d.G(i)), nf++;
        }
        else if (d.HasGammaGW == 2) {
            for (int i = 0; i < d.W.HowMany(); i++)
                if (d.W(i)->IsWWGammaW)
                    host = w(d.W(i)), nf++;
        }
        if (d.HasGammaGW != 0 && nf != 1)
            host = "bad";
        o << q(host) << ",\"u\":";
        if (d.HasGammaGW == 0)
            o << "{\"r\":[0,0,0],\"t\":[0,0],\"s\":0}";
        else
            o << "{\"r\":" << rcode(d.UExt.R) << ",\"t\":" << (mask ? "0" : tcode(d.UExt.Tau, beta)) << ",\"s\":"
              << (int)d.UExt.Spin << "}";
        o << "}";
        return o.str();
    }
    // everything the diagram stores besides its structure
    std::string extras()
    {
        std::ostringstream o;
        o << "{\"gw\":{";
        for (int i = 0; i < d.G.HowMany(); i++)
            o << (i ? "," : "") << q(g(d.G(i))) << ":" << wcode(d.G(i)->Weight);
        o << "},\"ww\":{";
        for (int i = 0; i < d.W.HowMany(); i++)
            o << (i ? "," : "") << q(w(d.W(i))) << ":" << wcode(d.W(i)->Weight);
        o << "},\"wt\":" << wcode(d.Weight) << ",\"ph\":" << wcode(d.Phase) << ",\"gf\":{";
        for (int i = 0; i < d.G.HowMany(); i++)
            o << (i ? "," : "") << q(g(d.G(i))) << ":[" << (int)d.G(i)->IsMeasure << "," << (int)d.G(i)->IsGGGammaG << "]";
        o << "},\"wf\":{";
        for (int i = 0; i < d.W.HowMany(); i++)
            o << (i ? "," : "") << q(w(d.W(i))) << ":[" << (int)d.W(i)->IsWorm << "," << (int)d.W(i)->IsMeasure << ","
              << (int)d.W(i)->IsWWGammaW << "]";
        o << "},\"gh\":[";
        bool c = false;
        for (int k = -MAX_K; k <= MAX_K; k++)
            if (d.GHashCheck(Momentum(k))) {
                o << (c ? "," : "") << k;
                c = true;
            }
        o << "],\"wh\":[";
        c = false;
        for (int k = 1; k <= MAX_K; k++)
            if (d.WHashCheck(Momentum(k))) {
                o << (c ? "," : "") << k;
                c = true;
            }
        o << "],\"mg\":" << (d.MeasureGLine ? "true" : "false") << ",\"vin\":";
        if (d.HasGammaGW != 0)
            o << q(v(*d.Vin)) << ",\"vout\":" << q(v(*d.Vout));
        else
            o << "\"none\",\"vout\":\"none\"";
        // names must index the bundles
        bool names = true;
        for (int i = 0; i < d.G.HowMany(); i++)
            if (d.G(i)->Name != i)
                names = false;
        for (int i = 0; i < d.W.HowMany(); i++)
            if (d.W(i)->Name != i)
                names = false;
        for (int i = 0; i < d.Ver.HowMany(); i++)
            if (d.Ver(i)->Name != i)
                names = false;
        o << ",\"names\":" << (names ? "true" : "false") << "}";
        return o.str();
    }
    std::string full() { return "{\"st\":" + structure() + ",\"x\":" + extras() + "}"; }
    std::map<std::string, std::string> times()
    {
        std::map<std::string, std::string> m;
        for (int i = 0; i < d.Ver.HowMany(); i++)
            m[v(d.Ver(i))] = tcode(d.Ver(i)->Tau, beta);
        return m;
    }
};
}
#endif

// Scalar estimators: estimator OUT SEED STEPS LONG
#include "util.h"
#include "estimator/estimator.h"
#include "utility/dictionary.h"
#include "utility/complex.h"
#include "utility/pyglue/pyarraywrapper.h"
#include <memory>
using namespace std;
static ofstream Out;
static Rng R;

static double re(real x) { return x; }
static double im(real x) { return 0; }
static double re(const Complex& x) { return x.Re; }
static double im(const Complex& x) { return x.Im; }
static void mk(real& t, int a, int b) { t = a; }
static void mk(Complex& t, int a, int b) { t = Complex(a, b); }
static bool same(real a, real b) { return fabs(a - b) <= 1e-12 * (1 + fabs(a)); }
static bool same(const Complex& a, const Complex& b) { return same(a.Re, b.Re) && same(a.Im, b.Im); }
static string two(double a, double b, double s) { return "[" + to_string(fix(a, s)) + "," + to_string(fix(b, s)) + "]"; }

template <class T>
struct Drive {
    typedef Estimator<T> E;
    typedef shared_ptr<vector<T>> Calls; // the mean at every snapshot so far
    bool cplx;
    // which snapshot each entry of the history is (-1: none)
    string match(T* h, size_t n, const vector<T>& calls)
    {
        string o = "[";
        size_t p = 0;
        for (size_t j = 0; j < n; j++) {
            size_t q = p;
            while (q < calls.size() && !same(calls[q], h[j]))
                q++;
            o += (j ? "," : "") + (q < calls.size() ? to_string(q + 1) : string("-1"));
            if (q < calls.size())
                p = q + 1;
        }
        return o + "]";
    }
    string obs(E& e, const vector<T>& calls, bool hist)
    {
        // the export first: it must not depend on Estimate having been called
        string o = "{";
        {
            Dictionary d = e.ToDict();
            Dictionary s = d.template Get<Dictionary>("Estimation");
            T a = d.template Get<T>("Accu"), m = s.template Get<T>("Mean"), r = s.template Get<T>("Error");
            Python::ArrayObject h = d.template Get<Python::ArrayObject>("History");
            size_t n = h.Shape()[0];
            o += "\"dacc\":" + two(re(a), im(a), 64) + ",\"dn\":" + to_string(fix(d.template Get<real>("Norm"), 64)) + ",\"dmean\":" + two(re(m), im(m), 1000)
                + ",\"derr\":" + two(re(r), im(r), 1000) + ",\"len\":" + to_string(n);
            T* p = h.template Data<T>();
            bool values = n <= 40;
            o += ",\"calls\":" + (hist || values ? match(p, n, calls) : string("[]"));
            o += ",\"full\":" + string(hist || values ? "true" : "false");
            string v = "[";
            if (values)
                for (size_t j = 0; j < n; j++)
                    v += (j ? "," : "") + two(re(p[j]), im(p[j]), 1000);
            o += ",\"values\":" + v + "]";
        }
        T v = e.Value();
        EstimateClass<T> est = e.Estimate();
        o += ",\"acc\":" + two(re(v), im(v), 64) + ",\"n\":" + to_string(fix(e.Norm(), 64)) + ",\"mean\":" + two(re(est.Mean), im(est.Mean), 1000) + ",\"err\":"
            + two(re(est.Error), im(est.Error), 1000) + "}";
        return o;
    }
    T meanOf(E& e)
    {
        T v = e.Value();
        v /= e.Norm();
        return v;
    }
    Dictionary deep(E& e, vector<T>& keep)
    {
        Dictionary d = e.ToDict();
        Python::ArrayObject h = d.template Get<Python::ArrayObject>("History");
        uint n = h.Shape()[0];
        keep.assign(h.template Data<T>(), h.template Data<T>() + n);
        keep.reserve(n + 1);
        vector<uint> sh = { n };
        if (keep.data() == nullptr)
            return d;
        d["History"] = Python::ArrayObject(keep.data(), sh, 1);
        return d;
    }

    void singles(int steps)
    {
        const int N = 3;
        vector<unique_ptr<E>> es;
        vector<vector<T>> calls(N);
        vector<int> halv(N, 0), samples(N, 0);
        for (int j = 0; j < N; j++)
            es.push_back(unique_ptr<E>(j ? new E("e") : new E()));
        auto all = [&](const char* k, int id, function<void(Ev&)> extra, bool hist) {
            Ev e(k);
            e.i("id", id + 1);
            extra(e);
            string o = "[";
            for (int j = 0; j < N; j++)
                o += (j ? "," : "") + obs(*es[j], calls[j], hist);
            e.raw("st", o + "]");
            Out << e.str();
        };
        auto none = [](Ev&) {};
        all("new", 0, none, false);
        for (int s = 0; s < steps; s++) {
            int id = R.below(N), op = R.below(100);
            E& e = *es[id];
            if (op < 45 && samples[id] < 190) {
                int a = R.range(-20, 20), b = cplx ? R.range(-20, 20) : 0;
                T t;
                mk(t, a, b);
                e.Measure(t);
                samples[id]++;
                all("measure", id, [&](Ev& v) { v.i("a", a).i("b", b); }, false);
            }
            else if (op < 80) {
                int m = R.below(8) ? 1 : R.range(2, 12);
                for (int q = 0; q < m; q++) {
                    e.AddStatistics();
                    calls[id].push_back(meanOf(e));
                }
                all("snap", id, [&](Ev& v) { v.i("m", m); }, false);
            }
            else if (op < 83) {
                e.ClearStatistics();
                calls[id].clear();
                halv[id] = samples[id] = 0;
                all("clear", id, none, false);
            }
            else if (op < 89) {
                int x = R.below(3);
                int dh = x == 0 ? 1 : x == 1 ? 2 : -1;
                if (halv[id] + dh > 6 || halv[id] + dh < 0)
                    continue;
                halv[id] += dh;
                e.SqueezeStatistics(ldexp(1.0, dh));
                all("squeeze", id, [&](Ev& v) { v.i("e", dh); }, false);
            }
            else if (op < 95) {
                int to = R.below(N);
                vector<T> keep;
                Dictionary d = R.below(2) ? deep(e, keep) : e.ToDict();
                bool ok = es[to]->FromDict(d);
                calls[to] = calls[id];
                halv[to] = halv[id];
                samples[to] = samples[id];
                all("import", id, [&](Ev& v) { v.i("to", to + 1).b("ok", ok); }, false);
            }
            else if (op < 97) {
                int to = R.below(N);
                if (to == id)
                    continue;
                *es[to] = e;
                calls[to] = calls[id];
                halv[to] = halv[id];
                samples[to] = samples[id];
                all("copy", id, [&](Ev& v) { v.i("to", to + 1); }, false);
            }
            else {
                // reading changes nothing
                e.Estimate();
                e.Value();
                e.Norm();
                e.Ratio();
                all("read", id, none, false);
            }
        }
    }
    // histories longer than the bound
    void lengthy(int total)
    {
        unique_ptr<E> e(new E("long"));
        vector<T> calls;
        int samples = 0, next = 1;
        unique_ptr<E> other(new E("other"));
        while ((int)calls.size() < total) {
            // a mean that keeps growing names every snapshot
            T t;
            mk(t, ++samples, cplx ? -samples : 0);
            e->Measure(t);
            e->AddStatistics();
            calls.push_back(meanOf(*e));
            int c = calls.size();
            if (c == next || c == 9999 || c == 10000 || c == 10001 || c == 10002 || c == total) {
                Dictionary d = e->ToDict();
                Python::ArrayObject h = d.template Get<Python::ArrayObject>("History");
                size_t n = h.Shape()[0];
                Ev v("history");
                v.i("c", c).i("len", n).raw("calls", match(h.template Data<T>(), n, calls));
                Out << v.str();
                next = c * 2 + R.below(100);
                if (R.below(2) && n > 0) {
                    // carry on in another estimator
                    vector<T> keep;
                    Dictionary x = deep(*e, keep);
                    other->FromDict(x);
                    e.swap(other);
                }
            }
        }
    }
    void bundles(int rounds)
    {
        const char* names[] = { "1", "2", "a", "Norm", "History", "x y", "" };
        for (int r = 0; r < rounds; r++) {
            EstimatorBundle<T> B;
            vector<string> have;
            vector<vector<T>> calls;
            auto all = [&](Ev& e) {
                string o = "[", l = "[";
                for (int j = 0; j < B.HowMany(); j++)
                    o += (j ? "," : "") + obs(B[j], j < (int)calls.size() ? calls[j] : vector<T>(), false);
                bool f = true;
                for (auto n : names) {
                    // by name: position (from 1) of the estimator returned, 0 when refused
                    int at = 0;
                    try {
                        Estimator<T>* p = &B[string(n)];
                        at = -1;
                        for (int j = 0; j < B.HowMany(); j++)
                            if (p == &B[j])
                                at = j + 1;
                    }
                    catch (std::exception& x) {
                        at = 0;
                    }
                    l += string(f ? "" : ",") + to_string(at);
                    f = false;
                }
                e.i("many", B.HowMany()).raw("st", o + "]").raw("look", l + "]");
                Out << e.str();
            };
            {
                Ev e("bnew");
                all(e);
            }
            int steps = R.range(5, 25);
            vector<int> halv;
            for (int s = 0; s < steps; s++) {
                int op = R.below(100), M = B.HowMany();
                if (op < 30 || M == 0) {
                    int w = R.below(7);
                    bool ok = true, filled = R.below(3) == 0;
                    E tmp{ string(names[w]) };
                    int a = R.range(-9, 9);
                    if (filled) {
                        T t;
                        mk(t, a, cplx ? 3 : 0);
                        tmp.Measure(t);
                    }
                    try {
                        if (filled)
                            B.AddEstimator(tmp);
                        else
                            B.AddEstimator(string(names[w]));
                    }
                    catch (std::exception& x) {
                        ok = false;
                    }
                    if (ok) {
                        calls.push_back(vector<T>());
                        halv.push_back(0);
                    }
                    Ev e("badd");
                    e.i("w", w + 1).b("ok", ok).b("filled", filled).i("a", a).i("b", cplx ? 3 : 0);
                    all(e);
                }
                else if (op < 60) {
                    int j = R.below(M), a = R.range(-20, 20), b = cplx ? R.range(-20, 20) : 0;
                    T t;
                    mk(t, a, b);
                    B[j].Measure(t);
                    Ev e("bmeasure");
                    e.i("id", j + 1).i("a", a).i("b", b);
                    all(e);
                }
                else if (op < 75) {
                    B.AddStatistics();
                    for (int j = 0; j < M; j++)
                        calls[j].push_back(meanOf(B[j]));
                    Ev e("bsnap");
                    all(e);
                }
                else if (op < 80) {
                    B.ClearStatistics();
                    for (int j = 0; j < M; j++)
                        calls[j].clear(), halv[j] = 0;
                    Ev e("bclear");
                    all(e);
                }
                else if (op < 87) {
                    bool can = true;
                    for (int h : halv)
                        can = can && h < 6;
                    if (!can)
                        continue;
                    for (int& h : halv)
                        h++;
                    B.SqueezeStatistics(2.0);
                    Ev e("bsqueeze");
                    e.i("e", 1);
                    all(e);
                }
                else {
                    // into another bundle, in another order, with names missing
                    EstimatorBundle<T> C;
                    vector<int> order;
                    for (int j = 0; j < 7; j++)
                        if (R.below(3))
                            order.insert(order.begin() + R.below(order.size() + 1), j);
                    for (int w : order)
                        C.AddEstimator(string(names[w]));
                    bool allow = R.below(2), ok = true, ret = false;
                    Dictionary d = B.ToDict();
                    try {
                        ret = C.FromDict(d, allow);
                    }
                    catch (std::exception& x) {
                        ok = false;
                    }
                    string o = "[";
                    for (int j = 0; j < C.HowMany(); j++) {
                        int src = -1;
                        try {
                            Estimator<T>* p = &B[string(names[order[j]])];
                            for (int q = 0; q < M; q++)
                                if (p == &B[q])
                                    src = q;
                        }
                        catch (std::exception& x) {
                        }
                        o += (j ? "," : "") + obs(C[j], src >= 0 ? calls[src] : vector<T>(), false);
                    }
                    vector<int> o1;
                    for (int w : order)
                        o1.push_back(w + 1);
                    Ev e("bimport");
                    e.l("order", o1).b("allow", allow).b("ok", ok).b("ret", ret).raw("other", o + "]");
                    all(e);
                }
            }
        }
    }
};

int main(int argc, char** argv)
{
    if (argc < 5)
        return 3;
    char full[4096];
    Out.open(argv[1]);
    R.s = strtoull(argv[2], 0, 10) * 104729 + 11;
    int steps = atoi(argv[3]), total = atoi(argv[4]);
    quiet();
    Python::Initialize();
    Python::ArrayInitialize();
    Drive<real> A{ false };
    Drive<Complex> B{ true };
    A.singles(steps);
    B.singles(steps);
    A.bundles(steps / 25);
    B.bundles(steps / 25);
    if (total) {
        A.lengthy(total);
        B.lengthy(total);
    }
    Out << "{\"k\":\"end\"}\n";
    Out.flush();
    _exit(0);
}

// Statistics tables: tables OUT SEED STEPS
#include "util.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "module/weight/weight_estimator.h"
#include "utility/dictionary.h"
#include "utility/pyglue/pyarraywrapper.h"
#include "utility/pyglue/pywrapper.h"
#include <memory>
using namespace std;
using namespace weight;
static ofstream Out;
static Rng R;
static const double U = 4096;

static string site(const Site& s)
{
    string o = "[" + to_string(s.Sublattice);
    for (int i = 0; i < D; i++)
        o += "," + to_string(s.Coordinate[i]);
    return o + "]";
}
static string cplx(const Complex& c, double s) { return "[" + to_string(fix(c.Re, s)) + "," + to_string(fix(c.Im, s)) + "]"; }

// what one lattice and one kind of table look like
struct Place {
    Vec<int> L;
    int nsub, nt, vol;
    Lattice Lat;
    bool anti;
    double norm;
    Site rsite()
    {
        Vec<int> v;
        for (int i = 0; i < D; i++)
            v[i] = R.below(L[i]);
        return Site(R.below(nsub), v);
    }
};

struct Obj {
    Place& P;
    int k; // the inverse temperature is 2^k
    int orders;
    int p; // the power of the temperature in the normalization
    Obj(Place& P_, int k_, int o, int p_)
        : P(P_)
        , k(k_)
        , orders(o)
        , p(p_)
    {
    }
    virtual ~Obj() {}
    double beta() { return ldexp(1.0, k); }
    double tm(int q) { return beta() / P.nt / 4 * q; }
    int q() { return R.below(4 * P.nt); }
    spin sp() { return R.below(2) ? UP : DOWN; }
    virtual void measure(Ev& e, Complex w) = 0;
    virtual void norm(double w) = 0;
    virtual void clear() = 0;
    virtual void squeeze(double f) = 0;
    virtual void reset(double b) = 0;
    virtual Dictionary dict() = 0;
    virtual bool from(const Dictionary& d) = 0;
    // table the export shows
    vector<Complex> look(double& n, double& c, vector<uint>& shape)
    {
        Dictionary d = dict();
        n = d.Get<real>("NormAccu");
        c = d.Get<real>("Norm");
        Python::ArrayObject a = d.Get<Python::ArrayObject>("WeightAccu");
        shape = a.Shape();
        Complex* x = a.Data<Complex>();
        return vector<Complex>(x, x + a.Size());
    }
    string st()
    {
        double n, c;
        vector<uint> sh;
        vector<Complex> v = look(n, c, sh);
        string o = "{\"a\":[";
        bool f = true;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i].Re != 0 || v[i].Im != 0) {
                o += (f ? "[" : ",[") + to_string(i) + "," + to_string(fix(v[i].Re, U)) + "," + to_string(fix(v[i].Im, U)) + "]";
                f = false;
            }
        o += "],\"n\":" + to_string(fix(n, U)) + ",\"norm\":" + to_string(fix(c * pow(beta(), p) * P.vol, 16)) + ",\"shape\":[";
        for (size_t i = 0; i < sh.size(); i++)
            o += (i ? "," : "") + to_string(sh[i]);
        return o + "]}";
    }
    // all numbers times f stay exact in the units used
    bool exact(double fa, double fn)
    {
        double n, c;
        vector<uint> sh;
        vector<Complex> v = look(n, c, sh);
        auto ok = [](double x) { return x == floor(x) && fabs(x) < (1 << 28); };
        bool r = ok(n * U * fn);
        for (auto& x : v)
            r = r && ok(x.Re * U * fa) && ok(x.Im * U * fa);
        return r;
    }
};

struct Sig : Obj {
    SigmaClass s;
    Sig(Place& P, int k, int o)
        : Obj(P, k, o, 2)
        , s(P.Lat, beta(), P.nt, o, P.anti ? TauAntiSymmetric : TauSymmetric, P.norm)
    {
    }
    void measure(Ev& e, Complex w)
    {
        Site a = P.rsite(), b = P.rsite();
        int ta = q(), tb = q(), o = R.range(1, orders);
        if (R.below(4) == 0)
            tb = ta;
        spin x = sp(), y = sp();
        s.Measure(a, b, tm(ta), tm(tb), x, y, o, w);
        e.i("ord", o).i("sa", x).raw("a", site(a)).i("sb", y).raw("b", site(b)).i("d", tb - ta);
    }
    void norm(double w) { s.Estimator.MeasureNorm(w); }
    void clear() { R.below(3) ? s.Estimator.ClearStatistics() : R.below(2) ? s.BuildNew() : s.BuildTest(); }
    void squeeze(double f) { s.Estimator.SqueezeStatistics(f); }
    void reset(double b) { s.Reset(b); }
    Dictionary dict() { return s.ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"); }
    bool from(const Dictionary& d)
    {
        Dictionary x;
        x["Histogram"] = Dictionary("SmoothT", d);
        return s.FromDict(x);
    }
};
struct Pol : Obj {
    PolarClass s;
    Pol(Place& P, int k, int o)
        : Obj(P, k, o, 2)
        , s(P.Lat, beta(), P.nt, o, P.norm)
    {
    }
    void measure(Ev& e, Complex w)
    {
        Site a = P.rsite(), b = P.rsite();
        int ta = q(), tb = q(), o = R.range(1, orders);
        if (R.below(4) == 0)
            tb = ta;
        spin x[2] = { sp(), sp() }, y[2] = { sp(), sp() };
        s.Measure(a, b, tm(ta), tm(tb), x, y, o, w);
        e.i("ord", o).i("sa", 2 * (int)x[IN] + (int)x[OUT]).raw("a", site(a)).i("sb", 2 * (int)y[IN] + (int)y[OUT]).raw("b", site(b)).i("d", tb - ta);
    }
    void norm(double w) { s.Estimator.MeasureNorm(w); }
    void clear() { R.below(3) ? s.Estimator.ClearStatistics() : R.below(2) ? s.BuildNew() : s.BuildTest(); }
    void squeeze(double f) { s.Estimator.SqueezeStatistics(f); }
    void reset(double b) { s.Reset(b); }
    Dictionary dict() { return s.ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"); }
    bool from(const Dictionary& d)
    {
        Dictionary x;
        x["Histogram"] = Dictionary("SmoothT", d);
        return s.FromDict(x);
    }
};
struct Gam : Obj {
    GammaGClass s;
    Gam(Place& P, int k)
        : Obj(P, k, 1, 3)
        , s(P.Lat, beta(), P.nt, P.norm)
    {
    }
    Site a, b, u;
    int t1, t2, tu;
    spin x, y;
    void pick(Ev& e)
    {
        a = P.rsite(), b = P.rsite(), u = P.rsite();
        t1 = q(), t2 = q(), tu = q();
        if (R.below(4) == 0)
            t1 = tu;
        if (R.below(4) == 0)
            t2 = tu;
        x = sp(), y = sp();
        e.i("sa", x).raw("a", site(a)).raw("u", site(u)).i("d1", t1 - tu).i("d2", t2 - tu);
    }
    void measure(Ev& e, Complex w)
    {
        pick(e);
        s.Measure(a, b, u, tm(t2), tm(t1), tm(tu), x, y, sp(), w);
    }
    void norm(double w) { s.MeasureNorm(w); }
    void clear() { s.ClearStatistics(); }
    void squeeze(double f) { s.SqueezeStatistics(f); }
    void reset(double b) { s.Reset(b); }
    Dictionary dict() { return s.StatisToDict(); }
    bool from(const Dictionary& d) { return s.StatisFromDict(d); }
    void setWeight(const vector<Complex>& v)
    {
        uint sh[4] = { 2, (uint)P.vol, (uint)P.nt, (uint)P.nt };
        vector<Complex> c = v;
        Dictionary d;
        d["SmoothT"] = Python::ArrayObject(c.data(), sh, 4);
        s.WeightFromDict(d);
    }
    Complex read(Ev& e)
    {
        pick(e);
        return s.Weight(a, b, u, tm(t2), tm(t1), tm(tu), x, y, sp());
    }
    int size() { return 2 * P.vol * P.nt * P.nt; }
};
struct Squeeze {
    vector<int> rs, rf, ts, tf, fl;
    int RS, TS;
    Squeeze(Place& P)
    {
        RS = R.range(1, 6), TS = R.range(1, 6);
        for (int i = 0; i < P.vol * P.vol; i++) {
            rs.push_back(R.below(RS));
            rf.push_back(R.range(1, 2));
        }
        for (int i = 0; i < P.nt * P.nt; i++) {
            ts.push_back(R.below(TS));
            tf.push_back(R.range(1, 2));
            fl.push_back(R.below(2));
        }
    }
    void put(Dictionary& d)
    {
        d["RSqueeze"] = rs;
        d["RSymFactor"] = rf;
        d["TauSqueeze"] = ts;
        d["TauSymFactor"] = tf;
        d["TauFlag"] = fl;
        d["RSize"] = RS;
        d["TauSize"] = TS;
    }
};
struct Gaw : Obj {
    Squeeze& Q;
    vector<basis> B;
    GammaWClass s;
    Gaw(Place& P, int k, Squeeze& Q_)
        : Obj(P, k, 1, 3)
        , Q(Q_)
        , B(1, basis(P.nt, 1.0))
        , s(P.Lat, beta(), P.nt, B, P.norm)
    {
        Dictionary d;
        Q.put(d);
        s.WeightFromDict(d);
        s.ClearStatistics();
    }
    Site a, b, u;
    int t1, t2, tu;
    spin x[2], y[2];
    void pick(Ev& e)
    {
        a = P.rsite(), b = P.rsite(), u = P.rsite();
        t1 = q(), t2 = q(), tu = q();
        if (R.below(4) == 0)
            t1 = tu;
        if (R.below(4) == 0)
            t2 = tu;
        // mostly combinations that conserve spin
        static const int T[6][4] = { { 1, 1, 1, 1 }, { 0, 0, 0, 0 }, { 1, 1, 0, 0 }, { 0, 0, 1, 1 }, { 1, 0, 0, 1 }, { 0, 1, 1, 0 } };
        const int* c = T[R.below(6)];
        x[0] = c[0] ? UP : DOWN, x[1] = c[1] ? UP : DOWN, y[0] = c[2] ? UP : DOWN, y[1] = c[3] ? UP : DOWN;
        // x: the end "out", y: the end "in"
        e.raw("out", string("[") + (x[IN] == UP ? "1," : "0,") + (x[OUT] == UP ? "1]" : "0]")).raw("inn", string("[") + (y[IN] == UP ? "1," : "0,") + (y[OUT] == UP ? "1]" : "0]"));
        e.raw("a", site(a)).raw("b", site(b)).raw("u", site(u)).i("d1", t1 - tu).i("d2", t2 - tu);
    }
    void measure(Ev& e, Complex w)
    {
        pick(e);
        s.Measure(a, b, u, tm(t2), tm(t1), tm(tu), y, x, sp(), w);
    }
    void norm(double w) { s.MeasureNorm(w); }
    void clear() { s.ClearStatistics(); }
    void squeeze(double f) { s.SqueezeStatistics(f); }
    void reset(double b) { s.Reset(b); }
    Dictionary dict() { return s.StatisToDict(); }
    bool from(const Dictionary& d) { return s.StatisFromDict(d); }
    void setWeight(const vector<Complex>& v)
    {
        uint sh[3] = { 2, (uint)Q.RS, (uint)Q.TS };
        vector<Complex> c = v;
        Dictionary d;
        Q.put(d);
        d["SmoothT"] = Python::ArrayObject(c.data(), sh, 3);
        s.WeightFromDict(d);
    }
    Complex read(Ev& e)
    {
        pick(e);
        return s.Weight(a, b, u, tm(t2), tm(t1), tm(tu), y, x, sp());
    }
    int size() { return 2 * Q.RS * Q.TS; }
};

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    Out.open(argv[1]);
    R.s = strtoull(argv[2], 0, 10) * 7919 + 11;
    int N = atoi(argv[3]);
    quiet();
    Python::Initialize();
    Python::ArrayInitialize();
    for (int c = 0; c < N; c++) {
        Place P;
        int l[2] = { 1 << R.below(2), 1 << R.range(0, 2) };
        for (int i = 0; i < D; i++)
            P.L[i] = l[i % 2];
        P.nsub = R.range(1, 2);
        P.nt = 1 << R.range(0, 2);
        P.Lat.Initialize(P.L, P.nsub);
        P.vol = P.Lat.Vol;
        P.anti = R.below(2);
        int nf = 1 << R.range(0, 4);
        P.norm = nf;
        Squeeze Q(P);
        int kind = R.below(4), k0 = R.range(-1, 2);
        bool dflt = R.below(3) == 0; // the constant the program itself sets
        if (dflt) {
            Norm::NormFactor = nf;
            P.norm = Norm::Weight();
        }
        auto mk = [&](int o) -> shared_ptr<Obj> {
            if (kind == 0)
                return make_shared<Sig>(P, k0, o);
            if (kind == 1)
                return make_shared<Pol>(P, k0, o);
            if (kind == 2)
                return make_shared<Gam>(P, k0);
            return make_shared<Gaw>(P, k0, Q);
        };
        shared_ptr<Obj> X[2];
        for (int i = 0; i < 2; i++)
            X[i] = mk(R.range(1, 4));
        auto st = [&]() { return "[" + X[0]->st() + "," + X[1]->st() + "]"; };
        static const char* kinds[4] = { "sigma", "polar", "gammag", "gammaw" };
        {
            Ev e("new");
            e.s("kind", kinds[kind]).l("L", vector<int>{ P.L[0], P.L[1] }).i("nsub", P.nsub).i("nt", P.nt).b("anti", P.anti).i("nf", nf).i("kb", k0);
            e.l("orders", vector<int>{ X[0]->orders, X[1]->orders });
            e.l("rs", Q.rs).l("rf", Q.rf).l("ts", Q.ts).l("tf", Q.tf).l("fl", Q.fl).i("RS", Q.RS).i("TS", Q.TS);
            Out << e.raw("st", st()).str();
        }
        for (int j = 0; j < 40; j++) {
            int o = R.below(2);
            Obj& x = *X[o];
            int op = R.below(20);
            if (op < 8) {
                Complex w(R.range(-20, 20), R.range(-20, 20));
                Ev e("measure");
                e.i("o", o + 1).raw("w", cplx(w, U));
                x.measure(e, w);
                Out << e.raw("st", st()).str();
            }
            else if (op < 11) {
                double w = R.range(-3, 40);
                x.norm(w);
                Ev e("norm");
                Out << e.i("o", o + 1).i("w", (int)(w * U)).raw("st", st()).str();
            }
            else if (op < 13) {
                int s = R.range(-1, 3);
                double f = ldexp(1.0, -s);
                if (!x.exact(f, f))
                    continue;
                x.squeeze(ldexp(1.0, s));
                Ev e("squeeze");
                Out << e.i("o", o + 1).i("e", s).raw("st", st()).str();
            }
            else if (op < 14 && R.below(3) == 0) {
                x.clear();
                Ev e("clear");
                Out << e.i("o", o + 1).raw("st", st()).str();
            }
            else if (op < 16) {
                int kb = R.range(-1, 3);
                if (!x.exact(1, ldexp(1.0, x.p * (x.k - kb))))
                    continue;
                x.k = kb;
                x.reset(x.beta());
                Ev e("reset");
                Out << e.i("o", o + 1).i("kb", kb).raw("st", st()).str();
            }
            else if (op < 17) {
                Obj& y = *X[1 - o];
                if (x.k != y.k)
                    continue;
                string r;
                bool ok = false;
                try {
                    ok = y.from(x.dict());
                }
                catch (std::exception& e) {
                }
                Ev e("import");
                Out << e.i("o", o + 1).i("to", 2 - o).b("ok", ok).raw("st", st()).str();
            }
            else if (op < 18) {
                // what must be refused
                bool thrown = false;
                double f = R.below(2) ? 0.0 : -1.0 * R.range(1, 4);
                try {
                    x.squeeze(f);
                }
                catch (std::exception& e) {
                    thrown = true;
                }
                Ev e("badsqueeze");
                Out << e.i("o", o + 1).b("thrown", thrown).raw("st", st()).str();
                // a table of another shape
                Place P2 = P;
                P2.nt *= 2;
                P2.Lat.Initialize(P.L, P.nsub);
                Squeeze Q2(P2);
                Q2.TS = Q.TS + 1;
                bool refused = false;
                {
                    shared_ptr<Obj> z;
                    if (kind == 0)
                        z = make_shared<Sig>(P2, k0, 2);
                    else if (kind == 1)
                        z = make_shared<Pol>(P2, k0, 2);
                    else if (kind == 2)
                        z = make_shared<Gam>(P2, k0);
                    else
                        z = make_shared<Gaw>(P2, k0, Q2);
                    try {
                        z->from(x.dict());
                    }
                    catch (std::exception& e) {
                        refused = true;
                    }
                }
                Ev g("badshape");
                Out << g.b("refused", refused).raw("st", st()).str();
            }
            else if (kind >= 2) {
                // the weights of a three-point function, read back bin by bin
                Gam* g = kind == 2 ? (Gam*)&x : 0;
                Gaw* w = kind == 3 ? (Gaw*)&x : 0;
                int n = g ? g->size() : w->size();
                vector<Complex> v;
                string s = "[";
                for (int i = 0; i < n; i++) {
                    v.push_back(Complex(R.range(-99, 99), R.range(-99, 99)));
                    s += (i ? "," : "") + cplx(v.back(), 1);
                }
                if (g)
                    g->setWeight(v);
                else
                    w->setWeight(v);
                string rows;
                for (int i = 0; i < 12; i++) {
                    Ev e("row");
                    Complex r = g ? g->read(e) : w->read(e);
                    string t = e.raw("v", cplx(r, 1)).str();
                    t.pop_back();
                    rows += (i ? "," : "") + t;
                }
                Ev e("read");
                Out << e.i("o", o + 1).raw("table", s + "]").raw("rows", "[" + rows + "]").raw("st", st()).str();
            }
        }
    }
    Out << "{\"k\":\"end\"}\n";
    return 0;
}

// Table positions: index OUT SEED N
#include "util.h"
#include "module/weight/index_map.h"
#include "lattice/lattice.h"
#include "utility/vector.h"
using namespace std;
using namespace weight;
static ofstream Out;
static Rng R;

static string site(const Site& s)
{
    string o = "[" + to_string(s.Sublattice);
    for (int i = 0; i < D; i++)
        o += "," + to_string(s.Coordinate[i]);
    return o + "]";
}
static string vec(const Vec<int>& v)
{
    string o = "[";
    for (int i = 0; i < D; i++)
        o += (i ? "," : "") + to_string(v[i]);
    return o + "]";
}
static string rows(const vector<string>& r)
{
    string o = "[";
    for (size_t i = 0; i < r.size(); i++)
        o += (i ? "," : "") + r[i];
    return o + "]";
}
static long long idx(const function<uint()>& f)
{
    try {
        return f();
    }
    catch (std::exception& e) {
        return -1;
    }
}

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    Out.open(argv[1]);
    R.s = strtoull(argv[2], 0, 10) * 7919 + 5;
    int N = atoi(argv[3]);
    quiet();
    for (int c = 0; c < N; c++) {
        Vec<int> L;
        int l[2] = { R.range(1, 5), R.range(1, 5) };
        for (int i = 0; i < D; i++)
            L[i] = l[i % 2];
        int nsub = R.range(1, 3);
        bool exact = R.below(2);
        int nt = exact ? 1 << R.range(0, 5) : R.range(1, 33);
        double beta = exact ? ldexp(1.0, R.range(-3, 4)) : 0.1 + R.below(997) / 37.0;
        bool anti = R.below(2);
        Lattice Lat(L, nsub);
        TauSymmetry sym = anti ? TauAntiSymmetric : TauSymmetric;
        IndexMapSPIN2 m2(beta, nt, Lat, sym);
        IndexMapSPIN4 m4(beta, nt, Lat, sym);
        // times in quarters of a bin, off the edges of bins where division by a bin is inexact
        auto tm = [&](int q) { return exact ? beta / nt / 4 * q : (beta * q) / (4.0 * nt); };
        auto pair = [&](int& a, int& b) {
            for (;;) {
                a = R.below(4 * nt);
                b = R.below(4 * nt);
                if (exact || (b - a) % 4)
                    return;
                if (nt == 1 && R.below(4) == 0) {
                    b = a + 1 < 4 ? a + 1 : a - 1;
                    return;
                }
            }
        };
        auto rsite = [&]() {
            Vec<int> v;
            for (int i = 0; i < D; i++)
                v[i] = R.below(L[i]);
            return Site(R.below(nsub), v);
        };
        auto head = [&](Ev& e, int ns) {
            e.i("ns", ns).raw("L", vec(L)).i("nsub", nsub).i("nt", nt).b("anti", anti);
        };
        for (int ns = 2; ns <= 4; ns += 2) {
            IndexMap* m = ns == 2 ? (IndexMap*)&m2 : (IndexMap*)&m4;
            {
                const uint* s = m->GetShape();
                Ev e("shape");
                head(e, ns);
                e.l("shape", vector<uint>(s, s + 6)).i("vol", m->Lat.Vol).i("sub", m->Lat.SublatVol);
                Out << e.str();
            }
            vector<string> sm, de;
            for (int j = 0; j < 150; j++) {
                Site a = rsite(), b = rsite();
                spin A[2] = { R.below(2) ? UP : DOWN, R.below(2) ? UP : DOWN }, B[2] = { R.below(2) ? UP : DOWN, R.below(2) ? UP : DOWN };
                int ta, tb;
                pair(ta, tb);
                long long x, y;
                int sa, sb;
                if (ns == 2) {
                    sa = (int)A[0], sb = (int)B[0];
                    x = idx([&] { return m2.GetIndex(A[0], B[0], a, b, tm(ta), tm(tb)); });
                    y = idx([&] { return m2.GetIndex(A[0], B[0], a, b); });
                }
                else {
                    sa = 2 * (int)A[IN] + (int)A[OUT], sb = 2 * (int)B[IN] + (int)B[OUT];
                    x = idx([&] { return m4.GetIndex(A, B, a, b, tm(ta), tm(tb)); });
                    y = idx([&] { return m4.GetIndex(A, B, a, b); });
                }
                string h = "[" + to_string(sa) + "," + site(a) + "," + to_string(sb) + "," + site(b) + ",";
                sm.push_back(h + to_string(tb - ta) + "," + to_string(x) + "]");
                de.push_back(h + to_string(y) + "]");
            }
            Ev e("smooth");
            head(e, ns);
            Out << e.raw("rows", rows(sm)).str();
            Ev f("delta");
            head(f, ns);
            Out << f.raw("rows", rows(de)).str();
            vector<string> ta;
            for (int j = 0; j < 40; j++) {
                int a, b;
                pair(a, b);
                ta.push_back("[" + to_string(b - a) + "," + to_string(m->TauIndex(tm(a), tm(b))) + "," + to_string(m->TauIndex(tm(b) - tm(a))) + ","
                             + to_string(m->GetTauSymmetryFactor(tm(a), tm(b))) + "]");
            }
            Ev g("tau");
            head(g, ns);
            Out << g.raw("rows", rows(ta)).str();
            vector<long long> mt, mb;
            for (int b = 0; b < nt; b++) {
                mt.push_back(llround(m->IndexToTau(b) * 2 * nt / beta));
                mb.push_back(m->TauIndex(m->IndexToTau(b)));
            }
            Ev h("mid");
            head(h, ns);
            Out << h.l("t", mt).l("b", mb).str();
        }
        vector<string> vs;
        for (int j = 0; j < Lat.Vol && j < 40; j++) {
            Vec<int> v = rsite().Coordinate;
            int k = Lat.Vec2Index(v);
            vector<string> sh;
            for (int q = 0; q < 9; q++) {
                Vec<int> u = v;
                u[0] += (q % 3 - 1) * L[0];
                u[1] += (q / 3 - 1) * L[1];
                Lat.Shift(u);
                sh.push_back(vec(u));
            }
            vs.push_back("[" + vec(v) + "," + to_string(k) + "," + vec(Lat.Index2Vec(k)) + "," + rows(sh) + "]");
        }
        Ev e("vec");
        Out << e.raw("L", vec(L)).raw("rows", rows(vs)).str();
        for (int j = 0; j < 5; j++) {
            Vec<int> a, b;
            for (int i = 0; i < D; i++) {
                a[i] = R.range(-6, 6);
                b[i] = R.below(3) ? R.range(-6, 6) : a[i];
            }
            int n = R.range(-4, 4), s1 = R.below(2), s2 = R.below(3) ? s1 : R.below(2);
            Vec<int> p = a, q = a, back;
            p += b;
            q -= b;
            stringstream ss;
            ss << a;
            ss >> back;
            Ev o("ops");
            o.raw("a", vec(a)).raw("b", vec(b)).i("n", n).raw("add", vec(a + b)).raw("sub", vec(a - b)).raw("pe", vec(p)).raw("me", vec(q)).raw("mul", vec(a * n));
            o.b("eq", a == b).b("ne", a != b).i("s1", s1).i("s2", s2).b("seq", Site(s1, a) == Site(s2, b)).b("sne", Site(s1, a) != Site(s2, b)).raw("rt", vec(back));
            Out << o.str();
        }
    }
    Out << "{\"k\":\"end\"}\n";
    return 0;
}

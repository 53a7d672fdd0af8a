// Momentum and Complex arithmetic: arith OUT SEED N
#include "util.h"
#include "utility/momentum.h"
#include "utility/complex.h"
using namespace std;
static ofstream Out;
static const double S = 10000;

static string cx(const Complex& c)
{
    return "[" + to_string(fix(c.Re, S)) + "," + to_string(fix(c.Im, S)) + "]";
}
static string ci(int a, int b) { return "[" + to_string(a) + "," + to_string(b) + "]"; }

static void mom(const char* op, int a, int b, int r)
{
    Out << Ev("mom").s("op", op).i("a", a).i("b", b).i("r", r).str();
}
static void cpl(const char* op, int ar, int ai, int br, int bi, const Complex& r)
{
    Out << Ev("cpl").s("op", op).raw("a", ci(ar, ai)).raw("b", ci(br, bi)).raw("r", cx(r)).str();
}

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    Out.open(argv[1]);
    Rng R;
    R.s = strtoull(argv[2], 0, 10) * 7919 + 11;
    int N = atoi(argv[3]);
    quiet();
    vector<int> edge = { 0, 1, -1, 2, MAX_K, MAX_K - 1, -MAX_K, -MAX_K + 1, MAX_K / 2, -MAX_K / 2, MAX_K / 2 + 1 };
    auto draw = [&]() { return R.below(3) ? R.range(-MAX_K, MAX_K) : edge[R.below(edge.size())]; };
    for (int j = 0; j < N; j++) {
        int a, b;
        if (j < (int)(edge.size() * edge.size()))
            a = edge[j / edge.size()], b = edge[j % edge.size()];
        else
            a = draw(), b = draw();
        Momentum p(a), q(b);
        mom("mk", a, 0, p.K);
        mom("add", a, b, (p + q).K);
        mom("add", a, b, (p + b).K);
        mom("add", a, b, (a + q).K);
        mom("sub", a, b, (p - q).K);
        mom("sub", a, b, (p - b).K);
        mom("sub", a, b, (a - q).K);
        Momentum t = p;
        t += q;
        mom("add", a, b, t.K);
        t = p;
        t += b;
        mom("add", a, b, t.K);
        t = p;
        t -= q;
        mom("sub", a, b, t.K);
        t = p;
        t -= b;
        mom("sub", a, b, t.K);
        t = p;
        t += t;
        mom("add", a, a, t.K);
        t = p;
        t -= t;
        mom("sub", a, a, t.K);
        for (int s = -1; s <= 1; s++)
            mom("mul", s, a, (s * p).K);
        mom("eq", a, b, (p == q) + 2 * (p == b) + 4 * (a == q) + 8 * (p != q) + 16 * (p != b) + 32 * (a != q));
        t = p;
        mom("eq", a, a, (p == t) + 2 * (p == a) + 4 * (a == t) + 8 * (p != t) + 16 * (p != a) + 32 * (a != t));
        mom("index", a, 0, p.index());
        mom("abs", a, 0, p.abs());
        // any sum of two representable numbers
        int c = R.range(-2 * MAX_K, 2 * MAX_K);
        mom("mk", c, 0, Momentum(c).K);
        ostringstream os;
        os << p;
        istringstream is(os.str());
        Momentum u;
        is >> u;
        mom("mk", a, 0, u.K);
    }
    for (int j = 0; j < N; j++) {
        int m = j < N / 3 ? 2 : 40;
        int ar = R.range(-m, m), ai = R.range(-m, m), br = R.range(-m, m), bi = R.range(-m, m);
        Complex a(ar, ai), b(br, bi), t;
        real x = br, y = ar;
        cpl("add", ar, ai, br, bi, a + b);
        cpl("sub", ar, ai, br, bi, a - b);
        cpl("mul", ar, ai, br, bi, a * b);
        cpl("add", ar, ai, br, 0, a + x);
        cpl("add", ar, 0, br, bi, y + b);
        cpl("sub", ar, ai, br, 0, a - x);
        cpl("sub", ar, 0, br, bi, y - b);
        cpl("mul", ar, ai, br, 0, a * x);
        cpl("mul", ar, 0, br, bi, y * b);
        t = a;
        t += b;
        cpl("add", ar, ai, br, bi, t);
        t = a;
        t -= b;
        cpl("sub", ar, ai, br, bi, t);
        t = a;
        t *= b;
        cpl("mul", ar, ai, br, bi, t);
        t = a;
        t += x;
        cpl("add", ar, ai, br, 0, t);
        t = a;
        t -= x;
        cpl("sub", ar, ai, br, 0, t);
        t = a;
        t *= x;
        cpl("mul", ar, ai, br, 0, t);
        t = a;
        t += t;
        cpl("add", ar, ai, ar, ai, t);
        t = a;
        t -= t;
        cpl("sub", ar, ai, ar, ai, t);
        t = a;
        t *= t;
        cpl("mul", ar, ai, ar, ai, t);
        t = x;
        cpl("val", br, 0, 0, 0, t);
        cpl("val", ar, ai, 0, 0, Complex(a));
        cpl("val", ar, ai, 0, 0, +a);
        cpl("neg", ar, ai, 0, 0, -a);
        cpl("conj", ar, ai, 0, 0, conjugate(a));
        cpl("mod2", ar, ai, 0, 0, Complex(mod2(a)));
        // roots: the result is squared by the specification
        cpl("mod", ar, ai, 0, 0, Complex(mod(a)));
        cpl("sqrt", ar * ar - ai * ai, 2 * ar * ai, ar, ai, sqrt(Complex(ar * ar - ai * ai, 2 * ar * ai)));
        if (br || bi) {
            cpl("div", ar, ai, br, bi, a / b);
            t = a;
            t /= b;
            cpl("div", ar, ai, br, bi, t);
            t = b;
            t /= t;
            cpl("div", br, bi, br, bi, t);
            cpl("div", ar, 0, br, bi, y / b);
            // phase times modulus
            cpl("val", br, bi, 0, 0, phase(b) * mod(b));
            cpl("val", br, bi, 0, 0, polar(mod(b), arg(b)));
        }
        else
            cpl("val", 0, 0, 0, 0, phase(b));
        if (br) {
            cpl("div", ar, ai, br, 0, a / x);
            t = a;
            t /= x;
            cpl("div", ar, ai, br, 0, t);
        }
        if (m == 2) {
            for (int n = 0; n <= 4; n++) {
                cpl("pow", ar, ai, n, 0, pow(a, (real)n));
                cpl("pow", ar, ai, n, 0, pow(a, Complex(n, 0)));
            }
        }
        if (ar || ai) {
            // the argument in units of an eighth turn, where it is a whole number
            double u = arg(a) / (M_PI / 4);
            Out << Ev("arg").i("re", ar).i("im", ai).i("q", (long long)floor(u + 1e-9)).b("whole", fabs(u - round(u)) < 1e-9).str();
        }
        Out << Ev("zero").i("re", ar).i("im", ai).b("z", IsZero(a)).b("e", Equal(a, b)).b("e2", Equal(a, br, bi)).i("br", br).i("bi", bi).str();
        ostringstream os;
        os << a;
        istringstream is(os.str());
        is >> t;
        cpl("val", ar, ai, 0, 0, is.fail() ? Complex(99999, 99999) : t);
    }
    Out << "{\"k\":\"end\"}\n";
    return 0;
}

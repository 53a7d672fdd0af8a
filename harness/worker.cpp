// A whole worker: measuring, checkpoints, restarts, messages, reweighting.
//   worker OUT SEED STEPS
// in a directory with infile.txt, Weight.hkl and the basis files.
// spec/WorkerTrace.tla reads OUT.
#include "workerobs.h"
#include <sys/stat.h>
using namespace std;
static ofstream Out;
static Rng R;
static int InputLb, SavedLb;
static bool Saved, HavePara;
static bool exact(double f, int dlb)
{
    auto ok = [](double x) { return x == floor(x) && fabs(x) < (1 << 28); };
    bool r = true;
    for (int k = 0; k < (Env->Para.runGamma3 ? 4 : 2); k++) {
        Tab t = tab(k);
        r = r && ok(ldexp(t.n, -dlb * (k < 2 ? 2 : 3)) * U / f);
        for (auto& z : t.v)
            r = r && ok(z.Re * U / f) && ok(z.Im * U / f);
    }
    auto& M = Env->MarkovMonitor;
    auto e = [&](Estimator<real>& x) { r = r && ok(x.Value() * U / f) && ok(x.Norm() * U / f); };
    for (int i = 0; i < M.WormEstimator.HowMany(); i++)
        e(M.WormEstimator[i]), e(M.PhyEstimator[i]);
    e(M.SigmaEstimator), e(M.PolarEstimator), e(M.GammaGEstimator), e(M.GammaWEstimator);
    return r;
}
static void text(const string& f, const string& s)
{
    ofstream o(f);
    o << s;
}
static int BasisLb = 99;
// the basis files that go with a temperature (published with the weights)
static void basis(int lb)
{
    if (BasisLb == lb)
        return;
    BasisLb = lb;
    ostringstream o;
    o.precision(17);
    o << "{'Beta': " << beta(lb) << ", 'MaxTauBin': 4.0, 'Number': 2.0, 'Basis': [[1.0, 1.0, 1.0, 1.0], [0.5, 0.5, 0.5, 0.5]]}";
    text("FermiBasis.dat.txt", o.str());
    text("BoseBasis.dat.txt", o.str());
}
static string slurp(const string& f)
{
    ifstream i(f);
    stringstream s;
    s << i.rdbuf();
    return s.str();
}
static bool exists(const string& f) { return access(f.c_str(), F_OK) == 0; }
static Dictionary Base; // the weights last published
static string newWeights()
{
    uint64_t h = 7;
    // in place: the arrays belong to Base
    auto change = [&](Dictionary& d, const char* key) {
        Python::ArrayObject a = d.Get<Python::ArrayObject>(key);
        Complex* v = a.Data<Complex>();
        Complex ph[4] = { Complex(1, 0), Complex(0, 1), Complex(-1, 0), Complex(0, -1) };
        for (size_t i = 0; i < a.Size(); i++) {
            Complex m = ph[R.below(4)], z = v[i];
            v[i] = Complex(z.Re * m.Re - z.Im * m.Im + 0.0, z.Re * m.Im + z.Im * m.Re + 0.0);
        }
        h = hasharr(arr(a), h);
    };
    Dictionary N;
    Dictionary g = Base.Get<Dictionary>("G");
    change(g, "SmoothT");
    N["G"] = g;
    Dictionary w = Base.Get<Dictionary>("W");
    change(w, "SmoothT");
    change(w, "DeltaT");
    N["W"] = w;
    if (Env->Para.runGamma3) {
        Dictionary gg = Base.Get<Dictionary>("GGGammaG");
        change(gg, "SmoothT");
        N["GGGammaG"] = gg;
        Dictionary ww = Base.Get<Dictionary>("WWGammaW");
        change(ww, "SmoothT");
        N["WWGammaW"] = ww;
    }
    N.BigSave("Weight");
    return hex(h);
}
static string esc(const string& s)
{
    string o;
    for (char c : s)
        o += (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) ? '?' : c;
    return o.substr(0, 300);
}
static string seedrng()
{
    Dictionary d;
    d.Load("infile");
    RandomFactory F;
    F.Reset(d.Get<Dictionary>("Para").Get<Dictionary>("Markov").Get<int>("Seed"));
    string s = ToString(F);
    return hex(fnv(s.data(), s.size()));
}
// one long run from here, and what is there at the end
static void onward(int fd)
{
    try {
        for (int i = 0; i < 25; i++) {
            Env->Markov.Hop(7);
            Env->MarkovMonitor.Measure();
        }
        put(fd, obs());
    }
    catch (std::exception& e) {
        put(fd, "\"" + esc(e.what()) + "\"");
    }
}
static void setTo(Estimator<real>& e, double value, double norm)
{
    // raise the norm by as many samples as are missing, and the value to this
    int k = (int)ceil(norm - e.Norm());
    e.Measure(value - e.Value());
    for (int i = 1; i < k; i++)
        e.Measure(0.0);
}

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    Out.open(argv[1]);
    R.s = strtoull(argv[2], 0, 10) * 7919 + 23;
    int steps = atoi(argv[3]);
    quiet();
    Python::Initialize();
    Python::ArrayInitialize();
    Env = new EnvMonteCarlo(para::Job("infile"));
    Env->BuildNew();
    HavePara = true, Saved = false;
    InputLb = SavedLb = lg(Env->Para.Beta);
    BasisLb = InputLb;
    Base.BigLoad("Weight");
    bool g3 = Env->Para.runGamma3;
    const string PF = Env->Job.ParaFile + ".txt", SF = Env->Job.StatisticsFile + ".hkl";
    string wf = weights(); // hash of what the weight file holds, or "bad"
    int ups = 0, adjusts = 0;
    int mver = -1, mlb = 0, msq = 0; // the message, mver -1: none that can be read
    Out << Ev("new").s("seedrng", seedrng()).raw("o", obs()).str();
    auto failed = [&](const char* op, std::exception& e) {
        Out << Ev("fail").s("op", op).s("msg", e.what()).str() << "{\"k\":\"end\"}\n";
        Out.close();
        _exit(0);
    };
    auto message = [&](int ver, int lb, int sq) {
        para::Message m;
        m.Version = ver;
        m.Beta = beta(lb);
        m.SqueezeFactor = sq;
        rmdir("Message.txt");
        m.Save("Message");
        mver = ver, mlb = lb, msq = sq;
        Out << Ev("message").i("ver", ver).i("lb", lb).i("sq", lg(sq)).str();
    };
    for (int it = 0; it < steps; it++) {
        int op = R.below(100);
        auto& P = Env->Para;
        auto& M = Env->MarkovMonitor;
        if (op < 44) {
            int n = R.range(1, 40);
            try {
                if (R.below(3) != 0) {
                    // go on until the diagram is of some kind worth measuring
                    auto& d = Env->Diag;
                    bool worm = R.below(4) == 0, gline = R.below(2), ins = g3 && R.below(2);
                    int ord = std::min(R.below(P.Order + 1), R.below(P.Order + 1)), far = R.range(1, 4000);
                    auto there = [&]() { return (d.Worm.Exist && d.Order > 0) == worm && (worm || (d.Order == ord && d.MeasureGLine == gline && (d.HasGammaGW != 0) == ins)); };
                    for (n = 0; n < far && !there(); n++)
                        Env->Markov.Hop(1);
                }
                else
                    Env->Markov.Hop(n);
            }
            catch (std::exception& e) {
                failed("Hop", e);
            }
            Out << Ev("hop").i("n", n).raw("o", obs()).str();
        }
        else if (op < 74) {
            try {
                M.Measure();
            }
            catch (std::exception& e) {
                failed("Measure", e);
            }
            Out << Ev("measure").raw("o", obs()).str();
        }
        else if (op < 79) {
            if (g3) {
                bool f = true;
                for (auto& z : tab(3).v)
                    f = f && (float)z.Re == z.Re && (float)z.Im == z.Im;
                if (!f)
                    continue;
            }
            string a = slurp(PF) + slurp(SF);
            try {
                Env->Save();
            }
            catch (std::exception& e) {
                failed("Save", e);
            }
            bool wrote = a != slurp(PF) + slurp(SF);
            if (Env->Diag.HasGammaGW == 0)
                HavePara = Saved = true, SavedLb = lg(P.Beta);
            Out << Ev("save").b("wrote", wrote).raw("o", obs()).str();
        }
        else if (op < 83) {
            // another process takes over
            int lose = R.below(6);
            if (lose == 0)
                unlink(SF.c_str()), Saved = false;
            else if (lose == 1 && SavedLb == InputLb)
                unlink(PF.c_str()), HavePara = false;
            else if (lose == 2)
                unlink(PF.c_str()), unlink(SF.c_str()), HavePara = Saved = false;
            if (wf == "bad") {
                wf = newWeights();
                Out << Ev("weights").s("wt", wf).str();
            }
            if (!HavePara)
                SavedLb = InputLb;
            basis(SavedLb);
            try {
                Env = new EnvMonteCarlo(para::Job("infile"));
                Env->Load();
            }
            catch (std::exception& e) {
                failed("Load", e);
            }
            Out << Ev("restart").b("para", HavePara).b("statis", Saved).raw("o", obs()).str();
        }
        else if (op < 85) {
            // a run resumed from a checkpoint and one never interrupted
            if (Env->Diag.HasGammaGW != 0 || wf != weights())
                continue;
            if (g3) {
                bool f = true;
                for (auto& z : tab(3).v)
                    f = f && (float)z.Re == z.Re && (float)z.Im == z.Im;
                if (!f)
                    continue;
            }
            try {
                Env->Save();
            }
            catch (std::exception& e) {
                failed("Save", e);
            }
            HavePara = Saved = true;
            SavedLb = lg(P.Beta);
            Out << Ev("save").b("wrote", true).raw("o", obs()).str();
            basis(SavedLb);
            string a, b;
            inChild([&](int fd) { onward(fd); }, a);
            inChild([&](int fd) {
                try {
                    Env = new EnvMonteCarlo(para::Job("infile"));
                    Env->Load();
                    onward(fd);
                }
                catch (std::exception& e) {
                    put(fd, "\"" + esc(e.what()) + "\"");
                }
            },
                b);
            if (a.empty())
                a = "\"died\"";
            if (b.empty())
                b = "\"died too\"";
            Out << Ev("resume").b("same", a == b).raw("a", a).raw("b", b).str();
        }
        else if (op < 91) {
            // what the other side publishes
            int what = R.below(12);
            if (what == 0) {
                unlink("Message.txt"), rmdir("Message.txt");
                mver = -1;
                Out << Ev("message").i("ver", -1).i("lb", 0).i("sq", 0).str();
            }
            else if (what == 1) {
                // there, but nobody can read it
                unlink("Message.txt"), rmdir("Message.txt");
                mkdir("Message.txt", 0755);
                mver = -1;
                Out << Ev("message").i("ver", -1).i("lb", 0).i("sq", 0).str();
            }
            else if (what == 2 || what == 3) {
                if (what == 2)
                    unlink("Weight.hkl");
                else
                    text("Weight.hkl", "not weights");
                wf = "bad";
                Out << Ev("weights").s("wt", wf).str();
            }
            else {
                if (what > 5) {
                    wf = newWeights();
                    Out << Ev("weights").s("wt", wf).str();
                }
                int lb = lg(P.Beta) + R.range(-1, 1);
                if (lb > lg(P.Beta) && ups >= 3)
                    lb = lg(P.Beta);
                lb = std::max(-2, std::min(3, lb));
                message(std::max(0, P.Version + R.range(-1, 2)), lb, 1 << R.below(3));
            }
        }
        else if (op < 97) {
            if (g3 && Env->Diag.HasGammaGW != 0 && R.below(4) != 0) {
                int n = 0;
                try {
                    for (; n < 4000 && Env->Diag.HasGammaGW != 0; n++)
                        Env->Markov.Hop(1);
                }
                catch (std::exception& e) {
                    failed("Hop", e);
                }
                Out << Ev("hop").i("n", n).raw("o", obs()).str();
            }
            if (mver > P.Version) {
                // keep what follows exact
                int d = mlb - lg(P.Beta);
                if (!exact(msq, d) || (d > 0 && ups + d > 3) || abs(d) > 2)
                    message(mver, lg(P.Beta), 1);
                basis(mlb);
            }
            int lb0 = lg(P.Beta);
            bool ret = false;
            try {
                ret = Env->ListenToMessage();
            }
            catch (std::exception& e) {
                failed("ListenToMessage", e);
            }
            if (lg(P.Beta) > lb0)
                ups += lg(P.Beta) - lb0;
            Out << Ev("listen").b("ret", ret).raw("o", obs()).str();
        }
        else if (op < 98) {
            // reweighting with numbers of samples such as a run has, in a process of its own
            string r;
            vector<int> worm, phy, sec;
            int o = P.Order;
            bool enough = R.below(4) != 0;
            auto n = [&](bool must) { return enough || !must ? R.range(999, 2800) : R.below(3) ? R.range(997, 1001) : R.below(2800); };
            for (int i = 0; i <= o; i++) {
                phy.push_back(n(true));
                worm.push_back(i == 0 ? 0 : R.below(4) ? R.range(1, 2800) : 0);
            }
            if (R.below(8) == 0)
                fill(worm.begin(), worm.end(), 0);
            sec.push_back(enough || R.below(4) ? R.range(300, 2800) : 0);
            for (int i = 1; i < 4; i++)
                sec.push_back(n(true));
            if (!enough && R.below(2)) {
                // everything there but one
                for (auto& x : phy)
                    x = R.range(999, 2800);
                for (int i = 0; i < 4; i++)
                    sec[i] = R.range(999, 2800);
                int j = R.below(o + 5);
                (j <= o ? phy[j] : sec[j - o - 1]) = j == o + 1 ? 0 : 998;
            }
            inChild([&](int fd) {
                auto fill = [&](Estimator<real>& e, int k) {
                    e.ClearStatistics();
                    for (int i = 0; i < k; i++)
                        e.Measure(1.0);
                };
                for (int i = 0; i <= o; i++)
                    fill(M.WormEstimator[i], worm[i]), fill(M.PhyEstimator[i], phy[i]);
                fill(M.SigmaEstimator, sec[0]), fill(M.PolarEstimator, sec[1]), fill(M.GammaGEstimator, sec[2]), fill(M.GammaWEstimator, sec[3]);
                try {
                    Env->AdjustOrderReWeight();
                }
                catch (std::exception& e) {
                    _exit(5);
                }
                vector<long long> f;
                for (int i = 0; i <= o; i++)
                    f.push_back(fix(P.OrderReWeight[i], 8192));
                double x[4] = { P.WormSpaceReweight, P.PolarReweight, P.GammaGReweight, P.GammaWReweight };
                for (int i = 0; i < 4; i++)
                    f.push_back(fix(x[i], 8192));
                Ev e("x");
                put(fd, e.l("f", f).str());
            },
                r);
            size_t a = r.find("[");
            string f = a == string::npos ? "[]" : r.substr(a, r.find("]") + 1 - a);
            Out << Ev("adjustx").l("worm", worm).l("phy", phy).l("sec", sec).raw("f", f).str();
        }
        else {
            // counters at round numbers, so that the factors stay powers of two
            if (adjusts < 2 && R.below(3)) {
                int o = P.Order, c = R.range(9, 11);
                // worm and physical counts of every order: their totals' ratio is a power of two
                vector<int> w(o + 1, 1), p(o + 1, 1);
                w[0] = 0;
                p[0] = 1 << R.below(2);
                int how = R.below(3);
                if (how == 1 && o == 2)
                    w[1 + R.below(2)] = 0; // 1:2
                else if (how == 1 && o == 3)
                    w[1] = w[2] = 0, p[2] = 2; // 1:4
                else if (how >= 1 && o == 4)
                    w[1] = w[3] = 0; // 2:4
                bool all = R.below(3) != 0;
                int missing = all ? -1 : R.below(o + 1);
                for (int i = 0; i <= o; i++) {
                    setTo(M.WormEstimator[i], ldexp(w[i], c), 0);
                    setTo(M.PhyEstimator[i], ldexp(p[i], c), i == missing ? 0 : 1000);
                }
                setTo(M.SigmaEstimator, ldexp(1 << R.below(2), c), 0);
                setTo(M.PolarEstimator, ldexp(1 << R.below(2), c), 1000);
                if (g3) {
                    setTo(M.GammaGEstimator, ldexp(1 << R.below(2), c), 1000);
                    setTo(M.GammaWEstimator, ldexp(1 << R.below(2), c), 1000);
                }
                adjusts++;
                Out << Ev("preset").raw("o", obs()).str();
            }
            else {
                // enough samples, but not round numbers
                bool enough = M.PolarEstimator.Norm() >= 1000;
                for (int i = 0; i <= P.Order; i++)
                    enough = enough && M.PhyEstimator[i].Norm() >= 1000;
                if (enough)
                    continue;
            }
            try {
                Env->AdjustOrderReWeight();
            }
            catch (std::exception& e) {
                failed("AdjustOrderReWeight", e);
            }
            Out << Ev("adjust").raw("o", obs()).str();
        }
        Out.flush();
    }
    Out << "{\"k\":\"end\"}\n";
    Out.close();
    _exit(0);
}

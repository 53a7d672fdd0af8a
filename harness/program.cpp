// The whole program: its main(), on a clock of the driver's own.
//   program OUT SEED SESSIONS
// in a directory with infile.txt, Weight.hkl, the basis files and an IO.py that
// can be told to send a signal.  spec/ProgramTrace.tla reads OUT.
#include "workerobs.h"
#include "utility/abort.h"
#include "utility/timer.h"
#include <sys/stat.h>
#include <signal.h>
#include <regex>
#include <sys/time.h>
#include <time.h>
#include <sys/syscall.h>
using namespace std;
namespace verif_drv {
static long long Now = 1700000000LL;
static void look();
}
extern "C" time_t time(time_t* t)
{
    if (t)
        *t = verif_drv::Now;
    verif_drv::look();
    return verif_drv::Now;
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (c != CLOCK_REALTIME)
        return syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = verif_drv::Now;
    ts->tv_nsec = 0;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*)
{
    tv->tv_sec = verif_drv::Now;
    tv->tv_usec = 0;
    return 0;
}
namespace verif_drv {
static int Fd = -1; // where a session's events go; -1: no session
static Rng R;
struct Plan {
    int ticks, sig, arm, broken, msgs;
    string where;
};
static Plan P;
static bool Ready, Busy;
static int Ticks, Cnt0, MaxVer;
static long long LastM;
static int LastCnt;
static bool Armed;
static string Msg = "{\"have\":false}";
struct VEnv : public EnvMonteCarlo {
    VEnv(const para::Job& j, bool s = false)
        : EnvMonteCarlo(j, s)
    {
        Env = this;
    }
    void ready();
    bool BuildNew()
    {
        bool r = EnvMonteCarlo::BuildNew();
        ready();
        return r;
    }
    bool Load()
    {
        bool r = EnvMonteCarlo::Load();
        ready();
        return r;
    }
};
static void text(const string& f, const string& s)
{
    ofstream o(f);
    o << s;
}
static string slurp(const string& f)
{
    ifstream i(f);
    stringstream s;
    s << i.rdbuf();
    return s.str();
}
static const double MU = 64;
static double sum(EstimatorBundle<real>& b)
{
    double s = 0;
    for (int i = 0; i < b.HowMany(); i++)
        s += b[i].Norm();
    return s;
}
static long long measured() { return fix(sum(Env->MarkovMonitor.WormEstimator) + sum(Env->MarkovMonitor.PhyEstimator), MU); }
static string stamp(const string& f)
{
    struct stat s;
    if (stat(f.c_str(), &s))
        return "";
    return to_string(s.st_ino) + "/" + to_string(s.st_size) + "/" + to_string(s.st_mtim.tv_sec) + "/" + to_string(s.st_mtim.tv_nsec);
}
// what the checkpoint holds
static string files(const string& prefix)
{
    static string pst = "?", sst = "?", po, so;
    string p = stamp(prefix + "_MC_para.txt"), s = stamp(prefix + "_MC_statis.hkl");
    if (p != pst) {
        pst = p;
        po = "{\"have\":false}";
        if (p != "")
            try {
                Dictionary d;
                d.Load(prefix + "_MC_para");
                Dictionary q = d.Get<Dictionary>("Para");
                po = "{\"have\":true,\"cnt\":" + to_string(q.Get<Dictionary>("Markov").Get<int>("Counter")) + ",\"ver\":" + to_string(q.Get<int>("Version")) + "}";
            }
            catch (std::exception& e) {
                po = "{\"have\":true,\"cnt\":-1,\"ver\":-1}";
            }
    }
    if (s != sst) {
        sst = s;
        so = "{\"have\":false}";
        if (s != "")
            try {
                Dictionary d;
                d.BigLoad(prefix + "_MC_statis");
                double m = 0;
                for (auto name : { "WormEstimator", "PhyEstimator" }) {
                    Dictionary b = d.Get<Dictionary>(name);
                    for (int i = 0; b.HasKey("Order" + ToString(i)); i++)
                        m += b.Get<Dictionary>("Order" + ToString(i)).Get<real>("Norm");
                }
                so = "{\"have\":true,\"m\":" + to_string(fix(m, MU)) + "}";
            }
            catch (std::exception& e) {
                so = "{\"have\":true,\"m\":-1}";
            }
    }
    return "\"p\":" + po + ",\"s\":" + so;
}
static string Prefix;
static string state()
{
    auto& Q = Env->Para;
    auto& M = Env->MarkovMonitor;
    uint64_t h = 7;
    auto f = [&](double d) { h = fnv(&d, sizeof d, h); };
    for (int i = 0; i <= Q.Order; i++)
        f(Q.OrderReWeight[i]);
    f(Q.WormSpaceReweight), f(Q.PolarReweight), f(Q.GammaGReweight), f(Q.GammaWReweight);
    ostringstream o;
    o << "\"now\":" << Now - 1700000000LL << ",\"cnt\":" << Q.Counter << ",\"m\":" << measured() << ",\"ver\":" << Q.Version << ",\"ins\":" << (Env->Diag.HasGammaGW != 0 ? "true" : "false")
      << ",\"fac\":\"" << hex(h) << "\",\"worm\":";
    double w = 0;
    for (int i = 1; i <= Q.Order; i++)
        w += M.WormEstimator[i].Value();
    o << (w > 0 ? 1 : 0) << ",\"phy\":[";
    for (int i = 0; i <= Q.Order; i++)
        o << (i ? "," : "") << fix(M.PhyEstimator[i].Norm(), MU);
    // full: enough samples and not empty, of each measuring sector
    o << "],\"sec\":[";
    Estimator<real>* e[4] = { &M.SigmaEstimator, &M.PolarEstimator, &M.GammaGEstimator, &M.GammaWEstimator };
    for (int i = 0; i < (Q.runGamma3 ? 4 : 2); i++)
        o << (i ? "," : "") << "[" << (e[i]->Value() > 0 ? 1 : 0) << "," << fix(e[i]->Norm(), MU) << "]";
    o << "]," << files(Prefix) << ",\"msg\":" << Msg;
    return o.str();
}
// make the diagram's weight another one than it should be
static void spoil()
{
    auto& d = Env->Diag;
    Complex w(1.0, 0.0);
    if (d.Order == 0)
        w = weight::Norm::Weight();
    else {
        for (int i = 0; i < d.G.HowMany(); i++)
            w *= d.G(i)->Weight;
        for (int i = 0; i < d.W.HowMany(); i++)
            w *= d.W(i)->Weight;
        w *= d.SignFermiLoop * (d.Order % 2 ? -1.0 : 1.0);
    }
    d.Weight = w + Complex(16.0, 0.0);
}
static int Squeezes;
static void publish()
{
    int ver = R.below(4) ? ++MaxVer : R.range(0, MaxVer);
    int sq = R.below(3) == 0 && Squeezes < 5 ? 2 : 1;
    Squeezes += sq == 2;
    ostringstream o;
    o.precision(17);
    o << "{'Beta': " << Env->Para.Beta << ", 'Version': " << ver << ", 'SqueezeFactor': " << sq << ".0}";
    text("Message.txt", o.str());
    Msg = "{\"have\":true,\"ver\":" + to_string(ver) + ",\"sq\":" + to_string(sq) + "}";
}
static void enough()
{
    auto& M = Env->MarkovMonitor;
    auto fill = [&](Estimator<real>& e, bool one) {
        do
            e.Measure(1.0);
        while (one && e.Norm() < 1000.0);
    };
    for (int i = 0; i < M.PhyEstimator.HowMany(); i++)
        fill(M.PhyEstimator[i], true), fill(M.WormEstimator[i], false);
    fill(M.SigmaEstimator, true), fill(M.PolarEstimator, true);
    if (Env->Para.runGamma3)
        fill(M.GammaGEstimator, true), fill(M.GammaWEstimator, true);
}
static void tick()
{
    Ticks++;
    string came = "\"cnt0\":" + to_string(Env->Para.Counter) + ",\"m0\":" + to_string(measured());
    // insertions can stay for long
    if (Env->Diag.HasGammaGW != 0 && R.below(3) != 0)
        for (int i = 0; i < 30000 && Env->Diag.HasGammaGW != 0; i++)
            Env->Markov.Hop(1);
    Now += R.below(6) == 0 ? R.range(2, 9) : R.below(3);
    if (R.below(100) < P.msgs)
        publish();
    if (R.below(6) == 0)
        enough();
    LastM = measured();
    bool broken = P.broken && Ticks >= P.broken, sig = P.sig && Ticks == P.ticks, cut = !P.sig && Ticks == P.ticks;
    if (broken)
        spoil();
    if (P.arm && Ticks == P.ticks / 2) {
        text("arm", P.where + " " + to_string(P.arm));
        Armed = true;
    }
    put(Fd, "{\"k\":\"tick\"," + came + "," + state() + ",\"broken\":" + (broken ? "true" : "false") + ",\"sig\":" + to_string(sig ? P.sig : 0) + ",\"cut\":" + (cut ? "true" : "false") + ",\"arm\":" + to_string(Armed ? P.arm : 0) + "}\n");
    if (sig)
        raise(P.sig);
    if (cut)
        _exit(77);
}
static void look()
{
    if (Fd < 0 || !Ready || Busy)
        return;
    Busy = true;
    long long m = measured();
    int c = Env->Para.Counter;
    if (c == LastCnt)
        LastM = m;
    else {
        if (m != LastM)
            tick();
        LastCnt = Env->Para.Counter;
        LastM = measured();
    }
    Busy = false;
}
void VEnv::ready()
{
    Busy = true;
    put(Fd, "{\"k\":\"ready\"," + state() + "}\n");
    Busy = false;
    LastCnt = Para.Counter;
    LastM = measured();
    Ready = true;
}
}
#define EnvMonteCarlo verif_drv::VEnv
#define main program_main
#include "main.cpp"
#undef main
#undef EnvMonteCarlo

namespace verif_drv {
template <class A> static int call(int (*f)(int, A), int n, const char** v) { return f(n, (A)v); }
static int call(int (*f)(), int, const char**) { return f(); }
static string sub(string s, const string& key, const string& val)
{
    return regex_replace(s, regex("'" + key + "': [^,}\\]]+"), "'" + key + "': " + val);
}
static int drive(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    ofstream Out(argv[1]);
    R.s = strtoull(argv[2], 0, 10) * 7919 + 31;
    int sessions = atoi(argv[3]);
    quiet();
    string base = slurp("infile.txt");
    mkdir("infile", 0755);
    int pid = R.range(0, 3);
    bool first = true;
    int maxver = 0, squeezes = 0;
    const char* sigs[2] = { "2", "15" };
    const char* wheres[4] = { "before-para", "after-para", "before-statis", "after-statis" };
    int ti[4] = { 0 }, toss = R.range(0, 40), sweep = R.range(1, 4);
    for (int i = 0; i < 4; i++)
        ti[i] = R.range(0, 6);
    for (int n = 0; n < sessions; n++) {
        bool load = !first && R.below(4) != 0;
        if (R.below(8) == 0)
            load = true;
        string kind = "run", flag = R.below(2) ? (R.below(2) ? "-p" : "--PID") : (R.below(2) ? "-f" : "--file"), type = "MC";
        if (R.below(10) == 0) {
            kind = "no";
            int x = R.below(5);
            if (x == 0)
                flag = "-x";
            else if (x == 1)
                type = "DiagCount";
            else if (x == 2)
                type = "DYSON";
            else if (x == 3)
                flag = "";
            else
                flag = "--pid";
        }
        if (!load && kind == "run") {
            // a checkpoint goes on with its own
            squeezes = 0;
            toss = R.below(3) ? R.range(0, 40) : 0, sweep = R.range(1, 4);
            for (int i = 0; i < 4; i++)
                ti[i] = R.range(0, 6);
        }
        string in = base;
        in = sub(in, "DoesLoad", load ? "True" : "False");
        in = sub(in, "Toss", to_string(toss));
        in = sub(in, "Sweep", to_string(sweep));
        in = sub(in, "PID", to_string(pid));
        in = sub(in, "Type", "'" + type + "'");
        const char* tn[4] = { "PrinterTimer", "DiskWriterTimer", "MessageTimer", "ReweightTimer" };
        for (int i = 0; i < 4; i++)
            in = sub(in, tn[i], to_string(ti[i]));
        int file = pid;
        text("infile/_in_MC_" + to_string(file) + ".txt", in);
        text("other.txt", in);
        P = Plan();
        P.ticks = R.range(2, 12);
        P.msgs = R.below(3) * 20;
        int end = R.below(5);
        if (end == 0 || end == 1)
            P.sig = R.below(2) ? SIGINT : SIGTERM;
        else if (end == 2 || end == 3) {
            P.arm = R.below(2) ? SIGINT : SIGTERM;
            P.where = wheres[R.below(4)];
            P.ticks += 6;
        }
        else if (R.below(2)) {
            P.broken = R.range(1, 4);
            P.ticks += 6;
        }
        P.ticks = std::max(P.ticks, 2);
        Out << Ev("run").s("what", kind).s("flag", flag).b("load", load).i("toss", toss).i("sweep", sweep).l("ti", vector<int>(ti, ti + 4)).str();
        unlink("arm");
        Prefix = to_string(pid);
        // what the next session starts from
        R.next();
        string ev, fin;
        int rc = inChild([&](int fd) {
            Fd = fd;
            MaxVer = maxver;
            Squeezes = squeezes;
            Msg = slurp("msg.json");
            if (Msg == "")
                Msg = "{\"have\":false}";
            string a1 = flag, a2 = flag[1] == 'p' || flag == "--PID" || flag == "--pid" ? to_string(file) : "other";
            const char* av[4] = { "program", a1.c_str(), a2.c_str(), 0 };
            int rc = call(program_main, flag == "" ? 1 : 3, av);
            _exit(rc);
        }, ev, 60);
        Out << ev;
        R.s = R.next() ^ (uint64_t)ev.size();
        // the last message published
        size_t at = ev.rfind("\"msg\":");
        if (at != string::npos) {
            size_t e = ev.find('}', at);
            text("msg.json", ev.substr(at + 6, e - at - 5));
            size_t from = 0;
            while ((from = ev.find("\"msg\":{\"have\":true,\"ver\":", from)) != string::npos)
                from += 25, maxver = std::max(maxver, atoi(ev.c_str() + from));
            size_t q = 0;
            string lastq;
            while ((q = ev.find("\"sq\":2", q)) != string::npos)
                q += 6, squeezes++; // at least as many as there were
        }
        inChild([&](int fd) {
            Python::Initialize();
            Python::ArrayInitialize();
            put(fd, files(Prefix));
        }, fin);
        Out << "{\"k\":\"exit\",\"rc\":" << rc << "," << fin << "}\n";
        Out.flush();
        if (ev.find("\"k\":\"ready\"") != string::npos)
            first = false;
    }
    Out << "{\"k\":\"end\"}\n";
    return 0;
}
}
int main(int argc, char** argv) { return verif_drv::drive(argc, argv); }

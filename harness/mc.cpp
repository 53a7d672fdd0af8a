// Drives the real mc::Markov updates and records what they do.
//   mc INFILE OUT SEED STEPS AVAIL HOPS
// One line of OUT per event; spec/DiagramTrace.tla reads it.
#include "shim.h"
#include "mcstate.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <functional>
#include <poll.h>
using namespace std;

struct Rng {
    uint64_t s;
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    int below(int n) { return (next() >> 20) % n; }
};

static EnvMonteCarlo* Env;
static ofstream Out;

struct Res {
    int status; // 0 returned, 1 threw, 2 crashed
    vector<uint32_t> draws;
    string state; // structure
    string extra;
    string key; // masked structure
    long long dcount;
};

typedef std::function<void()> Fn;
static map<string, string> RefTimes;

static void wr(int fd, const void* p, size_t n)
{
    const char* c = (const char*)p;
    while (n) {
        ssize_t k = write(fd, c, n);
        if (k <= 0)
            _exit(9);
        c += k;
        n -= k;
    }
}
static bool rd(int fd, void* p, size_t n)
{
    char* c = (char*)p;
    while (n) {
        ssize_t k = read(fd, c, n);
        if (k <= 0)
            return false;
        c += k;
        n -= k;
    }
    return true;
}
static void wrs(int fd, const string& s)
{
    uint32_t n = s.size();
    wr(fd, &n, 4);
    wr(fd, s.data(), n);
}
static bool rds(int fd, string& s)
{
    uint32_t n;
    if (!rd(fd, &n, 4))
        return false;
    s.resize(n);
    return n == 0 || rd(fd, &s[0], n);
}

static void beginLog(const vector<uint32_t>& script)
{
    verif::drawn.clear();
    verif::scripted = script;
    verif::scriptpos = 0;
    verif::logging = true;
}

// run fn in a child with the scripted draws first, then draws from `seed`
static Res probe(const Fn& fn, const vector<uint32_t>& script, int seed, bool needKey = false, bool needX = true)
{
    int p[2];
    if (pipe(p))
        exit(3);
    pid_t pid = fork();
    if (pid < 0)
        exit(3);
    if (pid == 0) {
        close(p[0]);
        alarm(20);
        int st = 0;
        string msg, state, extra, key;
        long long c0 = Env->Para.Counter;
        Env->Para.RNG.Reset(seed);
        beginLog(script);
        try {
            fn();
        }
        catch (std::exception& e) {
            st = 1;
            msg = e.what();
        }
        verif::logging = false;
        vs::Proj P(Env->Diag, Env->Para.Beta);
        if (st == 0) {
            state = P.structure();
            if (needX)
                extra = P.extras();
            if (needKey)
                key = P.structure(true, &RefTimes);
        }
        else
            state = msg;
        wr(p[1], &st, 4);
        uint32_t n = verif::drawn.size();
        wr(p[1], &n, 4);
        wr(p[1], verif::drawn.data(), 4 * n);
        wrs(p[1], state);
        wrs(p[1], extra);
        wrs(p[1], key);
        long long dc = Env->Para.Counter - c0;
        wr(p[1], &dc, 8);
        _exit(0);
    }
    close(p[1]);
    Res r;
    r.status = 2;
    r.dcount = 0;
    uint32_t n;
    int st;
    if (rd(p[0], &st, 4) && rd(p[0], &n, 4)) {
        r.draws.resize(n);
        if ((n == 0 || rd(p[0], r.draws.data(), 4 * n)) && rds(p[0], r.state) && rds(p[0], r.extra)
            && rds(p[0], r.key) && rd(p[0], &r.dcount, 8))
            r.status = st;
    }
    close(p[0]);
    int ws;
    waitpid(pid, &ws, 0);
    return r;
}

static const uint32_t LOW = 0x80000000u, HIGH = 0x7fffffffu;
static const uint32_t LO[] = { LOW + 1, LOW + 2, LOW + 4, LOW + 6, LOW + 9 };
static const uint32_t HI[] = { HIGH, HIGH - 1, HIGH - 3, HIGH - 5, HIGH - 8 };
static string cur, curx;

struct Try {
    bool cand;            // a candidate was seen
    Res c;                // the run that reaches it
    vector<uint32_t> sc;  // draws that reach it
    bool measured;        // the acceptance draw was identified
    int thr;              // threshold in 2^-20, if asked for
    Res bad;              // a crash or exception
    bool failed;
    int ndraw;
};

static Try attempt(const Fn& fn, int seed, bool wantThr, const vector<uint32_t>& script0 = {}, bool key = false)
{
    Try t;
    t.cand = t.measured = t.failed = false;
    t.thr = -1;
    Res r = probe(fn, script0, seed, key);
    t.ndraw = r.draws.size();
    if (r.status) {
        t.failed = true;
        t.bad = r;
        return t;
    }
    size_t fixed = script0.size();
    if (r.draws.size() <= fixed) {
        if (r.state != cur) {
            t.cand = true;
            t.c = r;
            t.sc = r.draws;
            t.thr = 1 << 20;
        }
        return t;
    }
    // is the last draw the acceptance draw?
    vector<uint32_t> s = r.draws;
    bool acc = true;
    Res first;
    int nlo = 3;
    for (int i = 0; i < nlo && acc; i++) {
        s.back() = LO[i];
        Res x = probe(fn, s, seed, key, i == 0);
        if (x.status) {
            t.failed = true;
            t.bad = x;
            return t;
        }
        if (i == 0)
            first = x;
        if (x.draws.size() != s.size() || x.state == cur || x.state != first.state)
            acc = false;
    }
    for (int i = 0; i < nlo && acc; i++) {
        s.back() = HI[i];
        Res x = probe(fn, s, seed, false, false);
        if (x.status) {
            t.failed = true;
            t.bad = x;
            return t;
        }
        if (x.draws.size() != s.size() || x.state != cur)
            acc = false;
    }
    if (acc) {
        t.cand = t.measured = true;
        t.c = first;
        t.sc = s;
        t.sc.back() = LO[0];
        if (wantThr) {
            // largest raw value (as int) still accepted
            long long lo = -2147483647LL, hi = 2147483647LL;
            // to one part in 2^10
            while (hi - lo > 1024 && hi - lo > ((lo + 2147483648LL) >> 11)) {
                long long mid = (lo + hi) / 2;
                s.back() = (uint32_t)(int32_t)mid;
                Res x = probe(fn, s, seed, false, false);
                if (x.status == 0 && x.state != cur)
                    lo = mid;
                else
                    hi = mid;
            }
            t.thr = (int)(((lo + hi) / 2 + 2147483648LL) >> 12);
        }
    }
    else if (r.state != cur) {
        t.cand = true;
        t.c = r;
        t.sc = r.draws;
        t.thr = 1 << 20;
    }
    return t;
}

// as attempt(), but only after a candidate (no threshold), in few runs
static Try quick(const Fn& fn, int seed, const vector<uint32_t>& script0 = {})
{
    Try t;
    t.cand = t.measured = t.failed = false;
    t.thr = -1;
    Res r = probe(fn, script0, seed, true, false);
    t.ndraw = r.draws.size();
    if (r.status) {
        t.failed = true;
        t.bad = r;
        return t;
    }
    if (r.state != cur) {
        t.cand = true;
        t.c = r;
        return t;
    }
    if (r.draws.size() <= script0.size())
        return t;
    vector<uint32_t> s = r.draws;
    s.back() = LO[0];
    Res x = probe(fn, s, seed, true, false);
    if (x.status) {
        t.failed = true;
        t.bad = x;
        return t;
    }
    if (x.draws.size() != s.size() || x.state == cur)
        return t;
    s.back() = LO[1];
    Res y = probe(fn, s, seed, false, false);
    if (y.draws.size() == s.size() && y.state == x.state) {
        t.cand = true;
        t.c = x;
    }
    return t;
}

static void commit(const Fn& fn, const vector<uint32_t>& sc)
{
    beginLog(sc);
    fn();
    verif::logging = false;
}
static void snap()
{
    vs::Proj P(Env->Diag, Env->Para.Beta);
    cur = P.structure();
    curx = P.extras();
    RefTimes = P.times();
    if (Env->Diag.HasGammaGW != 0)
        RefTimes["u"] = vs::tcode(Env->Diag.UExt.Tau, Env->Para.Beta);
}
static string esc(const string& s)
{
    string o;
    for (char c : s)
        if (c == '"' || c == '\\')
            o += "'";
        else if ((unsigned char)c < 32)
            o += " ";
        else
            o += c;
    return o.substr(0, 300);
}
// what the code itself says about the current diagram: 1 valid, 0 invalid
static int selfcheck()
{
    pid_t pid = fork();
    if (pid == 0) {
        alarm(20);
        int ok = 0;
        try {
            ok = Env->Diag.CheckDiagram() ? 1 : 0;
        }
        catch (std::exception& e) {
            ok = 0;
        }
        _exit(ok ? 11 : 12);
    }
    int ws;
    waitpid(pid, &ws, 0);
    return WIFEXITED(ws) && WEXITSTATUS(ws) == 11 ? 1 : 0;
}

// one thing the diagram stores, made different; false if there is no such thing here
static const int NSPOIL = 30;
static bool spoil(int what, Rng& R)
{
    diag::Diagram& d = Env->Diag;
    int n = d.Order, dir = R.below(2);
    if (n == 0)
        return false;
    diag::gLine g = d.G(R.below(d.G.HowMany())), g2 = d.G(R.below(d.G.HowMany()));
    diag::wLine w = d.W(R.below(d.W.HowMany())), w2 = d.W(R.below(d.W.HowMany()));
    diag::vertex v = d.Ver(R.below(d.Ver.HowMany())), v2 = d.Ver(R.below(d.Ver.HowMany()));
    if (d.Worm.Exist && R.below(3) == 0)
        w = R.below(2) ? d.Worm.Ira->nW : d.Worm.Masha->nW;
    auto other = [&](Complex c) {
        Complex f[] = { Complex(2, 0), Complex(0.5, 0), Complex(-1, 0), Complex(0, 1), Complex(0, -1), Complex(0, 0) };
        return c * f[R.below(6)];
    };
    auto newk = [&](Momentum k) {
        int x = R.below(3) ? R.below(2 * MAX_K + 1) - MAX_K : k.K + (R.below(2) ? 1 : -1);
        return Momentum(x > MAX_K ? MAX_K - 1 : x < -MAX_K ? 1 - MAX_K : x == 0 ? 1 : x);
    };
    double grid = Env->Para.Beta / 34359738368.0;
    auto shift = [&](double t) {
        double x = t + (R.below(2) ? 1 : -1) * grid * pow(2.0, R.below(34));
        return x < 0 || x >= Env->Para.Beta ? (t >= grid ? t - grid : t + grid) : x;
    };
    switch (what) {
    case 0:
        g->nVer[dir] = v;
        return true;
    case 1:
        w->nVer[dir] = R.below(2) ? v : w->nVer[1 - dir];
        return true;
    case 2:
        v->nG[dir] = R.below(2) ? g : v->nG[1 - dir];
        return true;
    case 3:
        v->nW = w2;
        return true;
    case 4:
        v->Dir = 1 - v->Dir;
        return true;
    case 5:
        d.Order += R.below(2) && n > 1 ? -1 : 1;
        return true;
    case 6:
        g->IsMeasure = !g->IsMeasure;
        return true;
    case 7:
        w->IsMeasure = !w->IsMeasure;
        return true;
    case 8:
        if (!d.MeasureGLine)
            return false;
        d.GMeasure = g;
        return true;
    case 9:
        if (d.MeasureGLine)
            return false;
        d.WMeasure = w2;
        return true;
    case 10:
        d.MeasureGLine = !d.MeasureGLine;
        return true;
    case 11:
        w->IsWorm = !w->IsWorm;
        return true;
    case 12:
        d.Worm.Exist = !d.Worm.Exist;
        return true;
    case 13:
        if (!d.Worm.Exist)
            return false;
        d.Worm.Ira = v;
        return true;
    case 14:
        if (!d.Worm.Exist)
            return false;
        d.Worm.Masha = v;
        return true;
    case 15:
        if (!d.Worm.Exist)
            return false;
        d.Worm.K = newk(d.Worm.K);
        return true;
    case 16:
    case 17:
        // an end of an instantaneous line a little later, or a lot
        for (int i = 0; i < d.W.HowMany(); i++)
            if (d.W(i)->IsDelta && (R.below(2) || i + 1 == d.W.HowMany())) {
                diag::vertex x = d.W(i)->nVer[dir];
                x->Tau = what == 16 ? (x->Tau >= grid ? x->Tau - grid : x->Tau + grid) : shift(x->Tau);
                return true;
            }
        return false;
    case 18:
        w->IsDelta = !w->IsDelta;
        return true;
    case 19:
        g->K = newk(g->K);
        return true;
    case 20:
        w->K = newk(w->K);
        return true;
    case 21:
        v->_spin[dir] = spin(1 - (int)v->_spin[dir]);
        return true;
    case 22:
        g->Weight = other(g->Weight);
        return true;
    case 23:
        w->Weight = other(w->Weight);
        return true;
    case 24:
        d.Weight = other(d.Weight);
        return true;
    case 25:
        v->Tau = shift(v->Tau);
        return true;
    case 26:
        if (R.below(2))
            v->R.Sublattice = R.below(Env->Para.NSublat);
        else
            v->R.Coordinate[dir] = R.below(Env->Para.Lat.Size[dir]);
        return true;
    case 27:
        d.SignFermiLoop = -d.SignFermiLoop;
        return true;
    case 28: {
        // a component that is not part of the diagram any more
        if (d.Ver.HowMany() >= 2 * MAX_ORDER)
            return false;
        diag::vertex x = d.Ver.Add();
        d.Ver.Remove(x);
        if (R.below(2))
            g->nVer[dir] = x;
        else
            w->nVer[dir] = x;
        return true;
    }
    default:
        return true; // nothing
    }
}
// the code's own verdict on a diagram of which one thing has been changed
static void corrupt(int what, int seed)
{
    int p[2];
    if (pipe(p))
        exit(3);
    pid_t pid = fork();
    if (pid < 0)
        exit(3);
    if (pid == 0) {
        close(p[0]);
        alarm(20);
        Rng R;
        R.s = seed;
        if (!spoil(what, R))
            _exit(10);
        vs::Proj P(Env->Diag, Env->Para.Beta);
        wrs(p[1], P.structure());
        wrs(p[1], P.extras());
        int ok = 0;
        try {
            ok = Env->Diag.CheckDiagram() ? 1 : 0;
        }
        catch (std::exception& e) {
            ok = 0;
        }
        _exit(ok ? 11 : 12);
    }
    close(p[1]);
    string st, x;
    bool have = rds(p[0], st) && rds(p[0], x);
    close(p[0]);
    int ws;
    waitpid(pid, &ws, 0);
    if (have)
        Out << "{\"k\":\"spoil\",\"what\":" << what << ",\"st\":" << st << ",\"x\":" << x << ",\"chk\":"
            << (WIFEXITED(ws) && WEXITSTATUS(ws) == 11 ? 1 : 0) << "}\n";
}

// a coarse class of diagrams, to visit all of them
static string classOf(const string& S)
{
    int ord = atoi(S.c_str() + S.find("\"ord\":") + 6);
    size_t m = S.find("\"meas\":\"");
    string c = ord == 0 ? "0" : ord == 1 ? "1" : ord >= Env->Para.Order ? "max" : "mid";
    c += S.find("\"worm\":{\"e\":true") != string::npos ? 'w' : 'p';
    c += S[m + 8];
    c += S[S.find("\"ins\":") + 6];
    return c;
}

int main(int argc, char** argv)
{
    if (argc < 7)
        return 3;
    string infile = argv[1];
    Out.open(argv[2]);
    Rng R;
    R.s = strtoull(argv[3], 0, 10) * 7919 + 17;
    int steps = atoi(argv[4]), avail = atoi(argv[5]), hops = atoi(argv[6]);
    int lim = argc > 7 ? atoi(argv[7]) : 1000000;
    bool wantThr = argc > 8 ? atoi(argv[8]) : true;
    int dn = open("driver.log", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(dn, 1);
    dup2(dn, 2);
    Python::Initialize();
    Python::ArrayInitialize();
    try {
        Env = new EnvMonteCarlo(para::Job(infile));
        Env->BuildNew();
    }
    catch (std::exception& e) {
        Out << "{\"k\":\"fail\",\"op\":\"BuildNew\",\"msg\":\"" << esc(e.what()) << "\"}" << endl;
        return 0;
    }
    auto& M = Env->Markov;
    vector<pair<string, Fn> > ops = {
        { "CreateWorm", [&] { M.CreateWorm(); } }, { "DeleteWorm", [&] { M.DeleteWorm(); } },
        { "MoveWormOnG", [&] { M.MoveWormOnG(); } }, { "MoveWormOnW", [&] { M.MoveWormOnW(); } },
        { "Reconnect", [&] { M.Reconnect(); } }, { "AddInteraction", [&] { M.AddInteraction(); } },
        { "DeleteInteraction", [&] { M.DeleteInteraction(); } },
        { "AddDeltaInteraction", [&] { M.AddDeltaInteraction(); } },
        { "DeleteDeltaInteraction", [&] { M.DeleteDeltaInteraction(); } },
        { "ChangeTauOnVertex", [&] { M.ChangeTauOnVertex(); } }, { "ChangeRLoop", [&] { M.ChangeRLoop(); } },
        { "ChangeMeasureFromGToW", [&] { M.ChangeMeasureFromGToW(); } },
        { "ChangeMeasureFromWToG", [&] { M.ChangeMeasureFromWToG(); } },
        { "ChangeDeltaToContinuous", [&] { M.ChangeDeltaToContinuous(); } },
        { "ChangeContinuousToDelta", [&] { M.ChangeContinuousToDelta(); } },
        { "JumpToOrder0", [&] { M.JumpToOrder0(); } }, { "JumpBackToOrder1", [&] { M.JumpBackToOrder1(); } }
    };
    if (Env->Para.runGamma3) {
        ops.push_back({ "JumpToGGGammaG", [&] { M.JumpToGGGammaG(); } });
        ops.push_back({ "JumpFromGGGammaGToG", [&] { M.JumpFromGGGammaGToG(); } });
        ops.push_back({ "JumpToWWGammaW", [&] { M.JumpToWWGammaW(); } });
        ops.push_back({ "JumpFromWWGammaWToW", [&] { M.JumpFromWWGammaWToW(); } });
    }
    int nslot = Env->Para.runGamma3 ? 23 : 19;
    { ifstream f("/proc/self/status"); string l; while (getline(f, l)) if (l.substr(0,2)=="Vm"||l.substr(0,3)=="Rss") cerr << l << endl; }
    snap();
    Out << "{\"k\":\"init\",\"s\":{\"st\":" << cur << ",\"x\":" << curx << "},\"chk\":" << selfcheck() << "}\n";
    // give every component of the pools a name that survives a reload
    auto pool = [&]() {
        vector<vector<string> > o(3);
        vs::Proj P(Env->Diag, Env->Para.Beta);
        for (int i = 0; i < Env->Diag.Ver.HowMany(); i++)
            o[0].push_back(P.v(Env->Diag.Ver(i)));
        for (int i = 0; i < Env->Diag.G.HowMany(); i++)
            o[1].push_back(P.g(Env->Diag.G(i)));
        for (int i = 0; i < Env->Diag.W.HowMany(); i++)
            o[2].push_back(P.w(Env->Diag.W(i)));
        return o;
    };
    // something that must leave the diagram as it is
    auto same = [&](const char* kind, const char* how, const string& prev, const vector<vector<string> >& a, bool ret) {
        vector<vector<string> > b = pool();
        snap();
        Out << "{\"k\":\"" << kind << "\",\"op\":\"" << how << "\",\"ret\":" << (ret ? "true" : "false");
        if (prev.size())
            Out << ",\"prev\":" << prev;
        Out << ",\"m\":{\"none\":\"none\"";
        for (int k = 0; k < 3; k++)
            for (size_t i = 0; i < a[k].size(); i++)
                Out << ",\"" << a[k][i] << "\":\"" << (i < b[k].size() ? b[k][i] : "lost") << "\"";
        Out << "},\"chk\":" << selfcheck() << ",\"s\":{\"st\":" << cur << ",\"x\":" << curx << "}}\n";
    };
    int annealAt = access("Message2.txt", R_OK) == 0 ? steps / 2 : 1 << 30;
    int nev = 0;
    map<string, int> done;  // effective events per op, to favour the rare ones
    map<string, int> inclass, visits, swept;
    int sweeps = argc > 9 ? atoi(argv[9]) : 1;
    int spoils = argc > 10 ? atoi(argv[10]) : 0;
    map<string, int> av;
    int hopdone = 0;
    set<string> dead; // updates that cannot start from the current diagram
    int availEvery = avail > 0 ? max(1, steps / avail) : 1 << 30, hopEvery = hops > 0 ? max(1, steps / hops) : 1 << 30;
    for (long long it = 0; nev < steps && it < 400LL * steps; it++) {
        if (Env->Diag.HasGammaGW == 0 && R.below(150) == 0) {
            vector<vector<string> > a = pool();
            bool reload = R.below(2);
            try {
                if (reload) {
                    Dictionary dict = Env->Diag.ToDict();
                    Env->Diag.FromDict(dict, Env->Para.Lat, *Env->Weight.G, *Env->Weight.W);
                }
                else
                    Env->Diag.Reset(Env->Para.Lat, *Env->Weight.G, *Env->Weight.W);
            }
            catch (std::exception& e) {
                Out << "{\"k\":\"fail\",\"op\":\"" << (reload ? "reload" : "reset") << "\",\"msg\":\"" << esc(e.what()) << "\"}\n";
                return 0;
            }
            same("same", reload ? "reload" : "reset", "", a, true);
            dead.clear();
        }
        if (nev >= annealAt && Env->Diag.HasGammaGW == 0) {
            // a new temperature and new weights are published; the rest goes to a second recording
            annealAt = 1 << 30;
            double beta2 = Env->Para.Beta;
            {
                Dictionary m;
                m.Load("Message2");
                beta2 = m.Get<real>("Beta");
            }
            // when the temperature goes up the times are contracted with it
            string prev = vs::Proj(Env->Diag, std::max((double)Env->Para.Beta, beta2)).structure();
            vector<vector<string> > a = pool();
            for (const char* n : { "Message", "FermiBasis.dat", "BoseBasis.dat" })
                if (rename((string(n) + "2.txt").c_str(), (string(n) + ".txt").c_str()))
                    return 3;
            if (rename("Weight2.hkl", "Weight.hkl"))
                return 3;
            Out << "{\"k\":\"end\"}\n";
            Out.close();
            Out.open(string(argv[2]) + ".2");
            bool ret = false;
            try {
                ret = Env->ListenToMessage();
            }
            catch (std::exception& e) {
                Out << "{\"k\":\"fail\",\"op\":\"anneal\",\"msg\":\"" << esc(e.what()) << "\"}\n";
                return 0;
            }
            same("anneal", "anneal", prev, a, ret);
            dead.clear();
        }
        if (sweeps && swept[classOf(cur)]++ < sweeps * (Env->Diag.HasGammaGW ? 2 : 1)) {
            // every update, offered in this kind of diagram
            for (auto& o : ops)
                for (int j = 0; j < 2; j++) {
                    Try t = attempt(o.second, 1 + R.below(1 << 30), wantThr);
                    if (t.failed) {
                        Out << "{\"k\":\"fail\",\"op\":\"" << o.first << "\",\"msg\":\"" << (t.bad.status == 2 ? "crash" : esc(t.bad.state))
                            << "\"}\n";
                        Out.flush();
                        return 0;
                    }
                    if (t.cand) {
                        Out << "{\"k\":\"op\",\"op\":\"" << o.first << "\",\"c\":{\"st\":" << t.c.state << ",\"x\":" << t.c.extra << "},\"thr\":" << t.thr
                            << ",\"acc\":false,\"chk\":-1,\"dc\":" << t.c.dcount << "}\n";
                        if (Env->Diag.HasGammaGW == 0)
                            break;
                    }
                    else if (t.ndraw == 0)
                        break;
                }
        }
        // pick an update: mostly one that has been seen little
        int best = R.below(ops.size());
        const string cls = classOf(cur);
        int how = R.below(6);
        if (how) {
            for (int j = 0; j < 3; j++) {
                int o = R.below(ops.size());
                if (how < 4 ? done[ops[o].first] < done[ops[best].first]
                            : inclass[cls + ops[o].first] < inclass[cls + ops[best].first])
                    best = o;
            }
        }
        const string& name = ops[best].first;
        if (dead.count(name))
            continue;
        const Fn& fn = ops[best].second;
        // do not stay in the order-0 or worm sector for ever
        int seed = 1 + R.below(1 << 30);
        inclass[cls + name]++;
        Try t = attempt(fn, seed, wantThr);
        if (t.failed) {
            Out << "{\"k\":\"fail\",\"op\":\"" << name << "\",\"msg\":\"" << (t.bad.status == 2 ? "crash" : esc(t.bad.state))
                << "\"}\n";
            Out.flush();
            return 0;
        }
        if (!t.cand) {
            if (t.ndraw == 0)
                dead.insert(name);
            continue;
        }
        nev++;
        done[name]++;
        // take it with probability 1/2 or as the chain itself would
        bool acc = t.thr >= (1 << 20) || (t.thr >= 0 && R.below(1 << 20) < t.thr) || R.below(wantThr ? 2 : 4) != 0;
        // but rather towards diagrams of a kind seen little
        string ncls = classOf(t.c.state);
        bool rare = false;
        if (ncls != cls) {
            if (visits[ncls] > visits[cls])
                acc = R.below(8) == 0;
            else
                rare = acc = R.below(8) != 0;
        }
        // keep the size in check
        if (!rare && Env->Diag.Order >= lim && (name == "AddInteraction" || name == "AddDeltaInteraction"))
            acc = R.below(4) == 0;
        visits[acc ? ncls : cls]++;
        int chk = -1;
        if (acc) {
            // the committed run must be the one that was probed
            Env->Para.RNG.Reset(seed);
            commit(fn, t.sc);
            snap();
            dead.clear();
            if (cur != t.c.state) {
                Out << "{\"k\":\"fail\",\"op\":\"" << name << "\",\"msg\":\"same draws, different result\"}\n";
                return 0;
            }
            chk = selfcheck();
        }
        Out << "{\"k\":\"op\",\"op\":\"" << name << "\",\"c\":{\"st\":" << t.c.state << ",\"x\":" << t.c.extra << "},\"thr\":" << t.thr
            << ",\"acc\":" << (acc ? "true" : "false") << ",\"chk\":" << chk << ",\"dc\":" << t.c.dcount << "}\n";

        for (int j = 0; acc && j < spoils; j++)
            corrupt(R.below(NSPOIL), R.below(1 << 30));
        if (nev % availEvery == 0) {
            // how often each discrete choice of one update is proposed
            int b = R.below(ops.size());
            for (int j = 0; j < 60; j++) {
                int o = R.below(ops.size());
                Res r = probe(ops[o].second, {}, 1 + R.below(1 << 30));
                if (r.draws.size() == 0 || r.status)
                    continue;
                if (av[ops[o].first] <= av[ops[b].first] || j > 40) {
                    b = o;
                    break;
                }
            }
            av[ops[b].first]++;
            const int K = 400;
            map<string, pair<int, Res> > seen;
            int th[8] = { 0 }, kh[8] = { 0 }, tn = 0, kn = 0;
            bool bad = false;
            for (int j = 0; j < K && !bad; j++) {
                Try a = quick(ops[b].second, 1 + R.below(1 << 30));
                if (a.failed) {
                    Out << "{\"k\":\"fail\",\"op\":\"" << ops[b].first << "\",\"msg\":\"crash or exception\"}\n";
                    Out.flush();
                    return 0;
                }
                if (!a.cand)
                    continue;
                auto& e = seen[a.c.key];
                if (e.first++ == 0)
                    e.second = a.c;
                // fresh times and momenta, from the JSON of the candidate
                size_t pos = 0;
                set<string> newv;
                const string& S = a.c.state;
                while ((pos = S.find("\"t\":[", pos)) != string::npos) {
                    // the vertex record this time belongs to
                    size_t e2 = S.find(']', pos);
                    string tt = S.substr(pos + 4, e2 - pos - 3);
                    bool old = false;
                    for (auto& kv : RefTimes)
                        if (kv.second == tt)
                            old = true;
                    if (!old && tt != "[0,0]" && newv.insert(tt).second) {
                        th[atoi(tt.c_str() + 1) >> 13 & 7]++;
                        tn++;
                    }
                    pos = e2;
                }
                string nm = ops[b].first;
                int k = 99999;
                if (nm == "CreateWorm") {
                    size_t x = S.find("\"worm\":");
                    x = S.find("\"k\":", x);
                    k = atoi(S.c_str() + x + 4);
                }
                else if (nm == "AddInteraction" || nm == "AddDeltaInteraction") {
                    size_t a0 = S.find("\"w\":{", S.find("\"g\":{"));
                    size_t a1 = S.find("},\"worm\"");
                    size_t x = a0 + 5;
                    while (x < a1 && (x = S.find("\"w", x)) != string::npos && x < a1) {
                        size_t y = S.find('"', x + 1);
                        string wid = S.substr(x, y - x + 1);
                        if (cur.find(wid + ":{\"i\"") == string::npos) {
                            size_t z = S.find("\"k\":", y);
                            k = atoi(S.c_str() + z + 4);
                        }
                        x = S.find('}', y);
                    }
                }
                if (k != 99999) {
                    int bn = (int)((k + MAX_K) * 8LL / (2 * MAX_K + 1));
                    kh[bn < 0 ? 0 : bn > 7 ? 7 : bn]++;
                    kn++;
                }
            }
            Out << "{\"k\":\"avail\",\"op\":\"" << ops[b].first << "\",\"n\":" << K << ",\"c\":[";
            bool f = true;
            for (auto& e : seen) {
                Out << (f ? "" : ",") << "{\"n\":" << e.second.first << ",\"st\":" << e.second.second.state << "}";
                f = false;
            }
            Out << "],\"gk\":[" << (R.below(2 * MAX_K) - MAX_K) << "," << (R.below(2 * MAX_K) - MAX_K) << "],\"tn\":" << tn << ",\"th\":[";
            for (int j = 0; j < 8; j++)
                Out << (j ? "," : "") << th[j];
            Out << "],\"kn\":" << kn << ",\"kh\":[";
            for (int j = 0; j < 8; j++)
                Out << (j ? "," : "") << kh[j];
            Out << "]}\n";
        }
        if (nev % hopEvery == 0) {
            // what one step of the chain does, as a function of its first draw
            // which may pick by interval, or by remainder
            bool modulo = false;
            for (int j = 0; j < 40 && !modulo; j++) {
                int seed = 1 + R.below(1 << 30);
                uint32_t raw = (uint32_t)(int32_t)(((R.below(nslot) + 0.5) / nslot - 0.5) * 4294967296.0);
                Try a = quick([&] { M.Hop(1); }, seed, { raw }), b = quick([&] { M.Hop(1); }, seed, { raw + 1 });
                if (!a.failed && !b.failed)
                    modulo = a.cand != b.cand || a.ndraw != b.ndraw || (a.cand && a.c.key != b.c.key);
            }
            Out << "{\"k\":\"hop\",\"slots\":[";
            long long badc = 0;
            for (int sl = 0; sl < nslot; sl++) {
                Out << (sl ? "," : "") << "[";
                for (int sub = 0; sub < 3; sub++) {
                    double x = (sl + (sub == 0 ? 0.02 : sub == 1 ? 0.5 : 0.98)) / nslot;
                    uint32_t raw = (uint32_t)(int32_t)((x - 0.5) * 4294967296.0);
                    if (modulo)
                        raw = sl + nslot * (1 + R.below(4294967296LL / nslot - 2));
                    map<string, string> seen;
                    for (int j = 0; j < 5; j++) {
                        Try a = quick([&] { M.Hop(1); }, 1 + R.below(1 << 30), { raw });
                        if (a.failed) {
                            Out << "]]}\n{\"k\":\"fail\",\"op\":\"Hop\",\"msg\":\"crash or exception\"}\n";
                            Out.flush();
                            return 0;
                        }
                        if (a.cand) {
                            seen[a.c.key] = a.c.state;
                            if (a.c.dcount != 1)
                                badc++;
                        }
                    }
                    Out << (sub ? "," : "") << "[";
                    bool f = true;
                    int lim2 = 3;
                    for (auto& e : seen) {
                        if (lim2-- == 0)
                            break;
                        Out << (f ? "" : ",") << e.second;
                        f = false;
                    }
                    Out << "]";
                }
                Out << "]";
            }
            long long c0 = Env->Para.Counter;
            Res r = probe([&] { M.Hop(57); }, {}, 1 + R.below(1 << 30));
            Out << "],\"badc\":" << badc << ",\"gk\":[" << (R.below(2 * MAX_K) - MAX_K) << "," << (R.below(2 * MAX_K) - MAX_K) << "],\"c57\":" << r.dcount << ",\"st57\":" << r.status << "}\n";
            (void)c0;
        }
    }
    for (auto& v : visits)
        cerr << "class " << v.first << " " << v.second << endl;
    Out << "{\"k\":\"end\"}\n";
    Out.close();
    _exit(0);
}

// Lets the real chain run and counts which kinds of physical diagrams it is seen in.
//   sampling OUT INFILE SEED RUNS LOOKS GAP FINE
// RUNS independent runs of LOOKS looks, GAP hops apart; one event per kind of diagram.
#include "shim.h"
#include "mcstate.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
using namespace std;

// order, measuring line (0 propagator, 1 interaction), fermion loops, instantaneous lines, insertion,
// lines that exchange spin, lines between two sites
typedef vector<int> Kind;
static Kind kindOf(diag::Diagram& d, bool fine)
{
    Kind k(7, 0);
    k[0] = d.Order;
    k[1] = d.MeasureGLine ? 0 : 1;
    if (d.Order == 0)
        return k;
    set<diag::vertex> seen;
    for (int i = 0; i < d.Ver.HowMany(); i++)
        if (!seen.count(d.Ver(i))) {
            k[2]++;
            for (diag::vertex v = d.Ver(i); seen.insert(v).second;)
                v = v->NeighG(OUT)->NeighVer(OUT);
        }
    k[4] = d.HasGammaGW;
    for (int i = 0; i < d.W.HowMany(); i++) {
        diag::wLine w = d.W(i);
        k[3] += w->IsDelta;
        if (fine) {
            k[5] += w->NeighVer(IN)->Spin(IN) != w->NeighVer(IN)->Spin(OUT);
            k[6] += w->NeighVer(IN)->R != w->NeighVer(OUT)->R;
        }
    }
    return k;
}

// where its parts are: every free time, momentum and spin (and, if weights allow, site) is as likely as any other
static void lookAt(diag::Diagram& d, const EnvMonteCarlo& env, map<Kind, long long>& n)
{
    double beta = env.Para.Beta;
    auto add = [&n](int what, int bin) { Kind k(3); k[0] = -1; k[1] = what; k[2] = bin; n[k]++; };
    auto eighth = [](double x) { return x < 0 ? -1 : (int)floor(x * 8); };
    for (int i = 0; i < d.Ver.HowMany(); i++) {
        diag::vertex v = d.Ver(i);
        add(0, eighth(v->Tau / beta));
        add(1, v->R.Sublattice * 100 + v->R.Coordinate[0] * 10 + v->R.Coordinate[1]);
        add(2, v->Spin(OUT));
    }
    for (int i = 0; i < d.G.HowMany(); i++)
        add(3, eighth((d.G(i)->K.K + MAX_K + 0.5) / (2.0 * MAX_K + 1)));
    for (int i = 0; i < d.W.HowMany(); i++)
        add(4, eighth((d.W(i)->K.K + MAX_K + 0.5) / (2.0 * MAX_K + 1)));
    for (int i = 0; i < d.W.HowMany(); i++) {
        double dt = (d.W(i)->NeighVer(IN)->Tau - d.W(i)->NeighVer(OUT)->Tau) / beta;
        if (!d.W(i)->IsDelta)
            add(5, eighth(dt - floor(dt)));
    }
    if (d.HasGammaGW) {
        add(6, eighth(d.UExt.Tau / beta));
        add(7, d.UExt.R.Sublattice * 100 + d.UExt.R.Coordinate[0] * 10 + d.UExt.R.Coordinate[1]);
    }
}

int main(int argc, char** argv)
{
    if (argc < 8)
        return 3;
    string infile = argv[2];
    ofstream Out(argv[1]);
    int seed = atoi(argv[3]), runs = atoi(argv[4]);
    long long looks = atoll(argv[5]);
    int gap = atoi(argv[6]);
    bool fine = atoi(argv[7]);
    int dn = open("driver.log", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(dn, 1);
    dup2(dn, 2);
    Python::Initialize();
    Python::ArrayInitialize();
    EnvMonteCarlo* Env = new EnvMonteCarlo(para::Job(infile));
    Env->BuildNew();
    vector<int> fd(runs);
    vector<pid_t> pids(runs);
    for (int r = 0; r < runs; r++) {
        int p[2];
        if (pipe(p))
            return 3;
        pids[r] = fork();
        if (pids[r] == 0) {
            close(p[0]);
            alarm(600);
            Env->Para.RNG.Reset(seed * 1000 + r + 1);
            map<Kind, long long> n;
            Env->Markov.Hop(20000);
            for (long long i = 0; i < looks; i++) {
                Env->Markov.Hop(gap);
                if (!Env->Diag.Worm.Exist) {
                    n[kindOf(Env->Diag, fine)]++;
                    if (Env->Diag.Order)
                        lookAt(Env->Diag, *Env, n);
                }
            }
            string s;
            for (auto& e : n) {
                s += to_string(e.first.size()) + " ";
                for (int x : e.first)
                    s += to_string(x) + " ";
                s += to_string(e.second) + "\n";
            }
            s += "end\n";
            if (write(p[1], s.data(), s.size()) != (ssize_t)s.size())
                _exit(1);
            _exit(0);
        }
        close(p[1]);
        fd[r] = p[0];
    }
    map<Kind, vector<long long> > all;
    bool good = true;
    for (int r = 0; r < runs; r++) {
        string s;
        char b[65536];
        ssize_t k;
        while ((k = read(fd[r], b, sizeof b)) > 0)
            s.append(b, k);
        int ws;
        waitpid(pids[r], &ws, 0);
        if (s.size() < 4 || s.substr(s.size() - 4) != "end\n")
            good = false;
        stringstream f(s);
        string l;
        while (getline(f, l) && l != "end") {
            stringstream g(l);
            size_t len;
            g >> len;
            Kind k(len);
            for (int& x : k)
                g >> x;
            long long n;
            g >> n;
            auto& v = all[k];
            v.resize(runs);
            v[r] = n;
        }
    }
    if (!good)
        return 1;
    for (auto& e : all) {
        if (e.first[0] == -1)
            Out << "{\"k\":\"place\",\"what\":" << e.first[1] << ",\"bin\":" << e.first[2];
        else {
            Out << "{\"k\":\"seen\",\"kind\":[";
            for (int i = 0; i < 7; i++)
                Out << (i ? "," : "") << e.first[i];
            Out << "]";
        }
        Out << ",\"n\":[";
        for (int r = 0; r < runs; r++)
            Out << (r ? "," : "") << e.second[r];
        Out << "]}\n";
    }
    Out << "{\"k\":\"total\",\"looks\":" << looks << ",\"runs\":" << runs << "}\n{\"k\":\"end\"}" << endl;
    _exit(0);
}

// Drives RandomFactory: rngd OUT SEED STEPS
#include "util.h"
#include "utility/rng.h"
#include "engine_ctl.h"
using namespace std;
string ToString(const RandomFactory& rng);

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    ofstream Out(argv[1]);
    Rng R;
    R.s = strtoull(argv[2], 0, 10) * 7919 + 7;
    int steps = atoi(argv[3]);
    quiet();
    const int NG = 4, NS = 3;
    vector<RandomFactory> G(NG, RandomFactory(1));
    vector<string> saved(NS);
    vector<int> seeds = { 0, 1, -1, 2, 17, 2147483647, -2147483647, R.range(-1000000, 1000000) };
    for (int j = 0; j < NG; j++) {
        int sd = seeds[R.below(seeds.size())];
        G[j].Reset(sd);
        Out << Ev("seed").i("g", j).i("v", sd).str();
    }
    // what the next draw is going to be, so that equal histories are compared often
    vector<pair<int, pair<int, int> > > menu;
    for (int j = 0; j < 6; j++) {
        int a = R.range(-6, 6);
        menu.push_back({ j % 2, { a, a + R.below(9) } });
    }
    vector<int> pos(NG, 0);
    vector<int> spos(NS, 0);
    for (int j = 0; j < steps; j++) {
        int g = R.below(NG), c = R.below(40);
        if (c == 0) {
            int sd = seeds[R.below(seeds.size())];
            if (R.below(2))
                G[g].Reset(sd);
            else
                G[g] = RandomFactory(sd);
            pos[g] = 0;
            Out << Ev("seed").i("g", g).i("v", sd).str();
        }
        else if (c < 3) {
            int s = R.below(NS);
            if (R.below(2)) {
                ostringstream os;
                os << G[g];
                saved[s] = os.str();
            }
            else
                saved[s] = ToString(G[g]);
            spos[s] = pos[g];
            Out << Ev("save").i("g", g).i("s", s).str();
        }
        else if (c == 6) {
            // a copy of a generator is a generator in the same state
            int h = R.below(NG);
            if (h == g)
                continue;
            G[h] = G[g];
            pos[h] = pos[g];
            Out << Ev("save").i("g", g).i("s", NS).str();
            Out << Ev("load").i("g", h).i("s", NS).str();
        }
        else if (c < 6) {
            int s = R.below(NS);
            if (saved[s].empty())
                continue;
            int how = R.below(3);
            if (how == 0)
                G[g].Reset(saved[s]);
            else if (how == 1) {
                istringstream is(saved[s]);
                is >> G[g];
            }
            else
                G[g] = RandomFactory(saved[s]);
            pos[g] = spos[s];
            Out << Ev("load").i("g", g).i("s", s).str();
        }
        else {
            // a run of draws, chosen by how many have been taken
            int len = 1 + R.below(6);
            for (int q = 0; q < len; q++) {
                auto& m = menu[pos[g] * 7 % menu.size()];
                pos[g]++;
                if (m.first == 0) {
                    double v = G[g].urn() * 4294967296.0;
                    double f = floor(v);
                    long long h = (long long)floor(f / 65536.0);
                    Out << Ev("urn").i("g", g).i("h", h).i("l", (long long)(f - h * 65536.0)).str();
                }
                else {
                    int v = G[g].irn(m.second.first, m.second.second);
                    Out << Ev("irn").i("g", g).i("a", m.second.first).i("b", m.second.second).i("v", v).str();
                }
            }
        }
    }
    // extreme draws of the engine, the engine's output being prescribed
    RandomFactory E(3);
    uint32_t raws[] = { 0, 1, 2, 3, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 12345, 0xdeadbeefu };
    for (uint32_t r : raws) {
        double v = 0;
        if (!script(r, [&] { v = E.urn() * 4294967296.0; }))
            continue;
        double f = floor(v);
        long long h = (long long)floor(f / 65536.0);
        Out << Ev("edge").i("h", h).i("l", (long long)(f - h * 65536.0)).str();
        int rs[][2] = { { 0, 0 }, { 0, 1 }, { -3, 3 }, { -10000, 10000 }, { 0, 2147483647 }, { -2147483647 - 1, -1 },
                        { -2147483647 - 1, 2147483647 }, { 2147483640, 2147483647 }, { 5, 7 } };
        for (auto& ab : rs) {
            string o;
            int st = inChild([&](int fd) {
                long long x = 0;
                script(r, [&] { x = E.irn(ab[0], ab[1]); });
                put(fd, to_string(x));
            }, o);
            Ev e("iedge");
            e.i("a", ab[0]).i("b", ab[1]).i("st", st).i("v", st == 0 ? atoll(o.c_str()) : 0);
            Out << e.str();
        }
    }
    // every value of a small interval turns up
    for (int w = 1; w <= 12; w++) {
        int a = R.range(-20, 20);
        vector<int> cnt(w, 0);
        int out = 0;
        const int n = 1200;
        for (int j = 0; j < n; j++) {
            int v = E.irn(a, a + w - 1) - a;
            if (v < 0 || v >= w)
                out++;
            else
                cnt[v]++;
        }
        Out << Ev("reach").i("w", w).i("n", n).i("out", out).l("cnt", cnt).str();
    }
    vector<int> cnt(16, 0);
    int out = 0;
    for (int j = 0; j < 16000; j++) {
        int v = (int)floor(E.urn() * 16);
        if (v < 0 || v > 15)
            out++;
        else
            cnt[v]++;
    }
    Out << Ev("reach").i("w", 16).i("n", 16000).i("out", out).l("cnt", cnt).str();
    Out << "{\"k\":\"end\"}\n";
    return 0;
}

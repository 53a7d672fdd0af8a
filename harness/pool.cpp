// Drives diag::Bundle<T>: pool OUT SEED STEPS
#include "util.h"
#include "module/diagram/component_bundle.h"
#include "utility/rng.h"
using namespace std;
using namespace diag;

static ofstream Out;

template <typename T>
struct Mark;
template <>
struct Mark<GLine> {
    static void set(GLine* x, int m) { x->K.K = m; }
    static int get(GLine* x) { return x->K.K; }
};
template <>
struct Mark<WLine> {
    static void set(WLine* x, int m) { x->K.K = m; }
    static int get(WLine* x) { return x->K.K; }
};
template <>
struct Mark<Vertex> {
    static void set(Vertex* x, int m) { x->Tau = m; }
    static int get(Vertex* x) { return (int)x->Tau; }
};

template <typename T>
void drive(const char* kind, Rng& R, int steps)
{
    Bundle<T> B(kind);
    vector<T*> ids; // every component ever handed out
    auto idOf = [&](T* p) -> int {
        for (size_t j = 0; j < ids.size(); j++)
            if (ids[j] == p)
                return j;
        ids.push_back(p);
        return ids.size() - 1;
    };
    T foreign;
    foreign.Name = 0;
    Mark<T>::set(&foreign, 4242);
    RandomFactory rng(R.below(1 << 30));
    int mark = 0, grow = 1;
    string lastop = "none";
    int lastrun = 0;
    auto look = [&](Ev& e) {
        int n = B.HowMany();
        vector<int> live, names, marks, ex;
        for (int j = 0; j < n && j < 64; j++) {
            T* p = B(j);
            live.push_back(idOf(p));
            names.push_back(p->Name);
            marks.push_back(Mark<T>::get(p));
        }
        for (size_t j = 0; j < ids.size(); j++)
            if (B.Exist(ids[j]))
                ex.push_back(j);
        bool same = true;
        for (int j = 0; j < n && j < 64; j++)
            same = same && &B[j] == B(j);
        e.i("n", n).l("live", live).l("names", names).l("marks", marks).l("exist", ex).b("foreign", B.Exist(&foreign)).b("null", B.Exist(nullptr)).b("same", same);
        Out << e.str();
        Out.flush();
    };
    {
        Ev e("new");
        e.s("kind", kind);
        look(e);
    }
    for (int st = 0; st < steps; st++) {
        int n = B.HowMany();
        if (n >= MAX_BUNDLE && R.below(4) == 0)
            grow = 0;
        if (n == 0)
            grow = R.below(3) != 0;
        if (R.below(40) == 0)
            grow = !grow;
        int c = R.below(100);
        if (c < 8) {
            if (n == 0)
                continue;
            Ev e("pick");
            e.i("id", idOf(B.RandomPick(rng)));
            look(e);
        }
        else if (c < 12) {
            // a look-up beyond the live components, or a removal of something that is not live
            int what = R.below(3);
            bool threw = false;
            try {
                if (what == 0)
                    B(n + R.below(3));
                else if (what == 1)
                    B[n + R.below(3)];
                else
                    B.Remove(&foreign);
            }
            catch (std::exception& ex) {
                threw = true;
            }
            Ev e("illegal");
            e.i("what", what).b("threw", threw);
            look(e);
        }
        else if (c < 20 && lastrun > 0) {
            int k = 1 + R.below(lastrun);
            bool rem = lastop == "remove";
            B.Recover(rem ? k : -k);
            Ev e("recover");
            e.i("step", rem ? k : -k);
            look(e);
            lastrun = 0;
        }
        else if (R.below(5) ? grow : !grow) {
            bool threw = false;
            T* p = nullptr;
            try {
                p = B.Add();
            }
            catch (std::exception& ex) {
                threw = true;
            }
            Ev e("add");
            e.b("threw", threw);
            if (!threw) {
                e.i("id", idOf(p));
                e.i("mark", ++mark);
                Mark<T>::set(p, mark);
            }
            else
                e.i("id", -1).i("mark", 0);
            look(e);
            if (!threw) {
                lastrun = lastop == "add" ? lastrun + 1 : 1;
                lastop = "add";
            }
            else
                lastrun = 0;
        }
        else {
            bool threw = false;
            int nm = n ? R.below(n) : 0;
            T* p = n ? B(nm) : nullptr;
            int how = R.below(2);
            try {
                if (how && p)
                    B.Remove(p);
                else
                    B.Remove(nm);
            }
            catch (std::exception& ex) {
                threw = true;
            }
            Ev e("remove");
            e.b("threw", threw).i("id", p ? idOf(p) : -1).i("how", how);
            look(e);
            if (!threw) {
                lastrun = lastop == "remove" ? lastrun + 1 : 1;
                lastop = "remove";
            }
            else
                lastrun = 0;
        }
    }
}

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    Out.open(argv[1]);
    Rng R;
    R.s = strtoull(argv[2], 0, 10) * 7919 + 3;
    int steps = atoi(argv[3]);
    quiet();
    drive<GLine>("G", R, steps);
    drive<WLine>("W", R, steps);
    drive<Vertex>("V", R, steps);
    Out << "{\"k\":\"end\"}\n";
    return 0;
}

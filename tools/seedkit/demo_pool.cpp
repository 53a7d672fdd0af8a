#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(0); _exit(1); } while (0)
#include "module/diagram/component.h"
#include "module/diagram/component_bundle.h"
#include "utility/rng.h"
#include <set>
using namespace diag;
static Bundle<Vertex> B("test");
static void check(const char* w)
{
    std::set<Vertex*> s;
    for (int i = 0; i < B.HowMany(); i++) {
        if (B(i)->Name != i)
            FAIL("%s: component %d is named %d", w, i, (int)B(i)->Name);
        if (!B.Exist(B(i)) || !s.insert(B(i)).second)
            FAIL("%s: component %d", w, i);
    }
}
int main()
{
    RandomFactory R(11);
    std::set<Vertex*> in;
    for (int n = 0; n < 20000; n++) {
        if (B.HowMany() == 0 || (B.HowMany() < 8 && R.irn(0, 1)))
            in.insert(B.Add());
        else {
            Vertex* v = B.RandomPick(R);
            if (R.irn(0, 1))
                B.Remove(v);
            else
                B.Remove(v->Name);
            in.erase(v);
            if (B.Exist(v))
                FAIL("a component removed is still said to be there");
            if (R.irn(0, 3) == 0) {
                B.Recover(1);
                in.insert(v);
                if (!B.Exist(v))
                    FAIL("a component recovered is not there");
            }
        }
        if ((int)in.size() != B.HowMany())
            FAIL("number of components");
        check("pool");
    }
    return 0;
}

// the whole program, with all intervals zero: a message that comes later must be adopted
#include "sim.h"
#include "utility/timer.h"
#include "job/job.h"
#include "test.h"
#include <sys/wait.h>
#include <fstream>
static EnvMonteCarlo* E;
struct VEnv : public EnvMonteCarlo {
    VEnv(const para::Job& j, bool s = false)
        : EnvMonteCarlo(j, s)
    {
        E = this;
    }
};
static int Calls;
extern "C" time_t time(time_t* t)
{
    if (t)
        *t = 1700000000;
    if (E && E->Para.Counter > 0) {
        Calls++;
        if (Calls == 1)
            ofstream("Message.txt") << "{'Beta': 1.0, 'Version': 4, 'SqueezeFactor': 1.0}";
        if (Calls == 400) {
            if (E->Para.Version != 4)
                FAIL("a message was not adopted in %d looks at the clock", Calls);
            _exit(0);
        }
    }
    return 1700000000;
}
#define EnvMonteCarlo VEnv
#define main program_main
#include "main.cpp"
#undef main
int main()
{
    hush();
    system("sed -i \"s/Timer': 100/Timer': 0/g\" infile.txt");
    const char* a[] = { "x", "-f", "infile", 0 };
    alarm(120);
    program_main(3, a);
    FAIL("the program ended");
}

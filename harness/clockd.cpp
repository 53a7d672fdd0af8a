// Drives class timer against a clock of its own: clockd OUT SEED STEPS
#include "util.h"
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
static bool fake = false;
static long long now_us = 1700000000LL * 1000000, cpu_us = 5000000;
extern "C" time_t time(time_t* t)
{
    struct timespec ts;
    time_t r;
    if (fake)
        r = now_us / 1000000;
    else {
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    }
    if (t)
        *t = r;
    return r;
}
extern "C" clock_t clock(void)
{
    if (fake)
        return cpu_us; // CLOCKS_PER_SEC is 10^6
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!fake)
        return syscall(SYS_clock_gettime, c, ts);
    long long v = (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? cpu_us : now_us;
    ts->tv_sec = v / 1000000;
    ts->tv_nsec = v % 1000000 * 1000;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*)
{
    if (!fake) {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    tv->tv_sec = now_us / 1000000;
    tv->tv_usec = now_us % 1000000;
    return 0;
}
#include "utility/timer.h"
using namespace std;

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    ofstream Out(argv[1]);
    Rng R;
    R.s = strtoull(argv[2], 0, 10) * 7919 + 5;
    int steps = atoi(argv[3]);
    quiet();
    for (int run = 0; run < 12; run++) {
        timer T;
        long long t0 = now_us, c0 = cpu_us;
        Out << Ev("new").str();
        for (int j = 0; j < steps; j++) {
            // time moves in hundredths of a second, so that what is printed is exact
            long long adv = 0;
            switch (R.below(6)) {
            case 0:
                adv = R.below(100);
                break;
            case 1:
                adv = 100 * R.below(20);
                break;
            case 2:
                adv = R.below(2000);
                break;
            case 3:
                adv = R.below(12) == 0 ? 100LL * R.range(3590, 3610) : 100 * R.below(4);
                break;
            default:
                break;
            }
            now_us += adv * 10000;
            cpu_us += R.below(3) ? adv * 10000 : (adv / 2) * 10000;
            if (now_us - t0 > 15000000000000LL)
                break;
            int c = R.below(10);
            fake = true;
            Ev e(c < 1 ? "start" : c < 2 ? "restart" : c < 3 ? "stop" : c < 8 ? "check" : "show");
            // seconds and hundredths of the wall clock, hundredths of cpu time
            long long w = now_us - 1700000000LL * 1000000;
            e.i("sec", w / 1000000).i("cpu", cpu_us / 10000);
            (void)c0;
            if (c < 1)
                T.start();
            else if (c < 2)
                T.restart();
            else if (c < 3)
                T.stop();
            else if (c < 8) {
                int iv = R.below(5) == 0 ? R.range(3590, 3610) : R.below(20);
                bool r = T.check((time_t)iv);
                e.i("int", iv).b("fired", r);
            }
            ostringstream os;
            os << T;
            fake = false;
            e.i("shown", fix(atof(os.str().c_str()), 100));
            Out << e.str();
        }
    }
    Out << "{\"k\":\"end\"}\n";
    return 0;
}

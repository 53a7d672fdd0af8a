#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(0); _exit(1); } while (0)
#include <time.h>
static time_t Now = 1700000000;
extern "C" time_t time(time_t* t)
{
    if (t)
        *t = Now;
    return Now;
}
#include "utility/timer.h"
int main()
{
    timer t;
    t.start();
    for (int k = 0; k < 20; k++) {
        int n = k % 5 + 1;
        Now += n - 1;
        if (t.check((time_t)n))
            FAIL("due %d seconds after, with an interval of %d", n - 1, n);
        Now += 1;
        if (!t.check((time_t)n))
            FAIL("not due %d seconds after", n);
        if (t.check((time_t)n))
            FAIL("due twice");
    }
    return 0;
}

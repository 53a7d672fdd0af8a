#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(0); _exit(1); } while (0)
#include "utility/abort.h"
int main()
{
    for (int sig : { SIGINT, SIGTERM })
        for (int twice = 0; twice < 2; twice++) {
            int p[2];
            pipe(p);
            pid_t pid = fork();
            if (!pid) {
                InterruptHandler h;
                h.Delay();
                raise(sig);
                if (twice)
                    raise(sig);
                write(p[1], "x", 1);
                h.Resume();
                _exit(99);
            }
            close(p[1]);
            char c;
            bool alive = read(p[0], &c, 1) == 1;
            int st;
            waitpid(pid, &st, 0);
            if (!alive)
                FAIL("signal %d ended the process within the delayed section", sig);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != sig)
                FAIL("signal %d did not take effect afterwards", sig);
        }
    return 0;
}

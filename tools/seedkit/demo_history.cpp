#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(0); _exit(1); } while (0)
#include "utility/pyglue/pywrapper.h"
#include "utility/dictionary.h"
#include "estimator/estimator.h"
#include <math.h>
#include <vector>
int main()
{
    Python::Initialize();
    Python::ArrayInitialize();
    static Estimator<real> e("e");
    // the mean after the n-th call is n
    int last = 0;
    for (int n = 1; n <= 200000; n++) {
        e.Measure(2.0 * n);
        e.AddStatistics();
        if (n % 7000 == 0) {
            auto h = e.ToDict().Get<Python::ArrayObject>("History");
            int m = h.Shape()[0];
            double* x = h.Data<double>();
            // what was recorded before a compaction is spaced as what is kept; only the newest may be closer
            int d = m > 2 ? (int)lround(x[1] - x[0]) : 1;
            if (d & (d - 1))
                FAIL("after %d calls the history is spaced by %d", n, d);
            for (int i = 1; i < m; i++)
                if (x[i] <= x[i - 1] || lround(x[i] - x[i - 1]) > 3 * d)
                    FAIL("after %d calls the history is not evenly spaced at %d: %g %g", n, i, x[i - 1], x[i]);
            int far = 0;
            for (int i = 1; i < m; i++)
                far += lround(x[i] - x[i - 1]) != d;
            if (far > 20)
                FAIL("after %d calls %d entries of the history are not %d apart", n, far, d);
        }
    }
    return 0;
}

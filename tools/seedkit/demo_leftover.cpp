#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(0); _exit(1); } while (0)
#include "utility/pyglue/pywrapper.h"
#include "utility/dictionary.h"
#include "module/weight/index_map.h"
#include "module/weight/weight_array.h"
#include "module/weight/weight_estimator.h"
#include "module/weight/component.h"
#include "lattice/lattice.h"
using namespace weight;
int main()
{
    Python::Initialize();
    Python::ArrayInitialize();
    Vec<int> L;
    L[0] = L[1] = 2;
    Lattice lat(L, 1);
    IndexMapSPIN2 m(1.0, 8, lat, TauAntiSymmetric);
    WeightEstimator e, f;
    e.Allocate(m, 3, 1.0);
    f.Allocate(m, 2, 1.0);
    f.MeasureNorm(1.0);
    f.Measure(5, 1, Complex(2.0, 0.0));
    f.Measure(6, 2, Complex(4.0, 0.0));
    e.MeasureNorm(7.0);
    e.Measure(5, 3, Complex(64.0, 0.0));
    e.Measure(7, 1, Complex(32.0, 0.0));
    e.FromDict(f.ToDict());
    auto dict = e.ToDict();
    auto a = dict.Get<Python::ArrayObject>("WeightAccu");
    Complex sum(0.0, 0.0);
    for (size_t i = 0; i < a.Size(); i++)
        sum += a.Data<Complex>()[i];
    if (fabs(sum.Re - 6.0) > 1e-9 || fabs(sum.Im) > 1e-9)
        FAIL("the table holds %g, the loaded statistics 6", sum.Re);
    return 0;
}

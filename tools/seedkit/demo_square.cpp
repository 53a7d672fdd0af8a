#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(0); _exit(1); } while (0)
#include "utility/complex.h"
int main()
{
    for (int a = -3; a <= 3; a++)
        for (int b = -3; b <= 3; b++) {
            Complex x(a, b), y(a, b), z(2, -1);
            x *= x;
            if (x.Re != a * a - b * b || x.Im != 2 * a * b)
                FAIL("(%d,%d) squared is (%g,%g)", a, b, x.Re, x.Im);
            y *= z;
            if (y.Re != 2 * a + b || y.Im != 2 * b - a)
                FAIL("product");
        }
    return 0;
}

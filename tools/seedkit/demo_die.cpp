// die after the k-th file that a save writes; what is left must be readable
#include "sim.h"
#include <sys/wait.h>
#include <fstream>
static void hook(int k)
{
    ofstream f("IO.py", ios::app);
    f << "\nimport os as _os\n_cnt = [0]\ndef _die(f):\n    def g(*a, **k):\n        r = f(*a, **k)\n        _cnt[0] += 1\n        if _cnt[0] == " << k << ":\n            _os._exit(55)\n        return r\n    return g\nSaveDict = _die(SaveDict)\nSaveBigDict = _die(SaveBigDict)\n";
}
int main()
{
    pid_t p = fork();
    if (!p) {
        EnvMonteCarlo* e = boot();
        hush();
        e->Markov.Hop(200);
        e->Save();
        _exit(0);
    }
    waitpid(p, 0, 0);
    system("cp IO.py IO0.py");
    for (int k = 1; k <= 4; k++) {
        system("cp IO0.py IO.py");
        hook(k);
        p = fork();
        if (!p) {
            Python::Initialize();
            Python::ArrayInitialize();
            hush();
            EnvMonteCarlo* e = new EnvMonteCarlo(para::Job(string("infile")));
            e->Load();
            e->Markov.Hop(100);
            e->Save();
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || (WEXITSTATUS(st) != 55 && WEXITSTATUS(st) != 0))
            FAIL("a save ended with %d", st);
        system("cp IO0.py IO.py");
        p = fork();
        if (!p) {
            Python::Initialize();
            Python::ArrayInitialize();
            hush();
            try {
                EnvMonteCarlo* e = new EnvMonteCarlo(para::Job(string("infile")));
                e->Load();
                structure(e->Diag);
                weights(*e);
            }
            catch (...) {
                FAIL("what a death after write %d left cannot be read", k);
            }
            _exit(0);
        }
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            FAIL("what a death after write %d left cannot be read", k);
    }
    _exit(0);
}

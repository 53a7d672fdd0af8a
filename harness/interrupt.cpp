// Termination requests: interrupt OUT MAXLEN MAXLIFE SEED NRANDOM
// Runs sequences of operations on a real InterruptHandler, each in a child.
#include "util.h"
#include "utility/abort.h"
#include <memory>
#include <signal.h>
using namespace std;
static ofstream Out;

static void play(const string& ops)
{
    string said;
    int st = inChild([&](int fd) {
        unique_ptr<InterruptHandler> h(new InterruptHandler());
        put(fd, h->IsDelaying() ? "d" : "n");
        for (char c : ops) {
            if (c == 'D' && h)
                h->Delay();
            if (c == 'R' && h)
                h->Resume();
            if (c == 'T')
                raise(SIGTERM);
            if (c == 'I')
                raise(SIGINT);
            if (c == 'X')
                h.reset();
            if (c == 'C' && !h)
                h.reset(new InterruptHandler());
            put(fd, h ? (h->IsDelaying() ? "d" : "n") : "-");
        }
    }, said);
    Ev e("run");
    vector<string> o, s;
    for (char c : ops)
        o.push_back(string("\"") + c + "\"");
    for (char c : said)
        s.push_back(string("\"") + c + "\"");
    e.l("ops", o).l("said", s).i("status", st);
    Out << e.str();
}
static void every(const string& alphabet, int len, const string& pre)
{
    if ((int)pre.size() == len) {
        play(pre);
        return;
    }
    for (char c : alphabet)
        every(alphabet, len, pre + c);
}

int main(int argc, char** argv)
{
    if (argc < 6)
        return 3;
    Out.open(argv[1]);
    quiet();
    int maxlen = atoi(argv[2]), life = atoi(argv[3]), n = atoi(argv[5]);
    for (int l = 0; l <= maxlen; l++)
        every("DRTI", l, "");
    for (int l = 1; l <= life; l++)
        every("DRTIXC", l, "");
    Rng R;
    R.s = strtoull(argv[4], 0, 10);
    for (int j = 0; j < n; j++) {
        // long runs: signals rare enough outside of sections to get far
        string o;
        int l = R.range(8, 30);
        bool d = false;
        for (int q = 0; q < l; q++) {
            int x = R.below(20);
            char c = x < 8 ? (d ? 'R' : 'D') : x < 9 ? 'D' : x < 11 ? 'R' : x < 12 ? 'X' : x < 15 ? 'C' : d && x < 17 ? (x % 2 ? 'T' : 'I') : 'C';
            if (c == 'D')
                d = true;
            if (c == 'R' || c == 'X')
                d = false;
            o += c;
        }
        play(o);
    }
    Out << "{\"k\":\"end\"}\n";
    return 0;
}

// A save under the eye of a tracer: what the directory holds after every
// system call that can change it, what is left when the process is killed
// there or the call fails, and what a restart makes of it.
//   crash OUT SEED SAVES
// in a directory with infile.txt, Weight.hkl and the basis files.
// spec/SaveTrace.tla reads OUT.
#include "workerobs.h"
#include <dirent.h>
#include <errno.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
using namespace std;
static ofstream Out;
static Rng R;
static string Cwd, PF, SF;
static set<string> Ignore;

struct Content {
    long ino;
    string data;
};
typedef map<string, Content> Dir;

static string slurp(const string& f)
{
    ifstream i(f, ios::binary);
    stringstream s;
    s << i.rdbuf();
    return s.str();
}
static void spill(const string& f, const string& s)
{
    ofstream o(f, ios::binary);
    o << s;
}
static Dir look()
{
    Dir r;
    DIR* d = opendir(Cwd.c_str());
    while (dirent* e = readdir(d)) {
        string n = e->d_name;
        struct stat st;
        if (Ignore.count(n) || stat((Cwd + "/" + n).c_str(), &st) || !S_ISREG(st.st_mode))
            continue;
        r[n] = Content{ (long)st.st_ino, slurp(Cwd + "/" + n) };
    }
    closedir(d);
    return r;
}
// make the working directory hold exactly this
static void become(const Dir& d)
{
    for (auto& e : look())
        if (!d.count(e.first))
            unlink(e.first.c_str());
    for (auto& e : d) {
        unlink(e.first.c_str());
        spill(e.first, e.second.data);
    }
}
static map<long, int> Inos;
static int ino(long i)
{
    if (!Inos.count(i)) {
        int n = Inos.size() + 1;
        Inos[i] = n;
    }
    return Inos[i];
}
static string listing(const Dir& d)
{
    string o = "[";
    bool f = true;
    for (auto& e : d) {
        o += string(f ? "" : ",") + "[\"" + e.first + "\"," + to_string(ino(e.second.ino)) + "," + to_string(e.second.data.size()) + ",\"" + hex(fnv(e.second.data.data(), e.second.data.size())) + "\"]";
        f = false;
    }
    return o + "]";
}
static string hidden(const string& s) { return hex(fnv(s.data(), s.size())); }
// what a restart finds here: in a process of its own
static string seen(bool sound)
{
    string o = obs();
    size_t s = o.find("},\"s\":{"), w = o.find("},\"wt\":");
    return Ev("r").b("ok", sound).s("p", hidden(o.substr(0, s))).s("s", hidden(o.substr(s, w - s))).str();
}
static string restart()
{
    string r;
    inChild([&](int fd) {
        try {
            Env = new EnvMonteCarlo(para::Job("infile"));
            Env->Load();
            string there = seen(Env->Diag.CheckDiagram());
            // it can go on and save
            for (int i = 0; i < 5; i++) {
                Env->Markov.Hop(5);
                Env->MarkovMonitor.Measure();
            }
            for (int i = 0; i < 20000 && Env->Diag.HasGammaGW != 0; i++)
                Env->Markov.Hop(1);
            if (Env->Diag.HasGammaGW == 0) {
                string live = seen(true);
                bool exact = true;
                if (Env->Para.runGamma3)
                    for (auto& z : tab(3).v)
                        exact = exact && (float)z.Re == z.Re && (float)z.Im == z.Im;
                Env->Save();
                Env = new EnvMonteCarlo(para::Job("infile"));
                Env->Load();
                if (exact && seen(true) != live)
                    there = Ev("r").b("ok", false).s("p", "").s("s", "the next save does not hold the worker").str();
            }
            put(fd, there);
        }
        catch (std::exception& e) {
            put(fd, Ev("r").b("ok", false).s("p", "").s("s", e.what()).str());
        }
    },
        r);
    if (r.empty())
        r = Ev("r").b("ok", false).s("p", "").s("s", "died").str();
    return r.substr(0, r.size() - 1);
}
static string restartIn(const Dir& d)
{
    Dir back = look();
    become(d);
    string r = restart();
    become(back);
    return r;
}
static string readmem(pid_t p, unsigned long a)
{
    string s;
    if (!a)
        return s;
    ifstream m("/proc/" + to_string(p) + "/mem", ios::binary);
    m.seekg(a);
    char c;
    while (s.size() < 4000 && m.get(c) && c)
        s += c;
    return s;
}
static string linkOf(pid_t p, int fd)
{
    char b[4100];
    ssize_t n = readlink(("/proc/" + to_string(p) + "/fd/" + to_string(fd)).c_str(), b, 4096);
    return n < 0 ? "" : string(b, n);
}
static long inoOf(pid_t p, int fd)
{
    struct stat st;
    return stat(("/proc/" + to_string(p) + "/fd/" + to_string(fd)).c_str(), &st) ? 0 : (long)st.st_ino;
}
// a name in the directory watched, or "" for everything else
static string local(const string& path)
{
    string s = path;
    size_t del = s.find(" (deleted)");
    if (del != string::npos)
        s = s.substr(0, del);
    if (s.compare(0, Cwd.size() + 1, Cwd + "/") == 0)
        s = s.substr(Cwd.size() + 1);
    while (s.compare(0, 2, "./") == 0)
        s = s.substr(2);
    if (s.empty() || s.find('/') != string::npos || Ignore.count(s))
        return "";
    return s;
}
static string esc(const string& s)
{
    string o;
    for (char c : s)
        o += (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) ? '?' : c;
    return o;
}

struct Op {
    string op, a, b;
    long n, off, ino;
    bool creat, trunc, ok;
    Dir after;
    string str() const
    {
        string s = Ev("op").s("op", op).s("a", a).s("b", b).i("n", n).i("off", off).i("ino", ::ino(ino)).b("creat", creat).b("trunc", trunc).b("ok", ok).raw("dir", listing(after)).str();
        return s.substr(0, s.size() - 1);
    }
};
// is this call one that can change the directory?
static bool decode(pid_t p, const user_regs_struct& r, Op& o)
{
    o = Op{ "", "", "", 0, 0, 0, false, false, false, Dir() };
    auto path = [&](unsigned long a, int dirfd) {
        string s = readmem(p, a);
        if (!s.empty() && s[0] != '/' && dirfd != AT_FDCWD && dirfd >= 0)
            s = linkOf(p, dirfd) + "/" + s;
        return local(s);
    };
    auto file = [&](int fd) {
        o.a = local(linkOf(p, fd));
        o.ino = inoOf(p, fd);
        return !o.a.empty();
    };
    auto opening = [&](const string& a, int flags) {
        o.op = "open", o.a = a;
        o.creat = flags & O_CREAT, o.trunc = flags & O_TRUNC;
        return !a.empty() && (flags & O_ACCMODE) != O_RDONLY;
    };
    auto position = [&](int fd) {
        ifstream i("/proc/" + to_string(p) + "/fdinfo/" + to_string(fd));
        string k;
        long v = 0, flags = 0;
        i >> k >> v >> k >> oct >> flags;
        if (flags & O_APPEND) {
            struct stat st;
            if (!stat(("/proc/" + to_string(p) + "/fd/" + to_string(fd)).c_str(), &st))
                v = st.st_size;
        }
        return v;
    };
    switch (r.orig_rax) {
    case SYS_open:
        return opening(path(r.rdi, AT_FDCWD), r.rsi);
    case SYS_creat:
        return opening(path(r.rdi, AT_FDCWD), O_WRONLY | O_CREAT | O_TRUNC);
    case SYS_openat:
        return opening(path(r.rsi, r.rdi), r.rdx);
    case SYS_write:
    case SYS_pwrite64:
        o.op = "write";
        o.n = r.rdx;
        o.off = r.orig_rax == SYS_write ? position(r.rdi) : r.r10;
        return file(r.rdi);
    case SYS_writev:
    case SYS_sendfile:
    case SYS_copy_file_range:
    case SYS_fallocate:
        o.op = "other";
        return file(r.orig_rax == SYS_copy_file_range ? r.rdx : r.rdi);
    case SYS_close:
        o.op = "close";
        return file(r.rdi);
    case SYS_fsync:
    case SYS_fdatasync:
        o.op = "sync";
        return file(r.rdi);
    case SYS_ftruncate:
        o.op = "truncate", o.n = r.rsi;
        return file(r.rdi);
    case SYS_truncate:
        o.op = "other", o.a = path(r.rdi, AT_FDCWD);
        return !o.a.empty();
    case SYS_rename:
        o.op = "rename", o.a = path(r.rdi, AT_FDCWD), o.b = path(r.rsi, AT_FDCWD);
        break;
    case SYS_renameat:
    case SYS_renameat2:
        o.op = r.orig_rax == SYS_renameat2 && r.r8 ? "other" : "rename";
        o.a = path(r.rsi, r.rdi), o.b = path(r.r10, r.rdx);
        break;
    case SYS_link:
        o.op = "link", o.a = path(r.rdi, AT_FDCWD), o.b = path(r.rsi, AT_FDCWD);
        break;
    case SYS_linkat:
        o.op = "link", o.a = path(r.rsi, r.rdi), o.b = path(r.r10, r.rdx);
        break;
    case SYS_symlink:
        o.op = "other", o.a = path(r.rsi, AT_FDCWD);
        return !o.a.empty();
    case SYS_unlink:
        o.op = "unlink", o.a = path(r.rdi, AT_FDCWD);
        return !o.a.empty();
    case SYS_unlinkat:
        o.op = "unlink", o.a = path(r.rsi, r.rdi);
        return !o.a.empty();
    default:
        return false;
    }
    if (o.a.empty() || o.b.empty()) {
        // in or out of the directory
        if (o.a.empty())
            o.a = o.b;
        o.op = "other";
    }
    return !o.a.empty();
}
// Let a child save.  After the call number stop (from 1): kill 'k', or let the
// call fail 'f', or let it write half and kill 't'; stop 0: leave it alone.
// Returns whether the save came back.
static bool traced(vector<Op>& ops, int stop, char how, int err, bool& killed)
{
    ops.clear();
    killed = false;
    fflush(0);
    pid_t c = fork();
    if (c == 0) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        alarm(60);
        try {
            Env->Save();
        }
        catch (std::exception& e) {
            _exit(7);
        }
        _exit(0);
    }
    int st;
    if (c < 0 || waitpid(c, &st, 0) != c || !WIFSTOPPED(st)) {
        cerr << "cannot trace\n";
        exit(4);
    }
    ptrace(PTRACE_SETOPTIONS, c, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE);
    ptrace(PTRACE_SYSCALL, c, 0, 0);
    struct Th {
        bool in, watched, fail, torn;
        Op op;
    };
    map<pid_t, Th> ths;
    int ret = -1;
    while (true) {
        pid_t p = waitpid(-1, &st, __WALL);
        if (p < 0)
            break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (p == c)
                ret = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
            ths.erase(p);
            continue;
        }
        if (!WIFSTOPPED(st))
            continue;
        int sig = WSTOPSIG(st);
        if (sig != (SIGTRAP | 0x80)) {
            bool fresh = !ths.count(p) && p != c;
            if (fresh)
                ths[p] = Th{ false, false, false, false, Op() };
            ptrace(PTRACE_SYSCALL, p, 0, sig == SIGTRAP || sig == SIGSTOP || fresh ? 0 : sig);
            continue;
        }
        Th& t = ths[p];
        user_regs_struct r;
        ptrace(PTRACE_GETREGS, p, 0, &r);
        if (!t.in) {
            t.in = true;
            t.fail = t.torn = false;
            t.watched = decode(p, r, t.op);
            if (t.watched && stop == (int)ops.size() + 1 && how == 'f') {
                t.fail = true;
                r.orig_rax = -1;
                ptrace(PTRACE_SETREGS, p, 0, &r);
            }
            if (t.watched && stop == (int)ops.size() + 1 && how == 't' && t.op.op == "write" && t.op.n > 1) {
                t.torn = true;
                r.rdx = t.op.n / 2;
                ptrace(PTRACE_SETREGS, p, 0, &r);
            }
        }
        else {
            t.in = false;
            if (t.watched) {
                if (t.fail) {
                    r.rax = -err;
                    ptrace(PTRACE_SETREGS, p, 0, &r);
                }
                long long v = (long long)r.rax;
                t.op.ok = v >= 0;
                if (t.op.op == "open" && v >= 0)
                    t.op.ino = inoOf(p, v);
                if (t.op.op == "write")
                    t.op.n = v < 0 ? 0 : v;
                t.op.after = look();
                ops.push_back(t.op);
                if (stop == (int)ops.size() && how != 'f') {
                    killed = true;
                    kill(c, SIGKILL);
                    for (auto& x : ths)
                        kill(x.first, SIGKILL);
                    while (waitpid(-1, &st, __WALL) >= 0)
                        ;
                    return false;
                }
            }
        }
        ptrace(PTRACE_SYSCALL, p, 0, 0);
    }
    return ret == 0;
}
static void steps(int n)
{
    for (int i = 0; i < n; i++) {
        Env->Markov.Hop(R.range(1, 9));
        Env->MarkovMonitor.Measure();
    }
    for (int i = 0; i < 200000 && Env->Diag.HasGammaGW != 0; i++)
        Env->Markov.Hop(1);
}
static string contents(const Dir& d)
{
    string s;
    for (auto& e : d)
        if (e.first == PF || e.first == SF)
            s += e.first + ":" + to_string(e.second.data.size()) + ":" + hidden(e.second.data) + ";";
    return s;
}

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    Out.open(argv[1]);
    R.s = strtoull(argv[2], 0, 10) * 104729 + 11;
    int saves = atoi(argv[3]);
    quiet();
    char b[4096];
    Cwd = getcwd(b, sizeof b);
    Python::Initialize();
    Python::ArrayInitialize();
    Env = new EnvMonteCarlo(para::Job("infile"));
    PF = Env->Job.ParaFile + ".txt", SF = Env->Job.StatisticsFile + ".hkl";
    string base = string(argv[1]).substr(string(argv[1]).rfind('/') + 1);
    for (auto& n : { base, string("driver.log"), string("IO.py"), string("hickle.py"), string("cfg.json"), Env->Job.LogFile })
        Ignore.insert(n);
    auto quit = [&](const char* op, std::exception& e) {
        Out << Ev("fail").s("op", op).s("msg", e.what()).str() << "{\"k\":\"end\"}\n";
        Out.close();
        _exit(0);
    };
    try {
        Env->BuildNew();
    }
    catch (std::exception& e) {
        quit("BuildNew", e);
    }
    for (int it = 0; it < saves; it++) {
        try {
            steps(R.range(5, 60));
        }
        catch (std::exception& e) {
            quit("Hop", e);
        }
        Dir before = look();
        string rb = restartIn(before);
        before = look(); // the same, but other files
        Inos.clear();
        string live = seen(true);
        live.pop_back();
        // the save keeps single precision of some of it
        bool exact = true;
        if (Env->Para.runGamma3)
            for (auto& z : tab(3).v)
                exact = exact && (float)z.Re == z.Re && (float)z.Im == z.Im;
        vector<Op> ops;
        bool killed;
        bool done = traced(ops, 0, 0, 0, killed);
        Dir after = look();
        string ra = restartIn(after);
        // killed after every call, and in the middle of every write
        string rs = "[";
        set<string> seen;
        auto add = [&](int at, const char* how, const Dir& d) {
            string key = contents(d);
            // whatever else lies about must not matter either
            for (auto& e : d)
                key += e.first + ":" + to_string(e.second.data.size()) + ";";
            if (!seen.insert(key).second)
                return;
            rs += string(rs.size() > 1 ? "," : "") + "{\"at\":" + to_string(at) + ",\"how\":\"" + how + "\",\"dir\":" + listing(d) + ",\"r\":" + restartIn(d) + "}";
        };
        for (size_t j = 0; j < ops.size(); j++)
            add(j + 1, "after", ops[j].after);
        Dir next = after;
        int nops = ops.size();
        for (int j = 1; j <= nops; j++)
            if (ops[j - 1].op == "write" && ops[j - 1].n > 1) {
                vector<Op> half;
                become(before);
                traced(half, j, 't', 0, killed);
                Dir d = look();
                if (killed)
                    add(j, "torn", d);
                if (R.below(3 * nops) == 0)
                    next = d;
            }
        rs += "]";
        Out << Ev("save").s("pf", PF).s("sf", SF).b("done", done).b("due", Env->Diag.HasGammaGW == 0).raw("before", listing(before)).raw("ops", [&]() {
            string s = "[";
            for (size_t j = 0; j < ops.size(); j++)
                s += (j ? "," : "") + ops[j].str();
            return s + "]";
        }()).raw("rb", rb).raw("ra", ra).raw("live", live).b("exact", exact).raw("kills", rs).str();
        // one call fails
        const int errs[3] = { ENOSPC, EIO, EDQUOT };
        for (int j = 1; j <= nops; j++) {
            vector<Op> o;
            become(before);
            bool back = traced(o, j, 'f', errs[R.below(3)], killed);
            Dir d = look();
            Out << Ev("fault").s("pf", PF).s("sf", SF).i("at", j).s("op", ops[j - 1].op).s("a", ops[j - 1].a).b("done", back).raw("before", listing(before)).raw("new", listing(after)).raw("dir", listing(d)).raw("rb", rb).raw("ra", ra).raw("r", restartIn(d)).str();
            if (R.below(3 * nops) == 0)
                next = d;
        }
        // go on: from the save, or from where a process died
        int how = R.below(4);
        if (how == 0)
            next = ops.empty() ? after : ops[R.below(nops)].after;
        become(next);
        bool from = contents(next) == contents(after);
        if (!from || R.below(2)) {
            try {
                Env = new EnvMonteCarlo(para::Job("infile"));
                Env->Load();
            }
            catch (std::exception& e) {
                quit("Load", e);
            }
        }
        Out << Ev("next").b("new", from).str();
        Out.flush();
    }
    Out << "{\"k\":\"end\"}\n";
    Out.close();
    _exit(0);
}

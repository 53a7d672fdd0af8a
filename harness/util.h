// Small helpers shared by the drivers.
#ifndef VERIF_UTIL_H
#define VERIF_UTIL_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <math.h>

struct Rng {
    uint64_t s;
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    int below(int n) { return (int)((next() >> 20) % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
};

// one flat JSON object per line
struct Ev {
    std::ostringstream o;
    bool first;
    Ev(const char* k)
        : first(true)
    {
        o << "{";
        s("k", k);
    }
    void key(const char* n)
    {
        o << (first ? "\"" : ",\"") << n << "\":";
        first = false;
    }
    Ev& s(const char* n, const std::string& v)
    {
        key(n);
        o << '"';
        for (char c : v)
            if (c == '"' || c == '\\')
                o << '\\' << c;
            else if ((unsigned char)c < 32 || (unsigned char)c > 126)
                o << '?';
            else
                o << c;
        o << '"';
        return *this;
    }
    Ev& i(const char* n, long long v)
    {
        key(n);
        o << v;
        return *this;
    }
    Ev& b(const char* n, bool v)
    {
        key(n);
        o << (v ? "true" : "false");
        return *this;
    }
    template <class C>
    Ev& l(const char* n, const C& v)
    {
        key(n);
        o << "[";
        bool f = true;
        for (auto& x : v) {
            o << (f ? "" : ",") << x;
            f = false;
        }
        o << "]";
        return *this;
    }
    Ev& raw(const char* n, const std::string& v)
    {
        key(n);
        o << v;
        return *this;
    }
    std::string str() { return o.str() + "}\n"; }
};

// run in a child so that a crash or an exit is an observation; returns the
// child's exit status, or 1000+signal
inline int inChild(const std::function<void(int)>& fn, std::string& out, int secs = 20)
{
    int p[2];
    if (pipe(p))
        exit(3);
    fflush(0);
    pid_t pid = fork();
    if (pid < 0)
        exit(3);
    if (pid == 0) {
        close(p[0]);
        alarm(secs);
        fn(p[1]);
        _exit(0);
    }
    close(p[1]);
    out.clear();
    char buf[4096];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0)
        out.append(buf, n);
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
inline void put(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = write(fd, s.data() + o, s.size() - o);
        if (n <= 0)
            _exit(9);
        o += n;
    }
}
inline void quiet()
{
    int dn = open("driver.log", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(dn, 1);
    dup2(dn, 2);
}
// v * scale as an integer, or a value no specification produces
inline long long fix(double v, double scale)
{
    double x = v * scale;
    if (!(fabs(x) < 2.0e9))
        return 2147483646;
    return llround(x);
}
#endif

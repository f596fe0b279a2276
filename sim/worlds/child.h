// Work done in a forked child of the run, so that the run itself stays untouched by it.
#pragma once
#include "jobs.h"
#include <locale>
#include <sys/wait.h>
#include <sys/resource.h>
namespace simw {
// false when the child did not finish (signal, terminate, exit)
inline bool inChild(const std::function<void(Dig&)>& f, Dig& out) {
    // development aid: SIM_INPROC=n runs the n-th child's work in the run itself (for a debugger)
    static int nth = 0;
    if (auto e = getenv("SIM_INPROC"); e && atoi(e) == ++nth) { f(out); return true; }
    int fd[2];
    if (pipe(fd)) _exit(93);
    pid_t pid = fork();
    if (pid < 0) _exit(93);
    if (pid == 0) {
        syscall(SYS_close, fd[0]);
        Dig d;
        try { f(d); } catch (...) { _exit(92); }
        sim::alloc::disarm();
        string b((const char*)&d.h, 8);
        auto put = [&](const string& s) { uint32_t n = s.size(); b.append((const char*)&n, 4); b += s; };
        for (auto& [k, v] : d.items) { put(k); put(v); }
        b += "DONE";
        for (size_t o = 0; o < b.size();) {
            long n = syscall(SYS_write, fd[1], b.data() + o, b.size() - o);
            if (n <= 0) _exit(91);
            o += n;
        }
        _exit(0);
    }
    syscall(SYS_close, fd[1]);
    string b;
    static char buf[65536];
    long n;
    while ((n = syscall(SYS_read, fd[0], buf, sizeof buf)) > 0) b.append(buf, n);
    syscall(SYS_close, fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) || b.size() < 12 || b.compare(b.size() - 4, 4, "DONE")) return false;
    memcpy(&out.h, b.data(), 8);
    out.items.clear();
    size_t o = 8, e = b.size() - 4;
    auto get = [&]() { uint32_t n; memcpy(&n, &b[o], 4); string s = b.substr(o + 4, n); o += 4 + n; return s; };
    while (o < e) { string k = get(); string v = get(); out.items.push_back({k, v}); }
    return true;
}
struct CommaPunct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    string do_grouping() const override { return "\3"; }
};
__attribute__((noinline)) inline void eatStack(int kb, uint64_t seed) {
    volatile char buf[1024];
    for (size_t i = 0; i < sizeof buf; i++) buf[i] = char(seed >> (i % 8 * 8));
    if (kb > 0) eatStack(kb - 1, seed * 6364136223846793005ull + 1);
    (void)buf[0];
}
}

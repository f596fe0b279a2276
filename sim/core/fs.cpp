// Simulated disk (everything under /simfs) and simulated clock.
//
// Files live in memory (memfd).  The libc entry points used by libstdc++, yaml-cpp and the
// library are interposed: a path under /simfs is served from here, any other path goes to the
// real call.  Faults are counted per operation kind from arm().
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simcore.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim { namespace fs {
std::function<void(Kind, const std::string&)> onOp;
namespace {
struct Inode { int fd = -1; int64_t mtime = 0; std::string path; ~Inode() { if (fd >= 0) syscall(SYS_close, fd); } };
struct Handle { std::shared_ptr<Inode> ino; bool wr; };
struct Fault { Kind k; int nth, err, howMany, partial; };
struct State {
    std::map<std::string, std::shared_ptr<Inode>> files;
    std::map<int, Handle> fds;
    std::map<std::string, int> deny;
    std::vector<Fault> faults;
    int64_t gran = 1;
    int64_t cap = -1;
    int64_t defaultTime = 1700000000ll * 1000000000ll;
};
State* g = nullptr;
bool g_armed = false;
long g_ops[NKIND], g_fired[NKIND];
State& S() { if (!g) g = new State; return *g; }

bool ours(const char* p) { return p && strncmp(p, "/simfs", 6) == 0 && (p[6] == 0 || p[6] == '/'); }
std::string norm(const char* p) {
    std::vector<std::string> parts;
    std::string cur;
    for (const char* c = p;; c++) {
        if (*c == '/' || !*c) {
            if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
            else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
            if (!*c) break;
        } else cur += *c;
    }
    std::string o;
    for (auto& s : parts) o += "/" + s;
    return o;
}
int64_t nowNs() {
    int64_t t = clk::now();
    if (t == INT64_MIN) t = S().defaultTime;
    return t / S().gran * S().gran;
}
int64_t sizeOf(int fd) { struct stat st; syscall(SYS_fstat, fd, &st); return st.st_size; }
int64_t total() { int64_t n = 0; for (auto& [k, v] : S().files) n += sizeOf(v->fd); return n; }
bool isDir(const std::string& p) {
    if (p == "/simfs") return true;
    std::string pre = p + "/";
    for (auto& [k, v] : S().files) if (k.compare(0, pre.size(), pre) == 0) return true;
    return false;
}
// Returns the fault to apply to this operation, or nullptr.
Fault* take(Kind k, const std::string& path) {
    if (onOp) onOp(k, path);
    if (!g_armed) return nullptr;
    long n = ++g_ops[k];
    for (auto& f : S().faults)
        if (f.k == k && n >= f.nth && n < f.nth + f.howMany) { g_fired[k]++; return &f; }
    return nullptr;
}
std::shared_ptr<Inode> mk(const std::string& p) {
    auto i = std::make_shared<Inode>();
    i->fd = syscall(SYS_memfd_create, "simfs", MFD_CLOEXEC);
    if (i->fd < 0) { perror("memfd_create"); _exit(96); }
    i->path = p;
    i->mtime = nowNs();
    S().files[p] = i;
    return i;
}
int doOpen(const char* path, int flags) {
    alloc::Pause pz;
    std::string p = norm(path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (auto f = take(wr ? OPEN_W : OPEN_R, p)) { errno = f->err; return -1; }
    auto d = S().deny.find(p);
    if (d != S().deny.end() && !wr) { g_fired[OPEN_R]++; errno = d->second; return -1; }
    if (isDir(p)) { errno = wr ? EISDIR : EISDIR; return -1; }
    auto it = S().files.find(p);
    std::shared_ptr<Inode> ino;
    if (it == S().files.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        std::string dir = p.substr(0, p.rfind('/'));
        if (!isDir(dir)) { errno = ENOENT; return -1; }
        ino = mk(p);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        ino = it->second;
    }
    if (flags & O_TRUNC) { syscall(SYS_ftruncate, ino->fd, 0); ino->mtime = nowNs(); }
    char pr[64];
    snprintf(pr, sizeof pr, "/proc/self/fd/%d", ino->fd);
    int fd = syscall(SYS_openat, AT_FDCWD, pr, flags & ~(O_CREAT | O_EXCL | O_TRUNC), 0);
    if (fd < 0) { perror("simfs reopen"); _exit(96); }
    S().fds[fd] = Handle{ino, wr};
    return fd;
}
ssize_t doRead(int fd, void* b, size_t n) {
    alloc::Pause pz;
    auto& h = S().fds[fd];
    if (auto f = take(READ, h.ino->path)) {
        if (f->partial >= 0) { if (n > (size_t)std::max(1, f->partial)) n = std::max(1, f->partial); }
        else { errno = f->err; return -1; }
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t doWrite(int fd, const void* b, size_t n) {
    alloc::Pause pz;
    auto& h = S().fds[fd];
    if (auto f = take(WRITE, h.ino->path)) {
        if (f->partial >= 0) n = std::min<size_t>(n, std::max(1, f->partial));
        else { errno = f->err; return -1; }
    }
    if (S().cap >= 0 && n) {
        int64_t off = syscall(SYS_lseek, fd, 0, SEEK_CUR), sz = sizeOf(h.ino->fd);
        int64_t grow = off + (int64_t)n - sz;
        int64_t room = S().cap - total();
        if (grow > room) {
            if (room < 0) room = 0;
            int64_t can = (int64_t)n - (grow - room);
            g_fired[WRITE]++;
            if (can <= 0) { errno = ENOSPC; return -1; }
            n = can;
        }
    }
    h.ino->mtime = nowNs();
    return syscall(SYS_write, fd, b, n);
}
int doClose(int fd) { // 0 ok, otherwise errno to report (descriptor is gone either way)
    alloc::Pause pz;
    auto it = S().fds.find(fd);
    if (it == S().fds.end()) return 0;
    int e = 0;
    if (it->second.wr) {
        if (auto f = take(CLOSE, it->second.ino->path)) {
            e = f->err;
            if (f->partial > 0) { // delayed allocation failed: the tail never reached the disk
                int64_t sz = sizeOf(it->second.ino->fd);
                syscall(SYS_ftruncate, it->second.ino->fd, std::max<int64_t>(0, sz - f->partial));
            }
        }
    }
    S().fds.erase(it);
    return e;
}
int doStat(const char* path, struct stat* st) {
    alloc::Pause pz;
    std::string p = norm(path);
    if (auto f = take(STAT, p)) { errno = f->err; return -1; }
    memset(st, 0, sizeof *st);
    auto it = S().files.find(p);
    if (it == S().files.end()) {
        if (!isDir(p)) { errno = ENOENT; return -1; }
        st->st_mode = S_IFDIR | 0755;
        return 0;
    }
    st->st_mode = S_IFREG | 0644;
    st->st_nlink = 1;
    st->st_ino = 1000 + it->second->fd;
    st->st_dev = 77;
    st->st_size = sizeOf(it->second->fd);
    st->st_mtim.tv_sec = it->second->mtime / 1000000000ll;
    st->st_mtim.tv_nsec = it->second->mtime % 1000000000ll;
    return 0;
}
} // namespace

void reset() { if (g) { g->files.clear(); g->fds.clear(); g->deny.clear(); g->faults.clear(); g->cap = -1; g->gran = 1; }
               g_armed = false; memset(g_ops, 0, sizeof g_ops); memset(g_fired, 0, sizeof g_fired); }
void put(const std::string& path, const std::string& data, int64_t mt) {
    alloc::Pause pz;
    auto it = S().files.find(path);
    auto i = it == S().files.end() ? mk(path) : it->second;
    syscall(SYS_ftruncate, i->fd, 0);
    size_t o = 0;
    while (o < data.size()) {
        long n = syscall(SYS_pwrite64, i->fd, data.data() + o, data.size() - o, o);
        if (n <= 0) _exit(96);
        o += n;
    }
    i->mtime = mt >= 0 ? mt : nowNs();
}
bool get(const std::string& path, std::string& data) {
    alloc::Pause pz;
    auto it = S().files.find(path);
    if (it == S().files.end()) return false;
    data.resize(sizeOf(it->second->fd));
    size_t o = 0;
    while (o < data.size()) {
        long n = syscall(SYS_pread64, it->second->fd, &data[o], data.size() - o, o);
        if (n <= 0) _exit(96);
        o += n;
    }
    return true;
}
bool exists(const std::string& path) { alloc::Pause pz; return S().files.count(path); }
void erase(const std::string& path) { alloc::Pause pz; S().files.erase(path); }
void setMtime(const std::string& path, int64_t mt) { alloc::Pause pz; auto it = S().files.find(path); if (it != S().files.end()) it->second->mtime = mt; }
int64_t mtime(const std::string& path) { alloc::Pause pz; auto it = S().files.find(path); return it == S().files.end() ? -1 : it->second->mtime; }
std::vector<std::string> list() { alloc::Pause pz; std::vector<std::string> v; for (auto& [k, x] : S().files) v.push_back(k); return v; }
void setGranularity(int64_t ns) { S().gran = ns; }
void addFault(Kind k, int nth, int err, int howMany, int partial) { alloc::Pause pz; S().faults.push_back({k, nth, err, howMany, partial}); }
void arm() { memset(g_ops, 0, sizeof g_ops); memset(g_fired, 0, sizeof g_fired); g_armed = true; }
void disarm() { g_armed = false; if (g) { g->faults.clear(); g->cap = -1; g->deny.clear(); } }
void setCapacity(int64_t b) { S().cap = b; }
int64_t used() { alloc::Pause pz; return total(); }
int openHandles() { alloc::Pause pz; return int(S().fds.size()); }
long fired(Kind k) { return g_fired[k]; }
long firedAny() { long n = 0; for (auto f : g_fired) n += f; return n; }
long opCount(Kind k) { return g_ops[k]; }
void denyRead(const std::string& path, int err) { alloc::Pause pz; if (err) S().deny[path] = err; else S().deny.erase(path); }
}} // namespace sim::fs

using namespace sim;
using namespace sim::fs;

static bool isOurs(int fd) { alloc::Pause pz; return g && g->fds.count(fd); }
template <class F> static F realFn(const char* name) {
    return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(name, ...) using RealT = __VA_ARGS__; static RealT real = nullptr; if (!real) real = realFn<RealT>(name)

static int modeFlags(const char* m) {
    int f = 0;
    bool plus = strchr(m, '+');
    bool x = strchr(m, 'x');
    if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (x) f |= O_EXCL;
    return f;
}
static ssize_t ckRead(void* c, char* b, size_t n) { ssize_t r = doRead((int)(intptr_t)c, b, n); return r; }
static ssize_t ckWrite(void* c, const char* b, size_t n) {
    size_t o = 0;
    while (o < n) {
        ssize_t r = doWrite((int)(intptr_t)c, b + o, n - o);
        if (r < 0) { if (errno == EINTR) continue; return o; }
        o += r;
    }
    return o;
}
static int ckSeek(void* c, off64_t* o, int w) { int64_t r = syscall(SYS_lseek, (int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) {
    int fd = (int)(intptr_t)c;
    int e = doClose(fd);
    syscall(SYS_close, fd);
    if (e) { errno = e; return -1; }
    return 0;
}
static FILE* simFopen(const char* path, const char* mode, void* ra) {
    int fd = doOpen(path, modeFlags(mode));
    if (fd < 0) return nullptr;
    Dl_info di;
    if (dladdr(ra, &di) && di.dli_fname && strstr(di.dli_fname, "libstdc++")) {
        FILE* f = fdopen(fd, mode);
        return f;
    }
    cookie_io_functions_t io{ckRead, ckWrite, ckSeek, ckClose};
    return fopencookie((void*)(intptr_t)fd, mode, io);
}

extern "C" {
FILE* fopen(const char* path, const char* mode) {
    if (ours(path)) return simFopen(path, mode, __builtin_return_address(0));
    REAL("fopen", FILE * (*)(const char*, const char*));
    return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
    if (ours(path)) return simFopen(path, mode, __builtin_return_address(0));
    REAL("fopen64", FILE * (*)(const char*, const char*));
    return real(path, mode);
}
int fclose(FILE* f) {
    REAL("fclose", int (*)(FILE*));
    int fd = fileno(f);
    int e = 0;
    if (fd >= 0 && isOurs(fd)) {
        fflush(f);
        e = doClose(fd);
    }
    int r = real(f);
    if (e) { errno = e; return EOF; }
    return r;
}
static int openImpl(const char* path, int flags, mode_t m) {
    if (ours(path)) return doOpen(path, flags);
    return syscall(SYS_openat, AT_FDCWD, path, flags, m);
}
int open(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return openImpl(path, flags, m);
}
int open64(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return openImpl(path, flags | O_LARGEFILE, m);
}
ssize_t read(int fd, void* b, size_t n) {
    if (isOurs(fd)) return doRead(fd, b, n);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (isOurs(fd)) return doWrite(fd, b, n);
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (isOurs(fd)) {
        size_t tot = 0;
        for (int i = 0; i < c; i++) {
            if (!v[i].iov_len) continue;
            ssize_t r = doWrite(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return tot ? (ssize_t)tot : -1;
            tot += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return tot;
    }
    return syscall(SYS_writev, fd, v, c);
}
int stat(const char* p, struct stat* st) noexcept {
    if (ours(p)) return doStat(p, st);
    return syscall(SYS_stat, p, st);
}
int lstat(const char* p, struct stat* st) noexcept {
    if (ours(p)) return doStat(p, st);
    return syscall(SYS_lstat, p, st);
}
int access(const char* p, int m) noexcept {
    if (ours(p)) { struct stat st; return doStat(p, &st); }
    return syscall(SYS_access, p, m);
}
int unlink(const char* p) noexcept {
    if (ours(p)) { alloc::Pause pz; std::string q = norm(p); if (!fs::exists(q)) { errno = ENOENT; return -1; } fs::erase(q); return 0; }
    return syscall(SYS_unlink, p);
}
int remove(const char* p) noexcept {
    if (ours(p)) return unlink(p);
    REAL("remove", int (*)(const char*));
    return real(p);
}
int rename(const char* a, const char* b) noexcept {
    if (ours(a) || ours(b)) {
        alloc::Pause pz;
        std::string x = norm(a), y = norm(b);
        auto it = S().files.find(x);
        if (it == S().files.end()) { errno = ENOENT; return -1; }
        auto i = it->second;
        S().files.erase(it);
        i->path = y;
        S().files[y] = i;
        return 0;
    }
    return syscall(SYS_rename, a, b);
}
}

// ------------------------------------------------------------------------------- clock
namespace sim { namespace clk {
namespace {
bool g_on = false, g_jit = false;
int64_t g_now = 0, g_base = 0;
Rng g_rng(1);
long g_reads = 0;
int64_t reading() {
    g_reads++;
    if (g_jit) {
        uint64_t r = g_rng.below(10);
        if (r < 6) g_now += g_rng.below(1000000);
        else if (r < 8) g_now += int64_t(g_rng.below(3600ull * 1000000000ull));
        else g_now -= int64_t(g_rng.below(3600ull * 1000000000ull));
        if (g_now < 0) g_now = 0;
    } else g_now += 1000;
    return g_now;
}
}
void enable(int64_t s) { g_now = g_base = s; g_on = true; g_jit = false; g_reads = 0; }
void disable() { g_on = false; g_jit = false; }
void advance(int64_t ns) { g_now += ns; }
void jitter(uint64_t seed) { g_rng.reseed(seed); g_jit = true; }
int64_t now() { return g_on ? g_now : INT64_MIN; }
long reads() { return g_reads; }
}}
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    if (clk::g_on) { int64_t t = clk::reading(); ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll; return 0; }
    return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    if (clk::g_on) { int64_t t = clk::reading(); if (tv) { tv->tv_sec = t / 1000000000ll; tv->tv_usec = t % 1000000000ll / 1000; } return 0; }
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t* t) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void) noexcept {
    struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / 1000;
}
}

// Schedule seam.
//
// In the sched build the library is compiled with -fsanitize=thread but linked against this
// file instead of libtsan.  Every instrumented memory access, atomic operation, lock
// operation and static-local guard is a point where the seeded scheduler may park the running
// thread and release another: exactly one simulated thread runs at any time, so a run is a
// pure function of its seed.  The same hooks feed a happens-before race detector.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simcore.h"
#include <malloc.h>

#ifndef SIM_SCHED
namespace sim { namespace sched {
bool available() { return false; }
void yield() {}
Result run(const Cfg&, std::vector<std::function<void()>>) { return {}; }
void watch(uint64_t) {}
uint64_t& raceAddr() { static uint64_t a = 0; return a; }
void memFresh(void*, size_t) {}
void quiet(int) {}
}}
#else

#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" { void* __real_memset(void*, int, size_t); void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void __libc_free(void*); }

namespace sim { namespace sched {
namespace {
constexpr int MAXT = 8;
struct VC { uint32_t c[MAXT]; };
struct Th {
    std::atomic<int> go{0};
    bool done = false, blocked = false;
    const void* waitOn = nullptr;
    char waitKind = 0;
    uintptr_t stLo = 0, stHi = 0;
    VC vc;
    std::function<void()> fn;
    pthread_t h;
};
Th T[MAXT];
int nT = 0;
std::atomic<int> mainGo{0};
bool g_active = false;
int g_cur = -1;
__thread int t_id = -1;
__thread int t_quiet = 0;   // > 0 inside simulator or harness code
struct Q { Q() { t_quiet++; } ~Q() { t_quiet--; } };
Cfg C;
Rng R(1);
Result RES;
uint64_t g_next = 0;     // event count of the next random preemption
size_t g_fi = 0;         // index into C.forced
uint64_t g_lockSeq = 0;

void fwait(std::atomic<int>& f) {
    while (f.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int*)&f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    f.store(0, std::memory_order_relaxed);
}
void fwake(std::atomic<int>& f) {
    f.store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)&f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// --- small open-addressing map: address -> sync object -------------------------------
struct Sync { const void* key; VC vc; int owner; int count; int readers; };
constexpr size_t SN = 1 << 20;
Sync* g_sync = nullptr;
Sync* syncOf(const void* k) {
    uint64_t h = (uint64_t)k * 0x9E3779B97F4A7C15ull >> 44;
    for (size_t i = 0; i < SN; i++) {
        Sync& s = g_sync[(h + i) & (SN - 1)];
        if (s.key == k) return &s;
        if (!s.key) { s.key = k; s.owner = -1; return &s; }
    }
    // table full: forget everything but keep owned entries out of trouble
    fprintf(stderr, "sched: sync table full\n");
    _exit(95);
}
void acquire(Sync* s) { auto& v = T[t_id].vc; for (int i = 0; i < nT; i++) if (s->vc.c[i] > v.c[i]) v.c[i] = s->vc.c[i]; }
void release(Sync* s) {
    auto& v = T[t_id].vc;
    for (int i = 0; i < nT; i++) if (v.c[i] > s->vc.c[i]) s->vc.c[i] = v.c[i];
    v.c[t_id]++;
}

// --- shadow memory -------------------------------------------------------------------
// cell: pc:28 | clk:24 | mask:8 | tid:3 | w:1
constexpr int NC = 4;
struct Page { uint64_t cell[512][NC]; };
constexpr size_t PN = 1 << 18;
struct PEnt { uint64_t page; Page* p; };
PEnt* g_pt = nullptr;
size_t g_pages = 0;
Page* lookup(uint64_t pg, bool make) {
    uint64_t h = pg * 0x9E3779B97F4A7C15ull >> 46;
    for (size_t i = 0;; i++) {
        PEnt& e = g_pt[(h + i) & (PN - 1)];
        if (e.page == pg) return e.p;
        if (!e.page) {
            if (!make || g_pages > PN / 2) return nullptr;
            e.page = pg;
            e.p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            g_pages++;
            return e.p;
        }
    }
}
struct Range { uintptr_t lo, hi; };
Range g_skip[128];
int g_nskip = 0;
uintptr_t g_exeDataLo = 0;
// Locks private to these libraries order nothing in Cantera: counting them as happens-before edges
// would hide races next to every linear-algebra call or exception.
Range g_priv[16];
int g_npriv = 0;
inline bool privateLock(void* ra) {
    uintptr_t a = (uintptr_t)ra;
    for (int i = 0; i < g_npriv; i++) if (a >= g_priv[i].lo && a < g_priv[i].hi) return true;
    return false;
}
int phdrCb(struct dl_phdr_info* i, size_t, void*) {
    bool exe = !i->dlpi_name || !i->dlpi_name[0];
    bool priv = !exe && (strstr(i->dlpi_name, "openblas") || strstr(i->dlpi_name, "libgcc_s"));
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto& p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD) continue;
        uintptr_t lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
        if (exe && (p.p_flags & PF_W)) { g_exeDataLo = lo; continue; }
        if (g_nskip < 128) g_skip[g_nskip++] = {lo, hi};
        if (priv && (p.p_flags & PF_X) && g_npriv < 16) g_priv[g_npriv++] = {lo, hi};
    }
    return 0;
}
inline bool skipped(uintptr_t a) {
    if (a < g_exeDataLo) return true;
    if (a < 0x7f0000000000ull) return false;     // exe data, heap
    for (int i = 0; i < g_nskip; i++) if (a >= g_skip[i].lo && a < g_skip[i].hi) return true;
    return false;
}

// call stacks, kept only while an address is watched
uintptr_t g_watch = 0;
uint64_t g_raceAddr = 0;
constexpr int STK = 2048, REC = 8;
uint32_t g_stk[MAXT][STK];
int g_sp[MAXT];
struct Rec { uint32_t pc; int n; uint32_t st[24]; } g_rec[MAXT][REC];
int g_recN[MAXT];
void record(uint32_t pc) {
    Rec& r = g_rec[t_id][g_recN[t_id]++ % REC];
    r.pc = pc; r.n = 0;
    for (int i = std::min(g_sp[t_id], STK) - 1; i >= 0 && r.n < 24; i--) r.st[r.n++] = g_stk[t_id][i];
}
std::vector<uint32_t> recorded(int t, uint32_t pc) {
    std::vector<uint32_t> v{pc};
    for (int i = g_recN[t] - 1; i >= 0 && i >= g_recN[t] - REC; i--) {
        Rec& r = g_rec[t][i % REC];
        if (r.pc == pc) { v.insert(v.end(), r.st, r.st + r.n); break; }
    }
    return v;
}
void report(uint64_t old, uint32_t pc, uint64_t addr, int size, bool w) {
    uint32_t opc = uint32_t(old >> 36);
    if (g_watch && RES.stack1.empty() && (addr >> 3) == (g_watch >> 3)) {
        RES.stack1 = recorded((old >> 1) & 7, opc);
        RES.stack2 = recorded(t_id, pc);
    }
    for (auto& r : RES.races) if ((r.pc1 == opc && r.pc2 == pc) || (r.pc1 == pc && r.pc2 == opc)) return;
    if (RES.races.size() < 40) RES.races.push_back({opc, pc, addr, size, bool(old & 1), w});
}

int runnableCount() { int n = 0; for (int i = 0; i < nT; i++) n += !T[i].done && !T[i].blocked; return n; }
void setNext() {
    double u = R.uni();
    double g = C.mean > 0 ? -std::max(1.0, C.mean) * __builtin_log(1 - u) : 1e18;
    g_next = RES.events + 1 + (g > 1e17 ? uint64_t(1e17) : uint64_t(g));
}
void switchTo(int to) {
    int from = t_id;
    RES.switches++;
    RES.hash = (RES.hash ^ (RES.events * 8 + to)) * 1099511628211ull;
    if (RES.taken.size() < 200000) RES.taken.push_back({RES.events, to});
    g_cur = to;
    fwake(T[to].go);
    if (from >= 0 && !T[from].done) fwait(T[from].go);
}
int pickOther(bool includeSelf) {
    int cand[MAXT], n = 0;
    for (int i = 0; i < nT; i++)
        if (!T[i].done && !T[i].blocked && (includeSelf || i != t_id)) cand[n++] = i;
    if (!n) return -1;
    return cand[R.below(n)];
}
int forcedAt() {   // replay: is a switch recorded at this event count?
    while (g_fi < C.forced.size() && C.forced[g_fi].first < RES.events) g_fi++;
    if (g_fi < C.forced.size() && C.forced[g_fi].first == RES.events) return C.forced[g_fi++].second;
    return -1;
}
void preempt() {
    int to;
    if (C.replay) {
        to = forcedAt();
        if (to < 0 || to >= nT || to == t_id || T[to].done || T[to].blocked) return;
    } else {
        setNext();
        to = pickOther(false);
        if (to < 0) return;
    }
    switchTo(to);
}
// The running thread cannot continue (blocked or finished).
void giveUp() {
    int to = -1;
    if (C.replay) {
        to = forcedAt();
        if (to >= 0 && (to >= nT || T[to].done || T[to].blocked)) to = -1;
        if (to < 0) for (int i = 0; i < nT; i++) if (!T[i].done && !T[i].blocked) { to = i; break; }
    } else to = pickOther(false);
    if (to < 0) {
        bool any = false;
        for (int i = 0; i < nT; i++) if (!T[i].done) any = true;
        if (any) {
            RES.deadlock = true;
            for (int i = 0; i < nT; i++)
                if (!T[i].done) RES.deadlockInfo += strf("thread %d waits on %c; ", i, T[i].waitKind);
        }
        g_active = false;
        fwake(mainGo);
        if (!T[t_id].done) fwait(T[t_id].go);  // never returns after a deadlock
        return;
    }
    switchTo(to);
}
void block(const void* on, char kind) {
    auto& t = T[t_id];
    t.blocked = true; t.waitOn = on; t.waitKind = kind;
    RES.contended++;
    giveUp();
}
void wakeAll(const void* on) {
    for (int i = 0; i < nT; i++) if (T[i].blocked && T[i].waitOn == on) { T[i].blocked = false; T[i].waitOn = nullptr; }
}
inline bool on() { return g_active && t_id >= 0 && t_quiet == 0; }

inline void tick() {
    RES.events++;
    if (__builtin_expect(C.replay, 0)) {
        if (g_fi < C.forced.size() && C.forced[g_fi].first <= RES.events) preempt();
    } else if (__builtin_expect(RES.events >= g_next, 0)) preempt();
}
void lockTick() {
    RES.events++;
    RES.lockOps++;
    if (C.replay) { preempt(); return; }
    if (R.chance(C.lockP)) preempt();
}

inline void cellAccess(uint64_t* c, uint32_t pc, uintptr_t a, unsigned mask, bool w) {
    const VC& v = T[t_id].vc;
    uint64_t me = (uint64_t(pc) << 36) | (uint64_t(v.c[t_id] & 0xffffff) << 12) | (uint64_t(mask) << 4) |
                  (uint64_t(t_id) << 1) | uint64_t(w);
    int slot = -1;
    for (int i = 0; i < NC; i++) {
        uint64_t o = c[i];
        if (!o) { if (slot < 0) slot = i; continue; }
        int ot = (o >> 1) & 7;
        unsigned om = (o >> 4) & 0xff;
        if (ot == t_id) {
            if (om == mask && (w || !(o & 1))) slot = i;  // same thread, same bytes, not weaker
            continue;
        }
        if (!(om & mask)) continue;
        if (!w && !(o & 1)) continue;
        uint32_t oc = (o >> 12) & 0xffffff;
        if (oc > (v.c[ot] & 0xffffff)) report(o, pc, a, __builtin_popcount(mask), w);
    }
    if (slot < 0) {
        // prefer replacing an entry ordered before us
        for (int i = 0; i < NC && slot < 0; i++) {
            int ot = (c[i] >> 1) & 7;
            if (((c[i] >> 12) & 0xffffff) <= (v.c[ot] & 0xffffff)) slot = i;
        }
        if (slot < 0) slot = (a >> 3) & (NC - 1);
    }
    c[slot] = me;
}
inline bool foreign(const uint64_t* c) {
    for (int i = 0; i < NC; i++) if (c[i] && int((c[i] >> 1) & 7) != t_id) return true;
    return false;
}
inline void access(const void* p, int n, bool w, void* ra) {
    if (!on()) return;
    Q q;
    uintptr_t a = (uintptr_t)p;
    Th& t = T[t_id];
    if (a >= t.stLo && a < t.stHi) return;
    if (skipped(a)) return;
    uint32_t pc = uint32_t((uintptr_t)ra) & 0xfffffff;
    if (__builtin_expect(g_watch != 0, 0) && (a >> 3) <= (g_watch >> 3) && ((a + n - 1) >> 3) >= (g_watch >> 3)) record(pc);
    Page* pg = C.detectRaces || C.sharedP > 0 ? lookup(a >> 12, true) : nullptr;
    if (pg && !C.replay && C.sharedP > 0) {
        uint64_t* c = pg->cell[(a >> 3) & 511];
        if (foreign(c)) {
            RES.shared++;
            if (R.uni() < C.sharedP) g_next = RES.events + 1;
        }
    }
    tick();
    if (!pg || !C.detectRaces) return;
    unsigned off = a & 7;
    int first = std::min(n, int(8 - off));
    cellAccess(pg->cell[(a >> 3) & 511], pc, a, ((1u << first) - 1) << off, w);
    if (first < n) {
        uintptr_t b = a + first;
        Page* p2 = (b >> 12) == (a >> 12) ? pg : lookup(b >> 12, true);
        if (p2) {
            int rest = n - first;
            while (rest > 0) {
                int k = std::min(8, rest);
                if ((b >> 12) != ((a + first) >> 12)) { p2 = lookup(b >> 12, true); if (!p2) break; }
                cellAccess(p2->cell[(b >> 3) & 511], pc, b, (1u << k) - 1, w);
                b += k; rest -= k;
            }
        }
    }
}
void accessRange(const void* p, size_t n, bool w, void* ra) {
    if (!on() || !n) return;
    Q q;
    uintptr_t a = (uintptr_t)p;
    Th& t = T[t_id];
    if (a >= t.stLo && a < t.stHi) return;
    if (skipped(a)) return;
    tick();
    if (!C.detectRaces) return;
    uint32_t pc = uint32_t((uintptr_t)ra) & 0xfffffff;
    if (n > 65536) n = 65536;
    if (__builtin_expect(g_watch != 0, 0) && (a >> 3) <= (g_watch >> 3) && ((a + n - 1) >> 3) >= (g_watch >> 3)) record(pc);
    uintptr_t e = a + n;
    while (a < e) {
        unsigned off = a & 7;
        int k = std::min<uintptr_t>(8 - off, e - a);
        Page* pg = lookup(a >> 12, true);
        if (!pg) return;
        cellAccess(pg->cell[(a >> 3) & 511], pc, a, ((1u << k) - 1) << off, w);
        a += k;
    }
}
void* threadMain(void* x) {
    int id = (int)(intptr_t)x;
    t_id = id;
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* sp; size_t sz;
    pthread_attr_getstack(&at, &sp, &sz);
    pthread_attr_destroy(&at);
    T[id].stLo = (uintptr_t)sp; T[id].stHi = (uintptr_t)sp + sz;
    fwake(mainGo);
    fwait(T[id].go);
    T[id].fn();
    t_quiet++;
    T[id].done = true;
    giveUp();
    t_id = -1;
    // parked until the main thread lets every thread unwind one by one
    fwait(T[id].go);
    return nullptr;
}
} // namespace

bool available() { return true; }
void watch(uint64_t a) { g_watch = a; }
uint64_t& raceAddr() { return g_raceAddr; }

void quiet(int d) { t_quiet += d; }
void memFresh(void* p, size_t n) {
    if (!g_active || t_id < 0) return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uintptr_t pe = (a | 4095) + 1;
        if (pe > e) pe = e;
        Page* pg = lookup(a >> 12, false);
        if (pg) __real_memset(&pg->cell[(a >> 3) & 511], 0, (((pe - 1) >> 3) - (a >> 3) + 1) * sizeof(pg->cell[0]));
        a = pe;
    }
}
void yield() {
    if (!on()) return;
    Q q;
    RES.events++;
    preempt();
}

Result run(const Cfg& c, std::vector<std::function<void()>> threads) {
    mallopt(M_ARENA_MAX, 1);
    if (!g_sync) {
        g_sync = (Sync*)mmap(nullptr, SN * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        g_pt = (PEnt*)mmap(nullptr, PN * sizeof(PEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        dl_iterate_phdr(phdrCb, nullptr);
    } else {
        madvise(g_sync, SN * sizeof(Sync), MADV_DONTNEED);
        for (size_t i = 0; i < PN; i++) if (g_pt[i].page) munmap(g_pt[i].p, sizeof(Page));
        memset(g_pt, 0, PN * sizeof(PEnt));
        g_pages = 0;
    }
    C = c;
    R.reseed(c.seed);
    RES = Result();
    RES.hash = 1469598103934665603ull;
    g_fi = 0;
    nT = std::min<int>(threads.size(), MAXT);
    for (int i = 0; i < nT; i++) {
        T[i].go = 0; T[i].done = T[i].blocked = false; T[i].waitOn = nullptr;
        memset(&T[i].vc, 0, sizeof(VC));
        T[i].vc.c[i] = 1;
        T[i].fn = threads[i];
    }
    mainGo = 0;
    for (int i = 0; i < nT; i++) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 8 << 20);
        if (pthread_create(&T[i].h, &at, threadMain, (void*)(intptr_t)i)) { perror("pthread_create"); _exit(95); }
        fwait(mainGo);
    }
    setNext();
    int first = 0;
    if (C.replay) { int f = forcedAt(); if (f >= 0 && f < nT) first = f; }
    else { first = R.below(nT); }
    RES.taken.push_back({0, first});
    g_cur = first;
    g_active = true;
    fwake(T[first].go);
    fwait(mainGo);
    g_active = false;
    if (!RES.deadlock)
        for (int i = 0; i < nT; i++) { fwake(T[i].go); pthread_join(T[i].h, nullptr); T[i].fn = nullptr; }
    return RES;
}
}} // namespace sim::sched

using namespace sim;
using namespace sim::sched;
#define RA __builtin_return_address(0)

// --------------------------------------------------------------- compiler instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* ra) {
    if (__builtin_expect(g_watch == 0, 1) || t_id < 0) return;
    int i = g_sp[t_id]++;
    if (i < STK) g_stk[t_id][i] = uint32_t((uintptr_t)ra) & 0xfffffff;
}
void __tsan_func_exit() {
    if (__builtin_expect(g_watch == 0, 1) || t_id < 0) return;
    if (g_sp[t_id] > 0) g_sp[t_id]--;
}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, RA); } \
    void __tsan_write##n(void* p) { access(p, n, true, RA); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, RA); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, RA); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, RA); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { accessRange(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { accessRange(p, n, true, RA); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, false, RA); }

static void atomicSync(const volatile void* p) {
    if (!on()) return;
    Q q;
    RES.atomics++;
    RES.events++;
    if (C.replay) preempt();
    else if (R.chance(C.lockP * 0.25) || RES.events >= g_next) preempt();
    Sync* s = syncOf((const void*)p);
    acquire(s);
    release(s);
}
static void atomicLoadSync(const volatile void* p) {
    if (!on()) return;
    Q q;
    RES.atomics++;
    RES.events++;
    if (C.replay) preempt();
    else if (RES.events >= g_next) preempt();
    acquire(syncOf((const void*)p));
}
#define ATOMICS(n, t) \
    t __tsan_atomic##n##_load(const volatile t* p, int) { atomicLoadSync(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile t* p, t v, int) { atomicSync(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##n##_exchange(volatile t* p, t v, int) { atomicSync(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##n##_fetch_add(volatile t* p, t v, int) { atomicSync(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##n##_fetch_sub(volatile t* p, t v, int) { atomicSync(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##n##_fetch_and(volatile t* p, t v, int) { atomicSync(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##n##_fetch_or(volatile t* p, t v, int) { atomicSync(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##n##_fetch_xor(volatile t* p, t v, int) { atomicSync(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##n##_fetch_nand(volatile t* p, t v, int) { atomicSync(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile t* p, t* e, t v, int, int) { atomicSync(p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile t* p, t* e, t v, int, int) { atomicSync(p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##n##_compare_exchange_val(volatile t* p, t e, t v, int, int) { atomicSync(p); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (on()) { accessRange(s, n, false, RA); accessRange(d, n, true, RA); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (on()) { accessRange(s, n, false, RA); accessRange(d, n, true, RA); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (on()) accessRange(d, n, true, RA);
    return __real_memset(d, c, n);
}

// --------------------------------------------------------------- locks
#define REALP(name, ...) using RealT = __VA_ARGS__; static RealT real = nullptr; if (!real) real = (RealT)dlsym(RTLD_NEXT, name)
static void modelLock(const void* m, bool recursive, char kind, bool order = true) {
    Q q;
    lockTick();
    Sync* s = syncOf(m);
    if (s->owner == t_id) {
        if (recursive) { s->count++; return; }
        block(m, 'S'); // self-deadlock
        return;
    }
    while (s->owner >= 0 || s->readers > 0) block(m, kind);
    s->owner = t_id; s->count = 1;
    if (order) acquire(s);
}
static void modelUnlock(const void* m, bool order = true) {
    Q q;
    Sync* s = syncOf(m);
    if (s->owner == t_id && --s->count > 0) return;
    if (order) release(s);
    s->owner = -1; s->count = 0;
    wakeAll(m);
    lockTick();
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (on()) { modelLock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, 'M', !privateLock(__builtin_return_address(0))); return 0; }
    REALP("pthread_mutex_lock", int (*)(pthread_mutex_t*));
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (on()) {
        Q q;
        lockTick();
        Sync* s = syncOf(m);
        if (s->owner == t_id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
        if (s->owner >= 0) return EBUSY;
        s->owner = t_id; s->count = 1;
        acquire(s);
        return 0;
    }
    REALP("pthread_mutex_trylock", int (*)(pthread_mutex_t*));
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (on()) { modelUnlock(m, !privateLock(__builtin_return_address(0))); return 0; }
    REALP("pthread_mutex_unlock", int (*)(pthread_mutex_t*));
    return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    if (on()) { modelLock(m, false, 'W'); return 0; }
    REALP("pthread_rwlock_wrlock", int (*)(pthread_rwlock_t*));
    return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    if (on()) {
        Q q;
        lockTick();
        Sync* s = syncOf(m);
        while (s->owner >= 0) block(m, 'R');
        s->readers++;
        acquire(s);
        return 0;
    }
    REALP("pthread_rwlock_rdlock", int (*)(pthread_rwlock_t*));
    return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (on()) {
        Q q;
        Sync* s = syncOf(m);
        release(s);
        if (s->owner == t_id) { s->owner = -1; s->count = 0; }
        else if (s->readers > 0) s->readers--;
        wakeAll(m);
        lockTick();
        return 0;
    }
    REALP("pthread_rwlock_unlock", int (*)(pthread_rwlock_t*));
    return real(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (on()) {
        Q q;
        Sync* s = syncOf(m);
        release(s); s->owner = -1; s->count = 0; wakeAll(m);
        block(c, 'C'); modelLock(m, false, 'M'); acquire(syncOf(c)); return 0; }
    REALP("pthread_cond_wait", int (*)(pthread_cond_t*, pthread_mutex_t*));
    return real(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (on()) { Q q; release(syncOf(c)); wakeAll(c); lockTick(); return 0; }
    REALP("pthread_cond_signal", int (*)(pthread_cond_t*));
    return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (on()) { Q q; release(syncOf(c)); wakeAll(c); lockTick(); return 0; }
    REALP("pthread_cond_broadcast", int (*)(pthread_cond_t*));
    return real(c);
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    volatile int* st = (volatile int*)o;
    if (on()) {
        Sync* s;
        {
            Q q;
            lockTick();
            s = syncOf(o);
            while (*st == 1 && s->owner >= 0) block(o, 'O');
            if (*st == 2) { acquire(s); return 0; }
            *st = 1; s->owner = t_id;
        }
        struct Undo { volatile int* st; Sync* s; bool ok = false;
            ~Undo() { Q q; *st = ok ? 2 : 0; if (g_active && t_id >= 0) release(s); s->owner = -1; wakeAll((const void*)st); } } u{st, s};
        f();
        u.ok = true;
        return 0;
    }
    if (*st == 2) return 0;
    *st = 1;
    struct Undo { volatile int* st; bool ok = false; ~Undo() { *st = ok ? 2 : 0; } } u{st};
    f();
    u.ok = true;
    return 0;
}
int sched_yield() noexcept { if (on()) sim::sched::yield(); return 0; }
int nanosleep(const struct timespec* t, struct timespec* r) {
    if (on()) { sim::sched::yield(); return 0; }
    return syscall(SYS_nanosleep, t, r);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* t, struct timespec* r) {
    if (on()) { sim::sched::yield(); return 0; }
    return syscall(SYS_clock_nanosleep, c, f, t, r);
}

// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    volatile char* b = (volatile char*)g;
    if (on()) {
        Q q;
        lockTick();
        RES.guards++;
        Sync* s = syncOf(g);
        while (b[0] == 0 && b[1] == 1) {
            if (s->owner == t_id) { block(g, 'S'); return 0; } // recursive initialisation
            block(g, 'G');
        }
        if (b[0]) { acquire(s); return 0; }
        b[1] = 1;
        s->owner = t_id;
        return 1;
    }
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) noexcept {
    volatile char* b = (volatile char*)g;
    b[1] = 0;
    b[0] = 1;
    if (on()) { Q q; Sync* s = syncOf(g); s->owner = -1; release(s); wakeAll(g); lockTick(); }
}
void __cxa_guard_abort(uint64_t* g) noexcept {
    volatile char* b = (volatile char*)g;
    b[1] = 0;
    if (on()) { Q q; Sync* s = syncOf(g); s->owner = -1; release(s); wakeAll(g); lockTick(); }
}
}
#endif

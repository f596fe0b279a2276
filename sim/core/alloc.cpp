// Allocator seam: operator new and malloc/free of the whole process.
#include "simcore.h"
#include <malloc.h>
#include <new>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace sim { namespace sched { void memFresh(void* p, size_t n); void quiet(int d); } }

namespace {
bool g_armed = false;
long g_count = 0, g_failAt = 0, g_failN = 0, g_fired = 0;
bool g_junk = false;
uint64_t g_junkState = 1;
inline uint64_t jr() {
    g_junkState ^= g_junkState << 13; g_junkState ^= g_junkState >> 7; g_junkState ^= g_junkState << 17;
    return g_junkState;
}
void fillJunk(void* p, size_t n) {
    auto q = (unsigned char*)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v = jr(); memcpy(q + i, &v, 8); }
    for (; i < n; i++) q[i] = (unsigned char)jr();
}
// quarantine of freed blocks while junk mode is on
constexpr size_t QN = 1 << 14;
void* g_q[QN];
size_t g_qh = 0;

inline void* rawAlloc(size_t n) {
    if (__builtin_expect(g_junk, 0)) {
        void* p = __libc_malloc(n + (jr() & 15) * 16);
        if (p) fillJunk(p, malloc_usable_size(p));
        return p;
    }
    return __libc_malloc(n);
}
inline void rawFree(void* p) {
    if (!p) return;
#ifdef SIM_SCHED
    sim::sched::memFresh(p, malloc_usable_size(p));
#endif
    if (__builtin_expect(g_junk, 0)) {
        memset(p, 0xDD, malloc_usable_size(p));
        void* old = g_q[g_qh];
        g_q[g_qh] = p;
        g_qh = (g_qh + 1) % QN;
        if (old) __libc_free(old);
        return;
    }
    __libc_free(p);
}
inline bool shouldFail() {
    if (__builtin_expect(!g_armed, 1)) return false;
    g_count++;
    if (g_failAt && g_count >= g_failAt && g_count < g_failAt + g_failN) { g_fired++; return true; }
    return false;
}
}

extern "C" {
void* malloc(size_t n) {
    void* p = rawAlloc(n);
#ifdef SIM_SCHED
    if (p) sim::sched::memFresh(p, n);
#endif
    return p;
}
void free(void* p) { rawFree(p); }
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { return __libc_realloc(p, n); }
}

void* operator new(size_t n) {
    if (shouldFail()) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return shouldFail() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { rawFree(p); }
void operator delete[](void* p) noexcept { rawFree(p); }
void operator delete(void* p, size_t) noexcept { rawFree(p); }
void operator delete[](void* p, size_t) noexcept { rawFree(p); }
void* operator new(size_t n, std::align_val_t a) {
    if (shouldFail()) throw std::bad_alloc();
    void* p = __libc_memalign(size_t(a), n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { rawFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { rawFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { rawFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { rawFree(p); }

namespace sim { namespace alloc {
void arm(long failAt, long howMany) { g_count = 0; g_fired = 0; g_failAt = failAt; g_failN = howMany; g_armed = true; }
void disarm() { g_armed = false; }
void startCount() { g_count = 0; g_fired = 0; g_failAt = 0; g_failN = 0; g_armed = true; }
long count() { return g_count; }
long fired() { return g_fired; }
void junk(uint64_t seed) { g_junkState = seed * 2654435761u + 88172645463325252ull; g_junk = true; }
void junkOff() { g_junk = false; }
Pause::Pause() : was(g_armed) { g_armed = false; sched::quiet(1); }
Pause::~Pause() { g_armed = was; sched::quiet(-1); }
}}

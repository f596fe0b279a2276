// Core of the deterministic simulator: PRNG, plans, run context, world registry.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// splitmix64/xoshiro256** - the only source of randomness in a run.
struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t mix(uint64_t& x) {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed) { for (auto& v : s) v = mix(seed); }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); } // inclusive
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    double logu(double a, double b);
    bool chance(double p) { return uni() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Step {
    std::string op;            // a leading '!' marks a configuration line (never dropped)
    std::vector<double> a;
    std::string s;
    double arg(size_t i, double d = 0) const { return i < a.size() ? a[i] : d; }
    int iarg(size_t i, int d = 0) const { return i < a.size() ? int(a[i]) : d; }
};
using Plan = std::vector<Step>;
std::string planToText(const Plan& p);
Plan planFromText(const std::string& t);
inline const Step* findStep(const Plan& p, const std::string& op) {
    for (auto& s : p) if (s.op == op) return &s;
    return nullptr;
}

struct Violation { std::string sig, msg; };   // deliberately not a std::exception

struct Ctx {
    int tier = 0;
    uint64_t hash = 1469598103934665603ull;
    uint64_t events = 0;
    std::map<std::string, double> stats;
    std::set<uint64_t> states;            // distinct states / interleavings reached
    bool nontrivial = false;              // a fault fired or an interleaving happened
    std::string extra;                    // text appended to the replay plan (e.g. schedule)
    FILE* trace = nullptr;
    void count(const std::string& k, double n = 1) { stats[k] += n; }
    void probe(const std::string& k) { stats["probe." + k] += 1; }
    void fault(const std::string& k) { stats["fault." + k] += 1; nontrivial = true; }
    void state(uint64_t h) { if (states.size() < 4000) states.insert(h); }
    void ev(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void evbits(const char* name, const double* v, size_t n);
    [[noreturn]] void fail(const std::string& sig, const std::string& msg) {
        throw Violation{sig, msg};
    }
    void at(int step, const std::string& label);  // progress marker, survives a crash
};

struct World {
    std::string name;
    std::function<Plan(Rng&, int tier)> gen;
    std::function<void(const Plan&, Ctx&)> exec;
    std::function<void()> warm;   // run once in the parent before forking (may be null)
    int cpuLimit = 60;            // seconds of CPU per run before it counts as a hang
};
void addWorld(const World& w);
struct Reg { explicit Reg(const World& w) { addWorld(w); } };

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline uint64_t fnv(uint64_t h, const void* p, size_t n) {
    auto b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t fnvs(const std::string& s, uint64_t h = 1469598103934665603ull) {
    return fnv(h, s.data(), s.size());
}
std::string dataDir();            // /verif/simdata
std::string repoDir();

// ---------------------------------------------------------------- allocator seam
namespace alloc {
void arm(long failAt, long howMany);  // the failAt-th operator new from now throws (1-based)
void disarm();
long count();                         // operator new calls since the last arm()/startCount()
void startCount();
long fired();                         // injected failures since arm()
void junk(uint64_t seed);             // fill fresh and freed memory with seeded junk, pad sizes
void junkOff();
struct Pause { Pause(); ~Pause(); bool was; };   // harness code: no failing allocations, no preemption
}

// ---------------------------------------------------------------- simulated disk and clock
namespace fs {
enum Kind { OPEN_R, OPEN_W, READ, WRITE, CLOSE, STAT, NKIND };
void reset();                               // forget every simulated file and fault
void put(const std::string& path, const std::string& data, int64_t mtime = -1);
bool get(const std::string& path, std::string& data);
bool exists(const std::string& path);
void erase(const std::string& path);
void setMtime(const std::string& path, int64_t mtime);
int64_t mtime(const std::string& path);
std::vector<std::string> list();
void setGranularity(int64_t ns);
void addFault(Kind k, int nth, int err, int howMany, int partial = -1); // counted from arm()
void arm();
void disarm();
void setCapacity(int64_t bytes);            // total bytes on the simulated disk, -1 unlimited
int64_t used();
int openHandles();                          // descriptors not yet closed
long fired(Kind k);
long firedAny();
long opCount(Kind k);
void denyRead(const std::string& path, int err);  // persistent open-for-read failure (0 clears)
extern std::function<void(Kind, const std::string&)> onOp;
}
namespace clk {
void enable(int64_t startNs);
void disable();
void advance(int64_t ns);                   // may be negative: a clock jump
void jitter(uint64_t seed);                 // every reading moves by a random (possibly negative) step
int64_t now();
long reads();
}

// ---------------------------------------------------------------- schedule seam (sched build)
namespace sched {
struct Cfg {
    uint64_t seed = 1;
    double mean = 200;                 // mean instrumented events between preemptions
    double lockP = 0.5;                // chance of a preemption at a lock operation
    double sharedP = 0.05;             // chance of a preemption at an access to memory another thread used
    std::vector<std::pair<uint64_t, int>> forced; // replay: (event counter, thread)
    bool replay = false;
    bool detectRaces = true;
};
struct Race { uint32_t pc1, pc2; uint64_t addr; int size; bool w1, w2; };
struct Result {
    uint64_t events = 0, switches = 0, shared = 0, lockOps = 0, contended = 0, guards = 0, atomics = 0;
    uint64_t hash = 0;
    bool deadlock = false;
    std::string deadlockInfo;
    std::vector<Race> races;
    std::vector<uint32_t> stack1, stack2;   // call stacks of the first race (second pass only)
    std::vector<std::pair<uint64_t, int>> taken;
};
Result run(const Cfg& c, std::vector<std::function<void()>> threads);
bool available();
// A run that ends in a race is repeated by the controller with the address watched, so that
// the report can name the callers of both accesses.
void watch(uint64_t addr);
uint64_t& raceAddr();
void yield();         // voluntary switch point
}
}

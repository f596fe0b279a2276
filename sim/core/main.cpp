#include "simcore.h"
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <exception>
#include <fstream>
#include <sstream>
#include <typeinfo>

namespace sim {
static std::map<std::string, World>& worlds() { static std::map<std::string, World> w; return w; }
void addWorld(const World& w) { worlds()[w.name] = w; }

double Rng::logu(double a, double b) { return a * std::exp(std::log(b / a) * uni()); }

std::string strf(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char* p = nullptr;
    int n = vasprintf(&p, fmt, ap);
    va_end(ap);
    std::string s(p, n < 0 ? 0 : n);
    free(p);
    return s;
}
static std::string envOr(const char* k, const char* d) { auto v = getenv(k); return v ? v : d; }
std::string dataDir() { return envOr("SIM_DATA", "/verif/simdata"); }
std::string repoDir() { return envOr("VERIF_REPO", "/repo"); }

std::string planToText(const Plan& p) {
    std::string o;
    for (auto& s : p) {
        o += s.op + "|";
        for (size_t i = 0; i < s.a.size(); i++) o += strf(i ? " %.17g" : "%.17g", s.a[i]);
        o += "|" + s.s + "\n";
    }
    return o;
}
Plan planFromText(const std::string& t) {
    Plan p;
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        auto i = line.find('|'), j = line.find('|', i + 1);
        if (i == std::string::npos || j == std::string::npos) continue;
        Step s;
        s.op = line.substr(0, i);
        std::istringstream nums(line.substr(i + 1, j - i - 1));
        std::string w;
        while (nums >> w) s.a.push_back(strtod(w.c_str(), nullptr));
        s.s = line.substr(j + 1);
        p.push_back(s);
    }
    return p;
}

constexpr size_t PLANMAX = 2 << 20, OUTMAX = 12 << 20;
struct Shared {
    int step; char label[400];
    int status, tier;
    uint64_t watch, raceAddr;
    size_t planLen, outLen;
    char plan[PLANMAX], out[OUTMAX];
};
static Shared* g_shared = nullptr;
static FILE* g_trace = nullptr;

void Ctx::ev(const char* fmt, ...) {
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof(buf) - 1) n = sizeof(buf) - 1;
    hash = fnv(hash, buf, n);
    events++;
    if (trace) { fwrite(buf, 1, n, trace); fputc('\n', trace); }
}
void Ctx::evbits(const char* name, const double* v, size_t n) {
    uint64_t h = fnv(1469598103934665603ull, v, n * sizeof(double));
    ev("%s n=%zu bits=%016llx first=%.17g", name, n, (unsigned long long)h, n ? v[0] : 0.0);
}
void Ctx::at(int step, const std::string& label) {
    if (!g_shared) return;
    g_shared->step = step;
    snprintf(g_shared->label, sizeof g_shared->label, "%s", label.c_str());
}

struct RunResult {
    bool violation = false;
    std::string sig, msg, extra;
    uint64_t hash = 0, events = 0;
    bool nontrivial = false;
    std::map<std::string, double> stats;
    std::vector<uint64_t> states;
};

static std::string oneLine(std::string s) {
    for (auto& c : s) if (c == '\n' || c == '\r') c = ' ';
    if (s.size() > 1500) s.resize(1500);
    return s;
}
static std::string escNl(const std::string& s) {
    std::string o;
    for (char c : s) { if (c == '\n') o += '\x01'; else o += c; }
    return o;
}

static void childBody(const World& w, const Plan& plan, int tier) {
    Ctx ctx;
    ctx.tier = tier;
    sched::watch(g_shared->watch);
    ctx.trace = g_trace;
    std::string sig, msg;
    bool viol = false;
    try {
        w.exec(plan, ctx);
    } catch (Violation& v) {
        viol = true; sig = v.sig; msg = v.msg;
    } catch (std::exception& e) {
        viol = true; sig = std::string("harness-exception:") + typeid(e).name(); msg = e.what();
    } catch (...) {
        viol = true; sig = "harness-exception:unknown"; msg = "unknown exception escaped the world";
    }
    alloc::disarm();
    fs::disarm();
    if (g_trace) fflush(g_trace);
    g_shared->raceAddr = sched::raceAddr();
    std::string o;
    if (viol) o += "V\t" + oneLine(sig) + "\t" + oneLine(msg) + "\n";
    if (!ctx.extra.empty()) o += "X\t" + escNl(ctx.extra) + "\n";
    o += strf("H\t%016llx\t%llu\t%d\n", (unsigned long long)ctx.hash,
              (unsigned long long)ctx.events, int(ctx.nontrivial));
    for (auto& [k, v] : ctx.stats) o += strf("S\t%s\t%.17g\n", k.c_str(), v);
    for (auto h : ctx.states) o += strf("D\t%016llx\n", (unsigned long long)h);
    o += "E\n";
    size_t n = std::min(o.size(), OUTMAX);
    memcpy(g_shared->out, o.data(), n);
    g_shared->outLen = n;
}

// The zygote is forked before the controller allocates anything run-dependent; every run is a
// fork of the zygote, so its heap is the same in a sweep, in a replay and at any worker count.
static int g_cmd[2], g_ack[2];
static void zygote(const World& w) {
    char c;
    while (syscall(SYS_read, g_cmd[0], &c, 1) == 1) {
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (!getenv("SIM_VERBOSE")) {
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1); dup2(dn, 2);
            }
            struct rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
            struct rlimit cpu;
            getrlimit(RLIMIT_CPU, &cpu);
            cpu.rlim_cur = w.cpuLimit; cpu.rlim_max = w.cpuLimit + 5;
            setrlimit(RLIMIT_CPU, &cpu);
            if (auto t = getenv("SIM_TRACE")) g_trace = fopen(t, "w");
            childBody(w, planFromText(std::string(g_shared->plan, g_shared->planLen)), g_shared->tier);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        g_shared->status = st;
        syscall(SYS_write, g_ack[1], "k", 1);
    }
    _exit(0);
}
static void startZygote(const World& w) {
    if (pipe(g_cmd) || pipe(g_ack)) { perror("pipe"); exit(3); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(g_cmd[1]); close(g_ack[0]);
        zygote(w);
    }
    close(g_cmd[0]); close(g_ack[1]);
}

static RunResult runPlan(const World& w, const Plan& plan, int tier, uint64_t watch = 0) {
    std::string txt = planToText(plan);
    if (txt.size() > PLANMAX) { fprintf(stderr, "plan too long\n"); exit(3); }
    memcpy(g_shared->plan, txt.data(), txt.size());
    g_shared->planLen = txt.size();
    g_shared->tier = tier;
    g_shared->watch = watch; g_shared->raceAddr = 0;
    g_shared->step = -1; g_shared->label[0] = 0; g_shared->outLen = 0;
    char c;
    if (syscall(SYS_write, g_cmd[1], "r", 1) != 1 || syscall(SYS_read, g_ack[0], &c, 1) != 1) {
        fprintf(stderr, "zygote died\n"); exit(3);
    }
    int st = g_shared->status;
    if (!watch && g_shared->raceAddr && g_shared->outLen) return runPlan(w, plan, tier, g_shared->raceAddr);
    std::string out(g_shared->out, g_shared->outLen);
    RunResult r;
    std::istringstream in(out);
    std::string line;
    bool ended = false;
    while (std::getline(in, line)) {
        std::vector<std::string> f;
        size_t p = 0;
        while (true) {
            auto q = line.find('\t', p);
            f.push_back(line.substr(p, q == std::string::npos ? q : q - p));
            if (q == std::string::npos) break;
            p = q + 1;
        }
        if (f[0] == "V" && f.size() >= 3) { r.violation = true; r.sig = f[1]; r.msg = f[2]; }
        else if (f[0] == "X" && f.size() >= 2) r.extra = f[1];
        else if (f[0] == "H" && f.size() >= 4) {
            r.hash = strtoull(f[1].c_str(), nullptr, 16);
            r.events = strtoull(f[2].c_str(), nullptr, 10);
            r.nontrivial = f[3] == "1";
        } else if (f[0] == "S" && f.size() >= 3) r.stats[f[1]] = strtod(f[2].c_str(), nullptr);
        else if (f[0] == "D" && f.size() >= 2) r.states.push_back(strtoull(f[1].c_str(), nullptr, 16));
        else if (f[0] == "E") ended = true;
    }
    if (!ended) {
        r.violation = true;
        std::string lab = g_shared->label;
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGXCPU || (s == SIGKILL)) {
                r.sig = "hang:" + lab;
                r.msg = strf("no completion within %d s of CPU time (signal %d) at step %d", w.cpuLimit, s, g_shared->step);
            } else {
                r.sig = strf("crash:%s:", s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" :
                             s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : "signal") + lab;
                r.msg = strf("process killed by signal %d at step %d", s, g_shared->step);
            }
        } else {
            r.sig = "exit:" + lab;
            r.msg = strf("process exited with status %d at step %d", WEXITSTATUS(st), g_shared->step);
        }
    }
    return r;
}

static uint64_t runSeed(uint64_t seed, const std::string& world, uint64_t idx) {
    uint64_t x = seed * 0x9E3779B97F4A7C15ull ^ fnvs(world) ^ (idx * 0xD1B54A32D192ED03ull);
    return Rng::mix(x);
}
}

using namespace sim;

int main(int argc, char** argv) {
    // one fixed address-space layout: pointer values never differ between two executions
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        setenv("OPENBLAS_NUM_THREADS", "1", 1);
        setenv("OPENBLAS_CORETYPE", "Haswell", 0);
        setenv("LC_ALL", "C", 1);
        setenv("TZ", "UTC", 1);
        unsetenv("CANTERA_DATA");
        unsetenv("CONDA_PREFIX");
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    if (argc < 3) { fprintf(stderr, "usage: sim run|gen|replay ...\n"); return 3; }
    g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string cmd = argv[1], wn = argv[2];
    if (cmd == "list") { for (auto& [k, v] : worlds()) printf("%s\n", k.c_str()); return 0; }
    if (!worlds().count(wn)) { fprintf(stderr, "no such world: %s\n", wn.c_str()); return 3; }
    World& w = worlds()[wn];
    if (cmd == "gen") {
        uint64_t seed = strtoull(argv[3], nullptr, 10), idx = strtoull(argv[4], nullptr, 10);
        int tier = argc > 5 ? atoi(argv[5]) : 0;
        Rng rng(runSeed(seed, wn, idx));
        fputs(planToText(w.gen(rng, tier)).c_str(), stdout);
        return 0;
    }
    if (w.warm) w.warm();
    if (cmd == "direct") {   // direct WORLD SEED IDX TIER: one run in this very process (for a debugger)
        if (FILE* f = fopen(argv[3], "r")) {     // direct WORLD PLANFILE [TIER]
            std::string t; int ch;
            while ((ch = fgetc(f)) != EOF) t += char(ch);
            fclose(f);
            childBody(w, planFromText(t), argc > 4 ? atoi(argv[4]) : 0);
        } else {
            Rng rng(runSeed(strtoull(argv[3], nullptr, 10), wn, strtoull(argv[4], nullptr, 10)));
            int tier = argc > 5 ? atoi(argv[5]) : 0;
            childBody(w, w.gen(rng, tier), tier);
        }
        fputs(std::string(g_shared->out, g_shared->outLen).c_str(), stdout);
        return 0;
    }
    startZygote(w);
    auto emit = [&](const std::string& id, const RunResult& r) {
        printf("R\t%s\t%s\t%016llx\t%llu\t%d\n", id.c_str(), r.violation ? "V" : "ok",
               (unsigned long long)r.hash, (unsigned long long)r.events, int(r.nontrivial));
        if (r.violation) printf("V\t%s\t%s\t%s\n", id.c_str(), r.sig.c_str(), r.msg.c_str());
        if (r.violation && !r.extra.empty()) printf("X\t%s\t%s\n", id.c_str(), r.extra.c_str());
    };
    if (cmd == "replay") {
        std::ifstream f(argv[3]);
        std::stringstream ss;
        ss << f.rdbuf();
        Plan p = planFromText(ss.str());
        int tier = argc > 4 ? atoi(argv[4]) : 0;
        auto r = runPlan(w, p, tier);
        emit("0", r);
        for (auto& [k, v] : r.stats) printf("S\t%s\t%.17g\n", k.c_str(), v);
        return 0;
    }
    if (cmd == "run") {
        // run WORLD SEED START STRIDE COUNT TIER WALLCAP
        uint64_t seed = strtoull(argv[3], nullptr, 10);
        uint64_t start = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10);
        uint64_t count = strtoull(argv[6], nullptr, 10);
        int tier = atoi(argv[7]);
        double cap = atof(argv[8]);
        struct timespec t0;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
        std::map<std::string, double> stats;
        std::set<uint64_t> states;
        int viol = 0, maxViol = getenv("SIM_MAXV") ? atoi(getenv("SIM_MAXV")) : 12;
        for (uint64_t i = start; i < count; i += stride) {
            struct timespec t1;
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
            if (t1.tv_sec - t0.tv_sec + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > cap) break;
            Rng rng(runSeed(seed, wn, i));
            Plan p = w.gen(rng, tier);
            auto r = runPlan(w, p, tier);
            emit(std::to_string(i), r);
            fflush(stdout);
            for (auto& [k, v] : r.stats) stats[k] += v;
            for (auto h : r.states) if (states.size() < 200000) states.insert(h);
            if (r.violation && ++viol >= maxViol) break;
        }
        for (auto& [k, v] : stats) printf("S\t%s\t%.17g\n", k.c_str(), v);
        for (auto h : states) printf("D\t%016llx\n", (unsigned long long)h);
        printf("E\n");
        return 0;
    }
    fprintf(stderr, "unknown command\n");
    return 3;
}

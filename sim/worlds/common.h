// Shared helpers for the worlds.
#pragma once
#include "../core/simcore.h"
#include "cantera/base/AnyMap.h"
#include "cantera/base/Solution.h"
#include "cantera/base/SolutionArray.h"
#include "cantera/base/ctexceptions.h"
#include "cantera/base/logger.h"
#include "cantera/base/global.h"
#include "cantera/base/Interface.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/transport/Transport.h"
#include <cmath>
#include <cerrno>
#include <fcntl.h>
#include <new>
#include <typeinfo>
#include <sys/syscall.h>
#include <unistd.h>

namespace simw {
using namespace Cantera;
using std::string; using std::vector; using std::map; using std::shared_ptr;

struct Outcome {
    bool ok = true;
    string kind, msg;      // kind: "CanteraError", "bad_alloc", "std", "unknown"
    string type;
};
template <class F> Outcome attempt(F&& f) {
    Outcome o;
    try { f(); }
    catch (sim::Violation&) { throw; }
    catch (std::bad_alloc& e) { sim::alloc::Pause p; o.ok = false; o.kind = "bad_alloc"; o.type = "std::bad_alloc"; }
    catch (CanteraError& e) {
        sim::alloc::Pause p;
        o.ok = false; o.kind = "CanteraError"; o.type = typeid(e).name();
        try { o.msg = e.what(); } catch (...) { o.msg = "(what() threw)"; }
    }
    catch (std::exception& e) { sim::alloc::Pause p; o.ok = false; o.kind = "std"; o.type = typeid(e).name(); o.msg = e.what(); }
    catch (...) { o.ok = false; o.kind = "unknown"; }
    return o;
}
inline string readReal(const string& path) {
    int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) { fprintf(stderr, "cannot read %s\n", path.c_str()); _exit(94); }
    string s; char b[65536]; long n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
    syscall(SYS_close, fd);
    return s;
}
inline bool realExists(const string& path) { return syscall(SYS_faccessat, AT_FDCWD, path.c_str(), 4) == 0; }
inline string dataPath(const string& f) {
    for (auto d : {sim::dataDir() + "/", sim::repoDir() + "/data/", sim::repoDir() + "/test/data/"})
        if (realExists(d + f)) return d + f;
    fprintf(stderr, "no data file %s\n", f.c_str());
    _exit(94);
}
inline void mount(const string& f, const string& as = "") {
    sim::fs::put("/simfs/data/" + (as.empty() ? f : as), readReal(dataPath(f)));
}
inline void quiet() { suppress_thermo_warnings(true); }
struct NullLogger : Logger {
    void write(const string&) override {}
    void writeendl() override {}
    void warn(const string&, const string&) override {}
    void error(const string&) override {}
};
inline void silence() { setLogger(new NullLogger); }
inline bool close(double a, double b, double rtol, double atol = 0) {
    if (std::isnan(a) && std::isnan(b)) return true;
    if (a == b) return true;
    return std::abs(a - b) <= rtol * std::max(std::abs(a), std::abs(b)) + atol;
}
inline bool bitEq(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
inline string g17(double x) { return sim::strf("%.17g", x); }
inline string ecut(const string& s, size_t n = 160) {
    string o;
    for (char c : s) { if (c == '\n') o += ' '; else if (c != '*') o += c; }
    if (o.size() > n) o.resize(n);
    return o;
}
// random composition with some zero entries, returned as a normalised vector
inline vector<double> randComp(sim::Rng& r, size_t n, double pzero = 0.3) {
    vector<double> x(n);
    double s = 0;
    do {
        s = 0;
        for (auto& v : x) { v = r.chance(pzero) ? 0.0 : r.logu(1e-6, 1.0); s += v; }
    } while (s <= 0);
    for (auto& v : x) v /= s;
    return x;
}
}

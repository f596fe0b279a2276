// F01 "oom": client work interrupted by allocation failures anywhere, then repeated.
// X01 "determinism": the same client work in different process environments.
#include "jobs.h"
#include "child.h"

namespace {
using namespace simw;
using sim::Ctx; using sim::Plan; using sim::Rng;

// ------------------------------------------------------------------ F01
// plan: !job kind seed       the work whose result is compared
//       fail kind seed frac many   other or the same work interrupted: frac selects the allocation
// The reference is the work done alone, in a child forked before anything else happened.
struct Ref { Dig d; long n = 0; bool ok = false; };
Ref reference(int kind, uint64_t seed) {
    Ref r;
    r.ok = inChild([&](Dig& d) {
        sim::alloc::startCount();
        runJob(kind, seed, d);
        long n = sim::alloc::count();
        sim::alloc::disarm();
        d.add("#allocations", std::to_string(n));
    }, r.d);
    if (r.ok && !r.d.items.empty()) { r.n = atol(r.d.items.back().second.c_str()); r.d.items.pop_back(); }
    return r;
}
// an item that reports an error in one digest but not in the other
bool errItem(const string& v) { return v.find("bad_alloc") != string::npos || v.rfind("CanteraError|", 0) == 0 || v.rfind("std|", 0) == 0 || v.rfind("error:", 0) == 0 || v.rfind("unknown|", 0) == 0; }
void execOom(const Plan& p, Ctx& c) {
    auto& J = jobs();
    int step = 0;
    map<string, Ref> refs;
    auto ref = [&](int k, uint64_t sd) -> Ref& {
        string key = std::to_string(k) + "/" + std::to_string(sd);
        auto it = refs.find(key);
        if (it == refs.end()) it = refs.emplace(key, reference(k, sd)).first;
        return it->second;
    };
    // references first: nothing has happened in this process yet
    for (auto& s : p) if (s.op == "job" || s.op == "fail") {
        c.at(step, "F01:reference:" + J[s.iarg(0) % J.size()].name);
        if (!ref(s.iarg(0), uint64_t(s.arg(1))).ok) { c.count("skip.reference-crash"); return; }
    }
    for (auto& s : p) {
        step++;
        if (s.op == "fail") {
            int k = s.iarg(0) % J.size();
            auto& R = ref(s.iarg(0), uint64_t(s.arg(1)));
            long at = 1 + long(s.arg(2) * R.n);
            c.at(step, "F01:" + J[k].name);
            Dig d;
            d.items.reserve(4000);
            sim::alloc::arm(at, long(s.arg(3)));
            runJob(k, uint64_t(s.arg(1)), d);
            long fired = sim::alloc::fired();
            sim::alloc::disarm();
            c.ev("fail %s at %ld/%ld fired %ld -> %016llx", J[k].name.c_str(), at, R.n, fired, (unsigned long long)d.h);
            if (fired) { c.fault("alloc"); c.state(sim::fnvs(J[k].name) * 1000003 + at); }
            // no error reported anywhere: the results must be the right ones
            bool anyErr = false, foreign = false;
            std::set<string> refErr;
            for (auto& i : R.d.items) if (errItem(i.second)) refErr.insert(i.second);
            for (auto& i : d.items) {
                if (errItem(i.second) && !refErr.count(i.second)) anyErr = true;
                if (i.second.rfind("unknown|", 0) == 0 || i.second == "error:unknown") foreign = true;
            }
            if (foreign) c.fail("F01:foreign-exception:" + J[k].name, "an exception not derived from std::exception was thrown");
            if (!anyErr) {
                const string& n = J[k].name;
                bool solver = n == "flame" || n == "reactors" || n == "surfreactor" || n == "equilibrate" || n == "mixture" || n == "pseudosteady" || n == "surface";
                string df = solver ? digDiffTol(R.d, d, 2e-2) : digDiff(R.d, d);
                if (!df.empty()) c.fail("F01:silent:" + J[k].name + ":" + digItem(R.d, d), sim::strf("allocation %ld of %ld failed, no error was reported, and the result differs from the undisturbed one: ", at, R.n) + df);
                c.probe("absorbed");
            } else c.probe("reported");
        } else if (s.op == "job") {
            int k = s.iarg(0) % J.size();
            auto& R = ref(s.iarg(0), uint64_t(s.arg(1)));
            c.at(step, "F01:retry:" + J[k].name);
            Dig d;
            runJob(k, uint64_t(s.arg(1)), d);
            c.ev("job %s -> %016llx", J[k].name.c_str(), (unsigned long long)d.h);
            string df = digDiff(R.d, d);
            if (!df.empty()) c.fail("F01:after-failure:" + J[k].name + ":" + digItem(R.d, d), "work done after a failed allocation elsewhere gives a different result: " + df);
        } else if (s.op == "end") {
            c.at(step, "F01:appdelete");
            appdelete();
        }
    }
}
Plan genOom(Rng& r, int tier) {
    Plan p;
    int k = pickJob(r);
    double sd = double(r.below(1u << 20));
    int nf = r.range(1, 4);
    for (int i = 0; i < nf; i++) {
        int fk = r.chance(0.8) ? k : pickJob(r);
        double fs = r.chance(0.85) && fk == k ? sd : double(r.below(1u << 20));
        double f = r.chance(0.3) ? r.logu(1e-5, 1) : r.uni();
        double many = r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 30) : 1e9;
        p.push_back({"fail", {double(fk), fs, f, many}, ""});
        if (r.chance(0.3)) p.push_back({"job", {double(k), sd}, ""});
    }
    p.push_back({"job", {double(k), sd}, ""});
    if (r.chance(0.3)) p.push_back({"job", {double(pickJob(r)), double(r.below(1u << 20))}, ""});
    if (r.chance(0.2)) p.push_back({"end", {}, ""});
    return p;
}

// ------------------------------------------------------------------ X01
// plan: job kind seed; then any of: junk seed | clock seed | prior kind seed | decimal | twice
void execDet(const Plan& p, Ctx& c) {
    auto& J = jobs();
    const sim::Step* job = sim::findStep(p, "!job");
    if (!job) return;
    int k = job->iarg(0) % J.size();
    uint64_t sd = uint64_t(job->arg(1));
    c.at(0, "X01:" + J[k].name);
    Dig ref, got;
    if (!inChild([&](Dig& d) { runJob(k, sd, d); }, ref)) { c.count("skip.reference-crash"); return; }
    string env;
    bool ok = inChild([&](Dig& d) {
        for (auto& s : p) {
            if (s.op == "junk") sim::alloc::junk(uint64_t(s.arg(0)));
            else if (s.op == "clock") { sim::clk::enable(int64_t(s.arg(0)) * 1000000000); sim::clk::jitter(uint64_t(s.arg(1))); }
            else if (s.op == "locale") std::locale::global(std::locale(std::locale::classic(), new CommaPunct));
            else if (s.op == "prior") { Dig x; runJob(s.iarg(0) % J.size(), uint64_t(s.arg(1)), x); }
            else if (s.op == "stack") eatStack(s.iarg(0), uint64_t(s.arg(1)));
            else if (s.op == "fp") { volatile double z = 0, q = 1 / z; (void)q; errno = s.iarg(0); }
        }
        runJob(k, sd, d);
    }, got);
    for (auto& s : p) if (s.op != "!job") { env += (env.empty() ? "" : "+") + s.op; c.fault(s.op); c.state(sim::fnvs(J[k].name + s.op)); if (s.op == "prior") c.state(sim::fnvs(J[k].name + J[s.iarg(0) % J.size()].name)); }
    c.ev("job %s %016llx env %s", J[k].name.c_str(), (unsigned long long)ref.h, env.c_str());
    if (!ok) c.fail("X01:crash:" + J[k].name, "the work crashed when done under: " + env);
    string df = digDiff(ref, got);
    if (!df.empty()) c.fail("X01:" + J[k].name + ":" + digItem(ref, got), "the same work gives another result under " + env + ": " + df);
}
Plan genDet(Rng& r, int) {
    Plan p;
    int k = pickJob(r);
    p.push_back({"!job", {double(k), double(r.below(1u << 20))}, ""});
    if (r.chance(0.6)) for (int i = r.range(1, 3); i > 0; i--)
        p.push_back({"prior", {double(r.chance(0.3) ? k : pickJob(r)), double(r.below(1u << 20))}, ""});
    if (r.chance(0.7)) p.push_back({"junk", {double(r.below(1u << 20))}, ""});
    if (r.chance(0.4)) p.push_back({"clock", {double(r.below(2000000000)), double(r.below(1u << 20))}, ""});
    if (r.chance(0.2)) p.push_back({"stack", {double(r.range(1, 200)), double(r.below(1u << 20))}, ""});
    if (r.chance(0.1)) p.push_back({"fp", {double(r.range(1, 40))}, ""});
    if (p.size() == 1) p.push_back({"junk", {double(r.below(1u << 20))}, ""});
    return p;
}
void warm() { quiet(); silence(); }
sim::Reg r1({"oom", genOom, execOom, warm, 120});
sim::Reg r2({"determinism", genDet, execDet, warm, 120});
}

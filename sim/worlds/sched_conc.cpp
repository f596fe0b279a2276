// C01 "threads":  each thread works on its own objects, created before or inside the threads.
// C02 "shared":   first use of everything, input file cache with an external editor, data directories.
// C03 "messages": loggers and error stacks of threads.
#include "jobs.h"
#include "child.h"
#include "base/application.h"

namespace {
using namespace simw;
using sim::Ctx; using sim::Plan; using sim::Rng;

// schedules are recorded as "switch|<events> <thread> <events> <thread> ...|" lines
sim::sched::Cfg config(const Plan& p) {
    sim::sched::Cfg cf;
    auto s = sim::findStep(p, "!sched");
    if (s) { cf.seed = uint64_t(s->arg(0)); cf.mean = s->arg(1); cf.lockP = s->arg(2); cf.sharedP = s->arg(3); }
    for (auto& q : p) if (q.op == "switch") {
        cf.replay = true;
        for (size_t i = 0; i + 1 < q.a.size(); i += 2) cf.forced.push_back({uint64_t(q.a[i]), int(q.a[i + 1])});
    }
    return cf;
}
sim::Step genSched(Rng& r) {
    double mean = r.chance(0.25) ? 1e18 : r.logu(50, 2e6);
    double lockP = r.chance(0.3) ? 0 : r.logu(0.003, 0.6), sh = r.chance(0.4) ? 0 : r.logu(1e-4, 0.1);
    return {"!sched", {double(r.below(1u << 30)), mean, lockP, sh}, ""};
}
void finish(Ctx& c, const string& prop, const sim::sched::Result& R) {
    c.ev("schedule %016llx events %llu switches %llu shared %llu", (unsigned long long)R.hash, (unsigned long long)R.events,
         (unsigned long long)R.switches, (unsigned long long)R.shared);
    c.count("schedule.switches", R.switches);
    c.count("schedule.events", R.events);
    c.count("schedule.shared-accesses", R.shared);
    c.count("schedule.lock-operations", R.lockOps);
    c.count("schedule.blocked", R.contended);
    if (R.switches > 3) c.fault("preemption");
    c.state(R.hash);
    string x;
    for (size_t i = 0; i < R.taken.size();) {
        x += "switch|";
        for (int k = 0; k < 1 && i < R.taken.size(); k++, i++) x += sim::strf("%llu %d", (unsigned long long)R.taken[i].first, R.taken[i].second);
        x += "|\n";
    }
    c.extra = x;
    if (R.deadlock) c.fail(prop + ":deadlock", "no thread can continue: " + R.deadlockInfo);
    if (!R.races.empty()) {
        // named by the innermost functions of the library in both call stacks; the order of the
        // two accesses is a matter of the schedule, bin/check sorts the names
        auto& q = R.races[0];
        sim::sched::raceAddr() = q.addr;
        auto chain = [](const vector<uint32_t>& v, uint32_t pc) {
            string s;
            if (v.empty()) s = sim::strf("%x", pc);
            for (auto a : v) s += sim::strf(s.empty() ? "%x" : ",%x", a);
            return s;
        };
        c.fail(prop + ":race:@pcs:" + chain(R.stack1, q.pc1) + ":" + chain(R.stack2, q.pc2) + "@",
               sim::strf("unsynchronised accesses to the same %d bytes (%s/%s)", q.size, q.w1 ? "write" : "read", q.w2 ? "write" : "read"));
    }
}
void clean(Ctx& c) { c.extra.clear(); }

// ------------------------------------------------------------------ C01, C02
// plan: !sched ... ; !mode prepared; work thread kind seed ; load thread ; edit thread ; dirs thread k ; find thread k
struct VersionLog { long cur = 0; };
struct Work { int kind; uint64_t seed; Dig ref, got; RunF f; bool made = true; Outcome mk; };
string sharedText(long v) {
    string s = sim::strf("version: %ld\nspecies: [", v);
    for (int i = 0; i < 12; i++) s += sim::strf("%s{name: S%d, value: %ld}", i ? ", " : "", i, v);
    return s + sim::strf("]\nlast: %ld\n", v);
}
const char* const SHARED = "/simfs/data/shared.yaml";
void execThreads(const Plan& p, Ctx& c, const string& prop) {
    auto& J = jobs();
    bool prepared = sim::findStep(p, "!prepared") != nullptr;
    int nt = 0;
    for (auto& s : p) if (s.op[0] != '!' && s.op != "switch") nt = std::max(nt, s.iarg(0) + 1);
    if (!nt) return;
    nt = std::min(nt, 6);
    vector<std::unique_ptr<Work>> works;
    vector<vector<std::function<void()>>> acts(nt);
    VersionLog ver;
    string problem, psig;
    auto now = [&] { sim::alloc::Pause h; return ver.cur; };
    auto bad = [&](const string& sig, const string& m) { sim::alloc::Pause h; if (psig.empty()) { psig = sig; problem = m; } };
    sim::fs::put(SHARED, sharedText(0), 1000000000000ll);
    std::set<string> kinds;
    for (auto& s : p) {
        int t = s.iarg(0);
        if (s.op[0] == '!' || s.op == "switch" || t >= nt) continue;
        if (s.op == "work") {
            auto w = std::make_unique<Work>();
            w->kind = s.iarg(1) % J.size(); w->seed = uint64_t(s.arg(2));
            kinds.insert(J[w->kind].name);
            auto q = w.get();
            c.at(0, prop + ":reference:" + J[w->kind].name);
            if (!inChild([&](Dig& d) { runJob(q->kind, q->seed, d); }, w->ref)) { c.count("skip.reference-crash"); return; }
            acts[t].push_back([q, prepared] {
                if (!prepared) { runJob(q->kind, q->seed, q->got); return; }
                if (!q->made) { q->got.out("make", q->mk); return; }
                q->got.out("run", attempt([&] { q->f(q->got); }));
            });
            works.push_back(std::move(w));
        } else if (s.op == "load") {
            acts[t].push_back([&, t] {
                long lo = now();
                auto o = attempt([&] {
                    AnyMap m = AnyMap::fromYamlFile(SHARED);
                    long hi = now(), v = m["version"].asInt();
                    if (v < lo || v > hi) bad("stale-load", sim::strf("a load that ran while the file went from version %ld to %ld returned version %ld", lo, hi, v));
                    if (m["last"].asInt() != v) bad("mixed-load", "a load returned parts of two versions");
                    for (auto& x : m["species"].asVector<AnyMap>()) if (x["value"].asInt() != v) bad("mixed-load", "a load returned parts of two versions");
                    m["version"] = -t;       // the returned map belongs to the caller
                    m["species"].asVector<AnyMap>()[0]["value"] = -5;
                });
                if (!o.ok) bad("load-failed", "loading an intact file failed: " + o.msg);
            });
        } else if (s.op == "edit") {
            acts[t].push_back([&] {
                sim::sched::yield();
                sim::alloc::Pause h;
                long v = ver.cur + 1;
                sim::fs::put(SHARED, sharedText(v), 1000000000000ll + v * 1000000000ll);
                ver.cur = v;
            });
        } else if (s.op == "clear") {
            acts[t].push_back([&] { AnyMap::clearCachedFile(SHARED); });
        } else if (s.op == "dir") {
            int k = s.iarg(1) % 6;
            sim::fs::put(sim::strf("/simfs/dir%d/only%d.yaml", k, k), sim::strf("which: %d\n", k));
            acts[t].push_back([&, k] {
                auto o = attempt([&] {
                    addDirectory(sim::strf("/simfs/dir%d", k));
                    string f = findInputFile(sim::strf("only%d.yaml", k));
                    if (f != sim::strf("/simfs/dir%d/only%d.yaml", k, k)) bad("data-directory", "a file in an added directory was looked up as " + f);
                    if (getDataDirectories(":").find(sim::strf("/simfs/dir%d", k)) == string::npos) bad("data-directory", "an added directory is not in the list");
                });
                if (!o.ok) bad("data-directory", "a file in an added directory was not found: " + o.msg);
            });
        } else if (s.op == "rules") {
            int k = s.iarg(1);
            acts[t].push_back([&, k] {
                AnyMap::addOrderingRules(sim::strf("type%d", k), {{"head", "b"}, {"tail", "a"}});
                AnyMap m;
                m["__type__"] = sim::strf("type%d", k);
                m["a"] = 1; m["c"] = 2; m["b"] = 3;
                string y = m.toYamlString();
                auto pa = y.find("a:"), pb = y.find("b:"), pc = y.find("c:");
                if (!(pb < pc && pc < pa)) bad("ordering-rules", "output does not follow the ordering rules given before: " + y);
            });
        }
    }
    if (prepared) for (auto& w : works) {
        Rng r(w->seed);
        auto q = w.get();
        w->mk = attempt([&] { q->f = J[q->kind].make(r); });
        w->made = w->mk.ok;
    }
    vector<std::function<void()>> th;
    for (int t = 0; t < nt; t++) th.push_back([&, t] { silence(); for (auto& a : acts[t]) a(); thread_complete(); });
    string names;
    for (auto& k : kinds) names += (names.empty() ? "" : ",") + k;
    c.at(1, prop + ":threads");
    auto R = sim::sched::run(config(p), th);
    if (getenv("SIM_VERBOSE")) for (auto& w : works) for (auto& [k, v] : w->got.items) fprintf(stderr, "%s: %s = %s\n", J[w->kind].name.c_str(), k.c_str(), v.substr(0, 160).c_str());
    for (auto& w : works) c.ev("%s %016llx", J[w->kind].name.c_str(), (unsigned long long)w->got.h);
    finish(c, prop, R);
    if (!psig.empty()) c.fail(prop + ":" + psig, problem);
    for (auto& w : works) {
        string df = digDiff(w->ref, w->got);
        if (!df.empty()) c.fail(prop + ":differs:" + J[w->kind].name + ":" + digItem(w->ref, w->got), "work in one thread gives another result while other threads work (" + names + "): " + df);
    }
    for (auto& k : kinds) c.count("job." + k);
    clean(c);
}
int cheapJob(Rng& r, bool allowHeavy) {
    for (;;) {
        int k = pickJob(r);
        auto& n = jobs()[k].name;
        if (!allowHeavy && (n == "flame" || n == "surfreactor")) continue;
        return k;
    }
}
Plan genWork(Rng& r, bool prepared) {
    Plan p;
    p.push_back(genSched(r));
    if (prepared) p.push_back({"!prepared", {}, ""});
    int nt = r.range(2, 4);
    bool same = r.chance(0.5);
    int k0 = cheapJob(r, true);
    for (int t = 0; t < nt; t++) for (int i = r.range(1, 2); i > 0; i--) {
        int k = same || r.chance(0.3) ? k0 : cheapJob(r, r.chance(0.3));
        p.push_back({"work", {double(t), double(k), double(r.below(1u << 20))}, ""});
    }
    return p;
}
Plan genThreads(Rng& r, int) { return genWork(r, r.chance(0.6)); }
Plan genShared(Rng& r, int tier) {
    bool cold = r.chance(0.6);       // the first use of the library happens in the threads
    if (r.chance(0.35)) { auto p = genWork(r, false); if (cold) p.insert(p.begin() + 1, {"!cold", {}, ""}); return p; }
    Plan p;
    p.push_back(genSched(r));
    if (cold) p.push_back({"!cold", {}, ""});
    int nt = r.range(2, 4);
    bool files = r.chance(0.7), dirs = r.chance(0.4), rules = r.chance(0.2), work = !dirs && r.chance(0.3);   // messages name the data directories
    for (int t = 0; t < nt; t++) for (int i = r.range(1, 6); i > 0; i--) {
        double u = r.uni();
        if (files && u < 0.5) p.push_back({t && r.chance(0.7) ? "load" : r.chance(0.6) ? "edit" : r.chance(0.5) ? "clear" : "load", {double(t)}, ""});
        else if (dirs && u < 0.8) p.push_back({"dir", {double(t), double(r.below(6))}, ""});
        else if (rules && u < 0.9) p.push_back({"rules", {double(t), double(r.below(8))}, ""});
        else if (work) p.push_back({"work", {double(t), double(cheapJob(r, false)), double(r.below(1u << 20))}, ""});
    }
    return p;
}

// ------------------------------------------------------------------ C03
// plan: !sched; per thread: log t k | warn t k | err t k | read t | pop t | logger t | complete t | ioerr t
struct Sink { string text; };
struct CapLogger : Logger {
    shared_ptr<Sink> s;
    explicit CapLogger(shared_ptr<Sink> x) : s(x) {}
    void write(const string& m) override { s->text += m; }
    void writeendl() override { s->text += "\n"; }
    void warn(const string& w, const string& m) override { s->text += "W:" + w + ":" + m + "\n"; }
    void error(const string& m) override { s->text += "E:" + m; }
};
void execMessages(const Plan& p, Ctx& c) {
    const string prop = "C03";
    int nt = 0;
    for (auto& s : p) if (s.op[0] != '!' && s.op != "switch") nt = std::max(nt, s.iarg(0) + 1);
    nt = std::min(nt, 6);
    if (!nt) return;
    struct T { vector<const sim::Step*> a; string problem; };
    vector<T> ts(nt);
    for (auto& s : p) if (s.op[0] != '!' && s.op != "switch" && s.iarg(0) < nt) ts[s.iarg(0)].a.push_back(&s);
    auto body = [&](int t) {
        auto app = Application::Instance();
        auto cur = std::make_shared<Sink>();
        string want;                 // what the current logger must have received
        vector<string> errs;         // what this thread's error stack must hold
        auto bad = [&](const string& m) { if (ts[t].problem.empty()) ts[t].problem = m; };
        setLogger(new CapLogger(cur));
        for (auto s : ts[t].a) {
            int k = s->iarg(1);
            string tag = sim::strf("t%d-%d", t, k);
            auto o = attempt([&] {
                if (s->op == "log") { writelog(tag + "\n"); want += tag + "\n"; }
                else if (s->op == "logf") { writelogf("%s %d;", tag, k); want += tag + sim::strf(" %d;", k); }
                else if (s->op == "endl") { writelogendl(); want += "\n"; }
                else if (s->op == "debug") { debuglog(tag + "\n", 1); want += tag + "\n"; }
                else if (s->op == "warn") { warn_user("m" + tag, "text {}", k); want += "W:Cantera:m" + tag + sim::strf(": text %d\n", k); }
                else if (s->op == "dep") { warn_deprecated("m" + tag, "x"); want += cur->text.size() > want.size() ? "W:Deprecation:m" + tag + ": x\n" : ""; }
                else if (s->op == "err") { app->addError("proc" + tag, "msg" + tag); errs.push_back(tag); }
                else if (s->op == "count") { if (app->getErrorCount() != (int)errs.size()) bad(sim::strf("error count %d instead of %zu", app->getErrorCount(), errs.size())); }
                else if (s->op == "last") {
                    string m = app->lastErrorMessage();
                    if (errs.empty() ? m.find("<no Cantera error>") == string::npos : m.find("msg" + errs.back() + "\n") == string::npos) bad("last error of the thread is '" + m + "'");
                } else if (s->op == "pop") { app->popError(); if (!errs.empty()) errs.pop_back(); }
                else if (s->op == "get") {
                    std::ostringstream f;
                    app->getErrors(f);
                    string m = f.str();
                    size_t at = 0;
                    for (auto& e : errs) { at = m.find("msg" + e + "\n", at); if (at == string::npos) { bad("an error of the thread is missing: " + e); break; } }
                    size_t n = 0;
                    for (size_t q = 0; (q = m.find("Procedure:", q)) != string::npos; q++) n++;
                    if (n != errs.size()) bad(sim::strf("%zu errors reported instead of %zu", n, errs.size()));
                    errs.clear();
                } else if (s->op == "logger") {
                    if (cur->text != want) bad("logger received '" + cur->text + "' instead of '" + want + "'");
                    cur = std::make_shared<Sink>(); want.clear();
                    setLogger(new CapLogger(cur));
                } else if (s->op == "complete") {
                    if (cur->text != want) bad("logger received '" + cur->text + "' instead of '" + want + "'");
                    thread_complete();
                    errs.clear();
                    cur = std::make_shared<Sink>(); want.clear();
                    setLogger(new CapLogger(cur));
                } else if (s->op == "input") {
                    auto e = attempt([&] { newSolution(jobFile("h2o2.yaml"), "phase-" + tag, "none"); });
                    if (e.ok || e.msg.find("phase-" + tag) == string::npos) bad("the error of the thread's own failing call says: " + e.msg);
                } else if (s->op == "yaml") {
                    auto e = attempt([&] { AnyMap m = AnyMap::fromYamlString("a: {b: 1}\n" "key-" + tag + ": [1, x]\n"); m["key-" + tag].asVector<double>(); });
                    if (e.ok || e.msg.find("key-" + tag) == string::npos) bad("the error of the thread's own failing call says: " + e.msg);
                } else if (s->op == "thermowarn") {
                    // a warning emitted by the library while building a phase goes to the thread's logger only
                    auto m = AnyMap::fromYamlString("name: S" + tag + "\ncomposition: {O: 1}\nthermo: {model: constant-cp, T0: 300, h0: 1, s0: 1, cp0: 1}\nextra: 1\n");
                    auto sp = newSpecies(m);
                    if (sp->name != "S" + tag) bad("species name");
                }
            });
            if (!o.ok) bad(s->op + " failed: " + o.msg);
        }
        if (cur->text != want) bad("logger received '" + cur->text + "' instead of '" + want + "'");
        if (app->getErrorCount() != (int)errs.size()) bad(sim::strf("error count %d instead of %zu at the end", app->getErrorCount(), errs.size()));
        thread_complete();
    };
    vector<std::function<void()>> th;
    for (int t = 0; t < nt; t++) th.push_back([&, t] { body(t); });
    c.at(1, "C03:threads");
    auto R = sim::sched::run(config(p), th);
    finish(c, prop, R);
    for (int t = 0; t < nt; t++) if (!ts[t].problem.empty()) c.fail("C03:message", sim::strf("thread %d: ", t) + ts[t].problem);
    clean(c);
}
Plan genMessages(Rng& r, int tier) {
    Plan p;
    auto s = genSched(r);
    if (s.a[1] < 1e17) s.a[1] = r.logu(20, 20000);
    p.push_back(s);
    static const vector<string> ops{"log", "logf", "endl", "debug", "warn", "dep", "err", "err", "count", "last", "pop", "get", "logger", "complete", "input", "yaml", "thermowarn"};
    vector<string> use;
    for (auto& o : ops) if (r.chance(0.5)) use.push_back(o);
    if (use.empty()) use.push_back("log");
    int nt = r.range(2, 5), k = 0;
    for (int t = 0; t < nt; t++) for (int i = r.range(1, tier ? 20 : 10); i > 0; i--)
        p.push_back({r.pick(use), {double(t), double(k++)}, ""});
    return p;
}
void warm() { quiet(); silence(); }
sim::Reg r1({"threads", genThreads, [](const Plan& p, Ctx& c) { execThreads(p, c, "C01"); }, warm, 120});
sim::Reg r2({"shared", genShared, [](const Plan& p, Ctx& c) { if (!sim::findStep(p, "!cold")) quiet(); execThreads(p, c, "C02"); }, nullptr, 120});
sim::Reg r3({"messages", genMessages, execMessages, nullptr, 60});
}

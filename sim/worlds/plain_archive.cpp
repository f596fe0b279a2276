// Worlds "savecomplete" (D01) and "archive" (D02): the files the library writes, treated as a
// small key-value store on a simulated disk.
#include "common.h"
#include "cantera/base/YamlWriter.h"
#include "cantera/oneD/Sim1D.h"
#include "cantera/oneD/Boundary1D.h"
#include "cantera/oneD/Flow1D.h"
#include "cantera/oneD/DomainFactory.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/equil/vcs_MultiPhaseEquil.h"
#include "cantera/equil/MultiPhaseEquil.h"
#include "cantera/clib/ct.h"
#include "cantera/clib/ctrpath.h"

using namespace simw;
using sim::Plan; using sim::Step; using sim::Rng; using sim::Ctx;
namespace fs = sim::fs;

namespace {
// ---- phases used by the workload (created in the zygote) -------------------------------
struct PhaseDef { const char* file; const char* phase; const char* transport; };
const PhaseDef PH[] = {
    {"h2o2.yaml", "ohmech", "none"},
    {"thermo-models.yaml", "IdealSolidSolnPhase", "none"},
    {"surface-phases.yaml", "Pt-surf", "none"},
    {"liquidvapor.yaml", "nitrogen", "none"},
    {"co2_RK_example.yaml", "", "none"},
};
constexpr int NPH = 5;
const char* NAMES[] = {"s0", "s1", "s2", "deep/a", "deep/b"};
const char* SUBS[] = {"", "u", "v"};
const char* FILES[] = {"/simfs/out/a.yaml", "/simfs/out/b.yml"};
shared_ptr<Solution> g_sol[NPH];
shared_ptr<Sim1D> g_flame;
shared_ptr<Solution> g_gas1d;

shared_ptr<Solution> mkSol(int i) {
    if (g_sol[i]) return g_sol[i];
    return g_sol[i] = newSolution(dataPath(PH[i].file), PH[i].phase, PH[i].transport);
}
shared_ptr<Sim1D> mkFlame(shared_ptr<Solution> sol, int kind) {
    vector<shared_ptr<Domain1D>> doms;
    auto flow = newDomain<Flow1D>(kind ? "axisymmetric-flow" : "free-flow", sol, "flow");
    auto in = newDomain<Inlet1D>("inlet", sol, "inlet");
    in->setMoleFractions("H2:2,O2:1,N2:4");
    in->setTemperature(300 + 20 * kind);
    in->setMdot(1.5);
    doms = {in, flow};
    if (kind) {
        auto in2 = newDomain<Inlet1D>("inlet", sol, "inlet2");
        in2->setMoleFractions("O2:1,N2:3");
        in2->setTemperature(350);
        in2->setMdot(2.5);
        doms.push_back(in2);
    } else doms.push_back(newDomain<Outlet1D>("outlet", sol, "outlet"));
    vector<double> z(6);
    for (int i = 0; i < 6; i++) z[i] = 0.004 * i;
    flow->setupGrid(z.size(), z.data());
    flow->setPressure(101325);
    auto s = std::make_shared<Sim1D>(doms);
    return s;
}
void warm() {
    quiet();
    silence();
    for (int i = 0; i < NPH; i++) mkSol(i);
    g_gas1d = newSolution(dataPath("h2o2.yaml"), "ohmech", "mixture-averaged");
    g_flame = mkFlame(g_gas1d, 0);
}

bool active(Domain1D& d, size_t k) { auto f = dynamic_cast<Flow1D*>(&d); return !f || f->componentActive(k); }

// ---- model ------------------------------------------------------------------------------
struct Entry {
    int phase = 0;
    int size = 0;
    map<string, vector<double>> num;      // component -> column
    map<string, vector<string>> str;
    map<string, vector<long>> ints;
    map<string, vector<vector<double>>> mat;
    double metaVal = 0;
    string desc;
    // 1D entries
    bool flame = false;
    int kind = 0;
    vector<double> state;
    size_t points = 0;
};
struct File {
    bool exists = false, tracked = true;
    map<string, map<string, Entry>> e;    // name -> sub -> entry
};

struct W {
    Ctx& c;
    string P;                             // property prefix
    map<string, File> files;
    vector<Step> pendingFaults;
    int64_t cap = -1;
    int step = 0;
    bool cleanup = true;

    W(Ctx& ctx, const string& p) : c(ctx), P(p) {}

    shared_ptr<SolutionArray> mkArray(int ph, uint64_t seed, int size, int extras, Entry& e) {
        Rng r(seed);
        if (ph == 3 && size == 1) size = 2; // a single pure-fluid state has no restorable form
        auto sol = mkSol(ph);
        auto th = sol->thermo();
        auto arr = SolutionArray::create(sol, size, AnyMap());
        size_t nsp = th->nSpecies();
        vector<double> st(th->stateSize());
        for (int i = 0; i < size; i++) {
            auto surf = std::dynamic_pointer_cast<SurfPhase>(th);
            double T = ph == 3 ? r.uni(200, 400) : r.uni(300, 900);
            double p = r.uni(0.5, 4.0) * OneAtm;
            if (ph == 3) th->setState_TP(T, p);
            else if (surf) {
                th->setState_TP(T, p);
                auto x = randComp(r, nsp);
                surf->setCoverages(x.data());
            } else {
                auto x = randComp(r, nsp);
                th->setState_TPX(T, p, x.data());
            }
            th->saveState(st.size(), st.data());
            arr->setState(i, st);
        }
        if (size > 1) {
            if (extras & 1) { arr->addExtra("time"); vector<double> v(size); for (auto& x : v) x = r.uni(-1e3, 1e3); AnyValue a; a = v; arr->setComponent("time", a); e.num["time"] = v; }
            if (extras & 2) { arr->addExtra("label"); vector<string> v(size); for (auto& x : v) x = sim::strf("tag%d", (int)r.below(1000)) + (r.chance(0.2) ? ",b" : ""); AnyValue a; a = v; arr->setComponent("label", a); e.str["label"] = v; }
            if (extras & 4) { arr->addExtra("count"); vector<long> v(size); for (auto& x : v) x = (long)r.below(100000) - 50000; AnyValue a; a = v; arr->setComponent("count", a); e.ints["count"] = v; }
            if ((extras & 8) && size > 1) { arr->addExtra("mtx"); vector<vector<double>> v(size, vector<double>(3)); for (auto& x : v) for (auto& y : x) y = r.uni(-5, 5); AnyValue a; a = v; arr->setComponent("mtx", a); e.mat["mtx"] = v; }
        }
        e.phase = ph; e.size = size;
        e.metaVal = r.uni(0, 100);
        arr->meta()["tag"] = e.metaVal;
        for (auto& [nm, off] : th->nativeState()) {
            if (nm == "X" || nm == "Y" || nm == "C") continue;
            e.num[nm] = vector<double>(size);
        }
        bool comp = th->nativeState().count("X") || th->nativeState().count("Y") || th->nativeState().count("C");
        if (comp) for (auto& s : th->speciesNames()) e.num[s] = vector<double>(size);
        for (int i = 0; i < size; i++) {
            auto s = arr->getState(i);
            for (auto& [nm, off] : th->nativeState()) {
                if (nm == "X" || nm == "Y" || nm == "C") for (size_t k = 0; k < nsp; k++) e.num[th->speciesName(k)][i] = s[off + k];
                else e.num[nm][i] = s[off];
            }
        }
        return arr;
    }
    [[noreturn]] void fail(const string& sig, const string& msg) {
        c.fail(P + ":" + sig, sim::strf("step %d: ", step) + msg);
    }
    void cmpCol(const string& what, const vector<double>& a, const vector<double>& b, double tol) {
        if (a.size() != b.size()) fail("lost-data", what + sim::strf(": %zu values instead of %zu", a.size(), b.size()));
        double scale = 0;
        for (auto x : b) scale = std::max(scale, std::abs(x));
        for (size_t i = 0; i < a.size(); i++)
            if (!close(a[i], b[i], tol, 1e-18 * scale))
                fail("wrong-data", what + sim::strf("[%zu]: %.17g instead of %.17g", i, a[i], b[i]));
    }
    void checkEntry(const string& where, const AnyMap* root, const string& file, const string& name,
                    const string& sub, const Entry& e) {
        if (e.flame) {
            auto s = mkFlame(g_gas1d, e.kind);
            if (!root) s->restore(file, name);
            else return;
            compareFlame(where, *s, e);
            return;
        }
        auto sol = mkSol(e.phase);
        auto arr = SolutionArray::create(sol, 0, AnyMap());
        AnyMap header;
        if (root) { arr->readEntry(*root, name, sub); header = SolutionArray::readHeader(*root, name); }
        else header = arr->restore(file, name, sub);
        if (arr->size() != e.size) fail("lost-data", where + sim::strf(": %d points instead of %d", arr->size(), e.size));
        if (header.getString("description", "") != e.desc)
            fail("wrong-data", where + ": description '" + header.getString("description", "") + "' instead of '" + e.desc + "'");
        if (!arr->meta().hasKey("tag") || !close(arr->meta()["tag"].asDouble(), e.metaVal, 1e-13))
            fail("wrong-data", where + ": metadata lost or changed");
        if (e.size == 0) return;
        double tol = e.size == 1 ? 1e-7 : 1e-13;
        for (auto& [nm, col] : e.num) {
            vector<double> got(e.size);
            auto v = arr->getComponent(nm);
            if (v.isScalar()) got.assign(1, v.asDouble());
            else got = v.asVector<double>();
            cmpCol(where + ":" + nm, got, col, nm == "D" ? std::max(tol, 1e-12) : tol);
        }
        for (auto& [nm, col] : e.str) {
            auto v = arr->getComponent(nm);
            vector<string> got = v.isScalar() ? vector<string>{v.asString()} : v.asVector<string>();
            if (got != col) fail("wrong-data", where + ":" + nm + " differs");
        }
        for (auto& [nm, col] : e.ints) {
            auto v = arr->getComponent(nm);
            vector<long> got = v.isScalar() ? vector<long>{v.asInt()} : v.asVector<long int>();
            if (got != col) fail("wrong-data", where + ":" + nm + " differs");
        }
        for (auto& [nm, rows] : e.mat) {
            auto v = arr->getComponent(nm);
            auto got = v.asVector<vector<double>>();
            if (got.size() != rows.size()) fail("lost-data", where + ":" + nm + " row count");
            for (size_t i = 0; i < rows.size(); i++) cmpCol(where + ":" + nm, got[i], rows[i], 1e-13);
        }
    }
    void compareFlame(const string& where, Sim1D& s, const Entry& e) {
        auto& flow = s.domain(1);
        if (flow.nPoints() != e.points) fail("lost-data", where + sim::strf(": %zu grid points instead of %zu", flow.nPoints(), e.points));
        vector<double> got;
        for (size_t n = 0; n < flow.nPoints(); n++) {
            got.push_back(flow.z(n));
            for (size_t k = 0; k < flow.nComponents(); k++) {
                auto nm = flow.componentName(k);
                if (!active(flow, k)) continue;
                got.push_back(s.value(1, k, n));
            }
        }
        if (got.size() != e.state.size()) fail("lost-data", where + ": component count");
        for (size_t i = 0; i < got.size(); i++)
            if (!close(got[i], e.state[i], 1e-9, 1e-13)) fail("wrong-data", where + sim::strf(": value %zu is %.17g instead of %.17g", i, got[i], e.state[i]));
    }
    // Parse the bytes on the disk (no file access, no cache) and compare with the model.
    void checkDisk(const string& file, const string& sigIfBad) {
        auto& f = files[file];
        if (!f.tracked) return;
        string data;
        bool ex = fs::get(file, data);
        if (!ex) {
            if (f.exists) fail(sigIfBad, "file " + file + " disappeared");
            return;
        }
        if (!f.exists) fail("unexpected-file", file + " was created by a refused operation");
        AnyMap root;
        auto o = attempt([&] { root = AnyMap::fromYamlString(data); });
        if (!o.ok) fail(sigIfBad, file + " does not parse: " + ecut(o.msg));
        size_t n = 0;
        for (auto& [name, subs] : f.e)
            for (auto& [sub, e] : subs) {
                n++;
                auto oo = attempt([&] { checkEntry(file + ":" + name + "/" + sub, &root, file, name, sub, e); });
                if (!oo.ok) fail(sigIfBad, file + ": entry " + name + "/" + sub + " cannot be read: " + oo.kind + " " + ecut(oo.msg));
            }
        c.count("entries-verified", n);
    }
    void armFaults() {
        fs::arm();
        for (auto& s : pendingFaults)
            fs::addFault((fs::Kind)s.iarg(0), s.iarg(1), s.iarg(2), s.iarg(3), s.iarg(4, -1));
        if (cap >= 0) fs::setCapacity(fs::used() + cap);
    }
    // Returns true when any disk fault fired during the operation.
    struct Fired { bool any = false, wr = false, rd = false; };
    Fired endFaults() {
        Fired f;
        const char* nm[] = {"open-read", "open-write", "read", "write", "close", "stat"};
        for (int k = 0; k < fs::NKIND; k++) {
            long n = fs::fired((fs::Kind)k);
            if (n) {
                c.count(string("fault.") + nm[k], n); c.nontrivial = true; f.any = true;
                if (k == fs::OPEN_W || k == fs::WRITE || k == fs::CLOSE) f.wr = true; else f.rd = true;
            }
        }
        fs::disarm();
        pendingFaults.clear();
        cap = -1;
        if (fs::openHandles()) fail("descriptor-leak", sim::strf("%d descriptors still open after the operation", fs::openHandles()));
        return f;
    }
};

void runOps(const Plan& plan, Ctx& c, const string& P) {
    fs::reset();
    sim::clk::enable(1700000000ll * 1000000000ll);
    W w(c, P);
    if (auto g = sim::findStep(plan, "!gran")) fs::setGranularity((int64_t)g->arg(0));
    fs::put("/simfs/out/.keep", "");
    int step = 0;
    for (auto& s : plan) {
        w.step = step++;
        if (s.op[0] == '!') continue;
        c.at(step, P + ":" + s.op);
        if (s.op == "fault") { w.pendingFaults.push_back(s); continue; }
        if (s.op == "cap") { w.cap = (int64_t)s.arg(0); continue; }
        if (s.op == "clock") { sim::clk::advance((int64_t)(s.arg(0) * 1e9)); c.count("simtime", std::abs(s.arg(0))); continue; }
        if (s.op == "restart") {
            // a new process: nothing but the disk survives
            for (auto& f : FILES) if (fs::exists(f)) AnyMap::clearCachedFile(f);
            c.fault("restart");
            for (auto& [fn, f] : w.files)
                if (f.tracked && f.exists)
                    for (auto& [name, subs] : f.e)
                        for (auto& [sub, e] : subs) {
                            auto o = attempt([&] { w.checkEntry("after restart " + fn + ":" + name + "/" + sub, nullptr, fn, name, sub, e); });
                            if (!o.ok) w.fail("unreadable-after-restart", fn + " " + name + "/" + sub + ": " + o.kind + " " + ecut(o.msg));
                        }
            continue;
        }
        string file = FILES[s.iarg(0) % 2];
        auto& F = w.files[file];
        if (!F.tracked) { // a failed write left this file in an unspecified state: start over
            fs::erase(file);
            F = File();
        }
        if (s.op == "save" || s.op == "flame" || s.op == "resid") {
            // file name sub seed size overwrite phase extras bad
            string name = NAMES[s.iarg(1) % 5], sub = SUBS[s.iarg(2) % 3];
            bool overwrite = s.iarg(5);
            int bad = s.iarg(8);
            Entry e;
            e.desc = sim::strf("d%d", step);
            shared_ptr<SolutionArray> arr;
            shared_ptr<Sim1D> fl;
            if (s.op == "save") {
                arr = w.mkArray(s.iarg(6) % NPH, (uint64_t)s.arg(3), s.iarg(4), s.iarg(7), e);
                if (bad == 1) arr->addExtra("unset");              // cannot be serialised
                if (bad == 2) { AnyValue v; v = vector<AnyValue>{AnyValue()}; arr->meta()["odd"] = v; }
            } else {
                e.flame = true;
                e.kind = s.iarg(6) % 2;
                fl = mkFlame(g_gas1d, e.kind);
                Rng r((uint64_t)s.arg(3));
                auto& flow = fl->domain(1);
                e.points = flow.nPoints();
                // set a random admissible state
                vector<double> y;
                for (size_t n = 0; n < flow.nPoints(); n++) {
                    y = randComp(r, g_gas1d->thermo()->nSpecies());
                    for (size_t k = 0; k < flow.nComponents(); k++) {
                        auto nm = flow.componentName(k);
                        if (nm == "T") fl->setValue(1, k, n, r.uni(300, 2000));
                        else if (k >= flow.nComponents() - y.size()) fl->setValue(1, k, n, y[k - (flow.nComponents() - y.size())]);
                        else if (active(flow, k)) fl->setValue(1, k, n, r.uni(0.1, 2));
                    }
                }
                sub = "";
                for (size_t n = 0; n < flow.nPoints(); n++) {
                    e.state.push_back(flow.z(n));
                    for (size_t k = 0; k < flow.nComponents(); k++)
                        if (active(flow, k)) e.state.push_back(fl->value(1, k, n));
                }
            }
            string before;
            bool had = fs::get(file, before);
            bool nameTaken = F.exists && F.e.count(name) && !F.e[name].empty();
            if (bad == 3) fs::denyRead(file, EACCES);
            if (bad == 4) sim::alloc::arm((long)s.arg(9, 1), 1);
            w.armFaults();
            auto o = attempt([&] {
                if (fl && s.op == "resid") fl->saveResidual(file, name, e.desc, overwrite);
                else if (fl) fl->save(file, name, e.desc, overwrite);
                else arr->save(file, name, sub, e.desc, overwrite);
            });
            if (bad == 4) { if (sim::alloc::fired()) c.fault("alloc"); sim::alloc::disarm(); }
            auto f = w.endFaults();
            c.ev("%s %s %s/%s ov=%d -> %s %s", s.op.c_str(), file.c_str(), name.c_str(), sub.c_str(), overwrite,
                 o.ok ? "ok" : o.kind.c_str(), f.any ? "faulted" : "");
            c.state(sim::fnvs(s.op + (o.ok ? "1" : o.kind) + (f.wr ? "w" : "") + (f.rd ? "r" : "") + (nameTaken ? "t" : "") + (overwrite ? "o" : "") + std::to_string(bad) + (had ? "h" : "")));
            if (!o.ok && (o.kind == "unknown")) w.fail("foreign-exception", "save threw a non-standard exception");
            if (fl) { // the solver object itself must be unaffected by the save, whatever its outcome
                auto& flow = fl->domain(1);
                size_t i = 0;
                for (size_t n = 0; n < flow.nPoints(); n++) {
                    if (flow.z(n) != e.state[i++]) w.fail("save-changed-object", "grid changed by a save");
                    for (size_t k = 0; k < flow.nComponents(); k++)
                        if (active(flow, k) && !bitEq(fl->value(1, k, n), e.state[i++]))
                            w.fail("save-changed-object", sim::strf("solution component %zu changed by %s", k, s.op.c_str()));
                }
            }
            if (o.ok) {
                if (nameTaken && !overwrite) w.fail("overwrite-guard", "existing entry '" + name + "' replaced without overwrite");
                if (bad == 1 || bad == 2) { c.probe("bad-serialised"); }
                if (bad == 3 && had) {
                    // nothing else was readable; the save must not have dropped the other entries
                }
                F.exists = true;
                if (s.op == "resid") { F.e[name].clear(); e.flame = true; }
                F.e[name].clear();
                if (s.op != "resid" && bad != 1 && bad != 2) F.e[name][sub] = e;
                else F.e[name]["?"] = Entry();
                if (F.e[name].count("?")) F.e[name].erase("?");
                if (F.e[name].empty()) { // contents not modelled, but the name is taken
                    c.probe("unmodelled");
                    File keep = F;
                    w.checkDisk(file, f.any ? "false-success" : "lost-data");
                    // drop it from the archive model by rewriting nothing: mark as taken
                    F.tracked = true;
                    F.e.erase(name);
                    // names no longer modelled are avoided by erasing the file
                    fs::erase(file);
                    F = File();
                    continue;
                }
                w.checkDisk(file, f.any ? "false-success" : "lost-data");
                c.probe(f.any ? "ok-despite-fault" : "ok");
            } else {
                if (!f.any && bad == 0 && !(nameTaken && !overwrite))
                    w.fail("spurious-failure", "save failed without a fault: " + o.kind + " " + ecut(o.msg));
                string after;
                bool has = fs::get(file, after);
                if (f.wr) { // the disk failed underneath the write: contents unspecified
                    F.tracked = false;
                    c.probe("write-failed");
                } else {
                    bool same = has == had && after == before;
                    if (!same && (f.rd || bad == 4)) {
                        // everything was written, only the step after it failed: accept a
                        // complete new archive
                        File keep = F;
                        F.exists = true;
                        F.e[name].clear();
                        if (bad == 0 || bad == 3 || bad == 4) F.e[name][sub] = e;
                        w.checkDisk(file, "failed-save-destroyed-file");
                        F.tracked = false;
                        c.probe("written-but-reported-failed");
                        continue;
                    }
                    if (!same)
                        w.fail("failed-save-destroyed-file", file + sim::strf(" had %zu bytes, has %zu after a save that failed (%s: ", before.size(), after.size(), o.kind.c_str()) + ecut(o.msg) + ")");
                    c.probe("refused");
                }
            }
            if (s.op == "flame" || s.op == "resid") AnyMap::clearCachedFile(dataPath("h2o2.yaml"));
        } else if (s.op == "restore") {
            string name = NAMES[s.iarg(1) % 5], sub = SUBS[s.iarg(2) % 3];
            bool known = F.exists && F.e.count(name) && F.e[name].count(sub);
            w.armFaults();
            Entry e;
            if (known) e = F.e[name][sub];
            auto o = attempt([&] {
                if (known) w.checkEntry(file + ":" + name + "/" + sub, nullptr, file, name, sub, e);
                else {
                    auto arr = SolutionArray::create(mkSol(0), 0, AnyMap());
                    arr->restore(file, name, sub);
                }
            });
            auto f = w.endFaults();
            c.ev("restore %s %s/%s -> %s", file.c_str(), name.c_str(), sub.c_str(), o.ok ? "ok" : o.kind.c_str());
            if (known && !o.ok && !f.any) w.fail("restore-failed", name + "/" + sub + ": " + o.kind + " " + ecut(o.msg));
            if (!o.ok && o.kind == "unknown") w.fail("foreign-exception", "restore threw a non-standard exception");
            if (!known && o.ok && (!F.exists || !F.e.count(name))) w.fail("phantom-entry", "restore of a never-written entry succeeded: " + name);
            w.checkDisk(file, "restore-changed-file");
        } else if (s.op == "csv") {
            // file idx, seed size overwrite phase extras basis bad
            string cf = "/simfs/out/t.csv";
            Entry e;
            auto arr = w.mkArray(s.iarg(6) % NPH, (uint64_t)s.arg(3), s.iarg(4), s.iarg(7) & 7, e);
            if (e.size == 0) continue;
            if (s.iarg(8) == 1) { arr->addExtra("q"); vector<string> v(e.size, "x"); v.back() = "a\"b"; AnyValue a; a = v; arr->setComponent("q", a); }
            string before;
            bool had = fs::get(cf, before);
            const char* basis = s.iarg(9) == 1 ? "mole" : s.iarg(9) == 2 ? "mass" : "";
            if (s.iarg(8) == 3) fs::denyRead(cf, EACCES);
            w.armFaults();
            auto o = attempt([&] { arr->save(cf, "", "", "", s.iarg(5), 0, basis); });
            auto f = w.endFaults();
            string after;
            bool has = fs::get(cf, after);
            c.ev("csv -> %s %zu", o.ok ? "ok" : o.kind.c_str(), after.size());
            c.state(sim::fnvs(string("csv") + (o.ok ? "1" : o.kind) + (f.wr ? "w" : "") + (f.rd ? "r" : "") + (had ? "h" : "")));
            if (o.ok) {
                if (had && !s.iarg(5)) w.fail("overwrite-guard", "existing CSV file replaced without overwrite");
                // complete table?
                vector<string> lines;
                size_t p = 0;
                while (p < after.size()) { auto q = after.find('\n', p); if (q == string::npos) { lines.push_back(after.substr(p) + "<no newline>"); break; } lines.push_back(after.substr(p, q - p)); p = q + 1; }
                string sig = f.any ? "false-success" : "lost-data";
                if (!has || lines.size() != size_t(e.size) + 1) w.fail(sig, sim::strf("CSV save reported success but the file has %zu of %d lines", lines.size(), e.size + 1));
                auto fields = [&](const string& l) {
                    vector<string> v; string cur; bool q = false;
                    for (char ch : l) { if (ch == '"') q = !q; else if (ch == ',' && !q) { v.push_back(cur); cur.clear(); } else cur += ch; }
                    v.push_back(cur); return v; };
                auto head = fields(lines[0]);
                {
                    auto th = mkSol(e.phase)->thermo();
                    bool mole = s.iarg(9) ? s.iarg(9) == 1 : th->nativeState().count("X") > 0;
                    size_t found = 0;
                    vector<double> x(th->nSpecies());
                    for (size_t k = 0; k < th->nSpecies(); k++)
                        for (auto& h : head) if (h == (mole ? "X_" : "Y_") + th->speciesName(k)) { e.num[h] = vector<double>(e.size); found++; }
                    bool comp = th->nativeState().count("X") || th->nativeState().count("Y") || th->nativeState().count("C");
                    if (comp && found != th->nSpecies()) w.fail(sig, "CSV header lacks species columns");
                    for (auto& [nm, col] : e.num)
                        if (!th->nativeState().count(nm) && !comp && nm != "time") continue;
                    for (auto& [nm, off] : th->nativeState())
                        if (nm.size() == 1 && nm != "X" && nm != "Y" && nm != "C" && std::find(head.begin(), head.end(), nm) == head.end()) w.fail(sig, "CSV header lacks column " + nm);
                    for (int i = 0; i < e.size; i++) {
                        arr->setLoc(i);
                        if (mole) th->getMoleFractions(x.data()); else th->getMassFractions(x.data());
                        for (size_t k = 0; k < x.size(); k++) if (found) e.num[(mole ? "X_" : "Y_") + th->speciesName(k)][i] = x[k];
                    }
                }
                for (auto& [nm, v] : e.str) if (std::find(head.begin(), head.end(), nm) == head.end()) w.fail(sig, "CSV header lacks column " + nm);
                for (auto& [nm, v] : e.ints) if (std::find(head.begin(), head.end(), nm) == head.end()) w.fail(sig, "CSV header lacks column " + nm);
                for (int i = 0; i < e.size; i++) {
                    auto row = fields(lines[i + 1]);
                    if (row.size() != head.size()) w.fail(sig, sim::strf("CSV row %d has %zu of %zu fields", i, row.size(), head.size()));
                    for (size_t k = 0; k < head.size(); k++) {
                        if (e.num.count(head[k]) && !close(strtod(row[k].c_str(), nullptr), e.num[head[k]][i], 1e-8, 1e-300)) w.fail(f.any ? "false-success" : "wrong-data", "CSV value of " + head[k] + " is " + row[k] + " instead of " + g17(e.num[head[k]][i]));
                        if (e.str.count(head[k]) && row[k] != e.str[head[k]][i]) w.fail(f.any ? "false-success" : "wrong-data", "CSV value of " + head[k]);
                        if (e.ints.count(head[k]) && atol(row[k].c_str()) != e.ints[head[k]][i]) w.fail(f.any ? "false-success" : "wrong-data", "CSV value of " + head[k]);
                    }
                }
                c.probe(f.any ? "csv-ok-despite-fault" : "csv-ok");
            } else {
                if (!f.any && s.iarg(8) == 0 && !(had && !s.iarg(5))) w.fail("spurious-failure", "CSV save failed without a fault: " + ecut(o.msg));
                if (had && !s.iarg(5) && (!has || after != before) && !f.wr) w.fail("failed-save-destroyed-file", "refused CSV save changed the existing file");
            }
            if (s.iarg(10)) fs::erase(cf);
        } else if (s.op == "flamecsv" || s.op == "eqcsv" || s.op == "rpath") {
            // the same output without faults is the reference
            string of = "/simfs/out/report." + string(s.op == "rpath" ? "txt" : "csv"), rf = "/simfs/out/ref." + string(s.op == "rpath" ? "txt" : "csv");
            Rng r((uint64_t)s.arg(3));
            int kind = s.iarg(6);
            std::function<void(const string&)> write;
            shared_ptr<Sim1D> fl;
            shared_ptr<MultiPhase> mix;
            if (s.op == "flamecsv") {
                fl = mkFlame(g_gas1d, kind % 2);
                auto& flow = fl->domain(1);
                for (size_t n = 0; n < flow.nPoints(); n++) for (size_t k = 0; k < flow.nComponents(); k++) if (active(flow, k)) fl->setValue(1, k, n, flow.componentName(k) == "T" ? r.uni(300, 2000) : r.uni(0.01, 0.1));
                write = [&](const string& f) { fl->save(f, "", "", true); };
            } else if (s.op == "eqcsv") {
                auto th = mkSol(0)->thermo();
                double T = r.uni(1000, 2500);
                auto fresh = [&mix, th, T] {
                    th->setState_TPX(T, OneAtm, "H2:2,O2:1,AR:1");
                    mix = std::make_shared<MultiPhase>();
                    mix->addPhase(th.get(), 1.0);
                    mix->init();
                };
                if (kind % 2) write = [&mix, fresh](const string& f) { fresh(); vcs_MultiPhaseEquil eq(mix.get(), 0); eq.equilibrate(TP); eq.reportCSV(f); };
                else write = [&mix, fresh](const string& f) { fresh(); MultiPhaseEquil eq(mix.get()); eq.equilibrate(TP); eq.reportCSV(f); };
            } else {
                mkSol(0)->thermo()->setState_TPX(r.uni(1000, 2500), OneAtm, "H2:2,O2:1,AR:1,OH:0.2,H:0.1");
                write = [&, kind](const string& f) {
                    auto chk = [&](int i) { if (i < 0) { char b[400]; ct_getCanteraError(400, b); throw CanteraError("clib", "{}", b); } return i; };
                    int so = chk(soln_newSolution(dataPath("h2o2.yaml").c_str(), "ohmech", "none"));
                    int ki = chk(soln_kinetics(so)), th = chk(soln_thermo(so));
                    chk(thermo_setTemperature(th, 1500)); chk(thermo_setMoleFractionsByName(th, "H2:2,O2:1,AR:1,OH:0.2,H:0.1"));
                    int b = chk(rbuild_new()), d = chk(rdiag_new());
                    chk(rbuild_init(b, kind == 2 ? f.c_str() : "", ki));
                    chk(rbuild_build(b, ki, "H", kind == 3 ? f.c_str() : "", d, 0));
                    if (kind < 2) chk(rdiag_write(d, kind, f.c_str()));
                };
            }
            fs::erase(of); fs::erase(rf);
            auto ref = attempt([&] { write(rf); });
            if (!ref.ok) w.fail("spurious-failure", s.op + " failed without a fault: " + ecut(ref.msg));
            w.armFaults();
            auto o = attempt([&] { write(of); });
            auto f = w.endFaults();
            string got, want;
            fs::get(of, got); fs::get(rf, want);
            c.ev("%s -> %s %zu", s.op.c_str(), o.ok ? "ok" : o.kind.c_str(), got.size());
            c.state(sim::fnvs(s.op + (o.ok ? "1" : o.kind) + (f.wr ? "w" : "") + std::to_string(kind)));
            if (want.empty() && !(s.op == "rpath" && kind >= 2)) w.fail("lost-data", s.op + " wrote nothing");
            if (o.ok && got != want) w.fail(f.any ? "false-success" : "lost-data", sim::strf("%s reported success but the file has %zu of %zu bytes", s.op.c_str(), got.size(), want.size()));
            if (!o.ok && !f.any) w.fail("spurious-failure", s.op + " failed without a fault: " + ecut(o.msg));
            fs::erase(of); fs::erase(rf);
        } else if (s.op == "yamlwriter") {
            string yf = "/simfs/out/mech.yaml";
            auto sol = mkSol(s.iarg(6) % NPH);
            YamlWriter yw;
            yw.addPhase(sol);
            string want = yw.toYamlString();
            w.armFaults();
            auto o = attempt([&] { yw.toYamlFile(yf); });
            auto f = w.endFaults();
            string got;
            fs::get(yf, got);
            c.ev("yamlwriter -> %s %zu", o.ok ? "ok" : o.kind.c_str(), got.size());
            c.state(sim::fnvs(string("yw") + (o.ok ? "1" : o.kind) + (f.wr ? "w" : "")));
            if (o.ok && got != want) w.fail(f.any ? "false-success" : "lost-data", sim::strf("YamlWriter::toYamlFile reported success but the file has %zu of %zu bytes", got.size(), want.size()));
            if (!o.ok && !f.any) w.fail("spurious-failure", "toYamlFile failed without a fault: " + ecut(o.msg));
            if (o.ok) c.probe(f.any ? "yw-ok-despite-fault" : "yw-ok");
            fs::erase(yf);
        }
    }
    // faults have stopped: the archive must accept and return a save again
    w.step = step;
    for (string fn : FILES) {
        auto& F = w.files[fn];
        if (!F.tracked) { fs::erase(fn); F = File(); }
        Entry e;
        auto arr = w.mkArray(0, 99 + step, 3, 3, e);
        e.desc = "final";
        auto o = attempt([&] { arr->save(fn, "final", "", "final", true); });
        if (!o.ok) w.fail("no-progress", "save still fails after the faults stopped: " + o.kind + " " + ecut(o.msg));
        F.exists = true;
        F.e["final"].clear();
        F.e["final"][""] = e;
        w.checkDisk(fn, "lost-data");
        for (auto& [name, subs] : F.e)
            for (auto& [sub, en] : subs) {
                auto oo = attempt([&] { w.checkEntry(fn + ":" + name + "/" + sub, nullptr, fn, name, sub, en); });
                if (!oo.ok) w.fail("restore-failed", fn + " " + name + "/" + sub + ": " + oo.kind + " " + ecut(oo.msg));
            }
    }
    sim::clk::disable();
}

const int ERR_W[] = {ENOSPC, EIO, EDQUOT};
void genFault(Rng& r, Plan& p, bool wr) {
    Step s;
    s.op = "fault";
    if (wr) {
        int k = r.range(0, 3);
        if (k == 0) s.a = {double(fs::OPEN_W), 1, double(r.pick(vector<int>{EMFILE, EACCES, ENOSPC, EROFS})), 1, -1};
        else if (k == 1) s.a = {double(fs::WRITE), double(r.range(1, 4)), double(ERR_W[r.below(3)]), double(r.chance(0.5) ? 1 : 1000), -1};
        else if (k == 2) s.a = {double(fs::WRITE), double(r.range(1, 3)), EINTR, double(r.range(1, 3)), double(r.chance(0.5) ? -1 : r.range(1, 200))};
        else s.a = {double(fs::CLOSE), 1, double(ERR_W[r.below(3)]), 1, double(r.chance(0.5) ? 0 : r.range(1, 3000))};
    } else {
        int k = r.range(0, 2);
        if (k == 0) s.a = {double(fs::OPEN_R), double(r.range(1, 4)), double(r.pick(vector<int>{EMFILE, EACCES, EIO})), 1, -1};
        else if (k == 1) s.a = {double(fs::READ), double(r.range(1, 3)), EIO, 1, -1};
        else s.a = {double(fs::READ), double(r.range(1, 3)), EINTR, double(r.range(1, 3)), double(r.chance(0.5) ? -1 : r.range(1, 300))};
    }
    p.push_back(s);
}
Plan gen(Rng& r, int tier, bool completeness) {
    Plan p;
    p.push_back({"!gran", {r.pick(vector<double>{1, 1e6, 1e9, 2e9})}, ""});
    int n = r.range(4, tier ? 14 : 9);
    bool faultFree = r.chance(0.2);
    for (int i = 0; i < n; i++) {
        double seed = double(r.below(1u << 30));
        int ph = r.chance(0.5) ? 0 : r.range(0, NPH - 1);
        int size = r.chance(0.15) ? r.range(0, 1) : r.chance(0.15) ? r.range(20, 120) : r.range(2, 8);
        if (!faultFree && completeness && r.chance(0.65)) {
            if (r.chance(0.25)) p.push_back({"cap", {double(r.below(r.chance(0.5) ? 9000 : 900))}, ""});
            else genFault(r, p, true);
        }
        if (!faultFree && !completeness && r.chance(0.4)) genFault(r, p, r.chance(0.15));
        if (r.chance(0.1)) p.push_back({"clock", {r.uni(-7200, 7200)}, ""});
        double u = r.uni();
        int bad = 0;
        if (!completeness && !faultFree && r.chance(0.3)) bad = r.range(1, 4);
        if (completeness) {
            if (u < 0.35) p.push_back({"save", {double(r.below(2)), double(r.below(5)), double(r.below(3)), seed, double(size), double(r.chance(0.7)), double(ph), double(r.below(16)), 0, 0}, ""});
            else if (u < 0.55) p.push_back({"csv", {0, 0, 0, seed, double(size), double(r.chance(0.7)), double(ph), double(r.below(8)), 0, double(r.below(3)), double(r.chance(0.5))}, ""});
            else if (u < 0.65) p.push_back({r.pick(vector<string>{"flamecsv", "eqcsv", "rpath", "rpath"}), {0, 0, 0, seed, 0, 0, double(r.below(4))}, ""});
            else if (u < 0.8) p.push_back({"yamlwriter", {0, 0, 0, 0, 0, 0, double(ph)}, ""});
            else if (u < 0.93) p.push_back({"flame", {double(r.below(2)), double(r.below(3)), 0, seed, 0, double(r.chance(0.7)), double(r.below(2)), 0, 0, 0}, ""});
            else p.push_back({"restart", {}, ""});
        } else {
            if (u < 0.5) p.push_back({"save", {double(r.below(2)), double(r.below(5)), double(r.below(3)), seed, double(size), double(r.chance(0.6)), double(ph), double(r.below(16)), double(bad), double(r.range(1, 4000))}, ""});
            else if (u < 0.6) p.push_back({r.chance(0.3) ? "resid" : "flame", {double(r.below(2)), double(r.below(3)), 0, seed, 0, double(r.chance(0.6)), double(r.below(2)), 0, double(bad == 3 || bad == 4 ? bad : 0), double(r.range(1, 6000))}, ""});
            else if (u < 0.7) p.push_back({"csv", {0, 0, 0, seed, double(size), double(r.chance(0.5)), double(ph), double(r.below(8)), double(bad == 1 || bad == 3 ? bad : 0), double(r.below(3)), double(r.chance(0.3))}, ""});
            else if (u < 0.92) p.push_back({"restore", {double(r.below(2)), double(r.below(5)), double(r.below(3))}, ""});
            else p.push_back({"restart", {}, ""});
        }
    }
    return p;
}
sim::Reg r1({"savecomplete", [](Rng& r, int t) { return gen(r, t, true); },
             [](const Plan& p, Ctx& c) { runOps(p, c, "D01"); }, warm, 40});
sim::Reg r2({"archive", [](Rng& r, int t) { return gen(r, t, false); },
             [](const Plan& p, Ctx& c) { runOps(p, c, "D02"); }, warm, 40});
}

// Self-contained pieces of client work covering the parts of the library.  A job is built from
// a seed (make) and evaluated (the returned closure) into a digest of everything it observed.
#pragma once
#include "props.h"
#include "cantera/base/Units.h"
#include "cantera/base/YamlWriter.h"
#include "cantera/base/stringUtils.h"
#include "cantera/base/utilities.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/equil/ChemEquil.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/ReactionPath.h"
#include "cantera/numerics/Func1.h"
#include "cantera/numerics/Func1Factory.h"
#include "cantera/onedim.h"
#include "cantera/oneD/DomainFactory.h"
#include "cantera/oneD/IonFlow.h"
#include "cantera/thermo/Elements.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/SpeciesThermoFactory.h"
#include "cantera/thermo/SpeciesThermoInterpType.h"
#include "cantera/tpx/utils.h"
#include "cantera/tpx/Sub.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ConnectorFactory.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/zeroD/FlowReactor.h"
#include "cantera/zeroD/MoleReactor.h"
#include "cantera/numerics/SystemJacobianFactory.h"
#include "cantera/transport/DustyGasTransport.h"
#include "cantera/transport/TransportFactory.h"
#include <sstream>

namespace simw {
using sim::Rng;
struct Dig {
    uint64_t h = 1469598103934665603ull;
    bool keep = true;
    vector<std::pair<string, string>> items;
    void add(const string& n, const string& v) { sim::alloc::Pause nofail; h = sim::fnvs(n, h); h = sim::fnvs(v, h); if (keep) items.push_back({n, v}); }
    void num(const string& n, double x) { sim::alloc::Pause nofail; add(n, g17(x)); }
    void vec(const string& n, const double* v, size_t k) {
        sim::alloc::Pause nofail;
        string s;
        for (size_t i = 0; i < k; i++) { s += g17(v[i]); s += ' '; }
        add(n, s);
    }
    void vec(const string& n, const Vec& v) { vec(n, v.data(), v.size()); }
    void out(const string& n, const Outcome& o) { sim::alloc::Pause nofail; add(n, o.ok ? "ok" : o.kind + "|" + o.type + "|" + o.msg); }
    void sys(const string& n, Sys& s, bool t = true, bool k = true, bool r = true) {
        vector<std::pair<string, Value>> v;
        evalAll(s, v, t, k, r);
        for (auto& [m, x] : v) { if (x.err.empty()) vec(n + "." + m, x.v); else add(n + "." + m, x.err); }
    }
};
// first differing item of two digests
inline string digDiff(const Dig& a, const Dig& b) {
    for (size_t i = 0; i < std::max(a.items.size(), b.items.size()); i++) {
        if (i >= a.items.size()) return "missing item " + b.items[i].first;
        if (i >= b.items.size()) return "additional item " + a.items[i].first;
        if (a.items[i] != b.items[i]) {
            auto& p = a.items[i].second; auto& q = b.items[i].second;
            size_t k = 0;
            while (k < p.size() && k < q.size() && p[k] == q[k]) k++;
            k = k > 30 ? k - 30 : 0;
            return a.items[i].first + ": '" + ecut(p.substr(k), 120) + "' vs '" + ecut(q.substr(k), 120) + "'";
        }
    }
    return "";
}
inline string digItem(const Dig& a, const Dig& b) {
    for (size_t i = 0; i < std::min(a.items.size(), b.items.size()); i++)
        if (a.items[i] != b.items[i]) return a.items[i].first;
    return "items";
}
// the same items with numbers equal to within a solver's tolerance (a solver that retried an
// evaluation legitimately takes other steps); text must be equal
inline string digDiffTol(const Dig& a, const Dig& b, double rtol) {
    if (a.items.size() != b.items.size()) return digDiff(a, b);
    for (size_t i = 0; i < a.items.size(); i++) {
        if (a.items[i] == b.items[i]) continue;
        if (a.items[i].first != b.items[i].first) return digDiff(a, b);
        auto& nm = a.items[i].first;   // where an adaptive step ends depends on the steps before
        if (nm == "step" || nm == "P" || nm == "mdot" || nm == "sens") continue;
        std::istringstream x(a.items[i].second), y(b.items[i].second);
        Vec v, w;
        double q;
        while (x >> q) v.push_back(q);
        while (y >> q) w.push_back(q);
        if (!x.eof() || !y.eof() || v.size() != w.size()) return digDiff(a, b);
        for (size_t k = 0; k < v.size(); k++) if (!close(v[k], w[k], rtol, 1e-9))
            return a.items[i].first + sim::strf("[%zu]: ", k) + g17(v[k]) + " vs " + g17(w[k]);
    }
    return "";
}
using RunF = std::function<void(Dig&)>;
struct Job { string name; int weight; std::function<RunF(Rng&)> make; };
// loads data either through the library's search path or by a full path
inline string jobFile(const string& f) { return dataPath(f); }
struct SimFlame;
inline shared_ptr<Sim1D> smallFlame(Rng& r, shared_ptr<Solution>& sol, const string& kind, int nz, const string& mech = "h2o2.yaml", const string& tr = "mixture-averaged") {
    sol = newSolution(jobFile(mech), mech == "h2o2.yaml" ? "ohmech" : "", tr);
    auto gas = sol->thermo();
    size_t nsp = gas->nSpecies();
    double uin = kind == "burner" ? r.uni(0.5, 1.0) : r.uni(0.25, 0.5), T = 300, P = OneAtm * r.uni(0.8, 1.2);
    string X = "H2:0.65, O2:0.5, AR:2";
    gas->setState_TPX(T, P, X);
    double rhoIn = gas->density();
    Vec yin(nsp), yout(nsp);
    gas->getMassFractions(yin.data());
    gas->equilibrate("HP");
    gas->getMassFractions(yout.data());
    double rhoOut = gas->density(), Tad = gas->temperature();
    auto flow = newDomain<Flow1D>(kind == "free" ? "free-flow" : "unstrained-flow", sol, "flow");
    Vec z(nz);
    for (int i = 0; i < nz; i++) z[i] = 0.02 * i / (nz - 1);
    flow->setupGrid(nz, z.data());
    auto inlet = newDomain<Inlet1D>("inlet", sol, "inlet");
    inlet->setMoleFractions(X);
    inlet->setMdot(uin * rhoIn);
    inlet->setTemperature(T);
    auto outlet = newDomain<Outlet1D>("outlet", sol, "outlet");
    double uout = inlet->mdot() / rhoOut;
    vector<shared_ptr<Domain1D>> doms{inlet, flow, outlet};
    auto s = std::make_shared<Sim1D>(doms);
    Vec loc{0.0, 0.3, 0.7, 1.0}, val{uin, uin, uout, uout};
    s->setInitialGuess("velocity", loc, val);
    val = {T, T, Tad, Tad};
    s->setInitialGuess("T", loc, val);
    for (size_t i = 0; i < nsp; i++) { val = {yin[i], yin[i], yout[i], yout[i]}; s->setInitialGuess(gas->speciesName(i), loc, val); }
    flow->setPressure(P);
    s->setRefineCriteria(1, 15, 0.3, 0.5);
    if (kind == "free") s->setFixedTemperature(0.85 * T + .15 * Tad);
    return s;
}
inline void flameDig(Dig& d, Sim1D& s) {
    for (size_t k = 0; k < s.nDomains(); k++) {
        auto& dom = s.domain(k);
        Vec v;
        for (size_t n = 0; n < dom.nComponents(); n++) for (size_t i = 0; i < dom.nPoints(); i++) v.push_back(s.value(k, n, i));
        d.vec(sim::strf("domain%zu", k), v);
    }
}
struct Plant {     // a reactor network owning everything it uses
    vector<shared_ptr<Solution>> sols;
    vector<shared_ptr<ReactorBase>> r;
    vector<shared_ptr<ConnectorNode>> c;
    vector<shared_ptr<ReactorSurface>> surf;
    vector<shared_ptr<Func1>> f;
    ReactorNet net;
};
inline shared_ptr<Plant> smallPlant(Rng& r) {
    auto p = std::make_shared<Plant>();
    auto gas = [&](double T, const char* X) {
        auto s = newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
        s->thermo()->setState_TPX(T, OneAtm * r.uni(0.8, 2), X);
        p->sols.push_back(s);
        return s;
    };
    static const char* const types[] = {"IdealGasReactor", "IdealGasConstPressureReactor", "Reactor", "ConstPressureReactor", "IdealGasMoleReactor", "IdealGasConstPressureMoleReactor", "MoleReactor", "ConstPressureMoleReactor"};
    int n = r.range(1, 2);
    for (int i = 0; i < n; i++) p->r.push_back(newReactor(types[r.below(8)], gas(r.uni(950, 1300), "H2:1, O2:1, AR:4"), sim::strf("r%d", i)));
    if (r.chance(0.5)) {
        auto up = newReactor("Reservoir", gas(300, "H2:1, O2:2, AR:4"), "up"), down = newReactor("Reservoir", gas(300, "AR:1"), "down");
        p->r.push_back(up); p->r.push_back(down);
        auto m = std::dynamic_pointer_cast<MassFlowController>(newFlowDevice("MassFlowController", up, p->r[0], "mfc"));
        m->setMassFlowRate(r.uni(0.01, 0.1));
        auto v = std::dynamic_pointer_cast<PressureController>(newFlowDevice("PressureController", p->r[0], down, "pc"));
        v->setPrimary(m.get());
        v->setPressureCoeff(1e-5);
        p->c.push_back(m); p->c.push_back(v);
        if (r.chance(0.5)) { p->f.push_back(newFunc1("sin", 200.0)); p->f.push_back(newFunc1("plus-constant", p->f.back(), 1.5)); m->setTimeFunction(p->f.back().get()); }
    }
    if (n == 2) {
        auto w = std::dynamic_pointer_cast<Wall>(newWall("Wall", p->r[0], p->r[1], "wall"));
        w->setArea(r.uni(0.1, 1));
        w->setHeatTransferCoeff(r.uni(10, 200));
        w->setExpansionRateCoeff(r.uni(0, 1e-5));
        p->c.push_back(w);
    }
    for (int i = 0; i < n; i++) p->net.addReactor(dynamic_cast<Reactor&>(*p->r[i]));
    return p;
}
inline const vector<Job>& jobs() {
    static const vector<Job>& J = *[] {
        auto j = new vector<Job>;
        j->push_back({"phase", 4, [](Rng& r) -> RunF {
            auto& c = r.pick(catalog());
            auto sol = newSolution(jobFile(c.file), c.phase, "none");
            auto st = r.pick(c.states);
            return [=](Dig& d) {
                Sys s(sol);
                d.out("state", attempt([&] { AnyMap m = AnyMap::fromYamlString(st); s.th->setState(m); }));
                d.sys(c.label, s, true, false, false);
                d.out("report", attempt([&] { d.add("report", s.th->report()); }));
            }; }});
        j->push_back({"mechanism", 4, [](Rng& r) -> RunF {
            auto& m = r.pick(mechs());
            auto sol = newSolution(jobFile(m.file), m.phase, string(m.transport) == "default" ? "" : m.transport);
            double a = r.uni(1, 1.5), b = r.uni(0.7, 1.5);
            return [=](Dig& d) {
                Sys s(sol);
                d.out("state", attempt([&] { s.th->setState_TP(s.th->temperature() * a, s.th->pressure() * b); }));
                d.sys(m.file, s, false);
            }; }});
        j->push_back({"surface", 3, [](Rng& r) -> RunF {
            auto& m = r.pick(surfs());
            auto sol = newInterface(jobFile(m.file), m.phase);
            double a = r.uni(0.9, 1.1);
            uint64_t sd = r.next();
            return [=](Dig& d) {
                Sys s(sol);
                Rng q(sd);
                auto k = std::dynamic_pointer_cast<InterfaceKinetics>(s.kin);
                double T = s.th->temperature() * a;
                d.out("state", attempt([&] {
                    for (size_t i = 0; i < sol->nAdjacent(); i++) sol->adjacent(i)->thermo()->setState_TP(T, sol->adjacent(i)->thermo()->pressure());
                    s.th->setState_TP(T, s.th->pressure()); }));
                d.sys(m.file, s, true, true, false);
                d.out("advance", attempt([&] { k->advanceCoverages(1e-6); }));
                Vec c(s.th->nSpecies());
                s.th->getMoleFractions(c.data());
                d.vec("coverages", c);
            }; }});
        j->push_back({"pseudosteady", 2, [](Rng& r) -> RunF {
            auto sol = newInterface(jobFile("ptcombust-simple.yaml"), "Pt_surf");
            double T = r.uni(800, 1300);
            return [=](Dig& d) {
                auto k = std::dynamic_pointer_cast<InterfaceKinetics>(sol->kinetics());
                d.out("solve", attempt([&] {
                    auto g = sol->adjacent(0)->thermo();
                    g->setState_TPX(T, OneAtm, "CH4:0.095, O2:0.21, AR:0.695");
                    sol->thermo()->setState_TP(T, OneAtm);
                    k->solvePseudoSteadyStateProblem(); }));
                Vec c(sol->thermo()->nSpecies());
                sol->thermo()->getMoleFractions(c.data());
                d.vec("coverages", c);
            }; }});
        j->push_back({"reactors", 3, [](Rng& r) -> RunF {
            auto p = smallPlant(r);
            double dt = r.logu(1e-6, 1e-4);
            bool sens = r.chance(0.3);
            if (sens) dynamic_cast<Reactor&>(*p->r[0]).addSensitivityReaction(r.below(10));
            return [=](Dig& d) {
                d.out("advance", attempt([&] {
                    for (int i = 1; i <= 3; i++) {
                        p->net.advance(dt * i);
                        Vec y(p->net.neq());
                        p->net.getState(y.data());
                        d.vec("y", y);
                    }
                    d.num("step", p->net.step());
                    if (sens) d.num("sens", p->net.sensitivity(3, 0));
                }));
                for (auto& s : p->sols) d.num("P", s->thermo()->pressure());
                for (auto& w : p->c) if (auto f = dynamic_cast<FlowDevice*>(w.get())) d.num("mdot", f->massFlowRate());
            }; }});
        j->push_back({"surfreactor", 2, [](Rng& r) -> RunF {
            auto p = std::make_shared<Plant>();
            auto surf = newInterface(jobFile("ptcombust-simple.yaml"), "Pt_surf");
            auto gas = surf->adjacent(0);
            gas->thermo()->setState_TPX(r.uni(800, 1200), OneAtm, "CH4:0.095, O2:0.21, AR:0.695");
            surf->thermo()->setState_TP(gas->thermo()->temperature(), OneAtm);
            p->sols = {surf, gas};
            bool flow = r.chance(0.4);
            p->r.push_back(newReactor(flow ? "FlowReactor" : "IdealGasReactor", gas, "r"));
            auto& R = dynamic_cast<Reactor&>(*p->r[0]);
            auto s = std::make_shared<ReactorSurface>("s");
            s->setKinetics(surf->kinetics().get());
            surf->thermo()->setState_TP(gas->thermo()->temperature(), OneAtm);
            s->setArea(1.0);
            R.addSurface(s.get());
            p->surf.push_back(s);
            if (flow) { auto& F = dynamic_cast<FlowReactor&>(R); F.setMassFlowRate(0.05); F.setArea(1e-4); F.setSurfaceAreaToVolumeRatio(1000); F.setEnergy(0); }
            p->net.addReactor(R);
            return [=](Dig& d) {
                d.out("advance", attempt([&] {
                    p->net.advance(flow ? 1e-7 : 1e-6);
                    Vec y(p->net.neq());
                    p->net.getState(y.data());
                    d.vec("y", y);
                }));
            }; }});
        j->push_back({"flame", 1, [](Rng& r) -> RunF {
            shared_ptr<Solution> sol;
            string kind = r.chance(0.5) ? "free" : "burner";
            auto s = smallFlame(r, sol, kind, 6);
            bool energy = r.chance(0.5);
            return [=](Dig& d) {
                d.out("solve", attempt([&] {
                    auto& f = dynamic_cast<Flow1D&>(s->domain(1));
                    if (energy) f.solveEnergyEqn(); else f.fixTemperature();
                    s->setTimeStep(1e-5, 3, (std::vector<int>{2, 3, 5}).data());
                    s->solve(0, false);
                }));
                flameDig(d, *s);
            }; }});
        j->push_back({"equilibrate", 3, [](Rng& r) -> RunF {
            auto sol = newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
            static const char* const xy[] = {"TP", "HP", "UV", "SP", "TV", "SV"};
            static const char* const sv[] = {"element_potential", "gibbs", "vcs", "auto"};
            string XY = xy[r.below(6)], S = sv[r.below(4)];
            double T = r.uni(500, 2500);
            return [=](Dig& d) {
                auto th = sol->thermo();
                th->setState_TPX(T, OneAtm, "H2:1, O2:0.7, AR:1");
                d.out(XY + S, attempt([&] { th->equilibrate(XY, S); }));
                Vec x(th->nSpecies());
                th->getMoleFractions(x.data());
                d.vec("X", x);
                d.num("T", th->temperature());
            }; }});
        j->push_back({"mixture", 2, [](Rng& r) -> RunF {
            auto g = newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
            auto c = newSolution(jobFile("graphite.yaml"), "graphite", "none");
            double T = r.uni(600, 2000);
            string S = r.chance(0.5) ? "vcs" : "gibbs";
            return [=](Dig& d) {
                MultiPhase m;
                m.addPhase(g->thermo().get(), 1.0);
                m.addPhase(c->thermo().get(), 0.1);
                m.init();
                m.setState_TP(T, OneAtm);
                d.out("equil", attempt([&] { m.equilibrate("TP", S); }));
                for (size_t k = 0; k < m.nSpecies(); k++) d.num("n", m.speciesMoles(k));
            }; }});
        j->push_back({"array", 3, [](Rng& r) -> RunF {
            auto sol = newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
            int n = r.range(1, 5);
            uint64_t sd = r.next();
            string file = sim::strf("/simfs/own-%llx.yaml", (unsigned long long)sd);
            return [=](Dig& d) {
                Rng q(sd);
                AnyMap meta; meta["note"] = "x";
                auto a = SolutionArray::create(sol, n, meta);
                for (int i = 0; i < n; i++) {
                    a->setLoc(i);
                    sol->thermo()->setState_TP(q.uni(300, 2000), OneAtm * q.uni(0.5, 2));
                    a->updateState(i);
                }
                sim::fs::erase(file);
                d.out("save", attempt([&] { a->save(file, "e1", "", "d"); a->save(file, "e2", "", "d2"); }));
                auto b = SolutionArray::create(sol, 0);
                d.out("restore", attempt([&] { auto h = b->restore(file, "e1", ""); string ks; for (auto& [k, v] : h) ks += k + ","; d.add("header", ks); }));
                for (int i = 0; i < (int)b->size(); i++) d.vec("state", b->getState(i));
                d.add("info", b->info(vector<string>{"T", "H2", "D"}, 10, 120));
            }; }});
        j->push_back({"anymap", 4, [](Rng& r) -> RunF {
            int k = r.range(0, 5);
            double x = r.uni(1, 100);
            return [=](Dig& d) {
                AnyMap m;
                d.out("parse", attempt([&] {
                    m = AnyMap::fromYamlString(sim::strf("units: {length: cm, quantity: mol, energy: cal}\na: %g cm^2\nb: [1, 2.5, x]\nc: {d: %g kJ/mol, e: [1, 2, 3], f: true}\ng: [[1, 2], [3, 4]]\nh: [{q: 1}, {q: 2}]\n", x, x * 2));
                    m.applyUnits();
                }));
                d.out("conv", attempt([&] { d.num("a", m.convert("a", "m^2")); d.num("d", m["c"].as<AnyMap>().convert("d", "J/kmol")); }));
                d.out("err", attempt([&] {
                    switch (k) {
                    case 0: m["c"].as<AnyMap>()["nope"].asDouble(); break;
                    case 1: m.at("zzz"); break;
                    case 2: m["b"].asVector<double>(); break;
                    case 3: m.convert("a", "J"); break;
                    case 4: AnyMap::fromYamlString("a: [1, 2\nb: }"); break;
                    case 5: m["h"].getMapWhere("q", "7"); break;
                    } }));
                m["new"] = Vec{x, x + 1};
                m["flow"] = x;
                m["c"]["z"] = "text";
                d.add("yaml", m.toYamlString());
                AnyMap w = m;
                w["c"]["e"] = 5;
                d.add("eq", w == m ? "1" : "0");
            }; }});
        j->push_back({"func1", 3, [](Rng& r) -> RunF {
            auto a = newFunc1("sin", r.uni(1, 3)), b = newFunc1("polynomial3", Vec{1, 2, r.uni(0, 1)}), g = newFunc1("Gaussian", Vec{1, 0.5, r.uni(0.5, 2)});
            auto t = newFunc1("tabulated-linear", Vec{0, 1, 2, 1, 3, r.uni(2, 5)});
            return [=](Dig& d) {
                auto s = newFunc1("sum", a, b), p = newFunc1("product", s, g), q = newFunc1("composite", a, p), dv = p->derivative();
                for (double x : {0.1, 0.7, 1.3}) { d.num("p", p->eval(x)); d.num("q", q->eval(x)); d.num("d", dv->eval(x)); d.num("t", t->eval(x)); }
                d.add("write", p->write("x") + q->write("y") + dv->write("z"));
                d.out("bad", attempt([&] { newFunc1("no-such-function", 1.0); }));
                d.out("bad2", attempt([&] { newFunc1("sum", a, 1.0); }));
            }; }});
        j->push_back({"writer", 2, [](Rng& r) -> RunF {
            auto sol = newSolution(jobFile("h2o2.yaml"), "ohmech", r.chance(0.5) ? "none" : "mixture-averaged");
            int prec = r.range(3, 12);
            bool skip = r.chance(0.5);
            return [=](Dig& d) {
                YamlWriter w;
                w.skipUserDefined(skip);
                w.setPrecision(prec);
                w.setUnits({{"length", "cm"}, {"quantity", "mol"}});
                w.addPhase(sol);
                string t = w.toYamlString();
                auto at = t.find("date: ");
                if (at != string::npos) t.erase(at, t.find('\n', at) - at);
                d.add("yaml", t);
            }; }});
        j->push_back({"badinput", 4, [](Rng& r) -> RunF {
            int k = r.range(0, 9);
            return [=](Dig& d) {
                d.out("bad", attempt([&] {
                    auto sp = [](const char* n) { return newSolution(jobFile("h2o2.yaml"), n, "none"); };
                    switch (k) {
                    case 0: sp("no-such-phase"); break;
                    case 1: newSolution("no-such-file.yaml"); break;
                    case 2: { auto s = sp("ohmech"); s->kinetics()->addReaction(newReaction(AnyMap::fromYamlString("{equation: H + XX => H2, rate-constant: [1, 0, 0]}"), *s->kinetics())); break; }
                    case 3: { auto s = sp("ohmech"); s->thermo()->setState_TPX(300, OneAtm, "QQ:1"); break; }
                    case 4: { auto s = sp("ohmech"); s->thermo()->setState_TP(-300, OneAtm); break; }
                    case 5: newReactor("NoSuchReactor", sp("ohmech")); break;
                    case 6: newSolution(jobFile("h2o2.yaml"), "ohmech", "no-such-model"); break;
                    case 7: { AnyMap m = AnyMap::fromYamlString("{name: bad, composition: {H: 1, Zz: 2}, thermo: {model: NASA7, temperature-ranges: [200, 1000], data: [[1,2,3]]}}"); newSpecies(m); break; }
                    case 8: { auto s = sp("ohmech"); s->thermo()->equilibrate("ZZ"); break; }
                    case 9: { auto s = sp("ohmech"); newReaction(AnyMap::fromYamlString("{equation: H + O2 => O + OH, type: no-such-type}"), *s->kinetics()); break; }
                    } }));
            }; }});
        j->push_back({"units", 3, [](Rng& r) -> RunF {
            double x = r.uni(1, 1000);
            return [=](Dig& d) {
                UnitSystem u({{"length", "cm"}, {"mass", "g"}, {"quantity", "mol"}, {"pressure", "atm"}, {"energy", "cal"}, {"activation-energy", "K"}});
                d.num("c", u.convertTo(x, "cm^3/mol/s"));
                d.num("f", u.convertFrom(x, "kJ/kmol"));
                d.num("a", u.convertActivationEnergyFrom(x, "cal/mol"));
                d.num("t", u.convertActivationEnergyTo(x, "eV"));
                d.add("s", Units("kg*m^2/s^2").str() + Units("J/kmol/K").str());
                d.out("bad", attempt([&] { Units("kg*bogus"); }));
                d.out("bad2", attempt([&] { u.convert(x, "m", "s"); }));
                d.num("fp", fpValueCheck("1.5e3"));
                d.out("bad3", attempt([&] { fpValueCheck("1.5z"); }));
                d.add("str", vec2str(Vec{x, x / 3}) + toLowerCopy("ABC") + trimCopy("  q "));
            }; }});
        j->push_back({"paths", 2, [](Rng& r) -> RunF {
            auto sol = newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
            double T = r.uni(1000, 2000);
            string el = r.chance(0.5) ? "H" : "O";
            return [=](Dig& d) {
                sol->thermo()->setState_TPX(T, OneAtm, "H2:0.2, O2:0.2, OH:0.05, H:0.02, H2O:0.2, AR:0.3");
                d.out("paths", attempt([&] {
                    auto dg = newReactionPathDiagram(sol->kinetics(), el);
                    dg->build();
                    d.add("dot", dg->getDot());
                    d.add("data", dg->getData());
                })); }; }});
        j->push_back({"substance", 2, [](Rng& r) -> RunF {
            static const char* const n[] = {"water", "nitrogen", "methane", "hydrogen", "oxygen", "carbon-dioxide", "heptane", "hfc-134a"};
            string s = n[r.below(8)];
            double a = r.uni(1.05, 1.5);
            return [=](Dig& d) {
                auto x = newSolution(jobFile("liquidvapor.yaml"), s == "hfc-134a" ? "HFC-134a" : s, "none");
                Sys y(x);
                d.out("st", attempt([&] { y.th->setState_TP(y.th->critTemperature() * a, OneAtm); }));
                d.sys(s, y, true, false, false);
                d.out("sat", attempt([&] { y.th->setState_Tsat(y.th->critTemperature() * 0.8, 0.4); }));
                d.sys(s + "-sat", y, true, false, false);
            }; }});
        j->push_back({"elements", 2, [](Rng& r) -> RunF {
            return [=](Dig& d) {
                d.num("w", getElementWeight("Pt") + getElementWeight("D") + getElementWeight("helium"));
                d.add("n", getElementSymbol("iron") + getElementName(17) + getElementSymbol(80));
                d.num("z", getAtomicNumber("Kr"));
                d.out("bad", attempt([&] { getElementWeight("Qq"); }));
                d.add("v", std::to_string(elementSymbols().size()) + elementNames()[3]);
                d.add("vers", version());
            }; }});
        j->push_back({"builtup", 3, [](Rng& r) -> RunF {
            auto base = newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
            int n = r.range(3, 8);
            return [=](Dig& d) {
                auto th = newThermoModel("ideal-gas");
                auto src = base->thermo();
                d.out("build", attempt([&] {
                    for (int i = 0; i < n; i++) {
                        auto sp = src->species(i);
                        for (auto& [e, k] : sp->composition) th->addElement(e);
                    }
                    for (int i = 0; i < n; i++) th->addSpecies(newSpecies(src->species(i)->parameters(src.get())));
                    th->initThermo();
                    th->setState_TP(900, OneAtm);
                    auto k = newKinetics("bulk");
                    k->addThermo(th); k->init(); k->skipUndeclaredSpecies(true); k->skipUndeclaredThirdBodies(true);
                    for (size_t i = 0; i < base->kinetics()->nReactions(); i++) k->addReaction(newReaction(base->kinetics()->reaction(i)->parameters(), *k));
                    Vec v(k->nReactions());
                    k->getFwdRateConstants(v.data());
                    d.vec("kf", v);
                }));
                Vec h(th->nSpecies());
                th->getPartialMolarEnthalpies(h.data());
                d.vec("h", h);
            }; }});
        j->push_back({"diffusion", 3, [](Rng& r) -> RunF {
            // mechanisms of very different sizes through the dense linear algebra of the transport models
            int k = r.below(4);
            shared_ptr<Solution> sol;
            if (k == 3) {
                auto g = newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
                sol = g;
            } else {
                static const char* const f[] = {"h2o2.yaml", "air.yaml", "gri30.yaml"};
                static const char* const n[] = {"ohmech", "air", "gri30"};
                sol = newSolution(jobFile(f[k]), n[k], "multicomponent");
            }
            double T = r.uni(400, 2000), P = OneAtm * r.uni(0.5, 2);
            return [=](Dig& d) {
                auto th = sol->thermo();
                size_t n = th->nSpecies();
                Vec D(n * n), g1(n, 0.0), X(n, 1.0), flux(n);
                for (size_t i = 0; i < n; i++) X[i] = 1 + i % 3;
                th->setState_TPX(T, P, X.data());
                if (k == 3) {
                    auto t = newTransport(sol->thermo(), "DustyGas");
                    auto dg = std::dynamic_pointer_cast<DustyGasTransport>(t);
                    dg->setPorosity(0.2); dg->setTortuosity(4.0); dg->setMeanPoreRadius(1e-6); dg->setMeanParticleDiameter(2e-6);
                    d.out("dg", attempt([&] { dg->getMultiDiffCoeffs(n, D.data()); d.vec("D", D); }));
                    Vec c1(n), c2(n);
                    th->getConcentrations(c1.data());
                    for (size_t i = 0; i < n; i++) c2[i] = c1[i] * (i % 2 ? 1.1 : 0.8);
                    d.out("flux", attempt([&] { Vec s1, s2; s1.push_back(T); s1.push_back(th->density()); for (auto c : X) s1.push_back(c / n); s2 = s1; s2[1] *= 1.1;
                        dg->getMolarFluxes(s1.data(), s2.data(), 0.01, flux.data()); d.vec("J", flux); }));
                    return;
                }
                auto t = sol->transport();
                d.out("multi", attempt([&] { t->getMultiDiffCoeffs(n, D.data()); d.vec("D", D); }));
                d.out("thermal", attempt([&] { t->getThermalDiffCoeffs(g1.data()); d.vec("DT", g1); d.num("lambda", t->thermalConductivity()); }));
            }; }});
        return j;
    }();
    return J;
}
inline int pickJob(Rng& r) {
    int tot = 0;
    for (auto& j : jobs()) tot += j.weight;
    int k = r.below(tot);
    for (size_t i = 0; i < jobs().size(); i++) { k -= jobs()[i].weight; if (k < 0) return i; }
    return 0;
}
// run one job completely; failures become part of the digest
inline void runJob(int kind, uint64_t seed, Dig& d) {
    auto& j = jobs()[kind % jobs().size()];
    Rng r(seed);
    RunF f;
    auto o = attempt([&] { f = j.make(r); });
    if (!o.ok) { d.out("make", o); return; }
    d.out("run", attempt([&] { f(d); }));
}
}

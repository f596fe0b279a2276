// World "coherence" (H01): several clients share one phase, its kinetics and its transport
// model.  What a client reads depends only on the state that was set, never on what anybody
// read before, on failed operations, or on the order of the reads.
#include "props.h"
#include "cantera/kinetics/Custom.h"
#include "cantera/numerics/Func1.h"

using namespace simw;
using sim::Plan; using sim::Step; using sim::Rng; using sim::Ctx;

namespace {
struct Case { int kind; int idx; };    // 0 catalogue phase, 1 mechanism, 2 surface, 3 mechanism with user-defined rates
// A user-defined rate: fails when the plan says so.
long g_cbFail = 0, g_cbFired = 0;
struct UserRate : Func1 {
    double a, b;
    UserRate(double a_, double b_) : a(a_), b(b_) {}
    string type() const override { return "user"; }
    double eval(double T) const override {
        if (g_cbFail > 0 && --g_cbFail == 0) { g_cbFired++; throw std::runtime_error("user function failed"); }
        return a * std::exp(-b / T);
    }
};
vector<Case> cases() {
    vector<Case> c;
    for (size_t i = 0; i < catalog().size(); i++) c.push_back({0, int(i)});
    for (size_t i = 0; i < mechs().size(); i++) c.push_back({1, int(i)});
    for (size_t i = 0; i < surfs().size(); i++) c.push_back({2, int(i)});
    for (int i = 0; i < 3; i++) c.push_back({3, i});
    return c;
}
string caseName(const Case& c) {
    if (c.kind == 0) return catalog()[c.idx].label;
    if (c.kind == 3) return "user-defined-rates";
    if (c.kind == 1) return string(mechs()[c.idx].file) + "/" + mechs()[c.idx].phase + "/" + mechs()[c.idx].transport;
    return string(surfs()[c.idx].file) + "/" + surfs()[c.idx].phase;
}
shared_ptr<Solution> build(const Case& c) {
    if (c.kind == 0) {
        auto& p = catalog()[c.idx];
        return newSolution(dataPath(p.file), p.phase, "none");
    }
    if (c.kind == 1) {
        auto& m = mechs()[c.idx];
        return newSolution(dataPath(m.file), m.phase, string(m.transport) == "default" ? "" : m.transport);
    }
    if (c.kind == 3) {
        auto s = newSolution(dataPath("h2o2.yaml"), "ohmech", "none");
        const char* eq[] = {"H2 + O <=> H + OH", "H + O2 <=> O + OH", "HO2 + H => H2 + O2"};
        for (int i = 0; i < 3; i++) {
            auto r = std::make_shared<CustomFunc1Rate>();
            r->setRateFunction(std::make_shared<UserRate>(1e7 * (i + 1), 2000.0 + 700 * i));
            auto R = std::make_shared<Reaction>(eq[i], r);
            R->duplicate = true;
            s->kinetics()->addReaction(R, i == 2);
        }
        return s;
    }
    return newInterface(dataPath(surfs()[c.idx].file), surfs()[c.idx].phase);
}
struct Base { double T, P, rho; Vec X; };
struct Obj {
    Sys s;
    vector<shared_ptr<ThermoPhase>> ph;     // the phase itself, then adjacent phases
    Vec saved; int savedOf = -1;
    Obj(const Case& c) : s(build(c)) {
        ph.push_back(s.th);
        for (size_t i = 0; i < s.sol->nAdjacent(); i++) {
            auto a = s.sol->adjacent(i)->thermo();
            ph.push_back(a);
            for (size_t j = 0; j < s.sol->adjacent(i)->nAdjacent(); j++) ph.push_back(s.sol->adjacent(i)->adjacent(j)->thermo());
        }
    }
};
// Nominal states every change is expressed against, so that histories stay in the range where
// the models are meant to be used; taken from an object of its own.
struct Ref {
    Obj o;
    vector<vector<Base>> b;
    Ref(const Case& c) : o(c) {
        for (size_t i = 0; i < o.ph.size(); i++) {
            auto& th = *o.ph[i];
            vector<Base> v;
            auto take = [&] {
                Base x{th.temperature(), th.pressure(), th.density(), Vec(th.nSpecies())};
                th.getMoleFractions(x.X.data());
                v.push_back(x);
            };
            if (c.kind == 0 && i == 0)
                for (auto& st : catalog()[c.idx].states) { AnyMap m = AnyMap::fromYamlString(st); th.setState(m); take(); }
            else {
                take();
                Base x0 = v[0];
                bool gas = th.type() == "ideal-gas" || c.kind == 1 || c.kind == 3;
                if (gas) for (auto& x : v[0].X) x = (x + 0.01) / (1 + 0.01 * v[0].X.size());
                for (double T : {x0.T * 1.2, gas ? 1200.0 : x0.T * 1.1})
                    try { th.setState_TP(T, x0.P); take(); if (gas) v.back().X = v[0].X; } catch (CanteraError&) {}
            }
            b.push_back(v);
        }
    }
};
void toBase(ThermoPhase& th, const Base& q, double a, double b) {
    th.setState_TPX(q.T * a, q.P * b, q.X.data());
}
// One state-changing operation.  Returns "" or the class of the exception.
string mutate(const Case& cs, Obj& o, Ref& ref, const Step& st) {
    int kind = st.iarg(0), which = st.iarg(1);
    double a = st.arg(2), b = st.arg(3);
    Rng r((uint64_t)st.arg(4));
    size_t w = which % o.ph.size();
    auto& th = o.ph[w];
    auto& rt = ref.o.ph[w];
    const Base& q = ref.b[w][r.below(ref.b[w].size())];
    size_t n = th->nSpecies();
    Vec x(n);
    // composition near the nominal one; every amount stays non-negative
    x = q.X;
    if (r.chance(0.5)) for (auto& v : x) v = v * r.uni(0.8, 1.25) + (v > 0 && r.chance(0.3) ? 0.01 : 0);
    auto out = attempt([&] {
        switch (kind) {
        case 0:
            if (cs.kind == 0 && w == 0) {
                auto& ss = catalog()[cs.idx].states;
                AnyMap m = AnyMap::fromYamlString(ss[size_t(st.arg(4)) % ss.size()]);
                th->setState(m);
            } else toBase(*th, q, a, b);
            break;
        case 1: th->setTemperature(q.T * a); break;
        case 2: th->setState_TP(q.T * a, q.P * b); break;
        case 3: th->setMoleFractions(x.data()); break;
        case 4: for (size_t k = 0; k < n; k++) x[k] *= th->molecularWeight(k); th->setMassFractions(x.data()); break;
        case 5: toBase(*th, q, 1, 1); th->setDensity(q.rho * (1 + 0.2 * (b - 1))); break;
        case 6: th->setPressure(q.P * b); break;
        case 7: toBase(*rt, q, a, b); toBase(*th, q, 1, 1); th->setState_HP(rt->enthalpy_mass(), q.P * b); break;
        case 8: toBase(*rt, q, a, b); toBase(*th, q, 1, 1); th->setState_UV(rt->intEnergy_mass(), 1 / rt->density()); break;
        case 9: toBase(*rt, q, a, b); toBase(*th, q, 1, 1); th->setState_SP(rt->entropy_mass(), q.P * b); break;
        case 10: th->setElectricPotential(0.3 * (a - 1)); break;
        case 11: {
            auto sp = std::dynamic_pointer_cast<SurfPhase>(th);
            auto pl = std::dynamic_pointer_cast<PlasmaPhase>(th);
            if (sp) { for (auto& v : x) v = 0.01 + r.uni(); sp->setCoverages(x.data()); }
            else if (pl) pl->setElectronTemperature(q.T * (1 + 5 * b));
            else th->setState_TPX(q.T * a, q.P * b, x.data());
            break;
        }
        case 12: th->saveState(o.saved); o.savedOf = w; break;
        case 13: if (o.savedOf >= 0) o.ph[o.savedOf]->restoreState(o.saved); break;
        case 14:
            if (o.s.kin && o.s.kin->nReactions()) {
                size_t i = r.below(o.s.kin->nReactions());
                o.s.kin->setMultiplier(i, r.chance(0.3) ? 0.0 : r.uni(0.1, 3));
            }
            break;
        case 15: th->setState_TPX(q.T * a, -1.0, x.data()); break;      // refused by most models
        case 16: th->setTemperature(-5.0); break;                 // refused
        case 17: th->setMoleFractionsByName("NoSuchSpecies:1"); break;
        case 18: th->setState_TPX(q.T, q.P, "NoSuchSpecies:1"); break;
        case 19: th->setState_TD(q.T, q.rho * (1 + 0.2 * (b - 1))); break;
        case 20: toBase(*th, q, a, b); { Vec c(n); th->getConcentrations(c.data()); for (auto& v : c) v *= r.uni(0.98, 1.02); th->setConcentrations(c.data()); } break;
        case 21: toBase(*rt, q, 1, 1); rt->getMassFractions(x.data()); th->setState_TPY(q.T * a, q.P * b, x.data()); break;
        case 22: th->setMoleFractions(x.data()); th->setTemperature(q.T * a); break;
        case 23: { AnyMap m; m["T"] = q.T * a; m["P"] = q.P * b; m["X"] = "NoSuchSpecies:1"; th->setState(m); break; }
        }
    });
    // a refused operation may leave a state nobody promised: start again from a nominal one
    if (!out.ok && kind != 17) attempt([&] { toBase(*th, q, 1, 1); });
    // all phases taking part in a surface mechanism share one temperature
    if (cs.kind == 2)
        for (auto& p : o.ph) if (p != th && p->temperature() != th->temperature()) {
            double P = p->pressure();
            attempt([&] { p->setState_TP(th->temperature(), P); });
        }
    return out.ok ? "" : out.kind + ":" + out.type;
}
// Quantities the library differentiates numerically, or solves for iteratively from the previous
// answer, are compared more loosely; nothing stale is that close.
std::pair<double, double> tolerance(const string& n) {
    if (n.find("_dd") != string::npos || n.find("getdlnAct") == 0) return {1e-2, 1e-3};
    if (n == "getEquilibriumConstants" || n.find("Rev") != string::npos || n.find("Net") == 3 || n.find("Creation") == 3 || n.find("Destruction") == 3
        || n.find("ThermalDiff") == 3 || n.find("Fluxes") != string::npos) return {1e-4, 1e-6};
    for (auto q : {"nthalpy", "ntEnergy", "ibbs", "ntropy", "Potential"}) if (n.find(q) != string::npos) return {1e-5, 1e-7};
    return {1e-6, 1e-8};
}
struct PropRef { char grp; int i; const Prop* p; };
vector<PropRef> propsOf(const Sys& s) {
    vector<PropRef> v;
    int i = 0;
    for (auto& p : thermoProps()) v.push_back({'t', i++, &p});
    i = 0;
    if (s.kin && s.kin->nReactions()) for (auto& p : kinProps()) v.push_back({'k', i++, &p});
    i = 0;
    if (s.tr && s.tr->transportModel() != "none") for (auto& p : tranProps()) v.push_back({'r', i++, &p});
    return v;
}
void exec(const Plan& plan, Ctx& c) {
    sim::fs::reset();
    auto head = sim::findStep(plan, "!case");
    auto all = cases();
    Case cs = all[size_t(head->arg(0)) % all.size()];
    string cn = caseName(cs);
    c.at(0, "H01:" + cn);
    Ref ref(cs);
    Obj A(cs);
    auto props = propsOf(A.s);
    vector<const Step*> history;
    vector<string> outcomes;
    vector<std::pair<const PropRef*, Value>> pending;
    int step = 0, nread = 0;
    auto flush = [&] {
        if (pending.empty()) return;
        Obj B(cs);
        for (size_t i = 0; i < history.size(); i++) {
            c.at(step, sim::strf("H01:%s:twin-set%d", cn.c_str(), history[i]->iarg(0)));
            string o = mutate(cs, B, ref, *history[i]);
            if (o != outcomes[i])
                c.fail("H01:outcome-depends-on-reads:" + cn + sim::strf(":set%d", history[i]->iarg(0)), sim::strf("operation %zu of the history gave '%s', without the other clients '%s'", i, outcomes[i].c_str(), o.c_str()));
        }
        for (size_t k = pending.size(); k-- > 0;) {
            auto& pr = *pending[k].first->p;
            c.at(step, sim::strf("H01:%s:twin:%s", cn.c_str(), pr.name.c_str()));
            Value v = evalProp(pr, B.s);
            c.evbits(pr.name.c_str(), v.v.data(), v.v.size());
            if (!v.err.empty()) c.count("reads-raising");
            auto tol = tolerance(pr.name);
            if (!agree(pending[k].second, v, tol.first, tol.second))
                c.fail("H01:stale-read:" + cn + ":" + pr.name, "read " + showDiff(pending[k].second, v) + " (second: an object with the same state history and no other readers)");
        }
        c.count("values-compared", pending.size());
        c.state(sim::fnvs(cn + "chk") ^ (history.empty() ? 0 : history.back()->iarg(0)));
        pending.clear();
    };
    for (auto& s : plan) {
        step++;
        if (s.op == "set") {
            flush();
            c.at(step, sim::strf("H01:%s:set%d", cn.c_str(), s.iarg(0)));
            string o = mutate(cs, A, ref, s);
            history.push_back(&s);
            outcomes.push_back(o);
            c.ev("set %d %d -> %s", s.iarg(0), s.iarg(1), o.c_str());
            if (!o.empty()) { c.fault("refused-operation"); if (o[0] == 'u') c.fail("H01:foreign-exception:" + cn, "operation threw a non-standard exception"); }
        } else if (s.op == "read") {
            flush();
            auto p = &props[s.iarg(0) % props.size()];
            long failAt = s.iarg(1);
            c.at(step, sim::strf("H01:%s:%s", cn.c_str(), p->p->name.c_str()));
            bool hit = false;
            auto o = attempt([&] {
                Vec v; v.reserve(4096);
                struct Arm { bool& h; Arm(bool& h_, long k) : h(h_) { if (k > 0) sim::alloc::arm(k, 1); if (k < 0) { g_cbFail = -k; g_cbFired = 0; } } ~Arm() { h = sim::alloc::fired() > 0; sim::alloc::disarm(); g_cbFail = 0; } } arm(hit, failAt);
                p->p->f(A.s, v);
            });
            if (failAt > 0 && hit) c.fault("alloc");
            if (failAt < 0 && g_cbFired) c.fault("user-function");
            if (!o.ok && o.kind == "unknown") c.fail("H01:foreign-exception:" + cn, "read threw a non-standard exception");
            nread++;
            c.state(sim::fnvs(cn) ^ (history.empty() ? 0 : history.back()->iarg(0) * 977 + (failAt > 0)));
        } else if (s.op == "check") {
            auto p = &props[s.iarg(0) % props.size()];
            c.at(step, sim::strf("H01:%s:%s", cn.c_str(), p->p->name.c_str()));
            pending.push_back({p, evalProp(*p->p, A.s)});
        }
    }
    flush();
    if (nread > 3 && history.size() > 1) c.nontrivial = true;
}
Plan gen(Rng& r, int tier) {
    Plan p;
    auto all = cases();
    int ci = r.below(all.size());
    p.push_back({"!case", {double(ci)}, ""});
    int n = r.range(6, tier ? 40 : 22);
    vector<int> kinds;
    for (int k = 0; k <= 23; k++) kinds.push_back(k);
    // swarm: only some of the operations are in use in any one run
    vector<int> use;
    for (int k : kinds) if (r.chance(0.4)) use.push_back(k);
    if (use.empty()) use.push_back(1);
    bool faults = r.chance(0.4);
    auto set = [&](int k) {
        p.push_back({"set", {double(k), double(r.chance(0.6) ? 0 : r.below(4)), r.uni(0.97, 1.06), r.uni(0.7, 1.5), double(r.below(1u << 30))}, ""});
    };
    set(0);
    for (int i = 0; i < n; i++) {
        double u = r.uni();
        if (u < 0.45) set(r.pick(use));
        else for (int k = r.range(1, 12); k > 0; k--) p.push_back({"read", {double(r.below(10000)), double(!faults || r.chance(0.6) ? 0 : all[ci].kind == 3 ? -r.range(1, 4) : r.range(1, 60))}, ""});
        if (r.chance(0.12)) for (int k = r.range(5, 40); k > 0; k--) p.push_back({"check", {double(r.below(10000))}, ""});
    }
    for (int k = 0; k < 60; k++) p.push_back({"check", {double(r.below(10000))}, ""});
    return p;
}
void warm() { quiet(); silence(); }
sim::Reg r1({"coherence", gen, exec, warm, 60});
}

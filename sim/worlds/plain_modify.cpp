// World "modify" (H02): clients change the content of a Solution (species, reactions, rate
// parameters, reference enthalpies, multipliers) while others read it or hold it.  At any moment
// it behaves like one built from its present content, and a refused change leaves no trace.
#include "props.h"
#include "jobs.h"
#include "cantera/base/YamlWriter.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/SpeciesThermoFactory.h"
#include "cantera/thermo/SpeciesThermoInterpType.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/ReactionRateFactory.h"
#include "cantera/kinetics/Arrhenius.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/zeroD/Reactor.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/oneD/DomainFactory.h"
#include "cantera/oneD/Domain1D.h"

using namespace simw;
using sim::Plan; using sim::Step; using sim::Rng; using sim::Ctx;

namespace {
struct PoolCase { const char* file; const char* phase; };
const PoolCase PC[] = {
    {"h2o2.yaml", "ohmech"}, {"pdep-test.yaml", ""}, {"kineticsfromscratch.yaml", "ohmech"}, {"tsang-falloff.yaml", ""},
    {"sri-falloff.yaml", ""}, {"chemically-activated-reaction.yaml", ""}, {"reaction-orders.yaml", ""}, {"blowers-masel.yaml", "gas"},
    {"linearBurke-test.yaml", "linear-Burke-complex"}, {"explicit-third-bodies.yaml", ""}, {"h2o2.yaml", "ohmech"}, {"h2o2.yaml", "ohmech"}};
const int NPC = sizeof PC / sizeof PC[0];
struct Pool { AnyMap phase; vector<AnyMap> sp, rx; };
string written(Solution& s) {
    YamlWriter w;
    AnyMap h; h["description"] = "x";
    w.setHeader(h);
    w.addPhase(s.shared_from_this());
    string y = w.toYamlString();
    // the time stamp and version header are not content
    string o;
    for (size_t i = 0; i < y.size();) {
        size_t e = y.find('\n', i); if (e == string::npos) e = y.size();
        string l = y.substr(i, e - i);
        if (l.compare(0, 5, "date:") && l.compare(0, 10, "generator:") && l.compare(0, 8, "cantera-") && l.compare(0, 10, "git-commit") && l.compare(0, 4, "desc")) o += l + "\n";
        i = e + 1;
    }
    return o;
}
const Pool& pool(int i) {
    static map<int, Pool> P;
    auto it = P.find(i);
    if (it != P.end()) return it->second;
    auto s = newSolution(dataPath(PC[i].file), PC[i].phase, "none");
    AnyMap root = AnyMap::fromYamlString(written(*s));
    Pool p;
    p.phase = root["phases"].asVector<AnyMap>()[0];
    p.sp = root["species"].asVector<AnyMap>();
    p.rx = root["reactions"].asVector<AnyMap>();
    for (auto& r : p.rx) r["duplicate"] = true;      // copies of a reaction may be added
    return P[i] = p;
}
// change the parameters of a rate; false if there is nothing known to change
bool scaleRate(AnyMap& n, double f) {
    bool done = false;
    auto scale = [&](AnyMap& m) { if (m.hasKey("A") && m["A"].isScalar()) { try { m["A"] = m["A"].asDouble() * f; done = true; } catch (CanteraError&) {} } };
    for (auto k : {"rate-constant", "low-P-rate-constant", "high-P-rate-constant"})
        if (n.hasKey(k) && n[k].is<AnyMap>()) scale(n[k].as<AnyMap>());
    if (n.hasKey("rate-constants") && n["rate-constants"].is<vector<AnyMap>>())
        for (auto& m : n["rate-constants"].asVector<AnyMap>()) scale(m);
    if (n.getString("type", "") == "Chebyshev" && n.hasKey("data") && n["data"].is<vector<vector<double>>>()) {
        n["data"].asVector<vector<double>>()[0][0] += std::log10(f); done = true;
    }
    if (n.hasKey("sticking-coefficient") && n["sticking-coefficient"].is<AnyMap>()) {
        auto& m = n["sticking-coefficient"].as<AnyMap>();
        if (m.hasKey("A") && m["A"].isScalar()) { m["A"] = m["A"].asDouble() * std::min(f, 1.0); done = true; }
    }
    return done;
}
// shift enthalpy and entropy of a polynomial; false if the model is not known here
bool shiftThermo(AnyMap& t, double dh, double ds) {
    string m = t.getString("model", "");
    if (!t.hasKey("data") || !t["data"].is<vector<vector<double>>>()) return false;
    for (auto& d : t["data"].asVector<vector<double>>()) {
        if (m == "NASA7" && d.size() == 7) { d[5] += 1000 * dh; d[6] += ds; }
        else if (m == "NASA9" && d.size() == 9) { d[7] += 1000 * dh; d[8] += ds; }
        else if (m == "Shomate" && d.size() == 7) { d[5] += 10 * dh; d[6] += 10 * ds; }
        else return false;
    }
    return true;
}
AnyMap plainMap(AnyMap m) {           // parameters as they would be read from a file
    AnyMap top;
    top["x"] = m;
    top.setUnits(UnitSystem());
    AnyMap r = AnyMap::fromYamlString(top.toYamlString());
    return r["x"].as<AnyMap>();
}
shared_ptr<Species> copyOf(const Species& q) {
    auto s = std::make_shared<Species>(q.name, q.composition, q.charge, q.size);
    s->transport = q.transport; s->thermo = q.thermo; s->input = q.input;
    return s;
}
struct Rx { AnyMap node; double mult = 1; };
// What the Solution consists of at the moment.
struct Content {
    int kind = 0, idx = 0;               // 0: pool, 1: catalogue phase, 2: surface mechanism, 3: mechanism file
    vector<AnyMap> sp;                   // pool: all species
    vector<Rx> rx;                       // pool: all reactions; files: added reactions
    map<int, AnyMap> changed;            // files: reactions whose rate was replaced
    map<int, double> mult;               // files
    map<string, AnyMap> thermo;          // files: species whose thermo was replaced
    map<int, double> hf;
    bool skipSp = false, skipTb = false;
};
shared_ptr<Solution> build(const Content& c) {
    shared_ptr<Solution> s;
    if (c.kind == 0) {
        auto& p = pool(c.idx);
        AnyMap root, ph = p.phase;
        ph["name"] = "work";
        ph["species"] = "all";
        ph["reactions"] = "none";
        for (auto k : {"state", "skip-undeclared-third-bodies", "explicit-third-body-duplicates"}) ph.erase(k);
        root["species"] = c.sp;
        root["reactions"] = vector<AnyMap>{};
        s = newSolution(ph, root, "none");
    } else if (c.kind == 1) {
        auto& p = catalog()[c.idx];
        s = newSolution(dataPath(p.file), p.phase, "none");
    } else if (c.kind == 3) {
        auto& m = mechs()[c.idx];
        s = newSolution(dataPath(m.file), m.phase, "none");
    } else s = newInterface(dataPath(surfs()[c.idx].file), surfs()[c.idx].phase);
    auto th = s->thermo();
    auto kin = s->kinetics();
    for (auto& [n, t] : c.thermo) {
        size_t k = th->speciesIndex(n);
        auto sp = copyOf(*th->species(k));
        sp->thermo = newSpeciesThermo(t);
        th->modifySpecies(k, sp);
    }
    for (auto& [i, n] : c.changed) kin->modifyReaction(i, newReaction(n, *kin));
    size_t n0 = kin ? kin->nReactions() : 0;
    kin->skipUndeclaredThirdBodies(c.skipTb);
    for (auto& r : c.rx) kin->addReaction(newReaction(r.node, *kin), false);
    kin->resizeReactions();
    for (size_t i = 0; i < c.rx.size(); i++) if (c.rx[i].mult != 1) kin->setMultiplier(n0 + i, c.rx[i].mult);
    for (auto& [i, m] : c.mult) kin->setMultiplier(i, m);
    for (auto& [k, h] : c.hf) th->modifyOneHf298SS(k, h);
    return s;
}
// Things other than numbers a client can ask for
string facts(Sys& s) {
    string o;
    auto& th = *s.th;
    auto add = [&](const string& k, std::function<string()> f) {
        string v;
        auto r = attempt([&] { v = f(); });
        o += k + "=" + (r.ok ? v : "<" + r.kind + ">") + "\n";
    };
    for (size_t m = 0; m < th.nElements(); m++) o += th.elementName(m) + " ";
    o += "\n";
    for (size_t k = 0; k < th.nSpecies(); k++) {
        o += th.speciesName(k) + sim::strf(" %zu %.15g %.15g", th.speciesIndex(th.speciesName(k)), th.molecularWeight(k), th.charge(k));
        for (size_t m = 0; m < th.nElements(); m++) o += sim::strf(" %g", th.nAtoms(k, m));
        o += "\n";
        add("min", [&] { return g17(th.minTemp(k)) + g17(th.maxTemp(k)); });
        add("hf", [&] { return sim::strf("%.9g", th.Hf298SS(k)); });
        add("sp", [&] { return th.species(th.speciesName(k))->parameters(&th).toYamlString(); });
    }
    if (s.kin) {
        auto& kin = *s.kin;
        o += sim::strf("%zu reactions, %zu species, %zu phases\n", kin.nReactions(), kin.nTotalSpecies(), kin.nPhases());
        for (size_t i = 0; i < kin.nReactions(); i++) {
            add("rx", [&] { return kin.reaction(i)->equation() + " " + kin.reaction(i)->type() + " " + kin.reaction(i)->rate()->type() + " " + kin.reaction(i)->rate()->subType(); });
            add("par", [&] { return kin.reaction(i)->parameters().toYamlString(); });
            add("rev", [&] { return sim::strf("%d %.15g", (int)kin.isReversible(i), kin.multiplier(i)); });
            for (size_t k = 0; k < kin.nTotalSpecies(); k++) {
                double a = kin.reactantStoichCoeff(k, i), b = kin.productStoichCoeff(k, i);
                if (a || b) o += sim::strf("%zu:%g,%g ", k, a, b);
            }
        }
        add("names", [&] { string v; for (size_t k = 0; k < kin.nTotalSpecies(); k++) v += kin.kineticsSpeciesName(k) + " "; return v; });
    }
    return o;
}
string firstDiff(const string& a, const string& b) {
    std::istringstream x(a), y(b);
    string l, m;
    while (true) {
        bool p = bool(std::getline(x, l)), q = bool(std::getline(y, m));
        if (!p && !q) return "";
        if (!p) l = "(end)";
        if (!q) m = "(end)";
        // numbers may differ by rounding
        std::istringstream p1(l), p2(m);
        string u, v;
        bool same = true;
        while (same) {
            bool a1 = bool(p1 >> u), a2 = bool(p2 >> v);
            if (!a1 && !a2) break;
            if (a1 != a2) { same = false; break; }
            if (u == v) continue;
            char *e1, *e2;
            double d1 = strtod(u.c_str(), &e1), d2 = strtod(v.c_str(), &e2);
            if (e1 == u.c_str() || e2 == v.c_str() || strcmp(e1, e2) || !close(d1, d2, 1e-9, 1e-12)) same = false;
        }
        if (!same) return "'" + ecut(l, 120) + "' instead of '" + ecut(m, 120) + "'";
    }
}
std::pair<double, double> tol(const string& n) {
    if (n.find("_dd") != string::npos || n.find("getdlnAct") == 0) return {1e-2, 1e-3};
    return {1e-7, 1e-9};
}
// sparse matrices as (row, column, value) triples: which zeros are stored does not matter
bool sameMatrix(const Value& a, const Value& b, double rtol, double vtol) {
    if (a.err != b.err) return false;
    map<std::pair<double, double>, double> ma, mb;
    double m = 0;
    for (size_t i = 0; i + 2 < a.v.size(); i += 3) ma[{a.v[i], a.v[i + 1]}] = a.v[i + 2];
    for (size_t i = 0; i + 2 < b.v.size(); i += 3) { mb[{b.v[i], b.v[i + 1]}] = b.v[i + 2]; if (std::isfinite(b.v[i + 2])) m = std::max(m, std::abs(b.v[i + 2])); }
    for (auto& [k, x] : ma) mb.emplace(k, 0);
    for (auto& [k, x] : mb) { auto it = ma.find(k); if (!close(it == ma.end() ? 0.0 : it->second, x, rtol, vtol * m + 1e-200)) return false; }
    return true;
}
bool agreeNamed(const string& n, const Value& a, const Value& b, double rtol, double vtol, const vector<std::pair<string, Value>>& all) {
    // net rates are differences: their accuracy is that of what is subtracted
    string gross = n == "getNetRatesOfProgress" ? "getFwdRatesOfProgress" : n == "getNetProductionRates" ? "getCreationRates" : "";
    if (!gross.empty()) {
        if (a.err != b.err || a.v.size() != b.v.size()) return false;
        double m = 0;
        for (auto& [k, v] : all) if (k == gross) for (double x : v.v) if (std::isfinite(x)) m = std::max(m, std::abs(x));
        for (size_t i = 0; i < a.v.size(); i++) if (!close(a.v[i], b.v[i], rtol, vtol * m + 1e-200)) return false;
        return true;
    }
    if (n.find("_ddX") != string::npos || n.find("_ddCi") != string::npos) return sameMatrix(a, b, rtol, vtol);
    return agree(a, b, rtol, vtol);
}
struct World {
    Content c;
    Sys A;
    vector<std::function<void(Sys&)>> set;  // how the state was set
    Vec extra;                      // pool phases: the state itself (species may be added)
    vector<std::shared_ptr<void>> holders;
    explicit World(const Content& c_) : c(c_), A(build(c_)) { A.th->saveState(extra); }
    void put(Sys& s) { if (c.kind == 0) s.th->restoreState(extra); else for (auto& f : set) f(s); }
};
// is the reaction usable with these species?
bool usable(const AnyMap& n, const Kinetics& kin) {
    try {
        auto r = newReaction(n, kin);
        for (auto& [s, v] : r->reactants) if (kin.kineticsSpeciesIndex(s) == npos) return false;
        for (auto& [s, v] : r->products) if (kin.kineticsSpeciesIndex(s) == npos) return false;
        for (auto& [s, v] : r->orders) if (kin.kineticsSpeciesIndex(s) == npos) return false;
        if (r->thirdBody()) for (auto& [s, v] : r->thirdBody()->efficiencies) if (kin.kineticsSpeciesIndex(s) == npos) return false;
        // colliders that are not known when the reaction is added are left out for good
        if (n.hasKey("colliders"))
            for (auto& c : n["colliders"].asVector<AnyMap>()) {
                string q = c["name"].asString();
                if (q != "M" && kin.kineticsSpeciesIndex(q) == npos) return false;
            }
        return true;
    } catch (CanteraError&) { return false; }
}
string caseName(const Content& c) {
    if (c.kind == 0) return string("pool:") + PC[c.idx].file;
    if (c.kind == 1) return catalog()[c.idx].label;
    if (c.kind == 3) return mechs()[c.idx].file;
    return string(surfs()[c.idx].file) + "/" + surfs()[c.idx].phase;
}
void exec(const Plan& plan, Ctx& ctx) {
    sim::fs::reset();
    auto head = sim::findStep(plan, "!case");
    Content c0;
    c0.kind = head->iarg(0);
    c0.idx = head->iarg(1);
    Rng hr((uint64_t)head->arg(2));
    if (c0.kind == 0) {
        c0.idx %= NPC;
        auto& p = pool(c0.idx);
        for (auto& s : p.sp) if (hr.chance(0.7)) c0.sp.push_back(s);
        if (c0.sp.empty()) c0.sp = p.sp;
        c0.skipTb = hr.chance(0.3);
    } else c0.idx %= c0.kind == 1 ? catalog().size() : c0.kind == 2 ? surfs().size() : mechs().size();
    string cn = caseName(c0);
    ctx.at(0, "H02:" + cn);
    if (c0.kind == 0) {
        auto s = build(c0);
        for (auto& r : pool(c0.idx).rx) if (hr.chance(0.6) && usable(r, *s->kinetics())) c0.rx.push_back({r, 1});
    }
    World w(c0);
    auto& C = w.c;
    auto& th = *w.A.th;
    auto kin = w.A.kin;
    size_t nBase = C.kind ? kin->nReactions() : 0;
    int step = 0, changes = 0;
    auto refused = [&](const Outcome& o, const string& what) {
        if (o.ok) ctx.fail("H02:accepted:" + what, "an invalid change was accepted: " + what + " in " + cn);
        if (o.kind == "unknown") ctx.fail("H02:foreign-exception:" + what, "not a standard exception");
        ctx.fault("refused-change");
        ctx.ev("refused %s: %s", what.c_str(), ecut(o.msg, 60).c_str());
    };
    auto accepted = [&](const Outcome& o, const string& what) {
        if (!o.ok) ctx.fail("H02:refused:" + what, "a valid change was refused: " + what + " in " + cn + ": " + ecut(o.msg, 200));
        changes++;
        ctx.ev("done %s", what.c_str());
    };
    auto check = [&](const string& after) {
        Sys B(build(C));
        auto o = attempt([&] { w.put(B); });
        if (!o.ok) return;
        string fa = facts(w.A), fb = facts(B);
        if (fa != fb && !firstDiff(fa, fb).empty()) ctx.fail("H02:content:" + after, cn + " after " + after + ": " + firstDiff(fa, fb));
        vector<std::pair<string, Value>> va, vb;
        // rates that depend on a third-body concentration which is a difference of equal numbers are noise
        bool noise = false;
        for (Sys* q : {&w.A, &B}) if (q->kin && q->kin->nReactions() && C.kind == 0) {
            Vec m(q->kin->nReactions());
            if (attempt([&] { q->kin->getThirdBodyConcentrations(m.data()); }).ok)
                for (double x : m) if (x && std::abs(x) < 1e-10 * q->th->molarDensity()) noise = true;
        }
        evalAll(w.A, va, true, !noise); evalAll(B, vb, true, !noise);
        for (size_t i = 0; i < va.size() && i < vb.size(); i++) {
            ctx.evbits(vb[i].first.c_str(), vb[i].second.v.data(), vb[i].second.v.size());
            auto t = tol(va[i].first);
            if (getenv("SIM_DESCRIBE") && !agreeNamed(va[i].first, va[i].second, vb[i].second, t.first, t.second, vb)) fprintf(stderr, "%s %s\n", va[i].first.c_str(), showDiff(va[i].second, vb[i].second).c_str());
            if (!agreeNamed(va[i].first, va[i].second, vb[i].second, t.first, t.second, vb))
                ctx.fail("H02:value:" + after + ":" + va[i].first, cn + " after " + after + ": " + va[i].first + " is " + showDiff(va[i].second, vb[i].second) + " (second: built from its content)");
        }
        ctx.count("values-compared", va.size());
        if (va.size() != vb.size()) ctx.fail("H02:content:" + after, cn + ": number of quantities differs");
    };
    auto roundTrip = [&](const string& after) {
        if (C.kind) return;
        string ya = written(*w.A.sol), yb;
        { Sys B(build(C)); w.put(B); yb = written(*B.sol); }
        if (ya != yb && !firstDiff(ya, yb).empty()) ctx.fail("H02:written:" + after, cn + " after " + after + ": written file has " + firstDiff(ya, yb));
        AnyMap root = AnyMap::fromYamlString(ya);
        auto ph = root["phases"].asVector<AnyMap>()[0];
        shared_ptr<Solution> R;
        auto o = attempt([&] { R = newSolution(ph, root, "none"); });
        if (!o.ok) {
            if (o.msg.find("uplicate") != string::npos) return;     // partners of marked reactions may be missing
            ctx.fail("H02:unreadable:" + after, cn + " after " + after + ": written file cannot be read: " + ecut(o.msg, 250));
        }
        Sys B(R);
        w.put(B);
        for (size_t i = 0; i < C.rx.size(); i++) B.kin->setMultiplier(i, C.rx[i].mult);
        vector<std::pair<string, Value>> va, vb;
        evalAll(w.A, va); evalAll(B, vb);
        for (size_t i = 0; i < va.size() && i < vb.size(); i++) {
            auto t = tol(va[i].first);
            if (!agreeNamed(va[i].first, va[i].second, vb[i].second, std::max(t.first, 1e-6), std::max(t.second, 1e-7), vb))
                ctx.fail("H02:reloaded:" + after + ":" + va[i].first, cn + " after " + after + ": " + va[i].first + " is " + showDiff(va[i].second, vb[i].second) + " (second: written and read again)");
        }
        ctx.count("round-trips");
    };
    // the kinetics learn about new species when told so
    auto tellKinetics = [&] { kin->resizeSpecies(); kin->resizeReactions(); };
    auto reac = [&](size_t i) { return C.kind ? i : i; };
    (void)reac;
    string last = "build";
    for (auto& s : plan) {
        step++;
        if (s.op[0] == '!') continue;
        ctx.at(step, "H02:" + cn + ":" + s.op);
        Rng r((uint64_t)s.arg(0));
        size_t n = th.nSpecies(), nr = kin->nReactions();
        if (s.op == "addsp" && C.kind == 0) {
            auto& p = pool(C.idx);
            vector<const AnyMap*> cand;
            for (auto& q : p.sp) if (th.speciesIndex(q.getString("name", "")) == npos) cand.push_back(&q);
            if (cand.empty()) continue;
            auto node = *cand[r.below(cand.size())];
            shared_ptr<Species> sp = newSpecies(node);
            bool in = true;
            auto o = attempt([&] { in = th.addSpecies(sp); });
            if (o.ok && !in) { last = "ignored species"; continue; }
            if (!w.holders.empty()) { refused(o, "add-species-to-held-phase"); last = "refused add-species"; }
            else {
                accepted(o, "add-species");
                th.initThermo();
                tellKinetics();
                C.sp.push_back(node);
                w.extra.push_back(0.0);
                last = "add-species";
            }
        } else if (s.op == "badsp" && C.kind == 0) {
            auto node = r.pick(pool(C.idx).sp);
            shared_ptr<Species> sp = newSpecies(node);
            int k = r.below(5);
            string what;
            if (k == 0) { sp = newSpecies(C.sp[r.below(C.sp.size())]); what = "duplicate-species"; }
            else if (k == 1) { sp->name = "fresh"; sp->thermo = nullptr; what = "species-without-thermo"; }
            else if (k == 2) { sp->name = "fresh"; sp->composition["Uuo"] = 1; what = "species-of-unknown-element"; }
            else if (k == 3) { sp->name = "fresh"; sp->charge = 1; sp->composition["E"] = 3; what = "species-of-contradictory-charge"; }
            else { sp->name = "fresh"; sp->composition["Kr"] = 1; sp->composition["H"] = 1; what = "species-of-undeclared-element"; }
            if (k >= 2 && !pool(C.idx).phase.hasKey("elements")) continue;
            if (k == 4 && th.elementIndex("Kr") != npos) continue;
            bool in = true;
            auto o = attempt([&] { in = th.addSpecies(sp); });
            if (o.ok && !in && k >= 2) { last = "ignored species"; continue; }
            refused(o, what);
            last = "refused " + what;
        } else if (s.op == "addrx") {
            AnyMap node;
            if (C.kind == 0) node = r.pick(pool(C.idx).rx);
            else { if (!nr) continue; node = plainMap(kin->reaction(r.below(nr))->parameters()); node["duplicate"] = true; if (!scaleRate(node, r.logu(0.1, 10))) continue; }
            if (!usable(node, *kin)) continue;
            shared_ptr<Reaction> R = newReaction(node, *kin);
            bool batch = r.chance(0.3);
            accepted(attempt([&] { kin->addReaction(R, !batch); if (batch) kin->resizeReactions(); }), "add-reaction");
            C.rx.push_back({node, 1});
            last = "add-reaction";
        } else if (s.op == "badrx") {
            if (!nr) continue;
            AnyMap node = plainMap(kin->reaction(r.below(nr))->parameters());
            node["duplicate"] = true;
            shared_ptr<Reaction> R = newReaction(node, *kin);
            int k = r.below(7);
            string what;
            if (k == 0) { R->products["Nonexistent"] = 1; what = "reaction-of-unknown-species"; }
            else if (k == 1) { R->products.begin()->second += 1; what = "unbalanced-reaction"; }
            else if (k == 2) {
                if (!R->thirdBody() || R->thirdBody()->mass_action == false || C.kind || C.skipTb) continue;
                R->thirdBody()->efficiencies["Nonexistent"] = 2; what = "third-body-of-unknown-species";
            } else if (k == 3) continue;
            else if (k == 4) { R->orders["Nonexistent"] = 1; what = "order-of-unknown-species"; }
            else if (k == 5) {

                auto rate = newReactionRate(AnyMap::fromYamlString(C.kind == 2 ? "{type: elementary, rate-constant: {A: -1.0, b: 0, Ea: 0}}" : "{type: electron-collision-plasma, energy-levels: [0, 1], cross-sections: [0, 1]}"));
                if (cn.find("plasma") != string::npos) continue;
                if (C.kind == 2) continue;
                R->setRate(rate); what = "rate-of-another-kind-of-phase";
            } else {
                AnyMap q = node;
                if (!scaleRate(q, -1) || q.hasKey("low-P-rate-constant") || q.hasKey("rate-constants") || q.getString("type", "") == "Chebyshev" || q.hasKey("sticking-coefficient") || q.getBool("negative-A", false)) continue;
                if (q.getString("type", "").find("Burke") != string::npos) continue;
                what = "negative-rate";
                refused(attempt([&] { shared_ptr<Reaction> N = newReaction(q, *kin); kin->addReaction(N); }), what);
                last = "refused " + what;
                continue;
            }
            bool added = true;
            auto o = attempt([&] { added = kin->addReaction(R); });
            if (added) refused(o, what);
            last = "refused " + what;
        } else if (s.op == "modrx") {
            if (!nr) continue;
            size_t i = r.below(nr);
            AnyMap node = C.kind == 0 ? C.rx[i].node : i >= nBase ? C.rx[i - nBase].node : plainMap(kin->reaction(i)->parameters());
            if (!scaleRate(node, r.logu(0.1, 10))) continue;
            if (r.chance(0.2)) {
                // parameters of the reaction object itself: nothing changes until the reaction is replaced
                if (auto a = std::dynamic_pointer_cast<ArrheniusRate>(kin->reaction(i)->rate()); a && C.kind != 2) {
                    auto R = kin->reaction(i);
                    shared_ptr<Reaction> q = newReaction(node, *kin);
                    accepted(attempt([&] { kin->modifyReaction(i, q); }), "replace-rate");
                }
            }
            shared_ptr<Reaction> R = newReaction(node, *kin);
            accepted(attempt([&] { kin->modifyReaction(i, R); }), "replace-rate");
            if (C.kind == 0) C.rx[i].node = node;
            else if (i >= nBase) C.rx[i - nBase].node = node;
            else C.changed[i] = node;
            last = "replace-rate";
        } else if (s.op == "badmodrx") {
            if (!nr) continue;
            size_t i = r.below(nr);
            AnyMap node = plainMap(kin->reaction(i)->parameters());
            scaleRate(node, 3);
            shared_ptr<Reaction> R = newReaction(node, *kin);
            string what;
            int k = r.below(5);
            if (k == 0) { R->reactants.begin()->second += 1; what = "replace-with-other-reactants"; }
            else if (k == 1) { R->products.begin()->second += 1; what = "replace-with-other-products"; }
            else if (k == 2) {
                size_t j = r.below(nr);
                if (kin->reaction(j)->rate()->type() == R->rate()->type()) continue;
                R = newReaction(plainMap(kin->reaction(j)->parameters()), *kin);
                R->reactants = kin->reaction(i)->reactants; R->products = kin->reaction(i)->products;
                what = "replace-with-other-rate-type";
            } else if (k == 3) { refused(attempt([&] { kin->modifyReaction(nr + r.below(3), R); }), "replace-beyond-last"); last = "refused replace-beyond-last"; continue; }
            else {
                // same family of rates, another parameterisation of the fall-off function
                if (R->rate()->type() != "falloff") continue;
                string sub = R->rate()->subType();
                for (auto key : {"Troe", "SRI", "Tsang"}) node.erase(key);
                if (sub != "Troe") node["Troe"] = AnyMap::fromYamlString("{A: 0.5, T3: 100.0, T1: 2000.0}");
                R = newReaction(node, *kin);
                what = "replace-with-other-falloff";
                auto o = attempt([&] { kin->modifyReaction(i, R); });
                if (o.ok) {
                    // an evaluator of that kind existed: then the new rate has to count
                    changes++;
                    if (C.kind == 0) C.rx[i].node = node;
                    else if (i >= nBase) C.rx[i - nBase].node = node;
                    else { C.changed[i] = node; }
                    last = what;
                } else { refused(o, what); last = "refused " + what; }
                continue;
            }
            refused(attempt([&] { kin->modifyReaction(i, R); }), what);
            last = "refused " + what;
        } else if (s.op == "modsp" || s.op == "badmodsp") {
            size_t k = r.below(n);
            auto old = th.species(th.speciesName(k));
            if (!old->thermo) continue;
            double dh = r.uni(-1, 1), ds = r.uni(-0.5, 0.5);
            auto sp = copyOf(*old);
            AnyMap t = plainMap(old->thermo->parameters());
            if (s.op == "modsp") {
                if (C.hf.count(k)) continue;
                if (!shiftThermo(t, dh, ds)) continue;
                sp->thermo = newSpeciesThermo(t);
                if (sp->thermo->reportType() != old->thermo->reportType()) continue;
                // some models install an empty parameterisation of their own
                if (th.speciesThermo().reportType(k) != sp->thermo->reportType()) continue;
                // models which keep data of their own at construction
                accepted(attempt([&] { th.modifySpecies(k, sp); }), "replace-species");
                kin->invalidateCache();
                if (C.kind == 0) { C.sp[k]["thermo"] = t; }
                else C.thermo[th.speciesName(k)] = t;
                last = "replace-species";
            } else {
                string what;
                int b = r.below(4);
                if (!t.hasKey("model")) continue;
                shiftThermo(t, dh, ds);
                sp->thermo = newSpeciesThermo(t);
                if (b == 0) { sp->name = "another"; what = "replace-with-other-name"; }
                else if (b == 1) { sp->composition["H"] += 1; what = "replace-with-other-composition"; }
                else if (b == 2) { sp->thermo = nullptr; what = "replace-without-thermo"; }
                else {
                    if (old->thermo->parameters().getString("model", "") == "constant-cp") continue;
                    sp->thermo = newSpeciesThermo(AnyMap::fromYamlString("{model: constant-cp, h0: 1000, s0: 10, cp0: 20}"));
                    what = "replace-with-other-thermo-model";
                }
                refused(attempt([&] { th.modifySpecies(k, sp); }), what);
                last = "refused " + what;
            }
        } else if (s.op == "hf") {
            size_t k = r.below(n);
            double h0 = 0;
            auto o = attempt([&] { h0 = th.Hf298SS(k); });
            if (!o.ok) continue;
            double h = h0 + r.uni(-1e7, 1e7);
            o = attempt([&] { th.modifyOneHf298SS(k, h); });
            if (o.ok) {
                kin->invalidateCache();
                double g = th.Hf298SS(k);
                if (!close(g, h, 1e-9, 1)) ctx.fail("H02:hf:" + cn, sim::strf("reference enthalpy set to %.12g reads %.12g", h, g));
                C.hf[k] = h; changes++;
            } else ctx.fault("refused-change");
            last = "set-reference-enthalpy";
        } else if (s.op == "hfreset") {
            bool all = r.chance(0.4);
            size_t k = all ? npos : r.below(n);
            auto o = attempt([&] { th.resetHf298(k); });
            if (o.ok) {
                kin->invalidateCache();
                if (all) C.hf.clear(); else C.hf.erase(k);
                changes++;
                last = "reset-reference-enthalpy";
            } else if (all) {
                // phases with species that cannot be reset: which ones came first is not promised
                for (auto& [q, h] : C.hf) attempt([&] { th.modifyOneHf298SS(q, h); });
                kin->invalidateCache();
            }
        } else if (s.op == "mult") {
            if (!nr) continue;
            size_t i = r.below(nr);
            double m = r.chance(0.2) ? 0 : r.logu(0.1, 10);
            kin->setMultiplier(i, m);
            if (C.kind == 0) C.rx[i].mult = m;
            else if (i >= nBase) C.rx[i - nBase].mult = m;
            else C.mult[i] = m;
            changes++;
            last = "set-multiplier";
        } else if (s.op == "badmult") {
            refused(attempt([&] { kin->reaction(nr + r.below(3)); }), "reaction-beyond-last");
        } else if (s.op == "state") {
            double T = r.uni(400, 2000), P = OneAtm * r.logu(0.2, 5), f = r.uni(0.95, 1.3);
            Vec x = randComp(r, n);
            size_t which = r.below(1000);
            auto set = [=, kind = C.kind, idx = C.idx](Sys& q) {
                if (kind == 0 || kind == 3) q.th->setState_TPX(T, P, x.data());
                else if (kind == 1) { AnyMap m = AnyMap::fromYamlString(catalog()[idx].states[which % catalog()[idx].states.size()]); q.th->setState(m); }
                else for (size_t i = 0; i < q.kin->nPhases(); i++) { auto& p = q.kin->thermo(i); p.setState_TP(f * 700, OneAtm); }
            };
            auto o = attempt([&] { set(w.A); });
            if (o.ok) { w.set.push_back(set); if (C.kind == 0) th.saveState(w.extra); }
            else { w.set.push_back([&](Sys& q) { attempt([&] { q.th->setState_TP(500, OneAtm); }); }); if (!attempt([&] { w.put(w.A); }).ok) return; }
        } else if (s.op == "read") {
            auto props = &thermoProps();
            for (int q = r.range(1, 10); q > 0; q--) {
                props = r.chance(0.5) && nr ? &kinProps() : &thermoProps();
                auto& p = r.pick(*props);
                evalProp(p, w.A);
            }
        } else if (s.op == "hold") {
            int k = s.iarg(1);
            long fail = s.iarg(2);
            std::shared_ptr<void> h;
            sim::alloc::arm(fail > 0 ? fail : 1000000000, 1);
            auto o = attempt([&] {
                switch (k) {
                case 0: h = SolutionArray::create(w.A.sol, r.below(4)); break;
                case 1: h = newReactor("Reservoir", w.A.sol); break;
                case 2: h = newReactor(r.chance(0.5) ? "IdealGasReactor" : "IdealGasConstPressureMoleReactor", w.A.sol); break;
                case 3: { auto m = std::make_shared<MultiPhase>(); m->addPhase(w.A.th, 1.0); m->init(); h = m; break; }
                case 4: h = newDomain("inlet", w.A.sol); break;
                case 5: h = newReactor("NoSuchReactor", w.A.sol); break;
                case 6: h = newDomain("no-such-domain", w.A.sol); break;
                case 7: { auto a = SolutionArray::create(w.A.sol, 3); h = a->share({0, 2}); break; }
                case 8: h = newDomain("free-flow", w.A.sol); break;      // needs a transport model
                }
            });
            bool hit = sim::alloc::fired() > 0;
            sim::alloc::disarm();
            if (hit) ctx.fault("alloc");
            if (!o.ok) { h.reset(); ctx.fault("failed-construction"); }
            if (h) w.holders.push_back(h);
            if (k <= 4 || k == 7) w.put(w.A);
            last = o.ok ? sim::strf("hold%d", k) : sim::strf("failed-hold%d", k);
        } else if (s.op == "drop") {
            if (!w.holders.empty()) w.holders.erase(w.holders.begin() + r.below(w.holders.size()));
        } else if (s.op == "dropall") {
            w.holders.clear();
        } else if (s.op == "other") {
            // another Solution made from the same species and reaction objects, which goes its own way
            if (C.kind) continue;
            auto t2 = newThermoModel("ideal-gas");
            t2->addUndefinedElements();
            for (size_t k = n; k-- > 0;) t2->addSpecies(th.species(th.speciesName(k)));
            t2->initThermo();
            auto S2 = newSolution(pool(C.idx).phase.getString("name", "").empty() ? dataPath("h2o2.yaml") : dataPath("h2o2.yaml"), "ohmech", "none");
            auto k2 = newKinetics("bulk");
            k2->addThermo(t2);
            k2->init();
            k2->skipUndeclaredThirdBodies(true);
            attempt([&] {
                for (size_t i = nr; i-- > 0;) k2->addReaction(kin->reaction(i));
                Vec x = randComp(r, n);
                t2->setState_TPX(r.uni(500, 1500), OneAtm, x.data());
                Vec q(nr);
                if (nr) k2->getNetRatesOfProgress(q.data());
                for (size_t i = 0; i < nr; i++) k2->setMultiplier(i, 0.5);
                for (int m = 3; m > 0 && nr; m--) {
                    size_t i = r.below(nr);
                    AnyMap node = plainMap(k2->reaction(i)->parameters());
                    if (scaleRate(node, 7)) k2->modifyReaction(i, newReaction(node, *k2));
                }
                if (nr) k2->getNetRatesOfProgress(q.data());
            });
            last = "other-solution-of-same-objects";
        } else if (s.op == "check") {
            check(last);
            if (r.chance(0.3)) roundTrip(last);
            ctx.state(sim::fnvs(cn + last));
        }
    }
    check(last);
    roundTrip(last);
    if (changes > 1) ctx.nontrivial = true;
}
Plan gen(Rng& r, int tier) {
    Plan p;
    int kind = r.chance(0.6) ? 0 : r.range(1, 3);
    p.push_back({"!case", {double(kind), double(r.below(1000)), double(r.below(1u << 30))}, ""});
    vector<string> ops = kind == 0 ? vector<string>{"addsp", "addsp", "badsp", "addrx", "badrx", "modrx", "badmodrx", "modsp", "badmodsp", "hf", "hfreset", "mult", "state", "other", "hold", "drop"}
                                   : vector<string>{"addrx", "badrx", "modrx", "badmodrx", "modsp", "badmodsp", "hf", "hfreset", "mult", "state"};
    vector<string> use;
    for (auto& o : ops) if (r.chance(0.5)) use.push_back(o);
    if (use.empty()) use = ops;
    int n = r.range(4, tier ? 40 : 20);
    p.push_back({"state", {double(r.below(1u << 30))}, ""});
    for (int i = 0; i < n; i++) {
        if (r.chance(0.45)) p.push_back({"read", {double(r.below(1u << 30))}, ""});
        string o = r.pick(use);
        Step s{o, {double(r.below(1u << 30))}, ""};
        if (o == "hold") { s.a.push_back(r.below(9)); s.a.push_back(r.chance(0.4) ? r.range(1, 60) : 0); }
        p.push_back(s);
        if (o == "hold" && r.chance(0.5)) { p.push_back({"addsp", {double(r.below(1u << 30))}, ""}); if (r.chance(0.5)) { p.push_back({"dropall", {0}, ""}); p.push_back({"addsp", {double(r.below(1u << 30))}, ""}); } }
        if (r.chance(0.2)) p.push_back({"check", {double(r.below(1u << 30))}, ""});
    }
    return p;
}
void warm() { quiet(); silence(); for (int i = 0; i < NPC; i++) pool(i); }
sim::Reg r1({"modify", gen, exec, warm, 60});
}

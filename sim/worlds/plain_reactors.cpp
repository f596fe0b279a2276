// Reactor networks under faults and client interference.
//   "netfault"   R01: failing user functions, allocations and limits during integration; containment and restart
//   "netbalance" R02: conservation of elements, energy and volume over histories of advances, faults, restarts
//   "netclient"  R03: results do not depend on outputs taken, reads, shared contents or other networks
#include "jobs.h"
#include "child.h"
#include "cantera/zeroD/ReactorNet.h"
#include "cantera/kinetics/Custom.h"
#include "cantera/numerics/SystemJacobianFactory.h"

namespace {
using namespace simw;
using sim::Plan; using sim::Step; using sim::Rng; using sim::Ctx;

struct Hook {
    long left = -1, burst = 0, fired = 0; int kind = 0; bool on = false;
    void arm(long n, long b, int k) { left = n; burst = b; kind = k; on = true; fired = 0; }
    void off() { on = false; }
    double call(double v, bool mayNaN = true) {
        if (!on) return v;
        if (--left > 0) return v;
        if (left <= -burst) { on = false; return v; }
        fired++;
        switch (kind) {
            case 0: throw CanteraError("user", "injected-user-fault");
            case 1: throw std::runtime_error("injected-user-fault");
            case 2: throw 42;
            default: if (!mayNaN) throw CanteraError("user", "injected-user-fault"); return std::nan("");
        }
    }
};
// piecewise polynomial user function with known integral: a + b t + c t^2
struct UserFunc : Func1 {
    double a, b, c; Hook* h;
    UserFunc(double a_, double b_, double c_, Hook* h_) : a(a_), b(b_), c(c_), h(h_) {}
    string type() const override { return "user"; }
    double eval(double t) const override { return h->call(a + b * t + c * t * t); }
    double integral(double t0, double t1) const { return a * (t1 - t0) + b / 2 * (t1 * t1 - t0 * t0) + c / 3 * (t1 * t1 * t1 - t0 * t0 * t0); }
};
struct PressFunc : Func1 {   // valve characteristic
    double k; Hook* h;
    PressFunc(double k_, Hook* h_) : k(k_), h(h_) {}
    string type() const override { return "userp"; }
    double eval(double dp) const override { return h->call(k * dp / (1 + std::abs(dp) / 1e4)); }
};
struct UserRate : Func1 {
    double a, e; Hook* h;
    UserRate(double a_, double e_, Hook* h_) : a(a_), e(e_), h(h_) {}
    string type() const override { return "userrate"; }
    double eval(double T) const override { return h->call(a * std::exp(-e / T), false); }  // rates are kept for a temperature
};
struct Feed { shared_ptr<ReactorBase> from; double mdot; const UserFunc* f; Vec Y; double h; };
struct HeatSrc { double A; const UserFunc* f; double sign; };

struct Net {
    Hook hook;
    vector<shared_ptr<Solution>> sols;          // every solution any reactor uses
    vector<shared_ptr<ReactorBase>> R, res;     // in the network / reservoirs
    vector<bool> constP, energy, idealT;
    vector<shared_ptr<ConnectorNode>> con;
    vector<shared_ptr<ReactorSurface>> surf;
    vector<int> surfOf;
    vector<unique_ptr<Func1>> fn;
    unique_ptr<ReactorNet> net;
    vector<Feed> feeds;
    vector<HeatSrc> heats;
    bool elementsClosed = true, energyClosed = true, volumeClosed = true, exact = true, flow = false;
    bool sens = false;
    double scaleT = 1e-5, t0 = 0;
    string desc;
    ~Net() { net.reset(); surf.clear(); con.clear(); R.clear(); res.clear(); }
    Reactor& r(size_t i) { return dynamic_cast<Reactor&>(*R[i]); }
    vector<double> y() { Vec v(net->neq()); net->getState(v.data()); return v; }
    // --- conserved quantities, from what the reactors report
    map<string, double> balance() {
        map<string, double> q;
        for (size_t i = 0; i < R.size(); i++) {
            auto& r = *R[i];
            auto th = sols[solOf[i]]->thermo();
            double m = r.volume() * r.density();
            for (size_t k = 0; k < th->nSpecies(); k++) {
                double n = m * r.massFraction(k) / th->molecularWeight(k);
                for (size_t e = 0; e < th->nElements(); e++) q["element " + th->elementName(e)] += n * th->nAtoms(k, e);
            }
            q["energy"] += m * (constP[i] ? r.enthalpy_mass() : r.intEnergy_mass());
            if (!constP[i]) q["volume"] += r.volume();
        }
        for (size_t s = 0; s < surf.size(); s++) {
            auto th = surf[s]->thermo();
            Vec c(th->nSpecies());
            surf[s]->getCoverages(c.data());
            for (size_t k = 0; k < c.size(); k++)
                for (size_t e = 0; e < th->nElements(); e++)
                    q["element " + th->elementName(e)] += surf[s]->area() * th->siteDensity() * c[k] / th->size(k) * th->nAtoms(k, e);
        }
        return q;
    }
    map<string, double> supplied(double ta, double tb) {
        map<string, double> q;
        for (auto& f : feeds) {
            double m = f.f ? f.mdot * f.f->integral(ta, tb) : f.mdot * (tb - ta);
            auto& th = f.from->contents();
            for (size_t k = 0; k < th.nSpecies(); k++)
                for (size_t e = 0; e < th.nElements(); e++) q["element " + th.elementName(e)] += m * f.Y[k] / th.molecularWeight(k) * th.nAtoms(k, e);
            q["energy"] += m * f.h;
        }
        for (auto& s : heats) q["energy"] += s.sign * s.A * s.f->integral(ta, tb);
        return q;
    }
    vector<int> solOf;
    vector<Vec> hf;
    struct Check { double t; vector<Vec> st; vector<double> vol; vector<Vec> cov; };
    Check checkpoint(double t) {
        Check c; c.t = t;
        for (size_t i = 0; i < R.size(); i++) {
            R[i]->restoreState();
            Vec s; R[i]->contents().saveState(s);
            c.st.push_back(s); c.vol.push_back(R[i]->volume());
        }
        for (auto& s : surf) { Vec v(s->thermo()->nSpecies()); s->getCoverages(v.data()); c.cov.push_back(v); }
        return c;
    }
    void restart(const Check& c) {
        for (size_t i = 0; i < R.size(); i++) {
            R[i]->contents().restoreState(c.st[i]);
            R[i]->setInitialVolume(c.vol[i]);
            R[i]->syncState();
        }
        for (size_t s = 0; s < surf.size(); s++) surf[s]->setCoverages(c.cov[s].data());
        net->setInitialTime(c.t);
    }
};
const char* const RT[] = {"IdealGasReactor", "IdealGasConstPressureReactor", "Reactor", "ConstPressureReactor", "IdealGasMoleReactor", "IdealGasConstPressureMoleReactor", "MoleReactor", "ConstPressureMoleReactor"};
shared_ptr<Solution> loadGas(int which, Hook* h) {
    if (which == 0) return newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
    if (which == 1) {       // with user-defined rates
        auto s = newSolution(jobFile("h2o2.yaml"), "ohmech", "none");
        auto r = std::make_shared<CustomFunc1Rate>();
        r->setRateFunction(std::make_shared<UserRate>(1e7, 3000.0, h));
        auto X = std::make_shared<Reaction>("H2 + O <=> H + OH", r);
        X->duplicate = true;
        s->kinetics()->addReaction(X);
        return s;
    }
    if (which == 3) {       // the same species and reactions in another order
        AnyMap root = AnyMap::fromYamlFile(jobFile("h2o2.yaml"));
        auto& ph = root["phases"].getMapWhere("name", "ohmech");
        ph["species"] = vector<string>{"N2", "O", "AR", "H2O2", "H2", "HO2", "O2", "H2O", "OH", "H"};
        ph["elements"] = vector<string>{"N", "H", "Ar", "O"};
        return newSolution(ph, root, "none");
    }
    return newSolution(jobFile("air.yaml"), "air", "none");
}
const int kSteps = 3000;
double g_rtol = 0;      // overrides the tolerance of all networks
// purpose: 1 fault, 2 balance, 3 client
unique_ptr<Net> build(uint64_t seed, bool share, int purpose) {
    Rng r(seed);
    auto p = std::make_unique<Net>();
    Net& N = *p;
    Hook* hk = &N.hook;
    bool surface = r.chance(0.18);
    bool preco = r.chance(0.15) && !surface;
    int gasKind = r.chance(0.3) ? 1 : 0;
    vector<shared_ptr<Solution>> shared(4);
    auto gas = [&](int kind, double T, double P, const string& X) {
        shared_ptr<Solution> s;
        if (share && shared[kind]) s = shared[kind];
        else { s = loadGas(kind, hk); if (share) shared[kind] = s; N.sols.push_back(s); }
        s->thermo()->setState_TPX(T, P, X);
        return s;
    };
    static const char* const mix[] = {"H2:1, O2:1, AR:4", "H2:2, O2:1, N2:3", "H2:0.3, O2:1, AR:2", "N2:1", "H2:1, AR:1", "O2:1, N2:3.7"};
    int n = surface ? 1 : r.range(1, 3);
    N.net = std::make_unique<ReactorNet>();
    if (surface) {
        shared_ptr<Interface> S0;
        int nr = r.chance(0.4) ? 2 : 1;
        n = nr;
        for (int i = 0; i < nr; i++) {
            auto S = share && S0 ? S0 : newInterface(jobFile("ptcombust-simple.yaml"), "Pt_surf");
            auto g = S->adjacent(0);
            if (!(share && S0)) { N.sols.push_back(g); N.sols.push_back(S); }
            S0 = S;
            double T = r.uni(800, 1200);
            g->thermo()->setState_TPX(T, OneAtm * r.uni(0.5, 2), r.chance(0.5) ? "CH4:0.095, O2:0.21, N2:0.695" : "CH4:0.2, O2:0.1, N2:0.6");
            S->thermo()->setState_TP(T, OneAtm);
            int t = r.below(8);
            N.R.push_back(newReactor(RT[t], g, sim::strf("r%d", i)));
            N.solOf.push_back(int(std::find(N.sols.begin(), N.sols.end(), g) - N.sols.begin()));
            N.r(i).setInitialVolume(r.logu(1e-6, 1));      // small ones feel what happens on the surface
            N.constP.push_back(t % 2); N.energy.push_back(true);
            if (t == 2 || t == 3 || t == 6 || t == 7) N.exact = false;   // temperature from iterations that start at the last one
            N.desc += string(i ? " " : "") + RT[t] + "+surface";
            for (int j = r.chance(0.4) ? 2 : 1; j > 0; j--) {
                auto s = std::make_shared<ReactorSurface>(sim::strf("s%d%d", i, j));
                s->setKinetics(S->kinetics().get());
                if (r.chance(0.5)) { Vec c = randComp(r, S->thermo()->nSpecies()); s->setCoverages(c.data()); }
                s->setArea(r.logu(0.01, 10));
                dynamic_cast<Reactor&>(*N.R[i]).addSurface(s.get());
                N.surf.push_back(s); N.surfOf.push_back(i);
            }
        }
        N.energyClosed = false;
        N.scaleT = r.logu(1e-7, 1e-5);
    } else {
        for (int i = 0; i < n; i++) {
            int t = preco ? 4 + r.below(2) : r.below(8);
            bool hot = r.chance(0.75);
            int kind = purpose != 2 && r.chance(0.15) ? 2 : r.chance(0.15) ? 3 : gasKind;
            string X = kind == 2 ? "O2:1, N2:3.7" : mix[r.below(6)];
            auto s = gas(kind, hot ? r.uni(900, 1500) : r.uni(300, 600), OneAtm * r.logu(0.3, 5), X);
            N.R.push_back(newReactor(RT[t], s, sim::strf("r%d", i)));
            N.solOf.push_back(int(std::find(N.sols.begin(), N.sols.end(), s) - N.sols.begin()));
            auto& q = N.r(i);
            q.setInitialVolume(r.logu(0.1, 10));
            bool en = !r.chance(0.15);
            if (!en) { q.setEnergy(0); N.energyClosed = false; }
            if (r.chance(0.1)) q.setChemistry(false);
            N.constP.push_back(t % 2); N.energy.push_back(en);
            if (t == 2 || t == 3 || t == 6 || t == 7) N.exact = false;   // temperature from iterations that start at the last one
    
            N.desc += string(i ? " " : "") + RT[t];
        }
        N.scaleT = r.logu(1e-6, 1e-4);
    }
    auto func = [&](double a, double rel) {
        double T = N.scaleT * 10;
        N.fn.push_back(std::make_unique<UserFunc>(a, a * rel * r.uni(-1, 1) / T, a * rel * r.uni(-1, 1) / T / T, hk));
        return static_cast<UserFunc*>(N.fn.back().get());
    };
    double rate = 1 / N.scaleT;      // 1/s: what fills or moves a fair part of a reactor during a run
    // feeds from reservoirs
    int nf = surface ? 0 : r.chance(0.5) ? r.range(1, 2) : 0;
    for (int i = 0; i < nf; i++) {
        auto s = loadGas(gasKind, hk);
        s->thermo()->setState_TPX(r.uni(300, 900), OneAtm, mix[r.below(6)]);
        N.sols.push_back(s);
        auto up = newReactor("Reservoir", s, sim::strf("up%d", i));
        N.res.push_back(up);
        int to = r.below(n);
        if (N.R[to]->contents().nSpecies() < s->thermo()->nSpecies()) N.elementsClosed = N.energyClosed = false;
        auto m = std::dynamic_pointer_cast<MassFlowController>(newFlowDevice("MassFlowController", up, N.R[to], sim::strf("mfc%d", i)));
        double md = N.R[to]->density() * N.R[to]->volume() * rate * r.logu(0.001, 0.1);
        const UserFunc* f = nullptr;
        m->setMassFlowRate(md);
        if (r.chance(0.5)) { auto q = func(1.0, 0.3); m->setTimeFunction(q); f = q; }
        Vec Y(s->thermo()->nSpecies());
        s->thermo()->getMassFractions(Y.data());
        N.feeds.push_back({up, md, f, Y, s->thermo()->enthalpy_mass()});
        N.con.push_back(m);
        if (purpose != 2 && r.chance(0.5)) {        // controlled outflow
            auto sk = loadGas(gasKind, hk);
            N.sols.push_back(sk);
            sk->thermo()->setState_TPX(300, OneAtm * 0.5, "N2:1");
            auto dn = newReactor("Reservoir", sk, sim::strf("down%d", i));
            N.res.push_back(dn);
            auto c = std::dynamic_pointer_cast<PressureController>(newFlowDevice("PressureController", N.R[to], dn, sim::strf("pc%d", i)));
            c->setPrimary(m.get());
            c->setPressureCoeff(md / OneAtm * r.logu(0.1, 3));
            N.con.push_back(c);
            N.elementsClosed = N.energyClosed = false;
        }
    }
    // connections between reactors
    for (int i = 0; i + 1 < n; i++) for (int rep = r.range(0, 2); rep > 0; rep--) {
        int a = i, b = i + 1 + int(r.below(n - i - 1));
        if (r.chance(0.5)) std::swap(a, b);
        double m0 = N.R[a]->density() * N.R[a]->volume();
        bool airA = N.R[a]->contents().nSpecies() > N.R[b]->contents().nSpecies();
        switch (r.below(4)) {
        case 0: {
            auto v = std::dynamic_pointer_cast<Valve>(newFlowDevice("Valve", N.R[a], N.R[b], sim::strf("v%d%d", i, rep)));
            v->setValveCoeff(m0 * rate / OneAtm * r.logu(0.01, 0.5));
            if (r.chance(0.4)) { N.fn.push_back(std::make_unique<PressFunc>(1.0, hk)); v->setPressureFunction(N.fn.back().get()); }
            if (r.chance(0.3)) v->setTimeFunction(func(1.0, 0.3));
            N.con.push_back(v);
            if (airA) N.elementsClosed = N.energyClosed = false;
            break; }
        case 1: {
            auto v = std::dynamic_pointer_cast<MassFlowController>(newFlowDevice("MassFlowController", N.R[a], N.R[b], sim::strf("m%d%d", i, rep)));
            v->setMassFlowRate(m0 * rate * r.logu(0.001, 0.03));
            if (r.chance(0.3)) v->setTimeFunction(func(1.0, 0.3));
            N.con.push_back(v);
            if (airA) N.elementsClosed = N.energyClosed = false;
            break; }
        default: {
            auto w = std::dynamic_pointer_cast<Wall>(newWall("Wall", N.R[a], N.R[b], sim::strf("w%d%d", i, rep)));
            w->setArea(r.logu(0.1, 3));
            double C = m0 * 1000 * rate;
            if (r.chance(0.7)) w->setHeatTransferCoeff(C * r.logu(0.001, 0.3));
            if (r.chance(0.2)) w->setEmissivity(r.uni());
            if (r.chance(0.3)) w->setHeatFlux(func(C * 100 * r.logu(0.001, 0.3), 0.5));
            if (r.chance(0.5)) {
                w->setExpansionRateCoeff(N.R[a]->volume() * rate / OneAtm * r.logu(0.001, 0.1));
                if (r.chance(0.4)) w->setVelocity(func(N.R[a]->volume() * rate * r.logu(0.0003, 0.003), 0.5));
                N.energyClosed = false;
                if (N.constP[a] || N.constP[b]) N.volumeClosed = false;
            }
            N.con.push_back(w); }
        }
    }
    // walls to the surroundings
    if (!surface && r.chance(0.4)) {
        auto s = loadGas(0, hk);
        s->thermo()->setState_TPX(r.uni(300, 1000), OneAtm, "N2:1");
        N.sols.push_back(s);
        auto env = newReactor("Reservoir", s, "env");
        N.res.push_back(env);
        int a = r.below(n);
        bool left = r.chance(0.5);
        auto w = std::dynamic_pointer_cast<Wall>(left ? newWall("Wall", N.R[a], env, "we") : newWall("Wall", env, N.R[a], "we"));
        w->setArea(r.logu(0.1, 3));
        double C = N.R[a]->density() * N.R[a]->volume() * 1000 * rate;
        if (r.chance(0.6)) { auto q = func(C * 100 * r.logu(0.001, 0.3) * (r.chance(0.5) ? 1 : -0.3), 0.5); w->setHeatFlux(q); N.heats.push_back({w->area(), q, left ? -1.0 : 1.0}); }
        else { w->setHeatTransferCoeff(C * r.logu(0.001, 0.1)); N.energyClosed = false; }
        if (r.chance(0.3)) { w->setVelocity(func(N.R[a]->volume() * rate * 0.001, 0.5)); N.energyClosed = false; N.volumeClosed = false; }
        N.con.push_back(w);
    }
    bool anyU = false;
    for (int i = 0; i < n; i++) if (!N.constP[i]) anyU = true;
    if (!anyU) N.volumeClosed = false;
    vector<int> order(n);
    for (int i = 0; i < n; i++) order[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
    for (int i : order) N.net->addReactor(N.r(i));
    N.net->setTolerances(r.chance(0.5) ? 1e-9 : r.logu(1e-10, 1e-7), r.chance(0.5) ? 1e-15 : 1e-13);   // smaller ones make the integrator's difference Jacobian meaningless
    N.net->setMaxSteps(kSteps);
    if (g_rtol > 0) N.net->setTolerances(g_rtol, g_rtol > 5e-9 ? 1e-13 : g_rtol < 5e-10 ? 1e-15 : 1e-20);
    if (getenv("SIM_RTOL")) N.net->setTolerances(atof(getenv("SIM_RTOL")), 1e-15);
    if (preco) {
        N.net->setPreconditioner(newSystemJacobian("Adaptive"));
        N.net->setLinearSolverType("GMRES");
        AnyMap st; st["skip-falloff"] = true; st["skip-third-bodies"] = true;
        N.net->setDerivativeSettings(st);
        N.exact = false;
        N.desc += " preconditioned";
    } else if (r.chance(0.15)) { N.net->setMaxTimeStep(N.scaleT * r.logu(0.05, 2)); }
    if (!preco && r.chance(0.25)) {
        int a = r.below(n);
        if (N.r(a).nSensParams() == 0 && N.sols[N.solOf[a]]->kinetics().operator*().nReactions() > 3) {
            attempt([&] { N.r(a).addSensitivityReaction(r.below(3)); N.sens = true; N.desc += " sensitivities"; });
            if (r.chance(0.5)) attempt([&] { N.r(a).addSensitivitySpeciesEnthalpy(r.below(3)); });
            if (surface) attempt([&] { N.surf[0]->addSensitivityReaction(r.below(3)); });
            N.net->setSensitivityTolerances(1e-4, 1e-6);
        }
    }
    for (auto& x : N.R) { Vec h; for (size_t k = 0; k < x->contents().nSpecies(); k++) h.push_back(x->contents().Hf298SS(k)); N.hf.push_back(h); }
    return p;
}
string nominal(Net& N) {       // what sensitivity analysis and rate evaluation must leave untouched
    for (size_t i = 0; i < N.R.size(); i++) {
        auto& k = N.sols[N.solOf[i]]->kinetics().operator*();
        for (size_t j = 0; j < k.nReactions(); j++) if (k.multiplier(j) != 1.0) return sim::strf("multiplier of reaction %zu is %.17g", j, k.multiplier(j));
        auto& th = N.R[i]->contents();
        for (size_t s = 0; s < th.nSpecies(); s++)
            if (!bitEq(th.Hf298SS(s), N.hf[i][s])) return sim::strf("enthalpy of formation of %s is %.17g instead of %.17g", th.speciesName(s).c_str(), th.Hf298SS(s), N.hf[i][s]);
    }
    for (auto& s : N.surf) for (size_t j = 0; j < s->kinetics()->nReactions(); j++) if (s->kinetics()->multiplier(j) != 1.0) return sim::strf("multiplier of surface reaction %zu is %.17g", j, s->kinetics()->multiplier(j));
    return "";
}
string cmp(const Vec& a, const Vec& b, double rt, double at) {
    if (a.size() != b.size()) return "number of variables";
    for (size_t i = 0; i < a.size(); i++) {
        if (rt == 0 ? !bitEq(a[i], b[i]) : !close(a[i], b[i], rt, at)) return sim::strf("variable %zu: %.17g instead of %.17g", i, a[i], b[i]);
    }
    return "";
}
// plan: !net seed ; !share ; adv f | step n | limit f | read k | clobber k | other k | hook n burst kind | alloc n burst | maxsteps n | restart | retol ; !end f
struct Driver {
    const Plan& p; Ctx& c; string prop; int purpose;
    unique_ptr<Net> N;
    double t = 0;            // time the client believes the network is at
    map<string, double> q0; double tq = 0;
    Net::Check ck; bool have = false;
    bool faulted = false, begun = false;
    string label;
    void resetBalance() { q0 = N->balance(); tq = t; }
    void checkBalance(const string& when) {
        auto q = N->balance(), s = N->supplied(tq, t);
        double tol = 3e-5;
        for (auto& [k, v] : q) {
            bool el = k[0] == 'e' && k[1] == 'l';
            if (el && !N->elementsClosed) continue;
            if (k == "energy" && !N->energyClosed) continue;
            if (k == "volume" && !N->volumeClosed) continue;
            double want = q0[k] + s[k], scale = std::abs(q0[k]) + std::abs(s[k]);
            if (el) { scale = 0; for (auto& [kk, vv] : q) if (kk[0] == 'e' && kk[1] == 'l') scale = std::max(scale, std::abs(vv)); }
            if (k == "energy") { scale = std::abs(q0[k]); for (size_t i = 0; i < N->R.size(); i++) scale += N->R[i]->volume() * N->R[i]->density() * 1e6; }
            c.count("balance." + string(el ? "element" : k));
            if (std::abs(v - want) > tol * scale)
                c.fail(prop + ":not-conserved:" + (el ? "element" : k), sim::strf("%s after %s at t=%.6g in [%s]: %.12g instead of %.12g", k.c_str(), when.c_str(), t, label.c_str(), v, want));
        }
    }
};
string describe(Net& N) {      // development aid
    string o;
    for (size_t i = 0; i < N.R.size(); i++) o += sim::strf("%s V=%g m=%g T=%g P=%g energy=%d\n", N.R[i]->type().c_str(), N.R[i]->volume(), N.R[i]->volume() * N.R[i]->density(), N.R[i]->temperature(), N.R[i]->pressure(), int(N.energy[i]));
    auto nm = [&](ReactorBase& x) { return x.name(); };
    for (auto& x : N.con) {
        if (auto f = dynamic_cast<FlowDevice*>(x.get())) o += sim::strf("%s %s->%s mdot=%g\n", f->type().c_str(), nm(f->in()).c_str(), nm(f->out()).c_str(), N.net->neq() ? f->massFlowRate() : 0);
        else { auto w = dynamic_cast<WallBase*>(x.get()); o += sim::strf("%s %s|%s q=%g v=%g\n", w->type().c_str(), nm(w->left()).c_str(), nm(w->right()).c_str(), w->heatRate(), w->expansionRate()); }
    }
    for (auto& f : N.feeds) o += sim::strf("feed %s mdot=%g func=%d (%g %g %g) integral=%g h=%g\n", f.from->name().c_str(), f.mdot, f.f ? 1 : 0, f.f ? f.f->a : 0, f.f ? f.f->b : 0, f.f ? f.f->c : 0, f.f ? f.mdot * f.f->integral(0, N.net->time()) : f.mdot * N.net->time(), f.h);
    if (N.net->neq()) {
        Vec y = N.y(), yd(y.size()), pr = N.net->m_sens_params;
        N.net->eval(N.net->time(), y.data(), yd.data(), pr.data());
        for (size_t i = 0; i < y.size(); i++) o += sim::strf("  %-30s %15.8g %15.8g\n", N.net->componentName(i).c_str(), y[i], yd[i]);
    }
    return o + sim::strf("t=%g scaleT=%g rtol=%g atol=%g\n", N.net->time(), N.scaleT, N.net->rtol(), N.net->atol());
}
// the integrator gives up on the numerics of the problem rather than on an error
bool numerics(const string& m) {
    for (auto k : {"CV_CONV_FAILURE", "CV_ERR_FAILURE", "error test failed", "corrector convergence", "Corrector convergence"})
        if (m.find(k) != string::npos) return true;
    return false;
}
void clearFault(Net& N) { N.hook.off(); sim::alloc::disarm(); }

void execOnce(const Plan& p, Ctx& c, int purpose) {
    quiet();
    string prop = purpose == 1 ? "R01" : purpose == 2 ? "R02" : "R03";
    auto sn = sim::findStep(p, "!net");
    if (!sn) return;
    uint64_t seed = uint64_t(sn->arg(0));
    bool share = sim::findStep(p, "!share") != nullptr;
    double end = 10;
    if (auto e = sim::findStep(p, "!end")) end = e->arg(0);
    bool firstStep = sim::findStep(p, "!firststep") != nullptr;
    double first = 1;
    if (auto e = sim::findStep(p, "!first")) first = e->arg(0);

    c.at(0, prop + ":build");
    Driver D{p, c, prop, purpose};
    auto mk = attempt([&] { D.N = build(seed, share, purpose); });
    if (!mk.ok) { c.count("skip.build"); c.ev("build %s", ecut(mk.msg).c_str()); return; }
    Net& N = *D.N;
    D.label = N.desc;
    double S = N.scaleT;
    if (getenv("SIM_DESCRIBE")) fputs(describe(N).c_str(), stderr);
    // reference: the same network with contents of its own, advanced without any output, read or fault
    auto ref = build(seed, false, purpose);
    Vec yref, sref;
    bool anyFault = false, restarted = false;
    auto begin = [&](Net& n) { if (firstStep) n.net->step(); else n.net->advance(first * S); };
    c.at(0, prop + ":reference");
    auto ro = attempt([&] { begin(*ref); if (ref->net->time() < end * S) ref->net->advance(end * S); yref = ref->y(); if (ref->sens) for (size_t k = 0; k < ref->net->neq(); k++) sref.push_back(ref->net->sensitivity(k, 0)); });
    if (!ro.ok) { c.count("skip.reference-fails"); c.ev("reference %s", ecut(ro.msg).c_str()); return; }
    if (getenv("SIM_DESCRIBE")) fputs(describe(*ref).c_str(), stderr);
    c.ev("net %s", N.desc.c_str());
    for (size_t i = 0; i < N.R.size(); i++)
        if (ref->R[i]->volume() * ref->R[i]->density() < 0.05 * N.R[i]->volume() * N.R[i]->density() || ref->R[i]->volume() < 0) { c.count("skip.emptied"); return; }
    auto bad = [&](const string& w, const string& m) { c.fail(prop + ":" + w, m + " in [" + N.desc + "]" + (share ? " shared" : "")); };
    bool begun = false;
    auto init = [&] { if (!begun) { begin(N); begun = true; D.t = N.net->time(); } };
    D.resetBalance();
    unique_ptr<Net> other;
    int step = 0, pendKind = -1;
    long pendAlloc = 0;
    double tEnd = end * S;
    bool gaveUp = false;
    // ---- one client operation that may fail because of an armed fault
    auto guarded = [&](const string& what, std::function<void()> op) {
        bool armed = N.hook.on || pendAlloc;
        if (pendAlloc) { sim::alloc::arm(pendAlloc, pendKind); pendAlloc = 0; }
        auto o = attempt(op);
        long af = sim::alloc::fired(), hf = N.hook.fired;
        clearFault(N);
        sim::alloc::arm(1u << 30, 1); sim::alloc::disarm();
        N.hook.fired = 0;
        if (af) c.fault("allocation"); if (hf) c.fault("user-function");
        if (af || hf) anyFault = true;
        c.ev("%s %d %ld %ld", what.c_str(), int(o.ok), af, hf);
        if (!o.ok && !hf && !af && numerics(o.msg)) gaveUp = true;
        else if (!o.ok && !armed) bad("refused:" + what, what + " fails although nothing is wrong any more: " + ecut(o.msg, 400));
        if (!o.ok && hf && !af && !N.sens && o.msg.find("injected-user-fault") == string::npos && N.hook.kind < 2) bad("cause-lost", "the error of " + what + " does not contain the user function's error: " + ecut(o.msg, 400));
        if (!o.ok && hf && !af && N.hook.kind == 3 && o.msg.find("inite") == string::npos && o.msg.find("nan") == string::npos) c.count("note.nan-not-named");
        auto nm = nominal(N);
        if (!nm.empty()) bad("not-nominal", "after " + what + (o.ok ? "" : " (failed)") + ": " + nm);
        return o;
    };
    for (auto& s : p) {
        step++;
        if (s.op[0] == '!') continue;
        c.at(step, prop + ":" + s.op);
        if (s.op == "adv" || s.op == "limit" || s.op == "step") {
            if (D.t >= tEnd * (1 - 1e-12)) continue;
            double target = std::min(tEnd, D.t + s.arg(0) * S);
            auto o = guarded(s.op, [&] {
                init();
                if (D.t >= tEnd) return;
                target = std::max(target, D.t);
                if (s.op == "adv") { N.net->advance(target); D.t = target; }
                else if (s.op == "limit") D.t = N.net->advance(target, true);
                else for (int i = s.iarg(1, 1); i > 0 && D.t < tEnd; i--) D.t = N.net->step();
            });
            // SUNDIALS (cvodes, staggered sensitivities) loses a step when the right-hand side reports
            // a recoverable error, whatever its caller does
            if (N.sens && anyFault) { c.count("skip.sensitivities-after-fault"); return; }
            if (o.ok) {
                if (N.net->time() != D.t) bad("time", sim::strf("the network is at %.17g after advancing to %.17g", N.net->time(), D.t));
                Vec y = N.y();
                for (auto v : y) if (!std::isfinite(v)) bad("not-finite", "a state variable is not finite after a successful " + s.op);
                if (getenv("SIM_DESCRIBE")) fputs((s.op + "\n" + describe(N)).c_str(), stderr);
                D.checkBalance(s.op);
                c.state(sim::fnv(seed, y.data(), y.size() * 8));
                c.count("op." + s.op);
                if (purpose != 3 && s.iarg(2)) { D.ck = N.checkpoint(D.t); D.have = true; }
            } else {
                c.count("failed." + s.op);
                if (gaveUp) { c.count("skip.numerics"); return; }
                int mode = s.iarg(3) % 3;
                if (!begun) {       // first use failed: start over from the initial state
                    auto fresh = build(seed, false, purpose);
                    auto k0 = fresh->checkpoint(0);
                    auto e = attempt([&] { N.restart(k0); });
                    if (!e.ok) bad("restart-refused", "restart after a failed first step: " + ecut(e.msg));
                    D.t = 0;
                } else if (mode == 0 || !D.have) {
                    // continue from where the integrator was: the same request again
                    double go = std::max({target, D.t, N.net->time()});
                    auto e = attempt([&] { N.net->advance(go); D.t = go; });
                    if (!e.ok) {
                        // the integrator may ask for a restart; then the documented way must work
                        c.count("continue-refused");
                        auto fresh = build(seed, false, purpose);
                        auto k0 = D.have ? D.ck : fresh->checkpoint(0);
                        auto e2 = attempt([&] { N.restart(k0); N.net->advance(std::max(k0.t + 1e-3 * S, D.t)); D.t = std::max(k0.t + 1e-3 * S, D.t); });
                        if (!e2.ok) bad("restart-refused", "after a failure neither continuing nor a restart works: " + ecut(e2.msg, 300));
                        restarted = true;
                    }
                    D.checkBalance("continuing after a failure");
                } else {
                    // restart from the last checkpoint; a network that never failed but was restarted
                    // at the same place goes the same way
                    N.restart(D.ck);
                    D.t = D.ck.t;
                    restarted = true;
                    auto tw = build(seed, false, purpose);
                    tw->restart(D.ck);
                    double t2 = D.t + 0.3 * S;
                    Vec a, b;
                    auto e1 = attempt([&] { N.net->advance(t2); a = N.y(); });
                    auto e2 = attempt([&] { tw->net->advance(t2); b = tw->y(); });
                    if (e1.ok != e2.ok) bad("restart-differs", string(e1.ok ? "succeeds" : "fails") + " after a failure and restart, unlike a network that never failed: " + ecut(e1.msg + e2.msg, 300));
                    if (e1.ok) {
                        D.t = t2;
                        string df = cmp(a, b, N.exact && !N.sens ? 1e-12 : 1e-6, 1e-14);
                        if (!df.empty()) bad("restart-differs", "after a failure and restart from saved states: " + df);
                        c.count("restart.checked");
                        D.checkBalance("a restart");
                    } else return;
                }
                auto nm = nominal(N);
                if (!nm.empty()) bad("not-nominal", "after recovery: " + nm);
            }
        } else if (s.op == "hook") { N.hook.arm(long(s.arg(0)), long(s.arg(1)), s.iarg(2)); }
        else if (s.op == "alloc") { pendAlloc = long(s.arg(0)); pendKind = s.iarg(1); }
        else if (s.op == "maxsteps") {
            if (!begun) continue;
            clearFault(N); pendAlloc = 0;
            // running into the step limit and going on is the same as a larger limit
            N.net->setMaxSteps(s.iarg(0));
            int n = 0;
            double target = std::max(D.t, std::min(tEnd, D.t + s.arg(1) * S));
            for (; n < 20000; n++) {
                auto e = attempt([&] { N.net->advance(target); });
                if (e.ok) break;
                if (numerics(e.msg)) { c.count("skip.numerics"); return; }
                if (e.msg.find("Maximum number of timesteps") == string::npos) bad("step-limit", "another error at the step limit: " + ecut(e.msg, 300));
                c.fault("step-limit");
            }
            N.net->setMaxSteps(kSteps);
            D.t = std::max(target, D.t);
            D.checkBalance("running into step limits");
        } else if (s.op == "restart") {
            if (!begun) continue;
            auto k = N.checkpoint(D.t);
            N.restart(k);
            restarted = true;
            c.count("op.restart");
        } else if (s.op == "read") {
            size_t i = s.iarg(0) % N.R.size();
            auto e = attempt([&] {
                switch (s.iarg(1) % 9) {
                case 0: if (begun) N.y(); break;
                case 1: for (auto& x : N.R) { x->density(); x->pressure(); x->mass(); x->enthalpy_mass(); } break;
                case 2: N.net->solverStats(); break;
                case 3: if (begun) { Vec d(N.net->neq()); N.net->getDerivative(0, d.data()); } break;
                case 4: if (begun && N.sens) N.net->sensitivity(s.iarg(0) % N.net->neq(), 0); break;
                case 5: for (auto& x : N.con) { if (auto f = dynamic_cast<FlowDevice*>(x.get())) f->massFlowRate(); else { auto w = dynamic_cast<WallBase*>(x.get()); w->heatRate(); w->expansionRate(); } } break;
                case 6: N.R[i]->restoreState(); N.sols[N.solOf[i]]->kinetics().operator*().nReactions(); { Vec w(N.R[i]->contents().nSpecies()); N.sols[N.solOf[i]]->kinetics().operator*().getNetProductionRates(w.data()); } break;
                case 7: for (size_t k = 0; begun && k < N.net->neq(); k++) N.net->componentName(k); break;
                case 8: if (begun && purpose == 3) { Vec y = N.y(), yd(y.size()); Vec pr = N.net->m_sens_params; double tt = N.net->time(); N.net->eval(tt, y.data(), yd.data(), pr.data()); } break;
                }
            });
            c.ev("read %d %d", s.iarg(1) % 9, int(e.ok));
            c.count("op.read");
        } else if (s.op == "clobber") {
            // another client uses the shared solutions for its own purposes
            auto e = attempt([&] {
                Rng q(uint64_t(s.arg(0)));
                auto& th = *N.sols[q.below(N.sols.size())]->thermo();
                if (q.chance(0.5)) th.setState_TP(q.uni(300, 2500), OneAtm * q.logu(0.1, 10));
                else { Vec y = randComp(q, th.nSpecies()); th.setMassFractions(y.data()); th.setState_TP(q.uni(300, 2500), OneAtm); }
            });
            c.fault("shared-phase-changed"); c.nontrivial = true;
            c.ev("clobber %d", int(e.ok));
        } else if (s.op == "other") {
            // a second network with the same shared solutions
            auto e = attempt([&] {
                Rng q(uint64_t(s.arg(0)));
                auto& sol = N.sols[N.solOf[q.below(N.R.size())]];
                sol->thermo()->setState_TPX(q.uni(900, 1600), OneAtm, sol->thermo()->speciesIndex("H2") != npos ? "H2:1, O2:1" : "O2:1, N2:1");
                auto R2 = newReactor("IdealGasReactor", sol, "other");
                ReactorNet n2;
                n2.addReactor(dynamic_cast<Reactor&>(*R2));
                n2.advance(S * q.logu(0.1, 10));
            });
            c.fault("other-network"); c.nontrivial = true;
            c.ev("other %d %s", int(e.ok), ecut(e.msg).c_str());
        }
    }
    clearFault(N);
    c.at(step, prop + ":end");
    auto o = attempt([&] { init(); if (D.t < tEnd) { N.net->advance(tEnd); D.t = tEnd; } });
    if (!o.ok && numerics(o.msg)) { c.count("skip.numerics"); return; }
    if (!o.ok) bad("refused:end", "the last advance fails although nothing is wrong any more: " + ecut(o.msg, 400));
    D.checkBalance("the end");
    if (getenv("SIM_DESCRIBE")) fputs(("end\n" + describe(N)).c_str(), stderr);
    Vec y = N.y();
    c.evbits("y", y.data(), y.size());
    // steps may go beyond the end time; then there is nothing to compare with
    if (N.net->time() != ref->net->time()) { c.count("skip.beyond-end"); return; }
    bool exact = N.exact && !anyFault && !restarted;
    double tol = exact ? 0 : 2e-3;
    Vec yr = ref->y();
    string df;
    if (exact) df = cmp(y, yr, 1e-13, 1e-40);   // reports convert between mass fractions and moles
    else {
        // temperatures, masses, volumes and major species within what the tolerances allow
        for (size_t i = 0; i < N.R.size() && df.empty(); i++) {
            auto &a = *N.R[i], &b = *ref->R[i];
            if (!close(a.temperature(), b.temperature(), tol)) df = sim::strf("temperature of reactor %zu: %.10g instead of %.10g", i, a.temperature(), b.temperature());
            if (!close(a.volume(), b.volume(), tol)) df = sim::strf("volume of reactor %zu: %.10g instead of %.10g", i, a.volume(), b.volume());
            if (!close(a.density(), b.density(), tol)) df = sim::strf("density of reactor %zu: %.10g instead of %.10g", i, a.density(), b.density());
            for (size_t k = 0; k < a.contents().nSpecies() && df.empty(); k++)
                if (!close(a.massFraction(k), b.massFraction(k), tol, 1e-5)) df = sim::strf("mass fraction %zu of reactor %zu: %.10g instead of %.10g", k, i, a.massFraction(k), b.massFraction(k));
        }
    }
    c.count(exact ? "end.bitwise" : "end.tolerance");
    if (!df.empty()) bad(exact ? "depends-on-client" : "wrong-result", "the state at the end of the history differs from an undisturbed run: " + df);
    if (exact && N.sens && !sref.empty()) {
        Vec sv;
        for (size_t k = 0; k < N.net->neq(); k++) sv.push_back(N.net->sensitivity(k, 0));
        string d2 = cmp(sv, sref, 1e-12, 1e-40);
        if (!d2.empty()) bad("depends-on-client", "sensitivities differ from an undisturbed run: " + d2);
        c.count("end.sensitivities");
    }
}
// What is reported about values must not be an artefact of the integrator's tolerances: it counts only
// when the same history at two other tolerances shows it too.
void exec(const Plan& p, Ctx& c, int purpose) {
    g_rtol = 0;
    string sig, msg;
    try { execOnce(p, c, purpose); return; } catch (sim::Violation& v) { sig = v.sig; msg = v.msg; }
    auto kind = [](const string& s) {
        for (auto k : {"not-conserved", "wrong-result", "restart-differs", "restart-refused", "refused", "step-limit"}) if (s.find(k) != string::npos) return true;
        return false;
    };
    if (kind(sig)) for (double tol : {1e-8, 3e-10, 1e-9}) {     // with absolute tolerances 1e-13, 1e-15, 1e-20
        g_rtol = tol;
        bool again = false;
        try { execOnce(p, c, purpose); } catch (sim::Violation& v) { again = kind(v.sig); }
        if (!again) { c.count("skip.unconfirmed"); c.count("skip.unconfirmed." + sig.substr(4)); return; }
    }
    c.fail(sig, msg);
}
Plan gen(Rng& r, int tier, int purpose) {
    Plan p;
    p.push_back({"!net", {double(r.below(1u << 30))}, ""});
    if (purpose == 3 ? r.chance(0.6) : r.chance(0.3)) p.push_back({"!share", {}, ""});
    if (r.chance(0.3)) p.push_back({"!firststep", {}, ""});
    else p.push_back({"!first", {r.logu(0.01, 3)}, ""});
    p.push_back({"!end", {r.logu(3, 10)}, ""});
    int n = r.range(3, tier ? 16 : 9);
    double pf = purpose == 1 ? 0.5 : purpose == 2 ? 0.15 : 0;
    for (int i = 0; i < n; i++) {
        double u = r.uni();
        if (r.chance(pf)) {
            if (r.chance(0.6)) p.push_back({"hook", {double(long(r.logu(1, 400))), r.chance(0.4) ? 1.0 : r.chance(0.5) ? r.logu(2, 30) : 1e9, double(r.below(4))}, ""});
            else p.push_back({"alloc", {double(long(r.logu(1, 3000))), r.chance(0.6) ? 1.0 : 1e6}, ""});
        }
        if (purpose == 3) {
            if (u < 0.3) p.push_back({"adv", {r.logu(0.01, 3)}, ""});
            else if (u < 0.4) p.push_back({"step", {0, double(r.range(1, 10))}, ""});
            else if (u < 0.45) p.push_back({"limit", {r.logu(0.1, 2)}, ""});
            else if (u < 0.75) p.push_back({"read", {double(r.below(40)), double(r.below(9))}, ""});
            else if (u < 0.92) p.push_back({"clobber", {double(r.below(1u << 30))}, ""});
            else p.push_back({"other", {double(r.below(1u << 30))}, ""});
        } else {
            if (u < 0.55) p.push_back({"adv", {r.logu(0.01, 3), 0, double(r.chance(0.5)), double(r.below(3))}, ""});
            else if (u < 0.7) p.push_back({"step", {0, double(r.range(1, 10)), double(r.chance(0.5)), double(r.below(3))}, ""});
            else if (u < 0.78) p.push_back({"maxsteps", {double(r.range(1, 5)), r.logu(0.1, 2)}, ""});
            else if (u < 0.88) p.push_back({"restart", {}, ""});
            else if (u < 0.95) p.push_back({"read", {double(r.below(40)), double(r.below(8))}, ""});
            else p.push_back({"clobber", {double(r.below(1u << 30))}, ""});
        }
    }
    return p;
}
void warm() { quiet(); silence(); newSolution(jobFile("h2o2.yaml"), "ohmech", "none"); newSolution(jobFile("air.yaml"), "air", "none"); newInterface(jobFile("ptcombust-simple.yaml"), "Pt_surf"); }
sim::Reg r1({"netfault", [](Rng& r, int t) { return gen(r, t, 1); }, [](const Plan& p, Ctx& c) { exec(p, c, 1); }, warm, 90});
sim::Reg r2({"netbalance", [](Rng& r, int t) { return gen(r, t, 2); }, [](const Plan& p, Ctx& c) { exec(p, c, 2); }, warm, 90});
sim::Reg r3({"netclient", [](Rng& r, int t) { return gen(r, t, 3); }, [](const Plan& p, Ctx& c) { exec(p, c, 3); }, warm, 90});
}

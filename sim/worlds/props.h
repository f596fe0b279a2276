// Every quantity a client can read from a phase, its kinetics and its transport model.
#pragma once
#include "common.h"
#include "catalog.h"
#include "cantera/thermo/PlasmaPhase.h"
#include "cantera/kinetics/Reaction.h"

namespace simw {
using Vec = vector<double>;
struct Sys {
    shared_ptr<Solution> sol;
    shared_ptr<ThermoPhase> th;
    shared_ptr<Kinetics> kin;
    shared_ptr<Transport> tr;
    explicit Sys(shared_ptr<Solution> s) : sol(s), th(s->thermo()), kin(s->kinetics()), tr(s->transport()) {}
};
struct Prop { string name; std::function<void(Sys&, Vec&)> f; };
struct Value {
    Vec v;
    string err;              // error class, "" when evaluated
    bool operator==(const Value& o) const {
        if (err != o.err || v.size() != o.v.size()) return false;
        for (size_t i = 0; i < v.size(); i++) if (!bitEq(v[i], o.v[i])) return false;
        return true;
    }
};
// agreement up to rounding: client interference may legitimately change the last bits
// (reads of a phase may renormalise its composition)
inline bool agree(const Value& a, const Value& b, double rtol = 1e-8, double vtol = 1e-10) {
    if (a.err != b.err || a.v.size() != b.v.size()) return false;
    double m = 0;
    for (double x : b.v) if (std::isfinite(x)) m = std::max(m, std::abs(x));
    for (size_t i = 0; i < a.v.size(); i++)
        if (!close(a.v[i], b.v[i], rtol, vtol * m + 1e-200)) return false;
    return true;
}
inline Value evalProp(const Prop& p, Sys& s) {
    Value r;
    auto o = attempt([&] { p.f(s, r.v); });
    if (!o.ok) { r.v.clear(); r.err = o.kind + ":" + o.type; }
    return r;
}
inline string showValue(const Value& v) {
    if (!v.err.empty()) return "<" + v.err + ">";
    string o = "[";
    for (size_t i = 0; i < v.v.size() && i < 6; i++) o += (i ? " " : "") + g17(v.v[i]);
    return o + (v.v.size() > 6 ? " ...]" : "]");
}
// the two values, or for vectors the element that differs most
inline string showDiff(const Value& a, const Value& b) {
    if (!a.err.empty() || !b.err.empty() || a.v.size() != b.v.size() || a.v.size() < 4) return showValue(a) + " vs " + showValue(b);
    size_t w = 0; double m = -1;
    for (size_t i = 0; i < a.v.size(); i++) {
        double d = std::abs(a.v[i] - b.v[i]) / (std::max(std::abs(a.v[i]), std::abs(b.v[i])) + 1e-300);
        if (!(d <= m)) { m = d; w = i; }
    }
    return sim::strf("[%zu of %zu] %.17g vs %.17g", w, a.v.size(), a.v[w], b.v[w]);
}
inline const vector<Prop>& thermoProps() {
    static const vector<Prop>& P = *[] {
        auto p = new vector<Prop>;
#define S_(n) p->push_back({#n, [](Sys& s, Vec& v) { v.push_back(s.th->n()); }})
        S_(temperature); S_(pressure); S_(density); S_(molarDensity); S_(molarVolume); S_(meanMolecularWeight);
        S_(refPressure); S_(minTemp); S_(maxTemp); S_(electricPotential); S_(electronTemperature);
        S_(enthalpy_mole); S_(intEnergy_mole); S_(entropy_mole); S_(gibbs_mole); S_(cp_mole); S_(cv_mole);
        S_(enthalpy_mass); S_(intEnergy_mass); S_(entropy_mass); S_(gibbs_mass); S_(cp_mass); S_(cv_mass);
        S_(isothermalCompressibility); S_(thermalExpansionCoeff); S_(soundSpeed); S_(RT);
        S_(critTemperature); S_(critPressure); S_(critVolume); S_(critCompressibility); S_(critDensity);
        S_(vaporFraction); S_(logStandardConc); S_(standardConcentration);
#undef S_
#define A_(n) p->push_back({#n, [](Sys& s, Vec& v) { v.resize(s.th->nSpecies()); s.th->n(v.data()); }})
        A_(getMoleFractions); A_(getMassFractions); A_(getConcentrations);
        A_(getActivityConcentrations); A_(getActivities); A_(getActivityCoefficients); A_(getLnActivityCoefficients);
        A_(getChemPotentials); A_(getElectrochemPotentials); A_(getPartialMolarEnthalpies);
        A_(getPartialMolarEntropies); A_(getPartialMolarIntEnergies); A_(getPartialMolarCp); A_(getPartialMolarVolumes);
        A_(getStandardChemPotentials); A_(getEnthalpy_RT); A_(getEntropy_R); A_(getGibbs_RT); A_(getPureGibbs);
        A_(getIntEnergy_RT); A_(getCp_R); A_(getStandardVolumes); A_(getEnthalpy_RT_ref); A_(getGibbs_RT_ref);
        A_(getGibbs_ref); A_(getEntropy_R_ref); A_(getIntEnergy_RT_ref); A_(getCp_R_ref); A_(getStandardVolumes_ref);
        A_(getdlnActCoeffdlnX_diag); A_(getdlnActCoeffdlnN_diag); A_(getCharges);
#undef A_
        p->push_back({"getdlnActCoeffdlnN", [](Sys& s, Vec& v) { size_t n = s.th->nSpecies(); v.resize(n * n); s.th->getdlnActCoeffdlnN(n, v.data()); }});
        p->push_back({"satPressure", [](Sys& s, Vec& v) { v.push_back(s.th->satPressure(s.th->temperature())); }});
        p->push_back({"satTemperature", [](Sys& s, Vec& v) { v.push_back(s.th->satTemperature(s.th->pressure())); }});
        p->push_back({"coverages", [](Sys& s, Vec& v) {
            auto t = std::dynamic_pointer_cast<SurfPhase>(s.th);
            if (!t) return;
            v.resize(t->nSpecies()); t->getCoverages(v.data()); v.push_back(t->siteDensity()); }});
        p->push_back({"plasma", [](Sys& s, Vec& v) {
            auto t = std::dynamic_pointer_cast<PlasmaPhase>(s.th);
            if (!t) return;
            v.resize(t->nElectronEnergyLevels()); t->getElectronEnergyDistribution(v.data());
            v.push_back(t->meanElectronEnergy()); v.push_back(t->electronPressure()); }});
        return p;
    }();
    return P;
}
inline void sparse(const Eigen::SparseMatrix<double>& m, Vec& v) {
    for (int k = 0; k < m.outerSize(); ++k)
        for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it)
            if (it.value() != 0) { v.push_back(it.row()); v.push_back(it.col()); v.push_back(it.value()); }
}
inline const vector<Prop>& kinProps() {
    static const vector<Prop>& P = *[] {
        auto p = new vector<Prop>;
#define R_(n) p->push_back({#n, [](Sys& s, Vec& v) { v.resize(s.kin->nReactions()); s.kin->n(v.data()); }})
#define K_(n) p->push_back({#n, [](Sys& s, Vec& v) { v.resize(s.kin->nTotalSpecies()); s.kin->n(v.data()); }})
#define M_(n) p->push_back({#n, [](Sys& s, Vec& v) { sparse(s.kin->n(), v); }})
        R_(getFwdRatesOfProgress); R_(getRevRatesOfProgress); R_(getNetRatesOfProgress); R_(getEquilibriumConstants);
        R_(getFwdRateConstants); R_(getRevRateConstants); R_(getDeltaGibbs); R_(getDeltaEnthalpy); R_(getDeltaEntropy);
        R_(getDeltaSSGibbs); R_(getDeltaSSEnthalpy); R_(getDeltaSSEntropy); R_(getDeltaElectrochemPotentials);
        R_(getThirdBodyConcentrations);
        K_(getCreationRates); K_(getDestructionRates); K_(getNetProductionRates);
        R_(getFwdRateConstants_ddT); R_(getFwdRateConstants_ddP); R_(getFwdRateConstants_ddC);
        R_(getFwdRatesOfProgress_ddT); R_(getFwdRatesOfProgress_ddP); R_(getFwdRatesOfProgress_ddC);
        R_(getRevRatesOfProgress_ddT); R_(getNetRatesOfProgress_ddT); R_(getNetRatesOfProgress_ddP); R_(getNetRatesOfProgress_ddC);
        K_(getCreationRates_ddT); K_(getDestructionRates_ddT); K_(getNetProductionRates_ddT); K_(getNetProductionRates_ddP); K_(getNetProductionRates_ddC);
        M_(fwdRatesOfProgress_ddX); M_(revRatesOfProgress_ddX); M_(netRatesOfProgress_ddX); M_(netRatesOfProgress_ddCi);
        M_(netProductionRates_ddX); M_(netProductionRates_ddCi); M_(creationRates_ddX); M_(destructionRates_ddCi);
#undef R_
#undef K_
#undef M_
        p->push_back({"multipliers", [](Sys& s, Vec& v) { for (size_t i = 0; i < s.kin->nReactions(); i++) v.push_back(s.kin->multiplier(i)); }});
        return p;
    }();
    return P;
}
inline const vector<Prop>& tranProps() {
    static const vector<Prop>& P = *[] {
        auto p = new vector<Prop>;
#define S_(n) p->push_back({#n, [](Sys& s, Vec& v) { v.push_back(s.tr->n()); }})
#define A_(n) p->push_back({#n, [](Sys& s, Vec& v) { v.resize(s.th->nSpecies()); s.tr->n(v.data()); }})
#define Q_(n) p->push_back({#n, [](Sys& s, Vec& v) { size_t k = s.th->nSpecies(); v.resize(k * k); s.tr->n(k, v.data()); }})
        S_(viscosity); S_(bulkViscosity); S_(thermalConductivity); S_(electricalConductivity);
        A_(getSpeciesViscosities); A_(getMobilities); A_(getThermalDiffCoeffs); A_(getMixDiffCoeffs);
        A_(getMixDiffCoeffsMole); A_(getMixDiffCoeffsMass);
        Q_(getBinaryDiffCoeffs); Q_(getMultiDiffCoeffs);
#undef S_
#undef A_
#undef Q_
        p->push_back({"getSpeciesFluxes", [](Sys& s, Vec& v) {
            size_t k = s.th->nSpecies();
            Vec g(k); double gt = 700;
            for (size_t i = 0; i < k; i++) g[i] = (i % 2 ? 1.0 : -1.0) * (0.1 + i);
            v.resize(k); s.tr->getSpeciesFluxes(1, &gt, k, g.data(), k, v.data()); }});
        p->push_back({"getSpeciesFluxes-isothermal", [](Sys& s, Vec& v) {
            size_t k = s.th->nSpecies();
            Vec g(k); double gt = 0;
            for (size_t i = 0; i < k; i++) g[i] = (i % 3 ? 1.0 : -1.0) * (0.2 + i);
            v.resize(k); s.tr->getSpeciesFluxes(1, &gt, k, g.data(), k, v.data()); }});
        return p;
    }();
    return P;
}
// evaluate everything; used as a digest of the observable state
inline void evalAll(Sys& s, vector<std::pair<string, Value>>& out, bool thermo = true, bool kin = true, bool tran = true) {
    if (thermo) for (auto& p : thermoProps()) out.push_back({p.name, evalProp(p, s)});
    if (kin && s.kin && s.kin->nReactions()) for (auto& p : kinProps()) out.push_back({p.name, evalProp(p, s)});
    if (tran && s.tr && s.tr->transportModel() != "none") for (auto& p : tranProps()) out.push_back({p.name, evalProp(p, s)});
}
inline uint64_t digestAll(Sys& s) {
    vector<std::pair<string, Value>> o;
    evalAll(s, o);
    uint64_t h = 1469598103934665603ull;
    for (auto& [n, v] : o) { h = sim::fnvs(n, h); h = sim::fnvs(v.err, h); h = sim::fnv(h, v.v.data(), v.v.size() * 8); }
    return h;
}
// mechanisms with kinetics and/or transport models
struct MechCase { const char* file; const char* phase; const char* transport; };
inline const vector<MechCase>& mechs() {
    static const vector<MechCase>& m = *new vector<MechCase>{
        {"h2o2.yaml", "ohmech", "mixture-averaged"},
        {"h2o2.yaml", "ohmech", "multicomponent"},
        {"h2o2.yaml", "ohmech", "unity-Lewis-number"},
        {"h2o2.yaml", "ohmech", "mixture-averaged-CK"},
        {"h2o2.yaml", "ohmech", "multicomponent-CK"},
        {"pdep-test.yaml", "", "none"},
        {"linearBurke-test.yaml", "linear-Burke_mechanism", "none"},
        {"linearBurke-test.yaml", "linear-Burke-complex", "none"},
        {"kineticsfromscratch.yaml", "", "none"},
        {"oxygen-plasma.yaml", "isotropic-electron-energy-plasma", "none"},
        {"blowers-masel.yaml", "gas", "none"},
        {"ch4_ion.yaml", "", "ionized-gas"},
        {"methane_co2.yaml", "", "high-pressure"},
        {"methane_co2.yaml", "", "high-pressure-Chung"},
        {"co2_RK_example.yaml", "", "none"},
        {"co2_PR_example.yaml", "", "none"},
        {"tsang-falloff.yaml", "", "none"},
        {"sri-falloff.yaml", "", "none"},
        {"chemically-activated-reaction.yaml", "", "none"},
        {"explicit-third-bodies.yaml", "", "none"},
        {"reaction-orders.yaml", "", "none"},
        {"explicit-reverse-rate.yaml", "", "none"},
        {"negative-order.yaml", "", "none"},
        {"liquid-water.yaml", "", "default"},
        {"air.yaml", "air", "default"},
    };
    return m;
}
struct SurfCase { const char* file; const char* phase; };
inline const vector<SurfCase>& surfs() {
    static const vector<SurfCase>& m = *new vector<SurfCase>{
        {"ptcombust-simple.yaml", "Pt_surf"},
        {"ptcombust-motzwise.yaml", "Pt_surf"},
        {"surface-phases.yaml", "Pt-surf"},
        {"surface-phases.yaml", "Pt-multi-sites"},
        {"sticking_coeff_check.yaml", "Pt_surf"},
        {"copt_covdepsurf_example.yaml", "covdep"},
        {"diamond.yaml", "diamond_100"},
        {"sofc.yaml", "metal_surface"},
        {"sofc.yaml", "oxide_surface"},
        {"methane_pox_on_pt.yaml", "Pt_surf"},
        {"blowers-masel.yaml", "Pt_surf"},
        {"kineticsfromscratch.yaml", "Pt_surf"},
        {"lithium_ion_battery.yaml", "edge_anode_electrolyte"},
    };
    return m;
}
}

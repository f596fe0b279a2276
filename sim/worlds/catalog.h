// Phases and states covering every phase model (generated once from the list of states in
// /repo/test/data/consistency-cases.yaml; the phase definitions themselves are read from /repo).
#pragma once
#include <vector>
#include <string>
struct PhaseCase { const char* label; const char* file; const char* phase; std::vector<std::string> states; };
inline const std::vector<PhaseCase>& catalog() {
    static const std::vector<PhaseCase>& c = *new std::vector<PhaseCase>{
        {"ideal-gas-h2o2", "h2o2.yaml", "", {
            R"({P: 101325, T: 300, X: {H2: 0.1, H2O2: 0.1, O2: 0.7}})",
            R"({P: 101325, T: 300, Y: {H2: 0.1, H2O2: 0.1, O2: 0.7}})",
            R"({T: 400, X: {H2: 0.1, H2O2: 0.1, O2: 0.7}, density: 5 g/cm^3})",
        }},
        {"redlich-kwong", "co2_RK_example.yaml", "", {
            R"({P: 101325, T: 300, X: {CH4: 0.2, CO2: 0.7, H2O: 0.1}})",
            R"({P: 200 bar, T: 320, X: {CH4: 0.5, CO2: 0.3, H2O: 0.2}})",
            R"({P: 200 bar, T: 600, X: {CH4: 0.2, CO2: 0.4, H2O: 0.4}})",
        }},
        {"peng-robinson", "co2_PR_example.yaml", "", {
            R"({P: 101325, T: 300, X: {CH4: 0.2, CO2: 0.7, H2O: 0.1}})",
            R"({P: 200 bar, T: 320, X: {CH4: 0.5, CO2: 0.3, H2O: 0.2}})",
            R"({P: 200 bar, T: 600, X: {CH4: 0.2, CO2: 0.4, H2O: 0.4}})",
        }},
        {"ideal-molal-solution", "thermo-models.yaml", "ideal-molal-aqueous", {
            R"({P: 101325, T: 300, molalities: {CH4(aq): 0.01, CO2(aq): 0.1, H2S(aq): 0.03}})",
            R"({P: 2 atm, T: 300, molalities: {CH4(aq): 0.1, CO2(aq): 0.1, H2S(aq): 0.01}})",
            R"({P: 5 atm, T: 340, molalities: {CH4(aq): 0.1, CO2(aq): 0.1, H2S(aq): 0.01}})",
        }},
        {"ideal-condensed-1", "thermo-models.yaml", "IdealSolidSolnPhase", {
            R"({P: 0.1 atm, T: 300, X: {sp1: 1.0}})",
            R"({P: 1 atm, T: 300, X: {sp1: 0.6, sp2: 0.4}})",
            R"({P: 0.1 atm, T: 400, X: {sp1: 0.01, sp2: 0.03, sp3: 0.94}})",
            R"({P: 2 bar, T: 500, X: {sp1: 0.1, sp2: 0.89, sp3: 0.01}})",
        }},
        {"ideal-condensed-2", "thermo-models.yaml", "IdealSolidSolnPhase2", {
            R"({P: 0.1 atm, T: 300, X: {sp1: 1.0}})",
            R"({P: 0.1 atm, T: 400, X: {sp1: 0.01, sp2: 0.03, sp3: 0.94}})",
            R"({P: 2 bar, T: 500, X: {sp1: 0.1, sp2: 0.89, sp3: 0.01}})",
        }},
        {"binary-solution-tabulated", "BinarySolutionTabulatedThermo.yaml", "anode", {
            R"({P: 1 atm, T: 300, X: {'Li[anode]': 0.3, 'V[anode]': 0.7}})",
            R"({P: 1 atm, T: 320, X: {'Li[anode]': 0.3, 'V[anode]': 0.7}})",
            R"({P: 10 atm, T: 340, X: {'Li[anode]': 0.6, 'V[anode]': 0.4}})",
            R"({P: 5 atm, T: 300, X: {'Li[anode]': 0.0, 'V[anode]': 1.0}})",
            R"({P: 1 atm, T: 300, X: {'Li[anode]': 1.0, 'V[anode]': 0.0}})",
            R"({P: 5 atm, T: 300, X: {'Li[anode]': 1e-10, 'V[anode]': 1.0}})",
            R"({P: 1 atm, T: 300, X: {'Li[anode]': 1.0, 'V[anode]': 1e-10}})",
        }},
        {"electron-cloud", "thermo-models.yaml", "Metal", {
            R"({P: 1 atm, T: 300})",
            R"({P: 1 atm, T: 400})",
            R"({P: 10 atm, T: 500})",
        }},
        {"nitrogen-purefluid", "liquidvapor.yaml", "nitrogen", {
            R"({P: 1 atm, T: 300})",
            R"({P: 1 atm, T: 70})",
            R"({P: 100 atm, T: 80})",
            R"({T: 80, density: 100 kg/m^3})",
        }},
        {"plasma", "oxygen-plasma.yaml", "discretized-electron-energy-plasma", {
            R"({P: 1 atm, T: 300, X: {E: 1e-05, O2: 1.0, O2-: 1e-05}})",
            R"({P: 1 atm, T: 300, X: {E: 1.0}})",
            R"({P: 10 atm, T: 3500, X: {E: 2e-05, O2: 1.0, O2-: 2e-05}})",
        }},
        {"debye-huckel-dilute", "debye-huckel-all.yaml", "debye-huckel-dilute", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-dilute-IAPWS", "debye-huckel-all.yaml", "debye-huckel-dilute-IAPWS", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-B-dot-ak", "debye-huckel-all.yaml", "debye-huckel-B-dot-ak", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-B-dot-ak-IAPWS", "debye-huckel-all.yaml", "debye-huckel-B-dot-ak-IAPWS", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-B-dot-a", "debye-huckel-all.yaml", "debye-huckel-B-dot-a", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-B-dot-a-IAPWS", "debye-huckel-all.yaml", "debye-huckel-B-dot-a-IAPWS", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-pitzer-beta_ij", "debye-huckel-all.yaml", "debye-huckel-pitzer-beta_ij", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-pitzer-beta_ij-IAPWS", "debye-huckel-all.yaml", "debye-huckel-pitzer-beta_ij-IAPWS", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-beta_ij", "debye-huckel-all.yaml", "debye-huckel-beta_ij", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"debye-huckel-beta_ij-IAPWS", "debye-huckel-all.yaml", "debye-huckel-beta_ij-IAPWS", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.3549, H+: 1.05e-08, H3SiO4-: 1.0231e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaH3SiO4(aq): 6.8798e-05, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06, SiO2(aq): 3.0179e-05}})",
            R"({P: 1 atm, T: 300, molalities: {Cl-: 4.1, H+: 1.05e-07, Na+: 4.1, NaCl(aq): 2.2, NaOH(aq): 0.0038836, OH-: 1.3765e-05}})",
            R"({P: 1 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-06, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 2e-05}})",
            R"({P: 20 atm, T: 320, molalities: {Cl-: 9.3549, H+: 1.05e-08, Na+: 9.3549, NaCl(aq): 0.98492, NaOH(aq): 3.8836e-06, OH-: 1.3765e-06}})",
        }},
        {"margules", "LiKCl_liquid.yaml", "", {
            R"({P: 1 atm, T: 900, X: {KCl(L): 0.2, LiCl(L): 0.8}})",
            R"({P: 10 atm, T: 1000, X: {KCl(L): 0.99, LiCl(L): 0.01}})",
            R"({P: 20 atm, T: 1400, X: {KCl(L): 2e-05, LiCl(L): 1}})",
        }},
        {"lattice", "thermo-models.yaml", "Li7Si3-interstitial", {
            R"({P: 1.0 atm, T: 725.0 K, X: {Li(i): 0.2, V(i): 0.8}})",
            R"({P: 50.0 bar, T: 825.0 K, X: {Li(i): 0.7, V(i): 0.3}})",
            R"({P: 50.0 bar, T: 925.0 K, X: {Li(i): 1.0, V(i): 0.0}})",
        }},
        {"compound-lattice", "thermo-models.yaml", "Li7Si3_and_interstitials", {
            R"({P: 1.0 atm, T: 725.0 K})",
            R"({P: 50.0 bar, T: 825.0 K})",
            R"({P: 50.0 bar, T: 825.0 K, X: {Li(i): 0.5, Li7Si3(s): 0.3, V(i): 0.2}})",
        }},
        {"fixed-stoichiometry", "thermo-models.yaml", "KCl(s)", {
            R"({P: 1 atm, T: 300})",
            R"({P: 10 atm, T: 300})",
            R"({P: 10 atm, T: 500})",
        }},
        {"ideal-surface", "surface-phases.yaml", "Pt-surf", {
            R"({P: 1 atm, T: 800, coverages: {H(s): 0.4, O(s): 0.1, Pt(s): 0.5}})",
            R"({P: 5 atm, T: 800, coverages: {H(s): 1.0}})",
            R"({P: 20 atm, T: 300, coverages: {Pt(s): 1.0}})",
            R"({P: 5 atm, T: 600, coverages: {O(s): 0.9, Pt(s): 0.1}})",
        }},
        {"ideal-edge", "surface-phases.yaml", "TPB", {
            R"({P: 1 atm, T: 300})",
            R"({P: 20 atm, T: 900})",
        }},
        {"coverage-dependent-surface", "copt_covdepsurf_example.yaml", "covdep", {
            R"({P: 1 atm, T: 700, coverages: {CO2_Pt: 0.5, C_Pt: 0.1, OC_Pt: 0.1, O_Pt: 0.3, Pt: 0.0}})",
            R"({P: 5 atm, T: 800, coverages: {CO2_Pt: 0.21, C_Pt: 0.17, OC_Pt: 0.07, O_Pt: 0.43, Pt: 0.12}})",
            R"({P: 3 atm, T: 300, coverages: {CO2_Pt: 0.08, C_Pt: 0.07, OC_Pt: 0.71, O_Pt: 0.14, Pt: 0.0}})",
            R"({P: 10 atm, T: 500, coverages: {CO2_Pt: 0.09, C_Pt: 0.81, OC_Pt: 0.0, O_Pt: 0.1, Pt: 0.0}})",
        }},
        {"liquid-water-IAPWS95", "liquidvapor.yaml", "liquid-water-IAPWS95", {
            R"({P: 1 atm, T: 300})",
            R"({P: 1 atm, T: 360})",
            R"({P: 100 atm, T: 450})",
        }},
        {"ideal-solution-VPSS-simple", "IdealSolidSolnPhaseExample.yaml", "VpssSolidSolutionExample", {
            R"({P: 1 atm, T: 300, X: {C-graph: 0.5, C2H2-graph: 0.2, H2-solute: 0.3}})",
            R"({P: 1 atm, T: 400, X: {C2H2-graph: 1.0}})",
            R"({P: 10 atm, T: 500, X: {C-graph: 0.6, H2-solute: 0.4}})",
        }},
        {"ideal-solution-VPSS-HKFT", "pdss_hkft.yaml", "", {
            R"({P: 1 atm, T: 300, X: {Cl-: 0.05, H+: 1e-07, H2O(L): 0.9, Na+: 0.05, OH-: 1e-07}})",
            R"({P: 5 atm, T: 360, X: {Cl-: 0.2, H2O(L): 0.6, Na+: 0.2}})",
            R"({P: 10 atm, T: 330, X: {Cl-: 0.05, H+: 1e-07, H2O(L): 0.9, Na+: 0.05, OH-: 1e-07}})",
            R"({P: 1 atm, T: 320, X: {Cl-: 0.05, H+: 0.04, H2O(L): 1.0, Na+: 0.01}})",
        }},
        {"Redlich-Kister-LiC6", "thermo-models.yaml", "Redlich-Kister-LiC6", {
            R"({P: 1 atm, T: 300, X: {Li(C6): 0.85, V(C6): 0.15}})",
            R"({P: 1 atm, T: 440, X: {Li(C6): 0.75, V(C6): 0.25}})",
            R"({P: 10 atm, T: 350, X: {Li(C6): 1.0, V(C6): 0.0}})",
            R"({P: 10 atm, T: 350, X: {Li(C6): 0.0, V(C6): 1.0}})",
        }},
        {"Redlich-Kister-complex", "thermo-models.yaml", "Redlich-Kister-complex", {
            R"({P: 1 atm, T: 900, X: {KCl(l): 0.85, LiCl(l): 0.15}})",
            R"({P: 10 atm, T: 950, X: {KCl(l): 0.3, LiCl(l): 0.2, NaCl(s): 0.5}})",
            R"({P: 0.1 atm, T: 950, X: {KCl(l): 0.05, LiCl(l): 0.0, NaCl(s): 0.95}})",
        }},
        {"HMW-electrolyte", "HMW_NaCl.yaml", "", {
            R"({P: 1 atm, T: 300, molalities: {Cl-: 9.4, H+: 1.05e-05, Na+: 9.4, OH-: 1e-05}})",
            R"({P: 1 atm, T: 330, molalities: {Cl-: 9.4, H+: 0.000105, Na+: 9.4, OH-: 0.0001}})",
            R"({P: 10 atm, T: 330, molalities: {Cl-: 4.8, H+: 1e-07, Na+: 5.0, OH-: 0.2}})",
        }},
    };
    return c;
}

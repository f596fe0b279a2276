From 627a4e4e2286886bac656c49733b2473bb088930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 01/39] fix: report failed writes and keep existing archives
 when saving data

Saving to YAML truncated the existing file before the new content was
serialized, mistook a file that could not be opened for reading for a missing
one (dropping its other entries), and never checked whether the data were
actually written. CSV, YamlWriter and equilibrium report output ignored write
errors as well.
---
 src/base/SolutionArray.cpp        | 21 +++++++++++++++++----
 src/base/YamlWriter.cpp           |  8 +++++++-
 src/equil/MultiPhaseEquil.cpp     |  6 +++++-
 src/equil/vcs_MultiPhaseEquil.cpp |  6 +++++-
 src/oneD/Sim1D.cpp                | 14 +++++++++++---
 5 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index dba2af8..19d34d5 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -15,6 +15,7 @@
 #include "cantera/base/utilities.h"
 #include <boost/algorithm/string.hpp>
 #include <boost/range/adaptor/reversed.hpp>
+#include <filesystem>
 #include <fstream>
 #include <sstream>
 
@@ -1063,7 +1064,7 @@ void SolutionArray::writeEntry(const string& fname, bool overwrite, const string
     }
 
     // (Most) potential exceptions have been thrown; start writing data to file
-    if (std::ifstream(fname).good()) {
+    if (std::filesystem::exists(fname)) {
         if (!overwrite) {
             throw CanteraError("SolutionArray::writeEntry",
                 "File '{}' already exists; use option 'overwrite' to replace CSV file.",
@@ -1122,6 +1123,11 @@ void SolutionArray::writeEntry(const string& fname, bool overwrite, const string
         output << to_string(line) << std::endl;
         maxLen = std::max(maxLen, line.size());
     }
+    output.close();
+    if (!output) {
+        throw CanteraError("SolutionArray::writeEntry",
+            "Failed to write output file '{}'.", fname);
+    }
 }
 
 void SolutionArray::writeEntry(const string& fname, const string& name,
@@ -1341,15 +1347,22 @@ void SolutionArray::save(const string& fname, const string& name, const string&
     if (extension == "yaml" || extension == "yml") {
         // Check for an existing file and load it if present
         AnyMap data;
-        if (std::ifstream(fname).good()) {
+        if (std::filesystem::exists(fname)) {
             data = AnyMap::fromYamlFile(fname);
         }
         writeHeader(data, name, desc, overwrite);
         writeEntry(data, name, sub, true);
 
-        // Write the output file and remove the now-outdated cached file
+        // Serialize before truncating an existing file, then write the output file and
+        // remove the now-outdated cached file
+        string text = data.toYamlString();
         std::ofstream out(fname);
-        out << data.toYamlString();
+        out << text;
+        out.close();
+        if (!out) {
+            throw CanteraError("SolutionArray::save",
+                "Failed to write output file '{}'.", fname);
+        }
         AnyMap::clearCachedFile(fname);
         return;
     }
diff --git a/src/base/YamlWriter.cpp b/src/base/YamlWriter.cpp
index 4bbda7e..590f1fb 100644
--- a/src/base/YamlWriter.cpp
+++ b/src/base/YamlWriter.cpp
@@ -188,8 +188,14 @@ string YamlWriter::toYamlString() const
 
 void YamlWriter::toYamlFile(const string& filename) const
 {
+    string text = toYamlString();
     std::ofstream out(filename);
-    out << toYamlString();
+    out << text;
+    out.close();
+    if (!out) {
+        throw CanteraError("YamlWriter::toYamlFile",
+            "Failed to write output file '{}'.", filename);
+    }
 }
 
 void YamlWriter::setUnits(const map<string, string>& units)
diff --git a/src/equil/MultiPhaseEquil.cpp b/src/equil/MultiPhaseEquil.cpp
index 0cdf7a2..bf237e1 100644
--- a/src/equil/MultiPhaseEquil.cpp
+++ b/src/equil/MultiPhaseEquil.cpp
@@ -770,7 +770,11 @@ void MultiPhaseEquil::reportCSV(const string& reportFile)
             }
         }
     }
-    fclose(FP);
+    bool failed = ferror(FP) != 0;
+    if (fclose(FP) != 0 || failed) {
+        throw CanteraError("MultiPhaseEquil::reportCSV", "Failure to write file '{}'",
+                           reportFile);
+    }
 }
 
 }
diff --git a/src/equil/vcs_MultiPhaseEquil.cpp b/src/equil/vcs_MultiPhaseEquil.cpp
index d1db46f..9c71aec 100644
--- a/src/equil/vcs_MultiPhaseEquil.cpp
+++ b/src/equil/vcs_MultiPhaseEquil.cpp
@@ -597,7 +597,11 @@ void vcs_MultiPhaseEquil::reportCSV(const string& reportFile)
             }
         }
     }
-    fclose(FP);
+    bool failed = ferror(FP) != 0;
+    if (fclose(FP) != 0 || failed) {
+        throw CanteraError("vcs_MultiPhaseEquil::reportCSV", "Failure to write file '{}'",
+                           reportFile);
+    }
 }
 
 }
diff --git a/src/oneD/Sim1D.cpp b/src/oneD/Sim1D.cpp
index 0a0ce46..dce8b32 100644
--- a/src/oneD/Sim1D.cpp
+++ b/src/oneD/Sim1D.cpp
@@ -15,6 +15,7 @@
 #include "cantera/base/SolutionArray.h"
 #include "cantera/numerics/Func1.h"
 #include <limits>
+#include <filesystem>
 #include <fstream>
 
 using namespace std;
@@ -125,7 +126,7 @@ void Sim1D::save(const string& fname, const string& name, const string& desc,
     if (extension == "yaml" || extension == "yml") {
         // Check for an existing file and load it if present
         AnyMap data;
-        if (std::ifstream(fname).good()) {
+        if (std::filesystem::exists(fname)) {
             data = AnyMap::fromYamlFile(fname);
         }
         SolutionArray::writeHeader(data, name, desc, overwrite);
@@ -135,9 +136,16 @@ void Sim1D::save(const string& fname, const string& name, const string& desc,
             arr->writeEntry(data, name, dom->id(), overwrite);
         }
 
-        // Write the output file and remove the now-outdated cached file
+        // Serialize before truncating an existing file, then write the output file and
+        // remove the now-outdated cached file
+        string text = data.toYamlString();
         std::ofstream out(fname);
-        out << data.toYamlString();
+        out << text;
+        out.close();
+        if (!out) {
+            throw CanteraError("Sim1D::save",
+                "Failed to write output file '{}'.", fname);
+        }
         AnyMap::clearCachedFile(fname);
         return;
     }
-- 
2.43.0


From 37be9496e6f8d093dcdcb01d307dea9cfc6a6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 02/39] fix: restore the solution when Sim1D::saveResidual
 fails

---
 src/oneD/Sim1D.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oneD/Sim1D.cpp b/src/oneD/Sim1D.cpp
index dce8b32..2fead8e 100644
--- a/src/oneD/Sim1D.cpp
+++ b/src/oneD/Sim1D.cpp
@@ -161,7 +161,12 @@ void Sim1D::saveResidual(const string& fname, const string& name,
     // save() function reads.
     vector<double> backup(*m_state);
     *m_state = res;
-    save(fname, name, desc, overwrite, compression);
+    try {
+        save(fname, name, desc, overwrite, compression);
+    } catch (...) {
+        *m_state = backup;
+        throw;
+    }
     *m_state = backup;
 }
 
-- 
2.43.0


From 1bf426e7c0c066d80921b3be0b0cb9b87f7bf87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 03/39] fix: cache input files only once completely loaded,
 lock cache when clearing

An exception other than CanteraError or YAML::Exception (for example
std::bad_alloc) left an empty or partial entry in the cache that later loads
returned as if it were the file's contents; clearCachedFile modified the cache
without holding its mutex.
---
 src/base/AnyMap.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 72f4526..d7d7d74 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -1816,9 +1816,8 @@ bool AnyMap::addOrderingRules(const string& objectType,
 void AnyMap::clearCachedFile(const string& filename)
 {
     string fullName = findInputFile(filename);
-    if (s_cache.count(fullName)) {
-        s_cache.erase(fullName);
-    }
+    std::unique_lock<std::mutex> lock(yaml_cache_mutex);
+    s_cache.erase(fullName);
 }
 
 AnyMap AnyMap::fromYamlString(const string& yaml) {
@@ -1868,14 +1867,13 @@ AnyMap AnyMap::fromYamlFile(const string& name, const string& parent_name)
             "on the Cantera search path.", name);
     }
 
-    // Generate an AnyMap from the YAML file and store it in the cache
-    auto& [cache_item, cache_time] = s_cache[fullName];
-    cache_time = mtime;
+    // Generate an AnyMap from the YAML file and store it in the cache once it is complete
+    AnyMap item;
     try {
         YAML::Node node = YAML::LoadFile(fullName);
-        cache_item = node.as<AnyMap>();
-        cache_item.setMetadata("filename", AnyValue(fullName));
-        cache_item.applyUnits();
+        item = node.as<AnyMap>();
+        item.setMetadata("filename", AnyValue(fullName));
+        item.applyUnits();
     } catch (YAML::Exception& err) {
         s_cache.erase(fullName);
         AnyMap fake;
@@ -1886,15 +1884,16 @@ AnyMap AnyMap::fromYamlFile(const string& name, const string& parent_name)
         s_cache.erase(fullName);
         throw;
     }
-    cache_item["__file__"] = fullName;
-    cache_item.setLoc(0, 0);
+    item["__file__"] = fullName;
+    item.setLoc(0, 0);
 
-    if (cache_item.hasKey("deprecated")) {
-        warn_deprecated(fullName, cache_item["deprecated"].asString());
+    if (item.hasKey("deprecated")) {
+        warn_deprecated(fullName, item["deprecated"].asString());
     }
 
     // Return a copy of the AnyMap
-    return cache_item;
+    s_cache.insert_or_assign(fullName, std::make_pair(item, mtime));
+    return item;
 }
 
 string AnyMap::toYamlString() const
-- 
2.43.0


From 4bac864ff8c2406885405e044de8b63aa399cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 04/39] fix: do not modify shared metadata while formatting
 input file errors

---
 src/base/AnyMap.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index d7d7d74..646daa1 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -1923,16 +1923,18 @@ void formatInputFile(fmt::memory_buffer& b, const shared_ptr<AnyMap>& metadata,
     }
 
     fmt_append(b, "|  Line |\n");
-    if (!metadata->hasKey("file-contents")) {
+    // The metadata are shared between all copies of an input file's content, which may
+    // be in use by other threads, and must not be modified here.
+    std::stringstream contents;
+    if (metadata->hasKey("file-contents")) {
+        contents << metadata->at("file-contents").asString();
+    } else {
         std::ifstream infile(findInputFile(filename));
-        std::stringstream buffer;
-        buffer << infile.rdbuf();
-        (*metadata)["file-contents"] = buffer.str();
+        contents << infile.rdbuf();
     }
     string line;
     int i = 0;
     int lastShown = -1;
-    std::stringstream contents((*metadata)["file-contents"].asString());
     while (std::getline(contents, line)) {
         if (i == lineno || i == lineno2) {
             fmt_append(b, "> {: 5d} > {}\n", i+1, line);
-- 
2.43.0


From 08bae2be2100db8b599e416bb5565cb889c8bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 05/39] fix: do not return an undefined number when parsing
 runs out of memory

---
 src/base/stringUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/stringUtils.cpp b/src/base/stringUtils.cpp
index b7f4d82..4f69401 100644
--- a/src/base/stringUtils.cpp
+++ b/src/base/stringUtils.cpp
@@ -120,9 +120,10 @@ Composition parseCompString(const string& ss, const vector<string>& names)
 
 double fpValue(const string& val)
 {
-    double rval;
+    double rval = 0.0;
     std::stringstream ss(val);
     ss.imbue(std::locale("C"));
+    ss.exceptions(std::ios::badbit); // do not hide allocation failures
     ss >> rval;
     return rval;
 }
-- 
2.43.0


From 6791c6da5628166d45870931051dfa4acf063696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:48 +0000
Subject: [PATCH 06/39] fix: report failed writes of reaction path diagram
 files in CLib

---
 src/clib/ctrpath.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/clib/ctrpath.cpp b/src/clib/ctrpath.cpp
index 3b65d44..d499028 100644
--- a/src/clib/ctrpath.cpp
+++ b/src/clib/ctrpath.cpp
@@ -24,6 +24,20 @@ template<> BuilderCabinet* BuilderCabinet::s_storage = 0;
 typedef Cabinet<Kinetics> KineticsCabinet;
 template<> KineticsCabinet* KineticsCabinet::s_storage; // defined in ct.cpp
 
+namespace {
+
+//! Close an output file and check that all output has been written. An empty name
+//! indicates that no output is requested.
+void closeOutput(ofstream& f, const string& fname)
+{
+    f.close();
+    if (!f && !fname.empty()) {
+        throw CanteraError("closeOutput", "Failed to write output file '{}'.", fname);
+    }
+}
+
+}
+
 extern "C" {
 
     int rdiag_new()
@@ -229,6 +243,7 @@ extern "C" {
             } else {
                 DiagramCabinet::at(i)->writeData(f);
             }
+            closeOutput(f, fname);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -269,6 +284,7 @@ extern "C" {
         try {
             ofstream flog(logfile);
             BuilderCabinet::at(i)->init(flog, *KineticsCabinet::at(k));
+            closeOutput(flog, logfile);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -286,6 +302,7 @@ extern "C" {
             }
             BuilderCabinet::at(i)->build(*KineticsCabinet::at(k), el, fdot,
                                          *DiagramCabinet::at(idiag), quiet);
+            closeOutput(fdot, dotfile);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
-- 
2.43.0


From 1c0a0919c37f6aeed4882a8ff9d9838bc10bd16c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:39 +0000
Subject: [PATCH 07/39] fix: kinetics: rates kept after a state change with
 equal T and density, or after an evaluation that threw

---
 include/cantera/kinetics/BulkKinetics.h  |  2 +
 include/cantera/kinetics/MultiRate.h     | 99 +++++++++++++++---------
 include/cantera/kinetics/MultiRateBase.h |  4 +
 src/kinetics/BulkKinetics.cpp            | 31 ++++++--
 src/kinetics/InterfaceKinetics.cpp       | 15 ++--
 5 files changed, 101 insertions(+), 50 deletions(-)

diff --git a/include/cantera/kinetics/BulkKinetics.h b/include/cantera/kinetics/BulkKinetics.h
index ce49978..977b08e 100644
--- a/include/cantera/kinetics/BulkKinetics.h
+++ b/include/cantera/kinetics/BulkKinetics.h
@@ -184,6 +184,8 @@ protected:
     vector<double> m_rbuf2;
     vector<double> m_kf0; //!< Forward rate constants without perturbation
     vector<double> m_sbuf0;
+    double m_electronTemp = NAN; //!< electron temperature used for #m_grt
+
     vector<double> m_state;
     vector<double> m_grt; //!< Standard chemical potentials for each species
 };
diff --git a/include/cantera/kinetics/MultiRate.h b/include/cantera/kinetics/MultiRate.h
index 48aeb1c..7d95cf5 100644
--- a/include/cantera/kinetics/MultiRate.h
+++ b/include/cantera/kinetics/MultiRate.h
@@ -65,6 +65,10 @@ public:
         m_shared.invalidateCache();
     }
 
+    void invalidateCache() override {
+        m_shared.invalidateCache();
+    }
+
     void getRateConstants(double* kf) override {
         for (auto& [iRxn, rate] : m_rxn_rates) {
             kf[iRxn] = rate.evalFromStruct(m_shared);
@@ -80,20 +84,25 @@ public:
         } else {
             // perturb conditions
             double dTinv = 1. / (m_shared.temperature * deltaT);
-            m_shared.perturbTemperature(deltaT);
-            _update();
+            try {
+                m_shared.perturbTemperature(deltaT);
+                _update();
+
+                // apply numerical derivative
+                for (auto& [iRxn, rate] : m_rxn_rates) {
+                    if (kf[iRxn] != 0.) {
+                        double k1 = rate.evalFromStruct(m_shared);
+                        rop[iRxn] *= dTinv * (k1 / kf[iRxn] - 1.);
+                    } // else not needed: derivative is already zero
+                }
 
-            // apply numerical derivative
-            for (auto& [iRxn, rate] : m_rxn_rates) {
-                if (kf[iRxn] != 0.) {
-                    double k1 = rate.evalFromStruct(m_shared);
-                    rop[iRxn] *= dTinv * (k1 / kf[iRxn] - 1.);
-                } // else not needed: derivative is already zero
+                // revert changes
+                m_shared.restore();
+                _update();
+            } catch (...) {
+                cancelPerturbation();
+                throw;
             }
-
-            // revert changes
-            m_shared.restore();
-            _update();
         }
     }
 
@@ -101,19 +110,24 @@ public:
     {
         if constexpr (has_ddP<DataType>::value) {
             double dPinv = 1. / (m_shared.pressure * deltaP);
-            m_shared.perturbPressure(deltaP);
-            _update();
+            try {
+                m_shared.perturbPressure(deltaP);
+                _update();
+
+                for (auto& [iRxn, rate] : m_rxn_rates) {
+                    if (kf[iRxn] != 0.) {
+                        double k1 = rate.evalFromStruct(m_shared);
+                        rop[iRxn] *= dPinv * (k1 / kf[iRxn] - 1.);
+                    } // else not needed: derivative is already zero
+                }
 
-            for (auto& [iRxn, rate] : m_rxn_rates) {
-                if (kf[iRxn] != 0.) {
-                    double k1 = rate.evalFromStruct(m_shared);
-                    rop[iRxn] *= dPinv * (k1 / kf[iRxn] - 1.);
-                } // else not needed: derivative is already zero
+                // revert changes
+                m_shared.restore();
+                _update();
+            } catch (...) {
+                cancelPerturbation();
+                throw;
             }
-
-            // revert changes
-            m_shared.restore();
-            _update();
         } else {
             for (const auto& [iRxn, rate] : m_rxn_rates) {
                 rop[iRxn] = 0.;
@@ -126,22 +140,27 @@ public:
     {
         if constexpr (has_ddM<DataType>::value) {
             double dMinv = 1. / deltaM;
-            m_shared.perturbThirdBodies(deltaM);
-            _update();
-
-            for (auto& [iRxn, rate] : m_rxn_rates) {
-                if (kf[iRxn] != 0. && m_shared.conc_3b[iRxn] > 0.) {
-                    double k1 = rate.evalFromStruct(m_shared);
-                    rop[iRxn] *= dMinv * (k1 / kf[iRxn] - 1.);
-                    rop[iRxn] /= m_shared.conc_3b[iRxn];
-                } else {
-                    rop[iRxn] = 0.;
+            try {
+                m_shared.perturbThirdBodies(deltaM);
+                _update();
+
+                for (auto& [iRxn, rate] : m_rxn_rates) {
+                    if (kf[iRxn] != 0. && m_shared.conc_3b[iRxn] > 0.) {
+                        double k1 = rate.evalFromStruct(m_shared);
+                        rop[iRxn] *= dMinv * (k1 / kf[iRxn] - 1.);
+                        rop[iRxn] /= m_shared.conc_3b[iRxn];
+                    } else {
+                        rop[iRxn] = 0.;
+                    }
                 }
-            }
 
-            // revert changes
-            m_shared.restore();
-            _update();
+                // revert changes
+                m_shared.restore();
+                _update();
+            } catch (...) {
+                cancelPerturbation();
+                throw;
+            }
         } else {
             if (!overwrite) {
                 // do not overwrite existing entries
@@ -193,6 +212,12 @@ public:
     }
 
 protected:
+    //! Remove a perturbation after a failure; rates are evaluated again when next used
+    void cancelPerturbation() {
+        m_shared.restore();
+        m_shared.invalidateCache();
+    }
+
     //! Helper function to process updates
     void _update() {
         if constexpr (has_update<RateType>::value) {
diff --git a/include/cantera/kinetics/MultiRateBase.h b/include/cantera/kinetics/MultiRateBase.h
index 33d4182..2156d44 100644
--- a/include/cantera/kinetics/MultiRateBase.h
+++ b/include/cantera/kinetics/MultiRateBase.h
@@ -48,6 +48,10 @@ public:
     //! @param nPhases  number of phases
     virtual void resize(size_t nSpecies, size_t nReactions, size_t nPhases) = 0;
 
+    //! Force all rates to be evaluated at the next update, for example after an
+    //! evaluation was interrupted by an exception
+    virtual void invalidateCache() {}
+
     //! Evaluate all rate constants handled by the evaluator
     //! @param kf  array of rate constants
     virtual void getRateConstants(double* kf) = 0;
diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 0b6ce9b..7d77a25 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -461,9 +461,12 @@ void BulkKinetics::updateROP()
     double T = thermo().temperature();
     double rho = thermo().density();
     int statenum = thermo().stateMFNumber();
+    double Te = thermo().electronTemperature();
 
-    if (last.state1 != T || last.state2 != rho) {
-        // Update properties that are independent of the composition
+    if (last.state1 != T || last.state2 != rho || last.stateNum != statenum
+        || m_electronTemp != Te) {
+        // Update properties that depend on temperature, electron temperature and
+        // pressure. A composition change at constant density also changes the pressure.
         thermo().getStandardChemPotentials(m_grt.data());
         fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
         double logStandConc = log(thermo().standardConcentration());
@@ -481,6 +484,8 @@ void BulkKinetics::updateROP()
         for (size_t i = 0; i != m_irrev.size(); ++i) {
             m_rkcn[ m_irrev[i] ] = 0.0;
         }
+        m_electronTemp = Te;
+        m_ROP_ok = false;
     }
 
     if (!last.validate(T, rho, statenum)) {
@@ -496,10 +501,15 @@ void BulkKinetics::updateROP()
 
     // loop over MultiRate evaluators for each reaction type
     for (auto& rates : m_bulk_rates) {
-        bool changed = rates->update(thermo(), *this);
-        if (changed) {
-            rates->getRateConstants(m_kf0.data());
-            m_ROP_ok = false;
+        try {
+            bool changed = rates->update(thermo(), *this);
+            if (changed) {
+                m_ROP_ok = false;
+                rates->getRateConstants(m_kf0.data());
+            }
+        } catch (...) {
+            rates->invalidateCache();
+            throw;
         }
     }
 
@@ -574,8 +584,13 @@ void BulkKinetics::applyEquilibriumConstants_ddT(double* drkcn)
 
     // compute perturbed Delta G^0 for all reversible reactions
     thermo().saveState(m_state);
-    thermo().setState_TP(T * (1. + m_jac_rtol_delta), P);
-    thermo().getStandardChemPotentials(grt.data());
+    try {
+        thermo().setState_TP(T * (1. + m_jac_rtol_delta), P);
+        thermo().getStandardChemPotentials(grt.data());
+    } catch (...) {
+        thermo().restoreState(m_state);
+        throw;
+    }
     getRevReactionDelta(grt.data(), delta_gibbs0.data());
 
     // apply scaling for derivative of inverse equilibrium constant
diff --git a/src/kinetics/InterfaceKinetics.cpp b/src/kinetics/InterfaceKinetics.cpp
index 3d6c3e1..2556e89 100644
--- a/src/kinetics/InterfaceKinetics.cpp
+++ b/src/kinetics/InterfaceKinetics.cpp
@@ -65,11 +65,16 @@ void InterfaceKinetics::_update_rates_T()
 
     // loop over interface MultiRate evaluators for each reaction type
     for (auto& rates : m_interfaceRates) {
-        bool changed = rates->update(thermo(0), *this);
-        if (changed) {
-            rates->getRateConstants(m_rfn.data());
-            m_ROP_ok = false;
-            m_redo_rates = true;
+        try {
+            bool changed = rates->update(thermo(0), *this);
+            if (changed) {
+                m_ROP_ok = false;
+                m_redo_rates = true;
+                rates->getRateConstants(m_rfn.data());
+            }
+        } catch (...) {
+            rates->invalidateCache();
+            throw;
         }
     }
 
-- 
2.43.0


From 1f579ada2f98b9e97981470865ad769dfcb56dc4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:39 +0000
Subject: [PATCH 08/39] fix: SurfPhase: uninitialised log site density cached
 at construction

---
 include/cantera/thermo/SurfPhase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cantera/thermo/SurfPhase.h b/include/cantera/thermo/SurfPhase.h
index 7d4aa4b..6022bc4 100644
--- a/include/cantera/thermo/SurfPhase.h
+++ b/include/cantera/thermo/SurfPhase.h
@@ -314,7 +314,7 @@ protected:
     vector<double> m_speciesSize;
 
     //! log of the surface site density
-    double m_logn0;
+    double m_logn0 = 0.0;
 
     //! Current value of the pressure (Pa)
     double m_press = OneAtm;
-- 
2.43.0


From 106e8d083ef8d8ec547a093696b3d801e9e1c0c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:39 +0000
Subject: [PATCH 09/39] fix: MultiTransport: fluxes and conductivity evaluated
 with values of another state

---
 include/cantera/transport/MultiTransport.h |  9 ++++++++
 src/transport/MultiTransport.cpp           | 24 ++++++++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/cantera/transport/MultiTransport.h b/include/cantera/transport/MultiTransport.h
index 937813b..7491140 100644
--- a/include/cantera/transport/MultiTransport.h
+++ b/include/cantera/transport/MultiTransport.h
@@ -135,6 +135,15 @@ protected:
     vector<double> m_frot_298;
     vector<double> m_rotrelax;
 
+    //! Self-diffusion coefficients at unit pressure, used to evaluate the thermal
+    //! properties in place of the diagonal of the binary diffusion coefficients
+    vector<double> m_selfdiff;
+
+    //! Diffusion coefficient at unit pressure as used for the thermal properties
+    double thermalDiff(size_t i, size_t j) const {
+        return (i == j) ? m_selfdiff[i] : m_bdiff(i,j);
+    }
+
     double m_lambda;
 
     // L matrix quantities
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index fb98f4e..23b07a1 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -46,6 +46,7 @@ void MultiTransport::init(ThermoPhase* thermo, int mode)
     m_molefracs_last.resize(m_nsp, -1.0);
     m_frot_298.resize(m_nsp);
     m_rotrelax.resize(m_nsp);
+    m_selfdiff.resize(m_nsp);
     m_cinternal.resize(m_nsp);
     m_astar.resize(m_nsp, m_nsp);
     m_bstar.resize(m_nsp, m_nsp);
@@ -175,8 +176,9 @@ void MultiTransport::getSpeciesFluxes(size_t ndim, const double* const grad_T,
                                       size_t ldx, const double* const grad_X,
                                       size_t ldf, double* const fluxes)
 {
-    // update the binary diffusion coefficients if necessary
+    // update the mole fractions and the binary diffusion coefficients if necessary
     update_T();
+    update_C();
     updateDiff_T();
 
     // If any component of grad_T is non-zero, then get the
@@ -421,12 +423,18 @@ void MultiTransport::update_C()
 
 void MultiTransport::updateThermal_T()
 {
+    // Species viscosities and binary diffusion coefficients are needed. They may have
+    // been evaluated at another temperature in between.
+    update_T();
+    if (!m_spvisc_ok) {
+        updateSpeciesViscosities();
+    }
+    if (!m_bindiff_ok) {
+        updateDiff_T();
+    }
     if (m_thermal_tlast == m_thermo->temperature()) {
         return;
     }
-    // we need species viscosities and binary diffusion coefficients
-    updateSpeciesViscosities();
-    updateDiff_T();
 
     // evaluate polynomial fits for A*, B*, C*
     for (size_t i = 0; i < m_nsp; i++) {
@@ -457,7 +465,7 @@ void MultiTransport::updateThermal_T()
 
     double c = 1.2*GasConstant*m_temp;
     for (size_t k = 0; k < m_nsp; k++) {
-        m_bdiff(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
+        m_selfdiff[k] = c * m_visc[k] * m_astar(k,k)/m_mw[k];
     }
 
     // Calculate the internal heat capacities by subtracting off the translational contributions
@@ -553,7 +561,7 @@ void MultiTransport::eval_L1010(const double* x)
         double sum = 0.0;
         for (size_t i = 0; i < m_nsp; i++) {
             double sumwij = m_mw[i] + m_mw[j];
-            double term1 = m_bdiff(i,j) * sumwij*sumwij;
+            double term1 = thermalDiff(i,j) * sumwij*sumwij;
             double term2 = fourmj*m_astar(i,j)*(1.0 + fiveover3pi*
                 (constant3 + (m_crot[i]/m_rotrelax[i]))); //  see Eq. (12.125)
 
@@ -581,7 +589,7 @@ void MultiTransport::eval_L1001(const double* x)
             for (size_t i = 0; i < m_nsp; i++) {
                 // see Eq. (12.127)
                 m_Lmatrix(i+m_nsp,j+2*m_nsp) = constant * m_astar(j,i) * x[i] /
-                                          ((m_mw[j] + m_mw[i]) * m_bdiff(j,i));
+                                          ((m_mw[j] + m_mw[i]) * thermalDiff(j,i));
                 sum += m_Lmatrix(i+m_nsp,j+2*m_nsp);
             }
             m_Lmatrix(j+m_nsp,j+2*m_nsp) += sum;
@@ -631,7 +639,7 @@ void MultiTransport::eval_L0101(const double* x)
             double sum = 0.0;
             for (size_t k = 0; k < m_nsp; k++) {
                 // see Eq. (12.131)
-                double diff_int = m_bdiff(i,k);
+                double diff_int = thermalDiff(i,k);
                 m_Lmatrix(k+2*m_nsp,i+2*m_nsp) = 0.0;
                 sum += x[k]/diff_int;
                 if (k != i) {
-- 
2.43.0


From 7fb596df9b897a84ea92beed687a5dbde0393d48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:39 +0000
Subject: [PATCH 10/39] fix: CoverageDependentSurfPhase: own temperature cache
 for coverage-dependent terms

---
 include/cantera/thermo/CoverageDependentSurfPhase.h | 4 ++++
 src/thermo/CoverageDependentSurfPhase.cpp           | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/CoverageDependentSurfPhase.h b/include/cantera/thermo/CoverageDependentSurfPhase.h
index 8836200..1f965f3 100644
--- a/include/cantera/thermo/CoverageDependentSurfPhase.h
+++ b/include/cantera/thermo/CoverageDependentSurfPhase.h
@@ -427,6 +427,10 @@ private:
     //! Last value of the state number processed.
     mutable int m_stateNumlast;
 
+    //! Temperature for which the coverage-dependent properties were last evaluated.
+    //! Kept separately from #m_tlast, which only refers to the reference state.
+    mutable double m_covTlast = -1.0;
+
     //! Update the species coverage-dependent thermodynamic functions.
     /*!
      * The coverage-dependent enthalpy and entropy are only re-evaluated
diff --git a/src/thermo/CoverageDependentSurfPhase.cpp b/src/thermo/CoverageDependentSurfPhase.cpp
index b942c39..e7f0e10 100644
--- a/src/thermo/CoverageDependentSurfPhase.cpp
+++ b/src/thermo/CoverageDependentSurfPhase.cpp
@@ -457,7 +457,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
 {
     int stateNumnow = stateMFNumber();
     double tnow = temperature();
-    if (m_stateNumlast != stateNumnow || m_tlast != tnow) {
+    if (m_stateNumlast != stateNumnow || m_covTlast != tnow) {
         for (size_t k = 0; k < m_kk; k++) {
             m_h_cov[k] = 0.0;
             m_s_cov[k] = 0.0;
@@ -524,6 +524,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
             m_mu_cov[k] = m_h_cov[k] - tnow * m_s_cov[k];
         }
         m_stateNumlast = stateNumnow;
+        m_covTlast = tnow;
     }
 }
 
-- 
2.43.0


From befb0cd2d882e6bb476e9e09e7a538966f853623 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 11/39] fix: DebyeHuckel: standard concentration from an
 outdated solvent volume

---
 src/thermo/DebyeHuckel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/thermo/DebyeHuckel.cpp b/src/thermo/DebyeHuckel.cpp
index c96d9fc..90f7956 100644
--- a/src/thermo/DebyeHuckel.cpp
+++ b/src/thermo/DebyeHuckel.cpp
@@ -68,8 +68,9 @@ void DebyeHuckel::getActivityConcentrations(double* c) const
 
 double DebyeHuckel::standardConcentration(size_t k) const
 {
-    double mvSolvent = providePDSS(0)->molarVolume();
-    return 1.0 / mvSolvent;
+    // Use the stored standard state volumes. The state of the water PDSS object itself
+    // is modified while evaluating the Debye-Hueckel coefficients.
+    return 1.0 / getStandardVolumes()[0];
 }
 
 void DebyeHuckel::getActivities(double* ac) const
-- 
2.43.0


From 5b4686e0e0ede651cde04c9c4fca7d819cdcb292 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 12/39] fix: WaterSSTP: reads at reference state did not
 restore the state exactly

---
 src/thermo/WaterSSTP.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/thermo/WaterSSTP.cpp b/src/thermo/WaterSSTP.cpp
index cf8f09c..60d90d4 100644
--- a/src/thermo/WaterSSTP.cpp
+++ b/src/thermo/WaterSSTP.cpp
@@ -130,7 +130,6 @@ double WaterSSTP::cv_mole() const
 
 void WaterSSTP::getEnthalpy_RT_ref(double* hrt) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -140,16 +139,16 @@ void WaterSSTP::getEnthalpy_RT_ref(double* hrt) const
     }
     double dd = m_sub.density(T, OneAtm, waterState, dens);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getEnthalpy_RT_ref", "error");
     }
     double h = m_sub.enthalpy_mass() * m_mw;
     *hrt = (h + EW_Offset) / RT();
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 void WaterSSTP::getGibbs_RT_ref(double* grt) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -159,12 +158,13 @@ void WaterSSTP::getGibbs_RT_ref(double* grt) const
     }
     double dd = m_sub.density(T, OneAtm, waterState, dens);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getGibbs_RT_ref", "error");
     }
     m_sub.setState_TD(T, dd);
     double g = m_sub.gibbs_mass() * m_mw;
     *grt = (g + EW_Offset - SW_Offset*T)/ RT();
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 void WaterSSTP::getGibbs_ref(double* g) const
@@ -177,7 +177,6 @@ void WaterSSTP::getGibbs_ref(double* g) const
 
 void WaterSSTP::getEntropy_R_ref(double* sr) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -188,18 +187,18 @@ void WaterSSTP::getEntropy_R_ref(double* sr) const
     double dd = m_sub.density(T, OneAtm, waterState, dens);
 
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getEntropy_R_ref", "error");
     }
     m_sub.setState_TD(T, dd);
 
     double s = m_sub.entropy_mass() * m_mw;
     *sr = (s + SW_Offset)/ GasConstant;
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 void WaterSSTP::getCp_R_ref(double* cpr) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -208,18 +207,18 @@ void WaterSSTP::getCp_R_ref(double* cpr) const
         waterState = WATER_LIQUID;
     }
     double dd = m_sub.density(T, OneAtm, waterState, dens);
-    m_sub.setState_TD(T, dd);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getCp_R_ref", "error");
     }
+    m_sub.setState_TD(T, dd);
     double cp = m_sub.cp_mass() * m_mw;
     *cpr = cp / GasConstant;
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 void WaterSSTP::getStandardVolumes_ref(double* vol) const
 {
-    double p = pressure();
     double T = temperature();
     double dens = density();
     int waterState = WATER_GAS;
@@ -229,10 +228,11 @@ void WaterSSTP::getStandardVolumes_ref(double* vol) const
     }
     double dd = m_sub.density(T, OneAtm, waterState, dens);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, dens);
         throw CanteraError("WaterSSTP::getStandardVolumes_ref", "error");
     }
     *vol = meanMolecularWeight() /dd;
-    dd = m_sub.density(T, p, waterState, dens);
+    m_sub.setState_TD(T, dens);
 }
 
 double WaterSSTP::pressure() const
@@ -251,6 +251,7 @@ void WaterSSTP::setPressure(double p)
             waterState = WATER_LIQUID;
             dens = 1000.;
         } else if (!m_allowGasPhase) {
+            m_sub.setState_TD(T, density());
             throw CanteraError("WaterSSTP::setPressure",
                 "Model assumes liquid phase; pressure p = {} lies below\n"
                 "the saturation pressure (P_sat = {}).", p, pp);
@@ -259,6 +260,7 @@ void WaterSSTP::setPressure(double p)
 
     double dd = m_sub.density(T, p, waterState, dens);
     if (dd <= 0.0) {
+        m_sub.setState_TD(T, density());
         throw CanteraError("WaterSSTP::setPressure", "Error");
     }
     setDensity(dd);
@@ -282,6 +284,7 @@ double WaterSSTP::dthermalExpansionCoeffdT() const
     double tt = T - 0.04;
     double dd = m_sub.density(tt, pres, WATER_LIQUID, dens_save);
     if (dd < 0.0) {
+        m_sub.setState_TD(T, dens_save);
         throw CanteraError("WaterSSTP::dthermalExpansionCoeffdT",
             "Unable to solve for the density at T = {}, P = {}", tt, pres);
     }
-- 
2.43.0


From 2dca7b60dd2418894090c6a224b7e18675399dd8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 13/39] fix: VPStandardStateTP: density not updated after a
 composition change

---
 include/cantera/thermo/VPStandardStateTP.h |  2 ++
 src/thermo/GibbsExcessVPSSTP.cpp           |  2 +-
 src/thermo/VPStandardStateTP.cpp           | 10 ++++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/VPStandardStateTP.h b/include/cantera/thermo/VPStandardStateTP.h
index 4070376..e140d90 100644
--- a/include/cantera/thermo/VPStandardStateTP.h
+++ b/include/cantera/thermo/VPStandardStateTP.h
@@ -162,6 +162,8 @@ protected:
      */
     virtual void calcDensity();
 
+    void compositionChanged() override;
+
     //! Updates the standard state thermodynamic functions at the current T and
     //! P of the solution.
     /*!
diff --git a/src/thermo/GibbsExcessVPSSTP.cpp b/src/thermo/GibbsExcessVPSSTP.cpp
index 8c625b1..7ebf08c 100644
--- a/src/thermo/GibbsExcessVPSSTP.cpp
+++ b/src/thermo/GibbsExcessVPSSTP.cpp
@@ -23,8 +23,8 @@ namespace Cantera
 
 void GibbsExcessVPSSTP::compositionChanged()
 {
-    Phase::compositionChanged();
     getMoleFractions(moleFractions_.data());
+    VPStandardStateTP::compositionChanged();
 }
 
 // ------------ Mechanical Properties ------------------------------
diff --git a/src/thermo/VPStandardStateTP.cpp b/src/thermo/VPStandardStateTP.cpp
index 37d7e19..8e897ac 100644
--- a/src/thermo/VPStandardStateTP.cpp
+++ b/src/thermo/VPStandardStateTP.cpp
@@ -204,6 +204,16 @@ void VPStandardStateTP::calcDensity()
     Phase::assignDensity(dd);
 }
 
+void VPStandardStateTP::compositionChanged()
+{
+    ThermoPhase::compositionChanged();
+    // The density depends on T, P and the composition. Before the first evaluation of
+    // the standard states, there is no state for which it could be calculated.
+    if (m_Tlast_ss > 0.0) {
+        calcDensity();
+    }
+}
+
 void VPStandardStateTP::setState_TP(double t, double pres)
 {
     // A pretty tricky algorithm is needed here, due to problems involving
-- 
2.43.0


From 95635a110376d730a0ee13dd810564d242b4e942 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 14/39] fix: tpx: a property read that throws left the
 substance at another state

---
 include/cantera/tpx/Sub.h | 27 +++++++++++++++++++++++++++
 src/tpx/Sub.cpp           | 19 +++++++++----------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/include/cantera/tpx/Sub.h b/include/cantera/tpx/Sub.h
index 4df2e1d..a39e6ec 100644
--- a/include/cantera/tpx/Sub.h
+++ b/include/cantera/tpx/Sub.h
@@ -173,6 +173,33 @@ public:
     //! second property.
     void Set(PropertyPair::type XY, double x0, double y0);
 
+    //! Restores temperature and density at the end of a calculation that changes them
+    //! temporarily, including when that calculation is abandoned by an exception.
+    class StateGuard
+    {
+    public:
+        explicit StateGuard(Substance& sub) : m_sub(sub), m_T(sub.T), m_rho(sub.Rho) {}
+        ~StateGuard() {
+            if (m_active) {
+                m_sub.T = m_T;
+                m_sub.Rho = m_rho;
+            }
+        }
+        StateGuard(const StateGuard&) = delete;
+        StateGuard& operator=(const StateGuard&) = delete;
+
+        //! Keep the state reached by the calculation
+        void release() {
+            m_active = false;
+        }
+
+    private:
+        Substance& m_sub;
+        double m_T;
+        double m_rho;
+        bool m_active = true;
+    };
+
 protected:
     double T = Undef;
     double Rho = Undef;
diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index b9c9ea8..93e8d12 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -48,6 +48,7 @@ double Substance::cv()
         return std::numeric_limits<double>::quiet_NaN();
     }
 
+    StateGuard guard(*this);
     double Tsave = T, dt = 1.e-4 * T;
     double x0 = x();
     double T1 = std::max(Tmin(), Tsave - dt);
@@ -84,6 +85,7 @@ double Substance::cp()
         return std::numeric_limits<double>::infinity();
     }
 
+    StateGuard guard(*this);
     double Tsave = T, dt = 1.e-4 * T;
     double RhoSave = Rho;
     double T1, T2, s1, s2;
@@ -137,6 +139,7 @@ double Substance::thermalExpansionCoeff()
         return std::numeric_limits<double>::infinity();
     }
 
+    StateGuard guard(*this);
     double Tsave = T, dt = 1.e-4 * T;
     double RhoSave = Rho;
     double T1, T2, v1, v2;
@@ -189,6 +192,7 @@ double Substance::isothermalCompressibility()
         return std::numeric_limits<double>::infinity();
     }
 
+    StateGuard guard(*this);
     double Psave = P(), dp = 1.e-4 * Psave;
     double RhoSave = Rho;
     double P1, P2, v1, v2;
@@ -232,6 +236,7 @@ double Substance::isothermalCompressibility()
 
 double Substance::dPsdT()
 {
+    StateGuard guard(*this);
     double tsave = T;
     double ps1 = Ps();
     double dpdt;
@@ -279,7 +284,6 @@ double Substance::x()
 
 double Substance::Tsat(double p)
 {
-    double Tsave = T;
     if (p <= 0. || p > Pcrit()) {
         // @todo: this check should also fail below the triple point pressure
         // (calculated as Ps() for Tmin() as it is not available as a numerical
@@ -290,9 +294,7 @@ double Substance::Tsat(double p)
         throw CanteraError("Substance::Tsat",
                            "Illegal pressure value: {}", p);
     }
-    T = Tsave;
-    Tsave = T;
-
+    StateGuard guard(*this);
     int LoopCount = 0;
     double tol = 1.e-6*p;
     if (T < Tmin() || T > Tcrit()) {
@@ -312,13 +314,10 @@ double Substance::Tsat(double p)
         T += dt;
         LoopCount++;
         if (LoopCount > 100) {
-            T = Tsave;
             throw CanteraError("Substance::Tsat", "No convergence: p = {}", p);
         }
     }
-    double tsat = T;
-    T = Tsave;
-    return tsat;
+    return T;
 }
 
 // property tolerances
@@ -495,7 +494,8 @@ double Substance::Ps()
 void Substance::update_sat()
 {
     if (T != Tslast) {
-        double Rho_save = Rho;
+        StateGuard guard(*this);
+        Tslast = Undef; // values are invalid if the iteration is abandoned
         double pp = Psat(); // illegal temperatures are caught by Psat()
         double lps = log(pp);
         // trial value = Psat from correlation
@@ -552,7 +552,6 @@ void Substance::update_sat()
             Pst = pp;
             Tslast = T;
         }
-        Rho = Rho_save;
     }
 }
 
-- 
2.43.0


From 7955628f9e27acdc4109c4a37622d79fe8426668 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 15/39] fix: PureFluidPhase: reads and refused state changes
 left the substance at another state

---
 src/thermo/PureFluidPhase.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/thermo/PureFluidPhase.cpp b/src/thermo/PureFluidPhase.cpp
index 3e45009..a03ce52 100644
--- a/src/thermo/PureFluidPhase.cpp
+++ b/src/thermo/PureFluidPhase.cpp
@@ -131,19 +131,21 @@ void PureFluidPhase::setPressure(double p)
 
 void PureFluidPhase::setTemperature(double T)
 {
-    ThermoPhase::setTemperature(T);
     Set(tpx::PropertyPair::TV, T, m_sub->v());
+    ThermoPhase::setTemperature(T);
 }
 
 void PureFluidPhase::setDensity(double rho)
 {
-    ThermoPhase::setDensity(rho);
     Set(tpx::PropertyPair::TV, m_sub->Temp(), 1.0/rho);
+    ThermoPhase::setDensity(rho);
 }
 
 void PureFluidPhase::Set(tpx::PropertyPair::type n, double x, double y) const
 {
+    tpx::Substance::StateGuard guard(*m_sub);
     m_sub->Set(n, x, y);
+    guard.release();
 }
 
 double PureFluidPhase::isothermalCompressibility() const
@@ -228,25 +230,22 @@ void PureFluidPhase::getGibbs_RT(double* grt) const
 
 void PureFluidPhase::getEnthalpy_RT_ref(double* hrt) const
 {
-    double rhoSave = density();
+    tpx::Substance::StateGuard guard(*m_sub);
     double t = temperature();
     double plow = 1.0E-8;
     Set(tpx::PropertyPair::TP, t, plow);
     getEnthalpy_RT(hrt);
-    Set(tpx::PropertyPair::TV, t, 1 / rhoSave);
-
 }
 
 void PureFluidPhase::getGibbs_RT_ref(double* grt) const
 {
-    double rhoSave = density();
+    tpx::Substance::StateGuard guard(*m_sub);
     double t = temperature();
     double pref = refPressure();
     double plow = 1.0E-8;
     Set(tpx::PropertyPair::TP, t, plow);
     getGibbs_RT(grt);
     grt[0] += log(pref/plow);
-    Set(tpx::PropertyPair::TV, t, 1 / rhoSave);
 }
 
 void PureFluidPhase::getGibbs_ref(double* g) const
@@ -257,14 +256,13 @@ void PureFluidPhase::getGibbs_ref(double* g) const
 
 void PureFluidPhase::getEntropy_R_ref(double* er) const
 {
-    double rhoSave = density();
+    tpx::Substance::StateGuard guard(*m_sub);
     double t = temperature();
     double pref = refPressure();
     double plow = 1.0E-8;
     Set(tpx::PropertyPair::TP, t, plow);
     getEntropy_R(er);
     er[0] -= log(pref/plow);
-    Set(tpx::PropertyPair::TV, t, 1 / rhoSave);
 }
 
 double PureFluidPhase::critTemperature() const
@@ -360,6 +358,7 @@ void PureFluidPhase::setState_SH(double s, double h, double tol)
 
 double PureFluidPhase::satPressure(double t)
 {
+    tpx::Substance::StateGuard guard(*m_sub);
     Set(tpx::PropertyPair::TV, t, m_sub->v());
     return m_sub->Ps();
 }
-- 
2.43.0


From c74d489fc1b0f62371110cb9b5814d408372ab0c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 16/39] fix: MixtureFugacityTP: satPressure changed the state
 of the phase

---
 src/thermo/MixtureFugacityTP.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/thermo/MixtureFugacityTP.cpp b/src/thermo/MixtureFugacityTP.cpp
index 39c1697..081ace2 100644
--- a/src/thermo/MixtureFugacityTP.cpp
+++ b/src/thermo/MixtureFugacityTP.cpp
@@ -520,7 +520,23 @@ double MixtureFugacityTP::satPressure(double TKelvin)
 {
     double molarVolGas;
     double molarVolLiquid;
-    return calculatePsat(TKelvin, molarVolGas, molarVolLiquid);
+    // calculatePsat() works on the current state, which has to be put back
+    double tempSave = temperature();
+    double densSave = density();
+    int stateSave = iState_;
+    auto restore = [&]() {
+        setState_TD(tempSave, densSave);
+        iState_ = stateSave;
+    };
+    double psat;
+    try {
+        psat = calculatePsat(TKelvin, molarVolGas, molarVolLiquid);
+    } catch (...) {
+        restore();
+        throw;
+    }
+    restore();
+    return psat;
 }
 
 double MixtureFugacityTP::calculatePsat(double TKelvin, double& molarVolGas,
-- 
2.43.0


From 9421e57e911bd7ed93d9eec3cc644600ae0ccc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 17/39] fix: AnyMap: order of items with equal sort keys
 depended on memory addresses

---
 src/base/AnyMap.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 646daa1..ab002ec 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -1662,7 +1662,11 @@ AnyMap::OrderedProxy::OrderedProxy(const AnyMap& data, bool withUnits)
         }
         m_ordered.emplace_back(order, &item);
     }
-    std::sort(m_ordered.begin(), m_ordered.end());
+    // Items with the same sort key are ordered by name
+    auto before = [](const OrderVector::value_type& a, const OrderVector::value_type& b) {
+        return a.first != b.first ? a.first < b.first : a.second->first < b.second->first;
+    };
+    std::sort(m_ordered.begin(), m_ordered.end(), before);
 
     // Adjust sort keys for items that should moved to the beginning or end of
     // the list
@@ -1702,7 +1706,7 @@ AnyMap::OrderedProxy::OrderedProxy(const AnyMap& data, bool withUnits)
         }
 
         if (order_changed) {
-            std::sort(m_ordered.begin(), m_ordered.end());
+            std::sort(m_ordered.begin(), m_ordered.end(), before);
         }
     }
 }
-- 
2.43.0


From bb2487418c454967ff305e50bf683352417b57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:02 +0000
Subject: [PATCH 18/39] fix: factories whose construction failed stayed
 registered; unsynchronised registry

---
 include/cantera/base/FactoryBase.h | 17 +++++++++++++++--
 src/base/global.cpp                |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/cantera/base/FactoryBase.h b/include/cantera/base/FactoryBase.h
index 939faa4..6bf2fce 100644
--- a/include/cantera/base/FactoryBase.h
+++ b/include/cantera/base/FactoryBase.h
@@ -9,6 +9,7 @@
 #ifndef CT_FACTORY_BASE
 #define CT_FACTORY_BASE
 
+#include <algorithm>
 #include <mutex>
 #include <unordered_map>
 #include "cantera/base/ctexceptions.h"
@@ -28,15 +29,22 @@ public:
 
     //! destructor
     virtual ~FactoryBase() {
+        std::unique_lock<std::mutex> lock(s_registryMutex);
+        s_vFactoryRegistry.erase(std::remove(s_vFactoryRegistry.begin(),
+            s_vFactoryRegistry.end(), this), s_vFactoryRegistry.end());
     }
 
     //! static function that deletes all factories in the internal registry
     //! maintained in a static variable
     static void deleteFactories() {
-        for (const auto& f : s_vFactoryRegistry) {
+        vector<FactoryBase*> factories;
+        {
+            std::unique_lock<std::mutex> lock(s_registryMutex);
+            factories.swap(s_vFactoryRegistry);
+        }
+        for (const auto& f : factories) {
             f->deleteFactory();
         }
-        s_vFactoryRegistry.clear();
     }
 
 protected:
@@ -46,6 +54,7 @@ protected:
      * Adds the current object to the current static list
      */
     FactoryBase() {
+        std::unique_lock<std::mutex> lock(s_registryMutex);
         s_vFactoryRegistry.push_back(this);
     }
 
@@ -58,6 +67,10 @@ protected:
 private:
     //! statically held list of Factories.
     static vector<FactoryBase*> s_vFactoryRegistry;
+
+    //! Protects the registry, as factories of different types are created under
+    //! different mutexes.
+    static std::mutex s_registryMutex;
 };
 
 //! Factory class that supports registering functions to create objects
diff --git a/src/base/global.cpp b/src/base/global.cpp
index 9d9e1de..194e735 100644
--- a/src/base/global.cpp
+++ b/src/base/global.cpp
@@ -208,6 +208,7 @@ bool usesHDF5()
 #endif
 }
 
+std::mutex FactoryBase::s_registryMutex;
 vector<FactoryBase*> FactoryBase::s_vFactoryRegistry;
 
 string demangle(const std::type_info& type)
-- 
2.43.0


From bfefe5594dcaffa4620da0d1b105fa28cd76a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:02 +0000
Subject: [PATCH 19/39] fix: MultiPhase: a failing addPhase released a lock
 that was never taken and terminated the process

---
 src/equil/MultiPhase.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index bb980b5..ec4d994 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -63,6 +63,7 @@ void MultiPhase::addPhase(ThermoPhase* p, double moles)
 
     // save the pointer to the phase object
     m_phase.push_back(p);
+    p->addSpeciesLock(); // released for each entry of m_phase by the destructor
     m_sharedPhase.push_back(nullptr);
 
     // store its number of moles
@@ -115,9 +116,6 @@ void MultiPhase::addPhase(ThermoPhase* p, double moles)
         m_Tmin = std::max(p->minTemp(), m_Tmin);
         m_Tmax = std::min(p->maxTemp(), m_Tmax);
     }
-
-    // lock species list
-    p->addSpeciesLock();
 }
 
 void MultiPhase::init()
-- 
2.43.0


From fdf82002c20ff7712200bb07af439091360d8895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:44 +0000
Subject: [PATCH 20/39] fix: TransportFactory: looking up the CK mode modified
 a map shared between threads

---
 src/transport/TransportFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport/TransportFactory.cpp b/src/transport/TransportFactory.cpp
index 7763a5d..9567396 100644
--- a/src/transport/TransportFactory.cpp
+++ b/src/transport/TransportFactory.cpp
@@ -90,7 +90,8 @@ Transport* TransportFactory::newTransport(const string& transportModel,
         dtr->initialize(phase, gastr);
     } else {
         tr = create(transportModel);
-        int mode = m_CK_mode[transportModel] ? CK_Mode : 0;
+        auto iter = m_CK_mode.find(transportModel); // shared between threads
+        int mode = (iter != m_CK_mode.end() && iter->second) ? CK_Mode : 0;
         tr->init(phase, mode);
     }
     phase->restoreState(state);
-- 
2.43.0


From 632a62f44118ec133b66631348d89a3f20967ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:44 +0000
Subject: [PATCH 21/39] fix: data directories and given deprecation warnings
 were accessed by several threads unsynchronised

---
 src/base/application.cpp | 18 ++++++++++++++++--
 src/base/application.h   |  4 +---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/base/application.cpp b/src/base/application.cpp
index 932942c..5e89598 100644
--- a/src/base/application.cpp
+++ b/src/base/application.cpp
@@ -32,6 +32,9 @@ namespace Cantera
 //! Mutex for input directory access
 static std::mutex dir_mutex;
 
+//! Mutex for the list of deprecation warnings which were already given
+static std::mutex warn_mutex;
+
 //! Mutex for creating singletons within the application object
 static std::mutex app_mutex;
 
@@ -136,10 +139,15 @@ void Application::warn_deprecated(const string& method, const string& extra)
 {
     if (m_fatal_deprecation_warnings) {
         throw CanteraError(method, "Deprecated: " + extra);
-    } else if (m_suppress_deprecation_warnings || warnings.count(method)) {
+    } else if (m_suppress_deprecation_warnings) {
         return;
     }
-    warnings.insert(method);
+    {
+        std::unique_lock<std::mutex> warnLock(warn_mutex);
+        if (!warnings.insert(method).second) {
+            return;
+        }
+    }
     warnlog("Deprecation", fmt::format("{}: {}", method, extra));
 }
 
@@ -310,6 +318,12 @@ void Application::addDataDirectory(const string& dir)
     inputDirs.insert(inputDirs.begin(), d);
 }
 
+string Application::getDataDirectories(const string& sep)
+{
+    std::unique_lock<std::mutex> dirLock(dir_mutex);
+    return boost::algorithm::join(inputDirs, sep);
+}
+
 string Application::findInputFile(const string& name)
 {
     std::unique_lock<std::mutex> dirLock(dir_mutex);
diff --git a/src/base/application.h b/src/base/application.h
index 5c26ac9..256c380 100644
--- a/src/base/application.h
+++ b/src/base/application.h
@@ -276,9 +276,7 @@ public:
      *
      * @ingroup inputGroup
      */
-    string getDataDirectories(const string& sep) {
-        return boost::algorithm::join(inputDirs, sep);
-    }
+    string getDataDirectories(const string& sep);
 
     //! Load an extension implementing user-defined models
     //! @param extType Specifies the interface / language of the extension, for example
-- 
2.43.0


From 45755d1f78012c885fd2d34bc26c2f73dba5f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:44 +0000
Subject: [PATCH 22/39] fix: solveSP: damping factor shared between solver
 objects, threads and successive solves

---
 src/kinetics/solveSP.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/solveSP.cpp b/src/kinetics/solveSP.cpp
index 7499a61..eedd3ea 100644
--- a/src/kinetics/solveSP.cpp
+++ b/src/kinetics/solveSP.cpp
@@ -14,7 +14,7 @@ namespace Cantera
 
 // STATIC ROUTINES DEFINED IN THIS FILE
 
-static double calc_damping(double* x, double* dx, size_t dim, int*);
+static double calc_damping(double* x, double* dx, size_t dim, int*, double&);
 static double calcWeightedNorm(const double [], const double dx[], size_t);
 
 // solveSP Class Definitions
@@ -101,6 +101,7 @@ int solveSP::solveSurfProb(int ifunc, double time_scale, double TKelvin,
     int iter_max=1000; // maximum number of nonlinear iterations
     double deltaT = 1.0E-10; // Delta time step
     double damp=1.0;
+    double damp_old = 1.0; // damping factor of the previous iteration
     double inv_t = 0.0;
     double t_real = 0.0, update_norm = 1.0E6;
     bool do_time = false, not_converged = true;
@@ -201,7 +202,8 @@ int solveSP::solveSurfProb(int ifunc, double time_scale, double TKelvin,
 
         // Calculate the Damping factor needed to keep all unknowns between 0
         // and 1, and not allow too large a change (factor of 2) in any unknown.
-        damp = calc_damping(m_CSolnSP.data(), m_resid.data(), m_neq, &label_d);
+        damp = calc_damping(m_CSolnSP.data(), m_resid.data(), m_neq, &label_d,
+                            damp_old);
 
         // Calculate the weighted norm of the update vector Here, resid is the
         // delta of the solution, in concentration units.
@@ -469,11 +471,11 @@ void solveSP::resjac_eval(DenseMatrix& jac, double resid[], double CSoln[],
  * that the step can take.  If the full step would not force any fraction
  * outside of 0-1, then Newton's method is allowed to operate normally.
  */
-static double calc_damping(double x[], double dxneg[], size_t dim, int* label)
+static double calc_damping(double x[], double dxneg[], size_t dim, int* label,
+                           double& damp_old)
 {
     const double APPROACH = 0.80;
     double damp = 1.0;
-    static double damp_old = 1.0; //! @todo this variable breaks thread safety
     *label = -1;
 
     for (size_t i = 0; i < dim; i++) {
-- 
2.43.0


From b171af3786dec65a8683c47ebf0fe844604acc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 23/39] fix: ReactorNet: failed evaluations left sensitivity
 perturbations in reaction multipliers and enthalpies

---
 src/zeroD/ReactorNet.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index e3ea679..06b68cc 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -362,7 +362,14 @@ void ReactorNet::eval(double t, double* y, double* ydot, double* p)
     m_RHS.assign(m_nv, 0);
     for (size_t n = 0; n < m_reactors.size(); n++) {
         m_reactors[n]->applySensitivity(p);
-        m_reactors[n]->eval(t, m_LHS.data() + m_start[n], m_RHS.data() + m_start[n]);
+        try {
+            m_reactors[n]->eval(t, m_LHS.data() + m_start[n],
+                                m_RHS.data() + m_start[n]);
+        } catch (...) {
+            // do not leave the perturbed parameters in objects shared with others
+            m_reactors[n]->resetSensitivity(p);
+            throw;
+        }
         size_t yEnd = 0;
         if (n == m_reactors.size() - 1) {
             yEnd = m_RHS.size();
@@ -383,7 +390,12 @@ void ReactorNet::evalDae(double t, double* y, double* ydot, double* p, double* r
     updateState(y);
     for (size_t n = 0; n < m_reactors.size(); n++) {
         m_reactors[n]->applySensitivity(p);
-        m_reactors[n]->evalDae(t, y, ydot, residual);
+        try {
+            m_reactors[n]->evalDae(t, y, ydot, residual);
+        } catch (...) {
+            m_reactors[n]->resetSensitivity(p);
+            throw;
+        }
         m_reactors[n]->resetSensitivity(p);
     }
     checkFinite("ydot", ydot, m_nv);
-- 
2.43.0


From 3254d18be327e40d5c3dc86a4d3ed48aadceb7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 24/39] fix: MassFlowController::setMassFlowRate deleted a time
 function owned by the user

---
 src/zeroD/flowControllers.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/zeroD/flowControllers.cpp b/src/zeroD/flowControllers.cpp
index b58337c..8d05073 100644
--- a/src/zeroD/flowControllers.cpp
+++ b/src/zeroD/flowControllers.cpp
@@ -12,9 +12,7 @@ namespace Cantera
 
 void MassFlowController::setMassFlowRate(double mdot)
 {
-    if (m_tfunc) {
-        delete m_tfunc;
-    }
+    m_tfunc = nullptr; // not owned by the flow device
     m_coeff = mdot;
 }
 
-- 
2.43.0


From 08ec0086c1d6acbb3b4710a55978e7adaf81891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 25/39] fix: mole reactors: outlets used the species numbering
 of the downstream reactor

---
 src/zeroD/ConstPressureMoleReactor.cpp         | 2 +-
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 2 +-
 src/zeroD/IdealGasMoleReactor.cpp              | 2 +-
 src/zeroD/MoleReactor.cpp                      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 00c6261..5c736ad 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -86,7 +86,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
         dHdt -= outlet->massFlowRate() * m_enthalpy;
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * massFraction(n) * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 757a6cb..11c1b40 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -96,7 +96,7 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * massFraction(n) * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 5586a7c..9bed4db 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -127,7 +127,7 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * massFraction(n) * imw[n];
         }
         double mdot = outlet->massFlowRate();
         mcvdTdt -= mdot * m_pressure * m_vol / m_mass; // flow work
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 4859a99..92c13aa 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -258,7 +258,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * massFraction(n) * imw[n];
         }
         // energy update based on mass flow
         double mdot = outlet->massFlowRate();
-- 
2.43.0


From 5acb2a0c63059ff1eaef7255d2535e92a023efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 26/39] fix: preconditioner of reactors sharing a Solution was
 built from the state of another reactor

---
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 2 ++
 src/zeroD/IdealGasMoleReactor.cpp              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 11c1b40..3e72d60 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -125,6 +125,8 @@ Eigen::SparseMatrix<double> IdealGasConstPressureMoleReactor::jacobian()
         throw CanteraError("IdealGasConstPressureMoleReactor::jacobian",
                            "Reactor must be initialized first.");
     }
+    // the phase may be in the state of another reactor
+    m_thermo->restoreState(m_state);
     // clear former jacobian elements
     m_jac_trips.clear();
     // dnk_dnj represents d(dot(n_k)) / d (n_j) but is first assigned as
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 9bed4db..b5c919c 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -159,6 +159,8 @@ Eigen::SparseMatrix<double> IdealGasMoleReactor::jacobian()
         throw CanteraError("IdealGasMoleReactor::jacobian",
                            "Reactor must be initialized first.");
     }
+    // the phase may be in the state of another reactor
+    m_thermo->restoreState(m_state);
     // clear former jacobian elements
     m_jac_trips.clear();
     // dnk_dnj represents d(dot(n_k)) / d (n_j) but is first assigned as
-- 
2.43.0


From ad9e6d5eac5cfb2bc6ac2a69f0e95488eb6164b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 27/39] fix: reactors without energy equation took the
 temperature of whoever last used a shared Solution

---
 src/zeroD/ConstPressureMoleReactor.cpp | 2 ++
 src/zeroD/ConstPressureReactor.cpp     | 2 ++
 src/zeroD/MoleReactor.cpp              | 2 ++
 src/zeroD/Reactor.cpp                  | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 5c736ad..b7120db 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -45,6 +45,8 @@ void ConstPressureMoleReactor::updateState(double* y)
     // species on each wall.
     setMassFromMoles(y + m_sidx);
     m_thermo->setMolesNoTruncate(y + m_sidx);
+    // start from the state of this reactor; the phase may have been used elsewhere
+    m_thermo->setTemperature(m_state[0]);
     if (m_energy) {
         m_thermo->setState_HP(y[0] / m_mass, m_pressure);
     } else {
diff --git a/src/zeroD/ConstPressureReactor.cpp b/src/zeroD/ConstPressureReactor.cpp
index c584688..9a5d867 100644
--- a/src/zeroD/ConstPressureReactor.cpp
+++ b/src/zeroD/ConstPressureReactor.cpp
@@ -49,6 +49,8 @@ void ConstPressureReactor::updateState(double* y)
     // coverages of surface species on each wall.
     m_mass = y[0];
     m_thermo->setMassFractions_NoNorm(y+2);
+    // start from the state of this reactor; the phase may have been used elsewhere
+    m_thermo->setTemperature(m_state[0]);
     if (m_energy) {
         m_thermo->setState_HP(y[1]/m_mass, m_pressure);
     } else {
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 92c13aa..ed22038 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -185,6 +185,8 @@ void MoleReactor::updateState(double* y)
     setMassFromMoles(y + m_sidx);
     m_vol = y[1];
     m_thermo->setMolesNoTruncate(y + m_sidx);
+    // start from the state of this reactor; the phase may have been used elsewhere
+    m_thermo->setTemperature(m_state[0]);
     if (m_energy) {
         double U = y[0];
         // Residual function: error in internal energy as a function of T
diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 7fac0ec..d41df0b 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -133,6 +133,8 @@ void Reactor::updateState(double* y)
     m_mass = y[0];
     m_vol = y[1];
     m_thermo->setMassFractions_NoNorm(y+3);
+    // start from the state of this reactor; the phase may have been used elsewhere
+    m_thermo->setTemperature(m_state[0]);
 
     if (m_energy) {
         double U = y[2];
-- 
2.43.0


From d99caf2e121308c0073067c81a74dcbc0b4de069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:39 +0000
Subject: [PATCH 28/39] fix: refused species replacement left the species data
 changed

---
 src/thermo/ThermoPhase.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/thermo/ThermoPhase.cpp b/src/thermo/ThermoPhase.cpp
index 2b3993b..533b7a1 100644
--- a/src/thermo/ThermoPhase.cpp
+++ b/src/thermo/ThermoPhase.cpp
@@ -1071,14 +1071,21 @@ void ThermoPhase::modifySpecies(size_t k, shared_ptr<Species> spec)
         throw CanteraError("ThermoPhase::modifySpecies",
             "Species {} has no thermo data", spec->name);
     }
-    Phase::modifySpecies(k, spec);
     if (speciesName(k) != spec->name) {
         throw CanteraError("ThermoPhase::modifySpecies",
             "New species '{}' does not match existing species '{}' at index {}",
                            spec->name, speciesName(k), k);
     }
     spec->thermo->validate(spec->name);
-    m_spthermo.modifySpecies(k, spec->thermo);
+    shared_ptr<Species> old = species(k);
+    Phase::modifySpecies(k, spec);
+    try {
+        m_spthermo.modifySpecies(k, spec->thermo);
+    } catch (...) {
+        // the species data and the thermo data have to stay consistent
+        Phase::modifySpecies(k, old);
+        throw;
+    }
 }
 
 void ThermoPhase::setParameters(const AnyMap& phaseNode, const AnyMap& rootNode)
-- 
2.43.0


From 4466b035e04208869b3600df5fd0b4145b795a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:39 +0000
Subject: [PATCH 29/39] fix: reference enthalpies of lattice solids were
 changed for the wrong species

---
 src/thermo/LatticeSolidPhase.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/thermo/LatticeSolidPhase.cpp b/src/thermo/LatticeSolidPhase.cpp
index a1c33f5..03ac267 100644
--- a/src/thermo/LatticeSolidPhase.cpp
+++ b/src/thermo/LatticeSolidPhase.cpp
@@ -427,10 +427,8 @@ void LatticeSolidPhase::setLatticeMoleFractionsByName(int nn, const string& x)
 void LatticeSolidPhase::modifyOneHf298SS(const size_t k, const double Hf298New)
 {
     for (size_t n = 0; n < m_lattice.size(); n++) {
-        if (lkstart_[n+1] < k) {
-            size_t kk = k-lkstart_[n];
-            MultiSpeciesThermo& l_spthermo = m_lattice[n]->speciesThermo();
-            l_spthermo.modifyOneHf298(kk, Hf298New);
+        if (k >= lkstart_[n] && k < lkstart_[n+1]) {
+            m_lattice[n]->modifyOneHf298SS(k - lkstart_[n], Hf298New);
         }
     }
     invalidateCache();
@@ -441,14 +439,13 @@ void LatticeSolidPhase::resetHf298(const size_t k)
 {
     if (k != npos) {
         for (size_t n = 0; n < m_lattice.size(); n++) {
-            if (lkstart_[n+1] < k) {
-                size_t kk = k-lkstart_[n];
-                m_lattice[n]->speciesThermo().resetHf298(kk);
+            if (k >= lkstart_[n] && k < lkstart_[n+1]) {
+                m_lattice[n]->resetHf298(k - lkstart_[n]);
             }
         }
     } else {
         for (size_t n = 0; n < m_lattice.size(); n++) {
-            m_lattice[n]->speciesThermo().resetHf298(npos);
+            m_lattice[n]->resetHf298(npos);
         }
     }
     invalidateCache();
-- 
2.43.0


From 552edf493b987d29f4009e0814c6f70dec2d7710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:39 +0000
Subject: [PATCH 30/39] fix: element balance of reactions with third bodies was
 not checked

---
 src/kinetics/Reaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index aa88c39..37d11bb 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -702,8 +702,8 @@ bool Reaction::checkSpecies(const Kinetics& kin) const
         }
     }
 
-    if (m_third_body) {
-        return m_third_body->checkSpecies(*this, kin);
+    if (m_third_body && !m_third_body->checkSpecies(*this, kin)) {
+        return false;
     }
 
     checkBalance(kin);
-- 
2.43.0


From 11799f389a415955e10d7ada92b93194f096786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:40 +0000
Subject: [PATCH 31/39] fix: a reaction refused by its rate was left half added

---
 src/kinetics/BulkKinetics.cpp      | 4 ----
 src/kinetics/InterfaceKinetics.cpp | 4 ----
 src/kinetics/Kinetics.cpp          | 5 +++++
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 7d77a25..4ec5c18 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -52,10 +52,6 @@ bool BulkKinetics::addReaction(shared_ptr<Reaction> r, bool resize)
         m_bulk_rates.back()->resize(m_kk, nReactions(), nPhases());
     }
 
-    // Set index of rate to number of reaction within kinetics
-    rate->setRateIndex(nReactions() - 1);
-    rate->setContext(*r, *this);
-
     // Add reaction rate to evaluator
     size_t index = m_bulk_types[rtype];
     m_bulk_rates[index]->add(nReactions() - 1, *rate);
diff --git a/src/kinetics/InterfaceKinetics.cpp b/src/kinetics/InterfaceKinetics.cpp
index 2556e89..42c4d15 100644
--- a/src/kinetics/InterfaceKinetics.cpp
+++ b/src/kinetics/InterfaceKinetics.cpp
@@ -414,11 +414,7 @@ bool InterfaceKinetics::addReaction(shared_ptr<Reaction> r_base, bool resize)
         m_rxnPhaseIsProduct[i][p] = true;
     }
 
-    // Set index of rate to number of reaction within kinetics
     shared_ptr<ReactionRate> rate = r_base->rate();
-    rate->setRateIndex(nReactions() - 1);
-    rate->setContext(*r_base, *this);
-
     string rtype = rate->subType();
     if (rtype == "") {
         rtype = rate->type();
diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index d382dce..c68a26a 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -634,6 +634,11 @@ bool Kinetics::addReaction(shared_ptr<Reaction> r, bool resize)
 
     size_t irxn = nReactions(); // index of the new reaction
 
+    // Link the rate to the reaction and this Kinetics object. Rates that cannot be used
+    // here are refused, which has to happen before anything is added.
+    r->rate()->setRateIndex(irxn);
+    r->rate()->setContext(*r, *this);
+
     // indices of reactant and product species within this Kinetics object
     vector<size_t> rk, pk;
 
-- 
2.43.0


From f686f86a246d7bf0d18840de549f7152c64bfb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:40 +0000
Subject: [PATCH 32/39] fix: a rate replacement that is not possible left the
 reaction changed

---
 src/kinetics/BulkKinetics.cpp      | 33 ++++++++++++++++++---------
 src/kinetics/InterfaceKinetics.cpp | 36 +++++++++++++++++++++---------
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 4ec5c18..d119640 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -88,6 +88,9 @@ void BulkKinetics::addThirdBody(shared_ptr<Reaction> r)
 
 void BulkKinetics::modifyReaction(size_t i, shared_ptr<Reaction> rNew)
 {
+    checkReactionIndex(i);
+    shared_ptr<Reaction> rOld = m_reactions[i];
+
     // operations common to all reaction types
     Kinetics::modifyReaction(i, rNew);
 
@@ -97,17 +100,27 @@ void BulkKinetics::modifyReaction(size_t i, shared_ptr<Reaction> rNew)
         rtype = rate->type();
     }
 
-    // Ensure that MultiRate evaluator is available
-    if (m_bulk_types.find(rtype) == m_bulk_types.end()) {
-        throw CanteraError("BulkKinetics::modifyReaction",
-                "Evaluator not available for type '{}'.", rtype);
-    }
+    try {
+        // Ensure that MultiRate evaluator is available
+        if (m_bulk_types.find(rtype) == m_bulk_types.end()) {
+            throw CanteraError("BulkKinetics::modifyReaction",
+                    "Evaluator not available for type '{}'.", rtype);
+        }
 
-    // Replace reaction rate to evaluator
-    size_t index = m_bulk_types[rtype];
-    rate->setRateIndex(i);
-    rate->setContext(*rNew, *this);
-    m_bulk_rates[index]->replace(i, *rate);
+        // Replace reaction rate to evaluator
+        size_t index = m_bulk_types[rtype];
+        rate->setRateIndex(i);
+        rate->setContext(*rNew, *this);
+        if (!m_bulk_rates[index]->replace(i, *rate)) {
+            throw CanteraError("BulkKinetics::modifyReaction",
+                "Rate of reaction '{}' cannot be replaced by a rate of type '{}'.",
+                rOld->equation(), rtype);
+        }
+    } catch (...) {
+        // keep the reaction consistent with the rate that is evaluated
+        m_reactions[i] = rOld;
+        throw;
+    }
     invalidateCache();
 }
 
diff --git a/src/kinetics/InterfaceKinetics.cpp b/src/kinetics/InterfaceKinetics.cpp
index 42c4d15..4a41727 100644
--- a/src/kinetics/InterfaceKinetics.cpp
+++ b/src/kinetics/InterfaceKinetics.cpp
@@ -446,25 +446,41 @@ bool InterfaceKinetics::addReaction(shared_ptr<Reaction> r_base, bool resize)
 
 void InterfaceKinetics::modifyReaction(size_t i, shared_ptr<Reaction> r_base)
 {
+    checkReactionIndex(i);
+    shared_ptr<Reaction> rOld = m_reactions[i];
     Kinetics::modifyReaction(i, r_base);
 
     shared_ptr<ReactionRate> rate = r_base->rate();
-    rate->setRateIndex(i);
-    rate->setContext(*r_base, *this);
-
     string rtype = rate->subType();
     if (rtype == "") {
         rtype = rate->type();
     }
 
-    // Ensure that interface MultiRate evaluator is available
-    if (!m_interfaceTypes.count(rtype)) {
-        throw CanteraError("InterfaceKinetics::modifyReaction",
-            "Interface evaluator not available for type '{}'.", rtype);
+    try {
+        // Ensure that interface MultiRate evaluator is available
+        if (!m_interfaceTypes.count(rtype)) {
+            throw CanteraError("InterfaceKinetics::modifyReaction",
+                "Interface evaluator not available for type '{}'.", rtype);
+        }
+        // Replace reaction rate evaluator
+        size_t index = m_interfaceTypes[rtype];
+        rate->setRateIndex(i);
+        rate->setContext(*r_base, *this);
+        if (!m_interfaceRates[index]->replace(i, *rate)) {
+            throw CanteraError("InterfaceKinetics::modifyReaction",
+                "Rate of reaction '{}' cannot be replaced by a rate of type '{}'.",
+                rOld->equation(), rtype);
+        }
+    } catch (...) {
+        // keep the reaction consistent with the rate that is evaluated
+        m_reactions[i] = rOld;
+        throw;
+    }
+
+    // Set flag for coverage dependence to true
+    if (rate->compositionDependent()) {
+        m_has_coverage_dependence = true;
     }
-    // Replace reaction rate evaluator
-    size_t index = m_interfaceTypes[rate->type()];
-    m_interfaceRates[index]->replace(i, *rate);
 
     // Invalidate cached data
     m_redo_rates = true;
-- 
2.43.0


From 45149ec520092898a94fb63c9aaf49dd86129de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 33/39] fix: constant-cp species: resetting the reference
 enthalpy set it to zero

---
 src/thermo/ConstCpPoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/ConstCpPoly.cpp b/src/thermo/ConstCpPoly.cpp
index 04f3c54..9e9cea1 100644
--- a/src/thermo/ConstCpPoly.cpp
+++ b/src/thermo/ConstCpPoly.cpp
@@ -32,6 +32,7 @@ void ConstCpPoly::setParameters(double t0, double h0, double s0, double cp0)
     m_logt0 = log(m_t0);
     m_cp0_R = cp0 / GasConstant;
     m_h0_R = h0 / GasConstant;
+    m_h0_R_orig = m_h0_R;
     m_s0_R = s0 / GasConstant;
 }
 
-- 
2.43.0


From 596a958e241db53f7e07bb9ffd4c353f67769a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 34/39] fix: lattice solids: replaced species and temperature
 limits of single species were not used

---
 include/cantera/thermo/LatticeSolidPhase.h |  3 +++
 src/thermo/LatticeSolidPhase.cpp           | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/cantera/thermo/LatticeSolidPhase.h b/include/cantera/thermo/LatticeSolidPhase.h
index 040d7c8..8d5856d 100644
--- a/include/cantera/thermo/LatticeSolidPhase.h
+++ b/include/cantera/thermo/LatticeSolidPhase.h
@@ -418,6 +418,9 @@ public:
 
     bool addSpecies(shared_ptr<Species> spec) override;
 
+    //! Replace the data of a species in this phase and in the lattice it belongs to
+    void modifySpecies(size_t k, shared_ptr<Species> spec) override;
+
     //! Add a lattice to this phase
     void addLattice(shared_ptr<ThermoPhase> lattice);
 
diff --git a/src/thermo/LatticeSolidPhase.cpp b/src/thermo/LatticeSolidPhase.cpp
index 03ac267..a47d8a9 100644
--- a/src/thermo/LatticeSolidPhase.cpp
+++ b/src/thermo/LatticeSolidPhase.cpp
@@ -27,7 +27,7 @@ double LatticeSolidPhase::minTemp(size_t k) const
 {
     if (k != npos) {
         for (size_t n = 0; n < m_lattice.size(); n++) {
-            if (lkstart_[n+1] < k) {
+            if (k >= lkstart_[n] && k < lkstart_[n+1]) {
                 return m_lattice[n]->minTemp(k-lkstart_[n]);
             }
         }
@@ -43,7 +43,7 @@ double LatticeSolidPhase::maxTemp(size_t k) const
 {
     if (k != npos) {
         for (size_t n = 0; n < m_lattice.size(); n++) {
-            if (lkstart_[n+1] < k) {
+            if (k >= lkstart_[n] && k < lkstart_[n+1]) {
                 return (m_lattice[n])->maxTemp(k - lkstart_[n]);
             }
         }
@@ -346,6 +346,16 @@ bool LatticeSolidPhase::addSpecies(shared_ptr<Species> spec)
     return false;
 }
 
+void LatticeSolidPhase::modifySpecies(size_t k, shared_ptr<Species> spec)
+{
+    ThermoPhase::modifySpecies(k, spec);
+    for (size_t n = 0; n < m_lattice.size(); n++) {
+        if (k >= lkstart_[n] && k < lkstart_[n+1]) {
+            m_lattice[n]->modifySpecies(k - lkstart_[n], spec);
+        }
+    }
+}
+
 void LatticeSolidPhase::addLattice(shared_ptr<ThermoPhase> lattice)
 {
     m_lattice.push_back(lattice);
-- 
2.43.0


From 913099e2fee852607ac981564d7f19508ea722c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 35/39] fix: writing species data changed the input data kept
 for them

---
 src/thermo/IdealSolidSolnPhase.cpp | 3 ++-
 src/thermo/StoichSubstance.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thermo/IdealSolidSolnPhase.cpp b/src/thermo/IdealSolidSolnPhase.cpp
index d4240f3..dc66224 100644
--- a/src/thermo/IdealSolidSolnPhase.cpp
+++ b/src/thermo/IdealSolidSolnPhase.cpp
@@ -353,7 +353,8 @@ void IdealSolidSolnPhase::getSpeciesParameters(const string &name,
         "model", "constant-volume", true);
     // Output volume information in a form consistent with the input
     if (S->input.hasKey("equation-of-state")) {
-        auto& eosIn = S->input["equation-of-state"];
+        auto& eosIn = S->input["equation-of-state"].getMapWhere(
+            "model", "constant-volume");
         if (eosIn.hasKey("density")) {
             eosNode["density"].setQuantity(
                 molecularWeight(k) / m_speciesMolarVolume[k], "kg/m^3");
diff --git a/src/thermo/StoichSubstance.cpp b/src/thermo/StoichSubstance.cpp
index 4b4b630..52de9c0 100644
--- a/src/thermo/StoichSubstance.cpp
+++ b/src/thermo/StoichSubstance.cpp
@@ -160,7 +160,8 @@ void StoichSubstance::getSpeciesParameters(const string& name,
         "model", "constant-volume", true);
     // Output volume information in a form consistent with the input
     if (S->input.hasKey("equation-of-state")) {
-        auto& eosIn = S->input["equation-of-state"];
+        auto& eosIn = S->input["equation-of-state"].getMapWhere(
+            "model", "constant-volume");
         if (eosIn.hasKey("density")) {
             eosNode["density"].setQuantity(density(), "kg/m^3");
         } else if (eosIn.hasKey("molar-density")) {
-- 
2.43.0


From 0c3718e3f1b68c7defb4af7aaa0cff37b20719b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 36/39] fix: failed construction of reactors and sliced arrays
 unbalanced the species lock; sliced arrays accepted any index

---
 src/base/SolutionArray.cpp | 9 +++++----
 src/zeroD/ReactorBase.cpp  | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 19d34d5..fcb0e3f 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -51,7 +51,6 @@ SolutionArray::SolutionArray(const shared_ptr<Solution>& sol,
             "Unable to create SolutionArray from invalid Solution object.");
     }
     m_stride = m_sol->thermo()->stateSize();
-    m_sol->thermo()->addSpeciesLock();
     m_data = make_shared<vector<double>>(m_dataSize * m_stride, 0.);
     m_extra = make_shared<map<string, AnyValue>>();
     m_order = make_shared<map<int, string>>();
@@ -61,6 +60,7 @@ SolutionArray::SolutionArray(const shared_ptr<Solution>& sol,
     reset();
     m_apiShape.resize(1);
     m_apiShape[0] = static_cast<long>(m_dataSize);
+    m_sol->thermo()->addSpeciesLock(); // not reached if the array cannot be created
 }
 
 SolutionArray::SolutionArray(const SolutionArray& other,
@@ -74,7 +74,6 @@ SolutionArray::SolutionArray(const SolutionArray& other,
     , m_order(other.m_order)
     , m_shared(true)
 {
-    m_sol->thermo()->addSpeciesLock();
     if (!other.m_shared) {
         // direct slicing is possible
         m_active = selected;
@@ -87,14 +86,16 @@ SolutionArray::SolutionArray(const SolutionArray& other,
         }
     }
     for (auto loc : m_active) {
-        if (loc < 0 || loc >= (int)m_dataSize) {
-            IndexError("SolutionArray::SolutionArray", "indices", loc, m_dataSize);
+        if (loc < 0 || loc >= (int)(m_data->size() / m_stride)) {
+            throw IndexError("SolutionArray::SolutionArray", "indices", loc,
+                             m_data->size() / m_stride);
         }
     }
     set<int> unique(selected.begin(), selected.end());
     if (unique.size() < selected.size()) {
         throw CanteraError("SolutionArray::SolutionArray", "Indices must be unique.");
     }
+    m_sol->thermo()->addSpeciesLock(); // not reached if the array cannot be created
 }
 
 SolutionArray::~SolutionArray()
diff --git a/src/zeroD/ReactorBase.cpp b/src/zeroD/ReactorBase.cpp
index 6fa0a13..1ffb2fb 100644
--- a/src/zeroD/ReactorBase.cpp
+++ b/src/zeroD/ReactorBase.cpp
@@ -25,13 +25,13 @@ ReactorBase::ReactorBase(shared_ptr<Solution> sol, const string& name)
                            "Missing or incomplete Solution object.");
     }
     m_solution = sol;
+    m_solution->thermo()->addSpeciesLock(); // removed by the destructor
     setThermo(*sol->thermo());
     try {
         setKinetics(*sol->kinetics());
     } catch (NotImplementedError&) {
         // kinetics not used (example: Reservoir)
     }
-    m_solution->thermo()->addSpeciesLock();
 }
 
 ReactorBase::~ReactorBase()
@@ -67,13 +67,13 @@ void ReactorBase::setSolution(shared_ptr<Solution> sol)
         m_solution->thermo()->removeSpeciesLock();
     }
     m_solution = sol;
+    m_solution->thermo()->addSpeciesLock(); // removed by the destructor
     setThermo(*sol->thermo());
     try {
         setKinetics(*sol->kinetics());
     } catch (NotImplementedError&) {
         // kinetics not used (example: Reservoir)
     }
-    m_solution->thermo()->addSpeciesLock();
 }
 
 void ReactorBase::setThermo(ThermoPhase& thermo)
-- 
2.43.0


From b8611ab4271558c43a4ebf2300f804a92d1fec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 37/39] fix: chemically activated and falloff reactions shared
 evaluators that cannot replace their rates

---
 src/kinetics/BulkKinetics.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index d119640..e11049a 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -40,9 +40,10 @@ bool BulkKinetics::addReaction(shared_ptr<Reaction> r, bool resize)
     }
 
     shared_ptr<ReactionRate> rate = r->rate();
-    string rtype = rate->subType();
-    if (rtype == "") {
-        rtype = rate->type();
+    // Types "falloff" and "chemically-activated" use the same subtypes
+    string rtype = rate->type();
+    if (rate->subType() != "") {
+        rtype += ":" + rate->subType();
     }
 
     // If necessary, add new MultiRate evaluator
@@ -95,9 +96,10 @@ void BulkKinetics::modifyReaction(size_t i, shared_ptr<Reaction> rNew)
     Kinetics::modifyReaction(i, rNew);
 
     shared_ptr<ReactionRate> rate = rNew->rate();
-    string rtype = rate->subType();
-    if (rtype == "") {
-        rtype = rate->type();
+    // Types "falloff" and "chemically-activated" use the same subtypes
+    string rtype = rate->type();
+    if (rate->subType() != "") {
+        rtype += ":" + rate->subType();
     }
 
     try {
-- 
2.43.0


From 5e9cb8cc767ea88b96bcbec4d1191a597e379e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 38/39] fix: derivatives left out the third body of the
 reaction added last

---
 src/kinetics/BulkKinetics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index e11049a..4d90aa0 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -60,6 +60,10 @@ bool BulkKinetics::addReaction(shared_ptr<Reaction> r, bool resize)
     // Add reaction to third-body evaluator
     if (r->thirdBody() != nullptr) {
         addThirdBody(r);
+        if (resize) {
+            // derivatives have to include the third body installed just now
+            m_multi_concm.resizeCoeffs(nTotalSpecies(), nReactions());
+        }
     }
 
     m_concm.push_back(NAN);
-- 
2.43.0


From 8edf0bb32e74a097dd991ed0b2f9ef14387b486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 39/39] fix: real gas phases used outdated reference state
 properties after changes of species

---
 src/thermo/MixtureFugacityTP.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/thermo/MixtureFugacityTP.cpp b/src/thermo/MixtureFugacityTP.cpp
index 081ace2..d121e02 100644
--- a/src/thermo/MixtureFugacityTP.cpp
+++ b/src/thermo/MixtureFugacityTP.cpp
@@ -41,6 +41,7 @@ int MixtureFugacityTP::reportSolnBranchActual() const
 // ---- Molar Thermodynamic Properties ---------------------------
 double MixtureFugacityTP::enthalpy_mole() const
 {
+    _updateReferenceStateThermo();
    double h_ideal = RT() * mean_X(m_h0_RT);
    double h_nonideal = hresid();
    return h_ideal + h_nonideal;
@@ -49,6 +50,7 @@ double MixtureFugacityTP::enthalpy_mole() const
 
 double MixtureFugacityTP::entropy_mole() const
 {
+    _updateReferenceStateThermo();
     double s_ideal = GasConstant * (mean_X(m_s0_R) - sum_xlogx()
         - std::log(pressure()/refPressure()));
     double s_nonideal = sresid();
@@ -59,6 +61,7 @@ double MixtureFugacityTP::entropy_mole() const
 
 void MixtureFugacityTP::getStandardChemPotentials(double* g) const
 {
+    _updateReferenceStateThermo();
     copy(m_g0_RT.begin(), m_g0_RT.end(), g);
     double tmp = log(pressure() / refPressure());
     for (size_t k = 0; k < m_kk; k++) {
@@ -73,6 +76,7 @@ void MixtureFugacityTP::getEnthalpy_RT(double* hrt) const
 
 void MixtureFugacityTP::getEntropy_R(double* sr) const
 {
+    _updateReferenceStateThermo();
     copy(m_s0_R.begin(), m_s0_R.end(), sr);
     double tmp = log(pressure() / refPressure());
     for (size_t k = 0; k < m_kk; k++) {
@@ -82,6 +86,7 @@ void MixtureFugacityTP::getEntropy_R(double* sr) const
 
 void MixtureFugacityTP::getGibbs_RT(double* grt) const
 {
+    _updateReferenceStateThermo();
     copy(m_g0_RT.begin(), m_g0_RT.end(), grt);
     double tmp = log(pressure() / refPressure());
     for (size_t k = 0; k < m_kk; k++) {
@@ -91,6 +96,7 @@ void MixtureFugacityTP::getGibbs_RT(double* grt) const
 
 void MixtureFugacityTP::getPureGibbs(double* g) const
 {
+    _updateReferenceStateThermo();
     scale(m_g0_RT.begin(), m_g0_RT.end(), g, RT());
     double tmp = log(pressure() / refPressure()) * RT();
     for (size_t k = 0; k < m_kk; k++) {
@@ -100,6 +106,7 @@ void MixtureFugacityTP::getPureGibbs(double* g) const
 
 void MixtureFugacityTP::getIntEnergy_RT(double* urt) const
 {
+    _updateReferenceStateThermo();
     copy(m_h0_RT.begin(), m_h0_RT.end(), urt);
     for (size_t i = 0; i < m_kk; i++) {
         urt[i] -= 1.0;
@@ -108,6 +115,7 @@ void MixtureFugacityTP::getIntEnergy_RT(double* urt) const
 
 void MixtureFugacityTP::getCp_R(double* cpr) const
 {
+    _updateReferenceStateThermo();
     copy(m_cp0_R.begin(), m_cp0_R.end(), cpr);
 }
 
@@ -122,11 +130,13 @@ void MixtureFugacityTP::getStandardVolumes(double* vol) const
 
 void MixtureFugacityTP::getEnthalpy_RT_ref(double* hrt) const
 {
+    _updateReferenceStateThermo();
     copy(m_h0_RT.begin(), m_h0_RT.end(), hrt);
 }
 
 void MixtureFugacityTP::getGibbs_RT_ref(double* grt) const
 {
+    _updateReferenceStateThermo();
     copy(m_g0_RT.begin(), m_g0_RT.end(), grt);
 }
 
@@ -138,16 +148,19 @@ void MixtureFugacityTP::getGibbs_ref(double* g) const
 
 const vector<double>& MixtureFugacityTP::gibbs_RT_ref() const
 {
+    _updateReferenceStateThermo();
     return m_g0_RT;
 }
 
 void MixtureFugacityTP::getEntropy_R_ref(double* er) const
 {
+    _updateReferenceStateThermo();
     copy(m_s0_R.begin(), m_s0_R.end(), er);
 }
 
 void MixtureFugacityTP::getCp_R_ref(double* cpr) const
 {
+    _updateReferenceStateThermo();
     copy(m_cp0_R.begin(), m_cp0_R.end(), cpr);
 }
 
-- 
2.43.0


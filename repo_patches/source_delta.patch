From 2e9912f092362d34adb5b906080c144b47067cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:33 +0000
Subject: [PATCH 01/25] fix: CylinderX::Contains compared a distance with a
 squared radius

---
 src/CSGSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index b4c214b..cc0a01f 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -170,5 +170,5 @@ bool CylinderX::Contains(const Point& p) const noexcept {
   const auto pw = p.Dot(w);
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return std::sqrt(pp - pw * pw) < radius * radius;
+  return pp - pw * pw < radius * radius;
 }
-- 
2.43.0


From d57bae3c56e248f29cfc1a6a8cfd720da3aa592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 02/25] fix: report unknown names and invalid bins instead of
 terminating

---
 src/Bins.cpp         | 2 +-
 src/Bins.hpp         | 2 +-
 src/Estimator.cpp    | 2 +-
 src/Estimator.hpp    | 2 +-
 src/Perturbation.cpp | 4 ++--
 src/Perturbation.hpp | 4 ++--
 src/Scorable.cpp     | 2 +-
 src/Scorable.hpp     | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 66403b1..de328a7 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -173,7 +173,7 @@ std::string BoundaryBins::to_string() const noexcept {
 
 //// public
 
-ParticleBins::ParticleBins(const pugi::xml_node& bins_node) noexcept
+ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
       direction{[&bins_node]() noexcept {
         const auto& cosine_node = bins_node.child("cosine");
diff --git a/src/Bins.hpp b/src/Bins.hpp
index 4a13170..e442420 100644
--- a/src/Bins.hpp
+++ b/src/Bins.hpp
@@ -132,7 +132,7 @@ private:
 class ParticleBins {
 public:
   /// @brief Constructs a ParticleBins from a `bins` node of an XML document
-  ParticleBins(const pugi::xml_node& bins_node) noexcept;
+  ParticleBins(const pugi::xml_node& bins_node);
   /// @brief Total number of bins used
   size_t size() const noexcept;
   /// @brief Maps a point in @ref estimators_phase_space "phase space" @f$ X
diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index cbf909e..a742ce2 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -75,7 +75,7 @@ Estimator& Estimator::operator+=(const Estimator& other) noexcept {
 
 Estimator::Estimator(
     const pugi::xml_node& estimator_node,
-    const PerturbationSet& perturbations) noexcept
+    const PerturbationSet& perturbations)
     : Scorable{
       estimator_node.attribute("name").as_string(),
       estimator_node.child("bins")},
diff --git a/src/Estimator.hpp b/src/Estimator.hpp
index 63f7c35..6ced3f3 100644
--- a/src/Estimator.hpp
+++ b/src/Estimator.hpp
@@ -46,7 +46,7 @@ protected:
   /// @brief Constructs an Estimator from an XML node
   Estimator(
       const pugi::xml_node& estimator_node,
-      const PerturbationSet& perturbations) noexcept;
+      const PerturbationSet& perturbations);
 
 private:
   // Sensitivity objects which depend on this Estimator
diff --git a/src/Perturbation.cpp b/src/Perturbation.cpp
index 8326cab..9f7c358 100644
--- a/src/Perturbation.cpp
+++ b/src/Perturbation.cpp
@@ -20,7 +20,7 @@
 //// public
 
 std::unique_ptr<Perturbation> Perturbation::Create(
-    const pugi::xml_node& perturbation_node, const World& world) noexcept {
+    const pugi::xml_node& perturbation_node, const World& world) {
   const std::string perturbation_type = perturbation_node.name();
   if (perturbation_type == "total") {
     return std::make_unique<TotalCrossSectionPerturbation>(
@@ -87,7 +87,7 @@ Real TotalCrossSectionPerturbation::Scatter(
 //// public
 
 PerturbationSet::PerturbationSet(
-    const pugi::xml_node& perturbations_node, const World& world) noexcept
+    const pugi::xml_node& perturbations_node, const World& world)
     : perturbations{[&perturbations_node, &world]() {
         std::vector<std::unique_ptr<const Perturbation>> result;
         for (const auto& perturbation_node : perturbations_node) {
diff --git a/src/Perturbation.hpp b/src/Perturbation.hpp
index 4ccc600..d7a6849 100644
--- a/src/Perturbation.hpp
+++ b/src/Perturbation.hpp
@@ -25,7 +25,7 @@ public:
   /// @brief Factory method to create a new Perturbation from a perturbation
   ///        node of an XML document
   static std::unique_ptr<Perturbation>
-  Create(const pugi::xml_node& perturbation_node, const World& world) noexcept;
+  Create(const pugi::xml_node& perturbation_node, const World& world);
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Perturbation() noexcept;
   /// @brief Create a Sensitivity estimator from a `perturbation` child of a
@@ -84,7 +84,7 @@ public:
   /// @brief Constructs a PerturbationSet from a `perturbations` node of an XML
   ///        document
   PerturbationSet(
-      const pugi::xml_node& perturbations_node, const World& world) noexcept;
+      const pugi::xml_node& perturbations_node, const World& world);
   /// @brief Returns the Perturbation with the given name
   /// @exception std::runtime_error Perturbation with given name not found
   /// @todo Template along with EstimatorSet::FindEstimatorByName
diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index cfcf088..9d9f58c 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -15,7 +15,7 @@
 //// public
 
 Scorable::Scorable(
-    const std::string& name, const pugi::xml_node& bins_node) noexcept
+    const std::string& name, const pugi::xml_node& bins_node)
     : name{name}, bins{std::make_shared<ParticleBins>(bins_node)},
       scores(bins->size(), 0), square_scores(bins->size(), 0) {}
 
diff --git a/src/Scorable.hpp b/src/Scorable.hpp
index 3c8b756..7ed79ca 100644
--- a/src/Scorable.hpp
+++ b/src/Scorable.hpp
@@ -28,7 +28,7 @@ class Scorable {
 public:
   /// @brief Constructs a Scorable from a `bins` node of an XML document
   /// @details All scores are initialized to zero
-  Scorable(const std::string& name, const pugi::xml_node& bins_node) noexcept;
+  Scorable(const std::string& name, const pugi::xml_node& bins_node);
   /// @brief Constructs an Scorable from an existing estimator and
   ///        perturbation
   /// @details All scores are initialized to zero
-- 
2.43.0


From 9b63ac9931748d761bf28e2101dcae7d60464bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 03/25] fix: LogspaceBins::GetIndex returned an invalid index
 for negative values

---
 src/Bins.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index de328a7..d453935 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -110,6 +110,10 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
 size_t LogspaceBins::size() const noexcept { return n_bins; }
 
 size_t LogspaceBins::GetIndex(const Real& v) const noexcept {
+  // nonpositive values are below every boundary and have no logarithm
+  if (v <= 0) {
+    return 0;
+  }
   const auto log_v = std::log(v) / std::log(base);
   if (log_v < log_lower_bound) {
     return 0;
-- 
2.43.0


From 05c3cc48dac9b7ef6988d7d9c85de3848952043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:52 +0000
Subject: [PATCH 04/25] fix: step past a surface by a margin that scales with
 the coordinates

The absolute margin of 10 epsilon was lost to rounding away from the origin:
particles crossed a surface twice or kept crossing it forever.
---
 src/Constants.hpp       |  2 +-
 src/TransportMethod.cpp | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Constants.hpp b/src/Constants.hpp
index 93a7ada..c03383c 100644
--- a/src/Constants.hpp
+++ b/src/Constants.hpp
@@ -12,7 +12,7 @@ namespace constants {
 ///          C++20 Mathematical Constants</a>
 constexpr Real pi = M_PI;
 /// @brief Additional distance to stream Particle to cross CSGSurface properly
-constexpr Real nudge = 10 * std::numeric_limits<Real>::epsilon();
+constexpr Real nudge = 1e-9;
 /// @brief Used to determine whether a Direction is too close to an axis. A
 ///        value of 0 means all directions are too close to the axis. A value
 ///        of 1 means any direction is far away enough from the axis. Must be
diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b1535da..244697e 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -9,13 +9,27 @@
 #include "World.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <iosfwd>
 #include <random>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
 
+namespace {
+// Distance to stream for a Particle to end up beyond a surface which is
+// `distance` away. The rounding error of a position grows with the size of its
+// coordinates and with the distance travelled, so the margin must do so too.
+Real DistanceBeyond(const Particle& p, const Real distance) noexcept {
+  const auto& position = p.GetPosition();
+  return distance +
+         constants::nudge *
+             std::max(distance, std::sqrt(position.Dot(position)));
+}
+} // namespace
+
 // TransportMethod
 
 //// public
@@ -65,7 +79,7 @@ Bank SurfaceTracking::Transport(
       nuclide.Interact(p);
     }
     else {
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(DistanceBeyond(p, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
@@ -97,7 +111,7 @@ Bank CellDeltaTracking::Transport(
         p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
     if (distance_to_surface_crossing < distance_to_collision) {
       // a surface crossing occurs
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(DistanceBeyond(p, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
-- 
2.43.0


From 815b31f1f8bbf60751ad016357d7b14c030acb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 05/25] fix: interpolate between beta grids with the fraction
 of the interval

A misplaced parenthesis made the interpolation factor exceed the fraction of
the beta interval, so the wrong alpha table was sampled.
---
 src/ThermalScattering.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bbc3dec..44deaaa 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -361,8 +361,8 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   const Real r = snap_to_lower ? 0
                  : snap_to_min
                      ? 1
-                     : (abs_b - betas.at(b_hi_i - 1) /
-                                    (betas.at(b_hi_i) - betas.at(b_hi_i - 1)));
+                     : (abs_b - betas.at(b_hi_i - 1)) /
+                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
   Beta b_s = sgn_b * betas.at(b_s_i);
-- 
2.43.0


From ea277e4ac5fd4dd08def22e3c5896987bf0a4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 06/25] fix: use the nearest temperature outside the thermal
 scattering grid

At or above the last temperature the total used the second to last one, and
beta and alpha were extrapolated; below the first they were not a number.
---
 src/ThermalScattering.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 44deaaa..ac62053 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -151,7 +151,7 @@ ThermalScattering::GetTotal(const Particle& p) const noexcept {
   const auto T_lo = Ts.at(T_lo_i);
   const auto T_hi = Ts.at(T_hi_i);
   const auto r_T = below_T_min   ? 1
-                   : above_T_max ? 0
+                   : above_T_max ? 1
                                  : (T - T_lo) / (T_hi - T_lo);
   return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);
 }
@@ -206,6 +206,10 @@ ThermalScattering::Beta ThermalScattering::BetaPartition::Evaluate(
                  E_T_modes.at(E_index, T_lo_i, order);
   }
 
+  // Outside the temperature grid, use the nearest temperature
+  if (below_T_min || above_T_max) {
+    return beta_T_hi;
+  }
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
@@ -247,6 +251,10 @@ ThermalScattering::Alpha ThermalScattering::AlphaPartition::Evaluate(
                   beta_T_modes.at(beta_index, T_lo_i, order);
   }
 
+  // Outside the temperature grid, use the nearest temperature
+  if (below_T_min || above_T_max) {
+    return alpha_T_hi;
+  }
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
-- 
2.43.0


From 3f8e6d1869bdb438bbead26f74d66e489e0f5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 07/25] fix: sample alpha for beta outside the tabulated beta
 grid

A beta at or above the largest tabulated one, or a downscatter below the
smallest one which is itself unreachable, indexed outside the grid.
---
 src/ThermalScattering.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index ac62053..85cc399 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -360,11 +360,14 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   // b_lo <= abs_b < b_hi
   // For positive b, if beta_cutoff <= b_hi, we force the use of b_lo
   // For negative b, if -b_hi < - E / (k * T), we force the use of b_lo
-  const bool snap_to_lower =
-      ((sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
-       (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T)));
+  // For abs_b beyond the largest beta provided, b_lo is all there is
   // Handle case where abs_b is less than the smallest beta provided, b_min
   const bool snap_to_min = b_hi_i == 0;
+  const bool snap_to_lower =
+      !snap_to_min &&
+      (b_hi_i == betas.size() ||
+       (sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
+       (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T)));
   // Determine interpolation factor and sample a beta grid to use, b_s
   const Real r = snap_to_lower ? 0
                  : snap_to_min
@@ -374,6 +377,11 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
   Beta b_s = sgn_b * betas.at(b_s_i);
+  // The smallest beta provided may not be reachable by downscattering; only b
+  // itself has kinematic limits then
+  if (b_s < -E / (constants::boltzmann * T)) {
+    b_s = b;
+  }
 
   // compute minimum and maximum possible value of alpha
   const auto sqrt_E = std::sqrt(E);
-- 
2.43.0


From 804b1fa7959b37580f5230ee1dcaa7ed25ef4b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 08/25] fix: report missing thermal scattering files instead of
 terminating

---
 src/ThermalScattering.cpp | 6 +++---
 src/ThermalScattering.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 85cc399..8b05d71 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -22,14 +22,14 @@
 
 //// public
 
-ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
+ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
     : majorant{HDF5DataSet<1>{tsl_node.attribute("majorant").as_string()}
                    .ToContinuousMap()},
       scatter_xs_T{tsl_node.attribute("total_T").as_string()},
       scatter_xs_S{tsl_node.attribute("total_S").as_string()},
       scatter_xs_E{tsl_node.attribute("total_E").as_string()},
       // IIFE
-      beta_partitions{[&tsl_node]() noexcept {
+      beta_partitions{[&tsl_node]() {
         std::vector<BetaPartition> result;
         for (const auto& partition_node : tsl_node.child("beta_partitions")) {
           result.emplace_back(partition_node);
@@ -62,7 +62,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
         return result;
       }()},
       // IIFE
-      alpha_partitions{[&tsl_node]() noexcept {
+      alpha_partitions{[&tsl_node]() {
         std::vector<AlphaPartition> result;
         for (const auto& partition_node : tsl_node.child("alpha_partitions")) {
           result.emplace_back(partition_node);
diff --git a/src/ThermalScattering.hpp b/src/ThermalScattering.hpp
index 25b2d06..e45d3d2 100644
--- a/src/ThermalScattering.hpp
+++ b/src/ThermalScattering.hpp
@@ -28,7 +28,7 @@ public:
   /// @brief Dimensionless momentum transfer
   using Alpha = Real;
   /// @brief Constructs thermal scattering data from a `tsl` node
-  ThermalScattering(const pugi::xml_node& tsl_node) noexcept;
+  ThermalScattering(const pugi::xml_node& tsl_node);
   /// @brief Returns true if Particle is Type::neutron and is strictly below
   ///        the cutoff energy
   bool IsValid(const Particle& p) const noexcept;
-- 
2.43.0


From 886178d75e1fdcd7108698a1056381790b3cec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 09/25] fix: accept delta tracking collisions by the total
 where they happen

The acceptance probability used the temperature at the start of the flight.
---
 src/TransportMethod.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index 244697e..1a7d83a 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -117,18 +117,20 @@ Bank CellDeltaTracking::Transport(
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
     }
-    else if (std::bernoulli_distribution{
-                 p.GetCell().material->GetMicroscopicTotal(p) /
-                 p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
-      // a real collision occurs
-      p.Stream(distance_to_collision);
-      const auto& nuclide = p.SampleNuclide();
-      nuclide.Interact(p);
-    }
     else {
-      // a virtual collision occurs, do nothing
+      // whether a collision is real depends on where it happens
       p.Stream(distance_to_collision);
-      p.event = Particle::Event::virtual_collision;
+      if (std::bernoulli_distribution{
+              p.GetCell().material->GetMicroscopicTotal(p) /
+              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
+        // a real collision occurs
+        const auto& nuclide = p.SampleNuclide();
+        nuclide.Interact(p);
+      }
+      else {
+        // a virtual collision occurs, do nothing
+        p.event = Particle::Event::virtual_collision;
+      }
     }
     e.Score(p);
   }
-- 
2.43.0


From 0a773a8b771858afd2649cfd29e994031a110c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 10/25] fix: a vanishing variance was reported as not a number

---
 src/Scorable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index 9d9f58c..78afcfc 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -61,7 +61,9 @@ std::string Scorable::GetScoreAsString(const Real total_weight) const noexcept {
   for (size_t i = 0; i < scores.size(); i++) { // gross
     const auto& score = scores[i];
     const auto& square_score = square_scores[i];
-    sstream << std::sqrt(square_score - score * score / total_weight) /
+    // rounding may leave a vanishing variance slightly negative
+    sstream << std::sqrt(std::max(
+                   Real{0}, square_score - score * score / total_weight)) /
                    total_weight
             << ", ";
   }
-- 
2.43.0


From 66f281bd0a0b529343d5b70ff5ceb0f1218778b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 11/25] fix: evaluations at a higher temperature were taken to
 be valid

The relative temperature difference was compared without its sign, so free gas
adjustment was skipped below the evaluated temperature. The majorant covers
energies at which only the highest temperature calls for the adjustment.
---
 src/ContinuousEvaluation.cpp |  4 +++-
 src/ContinuousReaction.cpp   | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ContinuousEvaluation.cpp b/src/ContinuousEvaluation.cpp
index db8f13a..9638611 100644
--- a/src/ContinuousEvaluation.cpp
+++ b/src/ContinuousEvaluation.cpp
@@ -4,6 +4,8 @@
 #include "HDF5DataSet.hpp"
 #include "pugixml.hpp"
 
+#include <cmath>
+
 // ContinuousEvaluation
 
 //// public
@@ -15,6 +17,6 @@ ContinuousEvaluation::ContinuousEvaluation(
       temperature{evaluation_node.attribute("temperature").as_double()} {}
 
 bool ContinuousEvaluation::IsValid(Temperature requested) const noexcept {
-  const auto relative_error = (requested - temperature) / temperature;
+  const auto relative_error = std::abs(requested - temperature) / temperature;
   return relative_error < constants::relative_temperature_difference_tolerance;
 }
diff --git a/src/ContinuousReaction.cpp b/src/ContinuousReaction.cpp
index 214b680..bdabfc8 100644
--- a/src/ContinuousReaction.cpp
+++ b/src/ContinuousReaction.cpp
@@ -9,6 +9,7 @@
 #include "ScalarField.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <random>
@@ -85,10 +86,13 @@ ContinuousScatter::GetMajorant(const Particle& p) const noexcept {
   }
   else if (IsFreeGasScatteringValid(p, T_max)) {
     // unadjust evaluated temperature then readjust cross section to requested
-    // temperature
-    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy())) /
-           GetFreeGasScatterAdjustment(p, evaluation.temperature) *
-           GetFreeGasScatterAdjustment(p, T_max);
+    // temperature; below T_max, free gas scattering may not be valid and the
+    // cross section is not adjusted
+    const auto xs =
+        evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
+    return std::max(
+        xs, xs / GetFreeGasScatterAdjustment(p, evaluation.temperature) *
+                GetFreeGasScatterAdjustment(p, T_max));
   }
   else {
     return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
-- 
2.43.0


From 2d28cdedeed1ef37766e18f91efe6ff68afa36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 12/25] fix: ContinuousMap::at did not compile for nested maps

---
 src/ContinuousMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ContinuousMap.hpp b/src/ContinuousMap.hpp
index 3c8beaf..7fe5526 100644
--- a/src/ContinuousMap.hpp
+++ b/src/ContinuousMap.hpp
@@ -18,7 +18,7 @@ public:
   /// @tparam Args Type of inner keys
   /// @todo Support other interpolation methods
   template <typename... Args>
-  T at(const Key k, Args... inner_keys) const noexcept {
+  auto at(const Key k, Args... inner_keys) const noexcept {
     const auto it_hi = elements.upper_bound(k);
     if constexpr (sizeof...(Args) == 0){
       // base case
-- 
2.43.0


From 75f6c08e2b4af3f045b0058b08101a0dd8046726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 13/25] fix: continuous data without a total cross section were
 refused

The schema makes the total optional; without it, the total is the sum of the
reactions.
---
 src/Continuous.cpp | 18 ++++++++++++------
 src/Continuous.hpp |  3 ++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Continuous.cpp b/src/Continuous.cpp
index b6f867c..bcffa05 100644
--- a/src/Continuous.cpp
+++ b/src/Continuous.cpp
@@ -20,15 +20,20 @@
 //// public
 
 Continuous::Continuous(const pugi::xml_node& particle_node)
-    : reactions{CreateReactions(particle_node)}, total{particle_node.child(
-                                                     "total")} {}
+    : reactions{CreateReactions(particle_node)},
+      total{
+          particle_node.child("total")
+              ? std::make_optional<ContinuousEvaluation>(
+                    particle_node.child("total"))
+              : std::nullopt} {}
 
 MicroscopicCrossSection
 Continuous::GetMajorant(const Particle& p) const noexcept {
   // majorant cross section is assumed to occur at maximum temperature in Cell
   const auto majorant_temperature = p.GetCell().temperature->upper_bound;
-  if (!ReactionsModifyTotal(p) && total.IsValid(majorant_temperature)) {
-    return total.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
+  if (!ReactionsModifyTotal(p) && total.has_value() &&
+      total->IsValid(majorant_temperature)) {
+    return total->xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
   }
   else {
     return std::accumulate(
@@ -42,8 +47,9 @@ Continuous::GetMajorant(const Particle& p) const noexcept {
 MicroscopicCrossSection Continuous::GetTotal(const Particle& p) const noexcept {
   const auto requested_temperature =
       p.GetCell().temperature->at(p.GetPosition());
-  if (!ReactionsModifyTotal(p) && total.IsValid(requested_temperature)) {
-    return total.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
+  if (!ReactionsModifyTotal(p) && total.has_value() &&
+      total->IsValid(requested_temperature)) {
+    return total->xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
   }
   else {
     return std::accumulate(
diff --git a/src/Continuous.hpp b/src/Continuous.hpp
index 6667171..b48cc77 100644
--- a/src/Continuous.hpp
+++ b/src/Continuous.hpp
@@ -6,6 +6,7 @@
 #include "Interaction.hpp"
 
 #include <memory>
+#include <optional>
 #include <vector>
 
 namespace pugi {
@@ -43,5 +44,5 @@ private:
   // Cross section data for mutually exclusive reactions
   const std::vector<std::unique_ptr<const ContinuousReaction>> reactions;
   // Total cross section provided in nuclear data files
-  const ContinuousEvaluation total;
+  const std::optional<ContinuousEvaluation> total;
 };
-- 
2.43.0


From 40c5eff88e481e221280ef259ab098d9214adeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 14/25] fix: results depended on the addresses of nuclides and
 surfaces

---
 src/Cell.cpp     |  6 ++++++
 src/Cell.hpp     | 11 ++++++++++-
 src/Material.cpp |  8 +++++++-
 src/Material.hpp | 12 +++++++++++-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 99436ed..788be16 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -54,6 +54,12 @@ bool Cell::operator==(const Cell& rhs) const noexcept { return this == &rhs; }
 
 //// private
 
+bool Cell::CSGSurfaceNameLess::operator()(
+    const std::shared_ptr<const CSGSurface>& lhs,
+    const std::shared_ptr<const CSGSurface>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 Cell::SurfaceSenses Cell::AssignSurfaceSenses(
     const pugi::xml_node& cell_node,
     const CSGSurfaceVector& all_surfaces) noexcept {
diff --git a/src/Cell.hpp b/src/Cell.hpp
index 1172c61..8564b90 100644
--- a/src/Cell.hpp
+++ b/src/Cell.hpp
@@ -24,10 +24,19 @@ private:
   // A polymorphic vector of CSGSurface objects. Multiple Cell objects can
   // share the same CSGSurface object.
   using CSGSurfaceVector = std::vector<std::shared_ptr<const CSGSurface>>;
+  // Orders CSGSurface objects by their unique name. Ordering by address would
+  // make the choice between coinciding CSGSurface objects depend on memory
+  // layout.
+  struct CSGSurfaceNameLess {
+    bool operator()(
+        const std::shared_ptr<const CSGSurface>& lhs,
+        const std::shared_ptr<const CSGSurface>& rhs) const noexcept;
+  };
   // Map from (polymorphic) CSGSurface object to a bool corresponding to the
   // "sense" of the CSGSurface. Multiple Cell objects can share the same
   // CSGSurface object.
-  using SurfaceSenses = std::map<std::shared_ptr<const CSGSurface>, bool>;
+  using SurfaceSenses =
+      std::map<std::shared_ptr<const CSGSurface>, bool, CSGSurfaceNameLess>;
   // A vector of Material objects. Multiple Cell objects can share the same
   // Material object.
   using MaterialVector = std::vector<std::shared_ptr<const Material>>;
diff --git a/src/Material.cpp b/src/Material.cpp
index 9a5bbdf..9c44a33 100644
--- a/src/Material.cpp
+++ b/src/Material.cpp
@@ -9,10 +9,16 @@
 #include <stdexcept>
 #include <type_traits>
 
-// Cell
+// Material
 
 //// public
 
+bool Material::NuclideNameLess::operator()(
+    const std::shared_ptr<const Nuclide>& lhs,
+    const std::shared_ptr<const Nuclide>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 pugi::xml_node Material::FindNode(
     const pugi::xml_node& root, const std::string& material_name) {
   const auto& materials_node{root.child("materials")};
diff --git a/src/Material.hpp b/src/Material.hpp
index 63338c0..777184d 100644
--- a/src/Material.hpp
+++ b/src/Material.hpp
@@ -16,8 +16,18 @@ class Particle;
 /// @details Nuclear properties are in NuclearData objects
 class Material {
 public:
+  /// @brief Orders Nuclide objects by name
+  /// @details Nuclide::name is unique in a Material. Ordering by address would
+  ///          make sampled Nuclide objects depend on memory layout.
+  struct NuclideNameLess {
+    /// @brief Returns true if the name of lhs precedes the name of rhs
+    bool operator()(
+        const std::shared_ptr<const Nuclide>& lhs,
+        const std::shared_ptr<const Nuclide>& rhs) const noexcept;
+  };
   /// @brief Nuclide objects and their associated atom fractions
-  using AtomFractions = std::map<std::shared_ptr<const Nuclide>, Real>;
+  using AtomFractions =
+      std::map<std::shared_ptr<const Nuclide>, Real, NuclideNameLess>;
   /// @brief Find `material` node with given name in XML document
   /// @param root Root node of existing XML document
   /// @param material_name Value of `name` attribute of `material` node
-- 
2.43.0


From 081946f331b67f811594e44f7955c3bc1cce38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:36 +0000
Subject: [PATCH 15/25] fix: histories and seeds of 2^31 or more were refused

---
 src/Driver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Driver.cpp b/src/Driver.cpp
index 7455389..33fff75 100644
--- a/src/Driver.cpp
+++ b/src/Driver.cpp
@@ -37,8 +37,8 @@ Driver::Create(const std::filesystem::path& xml_filepath) {
 Driver::Driver(const pugi::xml_node& root)
     : world{root}, perturbations{root.child("perturbations"), world},
       batchsize(
-          std::stoi(root.child("general").child("histories").child_value())),
-      seed(std::stoi(
+          std::stoull(root.child("general").child("histories").child_value())),
+      seed(std::stoull(
           root.child("general").child("seed")
               ? root.child("general").child("seed").child_value()
               : "1")),
-- 
2.43.0


From 248b3d9e8f8defd3120b1f827da1148bb880be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 16/25] fix: a source without a particle type aborted

---
 src/Source.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Source.cpp b/src/Source.cpp
index 6bb1d47..b5d98a9 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -8,6 +8,7 @@
 #include <cmath>
 #include <iosfwd>
 #include <random>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 #include <variant>
@@ -76,8 +77,13 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
   }
   else if constexpr (std::is_same_v<T, Particle::Type>) {
     if (distribution_name == "constant") {
-      const auto particle_type =
-          Particle::ToType(distribution_node.attribute("type").as_string());
+      // the validator does not require this attribute
+      const auto& type_attribute = distribution_node.attribute("type");
+      if (!type_attribute) {
+        throw std::runtime_error(
+            distribution_node.path() + ": \"type\" attribute not found");
+      }
+      const auto particle_type = Particle::ToType(type_attribute.as_string());
       return std::make_unique<ConstantDistribution<T>>(particle_type);
     }
   }
-- 
2.43.0


From 47cdaed14d29e519d85ee13d2eceb18e03c30e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 17/25] fix: names from Xerces were freed with the wrong
 operator

---
 src/XMLDocument.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index d9d556d..59f61c3 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -7,7 +7,6 @@
 #include "xercesc/util/XMLString.hpp"
 
 #include <iosfwd>
-#include <memory>
 #include <stdexcept>
 #include <string>
 
@@ -16,9 +15,11 @@ XMLDocument::XMLDocument(const std::filesystem::path& xml_filepath)
 
 // Convert from XMLCh array to std::string
 std::string toCharString(const XMLCh* const str) {
-  // unique_ptr is here because transcode gives us ownership of a char array
-  std::unique_ptr<const char[]> p{xercesc::XMLString::transcode(str)};
-  return std::string{p.get()};
+  // transcode gives us ownership of a char array which Xerces must release
+  char* transcoded = xercesc::XMLString::transcode(str);
+  const std::string result{transcoded};
+  xercesc::XMLString::release(&transcoded);
+  return result;
 }
 
 // RAII wrapper for initializing and terminating the Xerces system.
-- 
2.43.0


From 5d810de97c60a5f41cbe26107ec18beb97019e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 18/25] fix: comments inside a value hid what follows them

---
 src/XMLDocument.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index 59f61c3..398b25c 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -71,6 +71,34 @@ public:
   }
 };
 
+// Joins the text of each element into one node. Comments inside a value would
+// otherwise hide everything that follows them from xml_node::child_value().
+// Text which is only whitespace is discarded.
+void JoinText(pugi::xml_node node) {
+  pugi::xml_node text;
+  for (auto child = node.first_child(); child;) {
+    const auto next = child.next_sibling();
+    if (child.type() == pugi::node_element) {
+      JoinText(child);
+    }
+    else if (
+        child.type() == pugi::node_pcdata || child.type() == pugi::node_cdata) {
+      if (text) {
+        text.set_value((std::string{text.value()} + child.value()).c_str());
+        node.remove_child(child);
+      }
+      else {
+        text = child;
+      }
+    }
+    child = next;
+  }
+  if (text && std::string{text.value()}.find_first_not_of(" \t\r\n") ==
+                  std::string::npos) {
+    node.remove_child(text);
+  }
+}
+
 pugi::xml_document
 XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   // Xerces-C++ validation
@@ -84,8 +112,11 @@ XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   parser.parse(xml_filepath.string().c_str());
   // pugixml DOM construction
   pugi::xml_document doc{};
-  if (auto result = doc.load_file(xml_filepath.c_str()); !result) {
+  if (auto result = doc.load_file(
+          xml_filepath.c_str(), pugi::parse_default | pugi::parse_ws_pcdata);
+      !result) {
     throw std::runtime_error(result.description());
   }
+  JoinText(doc);
   return doc;
 }
-- 
2.43.0


From b01d566aa5cb333615ab770caec3f053008e05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 19/25] fix: decorrelate histories with consecutive seeds

---
 src/Source.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Source.cpp b/src/Source.cpp
index b5d98a9..95b2164 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -147,8 +147,10 @@ Source::Source(const pugi::xml_node& source_node)
           source_node.child("particletype"))} {}
 
 Particle Source::Sample(RNG::result_type seed) const noexcept {
+  // consecutive seeds would yield strongly correlated random numbers
+  std::seed_seq seed_sequence{seed};
+  RNG rng{seed_sequence};
   // evaluation order of arguments is undefined so do evaluation here
-  RNG rng{seed};
   auto sampled_position = position->Sample(rng);
   auto sampled_direction = direction->Sample(rng);
   auto sampled_energy = energy->Sample(rng);
-- 
2.43.0


From 05d12dddd47197b70f025bb384342c0bf49a7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:56 +0000
Subject: [PATCH 20/25] fix: give secondaries random numbers of their own

---
 src/Particle.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 3a59b98..ede466c 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -95,8 +95,11 @@ void Particle::SetCell(const Cell& c) noexcept { cell = &c; };
 
 void Particle::BankSecondaries(
     const Direction& direction, const Energy& energy) noexcept {
+  // a secondary seeded with the next random number itself would repeat the
+  // random numbers from which its siblings are yet to be sampled
+  std::seed_seq seed_sequence{rng()};
   secondaries.emplace_back(
-      position, direction, energy, Type::neutron, rng(), cell);
+      position, direction, energy, Type::neutron, RNG{seed_sequence}(), cell);
 }
 
 void Particle::MoveSecondariesTo(Bank& bank) noexcept {
-- 
2.43.0


From 4016ee86221a1004c2592ef5d2fbc33e70fa70d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:27 +0000
Subject: [PATCH 21/25] fix: bins whose boundaries do not increase or are not
 finite were accepted

A logarithmic axis with a base of at most 1, an axis with a bound which is NaN
or INF and a list of boundaries interrupted by such a number were used without
a message; scores ended up in bins which do not contain them.
---
 src/Bins.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index d453935..250979d 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -63,6 +63,10 @@ LinspaceBins::LinspaceBins(const pugi::xml_node& linspace_node)
           throw std::runtime_error(
               linspace_node.path() + ": max must be strictly greater than min");
         }
+        if (!std::isfinite(upper_bound - lower_bound)) {
+          throw std::runtime_error(
+              linspace_node.path() + ": min and max must be finite");
+        }
         return upper_bound;
       }()},
       bin_width{(upper_bound - lower_bound) / (n_bins - 2)} {}
@@ -95,7 +99,15 @@ std::string LinspaceBins::to_string() const noexcept {
 
 LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
     : n_bins{logspace_node.attribute("bins").as_ullong() + 2},
-      base{logspace_node.attribute("base").as_double(10)},
+      base{[&logspace_node]() {
+        const auto base = logspace_node.attribute("base").as_double(10);
+        // boundaries would not increase, or have no logarithm
+        if (!(base > 1) || !std::isfinite(base)) {
+          throw std::runtime_error(
+              logspace_node.path() + ": base must be strictly greater than 1");
+        }
+        return base;
+      }()},
       log_lower_bound{logspace_node.attribute("min").as_double()},
       log_upper_bound{[this, &logspace_node]() {
         const auto log_upper_bound = logspace_node.attribute("max").as_double();
@@ -103,6 +115,10 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
           throw std::runtime_error(
               logspace_node.path() + ": max must be strictly greater than min");
         }
+        if (!std::isfinite(log_upper_bound - log_lower_bound)) {
+          throw std::runtime_error(
+              logspace_node.path() + ": min and max must be finite");
+        }
         return log_upper_bound;
       }()},
       log_bin_width{(log_upper_bound - log_lower_bound) / (n_bins - 2)} {}
@@ -154,6 +170,11 @@ BoundaryBins::BoundaryBins(const pugi::xml_node& boundaries_node)
           result.push_back(boundary);
           prev_boundary = boundary;
         }
+        // the schema allows numbers which are not finite
+        if (!boundary_stringlist.eof()) {
+          throw std::runtime_error(
+              boundaries_node.path() + ": boundaries must be finite");
+        }
         return result;
       }()} {}
 
-- 
2.43.0


From 9e4cafb31ced5605cfd827d91c3dea81fc2b7507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:48 +0000
Subject: [PATCH 22/25] fix: group values after a number which is not finite
 were ignored

A list such as "1 INF" was taken to have one entry.
---
 src/Multigroup.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Multigroup.cpp b/src/Multigroup.cpp
index d36dedf..4300b3f 100644
--- a/src/Multigroup.cpp
+++ b/src/Multigroup.cpp
@@ -86,6 +86,10 @@ Multigroup::OneDimensional::OneDimensional(const pugi::xml_node& groupxs_node) {
   while (element_stringlist >> element) {
     elements.push_back(element);
   }
+  // the schema allows numbers which are not finite
+  if (!element_stringlist.eof()) {
+    throw std::runtime_error(groupxs_node.path() + ": entries must be finite");
+  }
   if (elements.size() != G) {
     throw std::runtime_error(
         groupxs_node.path() + ": Expected " + std::to_string(G) +
@@ -130,6 +134,10 @@ Multigroup::TwoDimensional::TwoDimensional(const pugi::xml_node& groupxs_node) {
   while (element_stringlist >> element) {
     flattened.push_back(element);
   }
+  // the schema allows numbers which are not finite
+  if (!element_stringlist.eof()) {
+    throw std::runtime_error(groupxs_node.path() + ": entries must be finite");
+  }
   const size_t expected_size{G * G};
   if (flattened.size() != expected_size) {
     throw std::runtime_error(
-- 
2.43.0


From 787b9343b1f98e9036cc7784f259b6eb3ed98d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 23/25] fix: a source group outside the group structure aborted
 the first history

A group with a fraction or an exponent was cut off at the first character which
is not a digit.
---
 src/Source.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Source.cpp b/src/Source.cpp
index 95b2164..f1c261b 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -63,8 +63,21 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
       const std::string energy_value =
           distribution_node.attribute("energy").as_string();
       if (energy_type == "multigroup") {
+        const auto group = distribution_node.attribute("energy").as_double();
+        const auto max_group = property_node.root()
+                                   .child("minimc")
+                                   .child("nuclides")
+                                   .first_child()
+                                   .attribute("groups")
+                                   .as_uint();
+        // the validator accepts any positive number
+        if (group < 1 || group > max_group || group != std::floor(group)) {
+          throw std::runtime_error(
+              distribution_node.path() + ": group must be an integer from 1 to " +
+              std::to_string(max_group) + " but got " + energy_value);
+        }
         return std::make_unique<ConstantDistribution<T>>(
-            Group{std::stoull(energy_value)});
+            static_cast<Group>(group));
       }
       else if (energy_type == "continuous") {
         return std::make_unique<ConstantDistribution<T>>(
-- 
2.43.0


From 276b79fef15a074a561c52391ed827f148646aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:17 +0000
Subject: [PATCH 24/25] fix: a source of particles which are not transported
 aborted the first history

---
 src/Source.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Source.cpp b/src/Source.cpp
index f1c261b..74b52ed 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -4,10 +4,12 @@
 #include "Constants.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
-#include <iosfwd>
+#include <iterator>
 #include <random>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
@@ -96,7 +98,22 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
         throw std::runtime_error(
             distribution_node.path() + ": \"type\" attribute not found");
       }
-      const auto particle_type = Particle::ToType(type_attribute.as_string());
+      // there is only data for the types of particles which are transported
+      std::stringstream particle_name_list{property_node.root()
+                                               .child("minimc")
+                                               .child("general")
+                                               .child("particles")
+                                               .child_value()};
+      const std::string type_name = type_attribute.as_string();
+      if (std::find(
+              std::istream_iterator<std::string>{particle_name_list},
+              std::istream_iterator<std::string>{},
+              type_name) == std::istream_iterator<std::string>{}) {
+        throw std::runtime_error(
+            distribution_node.path() + ": \"" + type_name +
+            "\" is not listed among the particles of the problem");
+      }
+      const auto particle_type = Particle::ToType(type_name);
       return std::make_unique<ConstantDistribution<T>>(particle_type);
     }
   }
-- 
2.43.0


From 0ea78f629df6281f17942840f47dda8dc71a687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:00 +0000
Subject: [PATCH 25/25] fix: a source in a void or outside all cells crashed
 the first history

---
 src/FixedSource.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index fee2165..05170c2 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -1,5 +1,6 @@
 #include "FixedSource.hpp"
 
+#include "Cell.hpp"
 #include "Particle.hpp"
 #include "TransportMethod.hpp"
 #include "pugixml.hpp"
@@ -9,6 +10,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -17,7 +19,14 @@
 //// public
 
 FixedSource::FixedSource(const pugi::xml_node& root)
-    : Driver{root}, source{root.child("problemtype").child("fixedsource")} {};
+    : Driver{root}, source{root.child("problemtype").child("fixedsource")} {
+  // a history cannot begin where there is nothing to be transported through
+  if (!world.FindCellContaining(source.Sample(seed).GetPosition()).material) {
+    throw std::runtime_error(
+        root.child("problemtype").child("fixedsource").path() +
+        ": source must not lie in a void");
+  }
+};
 
 EstimatorSet FixedSource::Solve() {
   std::vector<std::future<EstimatorSet>> worker_estimator_sets;
-- 
2.43.0


From 33578833fd8909a4f2bcecf97a8559007c1547d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 01/38] fix: compare square distance to cylinder axis against
 square radius

CylinderX::Contains compared the distance to the axis with the square of the
radius, so any cylinder whose radius is not one had the wrong inside (and a
point on the axis could produce the square root of a negative number).
---
 src/CSGSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index b4c214b..cc0a01f 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -170,5 +170,5 @@ bool CylinderX::Contains(const Point& p) const noexcept {
   const auto pw = p.Dot(w);
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return std::sqrt(pp - pw * pw) < radius * radius;
+  return pp - pw * pw < radius * radius;
 }
-- 
2.43.0


From bbdd3f13bab55d522a26ecfc91a79a05498b1c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 02/38] fix: accept delta tracking collisions using the cross
 section at the site

CellDeltaTracking evaluated the total cross section where the flight began
rather than at the tentative collision site, which is wrong whenever the
temperature varies within the Cell.
---
 src/TransportMethod.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b1535da..d767bc8 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -103,18 +103,21 @@ Bank CellDeltaTracking::Transport(
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
     }
-    else if (std::bernoulli_distribution{
-                 p.GetCell().material->GetMicroscopicTotal(p) /
-                 p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
-      // a real collision occurs
-      p.Stream(distance_to_collision);
-      const auto& nuclide = p.SampleNuclide();
-      nuclide.Interact(p);
-    }
     else {
-      // a virtual collision occurs, do nothing
+      // stream first since the total cross section must be evaluated where the
+      // collision occurs
       p.Stream(distance_to_collision);
-      p.event = Particle::Event::virtual_collision;
+      if (std::bernoulli_distribution{
+              p.GetCell().material->GetMicroscopicTotal(p) /
+              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
+        // a real collision occurs
+        const auto& nuclide = p.SampleNuclide();
+        nuclide.Interact(p);
+      }
+      else {
+        // a virtual collision occurs, do nothing
+        p.event = Particle::Event::virtual_collision;
+      }
     }
     e.Score(p);
   }
-- 
2.43.0


From 3eb5d9747d9db1fc3874354248917950776302df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 03/38] fix: run all histories each time FixedSource::Solve is
 called

The history counter was never reset so a second call returned all zeros.
---
 src/FixedSource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index fee2165..4cdf7be 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -20,6 +20,8 @@ FixedSource::FixedSource(const pugi::xml_node& root)
     : Driver{root}, source{root.child("problemtype").child("fixedsource")} {};
 
 EstimatorSet FixedSource::Solve() {
+  // a previous call to Solve will have used up all the histories
+  histories_elapsed = 0;
   std::vector<std::future<EstimatorSet>> worker_estimator_sets;
   std::cout << "Spawning " << std::to_string(threads) << " threads working on "
             << std::to_string(batchsize) << " histories..." << std::endl;
-- 
2.43.0


From c19b5c806020f4ac64b5a8ce8632e8049136ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 04/38] fix: place nonpositive values in the lowest logarithmic
 bin

The logarithm of a negative value (such as a direction cosine) is NaN which
was converted to an unsigned index outside of the bins.
---
 src/Bins.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 66403b1..5e5c325 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -110,6 +110,10 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
 size_t LogspaceBins::size() const noexcept { return n_bins; }
 
 size_t LogspaceBins::GetIndex(const Real& v) const noexcept {
+  if (v <= 0) {
+    // logarithm is not defined, below any boundary
+    return 0;
+  }
   const auto log_v = std::log(v) / std::log(base);
   if (log_v < log_lower_bound) {
     return 0;
-- 
2.43.0


From f428d67d03d1897fe24cfb939a44e4a2e87ea954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 05/38] fix: do not report NaN standard deviation when variance
 vanishes

When every history contributes the same noninteger score, rounding error could
make the argument of the square root negative.
---
 src/Scorable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index cfcf088..656b875 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -61,7 +61,9 @@ std::string Scorable::GetScoreAsString(const Real total_weight) const noexcept {
   for (size_t i = 0; i < scores.size(); i++) { // gross
     const auto& score = scores[i];
     const auto& square_score = square_scores[i];
-    sstream << std::sqrt(square_score - score * score / total_weight) /
+    // rounding error may make the difference slightly negative
+    sstream << std::sqrt(std::max(
+                   square_score - score * score / total_weight, Real{0})) /
                    total_weight
             << ", ";
   }
-- 
2.43.0


From 35556346344c568f5cc5da14d87095047f37862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 06/38] fix: use data at the highest temperature above the
 tabulated range

---
 src/ThermalScattering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bbc3dec..510d623 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -151,7 +151,7 @@ ThermalScattering::GetTotal(const Particle& p) const noexcept {
   const auto T_lo = Ts.at(T_lo_i);
   const auto T_hi = Ts.at(T_hi_i);
   const auto r_T = below_T_min   ? 1
-                   : above_T_max ? 0
+                   : above_T_max ? 1
                                  : (T - T_lo) / (T_hi - T_lo);
   return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);
 }
-- 
2.43.0


From 613619fa2dcf9ef0274f03300bbe0ff1daf11da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 07/38] fix: avoid division by zero below the lowest tabulated
 temperature

---
 src/ThermalScattering.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 510d623..69a4cee 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -210,7 +210,9 @@ ThermalScattering::Beta ThermalScattering::BetaPartition::Evaluate(
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
   const Real sampled_beta =
-      beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);
+      below_T_min
+          ? beta_T_lo
+          : beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);
   return sampled_beta;
 }
 
@@ -251,7 +253,9 @@ ThermalScattering::Alpha ThermalScattering::AlphaPartition::Evaluate(
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
   const Real sampled_alpha =
-      alpha_T_lo + (alpha_T_hi - alpha_T_lo) / (T_hi - T_lo) * (T - T_lo);
+      below_T_min
+          ? alpha_T_lo
+          : alpha_T_lo + (alpha_T_hi - alpha_T_lo) / (T_hi - T_lo) * (T - T_lo);
   return sampled_alpha;
 }
 
-- 
2.43.0


From 9d7c0e0e5f311b5c8bb6c88b85ddde9d32e24e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 08/38] fix: interpolate between neighboring beta grids when
 sampling alpha

---
 src/ThermalScattering.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 69a4cee..7b09157 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -356,8 +356,10 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   // b_lo <= abs_b < b_hi
   // For positive b, if beta_cutoff <= b_hi, we force the use of b_lo
   // For negative b, if -b_hi < - E / (k * T), we force the use of b_lo
+  // If abs_b is not below the largest beta provided, there is only b_lo
   const bool snap_to_lower =
-      ((sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
+      (b_hi_i == betas.size() ||
+       (sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
        (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T)));
   // Handle case where abs_b is less than the smallest beta provided, b_min
   const bool snap_to_min = b_hi_i == 0;
@@ -365,8 +367,8 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   const Real r = snap_to_lower ? 0
                  : snap_to_min
                      ? 1
-                     : (abs_b - betas.at(b_hi_i - 1) /
-                                    (betas.at(b_hi_i) - betas.at(b_hi_i - 1)));
+                     : (abs_b - betas.at(b_hi_i - 1)) /
+                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
   Beta b_s = sgn_b * betas.at(b_s_i);
-- 
2.43.0


From 21869b8c7c6972f6da9854efec4a4f1899b9d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:58 +0000
Subject: [PATCH 09/38] fix: let exceptions thrown for unusable input reach the
 caller

---
 src/Bins.cpp              | 2 +-
 src/Bins.hpp              | 2 +-
 src/Estimator.cpp         | 2 +-
 src/Estimator.hpp         | 2 +-
 src/Perturbation.cpp      | 4 ++--
 src/Perturbation.hpp      | 4 ++--
 src/Scorable.cpp          | 2 +-
 src/Scorable.hpp          | 2 +-
 src/ThermalScattering.cpp | 6 +++---
 src/ThermalScattering.hpp | 2 +-
 10 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 5e5c325..e755167 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -177,7 +177,7 @@ std::string BoundaryBins::to_string() const noexcept {
 
 //// public
 
-ParticleBins::ParticleBins(const pugi::xml_node& bins_node) noexcept
+ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
       direction{[&bins_node]() noexcept {
         const auto& cosine_node = bins_node.child("cosine");
diff --git a/src/Bins.hpp b/src/Bins.hpp
index 4a13170..e442420 100644
--- a/src/Bins.hpp
+++ b/src/Bins.hpp
@@ -132,7 +132,7 @@ private:
 class ParticleBins {
 public:
   /// @brief Constructs a ParticleBins from a `bins` node of an XML document
-  ParticleBins(const pugi::xml_node& bins_node) noexcept;
+  ParticleBins(const pugi::xml_node& bins_node);
   /// @brief Total number of bins used
   size_t size() const noexcept;
   /// @brief Maps a point in @ref estimators_phase_space "phase space" @f$ X
diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index cbf909e..a742ce2 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -75,7 +75,7 @@ Estimator& Estimator::operator+=(const Estimator& other) noexcept {
 
 Estimator::Estimator(
     const pugi::xml_node& estimator_node,
-    const PerturbationSet& perturbations) noexcept
+    const PerturbationSet& perturbations)
     : Scorable{
       estimator_node.attribute("name").as_string(),
       estimator_node.child("bins")},
diff --git a/src/Estimator.hpp b/src/Estimator.hpp
index 63f7c35..6ced3f3 100644
--- a/src/Estimator.hpp
+++ b/src/Estimator.hpp
@@ -46,7 +46,7 @@ protected:
   /// @brief Constructs an Estimator from an XML node
   Estimator(
       const pugi::xml_node& estimator_node,
-      const PerturbationSet& perturbations) noexcept;
+      const PerturbationSet& perturbations);
 
 private:
   // Sensitivity objects which depend on this Estimator
diff --git a/src/Perturbation.cpp b/src/Perturbation.cpp
index 8326cab..9f7c358 100644
--- a/src/Perturbation.cpp
+++ b/src/Perturbation.cpp
@@ -20,7 +20,7 @@
 //// public
 
 std::unique_ptr<Perturbation> Perturbation::Create(
-    const pugi::xml_node& perturbation_node, const World& world) noexcept {
+    const pugi::xml_node& perturbation_node, const World& world) {
   const std::string perturbation_type = perturbation_node.name();
   if (perturbation_type == "total") {
     return std::make_unique<TotalCrossSectionPerturbation>(
@@ -87,7 +87,7 @@ Real TotalCrossSectionPerturbation::Scatter(
 //// public
 
 PerturbationSet::PerturbationSet(
-    const pugi::xml_node& perturbations_node, const World& world) noexcept
+    const pugi::xml_node& perturbations_node, const World& world)
     : perturbations{[&perturbations_node, &world]() {
         std::vector<std::unique_ptr<const Perturbation>> result;
         for (const auto& perturbation_node : perturbations_node) {
diff --git a/src/Perturbation.hpp b/src/Perturbation.hpp
index 4ccc600..d7a6849 100644
--- a/src/Perturbation.hpp
+++ b/src/Perturbation.hpp
@@ -25,7 +25,7 @@ public:
   /// @brief Factory method to create a new Perturbation from a perturbation
   ///        node of an XML document
   static std::unique_ptr<Perturbation>
-  Create(const pugi::xml_node& perturbation_node, const World& world) noexcept;
+  Create(const pugi::xml_node& perturbation_node, const World& world);
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Perturbation() noexcept;
   /// @brief Create a Sensitivity estimator from a `perturbation` child of a
@@ -84,7 +84,7 @@ public:
   /// @brief Constructs a PerturbationSet from a `perturbations` node of an XML
   ///        document
   PerturbationSet(
-      const pugi::xml_node& perturbations_node, const World& world) noexcept;
+      const pugi::xml_node& perturbations_node, const World& world);
   /// @brief Returns the Perturbation with the given name
   /// @exception std::runtime_error Perturbation with given name not found
   /// @todo Template along with EstimatorSet::FindEstimatorByName
diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index 656b875..04899ad 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -15,7 +15,7 @@
 //// public
 
 Scorable::Scorable(
-    const std::string& name, const pugi::xml_node& bins_node) noexcept
+    const std::string& name, const pugi::xml_node& bins_node)
     : name{name}, bins{std::make_shared<ParticleBins>(bins_node)},
       scores(bins->size(), 0), square_scores(bins->size(), 0) {}
 
diff --git a/src/Scorable.hpp b/src/Scorable.hpp
index 3c8b756..7ed79ca 100644
--- a/src/Scorable.hpp
+++ b/src/Scorable.hpp
@@ -28,7 +28,7 @@ class Scorable {
 public:
   /// @brief Constructs a Scorable from a `bins` node of an XML document
   /// @details All scores are initialized to zero
-  Scorable(const std::string& name, const pugi::xml_node& bins_node) noexcept;
+  Scorable(const std::string& name, const pugi::xml_node& bins_node);
   /// @brief Constructs an Scorable from an existing estimator and
   ///        perturbation
   /// @details All scores are initialized to zero
diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 7b09157..7c643d4 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -22,14 +22,14 @@
 
 //// public
 
-ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
+ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
     : majorant{HDF5DataSet<1>{tsl_node.attribute("majorant").as_string()}
                    .ToContinuousMap()},
       scatter_xs_T{tsl_node.attribute("total_T").as_string()},
       scatter_xs_S{tsl_node.attribute("total_S").as_string()},
       scatter_xs_E{tsl_node.attribute("total_E").as_string()},
       // IIFE
-      beta_partitions{[&tsl_node]() noexcept {
+      beta_partitions{[&tsl_node]() {
         std::vector<BetaPartition> result;
         for (const auto& partition_node : tsl_node.child("beta_partitions")) {
           result.emplace_back(partition_node);
@@ -62,7 +62,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
         return result;
       }()},
       // IIFE
-      alpha_partitions{[&tsl_node]() noexcept {
+      alpha_partitions{[&tsl_node]() {
         std::vector<AlphaPartition> result;
         for (const auto& partition_node : tsl_node.child("alpha_partitions")) {
           result.emplace_back(partition_node);
diff --git a/src/ThermalScattering.hpp b/src/ThermalScattering.hpp
index 25b2d06..e45d3d2 100644
--- a/src/ThermalScattering.hpp
+++ b/src/ThermalScattering.hpp
@@ -28,7 +28,7 @@ public:
   /// @brief Dimensionless momentum transfer
   using Alpha = Real;
   /// @brief Constructs thermal scattering data from a `tsl` node
-  ThermalScattering(const pugi::xml_node& tsl_node) noexcept;
+  ThermalScattering(const pugi::xml_node& tsl_node);
   /// @brief Returns true if Particle is Type::neutron and is strictly below
   ///        the cutoff energy
   bool IsValid(const Particle& p) const noexcept;
-- 
2.43.0


From c50c162ea85f5a35f483230905d0d8e9d22893a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 10/38] fix: order nuclides and surfaces by name instead of by
 address

---
 src/Cell.cpp     |  6 ++++++
 src/Cell.hpp     | 10 +++++++++-
 src/Material.cpp |  6 ++++++
 src/Material.hpp | 11 ++++++++++-
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 99436ed..e36fb05 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -54,6 +54,12 @@ bool Cell::operator==(const Cell& rhs) const noexcept { return this == &rhs; }
 
 //// private
 
+bool Cell::CompareSurfaceName::operator()(
+    const std::shared_ptr<const CSGSurface>& lhs,
+    const std::shared_ptr<const CSGSurface>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 Cell::SurfaceSenses Cell::AssignSurfaceSenses(
     const pugi::xml_node& cell_node,
     const CSGSurfaceVector& all_surfaces) noexcept {
diff --git a/src/Cell.hpp b/src/Cell.hpp
index 1172c61..33bd4c0 100644
--- a/src/Cell.hpp
+++ b/src/Cell.hpp
@@ -24,10 +24,18 @@ private:
   // A polymorphic vector of CSGSurface objects. Multiple Cell objects can
   // share the same CSGSurface object.
   using CSGSurfaceVector = std::vector<std::shared_ptr<const CSGSurface>>;
+  // Orders CSGSurface objects by name so that iteration order does not depend
+  // on where objects happen to be allocated
+  struct CompareSurfaceName {
+    bool operator()(
+        const std::shared_ptr<const CSGSurface>& lhs,
+        const std::shared_ptr<const CSGSurface>& rhs) const noexcept;
+  };
   // Map from (polymorphic) CSGSurface object to a bool corresponding to the
   // "sense" of the CSGSurface. Multiple Cell objects can share the same
   // CSGSurface object.
-  using SurfaceSenses = std::map<std::shared_ptr<const CSGSurface>, bool>;
+  using SurfaceSenses =
+      std::map<std::shared_ptr<const CSGSurface>, bool, CompareSurfaceName>;
   // A vector of Material objects. Multiple Cell objects can share the same
   // Material object.
   using MaterialVector = std::vector<std::shared_ptr<const Material>>;
diff --git a/src/Material.cpp b/src/Material.cpp
index 9a5bbdf..564c358 100644
--- a/src/Material.cpp
+++ b/src/Material.cpp
@@ -13,6 +13,12 @@
 
 //// public
 
+bool Material::CompareNuclideName::operator()(
+    const std::shared_ptr<const Nuclide>& lhs,
+    const std::shared_ptr<const Nuclide>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 pugi::xml_node Material::FindNode(
     const pugi::xml_node& root, const std::string& material_name) {
   const auto& materials_node{root.child("materials")};
diff --git a/src/Material.hpp b/src/Material.hpp
index 63338c0..23935f4 100644
--- a/src/Material.hpp
+++ b/src/Material.hpp
@@ -16,8 +16,17 @@ class Particle;
 /// @details Nuclear properties are in NuclearData objects
 class Material {
 public:
+  /// @brief Orders Nuclide objects by name so that iteration order does not
+  ///        depend on where objects happen to be allocated
+  struct CompareNuclideName {
+    /// @brief Returns true if the name of lhs is ordered before the name of rhs
+    bool operator()(
+        const std::shared_ptr<const Nuclide>& lhs,
+        const std::shared_ptr<const Nuclide>& rhs) const noexcept;
+  };
   /// @brief Nuclide objects and their associated atom fractions
-  using AtomFractions = std::map<std::shared_ptr<const Nuclide>, Real>;
+  using AtomFractions =
+      std::map<std::shared_ptr<const Nuclide>, Real, CompareNuclideName>;
   /// @brief Find `material` node with given name in XML document
   /// @param root Root node of existing XML document
   /// @param material_name Value of `name` attribute of `material` node
-- 
2.43.0


From d5e8403337dc0f2209cd7779cc7beab09f79a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 11/38] fix: stream far enough beyond a surface to leave the
 current cell

---
 src/Constants.hpp       |  3 +++
 src/TransportMethod.cpp | 24 ++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Constants.hpp b/src/Constants.hpp
index 93a7ada..077f86f 100644
--- a/src/Constants.hpp
+++ b/src/Constants.hpp
@@ -13,6 +13,9 @@ namespace constants {
 constexpr Real pi = M_PI;
 /// @brief Additional distance to stream Particle to cross CSGSurface properly
 constexpr Real nudge = 10 * std::numeric_limits<Real>::epsilon();
+/// @brief Additional distance beyond which streaming is no longer extended to
+///        cross CSGSurface properly
+constexpr Real max_nudge = 1e-6;
 /// @brief Used to determine whether a Direction is too close to an axis. A
 ///        value of 0 means all directions are too close to the axis. A value
 ///        of 1 means any direction is far away enough from the axis. Must be
diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index d767bc8..4a2ea2f 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -6,6 +6,7 @@
 #include "Material.hpp"
 #include "Nuclide.hpp"
 #include "Particle.hpp"
+#include "Point.hpp"
 #include "World.hpp"
 #include "pugixml.hpp"
 
@@ -16,6 +17,25 @@
 #include <string>
 #include <type_traits>
 
+namespace {
+
+// Distance at which the Particle has left its current Cell through a surface
+// which is the given distance away. The smallest additional distance which
+// changes the position depends on the magnitude of its coordinates, so the
+// nudge is increased until the Particle is no longer in the Cell. A Particle
+// which merely grazes a surface may remain in the Cell.
+Real NudgedDistance(const Particle& p, const Real distance) noexcept {
+  auto nudge = constants::nudge;
+  while (nudge < constants::max_nudge &&
+         p.GetCell().Contains(
+             p.GetPosition() + p.GetDirection() * (distance + nudge))) {
+    nudge *= 2;
+  }
+  return distance + nudge;
+}
+
+} // namespace
+
 // TransportMethod
 
 //// public
@@ -65,7 +85,7 @@ Bank SurfaceTracking::Transport(
       nuclide.Interact(p);
     }
     else {
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(NudgedDistance(p, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
@@ -97,7 +117,7 @@ Bank CellDeltaTracking::Transport(
         p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
     if (distance_to_surface_crossing < distance_to_collision) {
       // a surface crossing occurs
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(NudgedDistance(p, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
-- 
2.43.0


From ea67313c532146db07a618b8a55c73bb9eaddbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 12/38] add observation points guarded by MINIMC_VERIF

---
 src/BasicTypes.hpp |  6 ++++
 src/Estimator.cpp  |  3 ++
 src/Particle.cpp   |  7 ++++-
 src/Source.cpp     |  2 ++
 src/Verif.hpp      | 71 ++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 88 insertions(+), 1 deletion(-)
 create mode 100644 src/Verif.hpp

diff --git a/src/BasicTypes.hpp b/src/BasicTypes.hpp
index 75d4f15..7415b2b 100644
--- a/src/BasicTypes.hpp
+++ b/src/BasicTypes.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "Verif.hpp"
+
 #include <cstdint>
 #include <random>
 #include <variant>
@@ -24,4 +26,8 @@ using Group = std::uint64_t;
 using Energy = std::variant<ContinuousEnergy, Group>;
 /// @brief Users may want to use a different random number generator in the
 ///        future
+#if defined(MINIMC_VERIF) && MINIMC_VERIF == 2
+using RNG = verif::ScriptedEngine;
+#else
 using RNG = std::minstd_rand;
+#endif
diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index a742ce2..f369b0f 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -3,6 +3,7 @@
 #include "Bins.hpp"
 #include "Particle.hpp"
 #include "Sensitivity.hpp"
+#include "Verif.hpp"
 #include "World.hpp"
 #include "pugixml.hpp"
 
@@ -245,12 +246,14 @@ EstimatorSetProxy::EstimatorSetProxy(const EstimatorSet& init) noexcept
       }()} {}
 
 void EstimatorSetProxy::Score(const Particle& p) noexcept {
+  MINIMC_VERIF_OBSERVE(OnScore(p));
   std::for_each(
       estimator_proxies.begin(), estimator_proxies.end(),
       [&p](auto& estimator_proxy) { estimator_proxy.Score(p); });
 }
 
 void EstimatorSetProxy::CommitHistory() noexcept {
+  MINIMC_VERIF_OBSERVE(OnCommitHistory());
   std::for_each(
       estimator_proxies.begin(), estimator_proxies.end(),
       [](auto& proxy) { proxy.CommitHistory(); });
diff --git a/src/Particle.cpp b/src/Particle.cpp
index 3a59b98..5ae105e 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -6,6 +6,7 @@
 #include "Nuclide.hpp"
 #include "Perturbation.hpp"
 #include "TransportMethod.hpp"
+#include "Verif.hpp"
 
 #include <cassert>
 #include <map>
@@ -40,7 +41,10 @@ Particle::Particle(
       rng{seed}, type{type} {}
 
 Bank Particle::Transport(EstimatorSetProxy& e, const World& w) noexcept {
-  return transport_method->Transport(*this, e, w);
+  MINIMC_VERIF_OBSERVE(OnTransportBegin(*this));
+  auto bank = transport_method->Transport(*this, e, w);
+  MINIMC_VERIF_OBSERVE(OnTransportEnd(*this));
+  return bank;
 }
 
 void Particle::Stream(const Real distance) noexcept {
@@ -97,6 +101,7 @@ void Particle::BankSecondaries(
     const Direction& direction, const Energy& energy) noexcept {
   secondaries.emplace_back(
       position, direction, energy, Type::neutron, rng(), cell);
+  MINIMC_VERIF_OBSERVE(OnBankSecondary(*this, secondaries.back()));
 }
 
 void Particle::MoveSecondariesTo(Bank& bank) noexcept {
diff --git a/src/Source.cpp b/src/Source.cpp
index 6bb1d47..50587e3 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -2,6 +2,7 @@
 
 #include "BasicTypes.hpp"
 #include "Constants.hpp"
+#include "Verif.hpp"
 #include "pugixml.hpp"
 
 #include <cassert>
@@ -141,6 +142,7 @@ Source::Source(const pugi::xml_node& source_node)
           source_node.child("particletype"))} {}
 
 Particle Source::Sample(RNG::result_type seed) const noexcept {
+  MINIMC_VERIF_OBSERVE(OnSourceSample(seed));
   // evaluation order of arguments is undefined so do evaluation here
   RNG rng{seed};
   auto sampled_position = position->Sample(rng);
diff --git a/src/Verif.hpp b/src/Verif.hpp
new file mode 100644
index 0000000..6fa0342
--- /dev/null
+++ b/src/Verif.hpp
@@ -0,0 +1,71 @@
+#pragma once
+
+/// @file
+/// @brief Observation points used by external conformance checks. Nothing in
+///        this file has any effect unless MINIMC_VERIF is defined.
+/// @details If MINIMC_VERIF is 1, a verif::Observer can be installed. If
+///          MINIMC_VERIF is 2, numbers returned by RNG are also provided
+///          externally.
+
+#ifdef MINIMC_VERIF
+
+#include <cstdint>
+
+class Particle;
+
+namespace verif {
+
+/// @brief Receives notifications; installed through verif::observer
+class Observer {
+public:
+  virtual ~Observer() = default;
+  /// @brief A source Particle is about to be sampled
+  virtual void OnSourceSample(std::uint64_t /* seed */) {}
+  /// @brief Random walk of a Particle is about to begin
+  virtual void OnTransportBegin(const Particle&) {}
+  /// @brief Random walk of a Particle ended
+  virtual void OnTransportEnd(const Particle&) {}
+  /// @brief An event occured and is about to be scored
+  virtual void OnScore(const Particle&) {}
+  /// @brief A secondary was added to the parent
+  virtual void OnBankSecondary(
+      const Particle& /* parent */, const Particle& /* secondary */) {}
+  /// @brief Scores of the current history are about to be committed
+  virtual void OnCommitHistory() {}
+};
+
+/// @brief Notified if it is not null; not to be changed while running
+inline Observer* observer = nullptr;
+
+#if MINIMC_VERIF == 2
+/// @brief Random number engine whose output is provided externally
+class ScriptedEngine {
+public:
+  using result_type = std::uint_fast64_t;
+  explicit ScriptedEngine(result_type seed = 1) noexcept : seed{seed} {}
+  static constexpr result_type min() { return 0; }
+  static constexpr result_type max() { return ~result_type{0}; }
+  result_type operator()() { return draw(*this); }
+  /// @brief Seed used to construct this engine
+  result_type seed;
+  /// @brief Provides the next number
+  static inline result_type (*draw)(ScriptedEngine&) = nullptr;
+};
+#endif
+
+} // namespace verif
+
+#define MINIMC_VERIF_OBSERVE(notification)                                     \
+  do {                                                                         \
+    if (verif::observer) {                                                     \
+      verif::observer->notification;                                           \
+    }                                                                          \
+  } while (false)
+
+#else
+
+#define MINIMC_VERIF_OBSERVE(notification)                                     \
+  do {                                                                         \
+  } while (false)
+
+#endif
-- 
2.43.0


From b9f5e8fd6e20ba8656e5b0e22fa67362e21155f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 13/38] fix: reject logarithmic bins whose boundaries would not
 increase

---
 src/Bins.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index e755167..6c7d45e 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -95,7 +95,14 @@ std::string LinspaceBins::to_string() const noexcept {
 
 LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
     : n_bins{logspace_node.attribute("bins").as_ullong() + 2},
-      base{logspace_node.attribute("base").as_double(10)},
+      base{[&logspace_node]() {
+        const auto base = logspace_node.attribute("base").as_double(10);
+        if (base <= 1) {
+          throw std::runtime_error(
+              logspace_node.path() + ": base must be strictly greater than 1");
+        }
+        return base;
+      }()},
       log_lower_bound{logspace_node.attribute("min").as_double()},
       log_upper_bound{[this, &logspace_node]() {
         const auto log_upper_bound = logspace_node.attribute("max").as_double();
-- 
2.43.0


From ee3f022b186ed21bc787be2bedd3a959dfaa72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 14/38] fix: let each driver solve with the tracking mode it
 was given

The tracking mode is shared by all particles; constructing a second
driver changed the mode of a first one which had not been solved yet.
---
 src/Driver.cpp      | 5 +++--
 src/Driver.hpp      | 2 ++
 src/FixedSource.cpp | 2 ++
 src/Particle.cpp    | 2 +-
 src/Particle.hpp    | 2 +-
 5 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Driver.cpp b/src/Driver.cpp
index 7455389..44727de 100644
--- a/src/Driver.cpp
+++ b/src/Driver.cpp
@@ -46,9 +46,10 @@ Driver::Driver(const pugi::xml_node& root)
           root.child("estimators"), world, perturbations,
           static_cast<Real>(batchsize)},
       threads{
-          std::stoul(root.child("general").child("threads").child_value())} {
+          std::stoul(root.child("general").child("threads").child_value())},
+      transport_method{TransportMethod::Create(root, world)} {
   // All Particle objects will use the selected TransportMethod
-  Particle::transport_method = TransportMethod::Create(root, world);
+  Particle::transport_method = transport_method;
 }
 
 Driver::~Driver() noexcept {}
diff --git a/src/Driver.hpp b/src/Driver.hpp
index 168cec7..2d588e2 100644
--- a/src/Driver.hpp
+++ b/src/Driver.hpp
@@ -48,4 +48,6 @@ protected:
   const EstimatorSet init_estimator_set;
   /// @brief Number of threads dedicated to particle transport
   const size_t threads;
+  /// @brief TransportMethod selected by this Driver
+  const std::shared_ptr<const TransportMethod> transport_method;
 };
diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index 4cdf7be..69ffcfd 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -22,6 +22,8 @@ FixedSource::FixedSource(const pugi::xml_node& root)
 EstimatorSet FixedSource::Solve() {
   // a previous call to Solve will have used up all the histories
   histories_elapsed = 0;
+  // another Driver created since may have selected another TransportMethod
+  Particle::transport_method = transport_method;
   std::vector<std::future<EstimatorSet>> worker_estimator_sets;
   std::cout << "Spawning " << std::to_string(threads) << " threads working on "
             << std::to_string(batchsize) << " histories..." << std::endl;
diff --git a/src/Particle.cpp b/src/Particle.cpp
index 5ae105e..8029f23 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -32,7 +32,7 @@ Particle::Type Particle::ToType(const std::string& name) noexcept {
   };
 }
 
-std::unique_ptr<const TransportMethod> Particle::transport_method;
+std::shared_ptr<const TransportMethod> Particle::transport_method;
 
 Particle::Particle(
     const Point& position, const Direction& direction, const Energy& energy,
diff --git a/src/Particle.hpp b/src/Particle.hpp
index 178a9b4..ce297b9 100644
--- a/src/Particle.hpp
+++ b/src/Particle.hpp
@@ -44,7 +44,7 @@ public:
   /// @brief Helper function to convert from std::string to Type
   static Type ToType(const std::string& name) noexcept;
   /// @brief The TransportMethod used by all Particle objects
-  static std::unique_ptr<const TransportMethod> transport_method;
+  static std::shared_ptr<const TransportMethod> transport_method;
   /// @brief Member constructor. Explicitly assigns phase-space members.
   Particle(
       const Point& position, const Direction& direction, const Energy& energy,
-- 
2.43.0


From f14cd42b1eae71c32119a84242e07bec2887d8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:08 +0000
Subject: [PATCH 15/38] fix: copies of sensitivities depend on the copied
 estimator

A copied Estimator contained Sensitivity objects which still referred to the
original Estimator, which may have been destroyed.
---
 src/Estimator.cpp   |  4 ++--
 src/Sensitivity.cpp | 16 +++++++++++++---
 src/Sensitivity.hpp | 14 ++++++++++++--
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index f369b0f..a167f78 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -36,10 +36,10 @@ std::unique_ptr<Estimator> Estimator::Create(
 Estimator::Estimator(const Estimator& other) noexcept
     : Scorable(other),
       // IIFE
-      sensitivities{[&other]() noexcept {
+      sensitivities{[this, &other]() noexcept {
         std::vector<std::unique_ptr<Sensitivity>> result;
         for (const auto& sensitivity : other.sensitivities) {
-          result.push_back(sensitivity->Clone());
+          result.push_back(sensitivity->Clone(*this));
         }
         return result;
       }()} {}
diff --git a/src/Sensitivity.cpp b/src/Sensitivity.cpp
index f75f409..d181908 100644
--- a/src/Sensitivity.cpp
+++ b/src/Sensitivity.cpp
@@ -39,6 +39,10 @@ Sensitivity::Sensitivity(
     : Scorable{estimator, perturbation}, estimator{estimator},
       perturbation{perturbation} {}
 
+Sensitivity::Sensitivity(
+    const Sensitivity& other, const Estimator& estimator) noexcept
+    : Scorable{other}, estimator{estimator}, perturbation{other.perturbation} {}
+
 // CurrentTotalCrossSectionSensitivity
 
 //// public
@@ -47,9 +51,15 @@ CurrentTotalCrossSectionSensitivity::CurrentTotalCrossSectionSensitivity(
     const Estimator& estimator, const Perturbation& perturbation) noexcept
     : Sensitivity{estimator, perturbation} {}
 
-std::unique_ptr<Sensitivity>
-CurrentTotalCrossSectionSensitivity::Clone() const noexcept {
-  return std::make_unique<CurrentTotalCrossSectionSensitivity>(*this);
+CurrentTotalCrossSectionSensitivity::CurrentTotalCrossSectionSensitivity(
+    const CurrentTotalCrossSectionSensitivity& other,
+    const Estimator& estimator) noexcept
+    : Sensitivity{other, estimator} {}
+
+std::unique_ptr<Sensitivity> CurrentTotalCrossSectionSensitivity::Clone(
+    const Estimator& estimator) const noexcept {
+  return std::make_unique<CurrentTotalCrossSectionSensitivity>(
+      *this, estimator);
 }
 
 Real CurrentTotalCrossSectionSensitivity::GetScore(
diff --git a/src/Sensitivity.hpp b/src/Sensitivity.hpp
index 168c705..d30664c 100644
--- a/src/Sensitivity.hpp
+++ b/src/Sensitivity.hpp
@@ -27,7 +27,10 @@ public:
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Sensitivity() noexcept;
   /// @brief Virtual constructor, used for deep copying a Sensitivity
-  virtual std::unique_ptr<Sensitivity> Clone() const noexcept = 0;
+  /// @param estimator Estimator which the copy depends on; the Estimator which
+  ///        the original depends on might not exist anymore
+  virtual std::unique_ptr<Sensitivity>
+  Clone(const Estimator& estimator) const noexcept = 0;
   /// @brief Returns a string suitable for printing. Does not return bins since
   ///        the parent Estimator will print it.
   std::string to_string(const Real total_weight) const noexcept;
@@ -39,6 +42,8 @@ protected:
   ///        Perturbation
   Sensitivity(
       const Estimator& estimator, const Perturbation& perturbation) noexcept;
+  /// @brief Copies scores of another Sensitivity
+  Sensitivity(const Sensitivity& other, const Estimator& estimator) noexcept;
   /// @brief Estimator whose sensitivity to a Perturbation is being estimated
   const Estimator& estimator;
   /// @brief Perturbation whose effect on an Estimator is being estimated
@@ -53,9 +58,14 @@ public:
   ///        and Perturbation
   CurrentTotalCrossSectionSensitivity(
       const Estimator& estimator, const Perturbation& perturbation) noexcept;
+  /// @brief Copies scores of another CurrentTotalCrossSectionSensitivity
+  CurrentTotalCrossSectionSensitivity(
+      const CurrentTotalCrossSectionSensitivity& other,
+      const Estimator& estimator) noexcept;
   /// @brief Returns a pointer to a new instance of
   ///        CurrentTotalCrossSectionSensitivity
-  std::unique_ptr<Sensitivity> Clone() const noexcept override;
+  std::unique_ptr<Sensitivity>
+  Clone(const Estimator& estimator) const noexcept override;
   /// @brief Implements Scorable method
   Real GetScore(const Particle& p) const noexcept override;
 };
-- 
2.43.0


From fc439bf62a8f13451104727fb0ff0b229c803ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:07 +0000
Subject: [PATCH 16/38] fix: reject evaluations much hotter than the requested
 temperature

The relative temperature difference was signed, so data evaluated at any
temperature above the requested one were taken as if they were valid.
---
 src/ContinuousEvaluation.cpp | 4 +++-
 src/ContinuousReaction.cpp   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ContinuousEvaluation.cpp b/src/ContinuousEvaluation.cpp
index db8f13a..9638611 100644
--- a/src/ContinuousEvaluation.cpp
+++ b/src/ContinuousEvaluation.cpp
@@ -4,6 +4,8 @@
 #include "HDF5DataSet.hpp"
 #include "pugixml.hpp"
 
+#include <cmath>
+
 // ContinuousEvaluation
 
 //// public
@@ -15,6 +17,6 @@ ContinuousEvaluation::ContinuousEvaluation(
       temperature{evaluation_node.attribute("temperature").as_double()} {}
 
 bool ContinuousEvaluation::IsValid(Temperature requested) const noexcept {
-  const auto relative_error = (requested - temperature) / temperature;
+  const auto relative_error = std::abs(requested - temperature) / temperature;
   return relative_error < constants::relative_temperature_difference_tolerance;
 }
diff --git a/src/ContinuousReaction.cpp b/src/ContinuousReaction.cpp
index 214b680..697e22f 100644
--- a/src/ContinuousReaction.cpp
+++ b/src/ContinuousReaction.cpp
@@ -9,6 +9,7 @@
 #include "ScalarField.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <random>
@@ -79,7 +80,9 @@ ContinuousScatter::GetMajorant(const Particle& p) const noexcept {
   if (tsl.has_value() && tsl->IsValid(p)) {
     return tsl->GetMajorant(p);
   }
-  else if (const auto T_max = p.GetCell().temperature->upper_bound;
+  // the evaluation itself bounds the cross section at any lower temperature
+  else if (const auto T_max = std::max(
+               p.GetCell().temperature->upper_bound, evaluation.temperature);
            evaluation.IsValid(T_max)) {
     return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
   }
-- 
2.43.0


From fca0ff02de7e249af004ff42af42e25d69ef1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 17/38] fix: accept continuous data without a total cross
 section

The input format makes the total optional; without it the sum of the
reactions is used.
---
 src/Continuous.cpp | 18 ++++++++++++------
 src/Continuous.hpp |  5 +++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/Continuous.cpp b/src/Continuous.cpp
index b6f867c..bcffa05 100644
--- a/src/Continuous.cpp
+++ b/src/Continuous.cpp
@@ -20,15 +20,20 @@
 //// public
 
 Continuous::Continuous(const pugi::xml_node& particle_node)
-    : reactions{CreateReactions(particle_node)}, total{particle_node.child(
-                                                     "total")} {}
+    : reactions{CreateReactions(particle_node)},
+      total{
+          particle_node.child("total")
+              ? std::make_optional<ContinuousEvaluation>(
+                    particle_node.child("total"))
+              : std::nullopt} {}
 
 MicroscopicCrossSection
 Continuous::GetMajorant(const Particle& p) const noexcept {
   // majorant cross section is assumed to occur at maximum temperature in Cell
   const auto majorant_temperature = p.GetCell().temperature->upper_bound;
-  if (!ReactionsModifyTotal(p) && total.IsValid(majorant_temperature)) {
-    return total.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
+  if (!ReactionsModifyTotal(p) && total.has_value() &&
+      total->IsValid(majorant_temperature)) {
+    return total->xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
   }
   else {
     return std::accumulate(
@@ -42,8 +47,9 @@ Continuous::GetMajorant(const Particle& p) const noexcept {
 MicroscopicCrossSection Continuous::GetTotal(const Particle& p) const noexcept {
   const auto requested_temperature =
       p.GetCell().temperature->at(p.GetPosition());
-  if (!ReactionsModifyTotal(p) && total.IsValid(requested_temperature)) {
-    return total.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
+  if (!ReactionsModifyTotal(p) && total.has_value() &&
+      total->IsValid(requested_temperature)) {
+    return total->xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
   }
   else {
     return std::accumulate(
diff --git a/src/Continuous.hpp b/src/Continuous.hpp
index 6667171..36fbb78 100644
--- a/src/Continuous.hpp
+++ b/src/Continuous.hpp
@@ -6,6 +6,7 @@
 #include "Interaction.hpp"
 
 #include <memory>
+#include <optional>
 #include <vector>
 
 namespace pugi {
@@ -42,6 +43,6 @@ private:
   bool ReactionsModifyTotal(const Particle& p) const noexcept;
   // Cross section data for mutually exclusive reactions
   const std::vector<std::unique_ptr<const ContinuousReaction>> reactions;
-  // Total cross section provided in nuclear data files
-  const ContinuousEvaluation total;
+  // Total cross section provided in nuclear data files, if any
+  const std::optional<ContinuousEvaluation> total;
 };
-- 
2.43.0


From 7d34519ce9f0ae34d83c6714f2b545f89612854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:59 +0000
Subject: [PATCH 18/38] fix: scatter neutrons colder than the smallest
 tabulated energy transfer

The only neighboring grid of energy transfers was rejected, so an index
below zero was used.
---
 src/ThermalScattering.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 7c643d4..5971b10 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -370,8 +370,12 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
                      : (abs_b - betas.at(b_hi_i - 1)) /
                            (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
-      r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
-  Beta b_s = sgn_b * betas.at(b_s_i);
+      r <= std::uniform_real_distribution{}(p.rng) && !snap_to_min
+          ? b_hi_i - 1
+          : b_hi_i;
+  // If the only neighboring beta grid is not allowed at the incident energy,
+  // its distribution is used within the limits of alpha at b itself
+  const Beta b_s = snap_to_lower && snap_to_min ? b : sgn_b * betas.at(b_s_i);
 
   // compute minimum and maximum possible value of alpha
   const auto sqrt_E = std::sqrt(E);
-- 
2.43.0


From 12da505f6da50b402141ee67398ecd136dd1e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 19/38] fix: let nested continuous maps be looked up

The value of an inner map was returned as if it were the map itself, which
does not compile.
---
 src/ContinuousMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ContinuousMap.hpp b/src/ContinuousMap.hpp
index 3c8beaf..7fe5526 100644
--- a/src/ContinuousMap.hpp
+++ b/src/ContinuousMap.hpp
@@ -18,7 +18,7 @@ public:
   /// @tparam Args Type of inner keys
   /// @todo Support other interpolation methods
   template <typename... Args>
-  T at(const Key k, Args... inner_keys) const noexcept {
+  auto at(const Key k, Args... inner_keys) const noexcept {
     const auto it_hi = elements.upper_bound(k);
     if constexpr (sizeof...(Args) == 0){
       // base case
-- 
2.43.0


From 79d8d2fa47c9dd8afadbaf4ea02543b1b3d40ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:28 +0000
Subject: [PATCH 20/38] fix: let cumulative distributions be constructed

The constructor passed its argument to a constructor that does not exist.
---
 src/ContinuousMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ContinuousMap.hpp b/src/ContinuousMap.hpp
index 7fe5526..ad279c0 100644
--- a/src/ContinuousMap.hpp
+++ b/src/ContinuousMap.hpp
@@ -85,8 +85,9 @@ template <> struct NestedContinuousMap<0> {
 template <typename T> class CDF : public ContinuousMap<Real, T> {
 public:
   /// @brief Constructs a CDF from a std::map
-  CDF(typename ContinuousMap<Real, T>::elements_type&& other)
-      : ContinuousMap<Real, T>{std::move(other)} {};
+  CDF(typename ContinuousMap<Real, T>::elements_type&& other) {
+    this->elements = std::move(other);
+  };
 
   /// @brief Samples a value from the CDF and returns the sampled key
   const T& Sample(RNG& rng) const noexcept {
-- 
2.43.0


From a8e13be8d636037c9afc7d39a0f21940adcda37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 21/38] fix: a region with an empty name is not a void

---
 src/Cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index e36fb05..6dd5756 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -95,7 +95,7 @@ std::shared_ptr<const Material> Cell::AssignMaterial(
     const pugi::xml_node& cell_node,
     const MaterialVector& all_materials) noexcept {
   // void cells do not have a material
-  if (cell_node.attribute("name").empty()) {
+  if (std::string{cell_node.name()} == "void") {
     return nullptr;
   }
   auto material_name = cell_node.attribute("material").as_string();
-- 
2.43.0


From 83531c929b949a2a3b6d451ac6269c166764bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 22/38] fix: binnings with limits or boundaries that are not
 finite are rejected

---
 src/Bins.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 6c7d45e..2d2daba 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -59,7 +59,9 @@ LinspaceBins::LinspaceBins(const pugi::xml_node& linspace_node)
       lower_bound{linspace_node.attribute("min").as_double()},
       upper_bound{[this, &linspace_node]() {
         const auto upper_bound = linspace_node.attribute("max").as_double();
-        if (upper_bound <= lower_bound) {
+        // also rejects limits which are not finite
+        if (!(upper_bound > lower_bound &&
+              std::isfinite(upper_bound - lower_bound))) {
           throw std::runtime_error(
               linspace_node.path() + ": max must be strictly greater than min");
         }
@@ -97,7 +99,7 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
     : n_bins{logspace_node.attribute("bins").as_ullong() + 2},
       base{[&logspace_node]() {
         const auto base = logspace_node.attribute("base").as_double(10);
-        if (base <= 1) {
+        if (!(base > 1 && std::isfinite(base))) {
           throw std::runtime_error(
               logspace_node.path() + ": base must be strictly greater than 1");
         }
@@ -106,7 +108,9 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
       log_lower_bound{logspace_node.attribute("min").as_double()},
       log_upper_bound{[this, &logspace_node]() {
         const auto log_upper_bound = logspace_node.attribute("max").as_double();
-        if (log_upper_bound <= log_lower_bound) {
+        // also rejects limits which are not finite
+        if (!(log_upper_bound > log_lower_bound &&
+              std::isfinite(log_upper_bound - log_lower_bound))) {
           throw std::runtime_error(
               logspace_node.path() + ": max must be strictly greater than min");
         }
@@ -152,7 +156,12 @@ BoundaryBins::BoundaryBins(const pugi::xml_node& boundaries_node)
         std::stringstream boundary_stringlist{boundaries_node.child_value()};
         Real prev_boundary = -std::numeric_limits<Real>::infinity();
         Real boundary;
-        while (boundary_stringlist >> boundary) {
+        while (!(boundary_stringlist >> std::ws).eof()) {
+          // INF and NaN are valid according to the schema but are not parsed
+          if (!(boundary_stringlist >> boundary)) {
+            throw std::runtime_error(
+                boundaries_node.path() + ": boundaries must be finite");
+          }
           if (boundary <= prev_boundary) {
             throw std::runtime_error(
                 boundaries_node.path() + ": nonincreasing elements found: " +
-- 
2.43.0


From 92402f0d2ead5afe79d1f916940a283a3cb2d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 23/38] fix: multigroup data with entries that are not finite
 are rejected instead of being cut off there

---
 src/Multigroup.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/Multigroup.cpp b/src/Multigroup.cpp
index d36dedf..1e38497 100644
--- a/src/Multigroup.cpp
+++ b/src/Multigroup.cpp
@@ -16,6 +16,26 @@
 #include <type_traits>
 #include <variant>
 
+namespace {
+
+// Reads all elements of a list. INF and NaN are valid according to the schema
+// but cannot be used.
+std::vector<Real> ReadElements(const pugi::xml_node& groupxs_node) {
+  std::vector<Real> elements;
+  std::stringstream element_stringlist{groupxs_node.child_value()};
+  Real element;
+  while (!(element_stringlist >> std::ws).eof()) {
+    if (!(element_stringlist >> element)) {
+      throw std::runtime_error(
+          groupxs_node.path() + ": entries must be finite");
+    }
+    elements.push_back(element);
+  }
+  return elements;
+}
+
+} // namespace
+
 // Multigroup
 
 //// public
@@ -81,11 +101,7 @@ Multigroup::OneDimensional::OneDimensional(const elements_type& elements)
 
 Multigroup::OneDimensional::OneDimensional(const pugi::xml_node& groupxs_node) {
   const Group G{GroupStructureSize(groupxs_node.root())};
-  std::stringstream element_stringlist{groupxs_node.child_value()};
-  Real element;
-  while (element_stringlist >> element) {
-    elements.push_back(element);
-  }
+  elements = ReadElements(groupxs_node);
   if (elements.size() != G) {
     throw std::runtime_error(
         groupxs_node.path() + ": Expected " + std::to_string(G) +
@@ -124,12 +140,7 @@ Multigroup::OneDimensional::end() const noexcept {
 Multigroup::TwoDimensional::TwoDimensional(const pugi::xml_node& groupxs_node) {
   const Group G{GroupStructureSize(groupxs_node.root())};
   // Load scatter matrix entries as flattened values
-  std::vector<Real> flattened;
-  std::stringstream element_stringlist{groupxs_node.child_value()};
-  Real element;
-  while (element_stringlist >> element) {
-    flattened.push_back(element);
-  }
+  const auto flattened = ReadElements(groupxs_node);
   const size_t expected_size{G * G};
   if (flattened.size() != expected_size) {
     throw std::runtime_error(
-- 
2.43.0


From 2673ad5e96efb99ae1bb3b1a41928bfa2d53b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 24/38] fix: text interrupted by comments or CDATA sections is
 no longer cut off there

---
 src/XMLDocument.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index d9d556d..23d5f07 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -70,6 +70,31 @@ public:
   }
 };
 
+// Comments, processing instructions, and CDATA sections split the text of an
+// element into several nodes of which only the first one would be read.
+void MergeText(pugi::xml_node node) {
+  const auto is_text = [](const pugi::xml_node& child) {
+    return child.type() == pugi::node_pcdata ||
+           child.type() == pugi::node_cdata;
+  };
+  pugi::xml_node merged;
+  for (auto child = node.first_child(); child;) {
+    const auto next = child.next_sibling();
+    if (!is_text(child)) {
+      MergeText(child);
+    }
+    else if (!merged) {
+      merged = child;
+    }
+    else {
+      const auto text = std::string{merged.value()} + child.value();
+      merged.set_value(text.c_str());
+      node.remove_child(child);
+    }
+    child = next;
+  }
+}
+
 pugi::xml_document
 XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   // Xerces-C++ validation
@@ -86,5 +111,6 @@ XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   if (auto result = doc.load_file(xml_filepath.c_str()); !result) {
     throw std::runtime_error(result.description());
   }
+  MergeText(doc);
   return doc;
 }
-- 
2.43.0


From 2081e4faec0abd4f61bb37aa4f00babc0a2a5574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 25/38] fix: source energies in multigroup problems must be one
 of the groups

---
 src/Source.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Source.cpp b/src/Source.cpp
index 50587e3..d58903a 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -63,8 +63,20 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
       const std::string energy_value =
           distribution_node.attribute("energy").as_string();
       if (energy_type == "multigroup") {
+        // the schema permits any notation of a number
+        const auto group = std::stod(energy_value);
+        const auto groups = property_node.root()
+                                .child("minimc")
+                                .child("nuclides")
+                                .child("multigroup")
+                                .attribute("groups")
+                                .as_double();
+        if (!(group >= 1 && group <= groups && std::floor(group) == group)) {
+          throw std::runtime_error(
+              distribution_node.path() + ": not a group: " + energy_value);
+        }
         return std::make_unique<ConstantDistribution<T>>(
-            Group{std::stoull(energy_value)});
+            static_cast<Group>(group));
       }
       else if (energy_type == "continuous") {
         return std::make_unique<ConstantDistribution<T>>(
-- 
2.43.0


From 4e7ed6fbd8db2576658c088f5a694998e468b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 26/38] fix: source particles must be of a type for which data
 are read

---
 src/Source.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/Source.cpp b/src/Source.cpp
index d58903a..0f4c3a2 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -5,10 +5,13 @@
 #include "Verif.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
-#include <iosfwd>
+#include <iterator>
 #include <random>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 #include <variant>
@@ -89,8 +92,22 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
   }
   else if constexpr (std::is_same_v<T, Particle::Type>) {
     if (distribution_name == "constant") {
-      const auto particle_type =
-          Particle::ToType(distribution_node.attribute("type").as_string());
+      const std::string particle_name =
+          distribution_node.attribute("type").as_string();
+      // only data for particles which are listed are available
+      std::stringstream particle_name_list{property_node.root()
+                                               .child("minimc")
+                                               .child("general")
+                                               .child("particles")
+                                               .child_value()};
+      using Names = std::istream_iterator<std::string>;
+      if (std::find(Names{particle_name_list}, Names{}, particle_name) ==
+          Names{}) {
+        throw std::runtime_error(
+            distribution_node.path() + ": particle type \"" + particle_name +
+            "\" is not listed in general/particles");
+      }
+      const auto particle_type = Particle::ToType(particle_name);
       return std::make_unique<ConstantDistribution<T>>(particle_type);
     }
   }
-- 
2.43.0


From ef363c37cedce5e72dad4581067c4f729e73deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:07 +0000
Subject: [PATCH 27/38] fix: directions which cannot be normalized are rejected

---
 src/Bins.cpp   | 10 ++++++++--
 src/Point.cpp  |  4 ++++
 src/Point.hpp  |  2 ++
 src/Source.cpp | 18 +++++++++++++++++-
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 2d2daba..fc82e55 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -195,15 +195,21 @@ std::string BoundaryBins::to_string() const noexcept {
 
 ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
-      direction{[&bins_node]() noexcept {
+      direction{[&bins_node]() {
         const auto& cosine_node = bins_node.child("cosine");
-        return cosine_node
+        const auto result = cosine_node
                    ? std::optional<Direction>(
                          std::in_place,
                          cosine_node.attribute("u").as_double(),
                          cosine_node.attribute("v").as_double(),
                          cosine_node.attribute("w").as_double())
                    : std::nullopt;
+        if (result && !result->IsNormalized()) {
+          throw std::runtime_error(
+              cosine_node.path() +
+              ": reference direction must be nonzero and finite");
+        }
+        return result;
       }()},
       cosine{Bins::Create(bins_node.child("cosine").first_child())},
       energy{Bins::Create(bins_node.child("energy").first_child())},
diff --git a/src/Point.cpp b/src/Point.cpp
index 98ebece..9641e0b 100644
--- a/src/Point.cpp
+++ b/src/Point.cpp
@@ -127,3 +127,7 @@ Direction::Direction(const Point& other) noexcept : Point{other} {
 Direction::Direction(Point&& other) noexcept : Point{std::move(other)} {
   Normalize();
 }
+
+bool Direction::IsNormalized() const noexcept {
+  return std::abs(Dot(*this) - 1) < 1e-6;
+}
diff --git a/src/Point.hpp b/src/Point.hpp
index 080a32a..63a64df 100644
--- a/src/Point.hpp
+++ b/src/Point.hpp
@@ -81,4 +81,6 @@ public:
   /// @brief Move constructor. Constructs the Direction with the contents of a
   ///        Point. The given Point is normalized.
   Direction(Point&& other) noexcept;
+  /// @brief Returns false if the components given could not be normalized
+  bool IsNormalized() const noexcept;
 };
diff --git a/src/Source.cpp b/src/Source.cpp
index 0f4c3a2..a106881 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -23,6 +23,20 @@ template class ConstantDistribution<Direction>;
 template class ConstantDistribution<Energy>;
 template class ConstantDistribution<Particle::Type>;
 
+namespace {
+
+// Reads a direction, which must be different from zero
+Direction ReadDirection(const pugi::xml_node& pointtype_node) {
+  const Direction direction{pointtype_node};
+  if (!direction.IsNormalized()) {
+    throw std::runtime_error(
+        pointtype_node.path() + ": direction must be nonzero and finite");
+  }
+  return direction;
+}
+
+} // namespace
+
 // Distribution
 
 //// public
@@ -44,12 +58,14 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
   }
   else if constexpr (std::is_same_v<T, Direction>) {
     if (distribution_name == "constant") {
-      return std::make_unique<ConstantDistribution<T>>(T{distribution_node});
+      return std::make_unique<ConstantDistribution<T>>(
+          ReadDirection(distribution_node));
     }
     else if (distribution_name == "isotropic") {
       return std::make_unique<IsotropicDistribution>();
     }
     else if (distribution_name == "isotropic-flux"){
+      ReadDirection(distribution_node);
       return std::make_unique<IsotropicFlux>(distribution_node);
     }
     else {
-- 
2.43.0


From f818539fe2028aff98ed55cfeecb4d02d873cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:07 +0000
Subject: [PATCH 28/38] fix: several nuclides of the same name are rejected

---
 src/World.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/World.cpp b/src/World.cpp
index 090195c..72e0ffd 100644
--- a/src/World.cpp
+++ b/src/World.cpp
@@ -137,6 +137,15 @@ World::CreateNuclides(const pugi::xml_node& root) {
                   }) +
               "]");
         }
+        // the schema does not check uniqueness of these names
+        for (auto other = nuclide_node.next_sibling(); other;
+             other = other.next_sibling()) {
+          if (std::string{other.attribute("name").as_string()} ==
+              nuclide_name) {
+            throw std::runtime_error(
+                other.path() + ": duplicate nuclide \"" + nuclide_name + "\"");
+          }
+        }
         all_nuclides.push_back(std::make_shared<const Nuclide>(nuclide_node));
       }
     }
-- 
2.43.0


From f7429e6fe332bcdf3c7013fc2730e519308519be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:07 +0000
Subject: [PATCH 29/38] fix: data files without exactly one value per
 combination of axis values are rejected

---
 src/HDF5DataSet.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/HDF5DataSet.hpp b/src/HDF5DataSet.hpp
index 3da9e1a..d5036bb 100644
--- a/src/HDF5DataSet.hpp
+++ b/src/HDF5DataSet.hpp
@@ -41,7 +41,20 @@ public:
   HDF5DataSet(const std::filesystem::path& hdf5_filepath)
       : axes{ReadPandasAxis(hdf5_filepath)},
         values{ReadPandasValues(hdf5_filepath)}, strides{ComputeAxisStrides(
-                                                     axes)} {}
+                                                     axes)} {
+    // there must be exactly one value for each combination of axis values
+    const auto expected_size = std::accumulate(
+        axes.cbegin(), axes.cend(), size_t{1},
+        [](const auto& accumulated, const auto& axis) {
+          return accumulated * axis.size();
+        });
+    if (expected_size == 0 || values.size() != expected_size) {
+      throw std::runtime_error(
+          hdf5_filepath.string() + ": Expected " +
+          std::to_string(expected_size) + " values, but got " +
+          std::to_string(values.size()));
+    }
+  }
   /// @brief Returns an instance of ContinuousMap with D levels of nesting
   /// @tparam Args Type of outer indices
   /// @param outer_indices Indices of outer levels; populated during recursion
-- 
2.43.0


From a4a6b6905c7e4051058bccd93b7d78fc26d9f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:07 +0000
Subject: [PATCH 30/38] fix: inconsistent thermal scattering data are rejected

---
 src/ThermalScattering.cpp | 40 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 5971b10..2ffcae1 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -37,7 +37,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         return result;
       }()},
       // IIFE
-      Es{[this]() noexcept {
+      Es{[this]() {
         std::vector<ContinuousEnergy> result;
         for (const auto& partition : beta_partitions) {
           const auto& Es = partition.E_T_modes.GetAxis(0);
@@ -46,7 +46,10 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         // incident energies must be monotonically increasing
         ContinuousEnergy prev_E = 0;
         for (const auto& E : result) {
-          assert(prev_E < E);
+          if (!(prev_E < E)) {
+            throw std::runtime_error(
+                "Incident energies of beta partitions must be increasing");
+          }
           prev_E = E;
         }
         return result;
@@ -70,7 +73,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         return result;
       }()},
       // IIFE
-      betas{[this]() noexcept {
+      betas{[this]() {
         std::vector<ThermalScattering::Beta> result;
         for (const auto& partition : alpha_partitions) {
           const auto& betas = partition.beta_T_modes.GetAxis(0);
@@ -79,7 +82,10 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         // betas must be monotonically increasing
         ThermalScattering::Beta prev_beta = 0;
         for (const auto& beta : result) {
-          assert(prev_beta < beta);
+          if (!(prev_beta < beta)) {
+            throw std::runtime_error(
+                "Energy transfers of alpha partitions must be increasing");
+          }
           prev_beta = beta;
         }
         return result;
@@ -96,7 +102,31 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
       }()},
       beta_cutoff{tsl_node.attribute("beta_cutoff").as_double()},
       alpha_cutoff{tsl_node.attribute("alpha_cutoff").as_double()},
-      awr{tsl_node.parent().parent().parent().attribute("awr").as_double()} {}
+      awr{tsl_node.parent().parent().parent().attribute("awr").as_double()} {
+  // all modes must have the same orders as the singular values
+  const auto check = [&tsl_node](const bool is_consistent) {
+    if (!is_consistent) {
+      throw std::runtime_error(
+          tsl_node.path() + ": sizes of thermal scattering data differ");
+    }
+  };
+  const auto orders = scatter_xs_S.GetAxis(0).size();
+  check(
+      scatter_xs_E.GetAxis(1).size() == orders &&
+      scatter_xs_T.GetAxis(1).size() == orders);
+  for (const auto& partition : beta_partitions) {
+    const auto orders = partition.singular_values.GetAxis(0).size();
+    check(
+        partition.CDF_modes.GetAxis(1).size() == orders &&
+        partition.E_T_modes.GetAxis(2).size() == orders);
+  }
+  for (const auto& partition : alpha_partitions) {
+    const auto orders = partition.singular_values.GetAxis(0).size();
+    check(
+        partition.CDF_modes.GetAxis(1).size() == orders &&
+        partition.beta_T_modes.GetAxis(2).size() == orders);
+  }
+}
 
 bool ThermalScattering::IsValid(const Particle& p) const noexcept {
   const auto E = std::get<ContinuousEnergy>(p.GetEnergy());
-- 
2.43.0


From f5284de1d392252330145071d88479f73486879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:05 +0000
Subject: [PATCH 31/38] fix: blanks between comments and CDATA sections of a
 text are kept

---
 src/XMLDocument.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index 23d5f07..fc3ace8 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -93,6 +93,12 @@ void MergeText(pugi::xml_node node) {
     }
     child = next;
   }
+  // elements contain either text or other elements: blanks around the latter
+  // mean nothing
+  if (merged && std::string{merged.value()}.find_first_not_of(" \t\r\n") ==
+                    std::string::npos) {
+    node.remove_child(merged);
+  }
 }
 
 pugi::xml_document
@@ -108,7 +114,10 @@ XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   parser.parse(xml_filepath.string().c_str());
   // pugixml DOM construction
   pugi::xml_document doc{};
-  if (auto result = doc.load_file(xml_filepath.c_str()); !result) {
+  if (auto result = doc.load_file(
+          xml_filepath.c_str(),
+          pugi::parse_default | pugi::parse_ws_pcdata);
+      !result) {
     throw std::runtime_error(result.description());
   }
   MergeText(doc);
-- 
2.43.0


From bad568dcb3b2e089255b234d1b9067c6f5742729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:19 +0000
Subject: [PATCH 32/38] fix: a particle exactly on a surface belongs to the
 side it is headed to

A particle exactly on a surface was always put on the positive side of it.
When headed to the negative side, the surface is not ahead of it, so that it
streamed through the negative side while remaining in the cell on the positive
side.
---
 src/CSGSurface.cpp      | 28 ++++++++++++++++++++++++++++
 src/CSGSurface.hpp      | 12 ++++++++++++
 src/Cell.cpp            |  9 +++++++++
 src/Cell.hpp            |  3 +++
 src/TransportMethod.cpp | 11 ++++++-----
 src/World.cpp           | 14 ++++++++++++++
 src/World.hpp           |  4 ++++
 7 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index cc0a01f..e5df7d6 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -46,6 +46,10 @@ CSGSurface::Create(const pugi::xml_node& root, const std::string& name) {
 
 CSGSurface::~CSGSurface() noexcept {}
 
+bool CSGSurface::Contains(const Point& p, const Direction& d) const noexcept {
+  return Contains(p) || IsEnteredBy(p, d);
+}
+
 //// protected
 
 CSGSurface::CSGSurface(const pugi::xml_node& surface_node) noexcept
@@ -115,6 +119,13 @@ bool Sphere::Contains(const Point& p) const noexcept {
   return pc.Dot(pc) < radius * radius;
 }
 
+//// private
+
+bool Sphere::IsEnteredBy(const Point& p, const Direction& d) const noexcept {
+  const Point pc{p - center};
+  return pc.Dot(pc) == radius * radius && pc.Dot(d) < 0;
+}
+
 // PlaneX
 
 //// public
@@ -137,6 +148,12 @@ bool PlaneX::Contains(const Point& p) const noexcept {
   return p.Dot(Point{1, 0, 0}) < c;
 }
 
+//// private
+
+bool PlaneX::IsEnteredBy(const Point& p, const Direction& d) const noexcept {
+  return p.Dot(Point{1, 0, 0}) == c && d.Dot(Point{1, 0, 0}) < 0;
+}
+
 // CylinderX
 
 //// public
@@ -172,3 +189,14 @@ bool CylinderX::Contains(const Point& p) const noexcept {
   // than square radius of cylinder
   return pp - pw * pw < radius * radius;
 }
+
+//// private
+
+bool CylinderX::IsEnteredBy(const Point& p, const Direction& d) const noexcept {
+  // axis of the cylinder
+  const auto w = Direction{1, 0, 0};
+  // component of position p along w
+  const auto pw = p.Dot(w);
+  return p.Dot(p) - pw * pw == radius * radius &&
+         p.Dot(d) - pw * d.Dot(w) < 0;
+}
diff --git a/src/CSGSurface.hpp b/src/CSGSurface.hpp
index 5d4851a..e40ae67 100644
--- a/src/CSGSurface.hpp
+++ b/src/CSGSurface.hpp
@@ -29,6 +29,11 @@ public:
   ///        surface. A point <em>on</em> the surface or outside is considered
   ///        to be on the "positive" side.
   virtual bool Contains(const Point& p) const noexcept = 0;
+  /// @brief Returns true if something moving along a Direction is in the
+  ///        "negative" side of the surface. A Point <em>on</em> the surface
+  ///        belongs to the side it is headed to, since CSGSurface::Distance
+  ///        does not report the surface as an intersection ahead of it.
+  bool Contains(const Point& p, const Direction& d) const noexcept;
   /// @brief Return the distance from a given origin Point to the CSGSurface
   ///        along a given Direction
   /// @returns A positive finite distance if Direction is pointed towards the
@@ -48,6 +53,10 @@ protected:
   CSGSurface(const pugi::xml_node& surface_node) noexcept;
 
 private:
+  // Returns true if the Point is exactly on the surface and the Direction
+  // points to the "negative" side
+  virtual bool
+  IsEnteredBy(const Point& p, const Direction& d) const noexcept = 0;
   // Possible derived CSGSurface types
   enum class SurfaceType {
     Sphere,
@@ -76,6 +85,7 @@ public:
   bool Contains(const Point& p) const noexcept override;
 
 private:
+  bool IsEnteredBy(const Point& p, const Direction& d) const noexcept override;
   const Point center;
   const Real radius;
 };
@@ -95,6 +105,7 @@ public:
   bool Contains(const Point& p) const noexcept override;
 
 private:
+  bool IsEnteredBy(const Point& p, const Direction& d) const noexcept override;
   // completely defines the plane x - c = 0
   const Real c;
 };
@@ -113,6 +124,7 @@ public:
   bool Contains(const Point& p) const noexcept override;
 
 private:
+  bool IsEnteredBy(const Point& p, const Direction& d) const noexcept override;
   // completely defines the cylinder r^2 = y^2 + z^2
   const Real radius;
 };
diff --git a/src/Cell.cpp b/src/Cell.cpp
index 6dd5756..229bf55 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -34,6 +34,15 @@ bool Cell::Contains(const Point& p) const noexcept {
       });
 }
 
+bool Cell::Contains(const Point& p, const Direction& d) const noexcept {
+  return std::all_of(
+      surface_senses.cbegin(), surface_senses.cend(),
+      [&p, &d](const auto& surface_ptr_bool_pair) {
+        const auto& [surface_ptr, is_surface_senses] = surface_ptr_bool_pair;
+        return surface_ptr->Contains(p, d) == is_surface_senses;
+      });
+}
+
 std::tuple<std::shared_ptr<const CSGSurface>, Real>
 Cell::NearestSurface(const Point& p, const Direction& d) const {
   const auto& nearest_it = std::min_element(
diff --git a/src/Cell.hpp b/src/Cell.hpp
index 33bd4c0..4ecca39 100644
--- a/src/Cell.hpp
+++ b/src/Cell.hpp
@@ -53,6 +53,9 @@ public:
       const std::shared_ptr<const ScalarField> global_temperature) noexcept;
   /// @brief Returns true if the point lies inside this Cell
   bool Contains(const Point& p) const noexcept;
+  /// @brief Returns true if something moving along a Direction is inside this
+  ///        Cell. A Point on a CSGSurface belongs to the side it is headed to.
+  bool Contains(const Point& p, const Direction& d) const noexcept;
   /// @brief Finds the nearest CSGSurface from a point along a given direction
   /// @param p position in the Cell
   /// @param d direction to search along
diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index 4a2ea2f..97f75de 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -28,7 +28,8 @@ Real NudgedDistance(const Particle& p, const Real distance) noexcept {
   auto nudge = constants::nudge;
   while (nudge < constants::max_nudge &&
          p.GetCell().Contains(
-             p.GetPosition() + p.GetDirection() * (distance + nudge))) {
+             p.GetPosition() + p.GetDirection() * (distance + nudge),
+             p.GetDirection())) {
     nudge *= 2;
   }
   return distance + nudge;
@@ -72,7 +73,7 @@ TransportMethod::~TransportMethod() noexcept {}
 Bank SurfaceTracking::Transport(
     Particle& p, EstimatorSetProxy& e, const World& w) const noexcept {
   Bank history_bank;
-  p.SetCell(w.FindCellContaining(p.GetPosition()));
+  p.SetCell(w.FindCellContaining(p.GetPosition(), p.GetDirection()));
   while (p.IsAlive()) {
     const auto distance_to_collision = std::exponential_distribution{
         p.GetCell().material->number_density *
@@ -86,7 +87,7 @@ Bank SurfaceTracking::Transport(
     }
     else {
       p.Stream(NudgedDistance(p, distance_to_surface_crossing));
-      p.SetCell(w.FindCellContaining(p.GetPosition()));
+      p.SetCell(w.FindCellContaining(p.GetPosition(), p.GetDirection()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
@@ -108,7 +109,7 @@ MicroscopicCrossSection SurfaceTracking::GetCollisionProbabilityDensity(
 Bank CellDeltaTracking::Transport(
     Particle& p, EstimatorSetProxy& e, const World& w) const noexcept {
   Bank history_bank;
-  p.SetCell(w.FindCellContaining(p.GetPosition()));
+  p.SetCell(w.FindCellContaining(p.GetPosition(), p.GetDirection()));
   while (p.IsAlive()) {
     const auto distance_to_collision = std::exponential_distribution{
         p.GetCell().material->number_density *
@@ -118,7 +119,7 @@ Bank CellDeltaTracking::Transport(
     if (distance_to_surface_crossing < distance_to_collision) {
       // a surface crossing occurs
       p.Stream(NudgedDistance(p, distance_to_surface_crossing));
-      p.SetCell(w.FindCellContaining(p.GetPosition()));
+      p.SetCell(w.FindCellContaining(p.GetPosition(), p.GetDirection()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
diff --git a/src/World.cpp b/src/World.cpp
index 72e0ffd..233658c 100644
--- a/src/World.cpp
+++ b/src/World.cpp
@@ -36,6 +36,20 @@ const Cell& World::FindCellContaining(const Point& p) const {
       "that all space is either assigned a material or void.");
 }
 
+const Cell&
+World::FindCellContaining(const Point& p, const Direction& d) const {
+  const auto cell_it =
+      std::find_if(cells.begin(), cells.end(), [&p, &d](const Cell& cell) {
+        return cell.Contains(p, d);
+      });
+  if (cell_it != cells.end()) {
+    return *cell_it;
+  }
+  throw std::runtime_error(
+      "Point does not belong to any Cell. Please check"
+      "that all space is either assigned a material or void.");
+}
+
 bool World::HasConstantTemperature() const noexcept {
   return temperature->IsConstant();
 }
diff --git a/src/World.hpp b/src/World.hpp
index 4c3c5b4..fa60a03 100644
--- a/src/World.hpp
+++ b/src/World.hpp
@@ -32,6 +32,10 @@ public:
   /// @todo More than one Cell may contain a Particle. This should be checked
   ///       during input parsing if possible.
   const Cell& FindCellContaining(const Point& p) const;
+  /// @brief Returns the current Cell occupied by something at a given Point
+  ///        which moves along a given Direction. A Point on a CSGSurface
+  ///        belongs to the side it is headed to.
+  const Cell& FindCellContaining(const Point& p, const Direction& d) const;
   /// @brief Returns true if global temperature has no spatial
   ///        dependence
   /// @todo Check each Cell if it has constant temperature dependence
-- 
2.43.0


From 752d2a2a73d9784f8ada2b9d9f22aafd53b4ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:15 +0000
Subject: [PATCH 33/38] fix: a particle is streamed beyond the very surface it
 crosses

A particle was streamed until it had left its cell. Where two surfaces meet it
may have left through the other surface, so that it had not crossed the one
that was registered, which was then registered again.
---
 src/TransportMethod.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index 97f75de..f50780e 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -1,5 +1,6 @@
 #include "TransportMethod.hpp"
 
+#include "CSGSurface.hpp"
 #include "Cell.hpp"
 #include "Constants.hpp"
 #include "Estimator.hpp"
@@ -19,17 +20,20 @@
 
 namespace {
 
-// Distance at which the Particle has left its current Cell through a surface
-// which is the given distance away. The smallest additional distance which
-// changes the position depends on the magnitude of its coordinates, so the
-// nudge is increased until the Particle is no longer in the Cell. A Particle
-// which merely grazes a surface may remain in the Cell.
-Real NudgedDistance(const Particle& p, const Real distance) noexcept {
+// Distance at which the Particle is beyond a surface of its current Cell which
+// is the given distance away. The smallest additional distance which changes the
+// position depends on the magnitude of its coordinates, so the nudge is
+// increased until the Particle is on the other side of the surface. A Particle
+// which merely grazes a surface may remain on the same side.
+Real NudgedDistance(
+    const Particle& p, const std::shared_ptr<const CSGSurface>& surface,
+    const Real distance) noexcept {
+  const auto sense = p.GetCell().surface_senses.at(surface);
   auto nudge = constants::nudge;
   while (nudge < constants::max_nudge &&
-         p.GetCell().Contains(
+         surface->Contains(
              p.GetPosition() + p.GetDirection() * (distance + nudge),
-             p.GetDirection())) {
+             p.GetDirection()) == sense) {
     nudge *= 2;
   }
   return distance + nudge;
@@ -86,7 +90,8 @@ Bank SurfaceTracking::Transport(
       nuclide.Interact(p);
     }
     else {
-      p.Stream(NudgedDistance(p, distance_to_surface_crossing));
+      p.Stream(
+          NudgedDistance(p, nearest_surface, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition(), p.GetDirection()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
@@ -118,7 +123,8 @@ Bank CellDeltaTracking::Transport(
         p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
     if (distance_to_surface_crossing < distance_to_collision) {
       // a surface crossing occurs
-      p.Stream(NudgedDistance(p, distance_to_surface_crossing));
+      p.Stream(
+          NudgedDistance(p, nearest_surface, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition(), p.GetDirection()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
-- 
2.43.0


From c80baeb8742c6944df9829522bf0158be98597d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:35 +0000
Subject: [PATCH 34/38] fix: a particle on a surface crosses it when it is
 headed to the other side

A particle which moved along a surface and was scattered to the other side of
it remained in its cell, since the surface is not ahead of it, and could leave
the problem without being noticed.
---
 src/TransportMethod.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index f50780e..af5b899 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -16,6 +16,7 @@
 #include <random>
 #include <stdexcept>
 #include <string>
+#include <tuple>
 #include <type_traits>
 
 namespace {
@@ -39,6 +40,19 @@ Real NudgedDistance(
   return distance + nudge;
 }
 
+// Surface of its current Cell which the Particle crosses next and the distance
+// to it. A Particle which is on a surface when its direction changes may be
+// headed to the other side, so that it crosses the surface right away.
+std::tuple<std::shared_ptr<const CSGSurface>, Real>
+NextSurface(const Particle& p) {
+  for (const auto& [surface, sense] : p.GetCell().surface_senses) {
+    if (surface->Contains(p.GetPosition(), p.GetDirection()) != sense) {
+      return std::make_tuple(surface, 0);
+    }
+  }
+  return p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
+}
+
 } // namespace
 
 // TransportMethod
@@ -83,7 +97,7 @@ Bank SurfaceTracking::Transport(
         p.GetCell().material->number_density *
         GetCollisionProbabilityDensity(p)}(p.rng);
     const auto [nearest_surface, distance_to_surface_crossing] =
-        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
+        NextSurface(p);
     if (distance_to_collision < distance_to_surface_crossing) {
       p.Stream(distance_to_collision);
       const auto& nuclide = p.SampleNuclide();
@@ -120,7 +134,7 @@ Bank CellDeltaTracking::Transport(
         p.GetCell().material->number_density *
         GetCollisionProbabilityDensity(p)}(p.rng);
     const auto [nearest_surface, distance_to_surface_crossing] =
-        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
+        NextSurface(p);
     if (distance_to_surface_crossing < distance_to_collision) {
       // a surface crossing occurs
       p.Stream(
-- 
2.43.0


From 08c05fb96f163e57353afed013cf844a1fccaf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:50 +0000
Subject: [PATCH 35/38] fix: photofission needs data for the neutrons it emits

---
 src/Interaction.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Interaction.cpp b/src/Interaction.cpp
index 6790d7c..a1df073 100644
--- a/src/Interaction.cpp
+++ b/src/Interaction.cpp
@@ -15,6 +15,7 @@
 
 Interaction::Map Interaction::Create(const pugi::xml_node& nuclide_node) {
   Map xs;
+  bool emits_neutrons{false};
   std::stringstream particle_name_list{
       nuclide_node.root()
           .select_node("minimc/general/particles")
@@ -27,6 +28,9 @@ Interaction::Map Interaction::Create(const pugi::xml_node& nuclide_node) {
       throw std::runtime_error(
           nuclide_node.path() + ": \"" + particle_name + "\" node not found");
     }
+    if (particle_node.child("fission")) {
+      emits_neutrons = true;
+    }
     const std::string energy_type{nuclide_node.parent().name()};
     if (energy_type == "multigroup") {
       xs.emplace(
@@ -42,6 +46,13 @@ Interaction::Map Interaction::Create(const pugi::xml_node& nuclide_node) {
       assert(false); // this should have been caught by the validator
     }
   }
+  // secondary neutrons can only be transported if data for them are available
+  if (emits_neutrons && xs.find(Particle::Type::neutron) == xs.cend()) {
+    throw std::runtime_error(
+        nuclide_node.path() +
+        ": \"neutron\" is emitted by fission but not listed in "
+        "general/particles");
+  }
   return xs;
 }
 
-- 
2.43.0


From 008483cfb0cb9bd874e3765d8394489df216bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 36/38] let scripted engines be advanced and compared

---
 src/Verif.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Verif.hpp b/src/Verif.hpp
index 6fa0342..0de56df 100644
--- a/src/Verif.hpp
+++ b/src/Verif.hpp
@@ -42,10 +42,19 @@ inline Observer* observer = nullptr;
 class ScriptedEngine {
 public:
   using result_type = std::uint_fast64_t;
-  explicit ScriptedEngine(result_type seed = 1) noexcept : seed{seed} {}
+  static constexpr result_type default_seed = 1;
+  explicit ScriptedEngine(result_type seed = default_seed) noexcept
+      : seed{seed} {}
   static constexpr result_type min() { return 0; }
   static constexpr result_type max() { return ~result_type{0}; }
   result_type operator()() { return draw(*this); }
+  void discard(unsigned long long n) {
+    while (n--) {
+      operator()();
+    }
+  }
+  bool operator==(const ScriptedEngine& rhs) const { return seed == rhs.seed; }
+  bool operator!=(const ScriptedEngine& rhs) const { return seed != rhs.seed; }
   /// @brief Seed used to construct this engine
   result_type seed;
   /// @brief Provides the next number
-- 
2.43.0


From 76d1b145bad24581489e4989804147815116d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:10 +0000
Subject: [PATCH 37/38] let scripted engines be seeded again

---
 src/Verif.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Verif.hpp b/src/Verif.hpp
index 0de56df..3983d8a 100644
--- a/src/Verif.hpp
+++ b/src/Verif.hpp
@@ -43,8 +43,7 @@ class ScriptedEngine {
 public:
   using result_type = std::uint_fast64_t;
   static constexpr result_type default_seed = 1;
-  explicit ScriptedEngine(result_type seed = default_seed) noexcept
-      : seed{seed} {}
+  explicit ScriptedEngine(result_type x = default_seed) noexcept : seed{x} {}
   static constexpr result_type min() { return 0; }
   static constexpr result_type max() { return ~result_type{0}; }
   result_type operator()() { return draw(*this); }
@@ -55,8 +54,13 @@ public:
   }
   bool operator==(const ScriptedEngine& rhs) const { return seed == rhs.seed; }
   bool operator!=(const ScriptedEngine& rhs) const { return seed != rhs.seed; }
-  /// @brief Seed used to construct this engine
-  result_type seed;
+  /// @brief Current state, initially the seed; calling it seeds the engine again
+  struct State {
+    operator result_type() const { return value; }
+    result_type operator+=(result_type x) { return value += x; }
+    void operator()(result_type x = default_seed) { value = x; }
+    result_type value;
+  } seed;
   /// @brief Provides the next number
   static inline result_type (*draw)(ScriptedEngine&) = nullptr;
 };
-- 
2.43.0


From d210c2e82a8be22fecfa1b45706f9c1ae1866793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:18 +0000
Subject: [PATCH 38/38] fix: a particle which starts in a void has left the
 problem already

---
 src/TransportMethod.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index af5b899..621435b 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -92,6 +92,10 @@ Bank SurfaceTracking::Transport(
     Particle& p, EstimatorSetProxy& e, const World& w) const noexcept {
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition(), p.GetDirection()));
+  // a particle which starts in a void has left the problem already
+  if (!p.GetCell().material) {
+    p.event = Particle::Event::leak;
+  }
   while (p.IsAlive()) {
     const auto distance_to_collision = std::exponential_distribution{
         p.GetCell().material->number_density *
@@ -129,6 +133,10 @@ Bank CellDeltaTracking::Transport(
     Particle& p, EstimatorSetProxy& e, const World& w) const noexcept {
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition(), p.GetDirection()));
+  // a particle which starts in a void has left the problem already
+  if (!p.GetCell().material) {
+    p.event = Particle::Event::leak;
+  }
   while (p.IsAlive()) {
     const auto distance_to_collision = std::exponential_distribution{
         p.GetCell().material->number_density *
-- 
2.43.0


From d6090235ad3a87e46f819ba20938606d0999daa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 1/5] fix: sign of the Jacobian for intervals with an infinite
 lower bound

d/dx [ b - (1-x)/(1+x) ] = +2/(1+x)^2; the negative factor turned positive
weights negative and negated every integral over (-inf,b).
---
 include/integratorxx/util/bound_transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index dcf4ecd..ce4053c 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -42,8 +42,8 @@ constexpr inline auto transform_minus_one_to_one(
   } else if( !up_is_inf ) {
 
     // Factor jacobian into the weights
-    // dx' = - \frac{2}{(1+x)^2} dx
-    wgt *= -2.0  / ( (1 + pt) * (1 + pt) );
+    // dx' = \frac{2}{(1+x)^2} dx
+    wgt *= 2.0  / ( (1 + pt) * (1 + pt) );
 
     // Perform the coordinate shift
     // x' = b - \frac{(1-x)}{(1+x)}
-- 
2.43.0


From 1048bac0fc022985e263cd8b8a09d7dab978ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 2/5] fix: accept a final pruning region of a single radial
 shell

A region may start at any shell index below npts(); the debug assertion
rejected a region consisting of the last shell only.
---
 .../composite_quadratures/pruned_spherical_quadrature.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index d90305f..7fcdc06 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,7 +35,7 @@ public:
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
     assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
+      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
     partition_idx_.emplace_back(idx);
-- 
2.43.0


From 50435a639a72d6ab1f7bab4ca3d137a3899f77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 3/5] fix: reject unsupported sizes in the angular quadratures
 instead of returning zero grids

---
 include/integratorxx/quadratures/s2/ahrens_beylkin.hpp | 3 +++
 include/integratorxx/quadratures/s2/delley.hpp         | 3 +++
 include/integratorxx/quadratures/s2/lebedev_laikov.hpp | 3 +++
 include/integratorxx/quadratures/s2/womersley.hpp      | 5 +++++
 4 files changed, 14 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index bf83484..ea1338b 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -162,6 +163,8 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
       detail::copy_grid<ahrens_beylkin_7512<RealType>>(points, weights);
     else if (npts == 15012)
       detail::copy_grid<ahrens_beylkin_15012<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Number of Points in AhrensBeylkin Quadrature");
 
     return std::make_tuple(points, weights);
   }
diff --git a/include/integratorxx/quadratures/s2/delley.hpp b/include/integratorxx/quadratures/s2/delley.hpp
index bbb58e8..9c79444 100644
--- a/include/integratorxx/quadratures/s2/delley.hpp
+++ b/include/integratorxx/quadratures/s2/delley.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/quadratures/s2/delley/delley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -85,6 +86,8 @@ struct quadrature_traits<Delley<RealType>> {
       detail::copy_grid<delley_3074<RealType>>(points, weights);
     else if(npts == 3470)
       detail::copy_grid<delley_3470<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Number of Points in Delley Quadrature");
 
     // Pretabulated weights are missing 4 pi
     for(auto i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
index 6d5adb6..e9a439a 100644
--- a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
+++ b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/lebedev_laikov/lebedev_laikov_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -107,6 +108,8 @@ struct quadrature_traits< LebedevLaikov<RealType> > {
       detail::copy_grid<lebedev_laikov_4802<RealType>>( points, weights );
     else if( npts == 5810 ) 
       detail::copy_grid<lebedev_laikov_5810<RealType>>( points, weights );
+    else
+      throw std::runtime_error("Unsupported Number of Points in LebedevLaikov Quadrature");
 
     // Pretabulated weights are missing 4 pi
     for(size_t i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index 6394f9d..6190c2a 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/util/create_array.hpp>
 #include <integratorxx/quadratures/s2/womersley/womersley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -184,6 +185,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_7814<RealType>>(points, weights);
     else if(npts == 7939)
       detail::copy_grid<womersley_7939<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Number of Points in Womersley Quadrature");
   }
 
   inline static std::tuple<point_container, weight_container> generate(
@@ -319,6 +322,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_1923<RealType>>(points, weights);
     else if(npts == 1986)
       detail::copy_grid<womersley_1986<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Number of Points in Womersley Quadrature");
     return std::make_tuple(points, weights);
   }
 
-- 
2.43.0


From 53919da11873dd139831673636d3008eccfc5f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 4/5] fix: pruning schemes with fewer radial shells than
 regions

---
 .../generators/impl/robust_pruning.hpp        | 19 ++++++++++++-------
 .../generators/impl/treutler_pruning.hpp      | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/integratorxx/generators/impl/robust_pruning.hpp b/include/integratorxx/generators/impl/robust_pruning.hpp
index f397fea..ad1c84a 100644
--- a/include/integratorxx/generators/impl/robust_pruning.hpp
+++ b/include/integratorxx/generators/impl/robust_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -29,13 +31,16 @@ PrunedSphericalGridSpecification robust_psi4_pruning_scheme_impl(
   UnprunedSphericalGridSpecification unp ) {
 
   const size_t rsz = unp.radial_traits->npts();
-  const size_t r_div_4 = rsz / 4ul + 1ul;
-  const size_t r_div_2 = rsz / 2ul + 1ul;
-  std::vector<PruningRegion> pruning_regions = {
-    {0ul,     r_div_4, angular_quad, low_sz},
-    {r_div_4, r_div_2, angular_quad, med_sz},
-    {r_div_2,     rsz, angular_quad, unp.angular_size}
-  };
+  // The outermost region always holds at least the last shell
+  const size_t r_div_2 = std::min(rsz / 2ul + 1ul, rsz - 1ul);
+  const size_t r_div_4 = std::min(rsz / 4ul + 1ul, r_div_2);
+  // Small radial sizes do not have room for all of the regions
+  std::vector<PruningRegion> pruning_regions;
+  if(r_div_4 > 0)
+    pruning_regions.push_back({0ul, r_div_4, angular_quad, low_sz});
+  if(r_div_2 > r_div_4)
+    pruning_regions.push_back({r_div_4, r_div_2, angular_quad, med_sz});
+  pruning_regions.push_back({r_div_2, rsz, angular_quad, unp.angular_size});
 
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
diff --git a/include/integratorxx/generators/impl/treutler_pruning.hpp b/include/integratorxx/generators/impl/treutler_pruning.hpp
index d59a107..5a33aee 100644
--- a/include/integratorxx/generators/impl/treutler_pruning.hpp
+++ b/include/integratorxx/generators/impl/treutler_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -21,13 +23,16 @@ PrunedSphericalGridSpecification treutler_pruning_scheme_impl(
   UnprunedSphericalGridSpecification unp ) {
 
   const size_t rsz = unp.radial_traits->npts();
-  const size_t r_div_3 = rsz / 3ul + 1ul;
-  const size_t r_div_2 = rsz / 2ul + 1ul;
-  std::vector<PruningRegion> pruning_regions = {
-    {0ul,     r_div_3, angular_quad, low_sz},
-    {r_div_3, r_div_2, angular_quad, med_sz},
-    {r_div_2, rsz,     angular_quad, unp.angular_size}
-  };
+  // The outermost region always holds at least the last shell
+  const size_t r_div_2 = std::min(rsz / 2ul + 1ul, rsz - 1ul);
+  const size_t r_div_3 = std::min(rsz / 3ul + 1ul, r_div_2);
+  // Small radial sizes do not have room for all of the regions
+  std::vector<PruningRegion> pruning_regions;
+  if(r_div_3 > 0)
+    pruning_regions.push_back({0ul, r_div_3, angular_quad, low_sz});
+  if(r_div_2 > r_div_3)
+    pruning_regions.push_back({r_div_3, r_div_2, angular_quad, med_sz});
+  pruning_regions.push_back({r_div_2, rsz, angular_quad, unp.angular_size});
 
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
-- 
2.43.0


From c3146ff6ff0d6723ff8d574c99056d41f192e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 5/5] fix: compare SphericalMicroBatcher const iterators with
 const iterators

operator== and operator!= of const_iterator took the mutable iterator, so a loop
from cbegin() to cend() did not compile.
---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 03c848b..df1bf9e 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -351,8 +351,8 @@ class SphericalMicroBatcher {
       return *this;
     } 
 
-    bool operator==( iterator other ){ return idx_it == other.idx_it; }
-    bool operator!=( iterator other ){ return !(*this == other);   }
+    bool operator==( const_iterator other ){ return idx_it == other.idx_it; }
+    bool operator!=( const_iterator other ){ return !(*this == other);   }
 
 
 
-- 
2.43.0


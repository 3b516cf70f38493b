From 30e166cf09f36d17387c0b7dd5af55d8b6272f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 01/41] fix: removeCollinearPoints read before the start of the
 polygon and returned it unclosed

---
 src/clipQuantizedTessellation2d.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 6a3b36d..610e75e 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -37,12 +37,14 @@ removeCollinearPoints(bp::polygon_data<IntType>& poly) {
   std::vector<Point> points;
   Segment segment;
   for (int i = 0; i != n-1; ++i) {
-    segment = bp::construct<Segment>(*(poly.begin()+(i-1)%n), *(poly.begin()+(i+1)%n));
+    // The last point repeats the first, so the predecessor of point 0 is point n-2.
+    segment = bp::construct<Segment>(*(poly.begin()+(i+n-2)%(n-1)), *(poly.begin()+(i+1)%n));
     if (!bp::contains(segment, *(poly.begin() + i))) points.push_back(*(poly.begin() + i));
   }
   POLY_ASSERT2(points.size() >= 3, points.size());
 
-  // Construct the return value.
+  // Construct the return value, again repeating the first point at the end.
+  points.push_back(points.front());
   poly.set(points.begin(), points.end());
 }
 
-- 
2.43.0


From f3259fbac366acd24d64e2fb4ad0521f0f27b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 02/41] fix: adopting an orphan could keep the wrong piece of a
 cell and lose the others

---
 src/clipQuantizedTessellation2d.cc | 35 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 610e75e..ece5416 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -249,11 +249,13 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
   }
   POLY_ASSERT(cellPolygons.size() == ncells);
 
-  // Now deal with any orphans.
-  for (typename Orphanage::iterator orphanItr = orphans.begin();
-       orphanItr != orphans.end();
-       ++orphanItr) {
-    const Polygon& orphan = *orphanItr;
+  // Now deal with any orphans.  An orphan that only touches other orphans is put back at the end of
+  // the line, as are the fragments left over when adopting one orphan splits a cell; orphanParents
+  // is the cell such a fragment was split from.
+  const size_t maxOrphans = 4*orphans.size();
+  std::vector<unsigned> orphanParents(orphans.size(), ncells);
+  for (size_t iorphan = 0; iorphan < orphans.size(); ++iorphan) {
+    const Polygon orphan = orphans[iorphan];
 
     // Start the local boundary with just the orphan.
     PolygonSet localBoundary;
@@ -274,7 +276,14 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
         neighbors.insert(newNodeCells[nodeID].begin(), newNodeCells[nodeID].end());
       }
     }
-    POLY_ASSERT(neighbors.size() > 0);
+    neighbors.erase(orphanParents[iorphan]);
+    if (neighbors.size() == 0) {
+      if (orphans.size() < maxOrphans) {
+        orphans.push_back(orphan);
+        orphanParents.push_back(orphanParents[iorphan]);
+      }
+      continue;
+    }
 
     // Find the overall boundary of the orphan unioned with all the neighbors, and accumulate the
     // local generator positions.
@@ -319,7 +328,19 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
       PolygonSet cellSet;
       cellSet += cell;
       cellSet &= localBoundary;
-      POLY_ASSERT2(cellSet.size() == 1, cellSet.size());  // Hopefully no more new orphans!
+
+      // If there is more than one piece, the one with the generator is the cell.
+      const Point gen = bp::construct<Point>(localgenerators[i].x, localgenerators[i].y);
+      unsigned polygonIndex = 0;
+      while (polygonIndex < cellSet.size() and not bp::contains(cellSet[polygonIndex], gen)) ++polygonIndex;
+      POLY_ASSERT(polygonIndex < cellSet.size());
+      for (unsigned ipoly = 0; ipoly != cellSet.size(); ++ipoly) {
+        if (ipoly != polygonIndex and orphans.size() < maxOrphans) {
+          orphans.push_back(cellSet[ipoly]);
+          orphanParents.push_back(igen);
+        }
+      }
+      if (polygonIndex != 0) std::swap(cellSet[0], cellSet[polygonIndex]);
 
       removeCollinearPoints(cellSet[0]); // Get rid of any collinear points the intersection operation may have left behind.
 
-- 
2.43.0


From 8c8dabdca047fde59521ec00b9353070bfd4722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:05 +0000
Subject: [PATCH 03/41] fix: cells that adopted an orphan had hanging nodes
 against their neighbors

---
 src/clipQuantizedTessellation2d.cc | 66 +++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index ece5416..9bef6d7 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -4,6 +4,8 @@
 // This method relies upon the Boost.Polygon library for geometric operations.
 //------------------------------------------------------------------------------
 
+#include <algorithm>
+#include <cmath>
 #include <vector>
 #include <map>
 #include <set>
@@ -48,6 +50,65 @@ removeCollinearPoints(bp::polygon_data<IntType>& poly) {
   poly.set(points.begin(), points.end());
 }
 
+//------------------------------------------------------------------------------
+// Make a cell clipped against a boundary conform to the vertices of that
+// boundary, and remove its collinear points other than nodes of cells that are
+// not being clipped, and the ends of the seams connecting it to its holes.
+//------------------------------------------------------------------------------
+template<typename IntType>
+void
+cleanClippedCell(bp::polygon_data<IntType>& poly,
+                 const std::vector<bp::polygon_data<IntType> >& boundary,
+                 const std::set<unsigned>& clippedCells,
+                 internal::IntPointMap<2, IntType>& node2id,
+                 const std::vector<std::set<int> >& nodeCells) {
+  using namespace bp;
+  typedef polygon_data<IntType> Polygon;
+  typedef segment_data<IntType> Segment;
+  typedef typename polygon_traits<Polygon>::point_type Point;
+
+  // An intersection at a shallow angle is displaced by several integer coordinates.
+  const double tol = 64.0;
+  std::vector<Point> points(poly.begin(), poly.end());
+  for (unsigned i = 0; i != points.size(); ++i) {
+    const Point p = points[i];
+    double mindist = tol;
+    for (unsigned k = 0; k != boundary.size(); ++k) {
+      for (typename Polygon::iterator_type itr = boundary[k].begin(); itr != boundary[k].end(); ++itr) {
+        const double dx = double(itr->x()) - double(p.x()), dy = double(itr->y()) - double(p.y());
+        const double dist = std::sqrt(dx*dx + dy*dy);
+        if (dist < mindist) {
+          mindist = dist;
+          points[i] = *itr;
+        }
+      }
+    }
+  }
+
+  points.erase(std::unique(points.begin(), points.end()), points.end());
+
+  // The last point repeats the first, so the predecessor of point 0 is point n-2.
+  const int n = points.size();
+  std::vector<Point> result;
+  Segment segment;
+  for (int i = 0; i != n-1; ++i) {
+    segment = bp::construct<Segment>(points[(i+n-2)%(n-1)], points[i+1]);
+    const IntPoint p(points[i].x(), points[i].y());
+    bool keep = (not bp::contains(segment, points[i]) or
+                 std::count(points.begin(), points.end() - 1, points[i]) > 1);
+    if (not keep and node2id.have(p)) {
+      const std::set<int>& cells = nodeCells[node2id.index(p)];
+      for (std::set<int>::const_iterator itr = cells.begin(); itr != cells.end(); ++itr) {
+        if (clippedCells.find(*itr) == clippedCells.end()) keep = true;
+      }
+    }
+    if (keep) result.push_back(points[i]);
+  }
+  POLY_ASSERT2(result.size() >= 3, result.size());
+  result.push_back(result.front());
+  poly.set(result.begin(), result.end());
+}
+
 }
 
 //------------------------------------------------------------------------------
@@ -342,7 +403,10 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
       }
       if (polygonIndex != 0) std::swap(cellSet[0], cellSet[polygonIndex]);
 
-      removeCollinearPoints(cellSet[0]); // Get rid of any collinear points the intersection operation may have left behind.
+      // The intersection recomputes the points where the new cells meet the local boundary, and may
+      // leave collinear points behind.  Put the former back on the boundary vertices the surrounding
+      // cells use, and drop the latter unless they are nodes of the surrounding cells.
+      cleanClippedCell(cellSet[0], localBoundary, neighbors, node2id, newNodeCells);
 
       // Read out the new cell geometry.
       cellPolygons[igen] = cellSet[0];
-- 
2.43.0


From bd8608c5f7217530e5c2b2bf0cb19fd703685d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 04/41] fix: position hashes lost all but one coordinate, so
 distinct generators were taken for duplicates

The hash packs 31 bits (2D) or 21 bits (3D) per coordinate, which needs the 64
bit integers the hashing was written for; KeyTraits::Key is now an int.
---
 src/polytope_geometric_utilities.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 653504c..6552c94 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -61,7 +61,7 @@ template<int Dimension, typename RealType> struct Hasher;
 template<typename RealType> struct Hasher<2, RealType> {
 
   // typedef typename DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 31U; }
   //static unsigned  num1dbits()                { return 30U; }
@@ -172,7 +172,7 @@ template<typename RealType> struct Hasher<2, RealType> {
 template<typename RealType> struct Hasher<3, RealType> {
 
   // typedef DimensionTraits<3, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 21U; }
   static CoordHash coordMax()                 { return (1ULL << num1dbits()) - 1ULL; }
@@ -1359,7 +1359,7 @@ uniquePoints(const std::vector<RealType>& points,
   POLY_ASSERT(points.size() % Dimension == 0);
   typedef geometry::Hasher<Dimension, RealType> HasherType;
   // typedef DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   // // Compute the bounding box.
   // RealType xmin[Dimension], xmax[Dimension];
-- 
2.43.0


From 58ed18a571d3734e3d09721e2535f15b02f85249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 05/41] fix: intersect dropped crossings that share a
 coordinate with the previous one

---
 src/intersect.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/intersect.hh b/src/intersect.hh
index bcbcbe8..1a81662 100644
--- a/src/intersect.hh
+++ b/src/intersect.hh
@@ -46,11 +46,11 @@ struct IntersectFacetsFunctor<2, RealType> {
                                                    intersectionPoint);
       addPoint = false;
       if(intersects) {
-        if (numIntersections == 0) addPoint = true;
-        else {
-          if (intersectionPoint[0] != result.back() - 1 and
-              intersectionPoint[1] != result.back() ) addPoint = true;
-          else addPoint = false;
+        // Neighboring facets both report the vertex they share: only count it once.
+        addPoint = true;
+        for (unsigned k = result.size()/2 - numIntersections; k != result.size()/2; ++k) {
+          if (intersectionPoint[0] == result[2*k] and
+              intersectionPoint[1] == result[2*k + 1]) addPoint = false;
         }
       }
       
-- 
2.43.0


From 20edad6646d2a6edc0d2ce8c5446372b53e6d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 06/41] fix: a ray parallel to a plane was tested against the
 origin instead of the plane

---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 6552c94..b374345 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -704,7 +704,7 @@ rayPlaneIntersection(const RealType* p_ray,
   const RealType delta[3] = {p_plane[0] - p_ray[0], p_plane[1] - p_ray[1], p_plane[2] - p_ray[2]};
   if (std::abs(ndots) < tol) {
     // Ray is parallel to the plane.
-    if (std::abs(dot<3, RealType>(p_ray, delta)) < tol) {
+    if (std::abs(dot<3, RealType>(n_plane, delta)) < tol) {
       // Ray is in the plane, just choose the origin point.
       result[0] = p_ray[0]; result[1] = p_ray[1]; result[2] = p_ray[2];
       return true;
-- 
2.43.0


From def70ac9c466332aea5ded27384a01d3dda52726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 07/41] fix: computeNormal returned a wrong x component

---
 src/convexIntersect.hh              | 2 +-
 src/polytope_geometric_utilities.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index 095a9c1..ca7ec46 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -95,7 +95,7 @@ void computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
                    double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index b374345..ab16de5 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -1577,7 +1577,7 @@ computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
               double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
-- 
2.43.0


From ffae576d7de1a01d1507363f7c7e057e552464fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 08/41] fix: collinear over a set of points skipped the third
 one in 3D and read past a set of two

---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index ab16de5..32e2d85 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -483,7 +483,7 @@ collinear(const std::vector<RealType> points, const RealType tol) {
   bool isCollinear = true;
   int i;
   if (points.size()/Dimension > 1) {
-    i = Dimension;
+    i = 2;
     while (isCollinear and i != points.size()/Dimension) {
       isCollinear *= collinear<Dimension, RealType>(&points[0],
 						    &points[Dimension],
-- 
2.43.0


From d4a243be6d12f3993b594a780e3e740762762fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 09/41] fix: convexIntersect in 3D never separated polyhedra
 along a pair of edges

---
 src/convexIntersect.hh | 45 +++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index ca7ec46..edb06a1 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -3,6 +3,9 @@
 
 #include <vector>
 #include <utility>
+#include <set>
+#include <limits>
+#include <algorithm>
 
 #include "PLC.hh"
 
@@ -247,31 +250,41 @@ convexIntersect(const ReducedPLC<3, RealType>& a, const ReducedPLC<3, RealType>&
     }
   }
 
-  // Test against the cross products of the edges.
-  int sidea, sideb;
+  // Test against the cross products of the edges: the polyhedra are disjoint if
+  // their projections on one of these directions are.
+  unsigned i2, j2, ip;
+  double proj, amin, amax, bmin, bmax;
   for (typename EdgeSet::const_iterator aItr = aEdges.begin();
        aItr != aEdges.end();
        ++aItr) {
     i = aItr->first;
+    i2 = aItr->second;
     for (typename EdgeSet::const_iterator bItr = bEdges.begin();
          bItr != bEdges.end();
          ++bItr) {
       j = bItr->first;
-      computeNormal(RealType(0), RealType(0), RealType(0),
-                    a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                    b.points[3*j], b.points[3*j + 1], b.points[3*j + 2],
+      j2 = bItr->second;
+      computeNormal(0.0, 0.0, 0.0,
+                    double(a.points[3*i2  ]) - double(a.points[3*i  ]),
+                    double(a.points[3*i2+1]) - double(a.points[3*i+1]),
+                    double(a.points[3*i2+2]) - double(a.points[3*i+2]),
+                    double(b.points[3*j2  ]) - double(b.points[3*j  ]),
+                    double(b.points[3*j2+1]) - double(b.points[3*j+1]),
+                    double(b.points[3*j2+2]) - double(b.points[3*j+2]),
                     nx, ny, nz);
-
-      // Test all of a.
-      sidea = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                      nx, ny, nz,
-                      a.points);
-      if (sidea == 0) continue;
-      sideb = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                      nx, ny, nz,
-                      b.points);
-      if (sideb == 0) continue;
-      if (sidea*sideb < 0) return false;
+      amin = bmin =  std::numeric_limits<double>::max();
+      amax = bmax = -std::numeric_limits<double>::max();
+      for (ip = 0; ip != nva; ++ip) {
+        proj = nx*a.points[3*ip] + ny*a.points[3*ip+1] + nz*a.points[3*ip+2];
+        amin = std::min(amin, proj);
+        amax = std::max(amax, proj);
+      }
+      for (ip = 0; ip != nvb; ++ip) {
+        proj = nx*b.points[3*ip] + ny*b.points[3*ip+1] + nz*b.points[3*ip+2];
+        bmin = std::min(bmin, proj);
+        bmax = std::max(bmax, proj);
+      }
+      if (amax < bmin or bmax < amin) return false;
     }
   }
 
-- 
2.43.0


From 2c720a58a7bd77404f333a0915146d0cca56c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 10/41] fix: polygon to PLC conversion lost the second node of
 every hole facet

---
 src/PLC_Boost_2d.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLC_Boost_2d.hh b/src/PLC_Boost_2d.hh
index 38d35e3..daf0029 100644
--- a/src/PLC_Boost_2d.hh
+++ b/src/PLC_Boost_2d.hh
@@ -121,9 +121,9 @@ ReducedPLCfromPolygon(const boost::geometry::model::polygon<Point2<RealType>, fa
       result.points.push_back((*itr).x);
       result.points.push_back((*itr).y);
       result.holes[ihole][ii][0] = offset + ii;
-      result.holes[ihole][ii][0] = offset + ((ii+1) % nhfacets);
+      result.holes[ihole][ii][1] = offset + ((ii+1) % nhfacets);
     }
-    POLY_ASSERT(ii == nhfacets-1);
+    POLY_ASSERT(ii == nhfacets);
     offset += ii;
   }
   return result;
-- 
2.43.0


From 7ce1ab6461ecdd6ef67d48aecf785550b4cc330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 11/41] fix: a ReducedPLC made from a PLC with holes kept the
 holes' old point numbers without their points

---
 src/ReducedPLC.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ReducedPLC.hh b/src/ReducedPLC.hh
index f2082d4..bc40f65 100644
--- a/src/ReducedPLC.hh
+++ b/src/ReducedPLC.hh
@@ -40,6 +40,11 @@ public:
     for (i = 0; i != plc.facets.size(); ++i) {
       std::copy(plc.facets[i].begin(), plc.facets[i].end(), std::inserter(indices, indices.end()));
     }
+    for (int h = 0; h != plc.holes.size(); ++h) {
+      for (i = 0; i != plc.holes[h].size(); ++i) {
+        std::copy(plc.holes[h][i].begin(), plc.holes[h][i].end(), std::inserter(indices, indices.end()));
+      }
+    }
     std::map<int, int> old2new;
     int j = 0;
     for (typename std::set<int>::const_iterator itr = indices.begin();
@@ -54,6 +59,13 @@ public:
         this->facets[i][j] = old2new[this->facets[i][j]];
       }
     }
+    for (int h = 0; h != this->holes.size(); ++h) {
+      for (i = 0; i != this->holes[h].size(); ++i) {
+        for (j = 0; j != this->holes[h][i].size(); ++j) {
+          this->holes[h][i][j] = old2new[this->holes[h][i][j]];
+        }
+      }
+    }
   }
 
   //! output operator.
-- 
2.43.0


From ed786d68f516998fc8634a00d94b41b280213ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 12/41] fix: the 3D convex hull of points with duplicates
 referred to the wrong points

---
 src/convexHull_3d.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/convexHull_3d.hh b/src/convexHull_3d.hh
index 9114d7a..6bb4971 100644
--- a/src/convexHull_3d.hh
+++ b/src/convexHull_3d.hh
@@ -418,15 +418,20 @@ convexHull_3d(const std::vector<RealType>& points,
     // std::cerr << "  --> " << remainingPoints.size() << std::endl;
   }
 
-  // Read out the data to the PLC and we're done.
+  // Read out the data to the PLC in terms of the original point numbering (the first
+  // of each set of coincident points) and we're done.
+  std::vector<int> unique2orig(nunique, -1);
+  for (unsigned i = 0; i != pointMap.size(); ++i) {
+    if (unique2orig[pointMap[i]] == -1) unique2orig[pointMap[i]] = i;
+  }
   PLC<3, RealType> plc;
   for (typename FacetSet::iterator facetItr = workingFacets.begin();
        facetItr != workingFacets.end();
        ++facetItr) {
     plc.facets.push_back(std::vector<int>());
-    plc.facets.back().push_back(pointMap[facetItr->inode]);
-    plc.facets.back().push_back(pointMap[facetItr->jnode]);
-    plc.facets.back().push_back(pointMap[facetItr->knode]);
+    plc.facets.back().push_back(unique2orig[facetItr->inode]);
+    plc.facets.back().push_back(unique2orig[facetItr->jnode]);
+    plc.facets.back().push_back(unique2orig[facetItr->knode]);
   }
   return plc;
 }
-- 
2.43.0


From 2f4c77c5e2cb5bb36f3da831994eae4c81856c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 13/41] fix: the 2D CSG union leaked its three BSP trees

---
 src/PLC_CSG_2d.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index 5b30dc5..fc43a4f 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -429,9 +429,9 @@ ReducedPLC<2, RealType> csg_union(const ReducedPLC<2, RealType>& a,
   Node<RealType>* B = new Node<RealType>(ReducedPLCtoSegments(b));
   Node<RealType>* AB = csg_union(A, B);                                  // <-- only difference
   std::vector<Segment<RealType> > segments = AB->allSegments();
-  // delete A; A = 0;
-  // delete B; B = 0;
-  // delete AB; AB = 0;
+  delete A; A = 0;
+  delete B; B = 0;
+  delete AB; AB = 0;
   return ReducedPLCfromSegments(segments);
 }
 
-- 
2.43.0


From cc1f90048364ba9b8d8deca22a292ddd483d8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 14/41] fix: MeshEditor::deleteCells wrote past the cells
 unless the deleted ones came last

---
 src/MeshEditor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 1a32cfb..de2d0ac 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -713,7 +713,7 @@ cleanMesh(std::vector<unsigned>& cellMap,
         //POLY_ASSERT(faceMap.find(iface) != faceMap.end());
         if (mFaceMask[iface] == 1) {
           // int newFace = (*itr >= 0 ? faceMap[iface] : ~faceMap[iface]);
-          newCells[i].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
+          newCells[cellMap[i]].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
         }
       }
     }
-- 
2.43.0


From 40b81004de33382351b90f71ee26c10bf11cd91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 15/41] fix: deleting cells or cleaning edges left the old
 boundary node and face lists

---
 src/MeshEditor.cc  | 4 ++++
 src/deleteCells.hh | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index de2d0ac..f9b9ad1 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -6,6 +6,7 @@
 
 #include "polytope.hh"
 #include "MeshEditor.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -739,6 +740,9 @@ cleanMesh(std::vector<unsigned>& cellMap,
     mMesh.sharedFaces[idomain] = newFaces;
   }
 
+  // The boundary has been renumbered, and grows where cells were deleted.
+  findBoundaryElements(mMesh, mMesh.boundaryFaces, mMesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mMesh.convexHull = PLC<Dimension, RealType>();
 
diff --git a/src/deleteCells.hh b/src/deleteCells.hh
index a15147b..68caebf 100644
--- a/src/deleteCells.hh
+++ b/src/deleteCells.hh
@@ -17,6 +17,7 @@
 #include <map>
 
 #include "polytope.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -154,6 +155,9 @@ deleteCells(Tessellation<Dimension, RealType>& mesh,
     mesh.sharedFaces[idomain] = newFaces;
   }
 
+  // The boundary has been renumbered, and grows where cells were deleted.
+  findBoundaryElements(mesh, mesh.boundaryFaces, mesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mesh.convexHull = PLC<Dimension, RealType>();
 
-- 
2.43.0


From 62eeeda65d0f758a8cd76317d19feaa531021af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 16/41] fix: parallel cleanEdges sent every neighbor the masks
 of the ones before it, from a buffer still in use

---
 src/MeshEditor.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index f9b9ad1..bd9016e 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -379,14 +379,17 @@ flagEdgesForCleaning(const RealType edgeTol,
     }
     
     // Send the sharedEdgeMask to each neighbor asynchronously
-    vector<char> localBuffer;
+    vector<vector<char> > localBuffers(mMesh.neighborDomains.size());
+    vector<unsigned> localBufferSizes(mMesh.neighborDomains.size());
     vector<MPI_Request> sendRequests;
     sendRequests.reserve(2*mMesh.neighborDomains.size());
     ineighbor = 0;
     for (vector<unsigned>::const_iterator otherItr = mMesh.neighborDomains.begin();
          otherItr != mMesh.neighborDomains.end(); ++otherItr, ++ineighbor) {
+      vector<char>& localBuffer = localBuffers[ineighbor];
       serialize(sharedEdgeMask[ineighbor], localBuffer);
-      unsigned localBufferSize = localBuffer.size();
+      unsigned& localBufferSize = localBufferSizes[ineighbor];
+      localBufferSize = localBuffer.size();
       const unsigned otherProc = *otherItr;
       sendRequests.push_back(MPI_Request());
       MPI_Isend(&localBufferSize, 1, MPI_UNSIGNED, otherProc, 1, MPI_COMM_WORLD, &sendRequests.back());
-- 
2.43.0


From ab12ce094ec4e3b84ebf96bd6a8e9474e7af7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 17/41] fix: collinear took any two points closer than the root
 of its tolerance for coincident, whatever their scale

---
 src/polytope_geometric_utilities.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 32e2d85..b1e7b92 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -433,7 +433,8 @@ collinear(const RealType* a, const RealType* b, const RealType* c, const RealTyp
     abmag += ab[j]*ab[j];
     acmag += ac[j]*ac[j];
   }
-  if (abmag < tol or acmag < tol) return true;
+  // Coincident points (on the scale of the three) are collinear with anything.
+  if (std::min(abmag, acmag) <= tol*tol*std::max(abmag, acmag)) return true;
   abmag = sqrt(abmag);
   acmag = sqrt(acmag);
   for (unsigned j = 0; j != Dimension; ++j) {
-- 
2.43.0


From 0569ec5f6874a042598e53ab9975fc38b087c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 18/41] fix: cleanEdges could collapse a triangular cell or
 pinch the mesh off at its boundary

---
 src/MeshEditor.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index bd9016e..2e3a146 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -115,7 +115,7 @@ flagEdgesForCleaning(const RealType edgeTol,
   // //EdgeMap edgeToID;
   map<EdgeType, int> edgeToIndex;
   map<int, EdgeType> indexToEdge;
-  map<unsigned, vector<unsigned> > cellToEdges, borderNodesToBorderFaces;
+  map<unsigned, vector<unsigned> > cellToEdges, edgeToCells, borderNodesToBorderFaces;
   set<unsigned> borderNodes;
   vector<RealType> edgeLength;
   RealType length;
@@ -156,6 +156,7 @@ flagEdgesForCleaning(const RealType edgeTol,
            edgeLength.push_back(length);
         }
         cellEdgeIDs.push_back(iedge);
+        edgeToCells[iedge].push_back(icell);
 
         // // typename EdgeMap::left_const_iterator lItr = edgeToID.left.find(edge);
 	// // if (lItr == edgeToID.left.end()) {
@@ -228,6 +229,8 @@ flagEdgesForCleaning(const RealType edgeTol,
   vector<unsigned> nodeCollapse(nnodes0);
   EdgeType edge;
   mNodeMask = vector<unsigned>(nnodes0, 1);
+  vector<unsigned> numCellEdges(ncells0);
+  for (unsigned i = 0; i != ncells0; ++i) numCellEdges[i] = cellToEdges[i].size();
   for (unsigned i = 0; i != nnodes0; ++i) nodeCollapse[i] = i;
   for (unsigned iedge = 0; iedge != nedges0; ++iedge) {
     POLY_ASSERT(indexToEdge.find(iedge) != indexToEdge.end());
@@ -242,12 +245,25 @@ flagEdgesForCleaning(const RealType edgeTol,
     const bool cornerEdge = (cornerNodes.find(inode0) != cornerNodes.end() or
                              cornerNodes.find(inode1) != cornerNodes.end());
                             //(isCornerNode[inode0] == 0 or isCornerNode[inode1] == 0));
+    // In 2D every cell needs to keep at least three edges.
+    const vector<unsigned>& edgeCells = edgeToCells[iedge];
+    bool collapsesCell = false;
+    for (unsigned i = 0; Dimension == 2 and i != edgeCells.size(); ++i) {
+      if (numCellEdges[edgeCells[i]] <= 3) collapsesCell = true;
+    }
+    // An interior edge across the mesh must not pinch it off.
+    const bool pinchesMesh = (edgeCells.size() > 1 and
+                              borderNodes.find(inode0) != borderNodes.end() and
+                              borderNodes.find(inode1) != borderNodes.end());
     const bool cleanTest = (edgeLength[iedge] < edgeTol*maxCellEdgeLength[iedge] and
                             mNodeMask[inode0] == 1 and 
                             mNodeMask[inode1] == 1 and
-                            not cornerEdge);
+                            not cornerEdge and
+                            not collapsesCell and
+                            not pinchesMesh);
     if (cleanTest) {
       edgesClean = false;
+      for (unsigned i = 0; i != edgeCells.size(); ++i) --numCellEdges[edgeCells[i]];
       edgeMask[iedge] = 0;
       const bool node1KeepTest = //isCornerNode[inode1] == 1 or 
          (cornerNodes.find(inode1) != cornerNodes.end()) or
-- 
2.43.0


From 9281896049430cee9b159339d49ecaaa89197882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 19/41] fix: Silo files listed the first cell of every face
 twice, with wrong lengths for the parts

---
 src/SiloWriter_2d.cc | 6 +++---
 src/SiloWriter_3d.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 0a1449d..430f110 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -314,13 +314,13 @@ write(const Tessellation<2, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 70ddaed..6b929e5 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -351,13 +351,13 @@ write(const Tessellation<3, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
-- 
2.43.0


From 1805ba47ac3f12a3fa0b946960dd7f1f64251d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 20/41] fix: Silo files stored every tag under an empty name

---
 src/SiloUtils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SiloUtils.cc b/src/SiloUtils.cc
index 97e51b4..e77a4f6 100644
--- a/src/SiloUtils.cc
+++ b/src/SiloUtils.cc
@@ -37,8 +37,7 @@ writeTagsToFile(const map<string, vector<int>*>& tags,
   {
     vector<int>& tag = *iter->second;
     elemLengths.push_back(static_cast<int>(tag.size()));
-    string tagName;
-    elemNames.push_back(strDup(tagName.c_str()));
+    elemNames.push_back(strDup(iter->first.c_str()));
     for (size_t i = 0; i < tag.size(); ++i)
       tagData.push_back(tag[i]);
   }
-- 
2.43.0


From 41578764b22cd44653528dee2394d0d4da2791d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 21/41] fix: processes sharing a Silo file wiped out what the
 ones before them had written

---
 src/SiloWriter_2d.cc | 3 ++-
 src/SiloWriter_3d.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 430f110..be78e82 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -92,7 +92,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // An earlier process of our group has already written to this file.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 6b929e5..df57ab4 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -117,7 +117,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // An earlier process of our group has already written to this file.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
-- 
2.43.0


From 34d721666cc88f7699f335efaf6df095e0ee83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 22/41] fix: Silo files left out processes when they do not
 divide evenly among the files

---
 src/SiloWriter_2d.cc | 30 +++++++++++++++++-------------
 src/SiloWriter_3d.cc | 30 +++++++++++++++++-------------
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index be78e82..ebd51e3 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -399,7 +399,10 @@ write(const Tessellation<2, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  // PMPIO gives the first nproc % numFiles groups one process more than the others.
+  const int minChunks = nproc / numFiles;
+  const int numExtraChunks = nproc % numFiles;
+  const int numChunks = minChunks + (groupRank < numExtraChunks ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -467,16 +470,17 @@ write(const Tessellation<2, RealType>& mesh,
     // cerr << "Opening MASTER file " << masterFileName << endl;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames(nproc);
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
         edgeFields.size() +
         faceFields.size() +
         cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
+    int ichunk = 0;
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      for (int c = 0; c < minChunks + (i < numExtraChunks ? 1 : 0); ++c)
       {
         // Mesh.
         char meshName[1024];
@@ -484,7 +488,7 @@ write(const Tessellation<2, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames[ichunk++] = strDup(meshName);
 
         // Field data.
         int fieldIndex = 0;
@@ -503,21 +507,21 @@ write(const Tessellation<2, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
         &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index df57ab4..a9b7fb7 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -441,7 +441,10 @@ write(const Tessellation<3, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  // PMPIO gives the first nproc % numFiles groups one process more than the others.
+  const int minChunks = nproc / numFiles;
+  const int numExtraChunks = nproc % numFiles;
+  const int numChunks = minChunks + (groupRank < numExtraChunks ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -508,16 +511,17 @@ write(const Tessellation<3, RealType>& mesh,
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames(nproc);
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
                                     edgeFields.size() +
                                     faceFields.size() +
                                     cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
+    int ichunk = 0;
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      for (int c = 0; c < minChunks + (i < numExtraChunks ? 1 : 0); ++c)
       {
         // Mesh.
         char meshName[1024];
@@ -525,7 +529,7 @@ write(const Tessellation<3, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames[ichunk++] = strDup(meshName);
 
         // Field data.
         int fieldIndex = 0;
@@ -544,21 +548,21 @@ write(const Tessellation<3, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
                    &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
-- 
2.43.0


From 730ac2a50bf22813d32308f37d06b031cf8a0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 23/41] fix: the header of an OFF file did not count the facets
 of the holes it goes on to list

---
 src/polytope_write_OOGL.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polytope_write_OOGL.hh b/src/polytope_write_OOGL.hh
index 19387ab..7678065 100644
--- a/src/polytope_write_OOGL.hh
+++ b/src/polytope_write_OOGL.hh
@@ -31,7 +31,9 @@ void writePLCtoOFF(const PLC<2, RealType>& plc,
   outfile.open(filename.c_str(), std::ios::out);
 
   // Count the numbers of elements we have.
-  const unsigned npoints = coords.size()/2, nfacets = plc.facets.size();
+  const unsigned npoints = coords.size()/2;
+  unsigned nfacets = plc.facets.size();
+  for (unsigned ihole = 0; ihole != plc.holes.size(); ++ihole) nfacets += plc.holes[ihole].size();
   std::set<EdgeHash> edges;
   for (unsigned i = 0; i != plc.facets.size(); ++i) {
     POLY_ASSERT(plc.facets[i].size() == 2);
@@ -100,7 +102,9 @@ void writePLCtoOFF(const PLC<3, RealType>& plc,
   outfile.open(filename.c_str(), std::ios::out);
 
   // Count the numbers of elements we have.
-  const unsigned npoints = coords.size()/3, nfacets = plc.facets.size();
+  const unsigned npoints = coords.size()/3;
+  unsigned nfacets = plc.facets.size();
+  for (unsigned ihole = 0; ihole != plc.holes.size(); ++ihole) nfacets += plc.holes[ihole].size();
   std::set<EdgeHash> edges;
   // for (unsigned i = 0; i != plc.facets.size(); ++i) {
   //   const unsigned n = plc.facets[i].size();
-- 
2.43.0


From 3e40caa748222b924bcd5de19e18dce991bb90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 24/41] fix: the 3D Silo writer put its master file outside the
 directory it was given

---
 src/SiloWriter_3d.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index a9b7fb7..ad57f12 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -505,9 +505,9 @@ write(const Tessellation<3, RealType>& mesh,
   {
     char masterFileName[1024];
     if (cycle >= 0)
-      snprintf(masterFileName, 1024, "%s-%d/%s-%d.silo", prefix.c_str(), nproc, prefix.c_str(), cycle);
+      snprintf(masterFileName, 1024, "%s/%s-%d.silo", masterDirName.c_str(), prefix.c_str(), cycle);
     else
-      snprintf(masterFileName, 1024, "%s-%d/%s.silo", prefix.c_str(), nproc, prefix.c_str());
+      snprintf(masterFileName, 1024, "%s/%s.silo", masterDirName.c_str(), prefix.c_str());
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-- 
2.43.0


From e1cdf6a316ec47c0bca94bdcfb1d2a4649a6b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 25/41] fix: a new C tessellation's face_cells held garbage,
 which clearing or freeing it passed to free()

---
 polytope_c/polytope_tessellation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2414762..1b5d1af 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -24,6 +24,7 @@ polytope_tessellation_t* polytope_tessellation_new(int dimension)
   tess->num_faces = 0;
   tess->face_offsets = NULL;
   tess->face_nodes = NULL;
+  tess->face_cells = NULL;
   tess->num_neighbor_domains = 0;
   tess->neighbor_domains = NULL;
   tess->shared_node_domain_offsets = NULL;
-- 
2.43.0


From 436cc7329821484cd13cffd76129ddcc6b3bcf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 26/41] fix: clearing a C tessellation left its boundary and
 face_cells arrays dangling, freed again later

---
 polytope_c/polytope_tessellation.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 1b5d1af..2b12d3f 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -79,14 +79,19 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
   if (tessellation->boundary_nodes != NULL)
   {
     free(tessellation->boundary_nodes);
+    tessellation->num_boundary_nodes = 0;
+    tessellation->boundary_nodes = NULL;
   }
   if (tessellation->boundary_faces != NULL)
   {
     free(tessellation->boundary_faces);
+    tessellation->num_boundary_faces = 0;
+    tessellation->boundary_faces = NULL;
   }
   if (tessellation->face_cells != NULL)
   {
     free(tessellation->face_cells);
+    tessellation->face_cells = NULL;
   }
   if (tessellation->neighbor_domains != NULL)
   {
-- 
2.43.0


From 348a5927805f34e2941b5cfa0a86c9125fafcf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 27/41] fix: tessellating into a C tessellation already in use
 leaked its arrays and kept its old convex hull

---
 polytope_c/polytope_tessellator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index df67df5..2ecb955 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -21,6 +21,9 @@ void fill_plc(polytope_plc_t* c_plc,
 template <int Dimension>
 void fill_tessellation(const Tessellation<Dimension, polytope_real_t>& t, polytope_tessellation_t* tess)
 {
+  // Release whatever the tessellation held before.
+  polytope_tessellation_clear(tess);
+
   // Copy node coordinates.
   tess->num_nodes = t.nodes.size()/Dimension;
   tess->nodes = (polytope_real_t*)malloc(sizeof(polytope_real_t) * Dimension * tess->num_nodes);
-- 
2.43.0


From bc45e92f47aaaa7da18202076ee016bffb40cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 28/41] fix: polytope_tessellator_name returned a pointer into
 a string already destroyed

---
 polytope_c/polytope_tessellator.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index 2ecb955..e7bb03f 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -220,6 +220,7 @@ struct polytope_tessellator_t
 {
   Tessellator<2, polytope_real_t>* tess2;
   Tessellator<3, polytope_real_t>* tess3;
+  std::string* name;
 };
 //------------------------------------------------------------------------
 
@@ -230,6 +231,7 @@ void polytope_tessellator_free(polytope_tessellator_t* tessellator)
     delete tessellator->tess2;
   else
     delete tessellator->tess3;
+  delete tessellator->name;
   free(tessellator);
 }
 //------------------------------------------------------------------------
@@ -326,10 +328,7 @@ bool polytope_tessellator_handles_plcs(polytope_tessellator_t* tessellator)
 //------------------------------------------------------------------------
 const char* polytope_tessellator_name(polytope_tessellator_t* tessellator)
 {
-  if (tessellator->tess2 != NULL)
-    return tessellator->tess2->name().c_str();
-  else
-    return tessellator->tess3->name().c_str();
+  return tessellator->name->c_str();
 }
 //------------------------------------------------------------------------
 
@@ -360,6 +359,7 @@ polytope_tessellator_t* boost_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = new BoostTessellator<polytope_real_t>();
   t->tess3 = NULL;
+  t->name = new string(t->tess2->name());
   return t;
 }
 #endif
@@ -372,6 +372,7 @@ polytope_tessellator_t* triangle_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = new TriangleTessellator<polytope_real_t>();
   t->tess3 = NULL;
+  t->name = new string(t->tess2->name());
   return t;
 }
 #endif
@@ -384,6 +385,7 @@ polytope_tessellator_t* tetgen_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = NULL;
   t->tess3 = new TetgenTessellator();
+  t->name = new string(t->tess3->name());
   return t;
 }
 #endif
-- 
2.43.0


From 52f2adae87dfd30852ac098fef412a5f0825f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 29/41] fix: printing a C PLC or tessellation printed
 uninitialised memory, or appended to it

---
 polytope_c/polytope_plc.cc          | 23 +++++++++------
 polytope_c/polytope_tessellation.cc | 43 +++++++++++++++++++++--------
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/polytope_c/polytope_plc.cc b/polytope_c/polytope_plc.cc
index 75d363a..8a5cd87 100644
--- a/polytope_c/polytope_plc.cc
+++ b/polytope_c/polytope_plc.cc
@@ -1,5 +1,6 @@
 #include "polytope_c.h"
 #include "polytope.hh"
+#include <sstream>
 
 using namespace std;
 using namespace polytope;
@@ -191,7 +192,13 @@ bool polytope_plc_valid(polytope_plc_t* plc)
 //------------------------------------------------------------------------
 void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 {
-  // FIXME
+  POLY_ASSERT(plc != NULL);
+  ostringstream s;
+  if (plc->plc2 != NULL)
+    s << *plc->plc2;
+  else
+    s << *plc->plc3;
+  snprintf(str, n, "%s", s.str().c_str());
 }
 //------------------------------------------------------------------------
 
@@ -199,14 +206,12 @@ void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 void polytope_plc_fprintf(polytope_plc_t* plc, FILE* stream)
 {
   POLY_ASSERT(plc != NULL);
-  // Let's assume, for the moment, that the output of our PLC scales with the 
-  // number of facets.
-  int n = (plc->plc2 != NULL) ? 128 * plc->plc2->facets.size()
-                               : 128 * plc->plc3->facets.size();
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_plc_snprintf(plc, str, n);
-  fprintf(stream, "%s", str);
-  free(str);
+  ostringstream s;
+  if (plc->plc2 != NULL)
+    s << *plc->plc2;
+  else
+    s << *plc->plc3;
+  fprintf(stream, "%s", s.str().c_str());
 }
 //------------------------------------------------------------------------
 
diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2b12d3f..d270a50 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -1,12 +1,42 @@
 #include <stdlib.h>
 #include <string.h>
+#include <sstream>
 
 #include "polytope_c.h"
 #include "Tessellation.hh"
 
+namespace polytope
+{
+
+// Creates a C++ tessellation from a C one. This template is defined in 
+// polytope_tessellator.cc.
+template <int Dimension>
+void fill_tessellation(polytope_tessellation_t* tess, Tessellation<Dimension, polytope_real_t>& t);
+
+}
+
 using namespace std;
 using namespace polytope;
 
+// The human-readable representation of the tessellation.
+static string tessellation_string(polytope_tessellation_t* tessellation)
+{
+  ostringstream s;
+  if (tessellation->dimension == 2)
+  {
+    Tessellation<2, polytope_real_t> t;
+    fill_tessellation(tessellation, t);
+    s << t;
+  }
+  else
+  {
+    Tessellation<3, polytope_real_t> t;
+    fill_tessellation(tessellation, t);
+    s << t;
+  }
+  return s.str();
+}
+
 extern "C"
 {
 
@@ -134,10 +164,7 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
 void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char* str, int n)
 {
   POLY_ASSERT(tessellation != NULL);
-
-  char fmt[128];
-  snprintf(fmt, 128, "Tessellation (%d)", static_cast<int>(sizeof(str) - strlen(str) - 1));
-  strncat(str, fmt, sizeof(str) - strlen(str));
+  snprintf(str, n, "%s", tessellation_string(tessellation).c_str());
 }
 //------------------------------------------------------------------------
 
@@ -145,13 +172,7 @@ void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char*
 void polytope_tessellation_fprintf(polytope_tessellation_t* tessellation, FILE* stream)
 {
   POLY_ASSERT(tessellation != NULL);
-  // Let's assume, for the moment, that the output of our tessellation scales with the
-  // number of cells.
-  int n = 512 * tessellation->num_cells;
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_tessellation_snprintf(tessellation, str, n);
-  fprintf(stream, "%s", str);
-  free(str);
+  fprintf(stream, "%s", tessellation_string(tessellation).c_str());
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0


From ef1f8192a7716c74e79d24b39382a833a6f2d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 30/41] fix: 2D CSG reversed the far half of every segment it
 split

---
 src/PLC_CSG_2d.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index fc43a4f..ac94ae0 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -209,14 +209,14 @@ void Line<RealType>::splitSegment(const Segment<RealType>& segment,
       Vertex<RealType> vi = segment.vertices[0], vj = segment.vertices[1];
       if (ti != BACK) f.push_back(vi);
       if (ti != FRONT) b.push_back(vi);
-      if (tj != BACK) f.push_back(vj);
-      if (tj != FRONT) b.push_back(vj);
       if ((ti | tj) == SPANNING) {
         double t = (this->w - dot(this->normal, vi.pos)) / dot(this->normal, vj.pos - vi.pos);
         Vertex<RealType> v = interpolate(vi, vj, t);
         f.push_back(v);
         b.push_back(v);
       }
+      if (tj != BACK) f.push_back(vj);
+      if (tj != FRONT) b.push_back(vj);
       if (f.size() == 2) front.push_back(Segment<RealType>(f));
       if (b.size() == 2) back.push_back(Segment<RealType>(b));
       break;
-- 
2.43.0


From e089389dc187640b54bdd00611a04f3df35b37f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 31/41] fix: 3D CSG put the points inserted along a facet's
 edges in the wrong order

---
 src/PLC_CSG_3d.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 12653f4..539fc83 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -506,6 +506,7 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
       unsigned k = (j + 1) % n;
       const unsigned a = result.facets[i][j], b = result.facets[i][k];
       newfacet.push_back(a);
+      const size_t start = newfacet.size();
       std::set<int> checkNeighbors, usedNeighbors;
       // for (unsigned v = 0; v != result.points.size()/3; ++v) checkNeighbors.insert(b);
       std::set_union(neighbors[a].begin(), neighbors[a].end(), neighbors[b].begin(), neighbors[b].end(), std::inserter(checkNeighbors, checkNeighbors.end()));
@@ -530,7 +531,7 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
         checkNeighbors = std::set<int>();
         std::set_difference(newNeighbors.begin(), newNeighbors.end(), usedNeighbors.begin(), usedNeighbors.end(), std::inserter(checkNeighbors, checkNeighbors.end()));
       }
-      std::sort(newfacet.begin() + j + 1, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
+      std::sort(newfacet.begin() + start, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
     }
     POLY_ASSERT(newfacet.size() >= result.facets[i].size());
     if (newfacet.size() > result.facets[i].size()) result.facets[i] = newfacet;
-- 
2.43.0


From 615ec603a5c399a611914128f9310899f5c22681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 32/41] fix: simplifying the facets of a 2D PLC could reverse
 its boundary

---
 src/simplifyPLCfacets.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 3fe1459..8256c80 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -67,6 +67,19 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
   }
   POLY_ASSERT(orderedEdges.size() == noldfacets);
 
+  // The edges were ordered without regard to their direction, so make sure we walk them the same
+  // way around as the input facets.
+  for (unsigned i = 0; i != noldfacets; ++i) {
+    const std::vector<int>& facet = plc.facets[internal::positiveID(inputEdgeOrder[i])];
+    if (old2new[facet[0]] != old2new[facet[1]]) {
+      if (orderedEdges[i].first != int(old2new[facet[0]])) {
+        std::reverse(orderedEdges.begin(), orderedEdges.end());
+        for (unsigned j = 0; j != noldfacets; ++j) std::swap(orderedEdges[j].first, orderedEdges[j].second);
+      }
+      break;
+    }
+  }
+
   // {
   //   std::cerr << "input edges : ";
   //   for (unsigned i = 0; i != noldfacets; ++i) std::cerr << " (" << inputEdges[i].first << " " << inputEdges[i].second << ")";
-- 
2.43.0


From edb86062d7d36ad1cb964093bcf13c011ce2e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 33/41] fix: 3D CSG left cracks and misplaced points in the
 boundaries it returned

Points differing by roundoff were kept apart where they sit on a cell of the hash, T junctions
were sought only among the neighbors of a facet's edge, and any point within sqrt(tol) of an edge
was spliced into it.
---
 src/PLC_CSG_3d.hh | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 539fc83..65f0138 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -453,6 +453,14 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
   }
   POLY_ASSERT(xmin.x < xmax.x and xmin.y < xmax.y and xmin.z < xmax.z);
 
+  // Grow the box by a fraction of a hash cell.  Otherwise the outermost coordinates fall on the
+  // boundary between two cells, and copies of a point differing by roundoff hash differently.
+  const PointType pad(RealType(0.37)*tol*std::max(RealType(1), xmax.x - xmin.x),
+                      RealType(0.37)*tol*std::max(RealType(1), xmax.y - xmin.y),
+                      RealType(0.37)*tol*std::max(RealType(1), xmax.z - xmin.z));
+  xmin -= pad;
+  xmax += pad;
+
   // Make a first pass, creating the facets as triangles.
   // We also build up a map of immediate neighbor nodes for each node.
   ReducedPLC<3, RealType> result;
@@ -507,29 +515,9 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
       const unsigned a = result.facets[i][j], b = result.facets[i][k];
       newfacet.push_back(a);
       const size_t start = newfacet.size();
-      std::set<int> checkNeighbors, usedNeighbors;
-      // for (unsigned v = 0; v != result.points.size()/3; ++v) checkNeighbors.insert(b);
-      std::set_union(neighbors[a].begin(), neighbors[a].end(), neighbors[b].begin(), neighbors[b].end(), std::inserter(checkNeighbors, checkNeighbors.end()));
-      checkNeighbors.erase(a); checkNeighbors.erase(b);
-      usedNeighbors.insert(a); usedNeighbors.insert(b);
-      while (!checkNeighbors.empty()) {
-        std::set<int> newNeighbors;
-        for (std::set<int>::const_iterator itr = checkNeighbors.begin(); 
-             itr != checkNeighbors.end();
-             ++itr) {
-          const unsigned v = *itr;
-          usedNeighbors.insert(v);
-          if (geometry::between<3, RealType>(&result.points[3*a], &result.points[3*b], &result.points[3*v], tol) and
-              (points[v] != points[a]) and points[v] != points[b]) {
-            // std::cerr << " --> (" << result.points[3*v] << " " << result.points[3*v+1] << " " << result.points[3*v+2] << ") in [("
-            //           << result.points[3*a] << " " << result.points[3*a+1] << " " << result.points[3*a+2] << ") ("
-            //           << result.points[3*b] << " " << result.points[3*b+1] << " " << result.points[3*b+2] << ")" << std::endl;
-            newfacet.push_back(v);
-            std::copy(neighbors[v].begin(), neighbors[v].end(), std::inserter(newNeighbors, newNeighbors.end()));
-          }
-        }
-        checkNeighbors = std::set<int>();
-        std::set_difference(newNeighbors.begin(), newNeighbors.end(), usedNeighbors.begin(), usedNeighbors.end(), std::inserter(checkNeighbors, checkNeighbors.end()));
+      for (unsigned v = 0; v != points.size(); ++v) {
+        if (geometry::between<3, RealType>(&result.points[3*a], &result.points[3*b], &result.points[3*v], 16.0*tol*tol) and
+            (points[v] != points[a]) and points[v] != points[b]) newfacet.push_back(v);
       }
       std::sort(newfacet.begin() + start, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
     }
-- 
2.43.0


From 62badd51dc567f9f95c66d9db1d81860ffb6a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 34/41] fix: simplifying the facets of a 3D PLC judged small
 facets and short edges as flat

The cross and dot products compared with the tolerance were not normalized.
---
 src/simplifyPLCfacets.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 8256c80..21217a8 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -242,7 +242,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
              otherFacetItr != nodeFacets[*nodeItr].end();
              ++otherFacetItr) {
           if ((*otherFacetItr != i) and (facetUsed[*otherFacetItr] == 0) and
-              (std::abs(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[*otherFacetItr].x) - facetNormalMag[i]*facetNormalMag[*otherFacetItr]) < tol)) {
+              (std::abs(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[*otherFacetItr].x) - facetNormalMag[i]*facetNormalMag[*otherFacetItr]) < tol*facetNormalMag[i]*facetNormalMag[*otherFacetItr])) {
             // std::cerr << " " << *otherFacetItr;
             facetUsed[*otherFacetItr] = 1;
             oldfacets.insert(*otherFacetItr);
@@ -307,7 +307,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
         khat *= geometry::sgn(korder);
         const double jmag = sqrt(double(geometry::dot<3, RealType>(&jhat.x, &jhat.x))), 
                      kmag = sqrt(double(geometry::dot<3, RealType>(&khat.x, &khat.x)));
-        if (jmag*kmag - std::abs(geometry::dot<3, RealType>(&jhat.x, &khat.x)) > tol) {
+        if (jmag*kmag - std::abs(geometry::dot<3, RealType>(&jhat.x, &khat.x)) > tol*jmag*kmag) {
           newfacet.push_back(korder < 0 ? ek.second : ek.first);
         }
       }
-- 
2.43.0


From 258a402fe3f1c710d871fa0ad6ed06aaec978286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 35/41] fix: 3D CSG recomputed the plane of a split polygon
 from three nearly collinear points

---
 src/PLC_CSG_3d.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 65f0138..40c98bb 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -111,6 +111,8 @@ struct Polygon {
   Polygon(const std::vector<Vertex<RealType> > & list):
     vertices(list), 
     plane(vertices[0].pos, vertices[1].pos, vertices[2].pos) {}
+  Polygon(const std::vector<Vertex<RealType> > & list, const Plane<RealType>& parentPlane):
+    vertices(list), plane(parentPlane) {}
 };
 
 //------------------------------------------------------------------------------
@@ -224,8 +226,8 @@ void Plane<RealType>::splitPolygon(const Polygon<RealType>& polygon,
           b.push_back(v);
         }
       }
-      if (f.size() >= 3) front.push_back(Polygon<RealType>(f));
-      if (b.size() >= 3) back.push_back(Polygon<RealType>(b));
+      if (f.size() >= 3) front.push_back(Polygon<RealType>(f, polygon.plane));
+      if (b.size() >= 3) back.push_back(Polygon<RealType>(b, polygon.plane));
       break;
     }
   }
-- 
2.43.0


From 4dea3f4f013ae21e93a7e3e994133f19ba4228a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 36/41] fix: DistributedTessellator without communication info
 indexed the shared lists it had not built

---
 src/DistributedTessellator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index afed0ed..86d3a12 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -548,6 +548,12 @@ computeDistributedTessellation(const vector<RealType>& points,
   }
 
 
+  // Without the communication info there is nothing to reconcile between domains.
+  if (not mBuildCommunicationInfo) {
+    mesh.neighborDomains.clear();
+    return;
+  }
+
   // Remove any neighbors we don't actually share any info with.
   unsigned numNeighbors = mesh.neighborDomains.size();
   for (int i = numNeighbors - 1; i != -1; --i) {
-- 
2.43.0


From bd884c8e8ffc3b2330edb53107327ab3d74e7bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 37/41] fix: DistributedTessellator quantized positions without
 regard to the size of the mesh

---
 src/DistributedTessellator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 86d3a12..7b3fb53 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -445,7 +445,7 @@ computeDistributedTessellation(const vector<RealType>& points,
 
     // Compute the bounding box for the mesh coordinates.
     this->computeBoundingBox(mesh.nodes, rlow, rhigh);
-    const RealType dx = mSerialTessellator->degeneracy();
+    const RealType dx = mSerialTessellator->degeneracy()*DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh);
     // const RealType dx = DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh)/(1LL << 34);
     
     // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
@@ -865,7 +865,7 @@ computeDomainNeighbors(const vector<RealType>& points,
   vector<ConvexHull> domainHulls; // (numProcs);
   vector<unsigned> domainCellOffset(1, 0);
   {
-    ConvexHull localHull = DT::convexHull(points, rlow, mSerialTessellator->degeneracy());;
+    ConvexHull localHull = DT::convexHull(points, rlow, mSerialTessellator->degeneracy()*DT::maxLength(rlow, rhigh));
 
     // We can skip some work here if the convex hull is of lower dimension than the 
     // problem itself. We determine the set of visible points for a full-dimension
-- 
2.43.0


From 33ddd236b279ff90a289ba4e238d3f1fd0f92d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 38/41] fix: DistributedTessellator could list shared faces and
 close shared nodes in different orders on the two domains

---
 src/DistributedTessellator.cc | 41 +++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 7b3fb53..6ef6ee4 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -453,14 +453,17 @@ computeDistributedTessellation(const vector<RealType>& points,
     for (unsigned idomain = 0; idomain != numNeighbors; ++idomain) {
 
       // Nodes.
-      vector<Point> nodePoints;
+      // Nodes too close together to tell apart after quantization are ordered by their coordinates.
+      vector<pair<Point, vector<RealType> > > nodePoints;
       nodePoints.reserve(mesh.sharedNodes[idomain].size());
       for (vector<unsigned>::const_iterator itr = mesh.sharedNodes[idomain].begin();
            itr != mesh.sharedNodes[idomain].end();
-           ++itr) nodePoints.push_back(DimensionTraits<Dimension, RealType>::constructPoint(&(mesh.nodes[Dimension * (*itr)]),
-                                                                                            &rlow[0],
-                                                                                            dx,
-                                                                                            *itr));
+           ++itr) nodePoints.push_back(make_pair(DimensionTraits<Dimension, RealType>::constructPoint(&(mesh.nodes[Dimension * (*itr)]),
+                                                                                                      &rlow[0],
+                                                                                                      dx,
+                                                                                                      *itr),
+                                                 vector<RealType>(&mesh.nodes[Dimension * (*itr)],
+                                                                  &mesh.nodes[Dimension * (*itr)] + Dimension)));
       
       
       // // Blago!
@@ -505,19 +508,29 @@ computeDistributedTessellation(const vector<RealType>& points,
       
       
       sort(nodePoints.begin(), nodePoints.end());
-      for (unsigned i = 0; i != mesh.sharedNodes[idomain].size(); ++i) mesh.sharedNodes[idomain][i] = nodePoints[i].index;
+      for (unsigned i = 0; i != mesh.sharedNodes[idomain].size(); ++i) mesh.sharedNodes[idomain][i] = nodePoints[i].first.index;
 
 
-      // Faces.
-      vector<Point> facePoints;
+      // Faces.  The nodes of a face we share are all shared nodes, so order the faces by
+      // the positions of their nodes in the ordering we just established.
+      map<unsigned, unsigned> nodeOrder;
+      for (unsigned i = 0; i != mesh.sharedNodes[idomain].size(); ++i) nodeOrder[mesh.sharedNodes[idomain][i]] = i;
+      vector<pair<vector<unsigned>, unsigned> > orderedFaces;
       for (vector<unsigned>::const_iterator itr = mesh.sharedFaces[idomain].begin();
            itr != mesh.sharedFaces[idomain].end();
-           ++itr) facePoints.push_back(DimensionTraits<Dimension, RealType>::faceCentroid(mesh,
-                                                                                          *itr,
-                                                                                          &rlow[0],
-                                                                                          dx));
-      sort(facePoints.begin(), facePoints.end());
-      for (unsigned i = 0; i != mesh.sharedFaces[idomain].size(); ++i) mesh.sharedFaces[idomain][i] = facePoints[i].index;
+           ++itr) {
+        vector<unsigned> faceNodes;
+        for (vector<unsigned>::const_iterator nodeItr = mesh.faces[*itr].begin();
+             nodeItr != mesh.faces[*itr].end();
+             ++nodeItr) {
+          POLY_ASSERT(nodeOrder.find(*nodeItr) != nodeOrder.end());
+          faceNodes.push_back(nodeOrder[*nodeItr]);
+        }
+        sort(faceNodes.begin(), faceNodes.end());
+        orderedFaces.push_back(make_pair(faceNodes, *itr));
+      }
+      sort(orderedFaces.begin(), orderedFaces.end());
+      for (unsigned i = 0; i != mesh.sharedFaces[idomain].size(); ++i) mesh.sharedFaces[idomain][i] = orderedFaces[i].second;
     }
   }
 
-- 
2.43.0


From 593db822843160a7cf41924f6583c0e50aac0bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 39/41] fix: checkDistributedTessellation read another domain's
 index into its shared lists when reporting a mismatch

---
 src/checkDistributedTessellation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkDistributedTessellation.hh b/src/checkDistributedTessellation.hh
index dd27e51..7b067f4 100644
--- a/src/checkDistributedTessellation.hh
+++ b/src/checkDistributedTessellation.hh
@@ -108,7 +108,7 @@ checkConsistentCommInfo(const std::string& label,
           const unsigned kk = std::distance(neighborDomains.begin(), neighbItr);
           if (recvHashes.size() != sharedIDs[kk].size()) {
             std::stringstream os;
-            os << "Domain " << sendProc << " -> " << rank << " disagree about the number of shared hashes:  " << nother << " != " << sharedIDs[k].size();
+            os << "Domain " << sendProc << " -> " << rank << " disagree about the number of shared hashes:  " << nother << " != " << sharedIDs[kk].size();
             result = os.str();
           } else {
             unsigned i = 0;
-- 
2.43.0


From 7b432088ea5693544151f749844901d6b0634f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 40/41] fix: parallel cleanEdges read past the neighbor's mask
 and could delete shared nodes on one domain only

---
 src/MeshEditor.cc | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 2e3a146..4fc76f6 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -403,6 +403,12 @@ flagEdgesForCleaning(const RealType edgeTol,
     for (vector<unsigned>::const_iterator otherItr = mMesh.neighborDomains.begin();
          otherItr != mMesh.neighborDomains.end(); ++otherItr, ++ineighbor) {
       vector<char>& localBuffer = localBuffers[ineighbor];
+      vector<unsigned> sharedEdgeNodes;
+      for (unsigned i = 0; i != sharedEdges[ineighbor].size(); ++i) {
+        sharedEdgeNodes.push_back(sharedEdges[ineighbor][i].first);
+        sharedEdgeNodes.push_back(sharedEdges[ineighbor][i].second);
+      }
+      serialize(sharedEdgeNodes, localBuffer);
       serialize(sharedEdgeMask[ineighbor], localBuffer);
       unsigned& localBufferSize = localBufferSizes[ineighbor];
       localBufferSize = localBuffer.size();
@@ -417,7 +423,7 @@ flagEdgesForCleaning(const RealType edgeTol,
     POLY_ASSERT(sendRequests.size() <= 2*mMesh.neighborDomains.size());
 
     // Get the masks from the neighbors
-    vector<vector<unsigned> > neighborEdgeMasks(mMesh.neighborDomains.size());
+    vector<map<EdgeType, unsigned> > neighborEdgeMasks(mMesh.neighborDomains.size());
     ineighbor = 0;
     for (vector<unsigned>::const_iterator otherItr = mMesh.neighborDomains.begin();
          otherItr != mMesh.neighborDomains.end(); ++otherItr, ++ineighbor) {
@@ -429,10 +435,14 @@ flagEdgesForCleaning(const RealType edgeTol,
         vector<char> buffer(bufSize, '\0');
         MPI_Recv(&buffer.front(), bufSize, MPI_CHAR, otherProc, 2, MPI_COMM_WORLD, &recvStatus2);
         vector<char>::const_iterator itr = buffer.begin();
-        vector<unsigned> otherEdgeMask;
+        vector<unsigned> otherEdgeNodes, otherEdgeMask;
+        deserialize(otherEdgeNodes, itr, buffer.end());
         deserialize(otherEdgeMask, itr, buffer.end());
         POLY_ASSERT(itr == buffer.end());
-        neighborEdgeMasks[ineighbor] = otherEdgeMask;
+        POLY_ASSERT(otherEdgeNodes.size() == 2*otherEdgeMask.size());
+        for (unsigned i = 0; i != otherEdgeMask.size(); ++i) {
+          neighborEdgeMasks[ineighbor][EdgeType(otherEdgeNodes[2*i], otherEdgeNodes[2*i+1])] = otherEdgeMask[i];
+        }
       }
     }
     
@@ -441,7 +451,8 @@ flagEdgesForCleaning(const RealType edgeTol,
     MPI_Waitall(sendRequests.size(), &sendRequests.front(), &sendStatus.front());
     
     // Make the edge masks consistent across domain boundaries. If one domain 
-    // says delete (mask=0) and one says keep (mask=1), we always keep.
+    // says delete (mask=0) and one says keep (mask=1), we always keep.  We also keep
+    // an edge between shared nodes that the other domain does not have.
     for (unsigned i = 0; i != mMesh.neighborDomains.size(); ++i) {
       unsigned edgeCount = 0;
       for (vector<EdgeType>::const_iterator sEdgeItr = sharedEdges[i].begin();
@@ -463,18 +474,15 @@ flagEdgesForCleaning(const RealType edgeTol,
 
         const unsigned iedge = itr->second;
         POLY_ASSERT(iedge < nedges0);
-        //POLY_ASSERT(edgeCount < neighborEdgeMasks[i].size());
-        edgeMask[iedge] = max(edgeMask[iedge], neighborEdgeMasks[i][edgeCount]);
+        const typename map<EdgeType, unsigned>::const_iterator otherMask = neighborEdgeMasks[i].find(*sEdgeItr);
+        edgeMask[iedge] = (otherMask == neighborEdgeMasks[i].end() ? 1 : max(edgeMask[iedge], otherMask->second));
       }
       POLY_ASSERT(edgeCount == sharedEdges[i].size());
     }
 
-    // Ammend the edgesClean flag if we're not cleaning after all.
-    if (std::accumulate(edgeMask.begin(), edgeMask.end(), 0) == nedges0)
-       edgesClean = true;
-
     // We've invalidated the nodeCollapse and nodeMask lists. Make them consistent.
     mNodeMask = vector<unsigned>(nnodes0, 1);
+    const vector<unsigned> localNodeCollapse = nodeCollapse;
     if (!edgesClean) {
       for (unsigned i = 0; i != nnodes0; ++i) nodeCollapse[i] = i;
       for (unsigned iedge = 0; iedge != nedges0; ++iedge) {
@@ -489,8 +497,6 @@ flagEdgesForCleaning(const RealType edgeTol,
           const bool isShared = (sharedEdgeReverse[iedge].size() == 0) ? false : true;
           inode0 = edge.first;
           inode1 = edge.second;
-          const bool node0Shared = (sharedNodeReverse[inode0].size() == 0) ? false : true;
-          const bool node1Shared = (sharedNodeReverse[inode1].size() == 0) ? false : true;
 
           if (isShared) {
             POLY_ASSERT2(sharedEdgeReverse[iedge].size() == 1, "I think this logic only"
@@ -504,10 +510,17 @@ flagEdgesForCleaning(const RealType edgeTol,
             if (ind1 < ind0) {inode0 = edge.second; inode1 = edge.first;}
           }
 
-          else if (node1Shared and !node0Shared) {
+          else if (localNodeCollapse[inode0] == inode1) {
              inode0 = edge.second; inode1 = edge.first;
           }
 
+          // We can only delete a node if all the domains that share it delete it too.
+          if (sharedNodeReverse[inode1] != sharedEdgeReverse[iedge]) swap(inode0, inode1);
+          if (sharedNodeReverse[inode1] != sharedEdgeReverse[iedge]) {
+            edgeMask[iedge] = 1;
+            continue;
+          }
+
           mNodeMask[inode1] = 0;
           nodeCollapse[inode1] = inode0;
 
@@ -521,6 +534,10 @@ flagEdgesForCleaning(const RealType edgeTol,
       }
     }
 
+    // Ammend the edgesClean flag if we're not cleaning after all.
+    if (std::accumulate(edgeMask.begin(), edgeMask.end(), 0) == nedges0)
+       edgesClean = true;
+
   } // Done with the multi-processor stuff
 #endif
   
-- 
2.43.0


From 986db4474c335110c2d37cebd561ba29fa51885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 41/41] fix: the quantized tessellations took the bounding box
 of one process or of all, depending on inlining

---
 src/QuantizedTessellation2d.cc | 3 ++-
 src/QuantizedTessellation3d.cc | 3 ++-
 src/snapToBoundary.cc          | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/QuantizedTessellation2d.cc b/src/QuantizedTessellation2d.cc
index 4912c75..a686e0a 100644
--- a/src/QuantizedTessellation2d.cc
+++ b/src/QuantizedTessellation2d.cc
@@ -8,8 +8,9 @@
 #include <algorithm>
 #include <map>
 
-#include "QuantizedTessellation2d.hh"
+// The configuration (HAVE_MPI) must be known before the geometric utilities are included.
 #include "polytope.hh"
+#include "QuantizedTessellation2d.hh"
 #include "polytope_tessellator_utilities.hh"
 
 namespace polytope {
diff --git a/src/QuantizedTessellation3d.cc b/src/QuantizedTessellation3d.cc
index 4f898f6..552990b 100644
--- a/src/QuantizedTessellation3d.cc
+++ b/src/QuantizedTessellation3d.cc
@@ -8,8 +8,9 @@
 #include <algorithm>
 #include <map>
 
-#include "QuantizedTessellation3d.hh"
+// The configuration (HAVE_MPI) must be known before the geometric utilities are included.
 #include "polytope.hh"
+#include "QuantizedTessellation3d.hh"
 #include "polytope_tessellator_utilities.hh"
 
 namespace polytope {
diff --git a/src/snapToBoundary.cc b/src/snapToBoundary.cc
index 642b4c9..3cbc583 100644
--- a/src/snapToBoundary.cc
+++ b/src/snapToBoundary.cc
@@ -5,6 +5,8 @@
 //------------------------------------------------------------------------------
 #include <set>
 
+// The configuration (HAVE_MPI) must be known before the geometric utilities are included.
+#include "polytope.hh"
 #include "snapToBoundary.hh"
 #include "Point.hh"
 #include "KeyTraits.hh"
-- 
2.43.0


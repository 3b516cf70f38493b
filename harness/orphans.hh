// How the boundary cuts the Voronoi cells: computed here from the input alone,
// with the reference clipper and Boost.Polygon, so that a case can be classed
// (no cell is cut into pieces / some are) without asking the code under test.
#ifndef VT_ORPHANS_HH
#define VT_ORPHANS_HH
#include "geom2d.hh"
#include <boost/polygon/polygon.hpp>

namespace vt {
struct Cut { int pieces = 0, keyholes = 0, tight = 0; double orphanArea = 0, minArea = 1e300; std::vector<int> split; };

inline Cut cutCells(const Dom& d, const std::vector<double>& g) {
  namespace bp = boost::polygon; using namespace bp::operators;
  typedef bp::polygon_data<int> Poly; typedef bp::polygon_with_holes_data<int> PolyH; typedef bp::point_data<int> Pt;
  Cut out; const double s = 5e8 / d.L; const P o{(d.lo.x + d.hi.x) / 2, (d.lo.y + d.hi.y) / 2};
  auto q = [&](LD x, LD y) { return Pt(int(std::lround((x - o.x) * s)), int(std::lround((y - o.y) * s))); };
  std::vector<PolyH> dom;
  for (size_t l = 0; l < d.loops.size(); ++l) {
    std::vector<Pt> v; for (auto& p : d.loops[l]) v.push_back(q(p.x, p.y));
    Poly p; bp::set_points(p, v.begin(), v.end());
    if (l == 0) dom += p; else dom -= p;
  }
  Loop outer = boxLoop(d.lo.x - d.L / 2, d.lo.y - d.L / 2, d.hi.x + d.L / 2, d.hi.y + d.L / 2);
  const double unit = s * s;
  for (size_t i = 0; i < g.size() / 2; ++i) {
    RefCell c = refCell(outer, g, i); std::vector<Pt> v;
    for (auto& p : c.v) v.push_back(q(p.first + g[2 * i], p.second + g[2 * i + 1]));
    std::vector<PolyH> cell; Poly p; bp::set_points(p, v.begin(), v.end()); cell += p; cell &= dom;
    int n = 0; double amax = 0, sum = 0;
    for (auto& k : cell) { double a = bp::area(k) / unit / d.area; if (bp::area(k) < 0.4) continue; ++n; sum += a; amax = std::max(amax, a); out.minArea = std::min(out.minArea, a); if (k.begin_holes() != k.end_holes()) ++out.keyholes; }
    out.pieces += n; if (n > 1) { out.split.push_back(i); out.orphanArea += sum - amax; }
  }
  return out;
}
}
#endif

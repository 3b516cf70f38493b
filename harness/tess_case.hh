// A generated bounded-tessellation case, its classification from the input
// alone, and the calls into polytope.
#ifndef VT_TESS_CASE_HH
#define VT_TESS_CASE_HH
#include "mesh2d.hh"
#include "orphans.hh"
#include "polytope.hh"

namespace vt {
using polytope::Tessellation; using polytope::ReducedPLC; using polytope::PLC; using polytope::BoostTessellator;

inline ReducedPLC<2, double> toPLC(const Dom& d) {
  ReducedPLC<2, double> plc;
  for (size_t l = 0; l < d.loops.size(); ++l) {
    int o = plc.points.size() / 2, k = d.loops[l].size(); std::vector<std::vector<int>> f;
    for (int i = 0; i < k; ++i) { plc.points.push_back(d.loops[l][i].x); plc.points.push_back(d.loops[l][i].y); f.push_back({o + i, o + (i + 1) % k}); }
    if (l == 0) plc.facets = f; else plc.holes.push_back(f);
  }
  return plc;
}

// Five or more generators (nearly) on one empty circle: the exact diagram has vertices closer
// together than the integer lattice resolves.
inline bool cocircular5(const Dom& d, const std::vector<double>& g) {
  struct V { double x, y; int a, b, c; };
  std::vector<V> v; const double tol = 5e-7 * d.L;
  Loop outer = d.convex ? d.loops[0] : boxLoop(d.lo.x - d.L / 2, d.lo.y - d.L / 2, d.hi.x + d.L / 2, d.hi.y + d.L / 2);
  for (size_t i = 0; i < g.size() / 2; ++i) {
    RefCell c = refCell(outer, g, i); size_t k = c.v.size();
    for (size_t a = 0; a < k; ++a) v.push_back({double(c.v[a].first + g[2 * i]), double(c.v[a].second + g[2 * i + 1]), int(i), c.tag[a], c.tag[(a + k - 1) % k]});
  }
  std::sort(v.begin(), v.end(), [](const V& p, const V& q) { return p.x < q.x; });
  for (size_t i = 0; i < v.size(); ++i) {
    std::set<int> s;
    for (size_t j = i; j < v.size() && v[j].x - v[i].x < tol; ++j) if (std::abs(v[j].y - v[i].y) < tol) { s.insert(v[j].a); if (v[j].b >= 0) s.insert(v[j].b); if (v[j].c >= 0) s.insert(v[j].c); }
    if (s.size() >= 5) return true;
  }
  return false;
}

struct TCase {
  Dom d; std::vector<double> g; int dk = 0, gk = 0; Cut cut; bool deg = false; int orphans = 0;
  std::string cls;            // "" strict, "deg", "orph"
  size_t n() const { return g.size() / 2; }
};

inline void classify(TCase& t) {
  if (!t.d.convex) { t.cut = cutCells(t.d, t.g); t.orphans = t.cut.pieces - int(t.n()); } else t.orphans = 0;
  t.deg = t.n() >= 5 && cocircular5(t.d, t.g);
  t.cls = t.orphans >= 3 || (t.orphans >= 1 && (t.d.loops.size() > 1 || t.deg)) ? "orph" : t.deg ? "deg" : "";
  R().desc = Str() << t.d.name << "/" << genName(t.gk) << "/n=" << t.n() << (t.d.convex ? std::string() : (Str() << " orphans=" << t.orphans << " keyholes=" << t.cut.keyholes).str()) << (t.deg ? " cocircular" : "");
  R().count("class:" + (t.cls.empty() ? std::string("strict") : t.cls));
  R().count("domain:" + std::string(t.d.convex ? "convex" : t.d.loops.size() > 1 ? "holes" : "nonconvex"));
}

inline TCase makeCase(Rng& r, const std::vector<int>& doms, int nmax = 80, int gk = -1) {
  TCase t;
  t.dk = doms[r.i(0, doms.size() - 1)]; t.gk = gk >= 0 ? gk : r.i(0, G_NKINDS - 1);
  int n = r.p(0.15) ? r.i(1, 6) : r.i(2, nmax);
  t.d = makeDom(r, t.dk); t.g = makeGens(r, t.d, t.gk, n);
  return t;
}

// Which way in: all the bounded entry points are the same operation.
inline M2 tessellateVia(const TCase& t, int way) {
  Tessellation<2, double> m; BoostTessellator<double> bt;
  ReducedPLC<2, double> plc = toPLC(t.d);
  if (way == 2 && t.d.box) { double lo[2] = {t.d.lo.x, t.d.lo.y}, hi[2] = {t.d.hi.x, t.d.hi.y}; bt.tessellate(t.g, lo, hi, m); }
  else if (way == 1) { PLC<2, double> p; p.facets = plc.facets; p.holes = plc.holes; bt.tessellate(t.g, plc.points, p, m); }
  else bt.tessellate(t.g, plc, m);
  return snap(m);
}

// Does every open edge of the mesh that lies off the domain boundary end at a node with a twin
// within 2e-5 L?  Then a cell edge that grazes the boundary met it at two nearby
// points, one for each neighbour.
inline bool crackIsTwin(const M2& m, const Dom& d) {
  const double q = 2e-5 * d.L;   // one lattice quantum (2.3e-9 L) over the sine of the grazing angle
  std::vector<unsigned> use(m.faces.size(), 0);
  for (auto& c : m.cells) for (int f : c) use[absID(f)]++;
  const size_t nn = m.nodes.size() / 2; int off = 0;
  for (size_t f = 0; f < m.faces.size(); ++f) {
    if (use[f] == 2) continue;
    if (use[f] > 2) return false;
    P a = m.node(m.faces[f][0]), b = m.node(m.faces[f][1]);
    bool on = false;
    for (auto& l : d.loops) for (size_t i = 0; i < l.size() && !on; ++i) if (segDist(a, l[i], l[(i + 1) % l.size()]) <= TOL * d.L && segDist(b, l[i], l[(i + 1) % l.size()]) <= TOL * d.L) on = true;
    if (on) continue;
    ++off; bool twin = false;
    for (unsigned e : m.faces[f]) for (size_t k = 0; k < nn && !twin; ++k) if (k != e && dist(m.node(k), m.node(e)) < q) twin = true;
    if (!twin) return false;
  }
  return off > 0 && off <= 8;
}

}
#endif

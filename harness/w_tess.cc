// Tessellation properties: bounded, unbounded, degenerate and metamorphic.
//   w_tess MODE SEED FIRST COUNT OUT
#include "tess_case.hh"
#include "mpi.h"
#include <iostream>
using namespace vt;
typedef std::vector<int> VI;
static const VI ALLD{D_UNIT, D_BOX, D_CONVEX, D_STAR, D_CANON, D_HOLES, D_STAR, D_CANON, D_HOLES};
static const VI NONCONVEX{D_STAR, D_CANON, D_HOLES};
static const VI CONVEXD{D_UNIT, D_BOX, D_CONVEX};

// Keys that the recorded weaknesses of degenerate inputs can produce; everything else stays strict.
static bool weakKey(const std::string& cls, const std::string& k) {
  static const std::set<std::string> deg{"euler", "face_off_boundary", "face_overused", "missing_neighbour", "face_same_side", "cell_not_closed", "cell_node_twice", "cell_face_twice", "face_duplicate", "mesh_disconnected", "boundary_faces", "boundary_nodes", "facecells_mismatch", "facet_cover", "interior_face_on_boundary"};
  static const std::set<std::string> orph{"euler", "face_off_boundary", "face_overused", "face_same_side", "cell_not_closed", "cell_node_twice", "cell_face_twice", "mesh_disconnected", "vertex_missing", "vertex_inexact", "facet_cover", "area_sum", "gap", "overlap", "not_nearest", "vertex_not_equidistant", "interior_face_on_boundary", "cell_small"};
  if (cls == "deg") return deg.count(k);
  if (cls == "orph") return orph.count(k) || deg.count(k);
  return false;
}
struct CaseSink {
  const TCase& t; const M2* m; int crack = -1;
  CaseSink(const TCase& t, const M2* m): t(t), m(m) {}
  void operator()(const std::string& k, const std::string& s) {
    std::string key = k;
    if (weakKey(t.cls, k)) key = t.cls + ":" + k;
    else if (t.cls == "orph" && t.deg && weakKey("deg", k)) key = "deg:" + k;
    else if (!t.d.convex && m && (k == "euler" || k == "face_off_boundary" || k == "interior_face_on_boundary")) {
      if (crack < 0) crack = crackIsTwin(*m, t.d);
      if (crack) key = "twin:" + k;
    } else if (t.orphans >= 1 && (k == "area_sum" || k == "gap")) key = "frag:" + k;
    R().viol(key, s);
  }
};
// Class sizes, for the rates the driver holds the recorded weaknesses to.
static void countClasses(const TCase& t) {
  if (!t.d.convex) R().count("class:twin");
  if (t.orphans >= 1) R().count("class:frag");
}
static void sampleCase(const TCase& t, const M2& m) {
  R().sample(Str() << R().desc << " -> " << m.cells.size() << " cells " << m.faces.size() << " faces " << m.nodes.size() / 2 << " nodes");
}
static void observe(const M2& m, size_t n) {
  R().distinct(hashTopo(m), n > 2); R().count("cells_seen", m.cells.size()); R().count("faces_seen", m.faces.size()); R().count("nodes_seen", m.nodes.size() / 2);
  R().maxi("cells_in_one_mesh", m.cells.size());
}

// ---- unbounded -------------------------------------------------------------------
static std::vector<double> freeGens(Rng& r, double& L, P& lo, P& hi) {
  Dom d; int gk = r.i(0, G_NKINDS - 1); std::vector<double> g;
  do { d = makeDom(r, r.i(0, 3)); g = makeGens(r, d, gk, r.i(2, 80)); } while (g.size() < 4);
  lo = {1e300, 1e300}; hi = {-1e300, -1e300};
  for (size_t i = 0; i < g.size() / 2; ++i) { lo.x = std::min(lo.x, g[2 * i]); lo.y = std::min(lo.y, g[2 * i + 1]); hi.x = std::max(hi.x, g[2 * i]); hi.y = std::max(hi.y, g[2 * i + 1]); }
  L = std::max(hi.x - lo.x, hi.y - lo.y);
  // Resolve the generators on the scale of their own bounding box.
  double s = 1e300; for (size_t i = 0; i < g.size() / 2; ++i) for (size_t j = 0; j < i; ++j) s = std::min(s, dist({g[2 * i], g[2 * i + 1]}, {g[2 * j], g[2 * j + 1]}));
  if (s < 1e-5 * L) return freeGens(r, L, lo, hi);
  R().desc = Str() << "unbounded/" << genName(gk) << "/n=" << g.size() / 2;
  return g;
}
static M2 tessFree(const std::vector<double>& g) { Tessellation<2, double> m; BoostTessellator<double> bt; bt.tessellate(g, m); return snap(m); }

static void unbounded(Rng& r, bool all) {
  double L; P lo, hi; auto g = freeGens(r, L, lo, hi); const size_t n = g.size() / 2;
  Dom box; box.loops.push_back(boxLoop(lo.x - 0.3 * L, lo.y - 0.3 * L, hi.x + 0.3 * L, hi.y + 0.3 * L)); box.finish();
  bool deg = n >= 5 && cocircular5(box, g);
  if (deg) { R().desc += " cocircular"; R().count("class:deg"); }
  M2 m = tessFree(g);
  auto sink = [&](const std::string& k, const std::string& s) { R().viol((deg && weakKey("deg", k) ? "deg:" : "") + k, s); };
  if (!checkShape(m, n, sink)) return;
  checkTopology(m, 0, sink);
  if (all) {
    checkBoundaryLists(m, sink);
    checkNearest(m, nullptr, lo, hi, L, g, r, 300, sink);
    checkVertices(m, g, L, nullptr, sink);
    // Cells whose Voronoi cell stays inside the generators' bounding box must be that cell.
    Loop outer = boxLoop(lo.x, lo.y, hi.x, hi.y); int inner = 0;
    for (size_t i = 0; i < n; ++i) {
      RefCell c = refCell(outer, g, i); bool in = true; for (int t : c.tag) if (t < 0) in = false;
      if (!in || c.v.size() < 3) continue;
      ++inner; LD per = 0, diam = 0; size_t k = c.v.size(); double s = 1e300;
      for (size_t a = 0; a < k; ++a) { per += ldist(c.v[a].first, c.v[a].second, c.v[(a + 1) % k].first, c.v[(a + 1) % k].second); diam = std::max(diam, std::sqrt(c.v[a].first * c.v[a].first + c.v[a].second * c.v[a].second)); }
      for (size_t j = 0; j < n; ++j) if (j != i) s = std::min(s, dist({g[2 * i], g[2 * i + 1]}, {g[2 * j], g[2 * j + 1]}));
      LD disp = 2e-8 * L * (1 + 4 * diam / s), got = cellArea(m, i);
      if (std::abs(got - c.area) > per * disp + 10 * disp * disp) { sink("cell_area", Str() << "cell " << i << " has area " << double(got) << ", its Voronoi cell " << double(c.area)); break; }
    }
    R().count("interior_cells", inner);
    // Adding a far boundary changes no interior cell: compare with the bounded mesh in a wide box.
    TCase t; t.d.box = true; t.d.name = "wide"; t.g = g; t.d.loops.push_back(boxLoop(lo.x - 0.5 * L, lo.y - 0.5 * L, hi.x + 0.5 * L, hi.y + 0.5 * L)); t.d.finish();
    M2 b = tessellateVia(t, r.i(0, 2));
    if (checkShape(b, n, sink)) for (size_t i = 0; i < n; ++i) {
      bool in = true; for (auto& p : cellPoly(b, i)) if (p.x < lo.x || p.x > hi.x || p.y < lo.y || p.y > hi.y) in = false;
      if (!in) continue;
      double s = 1e300; for (size_t j = 0; j < n; ++j) if (j != i) s = std::min(s, dist({g[2 * i], g[2 * i + 1]}, {g[2 * j], g[2 * j + 1]}));
      LD disp = 1e-7 * L * (1 + 4 * L / s);
      if (std::abs(cellArea(b, i) - cellArea(m, i)) > 4 * L * disp) { sink("bounded_differs", Str() << "interior cell " << i << " has area " << double(cellArea(m, i)) << " unbounded but " << double(cellArea(b, i)) << " in a wide box"); break; }
    }
  }
  observe(m, n); R().sample(Str() << R().desc << " -> " << m.cells.size() << " cells " << m.faces.size() << " faces");
}

// ---- degenerate generators -----------------------------------------------------------
static void degenerate(Rng& r) {
  TCase t = makeCase(r, ALLD, 40); Dom& d = t.d;
  // Base points at least 1e-3 L apart; copies exact, or nudged by far less than the tolerance.
  std::vector<P> base; for (size_t i = 0; i < t.n(); ++i) { P p{t.g[2 * i], t.g[2 * i + 1]}; bool ok = d.bdist(p) > 1e-3 * d.L; for (auto& q : base) if (dist(p, q) < 1e-3 * d.L) ok = false; if (ok) base.push_back(p); }
  const bool free = r.p(0.25);
  if (base.empty() || (free && base.size() < 2)) { R().inconclusive("no base points"); return; }
  bool exact = r.p(0.5);
  const double tol = d.L * std::pow(10.0, exact ? r.u(-9, -5) : r.u(-6, -4));   // nudged copies that are not merged must still be resolvable
  std::vector<double> pts; std::vector<int> owner;
  for (size_t i = 0; i < base.size(); ++i) {
    int copies = r.p(0.4) ? r.i(2, 5) : 1;
    for (int k = 0; k < copies; ++k) { owner.push_back(i); double a = 1.2 * k, q = exact || k == 0 || r.p(0.2) ? 0 : tol * r.u(0.1, 0.4); pts.push_back(base[i].x + q * std::cos(a)); pts.push_back(base[i].y + q * std::sin(a)); }
  }
  { std::vector<int> o(owner.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i; r.shuffle(o); std::vector<double> p2; std::vector<int> w2; for (int i : o) { p2.push_back(pts[2 * i]); p2.push_back(pts[2 * i + 1]); w2.push_back(owner[i]); } pts = p2; owner = w2; }
  BoostTessellator<double> bt; Tessellation<2, double> mesh; auto plc = toPLC(d);
  const int way = free ? 0 : d.box ? r.i(1, 3) : r.i(2, 3);
  std::vector<unsigned> map;
  if (way == 0) map = bt.tessellateDegenerate(pts, tol, mesh);
  else if (way == 1) { double lo[2] = {d.lo.x, d.lo.y}, hi[2] = {d.hi.x, d.hi.y}; map = bt.tessellateDegenerate(pts, lo, hi, tol, mesh); }
  else if (way == 2) { PLC<2, double> p; p.facets = plc.facets; p.holes = plc.holes; map = bt.tessellateDegenerate(pts, plc.points, p, tol, mesh); }
  else map = bt.tessellateDegenerate(pts, plc, tol, mesh);
  R().desc = Str() << d.name << "/" << genName(t.gk) << " base=" << base.size() << " points=" << owner.size() << " tol=" << tol / d.L << "L way=" << way << (exact ? " exact" : " nudged");
  M2 m = snap(mesh); const size_t np = owner.size();
  auto bad = [&](const char* k, const std::string& s) { R().viol(k, s); };
  if (map.size() != np) { bad("map_size", Str() << map.size() << " entries for " << np << " points"); return; }
  std::set<unsigned> used(map.begin(), map.end());
  for (unsigned u : used) if (u >= m.cells.size()) { bad("map_range", Str() << "entry " << u << " but " << m.cells.size() << " cells"); return; }
  if (used.size() != m.cells.size()) bad("map_onto", Str() << m.cells.size() << " cells but only " << used.size() << " have a generator");
  for (size_t i = 0; i < np; ++i) for (size_t j = 0; j < i; ++j) {
    double q = dist({pts[2 * i], pts[2 * i + 1]}, {pts[2 * j], pts[2 * j + 1]});
    if (q == 0 && map[i] != map[j]) { bad("coincident_split", Str() << "points " << i << " and " << j << " coincide but are in cells " << map[i] << " and " << map[j]); return; }
    if (q > 4 * tol && q > 1e-8 * d.L && map[i] == map[j]) { bad("distinct_merged", Str() << "points " << i << " and " << j << " are " << q / tol << " tolerances apart but share cell " << map[i]); return; }
  }
  if (exact && used.size() != base.size()) bad("unique_count", Str() << base.size() << " distinct points gave " << used.size() << " cells");
  auto sink = [&](const std::string& k, const std::string& s) { R().viol(k, s); };
  if (exact || used.size() == base.size()) {
    // The mesh is the mesh of the distinct points, cell numbers following the map.
    std::vector<double> g(2 * m.cells.size(), 0); for (size_t i = np; i-- > 0;) { g[2 * map[i]] = pts[2 * i]; g[2 * map[i] + 1] = pts[2 * i + 1]; }
    TCase u; u.d = d; u.g = g; u.gk = t.gk; u.dk = t.dk;
    M2 w; if (way == 0) w = tessFree(g); else w = tessellateVia(u, way == 1 ? 2 : way == 2 ? 1 : 0);
    if (hashTopo(w) != hashTopo(m) || w.nodes != m.nodes) bad("not_mesh_of_unique", "the mesh differs from the mesh of the distinct generators");
    if (checkShape(m, base.size(), sink) && way) {
      auto save = R().desc; classify(u); R().desc = save;
      if (u.cls.empty()) { CaseSink s2(u, &m); checkPartition(m, d, r, 50, std::ref(s2)); checkNearest(m, &d, d.lo, d.hi, d.L, g, r, 100, std::ref(s2)); }
    }
    R().count("merged_points", np - used.size());
  }
  observe(m, base.size()); R().sample(Str() << R().desc << " -> " << m.cells.size() << " cells");
}

// ---- metamorphic --------------------------------------------------------------------
static std::map<std::pair<int, int>, double> adjacency(const M2& m) {
  std::map<std::pair<int, int>, double> a;
  for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 2) { int x = absID(m.faceCells[f][0]), y = absID(m.faceCells[f][1]); if (x != y) a[{std::min(x, y), std::max(x, y)}] += dist(m.node(m.faces[f][0]), m.node(m.faces[f][1])); }
  return a;
}
// Same cells up to lattice resolution: areas, and adjacency over long faces.  pi[i] is the cell of b that matches cell i of a.
static void sameCells(const M2& a, const M2& b, const std::vector<int>& pi, const std::vector<double>& g, double L, double scale, const char* what) {
  const size_t n = a.cells.size();
  for (size_t i = 0; i < n; ++i) {
    double s = 1e300; for (size_t j = 0; j < n; ++j) if (j != i) s = std::min(s, dist({g[2 * i], g[2 * i + 1]}, {g[2 * j], g[2 * j + 1]}));
    Loop p = cellPoly(a, i); LD per = 0, diam = 0; for (size_t k = 0; k < p.size(); ++k) { per += dist(p[k], p[(k + 1) % p.size()]); diam = std::max<LD>(diam, dist(p[k], {g[2 * i], g[2 * i + 1]})); }
    LD disp = 6e-8 * L * (1 + (n > 1 ? 4 * diam / s : 0));
    LD x = cellArea(a, i), y = cellArea(b, pi[i]) / scale / scale;
    if (std::abs(x - y) > per * disp + 10 * disp * disp) { R().viol(std::string(what) + "_area", Str() << "cell " << i << " has area " << double(x) << " and then " << double(y)); return; }
  }
  auto A = adjacency(a), B = adjacency(b);
  for (auto& kv : A) if (kv.second > 2e-3 * L) { int x = pi[kv.first.first], y = pi[kv.first.second]; if (!B.count({std::min(x, y), std::max(x, y)})) { R().viol(std::string(what) + "_adjacency", Str() << "cells " << kv.first.first << " and " << kv.first.second << " no longer share a face"); return; } }
  R().count(std::string("compared:") + what);
}
static std::vector<int> ident(size_t n) { std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = i; return v; }

static void metamorphic(Rng& r) {
  TCase t = makeCase(r, ALLD, 60); classify(t);
  const Dom& d = t.d; const size_t n = t.n();
  M2 a = tessellateVia(t, 0);
  auto sink = [&](const std::string& k, const std::string& s) { R().viol(k, s); };
  if (!checkShape(a, n, sink)) return;
  const uint64_t h = hashMesh(a);
  // 1. the entry points are one operation, and repeating it gives the same mesh
  for (int w = 0; w <= (d.box ? 2 : 1); ++w) {
    M2 b = tessellateVia(t, w);
    bool same = hashMesh(b) == h;
    if (!same && w == 2) {   // the box entry point may list the boundary from another corner
      same = b.cells.size() == n && b.nodes.size() == a.nodes.size() && b.faces.size() == a.faces.size();
      if (same) sameCells(a, b, ident(n), t.g, d.L, 1, "boxentry");
    }
    if (!same) R().viol(w == 0 ? "not_repeatable" : "entry_points_differ", Str() << "entry point " << w);
  }
  // 2. one tessellator object used for other work in between; a mesh object that was cleared
  {
    BoostTessellator<double> bt; Tessellation<2, double> m; auto plc = toPLC(d);
    std::vector<double> other; for (int i = 0; i < 7; ++i) { other.push_back(r.u(-3, 5)); other.push_back(r.u(2, 9)); }
    bt.tessellate(other, m); m.clear();
    if (!m.empty()) R().viol("clear_not_empty", "a cleared mesh is not empty");
    bt.tessellate(t.g, plc, m);
    if (hashMesh(snap(m)) != h) R().viol("history_dependent", "the mesh depends on what the tessellator did before");
    M2 s = snap(m); if (s.boundaryFaces != a.boundaryFaces || s.boundaryNodes != a.boundaryNodes) R().viol("history_dependent", "the boundary lists depend on what the tessellator did before");
  }
  // 3. numbering of the generators: cell i belongs to generator i
  if (t.cls.empty() && t.orphans == 0) {
    auto pi = ident(n); r.shuffle(pi); TCase u = t; for (size_t i = 0; i < n; ++i) { u.g[2 * pi[i]] = t.g[2 * i]; u.g[2 * pi[i] + 1] = t.g[2 * i + 1]; }
    M2 b = tessellateVia(u, r.i(0, 1)); if (checkShape(b, n, sink)) sameCells(a, b, pi, t.g, d.L, 1, "renumber");
  }
  // 4. where the boundary description starts
  if (t.cls.empty() && t.orphans == 0) {
    TCase u = t; for (auto& l : u.d.loops) std::rotate(l.begin(), l.begin() + r.i(0, l.size() - 1), l.end());
    M2 b = tessellateVia(u, 0); if (checkShape(b, n, sink)) sameCells(a, b, ident(n), t.g, d.L, 1, "facetstart");
    // the PLC's points stored in another order
    auto plc = toPLC(d); size_t np = plc.points.size() / 2; auto q = ident(np); r.shuffle(q); ReducedPLC<2, double> p2 = plc;
    for (size_t i = 0; i < np; ++i) { p2.points[2 * q[i]] = plc.points[2 * i]; p2.points[2 * q[i] + 1] = plc.points[2 * i + 1]; }
    for (auto& f : p2.facets) for (int& k : f) k = q[k];
    for (auto& hh : p2.holes) for (auto& f : hh) for (int& k : f) k = q[k];
    Tessellation<2, double> m; BoostTessellator<double> bt; bt.tessellate(t.g, p2, m); M2 c = snap(m);
    if (checkShape(c, n, sink)) sameCells(a, c, ident(n), t.g, d.L, 1, "pointorder");
  }
  // 5. scaling by a power of two and shifting
  if (t.cls.empty() && t.orphans == 0) {
    double s = std::ldexp(1.0, r.i(-20, 20)); TCase u = t;
    for (auto& x : u.g) x *= s;
    for (auto& l : u.d.loops) for (auto& p : l) { p.x *= s; p.y *= s; }
    u.d.finish(); M2 b = tessellateVia(u, 0); if (checkShape(b, n, sink)) sameCells(a, b, ident(n), t.g, d.L, s, "scale");
    double dx = d.L * r.u(-3, 3), dy = d.L * r.u(-3, 3); u = t;
    for (size_t i = 0; i < n; ++i) { u.g[2 * i] += dx; u.g[2 * i + 1] += dy; }
    for (auto& l : u.d.loops) for (auto& p : l) { p.x += dx; p.y += dy; }
    u.d.finish(); M2 c = tessellateVia(u, 0); if (checkShape(c, n, sink)) sameCells(a, c, ident(n), t.g, d.L, 1, "shift");
  }
  // 6. swapping x and y mirrors the mesh
  if (t.cls.empty() && t.orphans == 0) {
    TCase u = t; for (size_t i = 0; i < n; ++i) std::swap(u.g[2 * i], u.g[2 * i + 1]);
    for (auto& l : u.d.loops) { for (auto& p : l) std::swap(p.x, p.y); std::reverse(l.begin(), l.end()); }
    u.d.finish(); M2 b = tessellateVia(u, 0); if (checkShape(b, n, sink)) sameCells(a, b, ident(n), t.g, d.L, 1, "mirror");
  }
  observe(a, n); sampleCase(t, a);
}

// ---- bounded ------------------------------------------------------------------------
static void bounded(Rng& r, const std::string& mode) {
  TCase t;
  if (mode == "frag") {   // the boundary must cut at least one cell into pieces
    for (int k = 0; ; ++k) { t = makeCase(r, NONCONVEX, r.p(0.7) ? 25 : 60); Cut c = cutCells(t.d, t.g); int o = c.pieces - int(t.n()); if (o >= 1 && (o < 3 || r.p(0.1)) && (t.d.loops.size() == 1 || r.p(0.4))) break; if (k > 500) { R().inconclusive("no fragments"); return; } }
  } else t = makeCase(r, mode == "vor" ? (r.p(0.7) ? CONVEXD : ALLD) : ALLD);
  classify(t); countClasses(t);
  R().count("orphans", std::max(0, t.orphans));
  M2 m = tessellateVia(t, r.i(0, 2));
  CaseSink cs(t, &m); Sink sink = std::ref(cs);
  const int holes = int(t.d.loops.size()) - 1;
  if (checkShape(m, t.n(), sink)) {
    if (mode == "topo" || mode == "frag") checkTopology(m, holes, sink);
    if (mode == "blist") checkBoundaryLists(m, sink);
    if (mode == "bound" || mode == "frag") checkBoundaryFit(m, t.d, TOL * t.d.L, sink);
    if (mode == "part" || mode == "frag") checkPartition(m, t.d, r, 400, sink);
    if (mode == "vor" || mode == "frag") {
      checkNearest(m, &t.d, t.d.lo, t.d.hi, t.d.L, t.g, r, 500, sink);
      checkVertices(m, t.g, t.d.L, &t.d, sink);
      if (t.d.convex) checkReference(m, t.g, t.d, sink);
    }
    if (mode == "frag") {   // every cell holds its own generator
      CellGrid cg(m); bool near;
      for (size_t i = 0; i < t.n(); ++i) { auto in = cg.at({t.g[2 * i], t.g[2 * i + 1]}, 0, near); if (std::find(in.begin(), in.end(), int(i)) == in.end()) { sink("generator_not_in_cell", Str() << "generator " << i); break; } }
    }
  }
  observe(m, t.n()); sampleCase(t, m);
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  const std::string mode = argv[1]; uint64_t seed = atoll(argv[2]); long first = atol(argv[3]), cnt = atol(argv[4]);
  R().open(argv[5]);
  for (long c = first; c < first + cnt; ++c) for (Reps rep; rep.next();) {
    R().begin(c);
    Rng r(mix(mix(seed, fnv(mode.data(), mode.size())), c));
    if (mode == "unb") unbounded(r, true);
    else if (mode == "topo" && c % 4 == 3) unbounded(r, false);
    else if (mode == "degen") degenerate(r);
    else if (mode == "meta") metamorphic(r);
    else bounded(r, mode);
  }
  R().finish();
  MPI_Finalize();
}

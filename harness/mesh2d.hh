// Plain copy of a 2D tessellation and the oracles that judge it.  The oracles
// look only at the published data of the mesh, never at how it was computed.
#ifndef VT_MESH2D_HH
#define VT_MESH2D_HH
#include "geom2d.hh"

namespace vt {

struct M2 {
  std::vector<double> nodes;
  std::vector<std::vector<int>> cells;
  std::vector<std::vector<unsigned>> faces;
  std::vector<std::vector<int>> faceCells;
  std::vector<unsigned> boundaryNodes, boundaryFaces;
  std::vector<unsigned> neighborDomains;
  std::vector<std::vector<unsigned>> sharedNodes, sharedFaces;
  P node(size_t i) const { return {nodes[2 * i], nodes[2 * i + 1]}; }
};
template <class T> M2 snap(const T& t) {
  M2 m; m.nodes = t.nodes; m.cells = t.cells; m.faces = t.faces; m.faceCells = t.faceCells;
  m.boundaryNodes = t.boundaryNodes; m.boundaryFaces = t.boundaryFaces;
  m.neighborDomains = t.neighborDomains; m.sharedNodes = t.sharedNodes; m.sharedFaces = t.sharedFaces;
  return m;
}
inline uint64_t hashMesh(const M2& m) {
  uint64_t h = fnv(m.nodes.data(), m.nodes.size() * sizeof(double));
  for (auto& c : m.cells) { h = fnv(c.data(), c.size() * sizeof(int), h ^ 0x1111); }
  for (auto& c : m.faces) { h = fnv(c.data(), c.size() * sizeof(unsigned), h ^ 0x2222); }
  for (auto& c : m.faceCells) { h = fnv(c.data(), c.size() * sizeof(int), h ^ 0x3333); }
  return h;
}
// Hash of the connectivity only: how many different mesh topologies were seen.
inline uint64_t hashTopo(const M2& m) {
  uint64_t h = 7;
  for (auto& c : m.cells) h = fnv(c.data(), c.size() * sizeof(int), h ^ 0x1111);
  for (auto& c : m.faces) h = fnv(c.data(), c.size() * sizeof(unsigned), h ^ 0x2222);
  return h;
}

typedef std::function<void(const std::string& key, const std::string& detail)> Sink;
inline int absID(int f) { return f < 0 ? ~f : f; }

// The nodes of a cell in walking order.  Empty if the faces do not chain.
inline bool cellLoop(const M2& m, size_t c, std::vector<unsigned>& out) {
  out.clear();
  for (int f : m.cells[c]) { const auto& fn = m.faces[absID(f)]; out.push_back(f < 0 ? fn[1] : fn[0]); }
  for (size_t k = 0; k < m.cells[c].size(); ++k) {
    int f = m.cells[c][k]; const auto& fn = m.faces[absID(f)];
    if ((f < 0 ? fn[0] : fn[1]) != out[(k + 1) % out.size()]) return false;
  }
  return true;
}
inline Loop cellPoly(const M2& m, size_t c) {
  Loop l;
  for (int f : m.cells[c]) l.push_back(m.node(f < 0 ? m.faces[absID(f)][1] : m.faces[absID(f)][0]));
  return l;
}
inline LD cellArea(const M2& m, size_t c) { return loopArea(cellPoly(m, c)); }

// Sizes and index ranges only; everything below relies on it.
inline bool checkShape(const M2& m, size_t ncells, const Sink& bad) {
  bool ok = true;
  auto B = [&](const char* k, const std::string& d) { bad(k, d); ok = false; };
  if (m.nodes.size() % 2) B("nodes_odd", Str() << m.nodes.size());
  if (m.cells.size() != ncells) B("cell_count", Str() << m.cells.size() << " cells for " << ncells << " generators");
  if (m.faceCells.size() != m.faces.size()) B("facecells_size", Str() << m.faceCells.size() << " vs faces " << m.faces.size());
  for (double x : m.nodes) if (!std::isfinite(x)) { B("node_nonfinite", "a node coordinate is not finite"); break; }
  const size_t nn = m.nodes.size() / 2, nf = m.faces.size();
  for (size_t f = 0; f < nf && ok; ++f) {
    if (m.faces[f].size() != 2) B("face_size", Str() << "face " << f << " has " << m.faces[f].size() << " nodes");
    else if (m.faces[f][0] >= nn || m.faces[f][1] >= nn) B("face_node_range", Str() << "face " << f);
    else if (m.faces[f][0] == m.faces[f][1]) B("face_degenerate", Str() << "face " << f);
  }
  for (size_t c = 0; c < m.cells.size() && ok; ++c) for (int f : m.cells[c]) if (size_t(absID(f)) >= nf) { B("cell_face_range", Str() << "cell " << c); break; }
  for (size_t f = 0; f < m.faceCells.size() && ok; ++f) for (int c : m.faceCells[f]) if (size_t(absID(c)) >= m.cells.size()) { B("facecell_range", Str() << "face " << f); break; }
  return ok;
}

// Combinatorial consistency.  `holes` < 0: do not check Euler.
inline bool checkTopology(const M2& m, int holes, const Sink& bad, double coincident = 0) {
  bool ok = true;
  auto B = [&](const char* k, const std::string& d) { bad(k, d); ok = false; };
  const size_t nn = m.nodes.size() / 2, nf = m.faces.size(), nc = m.cells.size();
  std::map<std::pair<unsigned, unsigned>, size_t> fs;
  for (size_t f = 0; f < nf; ++f) {
    auto k = std::minmax(m.faces[f][0], m.faces[f][1]);
    auto r = fs.insert({{k.first, k.second}, f});
    if (!r.second) B("face_duplicate", Str() << "faces " << r.first->second << " and " << f << " join the same nodes");
  }
  std::vector<std::vector<int>> fc(nf);
  std::vector<unsigned> used(nn, 0);
  for (size_t c = 0; c < nc; ++c) {
    if (m.cells[c].size() < 3) { B("cell_small", Str() << "cell " << c << " has " << m.cells[c].size() << " faces"); continue; }
    // A cell around a hole is cut open along a seam: it may use a face once in each direction, and
    // visit a node once for each time the seam passes it.
    std::set<int> s, sd; bool seam = false;
    for (int f : m.cells[c]) { if (!sd.insert(f).second) B("cell_face_twice", Str() << "cell " << c << " uses face " << absID(f) << " twice in one direction"); if (!s.insert(absID(f)).second) seam = true; }
    if (seam && holes <= 0) B("cell_face_twice", Str() << "cell " << c << " uses a face twice");
    std::vector<unsigned> l;
    if (!cellLoop(m, c, l)) B("cell_not_closed", Str() << "the faces of cell " << c << " do not form a closed walk");
    else { std::set<unsigned> d(l.begin(), l.end()); if (d.size() != l.size() && !seam) B("cell_node_twice", Str() << "cell " << c << " visits a node twice"); }
    if (!(cellArea(m, c) > 0)) B("cell_orientation", Str() << "cell " << c << " has signed area " << double(cellArea(m, c)));
    for (int f : m.cells[c]) fc[absID(f)].push_back(f < 0 ? ~int(c) : int(c));
  }
  for (size_t f = 0; f < nf; ++f) {
    used[m.faces[f][0]]++; used[m.faces[f][1]]++;
    auto a = fc[f], b = m.faceCells[f];
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) B("facecells_mismatch", Str() << "face " << f << ": cells using it disagree with its recorded cells");
    if (a.size() == 0) B("face_unused", Str() << "face " << f << " belongs to no cell");
    else if (a.size() > 2) B("face_overused", Str() << "face " << f << " belongs to " << a.size() << " cells");
    else if (a.size() == 2 && (a[0] < 0) == (a[1] < 0)) B("face_same_side", Str() << "face " << f << " is traversed in the same direction by both cells");
  }
  for (size_t i = 0; i < nn; ++i) if (!used[i]) { B("node_unused", Str() << "node " << i << " is on no face"); break; }
  // Coincident nodes.
  {
    std::vector<size_t> o(nn); for (size_t i = 0; i < nn; ++i) o[i] = i;
    std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return m.node(a) < m.node(b); });
    bool hit = false;
    for (size_t i = 0; i < nn && !hit; ++i) for (size_t j = i + 1; j < nn && m.node(o[j]).x - m.node(o[i]).x <= coincident; ++j)
      if (std::abs(m.node(o[j]).y - m.node(o[i]).y) <= coincident) { B("node_coincident", Str() << "nodes " << o[i] << " and " << o[j] << " coincide"); hit = true; break; }
  }
  if (holes >= 0) {
    // Connected through faces?  (A bounded mesh covers a connected domain.)
    std::vector<int> p(nc); for (size_t i = 0; i < nc; ++i) p[i] = i;
    std::function<int(int)> root = [&](int a) { while (p[a] != a) a = p[a] = p[p[a]]; return a; };
    for (size_t f = 0; f < nf; ++f) if (fc[f].size() == 2) p[root(absID(fc[f][0]))] = root(absID(fc[f][1]));
    for (size_t c = 1; c < nc; ++c) if (root(c) != root(0)) { B("mesh_disconnected", Str() << "cell " << c << " is not face-connected to cell 0"); break; }
    long chi = long(nn) - long(nf) + long(nc);
    if (chi != 1 - holes) B("euler", Str() << "V-E+C = " << chi << ", the domain's is " << 1 - holes);
  }
  return ok;
}

// The recorded boundary lists against the connectivity.
inline bool checkBoundaryLists(const M2& m, const Sink& bad) {
  bool ok = true;
  auto B = [&](const char* k, const std::string& d) { bad(k, d); ok = false; };
  std::vector<unsigned> use(m.faces.size(), 0);
  for (auto& c : m.cells) for (int f : c) use[absID(f)]++;
  std::set<unsigned> bf, bn;
  for (size_t f = 0; f < m.faces.size(); ++f) if (use[f] == 1) { bf.insert(f); bn.insert(m.faces[f][0]); bn.insert(m.faces[f][1]); }
  std::set<unsigned> rf(m.boundaryFaces.begin(), m.boundaryFaces.end()), rn(m.boundaryNodes.begin(), m.boundaryNodes.end());
  if (rf.size() != m.boundaryFaces.size()) B("boundary_faces_dup", "a boundary face is listed twice");
  if (rn.size() != m.boundaryNodes.size()) B("boundary_nodes_dup", "a boundary node is listed twice");
  if (rf != bf) B("boundary_faces", Str() << "listed " << rf.size() << ", faces with one cell " << bf.size());
  if (rn != bn) B("boundary_nodes", Str() << "listed " << rn.size() << ", nodes of faces with one cell " << bn.size());
  return ok;
}

// The boundary of the mesh is the boundary of the domain: vertices bit for bit,
// every boundary face on one facet, every facet covered once.
inline bool checkBoundaryFit(const M2& m, const Dom& d, double tol, const Sink& bad) {
  bool ok = true;
  auto B = [&](const char* k, const std::string& s) { bad(k, s); ok = false; };
  std::vector<unsigned> use(m.faces.size(), 0);
  for (auto& c : m.cells) for (int f : c) use[absID(f)]++;
  std::set<unsigned> bn;
  for (size_t f = 0; f < m.faces.size(); ++f) if (use[f] == 1) { bn.insert(m.faces[f][0]); bn.insert(m.faces[f][1]); }
  std::set<P> have; for (unsigned i : bn) have.insert(m.node(i));
  for (auto& l : d.loops) for (auto& p : l) if (!have.count(p)) {
    double best = DBL_MAX; for (unsigned i : bn) best = std::min(best, dist(m.node(i), p));
    B(best < tol ? "vertex_inexact" : "vertex_missing", Str() << "no boundary node at boundary vertex (" << p.x << "," << p.y << "), nearest " << best / d.L << " L away");
    break;
  }
  std::vector<std::pair<P, P>> seg; for (auto& l : d.loops) for (size_t i = 0; i < l.size(); ++i) seg.push_back({l[i], l[(i + 1) % l.size()]});
  std::vector<double> cover(seg.size(), 0);
  for (size_t f = 0; f < m.faces.size(); ++f) if (use[f] == 1) {
    P a = m.node(m.faces[f][0]), b = m.node(m.faces[f][1]); bool on = false; double off = DBL_MAX;
    for (size_t s = 0; s < seg.size(); ++s) {
      double ta, tb, da = segDist(a, seg[s].first, seg[s].second, &ta), db = segDist(b, seg[s].first, seg[s].second, &tb);
      off = std::min(off, std::max(da, db));
      if (da <= tol && db <= tol) { on = true; if (std::abs(ta - tb) * dist(seg[s].first, seg[s].second) > 4 * tol || dist(a, b) < 4 * tol) { cover[s] += std::abs(ta - tb) * dist(seg[s].first, seg[s].second); break; } }
    }
    if (!on) { B("face_off_boundary", Str() << "boundary face " << f << " is " << off / d.L << " L off the domain boundary"); break; }
  }
  if (ok) for (size_t s = 0; s < seg.size(); ++s) {
    double len = dist(seg[s].first, seg[s].second);
    if (std::abs(cover[s] - len) > 40 * tol) { B("facet_cover", Str() << "facet " << s << " of length " << len << " is covered by boundary faces of total length " << cover[s]); break; }
  }
  for (size_t f = 0; f < m.faces.size() && ok; ++f) if (use[f] > 1) {
    // an interior face strictly inside the domain must not run along the boundary
    P a = m.node(m.faces[f][0]), b = m.node(m.faces[f][1]), c{(a.x + b.x) / 2, (a.y + b.y) / 2};
    if (dist(a, b) > 100 * tol && d.bdist(a) <= tol && d.bdist(b) <= tol && d.bdist(c) <= tol) { B("interior_face_on_boundary", Str() << "face " << f); }
  }
  return ok;
}

// Areas add up, sampled locations lie in exactly one cell.
struct CellGrid {
  std::vector<Loop> poly; std::vector<P> lo, hi;
  explicit CellGrid(const M2& m) {
    for (size_t c = 0; c < m.cells.size(); ++c) {
      poly.push_back(cellPoly(m, c)); P a{DBL_MAX, DBL_MAX}, b{-DBL_MAX, -DBL_MAX};
      for (auto& p : poly.back()) { a.x = std::min(a.x, p.x); a.y = std::min(a.y, p.y); b.x = std::max(b.x, p.x); b.y = std::max(b.y, p.y); }
      lo.push_back(a); hi.push_back(b);
    }
  }
  // cells containing p; near = p is within tol of an edge of some candidate
  std::vector<int> at(P p, double tol, bool& near) const {
    std::vector<int> r; near = false;
    for (size_t c = 0; c < poly.size(); ++c) {
      if (p.x < lo[c].x - tol || p.x > hi[c].x + tol || p.y < lo[c].y - tol || p.y > hi[c].y + tol) continue;
      for (size_t k = 0; k < poly[c].size() && !near; ++k) if (segDist(p, poly[c][k], poly[c][(k + 1) % poly[c].size()]) <= tol) near = true;
      if (inLoop(poly[c], p)) r.push_back(c);
    }
    return r;
  }
};

// Residual allowance for distances: the tessellator works on a lattice of spacing 5L/2^31 = 2.3e-9 L
// and snaps boundary nodes within 1.5e-8 L.
static const double TOL = 1e-7;

inline bool checkPartition(const M2& m, const Dom& d, Rng& r, int nsamp, const Sink& bad, const std::vector<P>* extra = nullptr) {
  bool ok = true;
  auto B = [&](const char* k, const std::string& s) { bad(k, s); ok = false; };
  LD sum = 0; for (size_t c = 0; c < m.cells.size(); ++c) sum += cellArea(m, c);
  LD per = 0; for (auto& l : d.loops) for (size_t i = 0; i < l.size(); ++i) per += dist(l[i], l[(i + 1) % l.size()]);
  if (std::abs(sum - d.area) > TOL * d.L * per) B("area_sum", Str() << "cell areas sum to " << double(sum) << ", the domain has " << double(d.area) << " (relative " << double((sum - d.area) / d.area) << ")");
  CellGrid g(m); bool near; int hit = 0;
  size_t ne = extra ? extra->size() : 0;
  for (int s = 0; s < nsamp + int(ne) && ok; ++s) {
    P p = s < nsamp ? P{r.u(d.lo.x - 0.02 * d.L, d.hi.x + 0.02 * d.L), r.u(d.lo.y - 0.02 * d.L, d.hi.y + 0.02 * d.L)} : (*extra)[s - nsamp];
    auto in = g.at(p, TOL * d.L, near);
    if (near) continue;
    bool inside = d.inside(p);
    if (d.bdist(p) <= TOL * d.L) continue;
    ++hit;
    if (inside && in.empty()) B("gap", Str() << "(" << p.x << "," << p.y << ") in the domain is in no cell");
    if (inside && in.size() > 1) B("overlap", Str() << "(" << p.x << "," << p.y << ") is in cells " << in[0] << " and " << in[1]);
    if (!inside && !in.empty()) B("outside", Str() << "(" << p.x << "," << p.y << ") outside the domain is in cell " << in[0]);
  }
  R().count("location_samples", hit);
  return ok;
}

// Every sampled location that can see its nearest generator is in that generator's cell.
inline bool checkNearest(const M2& m, const Dom* d, P lo, P hi, double L, const std::vector<double>& g, Rng& r, int nsamp, const Sink& bad, bool generatorsToo = true) {
  bool ok = true; CellGrid cg(m); bool near; int hit = 0; const size_t n = g.size() / 2;
  auto probe = [&](P p) {
    double d1 = DBL_MAX, d2 = DBL_MAX; size_t i1 = 0;
    for (size_t i = 0; i < n; ++i) { double q = dist(p, {g[2 * i], g[2 * i + 1]}); if (q < d1) { d2 = d1; d1 = q; i1 = i; } else if (q < d2) d2 = q; }
    if (d2 - d1 < TOL * L) return;
    P gp{g[2 * i1], g[2 * i1 + 1]};
    if (d) { if (!d->inside(p) || d->bdist(p) < TOL * L) return; if (!d->convex && !d->visible(p, gp, TOL * L)) return; }
    ++hit;
    auto in = cg.at(p, 0, near);
    if (std::find(in.begin(), in.end(), int(i1)) == in.end()) {
      bad("not_nearest", Str() << "(" << p.x << "," << p.y << ") is nearest generator " << i1 << " (" << d1 / L << " L, next " << d2 / L << " L) but lies in cell " << (in.empty() ? -1 : in[0]));
      ok = false;
    }
  };
  if (generatorsToo) for (size_t i = 0; i < n && ok; ++i) probe({g[2 * i], g[2 * i + 1]});
  for (int s = 0; s < nsamp && ok; ++s) {
    P p;
    switch (s % 3) {
      case 0: p = {r.u(lo.x, hi.x), r.u(lo.y, hi.y)}; break;
      case 1: { size_t i = r.i(0, n - 1), j = r.i(0, n - 1); double t = r.p(0.5) ? 0.5 + r.u(-1e-3, 1e-3) : r.u(); p = {g[2 * i] + t * (g[2 * j] - g[2 * i]), g[2 * i + 1] + t * (g[2 * j + 1] - g[2 * i + 1])}; break; }
      default: { size_t i = r.i(0, n - 1); double q = L * std::pow(10.0, r.u(-5, -0.5)), t = r.u(0, 2 * M_PI); p = {g[2 * i] + q * std::cos(t), g[2 * i + 1] + q * std::sin(t)}; }
    }
    if (p.x < lo.x || p.x > hi.x || p.y < lo.y || p.y > hi.y) continue;
    probe(p);
  }
  R().count("nearest_probes", hit);
  return ok;
}

// Nodes shared by several cells are equidistant from those cells' generators and no generator is nearer.
inline bool checkVertices(const M2& m, const std::vector<double>& g, double L, const Dom* d, const Sink& bad) {
  bool ok = true; const size_t nn = m.nodes.size() / 2, n = g.size() / 2; int hit = 0;
  std::vector<std::set<int>> nc(nn);
  for (size_t c = 0; c < m.cells.size(); ++c) for (int f : m.cells[c]) for (unsigned k : m.faces[absID(f)]) nc[k].insert(c);
  for (size_t v = 0; v < nn && ok; ++v) {
    if (nc[v].size() < 2) continue;
    P p = m.node(v); double lo = DBL_MAX, hi = 0;
    bool see = true;
    if (d && !d->convex) for (int c : nc[v]) { P q{g[2 * c], g[2 * c + 1]}; // look from just inside
      P e{p.x + 1e-6 * (q.x - p.x), p.y + 1e-6 * (q.y - p.y)}; if (!d->visible(e, q, 1e-9 * L)) see = false; }
    if (!see) continue;
    ++hit;
    for (int c : nc[v]) { double q = dist(p, {g[2 * c], g[2 * c + 1]}); lo = std::min(lo, q); hi = std::max(hi, q); }
    if (hi - lo > TOL * L) { bad("vertex_not_equidistant", Str() << "node " << v << " is " << lo / L << " L and " << hi / L << " L from the generators of cells sharing it"); ok = false; }
    if (!d || d->convex) for (size_t i = 0; i < n; ++i) if (dist(p, {g[2 * i], g[2 * i + 1]}) < lo - TOL * L) { bad("vertex_not_empty", Str() << "generator " << i << " is nearer to node " << v << " than the generators of its cells"); ok = false; break; }
  }
  R().count("vertex_probes", hit);
  return ok;
}

// Convex domains: cell areas and adjacency against the reference clipper.
inline bool checkReference(const M2& m, const std::vector<double>& g, const Dom& d, const Sink& bad) {
  bool ok = true; const size_t n = g.size() / 2;
  const double q = 2e-8 * d.L;
  std::map<std::pair<int, int>, double> adj;   // faces of the mesh
  for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 2) { int a = absID(m.faceCells[f][0]), b = absID(m.faceCells[f][1]); adj[{std::min(a, b), std::max(a, b)}] += dist(m.node(m.faces[f][0]), m.node(m.faces[f][1])); }
  std::map<std::pair<int, int>, bool> seen;
  for (size_t i = 0; i < n && ok; ++i) {
    RefCell c = refCell(d.loops[0], g, i);
    double s = DBL_MAX; for (size_t j = 0; j < n; ++j) if (j != i) s = std::min(s, dist({g[2 * i], g[2 * i + 1]}, {g[2 * j], g[2 * j + 1]}));
    LD per = 0, diam = 0; size_t k = c.v.size();
    for (size_t a = 0; a < k; ++a) { per += ldist(c.v[a].first, c.v[a].second, c.v[(a + 1) % k].first, c.v[(a + 1) % k].second); diam = std::max(diam, std::sqrt(c.v[a].first * c.v[a].first + c.v[a].second * c.v[a].second)); }
    LD disp = q * (1 + (n > 1 ? 4 * diam / s : 0));
    LD got = cellArea(m, i);
    if (std::abs(got - c.area) > per * disp + 10 * disp * disp) { bad("cell_area", Str() << "cell " << i << " has area " << double(got) << ", its Voronoi cell has " << double(c.area) << " (allowance " << double(per * disp) << ")"); ok = false; }
    for (size_t a = 0; a < k; ++a) if (c.tag[a] >= 0) {
      LD len = ldist(c.v[a].first, c.v[a].second, c.v[(a + 1) % k].first, c.v[(a + 1) % k].second);
      // An edge ends where two bisectors cross; how far that moves depends on the angle, so only long edges are demanded.
      if (len > 1e-3 * d.L + 1000 * disp && !adj.count({std::min(int(i), c.tag[a]), std::max(int(i), c.tag[a])})) { bad("missing_neighbour", Str() << "cells " << i << " and " << c.tag[a] << " share a Voronoi edge of length " << double(len / d.L) << " L but no face"); ok = false; break; }
    }
  }
  R().count("reference_cells", n);
  return ok;
}

}
#endif

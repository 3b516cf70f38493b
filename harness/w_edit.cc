// Editing meshes and deriving tables from them.
//   w_edit MODE SEED FIRST COUNT OUT      MODE: del, clean, derived
#include "meshes.hh"
#include "MeshEditor.hh"
#include "deleteCells.hh"
#include "removeElements.hh"
#include "mpi.h"
#include <iostream>
using namespace vt;
using namespace polytope;
typedef std::vector<unsigned> VU;
typedef std::vector<double> VD;
static void bad(const std::string& k, const std::string& s) { R().viol(k, s); }

template <int D> struct Snap {
  VD nodes; std::vector<std::vector<int>> cells, faceCells; std::vector<VU> faces, sharedNodes, sharedFaces; VU bn, bf, nd;
  size_t nn() const { return nodes.size() / D; }
  std::vector<double> pt(size_t i) const { return VD(&nodes[D * i], &nodes[D * i] + D); }
};
template <int D> static Snap<D> snapd(const Tessellation<D, double>& m) {
  Snap<D> s; s.nodes = m.nodes; s.cells = m.cells; s.faceCells = m.faceCells; s.faces = m.faces; s.sharedNodes = m.sharedNodes; s.sharedFaces = m.sharedFaces; s.bn = m.boundaryNodes; s.bf = m.boundaryFaces; s.nd = m.neighborDomains; return s;
}

// ---- deleting cells --------------------------------------------------------------------
template <int D> static bool checkDeleted(const Snap<D>& a, const Tessellation<D, double>& nm, const VU& keep) {
  Snap<D> b = snapd(nm); std::vector<long> cnew(a.cells.size(), -1); size_t K = 0; for (size_t i = 0; i < keep.size(); ++i) if (keep[i]) cnew[i] = K++;
  if (b.cells.size() != K) { bad("del_count", Str() << b.cells.size() << " cells left of " << K << " kept"); return false; }
  if (b.faceCells.size() != b.faces.size()) { bad("del_tables", "face tables of different lengths"); return false; }
  std::map<unsigned, unsigned> fm, nmap, fr, nr;
  for (size_t i = 0; i < keep.size(); ++i) if (keep[i]) {
    auto &o = a.cells[i], &n = b.cells[cnew[i]];
    if (o.size() != n.size()) { bad("del_cell", Str() << "kept cell " << i << " has " << n.size() << " faces instead of " << o.size()); return false; }
    for (size_t k = 0; k < o.size(); ++k) {
      unsigned fo = absID(o[k]), fn = absID(n[k]); if ((o[k] < 0) != (n[k] < 0)) { bad("del_cell_sign", Str() << "kept cell " << i << ": a face changed its orientation"); return false; }
      if (fn >= b.faces.size()) { bad("del_cell_range", Str() << "kept cell " << i); return false; }
      if (fm.count(fo) ? fm[fo] != fn : fr.count(fn)) { bad("del_face_map", Str() << "old face " << fo << " became two faces, or two faces became one"); return false; }
      fm[fo] = fn; fr[fn] = fo; auto &p = a.faces[fo], &q = b.faces[fn];
      if (p.size() != q.size()) { bad("del_face", Str() << "face of " << p.size() << " nodes became one of " << q.size()); return false; }
      for (size_t e = 0; e < p.size(); ++e) {
        if (q[e] >= b.nn()) { bad("del_node_range", Str() << "face " << fn); return false; }
        if (nmap.count(p[e]) ? nmap[p[e]] != q[e] : nr.count(q[e])) { bad("del_node_map", Str() << "old node " << p[e] << " became two nodes, or two nodes became one"); return false; }
        nmap[p[e]] = q[e]; nr[q[e]] = p[e];
        if (std::memcmp(&a.nodes[D * p[e]], &b.nodes[D * q[e]], D * sizeof(double))) { bad("del_moved", Str() << "node " << p[e] << " moved"); return false; }
      }
    }
  }
  if (b.faces.size() != fm.size()) { bad("del_faces_left", Str() << b.faces.size() << " faces left, kept cells use " << fm.size()); return false; }
  if (b.nn() != nmap.size()) { bad("del_nodes_left", Str() << b.nn() << " nodes left, kept cells use " << nmap.size()); return false; }
  for (auto& kv : fm) { std::vector<int> e; for (int c : a.faceCells[kv.first]) if (keep[absID(c)]) e.push_back(c < 0 ? ~int(cnew[absID(c)]) : int(cnew[absID(c)])); auto g = b.faceCells[kv.second]; std::sort(e.begin(), e.end()); std::sort(g.begin(), g.end()); if (e != g) { bad("del_facecells", Str() << "face " << kv.second << " lists the wrong cells"); return false; } }
  std::set<unsigned> bf, bn; for (size_t f = 0; f < b.faces.size(); ++f) if (b.faceCells[f].size() == 1) { bf.insert(f); bn.insert(b.faces[f].begin(), b.faces[f].end()); }
  if (std::set<unsigned>(b.bf.begin(), b.bf.end()) != bf || b.bf.size() != bf.size()) { bad("del_boundary_faces", Str() << b.bf.size() << " listed, " << bf.size() << " faces with one cell"); return false; }
  if (std::set<unsigned>(b.bn.begin(), b.bn.end()) != bn || b.bn.size() != bn.size()) { bad("del_boundary_nodes", Str() << b.bn.size() << " listed, " << bn.size() << " nodes of faces with one cell"); return false; }
  if (b.nd != a.nd || b.sharedNodes.size() != a.sharedNodes.size() || b.sharedFaces.size() != a.sharedFaces.size()) { bad("del_shared", "neighbor domains changed"); return false; }
  for (size_t i = 0; i < a.sharedNodes.size(); ++i) {
    VU en, ef; for (unsigned n : a.sharedNodes[i]) if (nmap.count(n)) en.push_back(nmap[n]); for (unsigned f : a.sharedFaces[i]) if (fm.count(f)) ef.push_back(fm[f]);
    if (en != b.sharedNodes[i]) { bad("del_shared_nodes", Str() << "neighbor " << i << ": " << b.sharedNodes[i].size() << " shared nodes instead of " << en.size() << ", or others"); return false; }
    if (ef != b.sharedFaces[i]) { bad("del_shared_faces", Str() << "neighbor " << i << ": " << b.sharedFaces[i].size() << " shared faces instead of " << ef.size() << ", or others"); return false; }
  }
  if (!nm.convexHull.facets.empty() || !nm.convexHull.holes.empty()) { bad("del_hull", "the hull of the old mesh is still recorded"); return false; }
  R().count("deletions"); R().count("cells_kept", K); return true;
}
template <int D> static uint64_t hashSnap(const Snap<D>& s) { uint64_t h = D; for (auto& c : s.cells) h = fnv(c.data(), c.size() * 4, h); for (auto& c : s.faces) h = fnv(c.data(), c.size() * 4, h); return h; }
template <int D> static void deletions(Rng& r, Tessellation<D, double>& m) {
  // as if part of a distributed mesh
  if (r.p(0.5)) { int nb = r.i(1, 3); for (int b = 0; b < nb; ++b) { m.neighborDomains.push_back(10 + 3 * b); VU n, f; for (unsigned i = 0; i < m.nodes.size() / D; ++i) if (r.p(0.3)) n.push_back(i); for (unsigned i = 0; i < m.faces.size(); ++i) if (r.p(0.3)) f.push_back(i); if (r.p(0.5)) { r.shuffle(n); r.shuffle(f); } m.sharedNodes.push_back(n); m.sharedFaces.push_back(f); } }
  if (r.p(0.5)) m.convexHull.facets.push_back({0, 1});
  MeshEditor<D, double> ed(m); uint64_t h = 0; int steps = r.i(1, 4);
  for (int s = 0; s < steps && m.cells.size() > 1; ++s) {
    size_t n = m.cells.size(); VU keep(n, 1); int kind = r.i(0, 4);
    if (kind == 0) for (auto& k : keep) k = r.p(0.5); else if (kind == 1) keep[r.i(0, n - 1)] = 0; else if (kind == 2) keep[0] = 0; else if (kind == 3) { int k = r.i(0, n - 1); for (size_t i = k; i < n; ++i) keep[i] = 0; } else { int k = r.i(0, n - 1); keep.assign(n, 0); keep[k] = 1; }
    if (std::count(keep.begin(), keep.end(), 1u) == 0) keep[r.i(0, n - 1)] = 1;
    Snap<D> a = snapd(m); bool all = std::count(keep.begin(), keep.end(), 0u) == 0;
    if (r.p(0.5) || all) polytope::deleteCells(m, keep);
    else { VU del; for (unsigned i = 0; i < n; ++i) if (!keep[i]) { del.push_back(i); if (r.p(0.1)) del.push_back(i); } if (r.p(0.5)) r.shuffle(del); ed.deleteCells(del); }
    if (!checkDeleted<D>(a, m, keep)) return;
    h = mix(h, hashSnap(snapd(m)));
  }
  R().distinct(h, true); R().sample(Str() << R().desc << " -> " << steps << " deletions, " << m.cells.size() << " cells left");
}

// ---- cleaning short edges ------------------------------------------------------------
static bool checkCleaned(const Snap<2>& a, const Snap<2>& b, double tol, int holes, size_t& gone) {
  const size_t na = a.nn(), nb = b.nn();
  if (a.cells.size() != b.cells.size()) { bad("clean_cells", "the number of cells changed"); return false; }
  std::map<std::pair<double, double>, unsigned> pos; for (unsigned i = 0; i < na; ++i) pos[{a.nodes[2 * i], a.nodes[2 * i + 1]}] = i;
  std::vector<long> m(na, -1); std::vector<unsigned> back(nb);
  for (unsigned i = 0; i < nb; ++i) { auto it = pos.find({b.nodes[2 * i], b.nodes[2 * i + 1]}); if (it == pos.end()) { bad("clean_moved", Str() << "node " << i << " is at no old node's position"); return false; } if (m[it->second] >= 0) { bad("clean_duplicate", "two nodes at one position"); return false; } m[it->second] = i; back[i] = it->second; }
  // lengths and the longest edge around
  std::vector<double> len(a.faces.size()), mx(a.faces.size(), 0); for (size_t f = 0; f < a.faces.size(); ++f) len[f] = std::hypot(a.nodes[2 * a.faces[f][0]] - a.nodes[2 * a.faces[f][1]], a.nodes[2 * a.faces[f][0] + 1] - a.nodes[2 * a.faces[f][1] + 1]);
  for (auto& c : a.cells) { double w = 0; for (int f : c) w = std::max(w, len[absID(f)]); for (int f : c) mx[absID(f)] = std::max(mx[absID(f)], w); }
  std::vector<char> border(na, 0); std::vector<VU> bnb(na), at(na);
  for (unsigned f = 0; f < a.faces.size(); ++f) { for (unsigned n : a.faces[f]) at[n].push_back(f); if (a.faceCells[f].size() == 1) { for (int e : {0, 1}) { border[a.faces[f][e]] = 1; bnb[a.faces[f][e]].push_back(a.faces[f][1 - e]); } } }
  auto P2 = [&](unsigned i) { return P{a.nodes[2 * i], a.nodes[2 * i + 1]}; };
  std::set<std::pair<unsigned, unsigned>> nf; for (auto& f : b.faces) nf.insert(std::minmax(f[0], f[1]));
  std::vector<unsigned> del; std::vector<VU> cand; gone = 0;
  for (unsigned i = 0; i < na; ++i) {
    bool corner = false;
    if (border[i]) { if (bnb[i].size() != 2) corner = true; else { P q = P2(i), u = P2(bnb[i][0]), v = P2(bnb[i][1]); corner = std::abs(vt::cross(q, u, v)) > 1e-3 * dist(q, u) * dist(q, v); } }
    if (m[i] >= 0) continue;
    if (corner && bnb[i].size() == 2) { bad("clean_corner", Str() << "corner node " << i << " of the boundary was removed"); return false; }
    ++gone; VU c;
    for (unsigned f : at[i]) { unsigned k = a.faces[f][0] == i ? a.faces[f][1] : a.faces[f][0]; if (m[k] < 0 || len[f] > tol * mx[f] * (1 + 1e-9)) continue; if (border[i] && !border[k]) continue;
      bool ok = true; for (unsigned g : at[i]) { unsigned x = a.faces[g][0] == i ? a.faces[g][1] : a.faces[g][0]; if (x != k && m[x] >= 0 && !nf.count(std::minmax(unsigned(m[k]), unsigned(m[x])))) ok = false; }
      if (ok) c.push_back(k); }
    if (c.empty()) { bad("clean_not_short", Str() << "node " << i << " is gone, but no short edge leads from it to a node it could have been merged with"); return false; }
    del.push_back(i); cand.push_back(c);
  }
  // Some choice of merged ends reproduces the whole mesh.
  bool found = false; size_t tries = 0; std::vector<size_t> ix(del.size(), 0); std::vector<long> mm;
  while (!found && tries++ < 512) {
    mm = m; for (size_t i = 0; i < del.size(); ++i) mm[del[i]] = m[cand[i][ix[i]]];
    bool ok = true; std::multiset<std::pair<unsigned, unsigned>> e, g; std::map<std::pair<unsigned, unsigned>, unsigned> id;
    for (auto& f : a.faces) if (mm[f[0]] != mm[f[1]]) e.insert(std::minmax(unsigned(mm[f[0]]), unsigned(mm[f[1]])));
    for (auto& f : b.faces) g.insert(std::minmax(f[0], f[1]));
    ok = e == g;
    for (size_t c = 0; ok && c < a.cells.size(); ++c) {
      VU u, v; for (int f : a.cells[c]) { auto& q = a.faces[absID(f)]; long x = mm[f < 0 ? q[1] : q[0]]; long y = mm[f < 0 ? q[0] : q[1]]; if (x != y) u.push_back(x); } for (int f : b.cells[c]) { auto& q = b.faces[absID(f)]; v.push_back(f < 0 ? q[1] : q[0]); }
      ok = u.size() == v.size(); if (ok) { bool eq = u.empty(); for (size_t s = 0; !eq && s < u.size(); ++s) eq = std::equal(u.begin() + s, u.end(), v.begin()) && std::equal(u.begin(), u.begin() + s, v.begin() + (u.size() - s)); ok = eq; }
    }
    if (ok) { found = true; break; }
    size_t k = 0; while (k < ix.size() && ++ix[k] == cand[k].size()) ix[k++] = 0; if (k == ix.size()) break;
  }
  if (!found) { if (tries >= 512) { R().inconclusive("too many ways to merge"); return false; } bad("clean_not_contraction", Str() << del.size() << " nodes are gone, but no contraction of short edges gives the new mesh"); return false; }
  // Nothing left that should have gone: short edges between interior nodes untouched by any merge.
  std::vector<char> touched(nb, 0); for (unsigned d : del) touched[mm[d]] = 1;
  for (size_t f = 0; f < b.faces.size(); ++f) {
    unsigned x = b.faces[f][0], y = b.faces[f][1], ox = back[x], oy = back[y]; if (touched[x] || touched[y] || border[ox] || border[oy]) continue;
    long of = -1; for (unsigned g : at[ox]) if (a.faces[g][0] == oy || a.faces[g][1] == oy) of = g; if (of < 0) continue;
    if (len[of] < tol * mx[of] * (1 - 1e-9)) { bool small = false; for (int c : b.faceCells[f]) if (b.cells[absID(c)].size() <= 3) small = true; if (!small) { bad("clean_left", Str() << "an edge " << len[of] / mx[of] << " as long as the longest around it was left, tolerance " << tol); return false; } }
  }
  return true;
}
static void clean(Rng& r) {
  Tessellation<2, double> m; TCase t; if (!polyMesh(r, m, t)) { R().inconclusive("no sound mesh to start from"); return; }
  R().count("class:clean"); MeshEditor<2, double> ed(m); uint64_t h = 0; size_t total = 0; int holes = int(t.d.loops.size()) - 1;
  for (int s = 0, steps = r.i(1, 3); s < steps; ++s) {
    double tol = std::pow(10.0, r.u(-3, -0.4)); Snap<2> a = snapd(m); ed.cleanEdges(tol); Snap<2> b = snapd(m); size_t gone = 0; R().desc += Str() << " tol=" << tol;
    M2 q = snap(m); bool ok = true; Sink sink = [&](const std::string& k, const std::string& d) { if (k != "cell_orientation") ok = false; R().viol("clean_" + k, d); };
    if (!checkShape(q, t.n(), sink)) return; checkTopology(q, holes, sink); checkBoundaryLists(q, sink); if (!ok) return;
    if (!checkCleaned(a, b, tol, holes, gone)) return;
    h = mix(h, hashSnap(b)); total += gone; R().count("cleanings"); R().count("edges_removed", gone);
  }
  R().distinct(h, total > 0); R().sample(Str() << R().desc << " -> " << total << " edges removed");
}

// ---- derived tables ---------------------------------------------------------------------
template <int D> static void tables(Rng& r, Tessellation<D, double>& m) {
  auto nc = m.computeNodeCells(); auto cn = m.computeCellToNodes(); std::vector<std::set<unsigned>> a(m.nodes.size() / D), b(m.cells.size());
  for (unsigned c = 0; c < m.cells.size(); ++c) for (int f : m.cells[c]) for (unsigned n : m.faces[absID(f)]) { a[n].insert(c); b[c].insert(n); }
  if (nc != a) bad("node_cells", "the cells around some node are wrong");
  if (cn != b) bad("cell_nodes", "the nodes of some cell are wrong");
  // the printed form, read back
  std::ostringstream o; o.precision(17); o << m; std::string s = o.str(); for (char& c : s) if (c == '(' || c == ')' || c == ',' || c == ':') c = ' ';
  std::istringstream in(s); std::string w; size_t n, k; auto fail = [&](const char* what) { bad("printed", Str() << "printed " << what << " differ"); };
  in >> w >> w; in >> n >> w; if (n != m.nodes.size() / D || w != "nodes") return fail("node count");
  for (size_t i = 0; i < n; ++i) { in >> k; if (k != i) return fail("nodes"); for (int d = 0; d < D; ++d) { std::string x; in >> x; if (std::strtod(x.c_str(), nullptr) != m.nodes[D * i + d]) return fail("nodes"); } }
  in >> n >> w; if (n != m.faces.size() || w != "faces") return fail("face count");
  for (size_t i = 0; i < n; ++i) { in >> k; if (k != i) return fail("faces"); for (unsigned x : m.faces[i]) { unsigned y; if (!(in >> y) || y != x) return fail("faces"); } }
  in >> n >> w; if (n != m.cells.size() || w != "cells") return fail("cell count");
  for (size_t i = 0; i < n; ++i) { in >> k; if (k != i) return fail("cells"); for (int x : m.cells[i]) { int y; if (!(in >> y) || y != x) return fail("cells"); } }
  in >> n >> w; if (n != m.boundaryNodes.size()) return fail("boundary node count"); in >> w; for (unsigned x : m.boundaryNodes) { unsigned y; if (!(in >> y) || y != x) return fail("boundary nodes"); }
  R().count("tables"); Snap<D> sn = snapd(m); R().distinct(hashSnap(sn), true); R().sample(Str() << R().desc << " -> " << m.cells.size() << " cells");
  if (m.empty()) bad("empty", "a mesh with cells says it is empty");
  m.neighborDomains.push_back(1); m.sharedNodes.push_back({1}); m.sharedFaces.push_back({2}); m.convexHull.facets.push_back({0, 1}); m.convexHull.holes.push_back({{0, 1}});
  m.clear(); if (!m.empty() || !m.nodes.empty() || !m.cells.empty() || !m.faces.empty() || !m.faceCells.empty() || !m.boundaryNodes.empty() || !m.boundaryFaces.empty() || !m.neighborDomains.empty() || !m.sharedNodes.empty() || !m.sharedFaces.empty() || !m.convexHull.facets.empty() || !m.convexHull.holes.empty()) bad("clear", "something is left after clearing");
}
static void removal(Rng& r) {
  size_t n = r.i(1, 40); std::vector<int> v(n), e; VU del; for (size_t i = 0; i < n; ++i) v[i] = r.i(0, 1000); for (unsigned i = 0; i < n; ++i) if (r.p(r.p(0.5) ? 0.2 : 0.8)) del.push_back(i);
  auto orig = v; std::vector<int> om(n, -1); for (unsigned i = 0; i < n; ++i) if (!std::count(del.begin(), del.end(), i)) { om[i] = e.size(); e.push_back(v[i]); }
  if (del.empty()) for (unsigned i = 0; i < n; ++i) om[i] = om[i];
  std::vector<int> got = polytope::internal::removeElements(v, del); if (v != e) bad("remove_elements", Str() << "removing " << del.size() << " of " << n << " left the wrong ones"); else if (got != om && !del.empty()) bad("remove_map", Str() << "removing " << del.size() << " of " << n << ": wrong old-to-new map");
  R().count("removals");
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); std::string mode = argv[1]; uint64_t seed = atoll(argv[2]); long first = atol(argv[3]), count = atol(argv[4]); R().open(argv[5]);
  for (long c = first; c < first + count; ++c) for (Reps rep; rep.next();) {
    Rng r(mix(mix(seed, fnv(mode.data(), mode.size())), c)); R().begin(c);
    if (mode == "clean") { clean(r); continue; }
    bool three = r.p(0.3);
    if (mode == "derived") for (int k = 0; k < 20; ++k) removal(r);
    if (three) { Tessellation<3, double> m; brickMesh(r, m); R().desc = Str() << "bricks " << m.cells.size(); if (mode == "del") deletions<3>(r, m); else tables<3>(r, m); }
    else { Tessellation<2, double> m; TCase t; if (!polyMesh(r, m, t)) { R().inconclusive("no sound mesh to start from"); continue; } if (mode == "del") deletions<2>(r, m); else tables<2>(r, m); }
  }
  R().finish(); MPI_Finalize();
}

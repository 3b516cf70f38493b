// Sound meshes to start from.
#ifndef VT_MESHES_HH
#define VT_MESHES_HH
#include "tess_case.hh"
namespace vt {
using namespace polytope;

// Sheared bricks in three dimensions, faces shared, with random start corners.
inline void brickMesh(Rng& r, Tessellation<3, double>& m) {
  int nx = r.i(1, 4), ny = r.i(1, 4), nz = r.i(1, 3); double sh[3][3]; for (auto& q : sh) for (auto& x : q) x = r.u(-0.3, 0.3); for (int i = 0; i < 3; ++i) sh[i][i] += 1;
  auto nid = [&](int i, int j, int k) { return unsigned(i + (nx + 1) * (j + (ny + 1) * k)); };
  for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) for (int a = 0; a < 3; ++a) m.nodes.push_back(sh[a][0] * i + sh[a][1] * j + sh[a][2] * k);
  std::map<std::vector<unsigned>, int> fid; m.cells.resize(nx * ny * nz);
  auto face = [&](int c, std::vector<unsigned> f) { auto s = f; std::sort(s.begin(), s.end()); if (!fid.count(s)) { fid[s] = m.faces.size(); std::rotate(f.begin(), f.begin() + r.i(0, 3), f.end()); m.faces.push_back(f); m.faceCells.push_back({c}); m.cells[c].push_back(fid[s]); } else { m.faceCells[fid[s]].push_back(~c); m.cells[c].push_back(~fid[s]); } };
  for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int c = i + nx * (j + ny * k);
    face(c, {nid(i, j, k), nid(i, j, k + 1), nid(i, j + 1, k + 1), nid(i, j + 1, k)}); face(c, {nid(i + 1, j, k), nid(i + 1, j + 1, k), nid(i + 1, j + 1, k + 1), nid(i + 1, j, k + 1)});
    face(c, {nid(i, j, k), nid(i + 1, j, k), nid(i + 1, j, k + 1), nid(i, j, k + 1)}); face(c, {nid(i, j + 1, k), nid(i, j + 1, k + 1), nid(i + 1, j + 1, k + 1), nid(i + 1, j + 1, k)});
    face(c, {nid(i, j, k), nid(i, j + 1, k), nid(i + 1, j + 1, k), nid(i + 1, j, k)}); face(c, {nid(i, j, k + 1), nid(i + 1, j, k + 1), nid(i + 1, j + 1, k + 1), nid(i, j + 1, k + 1)}); }
  std::set<unsigned> bn; for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { m.boundaryFaces.push_back(f); for (unsigned n : m.faces[f]) bn.insert(n); } m.boundaryNodes.assign(bn.begin(), bn.end());
}

// A 2D mesh whose connectivity is sound to begin with.
inline bool polyMesh(Rng& r, Tessellation<2, double>& m, TCase& t, bool anyDomain = true) {
  for (int k = 0; k < 5; ++k) {
    t = makeCase(r, anyDomain ? std::vector<int>{D_UNIT, D_BOX, D_CONVEX, D_STAR, D_CANON, D_HOLES} : std::vector<int>{D_UNIT, D_BOX, D_CONVEX}, 60); BoostTessellator<double> bt; m.clear(); bt.tessellate(t.g, toPLC(t.d), m);
    bool ok = true; M2 s = snap(m); int holes = int(t.d.loops.size()) - 1; Sink q = [&](const std::string&, const std::string&) { ok = false; };
    if (checkShape(s, t.n(), q) && checkTopology(s, holes, q) && ok) { R().desc = Str() << t.d.name << "/" << genName(t.gk) << "/n=" << t.n(); return true; }
  }
  return false;
}

// A 2D mesh made without the library: a sheared grid, some of its cells cut into triangles.
inline void gridMesh(Rng& r, Tessellation<2, double>& m) {
  int nx = r.i(1, 6), ny = r.i(1, 6); double a = r.u(-0.3, 0.3), b = r.u(-0.3, 0.3), sc = std::pow(10.0, r.u(-3, 3)), ox = r.u(-5, 5), oy = r.u(-5, 5);
  auto nid = [&](int i, int j) { return unsigned(i + (nx + 1) * j); };
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { m.nodes.push_back(sc * (ox + i + a * j)); m.nodes.push_back(sc * (oy + j + b * i)); }
  std::map<std::pair<unsigned, unsigned>, int> id;
  auto cell = [&](std::vector<unsigned> l) {
    std::rotate(l.begin(), l.begin() + r.i(0, l.size() - 1), l.end()); int c = m.cells.size(); m.cells.push_back({});
    for (size_t k = 0; k < l.size(); ++k) { unsigned x = l[k], y = l[(k + 1) % l.size()]; auto it = id.find(std::minmax(x, y)); if (it == id.end()) { int f = m.faces.size(); id[std::minmax(x, y)] = f; m.faces.push_back({x, y}); m.faceCells.push_back({c}); m.cells[c].push_back(f); } else { m.faceCells[it->second].push_back(~c); m.cells[c].push_back(~it->second); } }
  };
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) if (r.p(0.3)) { cell({nid(i, j), nid(i + 1, j), nid(i + 1, j + 1)}); cell({nid(i, j), nid(i + 1, j + 1), nid(i, j + 1)}); } else cell({nid(i, j), nid(i + 1, j), nid(i + 1, j + 1), nid(i, j + 1)});
  std::set<unsigned> bn; for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { m.boundaryFaces.push_back(f); for (unsigned n : m.faces[f]) bn.insert(n); } m.boundaryNodes.assign(bn.begin(), bn.end());
}

}
#endif

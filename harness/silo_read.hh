// Reading Silo files back with the Silo library alone.
#ifndef VT_SILO_READ_HH
#define VT_SILO_READ_HH
#include "mesh2d.hh"
#include "Tessellation.hh"
#include "silo.h"
namespace vt {
using namespace polytope;

// ---- Silo ---------------------------------------------------------------------------------
static long siloErrors = 0; static std::string siloWhat;
static void onSilo(char* s) { ++siloErrors; if (siloWhat.size() < 300) siloWhat += std::string(s) + "; "; }

// What one process wrote, and what was found, by component.
struct Content {
  std::vector<std::pair<std::string, uint64_t>> c;
  void add(const std::string& n, const void* p, size_t k) { c.push_back({n, fnv(p, k, 1469598103934665603ULL ^ (k * 77))}); }
  template <class T> void add(const std::string& n, const std::vector<T>& v) { add(n, v.data(), v.size() * sizeof(T)); }
  void sort() { std::sort(c.begin(), c.end()); }
};
struct Out { std::map<std::string, std::vector<double>> f[4]; std::map<std::string, std::vector<int>> t[4]; };
static const char* kindName[4] = {"node", "edge", "face", "cell"};
static const int cent[4] = {DB_NODECENT, DB_EDGECENT, DB_FACECENT, DB_ZONECENT};

template <int D> static Content expected(const Tessellation<D, double>& m, const Out& o, int cycle, bool hasTime, double time) {
  Content e; for (int d = 0; d < D; ++d) { std::vector<double> x; for (size_t i = 0; i < m.nodes.size() / D; ++i) x.push_back(m.nodes[D * i + d]); e.add(Str() << "coords" << d, x); }
  std::vector<int> nodes, conn[3], hull[3], bnd;
  if (D == 2) {
    for (auto& c : m.cells) { nodes.push_back(c.size()); for (int f : c) nodes.push_back(f < 0 ? m.faces[~f][1] : m.faces[f][0]); }
    e.add("zones", nodes);
    for (unsigned f : m.boundaryFaces) { bnd.push_back(m.faces[f][0]); bnd.push_back(m.faces[f][1]); }
    e.add("boundary", bnd);
  } else {
    for (auto& f : m.faces) { nodes.push_back(f.size()); nodes.insert(nodes.end(), f.begin(), f.end()); }
    for (auto& c : m.cells) { nodes.push_back(c.size()); nodes.insert(nodes.end(), c.begin(), c.end()); }
    std::vector<char> ext(m.faces.size(), 0); for (unsigned f : m.boundaryFaces) ext[f] = 1;
    e.add("zones", nodes); e.add("boundary", ext);
  }
  for (auto& c : m.cells) { conn[0].push_back(c.size()); for (int f : c) conn[1].push_back(absID(f)); }
  for (auto& fc : m.faceCells) { conn[2].push_back(fc.front()); conn[2].push_back(fc.back()); }
  e.add("conn.ncellfaces", conn[0]); e.add("conn.cellfaces", conn[1]); e.add("conn.facecells", conn[2]);
  hull[0].push_back(m.convexHull.facets.size()); for (auto& f : m.convexHull.facets) { hull[1].push_back(f.size()); hull[2].insert(hull[2].end(), f.begin(), f.end()); }
  e.add("convexhull.nfacets", hull[0]); e.add("convexhull.nfacetnodes", hull[1]); e.add("convexhull.facetnodes", hull[2]);
  for (int k = 0; k < 4; ++k) { for (auto& kv : o.f[k]) e.add(std::string(kindName[k]) + " field " + kv.first, kv.second); for (auto& kv : o.t[k]) e.add(std::string(kindName[k]) + "_tags." + kv.first, kv.second); }
  if (cycle >= 0) e.add("cycle", &cycle, 4); if (hasTime) e.add("time", &time, 8);
  e.sort(); return e;
}
// Read back one block with the Silo library alone.
static Content readBlock(DBfile* f, const std::string& dir, int D, const Out& names, int cycle, bool hasTime) {
  Content e; DBSetDir(f, dir.c_str());
  DBucdmesh* m = DBGetUcdmesh(f, "mesh"); if (!m) { e.c.push_back({"no mesh", 1}); return e; }
  for (int d = 0; d < D; ++d) if (m->datatype == DB_DOUBLE && d < m->ndims) e.add(Str() << "coords" << d, m->coords[d], 8 * size_t(m->nnodes));
  if (D == 2) {
    if (DBzonelist* z = DBGetZonelist(f, "mesh_zonelist")) {
      std::vector<int> v; int p = 0; bool ok = true;
      // each zone: how many, then its nodes, the first one repeated
      for (int i = 0; i < z->nzones && p < z->lnodelist; ++i) { int k = z->nodelist[p++]; if (k < 1 || p + k > z->lnodelist || z->nodelist[p] != z->nodelist[p + k - 1]) { ok = false; break; } v.push_back(k - 1); v.insert(v.end(), z->nodelist + p, z->nodelist + p + k - 1); p += k; }
      if (ok && p == z->lnodelist) e.add("zones", v); DBFreeZonelist(z);
    }
    if (DBfacelist* l = DBGetFacelist(f, "boundary_faces")) { if (l->lnodelist == 2 * l->nfaces) e.add("boundary", l->nodelist, 4 * size_t(l->lnodelist)); DBFreeFacelist(l); } else e.add("boundary", nullptr, 0);
  } else if (DBphzonelist* z = DBGetPHZonelist(f, "mesh_zonelist")) {
    std::vector<int> v; int p = 0; bool ok = z->lo_offset == 0 && z->hi_offset == z->nzones - 1;
    for (int i = 0; i < z->nfaces; ++i) { v.push_back(z->nodecnt[i]); if (p + z->nodecnt[i] > z->lnodelist) { ok = false; break; } v.insert(v.end(), z->nodelist + p, z->nodelist + p + z->nodecnt[i]); p += z->nodecnt[i]; }
    p = 0; for (int i = 0; i < z->nzones; ++i) { v.push_back(z->facecnt[i]); if (p + z->facecnt[i] > z->lfacelist) { ok = false; break; } v.insert(v.end(), z->facelist + p, z->facelist + p + z->facecnt[i]); p += z->facecnt[i]; }
    if (ok) e.add("zones", v); if (z->extface) e.add("boundary", z->extface, size_t(z->nfaces)); DBFreePHZonelist(z);
  }
  if (cycle >= 0) e.add("cycle", &m->cycle, 4); if (hasTime) e.add("time", &m->dtime, 8);
  auto comp = [&](const std::string& a) {
    DBcompoundarray* c = DBGetCompoundarray(f, a.c_str()); if (!c) return;
    size_t p = 0; for (int i = 0; i < c->nelems; ++i) { if (c->datatype != DB_INT || p + c->elemlengths[i] > size_t(c->nvalues)) break; std::vector<int> v((int*)c->values + p, (int*)c->values + p + c->elemlengths[i]); if (a == "conn" && std::string(c->elemnames[i]) == "cellfaces") for (int& x : v) x = absID(x); e.add(a + "." + c->elemnames[i], v); p += c->elemlengths[i]; }
    DBFreeCompoundarray(c);
  };
  comp("conn"); comp("convexhull");
  for (int k = 0; k < 4; ++k) {
    if (!names.t[k].empty()) comp(std::string(kindName[k]) + "_tags");
    for (auto& kv : names.f[k]) if (DBucdvar* v = DBGetUcdvar(f, kv.first.c_str())) { if (v->datatype == DB_DOUBLE && v->centering == cent[k] && v->nvals == 1 && v->meshname && std::string(v->meshname) == "mesh") e.add(std::string(kindName[k]) + " field " + kv.first, v->vals[0], 8 * size_t(v->nels)); DBFreeUcdvar(v); }
  }
  DBFreeUcdmesh(m); e.sort(); return e;
}


}
#endif

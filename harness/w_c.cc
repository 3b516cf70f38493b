// The C interface against the C++ library.
//   w_c MODE SEED FIRST COUNT OUT      MODE: tess, plc, silo
#include "meshes.hh"
#include "silo_read.hh"
#include "polytope_c.h"
#include "mpi.h"
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vt;
static void bad(const std::string& k, const std::string& s) { R().viol(k, s); }
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap() { return 0; }
#endif

// Every array of the C mesh against the C++ mesh.
template <int D> static bool sameMesh(const polytope_tessellation_t* c, const Tessellation<D, double>& t) {
  auto B = [&](const char* k, const std::string& s) { bad(k, s); return false; };
  if (c->dimension != D) return B("c_dimension", "");
  if (size_t(c->num_nodes) != t.nodes.size() / D || (c->num_nodes && memcmp(c->nodes, t.nodes.data(), 8 * t.nodes.size()))) return B("c_nodes", Str() << c->num_nodes << " nodes, C++ " << t.nodes.size() / D);
  auto rows = [&](const char* k, int n, const int* off, const auto* data, const auto& v) {
    if (size_t(n) != v.size()) return B(k, Str() << n << " rows, C++ " << v.size());
    if (n == 0 && !off) return true;
    if (off[0] != 0) return B(k, "the first offset is not 0");
    for (int i = 0; i < n; ++i) { if (off[i + 1] - off[i] != int(v[i].size())) return B(k, Str() << "row " << i << " has another length"); for (size_t j = 0; j < v[i].size(); ++j) if (data[off[i] + j] != v[i][j]) return B(k, Str() << "row " << i << " differs"); }
    return true;
  };
  if (!rows("c_cells", c->num_cells, c->cell_offsets, c->cell_faces, t.cells)) return false;
  if (!rows("c_faces", c->num_faces, c->face_offsets, c->face_nodes, t.faces)) return false;
  if (!rows("c_shared_nodes", c->num_neighbor_domains, c->shared_node_domain_offsets, c->shared_nodes, t.sharedNodes)) return false;
  if (!rows("c_shared_faces", c->num_neighbor_domains, c->shared_face_domain_offsets, c->shared_faces, t.sharedFaces)) return false;
  auto list = [&](const char* k, int n, const unsigned* p, const std::vector<unsigned>& v) { if (size_t(n) != v.size() || !std::equal(v.begin(), v.end(), p)) return B(k, Str() << n << " entries, C++ " << v.size()); return true; };
  if (!list("c_boundary_nodes", c->num_boundary_nodes, c->boundary_nodes, t.boundaryNodes) || !list("c_boundary_faces", c->num_boundary_faces, c->boundary_faces, t.boundaryFaces) || !list("c_neighbors", c->num_neighbor_domains, c->neighbor_domains, t.neighborDomains)) return false;
  for (int f = 0; f < c->num_faces; ++f) { const auto& fc = t.faceCells[f]; if (c->face_cells[2 * f] != fc[0] || c->face_cells[2 * f + 1] != (fc.size() == 2 ? fc[1] : -1)) return B("c_face_cells", Str() << "face " << f); if (fc.size() == 2 && fc[1] == -1) return B("c_face_cells_ambiguous", Str() << "face " << f << ": -1 stands for cell 0 reversed and for no cell"); }
  if (t.convexHull.empty() != (c->convex_hull == nullptr)) return B("c_hull", "convex hull missing or stale");
  if (c->convex_hull) for (size_t f = 0; f < t.convexHull.facets.size(); ++f) { std::vector<int> v(polytope_plc_num_facet_nodes(c->convex_hull, f)); polytope_plc_get_facet_nodes(c->convex_hull, f, v.data()); if (v != t.convexHull.facets[f]) return B("c_hull", Str() << "hull facet " << f); }
  return true;
}
static bool empty(const polytope_tessellation_t* c) {
  return !c->num_nodes && !c->num_cells && !c->num_faces && !c->num_boundary_nodes && !c->num_boundary_faces && !c->num_neighbor_domains && !c->nodes && !c->cell_offsets && !c->cell_faces && !c->face_offsets && !c->face_nodes && !c->boundary_nodes && !c->boundary_faces && !c->face_cells && !c->convex_hull && !c->neighbor_domains && !c->shared_nodes && !c->shared_faces && !c->node_cells;
}
static std::string slurp(FILE* f) { std::string s; rewind(f); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); return s; }
// snprintf and fprintf forms against the C++ output operator.
template <class F, class G> static void printed(Rng& r, const std::string& want, const char* k, F snp, G fpr) {
  FILE* f = tmpfile(); fpr(f); fflush(f); std::string got = slurp(f); fclose(f);
  if (got != want) bad(std::string(k) + "_fprintf", Str() << "printed " << got.size() << " characters, the C++ form has " << want.size() << ", or they differ");
  int n = r.p(0.3) ? int(want.size()) + 1 + r.i(0, 20) : r.i(1, int(want.size()) + 1); std::vector<char> buf(n + 8, 'x'); for (int i = 0; i < n; ++i) buf[i] = char(r.next());
  snp(buf.data(), n); for (int i = 0; i < 8; ++i) if (buf[n + i] != 'x') { bad(std::string(k) + "_snprintf_overrun", Str() << "wrote past the " << n << " characters given"); return; }
  std::string w = want.substr(0, n - 1); if (memchr(buf.data(), 0, n) == nullptr || w != buf.data()) bad(std::string(k) + "_snprintf", Str() << "limit " << n << ": not the first characters of the C++ form");
}
static polytope_plc_t* cplc(const ReducedPLC<2, double>& p) {
  polytope_plc_t* c = polytope_plc_new(2);
  for (auto& f : p.facets) { int i = polytope_plc_add_facet(c); for (int n : f) polytope_plc_add_facet_node(c, i, n); }
  for (auto& h : p.holes) { int k = polytope_plc_add_hole(c); for (auto& f : h) { int i = polytope_plc_add_hole_facet(c, k); for (int n : f) polytope_plc_add_hole_facet_node(c, k, i, n); } }
  return c;
}
static uint64_t tessSequence(Rng r, bool judge) {
  uint64_t h = 1; polytope_tessellator_t* T = boost_tessellator_new(); BoostTessellator<double> bt; polytope_tessellation_t* m = polytope_tessellation_new(2);
  if (judge) {
    if (!empty(m)) bad("c_new", "a new tessellation is not empty");
    if (std::string(polytope_tessellator_name(T)) != bt.name()) bad("c_name", "the name differs"); if (polytope_tessellator_dimension(T) != 2) bad("c_tess_dimension", ""); if (polytope_tessellator_degeneracy(T) != bt.degeneracy()) bad("c_degeneracy", ""); if (polytope_tessellator_handles_plcs(T) != bt.handlesPLCs()) bad("c_handles", "");
  }
  int steps = r.i(1, 4); std::string desc;
  for (int s = 0; s < steps; ++s) {
    TCase t = makeCase(r, {D_UNIT, D_BOX, D_CONVEX, D_STAR, D_CANON, D_HOLES}, 25); int how = r.i(0, 3); if (how == 0 && t.n() < 2) how = 1;
    auto g = t.g; ReducedPLC<2, double> p = toPLC(t.d); auto pts = p.points; double lo[2] = {t.d.lo.x, t.d.lo.y}, hi[2] = {t.d.hi.x, t.d.hi.y}; Tessellation<2, double> x;
    desc += Str() << " " << (how == 0 ? "unbounded" : how == 1 ? "box" : "plc") << ":" << t.d.name << "/" << genName(t.gk) << "/n=" << t.n(); R().desc = desc;
    // whatever the mesh was used for before must not matter
    if (r.p(0.3)) { polytope_tessellation_clear(m); if (judge && !empty(m)) bad("c_clear", "something is left after clearing"); if (r.p(0.3)) polytope_tessellation_clear(m); }
    if (r.p(0.1)) { polytope_tessellation_free(m); m = polytope_tessellation_new(2); }
    if (how == 0) { polytope_tessellator_tessellate_unbounded(T, g.data(), t.n(), m); bt.tessellate(t.g, x); }
    else if (how == 1) { polytope_tessellator_tessellate_in_box(T, g.data(), t.n(), lo, hi, m); bt.tessellate(t.g, lo, hi, x); }
    else { polytope_plc_t* c = cplc(p); polytope_tessellator_tessellate_in_plc(T, g.data(), t.n(), pts.data(), pts.size() / 2, c, m); polytope_plc_free(c); bt.tessellate(t.g, p.points, p, x); }
    if (judge) {
      if (g != t.g || pts != p.points || lo[0] != t.d.lo.x || hi[1] != t.d.hi.y) bad("c_input_changed", "an input array was changed");
      if (!sameMesh<2>(m, x)) break;
      if (r.p(0.3)) { std::ostringstream o; o << x; printed(r, o.str(), "c_mesh", [&](char* b, int n) { polytope_tessellation_snprintf(m, b, n); }, [&](FILE* f) { polytope_tessellation_fprintf(m, f); }); } else r.next();
      R().count("c_meshes"); R().count("c_cells", m->num_cells); h = mix(h, hashMesh(snap(x)));
    }
  }
  polytope_tessellation_free(m); polytope_tessellator_free(T); return h;
}
static void tess(Rng& r) {
  uint64_t h = tessSequence(r, true); R().distinct(h, true); R().sample(R().desc);
  // Everything freed: repeating the sequence leaves the heap as it was.
  if (heap() && r.p(0.3)) { R().desc += " (leak)"; tessSequence(r, false); size_t a = heap(); tessSequence(r, false); size_t b = heap(); R().count("leak_checks"); if (a != b) bad("c_leak", Str() << long(b) - long(a) << " bytes more on the heap after everything was freed"); }
}

// ---- PLCs: random operations beside a model -----------------------------------------
template <int D> static void plc(Rng& r) {
  PLC<D, double> m; size_t before = heap(); polytope_plc_t* c = polytope_plc_new(D); int ops = r.i(1, 60); R().desc = Str() << D << "D " << ops << " operations";
  bool stop = false;
  for (int k = 0; k < ops && !stop; ++k) {
    switch (r.i(0, 8)) {
      case 0: case 1: { int i = polytope_plc_add_facet(c); m.facets.push_back({}); if (i != int(m.facets.size()) - 1) { bad("plc_facet_index", Str() << i); stop = true; } break; }
      case 2: case 3: if (!m.facets.empty()) { int f = r.i(0, m.facets.size() - 1), n = r.i(0, 9999); polytope_plc_add_facet_node(c, f, n); m.facets[f].push_back(n); } break;
      case 4: { int i = polytope_plc_add_hole(c); m.holes.push_back({}); if (i != int(m.holes.size()) - 1) { bad("plc_hole_index", Str() << i); stop = true; } break; }
      case 5: if (!m.holes.empty()) { int h = r.i(0, m.holes.size() - 1); int i = polytope_plc_add_hole_facet(c, h); m.holes[h].push_back({}); if (i != int(m.holes[h].size()) - 1) { bad("plc_hole_facet_index", Str() << i); stop = true; } } break;
      case 6: case 7: if (!m.holes.empty()) { int h = r.i(0, m.holes.size() - 1); if (!m.holes[h].empty()) { int f = r.i(0, m.holes[h].size() - 1), n = r.i(0, 9999); polytope_plc_add_hole_facet_node(c, h, f, n); m.holes[h][f].push_back(n); } } break;
      default: if (r.p(0.1)) { polytope_plc_clear(c); m.facets.clear(); m.holes.clear(); } else if (r.p(0.3)) { size_t need = D; for (size_t f = 0; f < m.facets.size(); ++f) while (m.facets[f].size() < need) { polytope_plc_add_facet_node(c, f, 7); m.facets[f].push_back(7); } for (size_t h = 0; h < m.holes.size(); ++h) for (size_t f = 0; f < m.holes[h].size(); ++f) while (m.holes[h][f].size() < need) { polytope_plc_add_hole_facet_node(c, h, f, 8); m.holes[h][f].push_back(8); } }
    }
    if (stop) break;
    for (size_t f = 0; f < m.facets.size(); ++f) { int n = polytope_plc_num_facet_nodes(c, f); std::vector<int> v(n + 1, -7); if (n == int(m.facets[f].size())) { polytope_plc_get_facet_nodes(c, f, v.data()); v.pop_back(); } if (v != m.facets[f]) { bad("plc_facet", Str() << "facet " << f); stop = true; break; } }
    for (size_t h = 0; h < m.holes.size() && !stop; ++h) { if (polytope_plc_num_hole_facets(c, h) != int(m.holes[h].size())) { bad("plc_hole_facets", Str() << "hole " << h); stop = true; break; } for (size_t f = 0; f < m.holes[h].size(); ++f) { int n = polytope_plc_num_hole_facet_nodes(c, h, f); std::vector<int> v(n + 1, -7); if (n == int(m.holes[h][f].size())) { polytope_plc_get_hole_facet_nodes(c, h, f, v.data()); v.pop_back(); } if (v != m.holes[h][f]) { bad("plc_hole_facet", Str() << "hole " << h << " facet " << f); stop = true; break; } } }
    if (polytope_plc_empty(c) != (m.facets.empty() && m.holes.empty())) { bad("plc_empty", "wrong answer"); break; }
    bool valid = true; auto ok = [&](const std::vector<int>& f) { return D == 2 ? f.size() == 2 : f.size() >= 3; }; for (auto& f : m.facets) if (!ok(f)) valid = false; for (auto& h : m.holes) for (auto& f : h) if (!ok(f)) valid = false;
    if (polytope_plc_valid(c) != valid) { bad("plc_valid", Str() << "says " << !valid); break; }
    R().count(valid ? "plc_valid" : "plc_invalid");
  }
  std::ostringstream o; o << m; printed(r, o.str(), "plc", [&](char* b, int n) { polytope_plc_snprintf(c, b, n); }, [&](FILE* f) { polytope_plc_fprintf(c, f); });
  uint64_t h = D; for (auto& f : m.facets) h = fnv(f.data(), f.size() * 4, h ^ 3); for (auto& q : m.holes) for (auto& f : q) h = fnv(f.data(), f.size() * 4, h ^ 5);
  polytope_plc_free(c); R().count("plc_sequences"); R().distinct(h, true); R().sample(R().desc); (void)before;
}

// ---- writing Silo files from C ----------------------------------------------------------
template <int D> static void fillC(const Tessellation<D, double>& t, polytope_tessellation_t* c) {
  c->num_nodes = t.nodes.size() / D; c->nodes = (double*)malloc(8 * t.nodes.size()); std::copy(t.nodes.begin(), t.nodes.end(), c->nodes);
  size_t n = 0; for (auto& v : t.cells) n += v.size(); c->num_cells = t.cells.size(); c->cell_offsets = (int*)malloc(4 * (t.cells.size() + 1)); c->cell_faces = (int*)malloc(4 * n); n = 0; for (size_t i = 0; i < t.cells.size(); ++i) { c->cell_offsets[i] = n; for (int f : t.cells[i]) c->cell_faces[n++] = f; } c->cell_offsets[t.cells.size()] = n;
  n = 0; for (auto& v : t.faces) n += v.size(); c->num_faces = t.faces.size(); c->face_offsets = (int*)malloc(4 * (t.faces.size() + 1)); c->face_nodes = (unsigned*)malloc(4 * n); n = 0; for (size_t i = 0; i < t.faces.size(); ++i) { c->face_offsets[i] = n; for (int f : t.faces[i]) c->face_nodes[n++] = f; } c->face_offsets[t.faces.size()] = n;
  c->num_boundary_nodes = t.boundaryNodes.size(); c->boundary_nodes = (unsigned*)malloc(4 * t.boundaryNodes.size()); std::copy(t.boundaryNodes.begin(), t.boundaryNodes.end(), c->boundary_nodes);
  c->num_boundary_faces = t.boundaryFaces.size(); c->boundary_faces = (unsigned*)malloc(4 * t.boundaryFaces.size()); std::copy(t.boundaryFaces.begin(), t.boundaryFaces.end(), c->boundary_faces);
  c->face_cells = (int*)malloc(8 * t.faces.size()); for (size_t f = 0; f < t.faces.size(); ++f) { c->face_cells[2 * f] = t.faceCells[f][0]; c->face_cells[2 * f + 1] = t.faceCells[f].size() == 2 ? t.faceCells[f][1] : -1; }
}
template <int D> static void silo(Rng& r, Tessellation<D, double>& m, const std::string& dir) {
  polytope_tessellation_t* c = polytope_tessellation_new(D); fillC<D>(m, c); Out o; size_t num[4] = {m.nodes.size() / D, m.faces.size(), m.faces.size(), m.cells.size()}; bool tags = r.p(0.6);
  for (int k = 0; k < 4; ++k) { for (int i = r.i(0, 2); i > 0; --i) { auto& v = o.f[k][Str() << kindName[k] << "f" << i]; v.resize(num[k]); for (auto& x : v) x = r.u(-5, 5); } if (tags) for (int i = r.i(0, 2); i > 0; --i) { auto& v = o.t[k][Str() << kindName[k] << "t" << i]; for (int q = r.i(1, 6); q > 0; --q) v.push_back(r.i(0, num[k] - 1)); } }
  std::vector<char*> fn[4], tn[4]; std::vector<double*> fv[4]; std::vector<int> ts[4]; std::vector<int*> tv[4];
  for (int k = 0; k < 4; ++k) { for (auto& x : o.f[k]) { fn[k].push_back((char*)x.first.c_str()); fv[k].push_back(x.second.data()); } for (auto& x : o.t[k]) { tn[k].push_back((char*)x.first.c_str()); ts[k].push_back(x.second.size()); tv[k].push_back(x.second.data()); } }
  int cycle = r.p(0.5) ? r.i(0, 9) : -1; double time = r.u(0, 9); R().desc = Str() << D << "D " << m.cells.size() << " cells, cycle " << cycle << (tags ? " tags" : ""); siloErrors = 0; siloWhat.clear(); std::string sub = dir + "/out";
  if (tags) polytope_write_silo_with_tags(c, fn[0].size(), fn[0].data(), fv[0].data(), tn[0].size(), tn[0].data(), ts[0].data(), tv[0].data(), fn[1].size(), fn[1].data(), fv[1].data(), tn[1].size(), tn[1].data(), ts[1].data(), tv[1].data(), fn[2].size(), fn[2].data(), fv[2].data(), tn[2].size(), tn[2].data(), ts[2].data(), tv[2].data(), fn[3].size(), fn[3].data(), fv[3].data(), tn[3].size(), tn[3].data(), ts[3].data(), tv[3].data(), "c", sub.c_str(), cycle, time, MPI_COMM_WORLD, 1, 5);
  else polytope_write_silo(c, fn[0].size(), fn[0].data(), fv[0].data(), fn[1].size(), fn[1].data(), fv[1].data(), fn[2].size(), fn[2].data(), fv[2].data(), fn[3].size(), fn[3].data(), fv[3].data(), "c", sub.c_str(), cycle, time, MPI_COMM_WORLD, 1, 5);
  if (siloErrors) bad("c_silo_error", siloWhat);
  if (getenv("VT_LEAK")) { polytope_tessellation_free(c); return; }           // reading back is this monitor's own business
  Content e = expected<D>(m, o, cycle, true, time), got; std::string file = sub + "/0/c" + (cycle >= 0 ? (Str() << "-" << cycle).str() : "") + ".silo"; DBfile* g = DBOpen(file.c_str(), DB_HDF5, DB_READ);
  if (!g) bad("c_silo_no_file", "no file " + file); else { got = readBlock(g, "/domain_0", D, o, cycle, true); DBClose(g); if (e.c != got.c) { for (auto& x : e.c) if (!std::count(got.c.begin(), got.c.end(), x)) { bad("c_silo_differs", x.first + " is not what was passed in"); break; } if (got.c.size() != e.c.size()) bad("c_silo_items", "more or fewer items in the file than passed in"); } }
  R().count("c_silo_files"); R().distinct(mix(fnv(m.nodes.data(), m.nodes.size() * 8), e.c.size()), true); R().sample(R().desc); polytope_tessellation_free(c);
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); std::string mode = argv[1]; uint64_t seed = atoll(argv[2]); long first = atol(argv[3]), count = atol(argv[4]); R().open(argv[5]);
  DBShowErrors(DB_ALL, onSilo); const char* sc = getenv("VT_SCRATCH"); std::string root = sc ? sc : "/tmp/w/scratch_io";
  for (long c = first; c < first + count; ++c) for (Reps rep; rep.next();) {
    Rng r(mix(mix(seed, fnv(mode.data(), mode.size())), c)); R().begin(c);
    if (mode == "tess") tess(r);
    else if (mode == "plc") { if (r.p(0.5)) plc<2>(r); else plc<3>(r); }
    else {
      std::string dir = root + "/c" + std::to_string(c); mkdir(dir.c_str(), 0700);
      if (r.p(0.4)) { Tessellation<3, double> m; brickMesh(r, m); silo<3>(r, m, dir); } else { Tessellation<2, double> m; gridMesh(r, m); silo<2>(r, m, dir); }
      if (dir.find("/c") != std::string::npos && dir.size() > 6) { std::string cmd = "rm -rf '" + dir + "'"; if (system(cmd.c_str())) {} }
    }
  }
  R().finish(); MPI_Finalize();
}

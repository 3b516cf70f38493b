// Meshes made by several processes together.
//   w_dist MODE SEED FIRST COUNT OUT      MODE: serial, dist, clean, check, any      (under mpirun)
#include "tess_case.hh"
#include "MeshEditor.hh"
#include "checkDistributedTessellation.hh"
#include "mpi.h"
using namespace vt;
using namespace polytope;
typedef std::vector<double> VD;
static int rank_, np_;
static void bad(const std::string& k, const std::string& s) { R().viol(k, s); }

// ---- everyone's mesh to process 0 ----------------------------------------------------------
template <class T> static void put(VD& b, const std::vector<T>& v) { b.push_back(v.size()); for (auto x : v) b.push_back(double(x)); }
template <class T> static void put(VD& b, const std::vector<std::vector<T>>& v) { b.push_back(v.size()); for (auto& x : v) put(b, x); }
template <class T> static void get(const double*& p, std::vector<T>& v) { v.resize(size_t(*p++)); for (auto& x : v) x = T(*p++); }
template <class T> static void get(const double*& p, std::vector<std::vector<T>>& v) { v.resize(size_t(*p++)); for (auto& x : v) get(p, x); }
static std::vector<M2> gather(const M2& m) {
  VD b; put(b, m.nodes); put(b, m.cells); put(b, m.faces); put(b, m.faceCells); put(b, m.boundaryNodes); put(b, m.boundaryFaces); put(b, m.neighborDomains); put(b, m.sharedNodes); put(b, m.sharedFaces);
  std::vector<int> len(np_), at(np_, 0); int l = b.size(); MPI_Gather(&l, 1, MPI_INT, len.data(), 1, MPI_INT, 0, MPI_COMM_WORLD); int tot = 0; for (int i = 0; i < np_ && !rank_; ++i) { at[i] = tot; tot += len[i]; }
  VD all(tot + 1); MPI_Gatherv(b.data(), l, MPI_DOUBLE, all.data(), len.data(), at.data(), MPI_DOUBLE, 0, MPI_COMM_WORLD);
  std::vector<M2> r; if (!rank_) for (int i = 0; i < np_; ++i) { const double* p = &all[at[i]]; M2 q; get(p, q.nodes); get(p, q.cells); get(p, q.faces); get(p, q.faceCells); get(p, q.boundaryNodes); get(p, q.boundaryFaces); get(p, q.neighborDomains); get(p, q.sharedNodes); get(p, q.sharedFaces); r.push_back(q); }
  return r;
}

// ---- what the processes' meshes must satisfy together ---------------------------------------
typedef std::pair<P, P> Edge;
static Edge edgeOf(const M2& m, unsigned f) { P a = m.node(m.faces[f][0]), b = m.node(m.faces[f][1]); return b < a ? Edge{b, a} : Edge{a, b}; }
static bool same(P a, P b, double tol) { return tol == 0 ? a.x == b.x && a.y == b.y : dist(a, b) <= tol; }
static bool shapeOK(const std::vector<M2>& ms, const std::vector<size_t>& ncells, const char* pre, bool holes) {
  bool ok = true;
  for (int r = 0; r < np_; ++r) {
    const M2& m = ms[r]; Sink s = [&](const std::string& k, const std::string& d) { if (holes && k == "cell_face_twice" && d.find("direction") == std::string::npos) return; bad(std::string(pre) + k, Str() << "process " << r << ": " << d); ok = false; };
    if (!checkShape(m, ncells[r], s)) continue;
    checkTopology(m, -1, s);
    if (m.sharedNodes.size() != m.neighborDomains.size() || m.sharedFaces.size() != m.neighborDomains.size()) s("shared_sizes", "one list of shared nodes and faces per neighbour is missing");
    for (size_t i = 0; i < m.neighborDomains.size(); ++i) if (int(m.neighborDomains[i]) >= np_ || int(m.neighborDomains[i]) == r || (i && m.neighborDomains[i] <= m.neighborDomains[i - 1])) s("neighbors", "neighbour domains are not a sorted list of other processes");
    for (auto& v : m.sharedNodes) { std::set<unsigned> u(v.begin(), v.end()); if (u.size() != v.size()) s("shared_twice", "a node is listed twice"); for (unsigned n : v) if (2 * n >= m.nodes.size()) { s("shared_range", "node out of range"); break; } }
    for (auto& v : m.sharedFaces) { std::set<unsigned> u(v.begin(), v.end()); if (u.size() != v.size()) s("shared_twice", "a face is listed twice"); for (unsigned n : v) if (n >= m.faces.size()) { s("shared_range", "face out of range"); break; } }
  }
  return ok;
}
// Shared elements: symmetric, in the same order, at bit-identical positions.
static bool judgeShared(const std::vector<M2>& ms, const char* pre) {
  auto B = [&](const char* k, const std::string& s) { bad(std::string(pre) + k, s); return false; };
  for (int a = 0; a < np_; ++a) for (size_t i = 0; i < ms[a].neighborDomains.size(); ++i) {
    int b = ms[a].neighborDomains[i]; auto it = std::find(ms[b].neighborDomains.begin(), ms[b].neighborDomains.end(), unsigned(a));
    if (it == ms[b].neighborDomains.end()) return B("asymmetric", Str() << a << " names " << b << " a neighbour but not the other way around");
    size_t j = it - ms[b].neighborDomains.begin(); auto& na = ms[a].sharedNodes[i]; auto& nb = ms[b].sharedNodes[j]; auto& fa = ms[a].sharedFaces[i]; auto& fb = ms[b].sharedFaces[j];
    if (na.size() != nb.size()) return B("node_count", Str() << a << " shares " << na.size() << " nodes with " << b << ", which shares " << nb.size());
    if (fa.size() != fb.size()) return B("face_count", Str() << a << " shares " << fa.size() << " faces with " << b << ", which shares " << fb.size());
    if (na.empty() && fa.empty()) return B("empty", Str() << a << " and " << b << " are neighbours that share nothing");
    for (size_t k = 0; k < na.size(); ++k) if (!same(ms[a].node(na[k]), ms[b].node(nb[k]), 0)) return B("node_position", Str() << "shared node " << k << " of " << a << " and " << b << " is at different positions, " << dist(ms[a].node(na[k]), ms[b].node(nb[k])) << " apart");
    for (size_t k = 0; k < fa.size(); ++k) { Edge p = edgeOf(ms[a], fa[k]), q = edgeOf(ms[b], fb[k]); if (!same(p.first, q.first, 0) || !same(p.second, q.second, 0)) return B("face_position", Str() << "shared face " << k << " of " << a << " and " << b << " has different ends " << p.first.x << "," << p.first.y << " " << p.second.x << "," << p.second.y << " vs " << dist(p.first,q.first) << " " << dist(p.second,q.second) << " flip " << dist(p.first,q.second) << " " << dist(p.second,q.first)); }
    R().count("shared_nodes", na.size()); R().count("shared_faces", fa.size());
  }
  return true;
}
// Every face of a process that is not on the mesh's outside is shared with exactly one other process, every
// node at a position another process has too is shared with it.
static bool judgeComplete(const std::vector<M2>& ms, const char* pre) {
  auto B = [&](const char* k, const std::string& s) { bad(std::string(pre) + k, s); return false; };
  std::vector<std::map<P, unsigned>> at(np_); std::vector<std::map<Edge, unsigned>> es(np_);
  for (int a = 0; a < np_; ++a) { for (size_t i = 0; i < ms[a].nodes.size() / 2; ++i) at[a][ms[a].node(i)] = i; for (size_t f = 0; f < ms[a].faces.size(); ++f) es[a][edgeOf(ms[a], f)] = f; }
  for (int a = 0; a < np_; ++a) for (int b = 0; b < np_; ++b) if (a != b) {
    std::set<unsigned> n, f; for (auto& x : at[a]) if (at[b].count(x.first)) n.insert(x.second); for (auto& x : es[a]) if (es[b].count(x.first)) f.insert(x.second);
    auto it = std::find(ms[a].neighborDomains.begin(), ms[a].neighborDomains.end(), unsigned(b)); std::set<unsigned> hn, hf; if (it != ms[a].neighborDomains.end()) { size_t i = it - ms[a].neighborDomains.begin(); hn.insert(ms[a].sharedNodes[i].begin(), ms[a].sharedNodes[i].end()); hf.insert(ms[a].sharedFaces[i].begin(), ms[a].sharedFaces[i].end()); }
    if (hn != n) return B("nodes_missed", Str() << a << " and " << b << " have " << n.size() << " node positions in common, " << hn.size() << " are listed");
    if (hf != f) return B("faces_missed", Str() << a << " and " << b << " have " << f.size() << " faces in common, " << hf.size() << " are listed");
  }
  return true;
}
static bool samePoly(Loop p, Loop q, double tol) {
  if (p.size() != q.size()) return false;
  for (size_t s = 0; s < p.size(); ++s) { bool ok = true; for (size_t i = 0; ok && i < p.size(); ++i) ok = same(p[(s + i) % p.size()], q[i], tol); if (ok) return true; }
  return false;
}
// Same up to points that lie closer together than the tolerance.
static Loop thin(const Loop& l, double tol) { Loop o; for (size_t i = 0; i < l.size(); ++i) if (dist(l[i], l[(i + 1) % l.size()]) > tol) o.push_back(l[i]); return o; }

struct Case { TCase t; int kind; std::vector<VD> part; VD all; std::vector<size_t> off; std::string how; };       // kind: 0 no boundary, 1 box, 2 PLC
static Case make1(Rng& r, int least);
static bool any_ = false;                          // the recorded findings' classes too (modes serial, check, any)
static Case make(Rng& r, int least) { for (;;) { std::string d = R().desc; Case c = make1(r, least); if (any_ || c.t.cls.empty()) return c; R().desc = d; } }
static Case make1(Rng& r, int least) {
  Case c; c.kind = r.i(0, 2); int n = r.i(np_ * std::max(least, 2), np_ * 20); TCase& t = c.t;
  for (;;) {
    t.dk = c.kind == 1 ? D_UNIT : r.i(0, D_NKINDS - 1); t.gk = r.i(0, G_NKINDS - 1); t.d = makeDom(r, t.dk); if (c.kind == 1 && !t.d.box) continue; if (c.kind != 2 && !t.d.convex) continue;
    t.g = makeGens(r, t.d, t.gk, n); if (int(t.n()) >= np_ * least) break;
  }
  classify(t); int how = r.i(0, 3); c.part.resize(np_); std::vector<int> own(t.n()); const char* names[] = {"random", "strips", "nearest", "uneven"}; c.how = names[how];
  VD seeds; for (int k = 0; k < np_; ++k) { int j = r.i(0, t.n() - 1); seeds.push_back(t.g[2 * j]); seeds.push_back(t.g[2 * j + 1]); } double a = r.u(0, 6.28); std::vector<size_t> o(t.n()); for (size_t i = 0; i < o.size(); ++i) o[i] = i;
  std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return t.g[2 * i] * std::cos(a) + t.g[2 * i + 1] * std::sin(a) < t.g[2 * j] * std::cos(a) + t.g[2 * j + 1] * std::sin(a); });
  for (size_t i = 0; i < o.size(); ++i) { size_t j = o[i]; int w = 0; if (how == 0) w = r.i(0, np_ - 1); else if (how == 1) w = i * np_ / o.size(); else if (how == 2) { for (int k = 1; k < np_; ++k) if (std::hypot(t.g[2 * j] - seeds[2 * k], t.g[2 * j + 1] - seeds[2 * k + 1]) < std::hypot(t.g[2 * j] - seeds[2 * w], t.g[2 * j + 1] - seeds[2 * w + 1])) w = k; } else w = std::min(np_ - 1, int(-std::log(r.u() + 1e-9))); own[j] = w; }
  std::vector<int> cnt(np_, 0); for (int w : own) ++cnt[w]; for (int k = 0; k < np_; ++k) while (cnt[k] < least) { int j = r.i(0, t.n() - 1); if (cnt[own[j]] > least) { --cnt[own[j]]; own[j] = k; ++cnt[k]; } }
  for (size_t j = 0; j < own.size(); ++j) { c.part[own[j]].push_back(t.g[2 * j]); c.part[own[j]].push_back(t.g[2 * j + 1]); }
  for (auto& p : c.part) { c.off.push_back(c.all.size() / 2); c.all.insert(c.all.end(), p.begin(), p.end()); }
  R().desc += Str() << " " << (c.kind == 0 ? "unbounded" : c.kind == 1 ? "box" : "PLC") << " over " << np_ << " processes, " << c.how; return c;
}
static void run(const Tessellator<2, double>& t, const Case& c, const VD& g, int way, Tessellation<2, double>& m) {
  if (c.kind == 0) t.tessellate(g, m);
  else if (c.kind == 1) { double lo[2] = {c.t.d.lo.x, c.t.d.lo.y}, hi[2] = {c.t.d.hi.x, c.t.d.hi.y}; t.tessellate(g, lo, hi, m); }
  else { auto p = toPLC(c.t.d); if (way) { PLC<2, double> q; q.facets = p.facets; q.holes = p.holes; t.tessellate(g, p.points, q, m); } else t.tessellate(g, p, m); }
}
static std::vector<size_t> sizes(const Case& c) { std::vector<size_t> s; for (auto& p : c.part) s.push_back(p.size() / 2); return s; }

static void serial(Rng& r) {
  Case c = make(r, 1); int way = r.i(0, 1); Tessellation<2, double> ref, m; BoostTessellator<double> bt; run(bt, c, c.all, way, ref);
  SerialDistributedTessellator<2, double> st(new BoostTessellator<double>(), true, true); run(st, c, c.part[rank_], way, m); auto ms = gather(snap(m)); if (rank_) return;
  M2 w = snap(ref); std::string pre = c.t.cls.empty() ? "" : c.t.cls + ":"; if (!shapeOK(ms, sizes(c), pre.c_str(), c.t.d.loops.size() > 1)) return;
  if (!judgeShared(ms, "") || !judgeComplete(ms, pre.c_str())) return;
  for (int k = 0; k < np_; ++k) for (size_t i = 0; i < ms[k].cells.size(); ++i) { R().count("cells_compared"); if (!samePoly(cellPoly(ms[k], i), cellPoly(w, c.off[k] + i), 0)) { bad("cell", Str() << "cell " << i << " of process " << k << " is not the cell of the whole mesh"); return; } }
  R().count("serial_meshes"); R().distinct(mix(hashTopo(w), fnv(c.off.data(), c.off.size() * sizeof(size_t))), true); R().sample(R().desc);
}
static void dist_(Rng& r) {
  Case c = make(r, 3); int way = r.i(0, 1); bool info = r.p(0.7); Tessellation<2, double> ref, m; BoostTessellator<double> bt; run(bt, c, c.all, way, ref);
  DistributedTessellator<2, double> dt(new BoostTessellator<double>(), true, info); run(dt, c, c.part[rank_], way, m); auto ms = gather(snap(m)); if (rank_) return;
  M2 w = snap(ref); std::string pre = c.t.cls.empty() ? "" : c.t.cls + ":"; R().desc += info ? "" : ", no communication lists"; double L = c.t.d.L, tol = 1e-7 * L;
  if (!info) for (auto& q : ms) { q.neighborDomains.clear(); q.sharedNodes.clear(); q.sharedFaces.clear(); }
  if (!shapeOK(ms, sizes(c), pre.c_str(), c.t.d.loops.size() > 1)) return;
  if (info && (!judgeShared(ms, pre.c_str()) || !judgeComplete(ms, pre.c_str()))) return;
  for (int k = 0; k < np_; ++k) for (size_t i = 0; i < ms[k].cells.size(); ++i) { R().count("cells_compared"); Loop p = thin(cellPoly(ms[k], i), tol), q = thin(cellPoly(w, c.off[k] + i), tol); if (!samePoly(p, q, 2 * tol)) { bad(pre + "cell", Str() << "cell " << i << " of process " << k << " (" << p.size() << " sides, area " << double(loopArea(p)) << ") is not the cell of the whole mesh (" << q.size() << ", " << double(loopArea(q)) << ")"); return; } }
  R().count(info ? "dist_meshes" : "dist_meshes_without_lists"); R().distinct(mix(hashTopo(w), fnv(c.off.data(), c.off.size() * sizeof(size_t))), true); R().sample(R().desc);
}

// The library's own check of a distributed mesh: it accepts a mesh this monitor accepts and refuses one with a spoilt list.
static void check_(Rng& r) {
  Case c = make(r, 1); Tessellation<2, double> m; SerialDistributedTessellator<2, double> st(new BoostTessellator<double>(), true, true); run(st, c, c.part[rank_], 0, m);
  std::string first = checkDistributedTessellation(m); auto ms = gather(snap(m)); int a = r.i(0, np_ - 1), k = r.i(0, 5); unsigned x = r.i(0, 1 << 30), y = r.i(0, 1 << 30), fine = 1;
  if (!rank_) { fine = judgeShared(ms, "") && judgeComplete(ms, ""); for (auto& q : ms) { std::set<P> s; double L = c.t.d.L; for (size_t i = 0; i < q.nodes.size() / 2; ++i) { P p = q.node(i); s.insert(P{std::floor(p.x / L * 1e5), std::floor(p.y / L * 1e5)}); } if (s.size() != q.nodes.size() / 2) fine = 2; } }
  MPI_Bcast(&fine, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD); if (fine == 2) { if (!rank_) R().count("close_nodes"); return; } if (!fine) return;
  if (first != "ok") { if (!rank_) bad("check_refuses", Str() << "a sound mesh is refused: " << first.substr(0, 200)); return; }
  auto nth = [&](size_t n, unsigned v) { return size_t(v % n); }; unsigned done = 0;
  if (rank_ == a && !m.neighborDomains.empty()) {
    size_t i = nth(m.neighborDomains.size(), x); auto& l = m.sharedNodes[i]; size_t j = nth(l.size(), y), n = m.nodes.size() / 2; std::set<unsigned> in(l.begin(), l.end());
    switch (k) {
    case 0: if (l.size() > 1) { l.erase(l.begin() + j); done = 1; } break;
    case 1: if (l.size() > 1) { std::swap(l[j], l[(j + 1) % l.size()]); done = 1; } break;
    case 2: m.neighborDomains.erase(m.neighborDomains.begin() + i); m.sharedNodes.erase(m.sharedNodes.begin() + i); m.sharedFaces.erase(m.sharedFaces.begin() + i); done = 1; break;
    case 3: for (unsigned q = 0; q < n; ++q) if (!in.count(q)) { l[j] = q; done = 1; break; } break;
    case 4: for (unsigned q = 0; q < n; ++q) if (!in.count(q)) { l.push_back(q); done = 1; break; } break;
    case 5: m.nodes[2 * l[j]] += 0.01 * c.t.d.L; done = 1; break;
    }
  }
  MPI_Bcast(&done, 1, MPI_UNSIGNED, a, MPI_COMM_WORLD); if (!done) { if (!rank_) R().count("not_spoilt"); return; }
  std::string second = checkDistributedTessellation(m); int ok = second == "ok", any = 0; MPI_Allreduce(&ok, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); if (rank_) return;
  if (any) { bad("check_accepts", Str() << "a mesh with a spoilt list on process " << a << " (way " << k << ") passes the check on some process"); return; }
  R().count("spoilt_refused"); R().count(Str() << "spoilt:" << k); R().distinct(mix(mix(hashTopo(ms[a]), x), k), true); R().sample(R().desc);
}
// Edge cleaning in parallel: the processes still agree about what they share.
static void clean_(Rng& r) {
  Case c = make(r, 1); Tessellation<2, double> m; SerialDistributedTessellator<2, double> st(new BoostTessellator<double>(), true, true); run(st, c, c.part[rank_], 0, m); auto before = gather(snap(m));
  double tol = (const double[]){0.01, 0.05, 0.1, 0.3}[r.i(0, 3)]; { MeshEditor<2, double> ed(m); ed.cleanEdges(tol); } auto ms = gather(snap(m)); if (rank_) return; R().desc += Str() << " cleaned at " << tol;
  size_t gone = 0; for (int k = 0; k < np_; ++k) gone += before[k].nodes.size() / 2 - ms[k].nodes.size() / 2; if (!judgeShared(before, "before_")) return;
  for (int k = 0; k < np_; ++k) if (ms[k].cells.size() != before[k].cells.size()) { bad("clean_cells", Str() << "process " << k << " lost cells"); return; }
  if (!shapeOK(ms, sizes(c), "clean_", c.t.d.loops.size() > 1)) return; if (!judgeShared(ms, "clean_") || !judgeComplete(ms, "clean_")) return;
  double A = 0, B = 0; for (int k = 0; k < np_; ++k) { for (size_t i = 0; i < ms[k].cells.size(); ++i) A += double(loopArea(cellPoly(ms[k], i))); for (size_t i = 0; i < before[k].cells.size(); ++i) B += double(loopArea(cellPoly(before[k], i))); }
  if (std::fabs(A - B) > 1e-6 * std::fabs(B)) { bad("clean_area", Str() << "cleaning changed the area of the whole mesh from " << B << " to " << A); return; }
  R().count("nodes_cleaned", gone); R().count("cleanings"); R().distinct(mix(hashTopo(ms[0]), gone), gone > 0); R().sample(R().desc);
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &np_);
  std::string mode = argv[1]; uint64_t seed = atoll(argv[2]); long first = atol(argv[3]), count = atol(argv[4]); if (!rank_) R().open(argv[5]);
  for (long c = first; c < first + count; ++c) for (Reps rep; rep.next();) {
    Rng r(mix(mix(seed, fnv(mode.data(), mode.size())), c)); R().cur = c; if (!rank_) R().begin(c); MPI_Barrier(MPI_COMM_WORLD);
    any_ = mode == "any" || mode == "serial" || mode == "check"; if (mode == "serial") serial(r); else if (mode == "check") check_(r); else if (mode == "clean") clean_(r); else dist_(r);
    MPI_Barrier(MPI_COMM_WORLD);
  }
  if (!rank_) R().finish(); MPI_Finalize();
}

// Boundary complexes: Boolean operations, simplification, canned shapes.
//   w_plc MODE SEED FIRST COUNT OUT      MODE: boost, csg2, csg3, simp2, simp3, canned, reduce
#include "tess_case.hh"
#include "PLC_Boost_2d.hh"
#include "PLC_CSG_2d.hh"
#include "PLC_CSG_3d.hh"
#include "simplifyPLCfacets.hh"
#include "convexHull_3d.hh"
#include "polytope_plc_canned_geometries.hh"
#include "mpi.h"
#include <array>
using namespace vt;
using namespace polytope;
typedef ReducedPLC<2, double> R2; typedef ReducedPLC<3, double> R3; typedef std::vector<double> VD;
static void bad(const std::string& k, const std::string& s) { R().viol(k, s); }

// ---- 2D reference ------------------------------------------------------------------
static bool inDom(const Dom& d, P p) { if (!inLoop(d.loops[0], p)) return false; for (size_t i = 1; i < d.loops.size(); ++i) if (inLoop(d.loops[i], p)) return false; return true; }
static double clear2(const Dom& d, P p) { double b = 1e300; for (auto& l : d.loops) for (size_t i = 0; i < l.size(); ++i) b = std::min(b, segDist(p, l[i], l[(i + 1) % l.size()])); return b; }
typedef std::array<LD, 2> Q2;
static LD triTri(std::array<Q2, 3> a, std::array<Q2, 3> b) {      // area of the intersection of two counter-clockwise triangles
  std::vector<Q2> p(a.begin(), a.end());
  for (int e = 0; e < 3 && p.size() > 2; ++e) {
    Q2 u = b[e], v = b[(e + 1) % 3]; auto s = [&](Q2 q) { return (v[0] - u[0]) * (q[1] - u[1]) - (v[1] - u[1]) * (q[0] - u[0]); }; std::vector<Q2> n;
    for (size_t i = 0; i < p.size(); ++i) { Q2 c = p[i], d = p[(i + 1) % p.size()]; LD sc = s(c), sd = s(d); if (sc >= 0) n.push_back(c); if ((sc > 0 && sd < 0) || (sc < 0 && sd > 0)) { LD t = sc / (sc - sd); n.push_back({c[0] + t * (d[0] - c[0]), c[1] + t * (d[1] - c[1])}); } }
    p = n;
  }
  LD w = 0; for (size_t i = 1; i + 1 < p.size(); ++i) w += (p[i][0] - p[0][0]) * (p[i + 1][1] - p[0][1]) - (p[i][1] - p[0][1]) * (p[i + 1][0] - p[0][0]); return w / 2;
}
static LD loopLoop(const Loop& a, const Loop& b) {                  // area of the intersection of two simple loops: signed fans
  LD t = 0;
  for (size_t i = 1; i + 1 < a.size(); ++i) for (size_t j = 1; j + 1 < b.size(); ++j) {
    auto tri = [](const Loop& l, size_t k, LD& s) { std::array<Q2, 3> q{{{l[0].x, l[0].y}, {l[k].x, l[k].y}, {l[k + 1].x, l[k + 1].y}}}; LD w = cross(l[0], l[k], l[k + 1]); s = w > 0 ? 1 : w < 0 ? -1 : 0; if (s < 0) std::swap(q[1], q[2]); return q; };
    LD sa, sb; auto p = tri(a, i, sa), q = tri(b, j, sb); if (sa != 0 && sb != 0) t += sa * sb * triTri(p, q);
  }
  return std::abs(t);
}
static LD domArea(const Dom& d) { LD a = 0; for (size_t i = 0; i < d.loops.size(); ++i) a += (i ? -1 : 1) * std::abs(loopArea(d.loops[i])); return a; }
static LD commonArea(const Dom& a, const Dom& b) { LD t = 0; for (size_t i = 0; i < a.loops.size(); ++i) for (size_t j = 0; j < b.loops.size(); ++j) t += (i ? -1 : 1) * (j ? -1 : 1) * loopLoop(a.loops[i], b.loops[j]); return t; }
static void moveTo(Dom& d, double s, double ang, P c) {              // to size s around c
  P m{(d.lo.x + d.hi.x) / 2, (d.lo.y + d.hi.y) / 2}; double k = s / d.L, co = std::cos(ang), si = std::sin(ang); d.lo = {1e300, 1e300}; d.hi = {-1e300, -1e300};
  for (auto& l : d.loops) for (auto& p : l) { double x = (p.x - m.x) * k, y = (p.y - m.y) * k; p = {c.x + co * x - si * y, c.y + si * x + co * y}; d.lo = {std::min(d.lo.x, p.x), std::min(d.lo.y, p.y)}; d.hi = {std::max(d.hi.x, p.x), std::max(d.hi.y, p.y)}; }
  d.L = std::max(d.hi.x - d.lo.x, d.hi.y - d.lo.y);
}
static Dom boxDom(double x0, double y0, double x1, double y1) { Dom d; d.loops = {boxLoop(x0, y0, x1, y1)}; d.lo = {x0, y0}; d.hi = {x1, y1}; d.L = std::max(x1 - x0, y1 - y0); d.name = "box"; return d; }
static Dom someDom(Rng& r, bool holes) { Dom d; do d = makeDom(r, r.i(0, D_NKINDS - 1)); while (!holes && d.loops.size() > 1); return d; }
// Two domains of moderate size, near one another; sometimes boxes on a small lattice so that sides coincide.
static void pairOf(Rng& r, Dom& a, Dom& b, bool holes) {
  if (r.p(0.2)) { double s = std::pow(2, r.i(-4, 8)); auto box = [&] { int x = r.i(0, 5), y = r.i(0, 5); return boxDom(s * x, s * y, s * (x + r.i(1, 5)), s * (y + r.i(1, 5))); }; a = box(); b = box(); return; }
  double s = std::pow(10, r.u(-1, 2)); P o{r.u(-2, 2) * s, r.u(-2, 2) * s}; a = someDom(r, holes); b = someDom(r, holes);
  moveTo(a, s, r.p(0.3) ? 0 : r.u(0, 6.28), o); moveTo(b, s * std::pow(10, r.u(-0.6, 0.4)), r.p(0.3) ? 0 : r.u(0, 6.28), {o.x + r.u(-0.6, 0.6) * s, o.y + r.u(-0.6, 0.6) * s});
}
static bool ringOK(const std::vector<std::vector<int>>& f, int np) { for (size_t i = 0; i < f.size(); ++i) { if (f[i].size() != 2 || f[i][0] < 0 || f[i][0] >= np || f[i][1] < 0 || f[i][1] >= np) return false; if (f[i][1] != f[(i + 1) % f.size()][0]) return false; } return f.size() >= 3; }
static bool toDom(const R2& p, Dom& d) {
  d = Dom(); int np = p.points.size() / 2; auto loop = [&](const std::vector<std::vector<int>>& f) { Loop l; for (auto& e : f) l.push_back({p.points[2 * e[0]], p.points[2 * e[0] + 1]}); return l; };
  if (!ringOK(p.facets, np)) return false; d.loops.push_back(loop(p.facets)); for (auto& h : p.holes) { if (!ringOK(h, np)) return false; d.loops.push_back(loop(h)); } return true;
}
// A set of polygons with holes against an area and a membership function.
static bool judgeSet(Rng& r, const char* k, const std::vector<R2>& out, LD area, const std::vector<Dom>& ins, const std::function<bool(P)>& in, double L) {
  std::vector<Dom> ds; LD tot = 0, tol = 1e-9 * L * L;
  for (auto& o : out) { Dom d; if (!o.valid() || !toDom(o, d)) { bad(std::string(k) + "_malformed", "a result is not made of closed loops over its points"); return false; } for (size_t i = 0; i < d.loops.size(); ++i) if ((loopArea(d.loops[i]) > 0) != (i == 0) && std::abs(loopArea(d.loops[i])) > tol) { bad(std::string(k) + "_orientation", i ? "a hole runs counter-clockwise" : "the outline runs clockwise"); return false; } tot += domArea(d); ds.push_back(d); }
  if (std::abs(tot - area) > tol) { bad(std::string(k) + "_area", Str() << "area " << double(tot) << ", expected " << double(area) << " (" << out.size() << " pieces)"); return false; }
  P lo{1e300, 1e300}, hi{-1e300, -1e300}; for (auto& d : ins) { lo = {std::min(lo.x, d.lo.x), std::min(lo.y, d.lo.y)}; hi = {std::max(hi.x, d.hi.x), std::max(hi.y, d.hi.y)}; }
  for (int s = 0; s < 60; ++s) {
    P p{r.u(lo.x, hi.x), r.u(lo.y, hi.y)}; double c = 1e300; for (auto& d : ins) c = std::min(c, clear2(d, p)); if (c < 1e-6 * L) continue;
    int n = 0; for (auto& d : ds) n += inDom(d, p); R().count("membership_probes");
    if (n != int(in(p))) { bad(std::string(k) + "_member", Str() << "(" << p.x << "," << p.y << ") is in " << n << " result pieces, expected " << in(p)); return false; }
  }
  R().count(std::string("op:") + k); return true;
}
static std::vector<R2> reduceAll(const std::vector<R2>& v) { return BG::boost_unionReduce(v); }
static void boostOps(Rng& r) {
  Dom a, b; pairOf(r, a, b, true); R2 A = toPLC(a), B = toPLC(b); double L = std::max({a.L, b.L, dist(a.lo, b.lo)}); std::vector<Dom> ab{a, b}; uint64_t h = fnv(A.points.data(), 8 * A.points.size(), fnv(B.points.data(), 8 * B.points.size()));
  R().desc = Str() << a.name << "/" << a.loops.size() << " with " << b.name << "/" << b.loops.size();
  LD x = commonArea(a, b), ar = domArea(a), br = domArea(b);
  Dom back; if (!toDom(BG::PLC_boost_internal::ReducedPLCfromPolygon<double>(BG::PLC_boost_internal::ReducedPLCtoPolygon(A)), back)) bad("roundtrip", "malformed"); else { auto key = [](const Dom& d) { std::vector<std::vector<P>> s; for (auto& l : d.loops) { Loop q = l; if (loopArea(q) < 0) std::reverse(q.begin(), q.end()); std::rotate(q.begin(), std::min_element(q.begin(), q.end()), q.end()); s.push_back(q); } return s; }; auto p = key(a), q = key(back); bool same = p.size() == q.size(); for (size_t i = 0; same && i < p.size(); ++i) { same = p[i].size() == q[i].size(); for (size_t j = 0; same && j < p[i].size(); ++j) same = p[i][j].x == q[i][j].x && p[i][j].y == q[i][j].y; } if (!same) bad("roundtrip", "to a polygon and back is not the same boundary"); }
  auto iA = [&](P p) { return inDom(a, p); }; auto iB = [&](P p) { return inDom(b, p); };
  auto I = BG::boost_intersect(A, B);
  judgeSet(r, "boost_intersect", I, x, ab, [&](P p) { return iA(p) && iB(p); }, L);
  judgeSet(r, "boost_union", BG::boost_union(A, B), ar + br - x, ab, [&](P p) { return iA(p) || iB(p); }, L);
  judgeSet(r, "boost_subtract", BG::boost_subtract(A, B), ar - x, ab, [&](P p) { return iA(p) && !iB(p); }, L);
  if (x > 1e-6 * L * L && !BG::boost_intersects(A, B)) bad("boost_intersects", "overlapping regions reported apart");
  if (a.hi.x < b.lo.x - 1e-9 * L || b.hi.x < a.lo.x - 1e-9 * L || a.hi.y < b.lo.y - 1e-9 * L || b.hi.y < a.lo.y - 1e-9 * L) if (BG::boost_intersects(A, B)) bad("boost_intersects", "separate regions reported overlapping");
  if (BG::boost_intersects(A)) bad("boost_self", "a simple boundary reported as crossing itself");
  for (int s = 0; s < 20; ++s) { P p{r.u(a.lo.x, a.hi.x), r.u(a.lo.y, a.hi.y)}; if (clear2(a, p) < 1e-6 * L) continue; R().count("membership_probes"); if (BG::boost_within(Point2<double>(p.x, p.y), A) != iA(p)) { bad("boost_within", Str() << "(" << p.x << "," << p.y << ")"); break; } }
  if (x > 1e-6 * L * L) for (int t = 0; t < 60; ++t) {          // one piece and its orphans
    P p{r.u(a.lo.x, a.hi.x), r.u(a.lo.y, a.hi.y)}; if (!iA(p) || !iB(p) || std::min(clear2(a, p), clear2(b, p)) < 1e-6 * L) continue;
    std::vector<R2> orph; R2 piece = BG::boost_clip(A, B, Point2<double>(p.x, p.y), orph); Dom d; if (!toDom(piece, d) || !inDom(d, p)) { bad("boost_clip_piece", "the piece returned does not hold the point"); break; }
    auto all = orph; all.push_back(piece); judgeSet(r, "boost_clip", all, x, ab, [&](P q) { return iA(q) && iB(q); }, L); if (orph.size()) R().count("clip_orphans", orph.size()); break;
  }
  // several at once
  std::vector<Dom> many{a, b}; std::vector<R2> ms{A, B}; for (int k = r.i(0, 3); k > 0; --k) { Dom c = someDom(r, true); moveTo(c, L * r.u(0.1, 0.6), r.u(0, 6.28), {r.u(a.lo.x, a.hi.x), r.u(a.lo.y, a.hi.y)}); many.push_back(c); ms.push_back(toPLC(c)); }
  std::vector<R2> red = reduceAll(ms); LD tot = 0; for (auto& o : red) { Dom d; if (toDom(o, d)) tot += domArea(d); }
  LD least = 0; for (auto& d : many) least = std::max(least, domArea(d)); if (tot < least - 1e-9 * L * L) bad("boost_unionReduce_area", "smaller than one of its parts");
  judgeSet(r, "boost_unionReduce", red, tot, many, [&](P p) { for (auto& d : many) if (inDom(d, p)) return true; return false; }, L);
  R().distinct(mix(h, I.size()), true); R().sample(R().desc);
}

// ---- CSG in 2D: a bag of directed segments ------------------------------------------------
static void csg2(Rng& r) {
  Dom a, b; pairOf(r, a, b, false); R2 A = toPLC(a), B = toPLC(b); for (auto* d : {&a, &b}) if (loopArea(d->loops[0]) < 0) bad("harness", "clockwise input"); double L = std::max({a.L, b.L, dist(a.lo, b.lo)}); R().desc = Str() << a.name << "/" << a.loops[0].size() << " with " << b.name << "/" << b.loops[0].size() << " L=" << L;
  LD x = commonArea(a, b), ar = domArea(a), br = domArea(b); uint64_t h = fnv(A.points.data(), 8 * A.points.size(), fnv(B.points.data(), 8 * B.points.size()));
  auto judge = [&](const char* k, const R2& o, LD area, const std::function<bool(P)>& in) {
    int np = o.points.size() / 2; LD w = 0; for (auto& f : o.facets) { if (f.size() != 2 || f[0] < 0 || f[0] >= np || f[1] < 0 || f[1] >= np) { bad(std::string(k) + "_malformed", "facet"); return; } w += LD(o.points[2 * f[0]] - a.lo.x) * (o.points[2 * f[1] + 1] - a.lo.y) - LD(o.points[2 * f[1]] - a.lo.x) * (o.points[2 * f[0] + 1] - a.lo.y); }
    if (std::abs(w / 2 - area) > 1e-8 * L * L) { bad(std::string(k) + "_area", Str() << "area " << double(w / 2) << ", expected " << double(area)); return; }
    for (int s = 0; s < 60; ++s) {
      P p{r.u(std::min(a.lo.x, b.lo.x), std::max(a.hi.x, b.hi.x)), r.u(std::min(a.lo.y, b.lo.y), std::max(a.hi.y, b.hi.y))}; if (std::min(clear2(a, p), clear2(b, p)) < 1e-5 * L) continue;
      LD t = 0; for (auto& f : o.facets) { LD ux = o.points[2 * f[0]] - p.x, uy = o.points[2 * f[0] + 1] - p.y, vx = o.points[2 * f[1]] - p.x, vy = o.points[2 * f[1] + 1] - p.y; t += std::atan2(ux * vy - uy * vx, ux * vx + uy * vy); } t /= 2 * M_PIl; R().count("membership_probes");
      if (std::abs(t - int(in(p))) > 1e-3) { bad(std::string(k) + "_member", Str() << "winding number " << double(t) << " at (" << p.x << "," << p.y << "), expected " << in(p)); return; }
    }
    R().count(std::string("op:") + k); h = mix(h, o.facets.size());
  };
  auto iA = [&](P p) { return inDom(a, p); }; auto iB = [&](P p) { return inDom(b, p); };
  judge("csg_union2", CSG::csg_union(A, B), ar + br - x, [&](P p) { return iA(p) || iB(p); });
  judge("csg_intersect2", CSG::csg_intersect(A, B), x, [&](P p) { return iA(p) && iB(p); });
  judge("csg_subtract2", CSG::csg_subtract(A, B), ar - x, [&](P p) { return iA(p) && !iB(p); });
  R().distinct(h, true); R().sample(R().desc);
}

// ---- 3D -----------------------------------------------------------------------------
typedef std::array<LD, 3> Q3;
static Q3 at(const VD& p, int i) { return {p[3 * i], p[3 * i + 1], p[3 * i + 2]}; }
static Q3 sub(Q3 a, Q3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static Q3 crs(Q3 a, Q3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static LD dt(Q3 a, Q3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static LD nrm(Q3 a) { return std::sqrt(dt(a, a)); }
// Solid angle over 4 pi, and volume.
static LD winding(const R3& o, Q3 p) {
  LD t = 0; for (auto& f : o.facets) for (size_t i = 1; i + 1 < f.size(); ++i) { Q3 a = sub(at(o.points, f[0]), p), b = sub(at(o.points, f[i]), p), c = sub(at(o.points, f[i + 1]), p); LD A = nrm(a), B = nrm(b), C = nrm(c); t += 2 * std::atan2(dt(a, crs(b, c)), A * B * C + dt(a, b) * C + dt(b, c) * A + dt(c, a) * B); }
  return t / (4 * M_PIl);
}
static LD volume(const R3& o) { LD v = 0; if (o.points.empty()) return 0; Q3 z = at(o.points, 0); for (auto& f : o.facets) for (size_t i = 1; i + 1 < f.size(); ++i) v += dt(sub(at(o.points, f[0]), z), crs(sub(at(o.points, f[i]), z), sub(at(o.points, f[i + 1]), z))); return v / 6; }
static bool closed3(const R3& o, std::string& why) {        // every directed edge meets its reverse
  std::map<std::pair<int, int>, int> e; int np = o.points.size() / 3; for (auto& f : o.facets) { if (f.size() < 3) { why = "a facet with fewer than three points"; return false; } for (size_t i = 0; i < f.size(); ++i) { int u = f[i], v = f[(i + 1) % f.size()]; if (u < 0 || u >= np || u == v) { why = "a bad point index"; return false; } if (u < v) ++e[{u, v}]; else --e[{v, u}]; } }
  for (auto& x : e) if (x.second) { why = Str() << "edge " << x.first.first << "-" << x.first.second << " is not matched by its reverse"; return false; } return true;
}
struct Solid { R3 plc; std::vector<std::pair<Q3, LD>> half; std::string name; };        // convex: intersection of n.x <= w
static bool inS(const Solid& s, Q3 p, LD* clear) { bool in = true; for (auto& h : s.half) { LD d = dt(h.first, p) - h.second; if (clear) *clear = std::min(*clear, std::abs(d)); if (d > 0) in = false; } return in; }
static void halves(Solid& s) { s.half.clear(); for (auto& f : s.plc.facets) { Q3 n{0, 0, 0}; for (size_t i = 1; i + 1 < f.size(); ++i) { Q3 m = crs(sub(at(s.plc.points, f[i]), at(s.plc.points, f[0])), sub(at(s.plc.points, f[i + 1]), at(s.plc.points, f[0]))); for (int k = 0; k < 3; ++k) n[k] += m[k]; } LD l = nrm(n); if (l < 1e-14L) continue; for (auto& c : n) c /= l; LD w = dt(n, at(s.plc.points, f[0])); bool dup = false; for (auto& g : s.half) if (nrm(sub(g.first, n)) < 1e-9L && std::abs(g.second - w) < 1e-9L) dup = true; if (!dup) s.half.push_back({n, w}); } }
static void turn(R3& p, Rng& r, double s, Q3 c) { LD q[4], l = 0; for (auto& x : q) { x = r.gauss(); l += x * x; } l = std::sqrt(l); for (auto& x : q) x /= l; LD w = q[0], x = q[1], y = q[2], z = q[3]; LD m[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)}, {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)}, {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}}; bool id = r.p(0.3); for (size_t i = 0; i < p.points.size() / 3; ++i) { Q3 v = at(p.points, i); for (int k = 0; k < 3; ++k) p.points[3 * i + k] = double(s * (id ? v[k] : m[k][0] * v[0] + m[k][1] * v[1] + m[k][2] * v[2]) + c[k]); } }
static Solid solid(Rng& r, bool lattice, bool exact = false) {       // exact: facets flat to rounding
  Solid s; int kind = lattice ? 0 : exact ? std::vector<int>{0, 3, 4, 4}[r.i(0, 3)] : r.i(0, 4);
  if (kind == 0) { double lo[3], hi[3]; for (int k = 0; k < 3; ++k) { if (lattice) { lo[k] = r.i(-3, 2); hi[k] = lo[k] + r.i(1, 4); } else { lo[k] = r.u(-1, 0); hi[k] = lo[k] + r.u(0.4, 2); } } s.plc = plc_box<3, double>(lo, hi); s.name = "box"; }
  else if (kind == 1) { int n = r.i(3, 7); s.plc = plc_sphere<double>(Point3<double>(0, 0, 0), 1.0, n); s.name = "sphere"; }
  else if (kind == 2) { s.plc = plc_cylinder<double>(Point3<double>(0, 0, 0), r.u(0.3, 1), r.u(0.6, 2), r.i(3, 9)); s.name = "cylinder"; }
  else if (kind == 4) { int n = r.i(3, 12); double t = r.u(0.3, 1.5), h = r.u(0.3, 2), R = r.u(0.3, 1); for (int z = 0; z < 2; ++z) for (int i = 0; i < n; ++i) { double a = 2 * M_PI * i / n, q = R * (z ? t : 1); s.plc.points.insert(s.plc.points.end(), {q * std::cos(a), q * std::sin(a), z ? h : 0.0}); } std::vector<int> lo, hi; for (int i = 0; i < n; ++i) { lo.insert(lo.begin(), i); hi.push_back(n + i); s.plc.facets.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i}); } s.plc.facets.push_back(lo); s.plc.facets.push_back(hi); s.name = "frustum"; }
  else { VD pts; int n = r.i(4, 12); for (int i = 0; i < n; ++i) { Q3 v{r.gauss(), r.gauss(), r.gauss()}; LD l = nrm(v); for (auto& c : v) pts.push_back(double(c / l)); } double low[3] = {-1.1, -1.1, -1.1}; PLC<3, double> hl = convexHull_3d(pts, low, 1.0 / (1 << 20)); s.plc.points = pts; s.plc.facets = hl.facets; s.name = "hull"; }
  if (!lattice) turn(s.plc, r, std::pow(10, r.u(-0.3, 0.3)), {r.u(-0.8, 0.8), r.u(-0.8, 0.8), r.u(-0.8, 0.8)});
  halves(s); return s;
}
// Volume of the intersection of two convex solids: clip the first by the planes of the second.
static LD commonVolume(const Solid& a, const Solid& b) {
  std::vector<std::vector<Q3>> faces; for (auto& f : a.plc.facets) { std::vector<Q3> p; for (int i : f) p.push_back(at(a.plc.points, i)); faces.push_back(p); }
  for (auto& h : b.half) {
    std::vector<std::vector<Q3>> n; std::vector<Q3> rim;
    for (auto& f : faces) { std::vector<Q3> p; for (size_t i = 0; i < f.size(); ++i) { Q3 c = f[i], d = f[(i + 1) % f.size()]; LD sc = h.second - dt(h.first, c), sd = h.second - dt(h.first, d); if (sc >= 0) p.push_back(c); if (sc == 0) rim.push_back(c); if ((sc > 0 && sd < 0) || (sc < 0 && sd > 0)) { LD t = sc / (sc - sd); Q3 m{c[0] + t * (d[0] - c[0]), c[1] + t * (d[1] - c[1]), c[2] + t * (d[2] - c[2])}; p.push_back(m); rim.push_back(m); } } if (p.size() > 2) n.push_back(p); }
    if (rim.size() > 2) { Q3 c{0, 0, 0}; for (auto& p : rim) for (int k = 0; k < 3; ++k) c[k] += p[k] / rim.size(); Q3 u{1, 0, 0}; if (std::abs(h.first[0]) > 0.8L) u = {0, 1, 0}; Q3 e1 = crs(h.first, u); LD l = nrm(e1); for (auto& x : e1) x /= l; Q3 e2 = crs(h.first, e1); std::sort(rim.begin(), rim.end(), [&](const Q3& p, const Q3& q) { Q3 x = sub(p, c), y = sub(q, c); return std::atan2(dt(x, e2), dt(x, e1)) < std::atan2(dt(y, e2), dt(y, e1)); }); n.push_back(rim); }
    faces = n; if (faces.empty()) return 0;
  }
  LD v = 0; Q3 z = faces[0][0]; for (auto& f : faces) for (size_t i = 1; i + 1 < f.size(); ++i) v += dt(sub(f[0], z), crs(sub(f[i], z), sub(f[i + 1], z))); return std::abs(v) / 6;
}
static void csg3(Rng& r) {
  R().count("class:csg3"); bool lat = r.p(0.2); Solid a = solid(r, lat), b = solid(r, lat); std::string why; R().desc = a.name + std::string(lat ? " (lattice)" : "") + " with " + b.name; uint64_t h = fnv(a.plc.points.data(), 8 * a.plc.points.size(), fnv(b.plc.points.data(), 8 * b.plc.points.size()));
  if (!closed3(a.plc, why) || !closed3(b.plc, why)) { R().inconclusive("input not closed"); return; }
  LD av = volume(a.plc), bv = volume(b.plc), x = 1;
  if (lat) { for (int k = 0; k < 3; ++k) { double l = -9, u = 9; for (auto* s : {&a, &b}) { double sl = 9, su = -9; for (size_t i = k; i < s->plc.points.size(); i += 3) { sl = std::min(sl, s->plc.points[i]); su = std::max(su, s->plc.points[i]); } l = std::max(l, sl); u = std::min(u, su); } x *= std::max(0.0, u - l); } } else x = commonVolume(a, b);
  auto judge = [&](const char* k, const std::function<R3()>& make, LD vol, const std::function<bool(Q3)>& in) {
    if (vol < 1e-4L) return; R3 o = make();
    bool op = !closed3(o, why); if (op) bad(std::string(k) + "_open", why);
    LD v = volume(o); if (std::abs(v - vol) > 1e-5L) { bad(std::string(k) + "_volume", Str() << double(v) << ", expected " << double(vol)); return; }
    for (int s = 0; s < 40; ++s) { Q3 p{r.u(-2.5, 2.5), r.u(-2.5, 2.5), r.u(-2.5, 2.5)}; LD c = 1; inS(a, p, &c); inS(b, p, &c); if (c < 1e-3L) continue; LD w = winding(o, p); R().count("membership_probes"); if (std::abs(w - int(in(p))) > 1e-2L) { bad(std::string(k) + "_member", Str() << "winding number " << double(w) << ", expected " << in(p)); return; } }
    R().count(std::string("op:") + k); h = mix(h, o.facets.size());
  };
  auto iA = [&](Q3 p) { return inS(a, p, nullptr); }; auto iB = [&](Q3 p) { return inS(b, p, nullptr); };
  judge("csg_union3", [&] { return CSG::csg_union(a.plc, b.plc); }, av + bv - x, [&](Q3 p) { return iA(p) || iB(p); });
  judge("csg_intersect3", [&] { return CSG::csg_intersect(a.plc, b.plc); }, x, [&](Q3 p) { return iA(p) && iB(p); });
  judge("csg_subtract3", [&] { return CSG::csg_subtract(a.plc, b.plc); }, av - x, [&](Q3 p) { return iA(p) && !iB(p); });
  R().distinct(h, true); R().sample(R().desc);
}

// ---- simplification --------------------------------------------------------------------
static void simp2(Rng& r) {
  Dom d; do { d = someDom(r, false); moveTo(d, std::pow(10, r.u(-0.3, 1)), r.p(0.3) ? 0 : r.u(0, 6.28), {r.u(-2, 2), r.u(-2, 2)}); } while (clearance(d) < 1e-3 * d.L);
  const Loop& l = d.loops[0]; int n = l.size(); double tol = 1e-10; Loop q; for (int i = 0; i < n; ++i) { q.push_back(l[i]); P a = l[i], b = l[(i + 1) % n]; int k = r.p(0.4) ? r.i(1, 3) : 0; std::vector<double> t; for (int j = 0; j < k; ++j) t.push_back((j + r.u(0.3, 0.7)) / k); for (double u : t) q.push_back({a.x + u * (b.x - a.x), a.y + u * (b.y - a.y)}); }
  // some corners may be straight already
  std::vector<P> want; for (int i = 0; i < n; ++i) { P a = l[(i + n - 1) % n], b = l[i], c = l[(i + 1) % n]; LD s = cross(a, b, c) / (LD(dist(a, b)) * dist(b, c)); if (std::abs(s) > 1e-4) want.push_back(b); else if (std::abs(s) > 1e-9) return; }
  R2 p; int m = q.size(); bool own = r.p(0.5), cw = r.p(0.3); std::vector<int> id(m);
  if (own) for (int i = 0; i < m; ++i) { P a = q[i], b = q[(i + 1) % m]; p.points.insert(p.points.end(), {a.x, a.y, b.x, b.y}); p.facets.push_back({2 * i, 2 * i + 1}); }      // every facet its own points, as CSG returns them
  else { for (int i = 0; i < m; ++i) id[i] = i; r.shuffle(id); p.points.resize(2 * m); for (int i = 0; i < m; ++i) { p.points[2 * id[i]] = q[i].x; p.points[2 * id[i] + 1] = q[i].y; } for (int i = 0; i < m; ++i) p.facets.push_back({id[i], id[(i + 1) % m]}); }
  if (cw) { std::reverse(p.facets.begin(), p.facets.end()); for (auto& f : p.facets) std::swap(f[0], f[1]); }
  if (r.p(0.5)) r.shuffle(p.facets); else std::rotate(p.facets.begin(), p.facets.begin() + r.i(0, m - 1), p.facets.end());
  R().desc = Str() << d.name << " " << n << " corners, " << m << " points" << (own ? ", own points" : "") << (cw ? ", clockwise" : "");
  double lo[2] = {d.lo.x, d.lo.y}, hi[2] = {d.hi.x, d.hi.y}; R2 s = simplifyPLCfacets(p, p.points, lo, hi, tol); Dom o;
  if (!toDom(s, o)) { bad("simplify2_malformed", "not one closed loop"); return; }
  if (s.points.size() != 2 * want.size() || s.facets.size() != want.size()) { bad("simplify2_count", Str() << s.facets.size() << " facets and " << s.points.size() / 2 << " points, " << want.size() << " corners"); return; }
  for (P w : want) { bool f = false; for (size_t i = 0; i < s.points.size() / 2; ++i) if (dist(w, {s.points[2 * i], s.points[2 * i + 1]}) < 1e-8 * d.L) f = true; if (!f) { bad("simplify2_corner", "a corner is missing"); return; } }
  LD a = loopArea(o.loops[0]), e = (cw ? -1 : 1) * std::abs(loopArea(l)); if (std::abs(std::abs(a) - std::abs(e)) > 1e-8 * d.L * d.L) bad("simplify2_area", Str() << double(a) << ", was " << double(e)); else if ((a > 0) != (e > 0)) bad("simplify2_reversed", "the boundary runs the other way");
  R().count("simplified2"); R().distinct(fnv(p.points.data(), 8 * p.points.size()), true); R().sample(R().desc);
}
static void simp3(Rng& r) {
  Solid s = solid(r, false, true); std::string why; R3 p;
  // split facets: a fan around a corner or around an inner point; points shared or one set per facet
  bool own = r.p(0.5); p.points = s.plc.points;
  for (auto& f : s.plc.facets) { int how = r.i(0, 2); if (how == 0) p.facets.push_back(f); else if (how == 1) for (size_t i = 1; i + 1 < f.size(); ++i) p.facets.push_back({f[0], f[i], f[i + 1]}); else { Q3 c{0, 0, 0}; for (int i : f) for (int k = 0; k < 3; ++k) c[k] += p.points[3 * i + k] / LD(f.size()); int id = p.points.size() / 3; for (int k = 0; k < 3; ++k) p.points.push_back(double(c[k])); for (size_t i = 0; i < f.size(); ++i) p.facets.push_back({f[i], f[(i + 1) % f.size()], id}); } }
  if (own) { R3 q; for (auto& f : p.facets) { q.facets.push_back({}); for (int i : f) { q.facets.back().push_back(q.points.size() / 3); for (int k = 0; k < 3; ++k) q.points.push_back(p.points[3 * i + k]); } } p = q; }
  for (auto& f : p.facets) std::rotate(f.begin(), f.begin() + r.i(0, f.size() - 1), f.end()); r.shuffle(p.facets);
  std::vector<Q3> planes; for (auto& f : p.facets) for (size_t i = 1; i + 1 < f.size(); ++i) {       // leave out bodies with facets that are almost, but not quite, in one plane
    Q3 n = crs(sub(at(p.points, f[i]), at(p.points, f[0])), sub(at(p.points, f[i + 1]), at(p.points, f[0]))); LD l = nrm(n); if (l < 1e-7L) return; for (auto& c : n) c /= l; bool known = false;
    for (auto& g : planes) { LD c = dt(sub(n, g), sub(n, g)) / 2; if (c < 1e-14L) known = true; else if (c < 1e-4L) return; } if (!known) planes.push_back(n);
  }
  R().desc = Str() << s.name << " " << p.facets.size() << " facets over " << planes.size() << " planes" << (own ? ", own points" : "");
  double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}; for (size_t i = 0; i < p.points.size(); ++i) { lo[i % 3] = std::min(lo[i % 3], p.points[i]); hi[i % 3] = std::max(hi[i % 3], p.points[i]); }
  R3 o = simplifyPLCfacets(p, p.points, lo, hi, 1e-10); if (!closed3(o, why)) { bad("simplify3_open", why); return; }
  if (o.facets.size() != planes.size()) { bad("simplify3_facets", Str() << o.facets.size() << " facets over " << planes.size() << " planes"); return; }
  LD v = volume(o), w = volume(s.plc); if (std::abs(v - w) > 1e-7L * (1 + std::abs(w))) { bad("simplify3_volume", Str() << double(v) << ", was " << double(w)); return; }
  std::set<int> used; for (auto& f : o.facets) used.insert(f.begin(), f.end()); if (used.size() != o.points.size() / 3) bad("simplify3_unused", "points used by no facet remain");
  R().count("simplified3"); R().distinct(fnv(p.points.data(), 8 * p.points.size()), true); R().sample(R().desc);
}

// ---- canned shapes, reduction ------------------------------------------------------------
static void canned(Rng& r) {
  double L = std::pow(10, r.u(-2, 3)); int kind = r.i(0, 4); std::string why; uint64_t h = kind;
  if (kind == 0) { int n = r.i(3, 60); P c{r.u(-3, 3) * L, r.u(-3, 3) * L}; R().desc = Str() << "circle " << n; R2 p = plc_circle<double>(Point2<double>(c.x, c.y), L, n); Dom d; if (!toDom(p, d) || int(p.facets.size()) != n) bad("circle", "malformed"); else { for (auto& q : d.loops[0]) if (std::abs(dist(q, c) - L) > 1e-12 * 5 * L) { bad("circle", "a point off the circle"); break; } LD e = 0.5L * n * std::sin(2 * M_PIl / n) * L * L; if (std::abs(loopArea(d.loops[0]) - e) > 1e-10L * L * L) bad("circle", "area or orientation"); } h = fnv(p.points.data(), p.points.size() * 8); }
  else if (kind == 1 || kind == 2) { double lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = r.u(-3, 3) * L; hi[k] = lo[k] + L * r.u(0.01, 3); } R().desc = "box"; if (kind == 1) { R2 p = plc_box<2, double>(lo, hi); Dom d; LD e = LD(hi[0] - lo[0]) * (hi[1] - lo[1]); if (!toDom(p, d) || std::abs(loopArea(d.loops[0]) - e) > 1e-12L * 9 * L * L) bad("box2", "not the box, counter-clockwise"); R2 q; polytope::internal::makeBoxPLC(q, lo, hi); if (q.points != p.points || q.facets != p.facets) bad("box2", "makeBoxPLC differs"); } else { R3 p = plc_box<3, double>(lo, hi); LD e = LD(hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]); if (!closed3(p, why) || std::abs(volume(p) - e) > 1e-12L * 27 * L * L * L || p.facets.size() != 6) bad("box3", "not the closed box, facing outward"); } h = fnv(lo, 24); }
  else { R3 p; LD want = 0, got; double rad = L, len = L * r.u(0.2, 3); Q3 c{r.u(-3, 3) * L, r.u(-3, 3) * L, r.u(-3, 3) * L}; Point3<double> pc{double(c[0]), double(c[1]), double(c[2])};
    if (kind == 3) { int n = r.i(2, 10); R().desc = Str() << "sphere " << n; p = plc_sphere<double>(pc, rad, n); for (size_t i = 0; i < p.points.size() / 3; ++i) if (std::abs(nrm(sub(at(p.points, i), c)) - rad) > 1e-11L * L) { bad("sphere", "a point off the sphere"); return; } } else { int n = r.i(3, 20); R().desc = Str() << "cylinder " << n; p = plc_cylinder<double>(pc, rad, len, n); want = 0.5L * n * std::sin(2 * M_PIl / n) * rad * rad * len; }
    if (!closed3(p, why)) { bad(kind == 3 ? "sphere_open" : "cylinder_open", why); return; } got = volume(p);
    if (kind == 4 && std::abs(got - want) > 1e-4L * want) bad("cylinder", Str() << "volume " << double(got) << ", expected " << double(want)); std::set<int> used; for (auto& f : p.facets) used.insert(f.begin(), f.end()); if (used.size() != p.points.size() / 3) bad(kind == 3 ? "sphere" : "cylinder", Str() << "only " << used.size() << " of " << p.points.size() / 3 << " points are used");
    for (auto& f : p.facets) { Q3 a = at(p.points, f[0]), n = crs(sub(at(p.points, f[1]), a), sub(at(p.points, f[2]), a)); LD l = nrm(n); if (l < 1e-9L * L * L) continue; for (size_t i = 0; i < p.points.size() / 3; ++i) if (dt(n, sub(at(p.points, i), a)) / l > 1e-4L * L) { bad(kind == 3 ? "sphere" : "cylinder", "not convex"); return; } } if (got <= 0) bad(kind == 3 ? "sphere" : "cylinder", "facing inward"); h = fnv(p.points.data(), p.points.size() * 8); }
  R().count("canned"); R().distinct(h, true); R().sample(R().desc);
}
template <int D> static void reduce(Rng& r) {
  int n = r.i(3, 40); VD all(D * n); for (auto& x : all) x = r.u(-9, 9); PLC<D, double> p; auto facet = [&] { std::vector<int> f; int k = D == 2 ? 2 : r.i(3, 5); for (int i = 0; i < k; ++i) f.push_back(r.i(0, n - 1)); return f; };
  for (int i = r.i(1, 8); i > 0; --i) p.facets.push_back(facet()); for (int i = r.i(0, 3); i > 0; --i) { p.holes.push_back({}); for (int j = r.i(1, 5); j > 0; --j) p.holes.back().push_back(facet()); } PLC<D, double> keep = p;
  ReducedPLC<D, double> q(p, all); std::set<int> used; auto same = [&](const std::vector<int>& a, const std::vector<int>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { used.insert(a[i]); if (b[i] < 0 || size_t(D) * b[i] >= q.points.size()) return false; for (int k = 0; k < D; ++k) if (all[D * a[i] + k] != q.points[D * b[i] + k]) return false; } return true; };
  R().desc = Str() << D << "D " << p.facets.size() << " facets " << p.holes.size() << " holes"; bool ok = p.facets.size() == q.facets.size() && p.holes.size() == q.holes.size(); for (size_t i = 0; ok && i < p.facets.size(); ++i) ok = same(p.facets[i], q.facets[i]); for (size_t h = 0; ok && h < p.holes.size(); ++h) { ok = p.holes[h].size() == q.holes[h].size(); for (size_t i = 0; ok && i < p.holes[h].size(); ++i) ok = same(p.holes[h][i], q.holes[h][i]); }
  if (!ok) bad("reduce", "a facet refers to other positions than before"); else if (q.points.size() != D * used.size()) bad("reduce_points", Str() << q.points.size() / D << " points kept, " << used.size() << " used");
  if (q.empty() || !q.valid()) bad("reduce_valid", "valid complex reported empty or invalid"); R().count("reduced"); R().distinct(fnv(q.points.data(), q.points.size() * 8), true); R().sample(R().desc);
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); std::string mode = argv[1]; uint64_t seed = atoll(argv[2]); long first = atol(argv[3]), count = atol(argv[4]); R().open(argv[5]);
  for (long c = first; c < first + count; ++c) for (Reps rep; rep.next();) {
    Rng r(mix(mix(seed, fnv(mode.data(), mode.size())), c)); R().begin(c);
    if (mode == "boost") boostOps(r); else if (mode == "csg2") csg2(r); else if (mode == "csg3") csg3(r); else if (mode == "simp2") simp2(r); else if (mode == "simp3") simp3(r); else if (mode == "canned") canned(r); else if (r.p(0.5)) reduce<2>(r); else reduce<3>(r);
  }
  R().finish(); MPI_Finalize();
}

// Geometry queries, hulls, convex relations, measures, position hashing.
//   w_geom MODE SEED FIRST COUNT OUT
#include "common.hh"
#include "geom2d.hh"
#include "polytope.hh"
#include "nearestPoint.hh"
#include "within.hh"
#include "intersect.hh"
#include "convexHull_2d.hh"
#include "convexHull_3d.hh"
#include "convexIntersect.hh"
#include "convexWithin.hh"
#include "bisectSearch.hh"
#include "mpi.h"
using namespace vt;
using namespace polytope;
typedef std::vector<double> VD;
typedef long long LL;
static void bad(const std::string& k, const std::string& s) { R().viol(k, s); }

// Points and facets of a domain, stored contiguously loop by loop.
static void flatten(const Dom& d, VD& pts, PLC<2, double>& plc) {
  for (size_t l = 0; l < d.loops.size(); ++l) {
    int o = pts.size() / 2, k = d.loops[l].size(); std::vector<std::vector<int>> f;
    for (int i = 0; i < k; ++i) { pts.push_back(d.loops[l][i].x); pts.push_back(d.loops[l][i].y); f.push_back({o + i, o + (i + 1) % k}); }
    if (l == 0) plc.facets = f; else plc.holes.push_back(f);
  }
}
static Dom unitScale(Rng& r) {      // a domain of moderate size
  Dom d;
  do d = makeDom(r, r.i(0, D_NKINDS - 1)); while (d.L < 0.05 || d.L > 2000);
  return d;
}

// ---- nearestPoint / within ---------------------------------------------------------------
static void queries(Rng& r) {
  Dom d = unitScale(r); VD pts; PLC<2, double> plc; flatten(d, pts, plc);
  R().desc = Str() << d.name << "/loops=" << d.loops.size() << " L=" << d.L;
  uint64_t h = fnv(pts.data(), 8 * pts.size()); int ins = 0;
  for (int k = 0; k < 200; ++k) {
    P p;
    int kind = r.i(0, 5);
    const Loop& l = d.loops[r.i(0, d.loops.size() - 1)]; size_t e = r.i(0, l.size() - 1); P a = l[e], b = l[(e + 1) % l.size()];
    if (kind == 0) p = a;                                                        // a vertex
    else if (kind == 1) { double t = r.u(); p = {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}; }     // on an edge
    else if (kind == 2) { double t = r.u(-0.2, 1.2), s = r.u(-0.05, 0.05) * d.L, n = std::max(dist(a, b), 1e-300); p = {a.x + t * (b.x - a.x) - s * (b.y - a.y) / n, a.y + t * (b.y - a.y) + s * (b.x - a.x) / n}; }
    else if (kind == 3) p = {r.u(d.lo.x - d.L, d.hi.x + d.L), r.u(d.lo.y - d.L, d.hi.y + d.L)};
    else p = {r.u(d.lo.x, d.hi.x), r.p(0.2) ? a.y : r.u(d.lo.y, d.hi.y)};        // level with a vertex
    // reference distance
    LD best = 1e300L; bool tie = false; (void)tie;
    for (auto& q : d.loops) for (size_t i = 0; i < q.size(); ++i) {
      P s = q[i], t = q[(i + 1) % q.size()]; LD ux = LD(t.x) - s.x, uy = LD(t.y) - s.y, w = ((LD(p.x) - s.x) * ux + (LD(p.y) - s.y) * uy) / (ux * ux + uy * uy);
      w = std::max<LD>(0, std::min<LD>(1, w)); best = std::min(best, ldist(p.x, p.y, s.x + w * ux, s.y + w * uy));
    }
    double res[2] = {1e300, 1e300}, pt[2] = {p.x, p.y};
    double got = nearestPoint(pt, unsigned(pts.size() / 2), &pts[0], plc, res);
    const double tol = 1e-11 * (d.L + std::abs(p.x) + std::abs(p.y));
    if (std::abs(got - best) > tol) { bad("nearest_distance", Str() << "distance from (" << p.x << "," << p.y << ") is " << double(best) << ", got " << got); break; }
    if (std::abs(dist(p, {res[0], res[1]}) - got) > tol) { bad("nearest_point", Str() << "returned point is " << dist(p, {res[0], res[1]}) << " away, returned distance " << got); break; }
    double on = 1e300; for (auto& q : d.loops) for (size_t i = 0; i < q.size(); ++i) on = std::min(on, segDist({res[0], res[1]}, q[i], q[(i + 1) % q.size()]));
    if (on > tol) { bad("nearest_off_boundary", Str() << "returned point is " << on << " off the boundary"); break; }
    R().count("nearest_queries");
    // inside?
    bool ref, known = false;
    if (best > 1e-4 * std::max(1.0, d.L)) { ref = inLoop(d.loops[0], p); for (size_t i = 1; i < d.loops.size(); ++i) if (inLoop(d.loops[i], p)) ref = false; known = true; }
    else if (kind == 0) { ref = true; known = true; }                             // boundary points count as inside, holes' too
    else if (kind == 1 && (a.x == b.x || a.y == b.y)) { if (a.x == b.x) p.x = a.x; else p.y = a.y; pt[0] = p.x; pt[1] = p.y; ref = true; known = true; }
    if (known) {
      bool w = within(pt, unsigned(pts.size() / 2), &pts[0], plc);
      if (w != ref) { bad("within", Str() << "point (" << p.x << "," << p.y << ") kind " << kind << (ref ? " is inside" : " is outside") << " but was classified otherwise; boundary distance " << double(best)); break; }
      R().count("within_queries"); ins += w; if (best < 1e-9) R().count("within_on_boundary");
    }
  }
  R().distinct(mix(h, ins), d.loops.size() > 1 || d.loops[0].size() > 4); R().sample(Str() << R().desc << " -> " << ins << " inside");
}

// ---- intersect: exact reference on small integers ----------------------------------------------
struct Q { LL n, d; };   // rational, d > 0
static Q norm(__int128 n, __int128 d) { if (d < 0) { n = -n; d = -d; } __int128 a = n < 0 ? -n : n, b = d; while (b) { auto t = a % b; a = b; b = t; } if (a == 0) a = 1; return {LL(n / a), LL(d / a)}; }
// No corner on another side, no two sides crossing.
static bool simpleLoop(const std::vector<std::pair<LL, LL>>& v) {
  int n = v.size(); if (n < 3) return false;
  auto o = [&](int a, int b, int c) { LL d = (v[b].first - v[a].first) * (v[c].second - v[a].second) - (v[b].second - v[a].second) * (v[c].first - v[a].first); return d > 0 ? 1 : d < 0 ? -1 : 0; };
  auto in = [&](int a, int b, int c) { return o(a, b, c) == 0 && std::min(v[a].first, v[b].first) <= v[c].first && v[c].first <= std::max(v[a].first, v[b].first) && std::min(v[a].second, v[b].second) <= v[c].second && v[c].second <= std::max(v[a].second, v[b].second); };
  for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) if (k != i && k != (i + 1) % n && in(i, (i + 1) % n, k)) return false;
  for (int i = 0; i < n; ++i) for (int j = i + 2; j < n; ++j) { int a = i, b = i + 1, c = j, d = (j + 1) % n; if (d == a) continue; if (o(a, b, c) * o(a, b, d) < 0 && o(c, d, a) * o(c, d, b) < 0) return false; }
  return true;
}
static void crossings(Rng& r) {
  // A simple polygon (and a hole) with small integer vertices.
  auto poly = [&](int cx, int cy, int rad, int n) {
    std::vector<std::pair<LL, LL>> v; std::vector<double> ang; for (int i = 0; i < n; ++i) ang.push_back(r.u(0, 6.2831853)); std::sort(ang.begin(), ang.end());
    for (double a : ang) { double q = rad * (r.p(0.5) ? 1 : r.u(0.4, 1)); LL x = cx + LL(std::floor(q * std::cos(a) + 0.5)), y = cy + LL(std::floor(q * std::sin(a) + 0.5)); if (v.empty() || (v.back() != std::make_pair(x, y) && v.front() != std::make_pair(x, y))) v.push_back({x, y}); }
    return v;
  };
  std::vector<std::vector<std::pair<LL, LL>>> loops; int kind = r.i(0, 2);
  int S = r.p(0.5) ? 6 : 100;
  if (kind == 0) loops.push_back({{0, 0}, {S, 0}, {S, S}, {0, S}}); else do { loops.clear(); loops.push_back(poly(S / 2, S / 2, S / 2, r.i(3, 9))); } while (!simpleLoop(loops[0]));
  if (kind != 1 && r.p(0.6)) { LL a = S / 3, b = 2 * S / 3; loops.push_back({{a, a}, {a, b}, {b, b}, {b, a}}); }
  VD pts; PLC<2, double> plc; 
  for (size_t l = 0; l < loops.size(); ++l) { int o = pts.size() / 2, k = loops[l].size(); std::vector<std::vector<int>> f; for (int i = 0; i < k; ++i) { pts.push_back(loops[l][i].first); pts.push_back(loops[l][i].second); f.push_back({o + i, o + (i + 1) % k}); } if (l) plc.holes.push_back(f); else plc.facets = f; }
  R().desc = Str() << "integer polygon " << loops[0].size() << " sides, " << loops.size() - 1 << " holes, size " << S; uint64_t h = fnv(pts.data(), 8 * pts.size());
  for (int k = 0; k < 60; ++k) {
    LL ax = r.i(-S / 3, S + S / 3), ay = r.i(-S / 3, S + S / 3), bx = r.i(-S / 3, S + S / 3), by = r.i(-S / 3, S + S / 3);
    int q = r.i(0, 4); if (q == 0) by = ay; if (q == 1) bx = ax; if (q == 2) { auto& v = loops[0][r.i(0, loops[0].size() - 1)]; ax = v.first; ay = v.second; } if (q == 3) { auto& v = loops.back()[r.i(0, loops.back().size() - 1)]; ax = 2 * v.first - bx; ay = 2 * v.second - by; }
    if (ax == bx && ay == by) continue;
    std::vector<std::pair<LD, LD>> ref; size_t total = 0;
    for (auto& l : loops) {
      std::set<std::pair<std::pair<LL, LL>, std::pair<LL, LL>>> seen;
      for (size_t i = 0; i < l.size(); ++i) {
        LL cx = l[i].first, cy = l[i].second, dx = l[(i + 1) % l.size()].first, dy = l[(i + 1) % l.size()].second;
        LL den = (bx - ax) * (dy - cy) - (by - ay) * (dx - cx); if (den == 0) continue;
        LL t = (cx - ax) * (dy - cy) - (cy - ay) * (dx - cx), u = (cx - ax) * (by - ay) - (cy - ay) * (bx - ax);
        if (den < 0) { den = -den; t = -t; u = -u; }
        if (t < 0 || t > den || u < 0 || u > den) continue;
        Q x = norm((__int128)ax * den + (__int128)t * (bx - ax), den), y = norm((__int128)ay * den + (__int128)t * (by - ay), den);
        if (seen.insert({{x.n, x.d}, {y.n, y.d}}).second) ref.push_back({LD(x.n) / x.d, LD(y.n) / y.d});
      }
      total += seen.size();
    }
    double p1[2] = {double(ax), double(ay)}, p2[2] = {double(bx), double(by)}; VD out;
    unsigned n = intersect(p1, p2, unsigned(pts.size() / 2), &pts[0], plc, out);
    if (n != total || out.size() != 2 * total) { bad("intersect_count", Str() << "segment (" << ax << "," << ay << ")-(" << bx << "," << by << ") meets the boundary in " << total << " points, got " << n << " and " << out.size() / 2 << " coordinates"); break; }
    std::vector<char> hit(total, 0); bool okp = true;
    for (size_t i = 0; i < total && okp; ++i) { bool f = false; for (size_t j = 0; j < total && !f; ++j) if (!hit[j] && ldist(out[2 * i], out[2 * i + 1], ref[j].first, ref[j].second) < 1e-6 * S) { hit[j] = 1; f = true; } okp = f; }
    if (!okp) { bad("intersect_point", Str() << "segment (" << ax << "," << ay << ")-(" << bx << "," << by << ") reported a point that is not a crossing"); break; }
    R().count("segments"); R().count("crossings", total); h = mix(h, n);
  }
  R().distinct(h, true); R().sample(R().desc);
}

// ---- convex hulls ------------------------------------------------------------------------
static void hull2(Rng& r) {
  const int n = r.i(1, 60), kind = r.i(0, 6); const double L = std::pow(10, r.u(-2, 3)), dx = L * std::pow(10, r.u(-8.5, -6)); P o{r.u(-5, 5) * L, r.u(-5, 5) * L};
  VD p; const double ang = r.u(0, 6.28);
  for (int i = 0; i < n; ++i) {
    double x, y;
    switch (kind) {
      case 0: x = r.u(); y = r.u(); break;
      case 1: x = r.i(0, 4) / 4.0; y = r.i(0, 4) / 4.0; break;                                  // lattice with duplicates and collinear runs
      case 2: x = 0.5 + 0.5 * std::cos(0.1 * i); y = 0.5 + 0.5 * std::sin(0.1 * i); break;
      case 3: { double t = r.i(0, 10) / 10.0; x = t; y = 0.25; break; }                        // collinear, axis
      case 4: x = r.p(0.8) ? 0.5 : r.u(); y = r.p(0.8) ? 0.5 : r.u(); break;                    // many duplicates
      case 5: { double t = r.i(0, 7) / 8.0; x = t; y = t / 2; break; }                          // collinear, slanted
      default: x = 0.5 + 0.4 * std::cos(ang + i * 0.7) * r.u(); y = 0.5 + 0.4 * std::sin(ang + i * 0.7); break;
    }
    p.push_back(o.x + x * L); p.push_back(o.y + y * L);
  }
  double low[2] = {1e300, 1e300}; for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) low[k] = std::min(low[k], p[2 * i + k]);
  R().desc = Str() << "hull2 kind=" << kind << " n=" << n << " L=" << L << " dx=" << dx / L << "L";
  PLC<2, double> h = convexHull_2d(p, low, dx);
  const int m = h.facets.size(); auto pt = [&](int i) { return P{p[2 * i], p[2 * i + 1]}; };
  for (auto& f : h.facets) { if (f.size() != 2) { bad("hull_facet", "facet without two points"); return; } for (int k : f) if (k < 0 || k >= n) { bad("hull_index", Str() << "facet names point " << k << " of " << n); return; } }
  if (m == 0) { bad("hull_empty", "no facets"); return; }
  for (int i = 0; i < m; ++i) if (m > 1 && h.facets[i][1] != h.facets[(i + 1) % m][0]) { bad("hull_open", Str() << "facet " << i << " does not lead to the next"); return; }
  // width of the set: is it a real polygon?
  double w = 0; { int a = 0, b = 0; for (int i = 0; i < n; ++i) if (dist(pt(i), pt(0)) > dist(pt(a), pt(0))) a = i; for (int i = 0; i < n; ++i) if (dist(pt(i), pt(a)) > dist(pt(b), pt(a))) b = i; double l = dist(pt(a), pt(b)); if (l > 0) for (int i = 0; i < n; ++i) w = std::max(w, double(std::abs(cross(pt(a), pt(b), pt(i)))) / l); }
  const double tol = 4 * dx;
  if (w > 1e-3 * L) {
    if (m < 3) { bad("hull_degenerate", Str() << "points span a polygon of width " << w / L << " L, hull has " << m << " facets"); return; }
    Loop l; for (auto& f : h.facets) l.push_back(pt(f[0]));
    if (loopArea(l) <= 0) bad("hull_orientation", "hull is not counter-clockwise");
    for (int i = 0; i < m; ++i) { P a = l[i], b = l[(i + 1) % m]; double len = dist(a, b); if (len < dx) { bad("hull_short", "hull has a facet without length"); return; } for (int k = 0; k < n; ++k) if (cross(a, b, pt(k)) / len < -tol) { bad("hull_point_outside", Str() << "point " << k << " is " << -double(cross(a, b, pt(k)) / len) / L << " L outside facet " << i); return; } 
      if (cross(a, b, l[(i + 2) % m]) < -tol * len) { bad("hull_not_convex", Str() << "at corner " << i); return; } }
    R().count("hull2_polygons");
  } else if (w < 1e-12 * L && n > 2) {       // collinear: the two extreme points
    int lo = 0, hi = 0; for (int i = 0; i < n; ++i) { if (pt(i) < pt(lo)) lo = i; if (pt(hi) < pt(i)) hi = i; }
    if (m != 1) { bad("hull_collinear", Str() << "collinear points gave " << m << " facets"); return; }
    double e = std::min(dist(pt(h.facets[0][0]), pt(lo)) + dist(pt(h.facets[0][1]), pt(hi)), dist(pt(h.facets[0][1]), pt(lo)) + dist(pt(h.facets[0][0]), pt(hi)));
    if (e > tol) bad("hull_extremes", Str() << "the facet of collinear points misses their ends by " << e / L << " L");
    R().count("hull2_lines");
  }
  uint64_t hh = fnv(&n, sizeof n); for (auto& f : h.facets) hh = fnv(f.data(), 8, hh); R().distinct(mix(hh, kind), m > 2); R().sample(Str() << R().desc << " -> " << m << " facets");
}

typedef std::array<LL, 3> I3;
static I3 sub3(I3 a, I3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static I3 cr3(I3 a, I3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static LL dot3(I3 a, I3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static std::vector<I3> pts3(Rng& r, int n, int S) {
  std::vector<I3> v; int kind = r.i(0, 4);
  for (int i = 0; i < n; ++i) {
    if (kind == 0) v.push_back({r.i(0, S), r.i(0, S), r.i(0, S)});
    else if (kind == 1) { double a = r.u(0, 6.28), z = r.u(-1, 1), q = std::sqrt(1 - z * z); v.push_back({LL(S / 2 * (1 + q * std::cos(a))), LL(S / 2 * (1 + q * std::sin(a))), LL(S / 2 * (1 + z))}); }
    else if (kind == 2) v.push_back({S * LL(r.i(0, 1)), S * LL(r.i(0, 1)), S * LL(r.i(0, 1))});          // box corners, repeated
    else if (kind == 3) v.push_back({S / 4 * LL(r.i(0, 4)), S / 4 * LL(r.i(0, 4)), S / 4 * LL(r.i(0, 4))});  // lattice: coplanar and repeated
    else v.push_back({r.i(0, S), r.i(0, S), r.p(0.5) ? 0 : r.i(0, S)});
  }
  return v;
}
static bool fullRank(const std::vector<I3>& v) {
  for (auto& a : v) { I3 u = sub3(a, v[0]); if (!dot3(u, u)) continue; for (auto& b : v) { I3 c = cr3(u, sub3(b, v[0])); if (!dot3(c, c)) continue; for (auto& d : v) if (dot3(c, sub3(d, v[0]))) return true; return false; } }
  return false;
}
static void hull3(Rng& r) {
  std::vector<I3> v; const int S = r.p(0.3) ? 8 : 40;
  do v = pts3(r, r.i(4, 40), S); while (!fullRank(v));
  const double sc = std::pow(2, r.i(-3, 3)), ox = r.i(-100, 100), oy = r.i(-100, 100), oz = r.i(-100, 100);
  VD p; for (auto& q : v) { p.push_back(sc * (q[0] + ox)); p.push_back(sc * (q[1] + oy)); p.push_back(sc * (q[2] + oz)); }
  double low[3] = {p[0], p[1], p[2]}; const double dx = sc * S * 1e-6;
  R().desc = Str() << "hull3 n=" << v.size() << " S=" << S << " scale=" << sc;
  PLC<3, double> h = convexHull_3d(p, low, dx);
  std::map<std::pair<I3, I3>, int> edges; LL vol6 = 0;
  for (auto& f : h.facets) {
    if (f.size() < 3) { bad("hull3_facet", "facet with fewer than three points"); return; }
    for (int k : f) if (k < 0 || k >= int(v.size())) { bad("hull3_index", Str() << "facet names point " << k << " of " << v.size()); return; }
    I3 a = v[f[0]], n = cr3(sub3(v[f[1]], a), sub3(v[f[2]], a));
    if (!dot3(n, n)) { bad("hull3_flat_facet", "facet without area"); return; }
    for (size_t k = 0; k < v.size(); ++k) if (dot3(n, sub3(v[k], a)) > 0) { bad("hull3_point_outside", Str() << "point " << k << " is outside a facet"); return; }
    for (size_t i = 0; i < f.size(); ++i) edges[{v[f[i]], v[f[(i + 1) % f.size()]]}]++;
    for (size_t i = 1; i + 1 < f.size(); ++i) vol6 += dot3(sub3(v[f[0]], v[0]), cr3(sub3(v[f[i]], v[0]), sub3(v[f[i + 1]], v[0])));
  }
  for (auto& e : edges) if (e.second != 1 || !edges.count({e.first.second, e.first.first})) { bad("hull3_open", "the facets do not close up: an edge lacks its opposite"); return; }
  if (vol6 <= 0) bad("hull3_volume", Str() << "six times the enclosed volume is " << vol6);
  R().count("hull3_facets", h.facets.size());
  uint64_t hh = fnv(v.data(), v.size() * sizeof(I3)); R().distinct(hh, h.facets.size() > 4); R().sample(Str() << R().desc << " -> " << h.facets.size() << " facets");
}

// ---- convex relations ----------------------------------------------------------------------
typedef std::vector<std::pair<LL, LL>> IL;
static LL crI(std::pair<LL, LL> o, std::pair<LL, LL> a, std::pair<LL, LL> b) { return (a.first - o.first) * (b.second - o.second) - (a.second - o.second) * (b.first - o.first); }
static IL ihull(std::vector<std::pair<LL, LL>> v) {
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() < 3) return v;
  IL h(2 * v.size()); size_t k = 0;
  for (size_t i = 0; i < v.size(); ++i) { while (k >= 2 && crI(h[k - 2], h[k - 1], v[i]) <= 0) --k; h[k++] = v[i]; }
  for (size_t i = v.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && crI(h[k - 2], h[k - 1], v[i]) <= 0) --k; h[k++] = v[i]; }
  h.resize(k - 1); return h;
}
static ReducedPLC<2, double> plcOf(const IL& l, double s) { ReducedPLC<2, double> p; int n = l.size(); for (int i = 0; i < n; ++i) { p.points.push_back(s * l[i].first); p.points.push_back(s * l[i].second); p.facets.push_back({i, (i + 1) % n}); } return p; }
static ReducedPLC<3, double> hullPLC(const std::vector<I3>& v) {      // brute-force hull facets (triangles), exact
  ReducedPLC<3, double> h; size_t n = v.size();
  for (auto& q : v) for (int k = 0; k < 3; ++k) h.points.push_back(q[k]);
  // gift-wrap style: every triple that has all points on one side; coplanar sets merged into one polygon by the 2D hull in the plane
  std::set<std::array<LL, 4>> planes;
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) if (i < j && i < k && j != k) {
    I3 nn = cr3(sub3(v[j], v[i]), sub3(v[k], v[i])); if (!dot3(nn, nn)) continue; bool ok = true;
    std::vector<int> on; for (size_t q = 0; q < n && ok; ++q) { LL s = dot3(nn, sub3(v[q], v[i])); if (s > 0) ok = false; else if (s == 0) on.push_back(q); }
    if (!ok) continue;
    LL g = std::__gcd(std::__gcd(std::abs(nn[0]), std::abs(nn[1])), std::abs(nn[2])); I3 u{nn[0] / g, nn[1] / g, nn[2] / g};
    if (!planes.insert({u[0], u[1], u[2], dot3(u, v[i])}).second) continue;
    // order the points of this face counter-clockwise about the outward normal: planar hull along the two dominant axes
    int ax = 0; for (int a = 1; a < 3; ++a) if (std::abs(u[a]) > std::abs(u[ax])) ax = a; int b = (ax + 1) % 3, c = (ax + 2) % 3; if (u[ax] < 0) std::swap(b, c);
    std::vector<std::pair<LL, LL>> q; std::map<std::pair<LL, LL>, int> id; for (int o : on) { q.push_back({v[o][b], v[o][c]}); id.emplace(q.back(), o); }
    std::vector<int> f; for (auto& w : ihull(q)) f.push_back(id[w]); h.facets.push_back(f);
  }
  return h;
}
static void gap(const std::vector<I3>& a, const std::vector<I3>& b, I3 n, bool& sep, bool& touch) {
  if (!dot3(n, n)) return; LL a0 = LLONG_MAX, a1 = LLONG_MIN, b0 = LLONG_MAX, b1 = LLONG_MIN;
  for (auto& p : a) { LL s = dot3(n, p); a0 = std::min(a0, s); a1 = std::max(a1, s); }
  for (auto& p : b) { LL s = dot3(n, p); b0 = std::min(b0, s); b1 = std::max(b1, s); }
  if (a1 < b0 || b1 < a0) sep = true; else if (a1 == b0 || b1 == a0) touch = true;
}
static void convex(Rng& r) {
  uint64_t h = 0;
  for (int k = 0; k < 20; ++k) {
    const double s = std::pow(2, r.i(-6, 6));
    auto mk = [&](int S, int ox, int oy) { IL l; do { std::vector<std::pair<LL, LL>> v; int n = r.i(3, 10); for (int i = 0; i < n; ++i) v.push_back({ox + r.i(0, S), oy + r.i(0, S)}); l = ihull(v); } while (l.size() < 3); return l; };
    IL a = mk(r.i(3, 30), r.i(-30, 30), r.i(-30, 30)), b = mk(r.i(3, 40), r.i(-30, 30), r.i(-30, 30));
    if (r.p(0.3)) { a.clear(); IL q; do { std::vector<std::pair<LL, LL>> v; for (int i = 0; i < 4; ++i) { auto& c = b[r.i(0, b.size() - 1)]; auto& e = b[r.i(0, b.size() - 1)]; auto& g = b[r.i(0, b.size() - 1)]; v.push_back({(c.first + e.first + g.first) / 3, (c.second + e.second + g.second) / 3}); } q = ihull(v); if (q.size() < 3) q = mk(8, 0, 0); } while (q.size() < 3); a = q; }
    bool sep = false, touch = false;
    auto test = [&](const IL& u, const IL& w) { for (size_t i = 0; i < u.size(); ++i) { LL mx = LLONG_MIN; for (auto& p : w) mx = std::max(mx, crI(u[i], u[(i + 1) % u.size()], p)); if (mx < 0) sep = true; else if (mx == 0) touch = true; } };
    test(a, b); test(b, a);
    bool in = true, onb = false; for (size_t i = 0; i < b.size(); ++i) for (auto& p : a) { LL c = crI(b[i], b[(i + 1) % b.size()], p); if (c < 0) in = false; if (c == 0) onb = true; }
    auto A = plcOf(a, s), B = plcOf(b, s); bool x = convexIntersect(A, B), y = convexIntersect(B, A), w = convexWithin(A, B);
    if (sep || !touch) { if (x == sep || y == sep) { bad("convex2_intersect", Str() << "polygons " << (sep ? "are disjoint" : "overlap") << " but the answers are " << x << " and " << y); return; } R().count(sep ? "disjoint2" : "overlap2"); }
    if (!(in && onb)) { if (w != in) { bad("convex2_within", Str() << "the first polygon is " << (in ? "" : "not ") << "inside the second, but got " << w); return; } R().count(in ? "within2" : "notwithin2"); }
    h = mix(h, x * 2 + w);
    for (auto& q : a) h = mix(h, q.first * 1000 + q.second);
  }
  for (int k = 0; k < 6; ++k) {
    const int S = r.i(4, 12); auto mk = [&](I3 o, int n) { std::vector<I3> v; do { v = pts3(r, n, S); } while (!fullRank(v)); for (auto& q : v) for (int i = 0; i < 3; ++i) q[i] += o[i]; return v; };
    auto va = mk({r.i(-9, 9), r.i(-9, 9), r.i(-9, 9)}, r.i(4, 8)), vb = mk({r.i(-9, 9), r.i(-9, 9), r.i(-9, 9)}, r.i(4, 8));
    if (r.p(0.25)) { I3 c{0, 0, 0}; vb = mk({-20, -20, -20}, 8); for (auto& q : vb) { for (int i = 0; i < 3; ++i) q[i] = q[i] * 3; } (void)c; va.clear(); for (int i = 0; i < 4; ++i) { I3 z{0, 0, 0}; for (int j = 0; j < 3; ++j) { auto& q = vb[r.i(0, 7)]; for (int m = 0; m < 3; ++m) z[m] += q[m]; } for (int m = 0; m < 3; ++m) z[m] /= 3; va.push_back(z); } if (!fullRank(va)) continue; }
    auto A = hullPLC(va), B = hullPLC(vb);
    auto dirs = [&](const std::vector<I3>& v, const ReducedPLC<3, double>& h, std::vector<I3>& n, std::vector<I3>& e) { for (auto& f : h.facets) { n.push_back(cr3(sub3(v[f[1]], v[f[0]]), sub3(v[f[2]], v[f[0]]))); for (size_t i = 0; i < f.size(); ++i) e.push_back(sub3(v[f[(i + 1) % f.size()]], v[f[i]])); } };
    std::vector<I3> na, nb, ea, eb; dirs(va, A, na, ea); dirs(vb, B, nb, eb);
    bool sep = false, touch = false, faceSep = false; for (auto& n : na) gap(va, vb, n, sep, touch); for (auto& n : nb) gap(va, vb, n, sep, touch); faceSep = sep;
    for (auto& x : ea) for (auto& y : eb) gap(va, vb, cr3(x, y), sep, touch);
    bool x = convexIntersect(A, B), y = convexIntersect(B, A);
    if (sep || !touch) { if (x == sep || y == sep) { bad("convex3_intersect", Str() << "polyhedra " << (sep ? "are disjoint" : "overlap") << " but the answers are " << x << " and " << y); return; } R().count(sep ? (faceSep ? "disjoint3" : "disjoint3_by_edges") : "overlap3"); }
    bool in = true, onb = false; for (size_t f = 0; f < B.facets.size(); ++f) for (auto& p : va) { LL c = dot3(nb[f], sub3(p, vb[B.facets[f][0]])); if (c > 0) in = false; if (c == 0) onb = true; }
    if (!(in && onb)) { bool w = convexWithin(A, B); if (w != in) { bad("convex3_within", Str() << "the first polyhedron is " << (in ? "" : "not ") << "inside the second, but got " << w); return; } R().count(in ? "within3" : "notwithin3"); }
    h = mix(h, x); for (auto& q : va) h = mix(h, q[0] * 10000 + q[1] * 100 + q[2]);
  }
  R().desc = "convex pairs"; R().distinct(h, true); R().sample("20 polygon pairs and 6 polyhedron pairs on small integers");
}

// ---- measures and elementary constructions --------------------------------------------------------
static bool close(LD a, LD b, LD tol) { return std::abs(a - b) <= tol; }
static void measures(Rng& r) {
  uint64_t h = 0;
  {   // polygonal mesh cells
    Dom d = makeDom(r, r.i(0, 5)); while (d.L < 1e-3 || d.L > 1e4) d = makeDom(r, r.i(0, 5)); VD g = makeGens(r, d, r.i(0, G_NKINDS - 1), r.i(2, 40));
    Tessellation<2, double> m; BoostTessellator<double> bt; ReducedPLC<2, double> plc; flatten(d, plc.points, plc); 
    const double off = std::max(std::abs(d.lo.x), std::max(std::abs(d.hi.y), std::max(std::abs(d.lo.y), std::abs(d.hi.x)))) + d.L;
    bt.tessellate(g, plc, m); R().desc = Str() << "cells of " << d.name << " n=" << g.size() / 2;
    for (size_t c = 0; c < m.cells.size(); ++c) {
      Loop l; std::set<unsigned> nodes; for (int f : m.cells[c]) { unsigned k = f < 0 ? m.faces[~f][1] : m.faces[f][0]; l.push_back({m.nodes[2 * k], m.nodes[2 * k + 1]}); nodes.insert(k); }
      LD A = 0, cx = 0, cy = 0; for (size_t i = 0; i < l.size(); ++i) { P a = l[i], b = l[(i + 1) % l.size()]; LD w = LD(a.x - l[0].x) * (b.y - l[0].y) - LD(a.y - l[0].y) * (b.x - l[0].x); A += w; cx += w * (LD(a.x - l[0].x) + (b.x - l[0].x)); cy += w * (LD(a.y - l[0].y) + (b.y - l[0].y)); }
      A /= 2; double cc[2], area; geometry::computeCellCentroidAndSignedArea(m, unsigned(c), 1e-30, cc, area);
      const double ea = 1e-14 * l.size() * off * off;
      if (!close(area, A, ea)) { bad("cell_area", Str() << "area " << area << " of a cell with area " << double(A)); break; }
      cx = cx / (6 * A) + l[0].x; cy = cy / (6 * A) + l[0].y; const double ec = 4 * ea * off / double(std::abs(A)) + 1e-13 * off;
      if (!close(cc[0], cx, ec) || !close(cc[1], cy, ec)) { bad("cell_centroid", Str() << "centroid (" << cc[0] << "," << cc[1] << ") should be (" << double(cx) << "," << double(cy) << ") +- " << ec); break; }
      LD sx = 0, sy = 0; for (unsigned k : nodes) { sx += m.nodes[2 * k]; sy += m.nodes[2 * k + 1]; } geometry::computeCellCentroid(m, unsigned(c), cc);
      if (!close(cc[0], sx / nodes.size(), 1e-13 * off) || !close(cc[1], sy / nodes.size(), 1e-13 * off)) { bad("cell_node_average", "mean node position is off"); break; }
      ReducedPLC<2, double> q = geometry::cellToReducedPLC(m, unsigned(c)); bool ok = q.facets.size() == l.size() && q.points.size() == 2 * l.size();
      size_t s = 0; if (ok) { while (s < l.size() && (l[s].x != q.points[0] || l[s].y != q.points[1])) ++s; for (size_t i = 0; ok && i < l.size(); ++i) { P e = l[(s + i) % l.size()]; ok = s < l.size() && q.points[2 * i] == e.x && q.points[2 * i + 1] == e.y && q.facets[i].size() == 2 && q.facets[i][0] == int(i) && q.facets[i][1] == int((i + 1) % l.size()); } }
      if (!ok) { bad("cell_outline", Str() << "the outline of cell " << c << " is not its nodes in order"); break; }
      R().count("cells_measured"); h = mix(h, uint64_t(area * 1e6));
    }
  }
  {   // a brick mesh in three dimensions, sheared
    int nx = r.i(1, 3), ny = r.i(1, 3), nz = r.i(1, 3); Tessellation<3, double> m; double sh[3][3]; for (auto& q : sh) for (auto& x : q) x = r.u(-0.3, 0.3); for (int i = 0; i < 3; ++i) sh[i][i] += 1;
    auto nid = [&](int i, int j, int k) { return unsigned(i + (nx + 1) * (j + (ny + 1) * k)); };
    for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) for (int a = 0; a < 3; ++a) m.nodes.push_back(sh[a][0] * i + sh[a][1] * j + sh[a][2] * k);
    LD det = LD(sh[0][0]) * (LD(sh[1][1]) * sh[2][2] - LD(sh[1][2]) * sh[2][1]) - LD(sh[0][1]) * (LD(sh[1][0]) * sh[2][2] - LD(sh[1][2]) * sh[2][0]) + LD(sh[0][2]) * (LD(sh[1][0]) * sh[2][1] - LD(sh[1][1]) * sh[2][0]);
    std::map<std::vector<unsigned>, int> fid; m.cells.resize(nx * ny * nz);
    auto face = [&](int c, std::vector<unsigned> f) { auto s = f; std::sort(s.begin(), s.end()); if (!fid.count(s)) { fid[s] = m.faces.size(); std::rotate(f.begin(), f.begin() + r.i(0, 3), f.end()); m.faces.push_back(f); m.faceCells.push_back({c}); m.cells[c].push_back(fid[s]); } else { m.cells[c].push_back(~fid[s]); m.faceCells[fid[s]].push_back(~c); } };
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int c = i + nx * (j + ny * k); // outward (right-handed) faces
      face(c, {nid(i, j, k), nid(i, j, k + 1), nid(i, j + 1, k + 1), nid(i, j + 1, k)}); face(c, {nid(i + 1, j, k), nid(i + 1, j + 1, k), nid(i + 1, j + 1, k + 1), nid(i + 1, j, k + 1)});
      face(c, {nid(i, j, k), nid(i + 1, j, k), nid(i + 1, j, k + 1), nid(i, j, k + 1)}); face(c, {nid(i, j + 1, k), nid(i, j + 1, k + 1), nid(i + 1, j + 1, k + 1), nid(i + 1, j + 1, k)});
      face(c, {nid(i, j, k), nid(i, j + 1, k), nid(i + 1, j + 1, k), nid(i + 1, j, k)}); face(c, {nid(i, j, k + 1), nid(i + 1, j, k + 1), nid(i + 1, j + 1, k + 1), nid(i, j + 1, k + 1)}); }
    for (unsigned c = 0; c < m.cells.size(); ++c) {
      double cc[3], v; geometry::computeCellCentroidAndSignedVolume(m, c, cc, v); int i = c % nx, j = (c / nx) % ny, k = c / nx / ny;
      if (!close(std::abs(v), std::abs(det), 1e-12)) { bad("cell_volume", Str() << "volume " << v << " of a cell with volume " << double(det)); break; }
      for (int a = 0; a < 3; ++a) if (!close(cc[a], sh[a][0] * (i + 0.5) + sh[a][1] * (j + 0.5) + sh[a][2] * (k + 0.5), 1e-11)) { bad("cell_centroid3", Str() << "centroid component " << a << " is " << cc[a]); break; }
      auto q = geometry::cellToReducedPLC(m, c); if (q.facets.size() != 6 || q.points.size() != 24) { bad("cell_outline3", Str() << q.facets.size() << " facets " << q.points.size() / 3 << " points"); break; }
      LD vol = 0; for (auto& f : q.facets) for (size_t t = 1; t + 1 < f.size(); ++t) { const double *A = &q.points[3 * f[0]], *B = &q.points[3 * f[t]], *C = &q.points[3 * f[t + 1]]; vol += A[0] * (LD(B[1]) * C[2] - LD(B[2]) * C[1]) + A[1] * (LD(B[2]) * C[0] - LD(B[0]) * C[2]) + A[2] * (LD(B[0]) * C[1] - LD(B[1]) * C[0]); }
      if (!close(vol / 6, det, 1e-11)) { bad("cell_outline3", Str() << "outline encloses " << double(vol / 6) << ", the cell " << double(det)); break; }
      R().count("cells3_measured");
    }
  }
  for (int k = 0; k < 30; ++k) {
    double A[3], B[3], C[3], D[3], X[3]; const double o = r.p(0.3) ? r.u(-50, 50) : 0; for (double* q : {A, B, C, D}) for (int i = 0; i < 3; ++i) q[i] = o + r.u(-1, 1);
    auto d2 = [](const double* a, const double* b, int n) { LD s = 0; for (int i = 0; i < n; ++i) s += (LD(a[i]) - b[i]) * (LD(a[i]) - b[i]); return std::sqrt(s); };
    LD ar = (LD(B[0]) - A[0]) * (C[1] - A[1]) - (LD(B[1]) - A[1]) * (C[0] - A[0]);
    if (std::abs(ar) > 0.05) {
      const double tol = 1e-11 * (1 + o * o);
      geometry::computeCircumcenter2d(A, B, C, X); if (!close(d2(X, A, 2), d2(X, B, 2), tol) || !close(d2(X, A, 2), d2(X, C, 2), tol)) bad("circumcenter2d", "not equidistant");
      geometry::computeCircumcenter(A, B, C, X); if (!close(d2(X, A, 2), d2(X, B, 2), tol) || !close(d2(X, A, 2), d2(X, C, 2), tol)) bad("circumcenter", "not equidistant");
      R().count("circumcenters");
    }
    LD a[3], b[3], c[3]; for (int i = 0; i < 3; ++i) { a[i] = LD(B[i]) - A[i]; b[i] = LD(C[i]) - A[i]; c[i] = LD(D[i]) - A[i]; }
    LD n[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}, vol = n[0] * c[0] + n[1] * c[1] + n[2] * c[2], nn = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
    if (std::abs(vol) > 0.1) { geometry::computeCircumcenter3d(A, B, C, D, X); LD q = d2(X, A, 3); if (!close(q, d2(X, B, 3), 1e-10) || !close(q, d2(X, C, 3), 1e-10) || !close(q, d2(X, D, 3), 1e-10)) bad("circumcenter3d", "not equidistant"); }
    if (nn > 0.05) {
      if (!geometry::computeTriangleCircumcenter3d(A, B, C, X)) bad("triangle_circumcenter3d", "refused a proper triangle");
      else { LD q = d2(X, A, 3), off = 0; for (int i = 0; i < 3; ++i) off += n[i] * (LD(X[i]) - A[i]); if (!close(q, d2(X, B, 3), 1e-10) || !close(q, d2(X, C, 3), 1e-10) || std::abs(off) > 1e-9) bad("triangle_circumcenter3d", "not equidistant in the plane"); }
    }
    double nx, ny, nz; geometry::computeNormal(A[0], A[1], A[2], B[0], B[1], B[2], C[0], C[1], C[2], nx, ny, nz);
    if (!close(nx, n[0], 1e-12 * (1 + std::abs(o))) || !close(ny, n[1], 1e-12 * (1 + std::abs(o))) || !close(nz, n[2], 1e-12 * (1 + std::abs(o)))) bad("normal", Str() << "(" << nx << "," << ny << "," << nz << ") should be (" << double(n[0]) << "," << double(n[1]) << "," << double(n[2]) << ")");
    // collinear: far from and on a line
    double E[3]; LD t = r.u(-2, 3); for (int i = 0; i < 3; ++i) E[i] = A[i] + t * a[i];
    if (nn > 0.05 && geometry::collinear<3, double>(A, B, C, 1e-10)) bad("collinear", "a proper triangle was called collinear");
    if (d2(A, B, 3) > 0.1 && o == 0 && !geometry::collinear<3, double>(A, B, E, 1e-8)) bad("collinear", "points on a line were not called collinear");
    { std::vector<double> v(A, A + 3); for (int i = 0; i < 3; ++i) v.push_back(B[i]); if (!geometry::collinear<3, double>(v, 1e-8)) bad("collinear_set", "two points were not called collinear"); for (int i = 0; i < 3; ++i) v.push_back(C[i]); if (nn > 0.05 && geometry::collinear<3, double>(v, 1e-10)) bad("collinear_set", "a proper triangle was called collinear"); }
    // rays
    double dir[3] = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)}; if (r.p(0.2)) dir[r.i(0, 2)] = 0; double dl = std::sqrt(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]); if (dl < 0.1) continue; for (double& x : dir) x /= dl;
    double pn[3]; for (int i = 0; i < 3; ++i) pn[i] = n[i] / std::sqrt(std::max<LD>(nn, 1e-30)); if (nn < 0.05) continue;
    LD nd = 0, num = 0; for (int i = 0; i < 3; ++i) { nd += LD(pn[i]) * dir[i]; num += LD(pn[i]) * (LD(A[i]) - D[i]); }
    if (std::abs(nd) > 1e-3 && std::abs(num) > 1e-3) { bool hit = geometry::rayPlaneIntersection(D, dir, A, pn, 1e-10, X); LD q = num / nd; if (hit != (q > 0)) bad("ray_plane", "hit where it should miss, or the reverse"); else if (hit) for (int i = 0; i < 3; ++i) if (!close(X[i], D[i] + q * dir[i], 1e-9 * (1 + std::abs(q)))) { bad("ray_plane", "hit point is off"); break; } R().count("rays"); }
    { // a ray parallel to the plane: hits iff it starts in the plane
      double par[3], l = 0; for (int i = 0; i < 3; ++i) { par[i] = dir[i] - double(nd) * pn[i]; l += par[i] * par[i]; } l = std::sqrt(l); if (l > 0.2) { for (double& x : par) x /= l; double S[3]; bool in = r.p(0.5); for (int i = 0; i < 3; ++i) S[i] = A[i] + (in ? 0 : 0.37) * pn[i] + 0.5 * double(a[i]); if (geometry::rayPlaneIntersection(S, par, A, pn, 1e-6, X) != in) bad("ray_in_plane", Str() << "a ray " << (in ? "in" : "beside") << " the plane"); } }
    { double ctr[2] = {r.u(-1, 1), r.u(-1, 1)}, rad = r.u(0.5, 3), q = r.u(0, 0.95) * rad, an = r.u(0, 6.28), S[2] = {ctr[0] + q * std::cos(an), ctr[1] + q * std::sin(an)}, u = r.u(0, 6.28), dd[2] = {std::cos(u), std::sin(u)};
      geometry::rayCircleIntersection(S, dd, ctr, rad, 1e-12, X); LD w = (LD(X[0]) - S[0]) * dd[0] + (LD(X[1]) - S[1]) * dd[1], sd = (LD(X[0]) - S[0]) * dd[1] - (LD(X[1]) - S[1]) * dd[0];
      if (!close(d2(X, ctr, 2), rad, 1e-11) || w < 0 || std::abs(sd) > 1e-11) bad("ray_circle", "hit point is not on the ray and the circle"); }
    { double ctr[3] = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)}, rad = r.u(2, 4), S[3] = {ctr[0] + r.u(-1, 1), ctr[1] + r.u(-1, 1), ctr[2] + r.u(-1, 1)};
      geometry::raySphereIntersection(S, dir, ctr, rad, 1e-10, X); LD w = 0, s2 = 0; for (int i = 0; i < 3; ++i) { w += (LD(X[i]) - S[i]) * dir[i]; s2 += (LD(X[i]) - S[i]) * (LD(X[i]) - S[i]); } if (!close(d2(X, ctr, 3), rad, 1e-10) || w < 0 || !close(s2, w * w, 1e-9)) bad("ray_sphere", "hit point is not on the ray and the sphere"); }
    { double lo[3] = {-1, -2, -1.5}, hi[3] = {2, 1, 1}, S[3] = {r.u(-0.9, 1.9), r.u(-1.9, 0.9), r.u(-1.4, 0.9)}, dd[3] = {dir[0], dir[1], dir[2]}; int pl = geometry::rayBoxIntersection(S, dd, lo, hi, 1e-10, X); LD best = 1e30; int bp = -1; for (int i = 0; i < 3; ++i) if (std::abs(dd[i]) > 1e-10) { LD q = ((dd[i] > 0 ? hi[i] : lo[i]) - LD(S[i])) / dd[i]; if (q < best) { best = q; bp = 2 * i + (dd[i] > 0); } }
      if (pl != bp) bad("ray_box", Str() << "left through plane " << pl << " instead of " << bp); else for (int i = 0; i < 3; ++i) if (!close(X[i], S[i] + best * dd[i], 1e-9 * (1 + best))) { bad("ray_box", "hit point is off"); break; } }
    h = mix(h, uint64_t(X[0] * 1e9));
  }
  R().distinct(h, true); R().sample(R().desc);
}

// ---- position hashing, unique points, table search -----------------------------------------------
template <int D> static void hashing(Rng& r, uint64_t& h) {
  typedef geometry::Hasher<D, double> HS;
  const double L = std::pow(10, r.u(-3, 4)); double lo[3], hi[3], lo2[3], hi2[3]; for (int i = 0; i < D; ++i) { lo[i] = r.u(-2, 2) * L; hi[i] = lo[i] + r.u(0.5, 1) * L; lo2[i] = lo[i] - r.u(0, 3) * L; hi2[i] = hi[i] + r.u(0, 3) * L; }
  const double tol = r.p(0.5) ? 0 : L * std::pow(10, r.u(-5, -2));
  double dx[3], dx2[3]; for (int i = 0; i < D; ++i) { dx[i] = std::max(std::max((hi[i] - lo[i]) / HS::coordMax(), 2.3e-16), tol); dx2[i] = std::max(std::max((hi2[i] - lo2[i]) / HS::coordMax(), 2.3e-16), tol); }
  for (int k = 0; k < 40; ++k) {
    double p[3], q[3]; bool outer = false; for (int i = 0; i < D; ++i) { p[i] = r.p(0.1) ? lo[i] : r.p(0.1) ? hi[i] : r.p(0.3) ? r.u(lo2[i], hi2[i]) : r.u(lo[i], hi[i]); if (p[i] < lo[i] || p[i] > hi[i]) outer = true; }
    uint64_t key = HS::hashPosition(p, lo, hi, lo2, hi2, tol); HS::unhashPosition(q, lo, hi, lo2, hi2, key, tol);
    if ((key >> 63) != outer) { bad("hash_flag", Str() << D << "D position " << (outer ? "outside" : "inside") << " the inner box is marked otherwise"); return; }
    for (int i = 0; i < D; ++i) if (std::abs(q[i] - p[i]) > (outer ? dx2 : dx)[i] * 1.01 + 4e-16 * (std::abs(p[i]) + L)) { bad("hash_roundtrip", Str() << D << "D coordinate " << i << " moved by " << std::abs(q[i] - p[i]) / (outer ? dx2 : dx)[i] << " quanta"); return; }
    // points more than two quanta apart in one coordinate have different keys; equal points equal keys
    double p2[3]; std::copy(p, p + D, p2); int ax = r.i(0, D - 1); const double st = 2.5 * (outer ? dx2 : dx)[ax]; p2[ax] += p2[ax] + st < hi[ax] ? st : -st;
    bool in2 = true; for (int i = 0; i < D; ++i) in2 = in2 && p2[i] >= lo2[i] && p2[i] <= hi2[i];
    if (in2 && HS::hashPosition(p2, lo, hi, lo2, hi2, tol) == key) { bad("hash_collision", Str() << D << "D points " << 2.5 << " quanta apart along axis " << ax << " have the same key"); return; }
    R().count("hashes"); h = mix(h, key);
  }
  // uniquePoints
  int n = r.i(1, 60); VD base, pts; for (int i = 0; i < n; ++i) for (int k = 0; k < D; ++k) base.push_back(r.p(0.3) ? lo[k] + (hi[k] - lo[k]) * r.i(0, 4) / 4 : r.u(lo[k], hi[k]));
  std::vector<int> own; for (int i = 0; i < n; ++i) for (int c = r.p(0.4) ? r.i(2, 4) : 1; c > 0; --c) own.push_back(i); r.shuffle(own); for (int o : own) for (int k = 0; k < D; ++k) pts.push_back(base[D * o + k]);
  VD up; std::vector<unsigned> map; geometry::uniquePoints<D, double>(pts, lo, hi, tol, up, map);
  if (map.size() != own.size()) { bad("unique_size", "map has the wrong size"); return; }
  std::set<unsigned> used; for (unsigned u : map) { if (u >= up.size() / D) { bad("unique_range", "map entry out of range"); return; } used.insert(u); } if (used.size() != up.size() / D) { bad("unique_onto", "a unique point has no original"); return; }
  for (size_t i = 0; i < own.size(); ++i) {
    for (int k = 0; k < D; ++k) if (std::abs(up[D * map[i] + k] - pts[D * i + k]) > 1.01 * dx[k] + 1e-15 * L) { bad("unique_far", Str() << "a point was represented by one " << std::abs(up[D * map[i] + k] - pts[D * i + k]) / dx[k] << " tolerances away"); return; }
    for (size_t j = 0; j < i; ++j) if (own[i] == own[j] && map[i] != map[j]) { bad("unique_split", "equal points got different numbers"); return; }
  }
  for (size_t i = 0; i < up.size() / D; ++i) { bool f = false; for (size_t j = 0; j < own.size() && !f; ++j) { f = map[j] == i; for (int k = 0; k < D && f; ++k) f = up[D * i + k] == pts[D * j + k]; } if (!f) { bad("unique_not_input", "a unique point is not one of the inputs"); return; } }
  R().count("unique_sets");
}
static void hashes(Rng& r) {
  uint64_t h = 0; R().desc = "hashing"; hashing<2>(r, h); hashing<3>(r, h);
  for (int k = 0; k < 20; ++k) {
    int n = r.i(1, 30); std::vector<double> t; for (int i = 0; i < n; ++i) t.push_back(r.p(0.3) ? r.i(-5, 5) : r.u(-6, 6)); std::sort(t.begin(), t.end()); bool desc = n > 1 && t.front() != t.back() && r.p(0.3); if (desc) std::reverse(t.begin(), t.end());
    double v = r.p(0.4) ? t[r.i(0, n - 1)] : r.u(-7, 7); int j = bisectSearch(t, v);
    // ascending: the last entry not above v; descending: the last entry above v
    int ref = -1; for (int i = 0; i < n; ++i) if (desc ? t[i] > v : t[i] <= v) ref = i;
    if (j != ref) { bad("bisect", Str() << "search for " << v << " in " << n << (desc ? " descending" : " ascending") << " entries gave " << j << ", not " << ref); break; } h = mix(h, j + 3); R().count("searches");
  }
  // bounding boxes
  { int n = r.i(1, 50); VD p; for (int i = 0; i < 3 * n; ++i) p.push_back(r.u(-9, 9)); double a[3], b[3]; geometry::computeBoundingBox<3, double>(p, false, a, b); for (int k = 0; k < 3; ++k) { double x = 1e300, y = -1e300; for (int i = 0; i < n; ++i) { x = std::min(x, p[3 * i + k]); y = std::max(y, p[3 * i + k]); } if (a[k] != x || b[k] != y) { bad("bounding_box", "wrong bounding box"); break; } }
    double c[3] = {-3, -3, -3}, d[3] = {20, 3, 3}, c0[3] = {-3, -3, -3}, d0[3] = {20, 3, 3}; geometry::expandBoundingBox<3, double>(&p[0], p.size(), false, c, d); for (int k = 0; k < 3; ++k) if (c[k] != std::min(c0[k], a[k]) || d[k] != std::max(d0[k], b[k])) { bad("bounding_box", "wrong expanded box"); break; } }
  R().distinct(h, true); R().sample("hash round trips in 2D and 3D, a set of points with duplicates, table searches");
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  const std::string mode = argv[1]; uint64_t seed = atoll(argv[2]); long first = atol(argv[3]), cnt = atol(argv[4]);
  R().open(argv[5]);
  for (long c = first; c < first + cnt; ++c) for (Reps rep; rep.next();) {
    R().begin(c); Rng r(mix(mix(seed, fnv(mode.data(), mode.size())), c));
    if (mode == "query") queries(r); else if (mode == "cross") crossings(r); else if (mode == "hull2") hull2(r); else if (mode == "hull3") hull3(r);
    else if (mode == "convex") convex(r); else if (mode == "measure") measures(r); else hashes(r);
  }
  R().finish(); MPI_Finalize();
}

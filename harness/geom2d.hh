// Domains, generator sets and plain 2D geometry for the harness.  Written from
// scratch: none of it calls polytope, so that the oracles do not share code
// with what they judge.
#ifndef VT_GEOM2D_HH
#define VT_GEOM2D_HH
#include "common.hh"
#include <cfloat>
#include <functional>

namespace vt {

typedef long double LD;
struct P { double x, y; };
inline bool operator<(const P& a, const P& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
inline double dist(P a, P b) { return std::hypot(a.x - b.x, a.y - b.y); }
inline LD ldist(LD ax, LD ay, LD bx, LD by) { LD dx = ax - bx, dy = ay - by; return std::sqrt(dx * dx + dy * dy); }
typedef std::vector<P> Loop;

inline LD loopArea(const Loop& l) {       // signed
  LD a = 0; size_t n = l.size();
  if (!n) return 0;
  const LD x0 = l[0].x, y0 = l[0].y;
  for (size_t i = 0; i < n; ++i) { const P &p = l[i], &q = l[(i + 1) % n]; a += (p.x - x0) * (q.y - y0) - (q.x - x0) * (p.y - y0); }
  return a / 2;
}
inline bool inLoop(const Loop& l, P p) {  // even-odd
  bool in = false; size_t n = l.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++) {
    const P &a = l[i], &b = l[j];
    if ((a.y > p.y) != (b.y > p.y)) {
      LD x = LD(b.x - a.x) * LD(p.y - a.y) / LD(b.y - a.y) + a.x;
      if (p.x < x) in = !in;
    }
  }
  return in;
}
inline double segDist(P p, P a, P b, double* tt = nullptr) {
  LD dx = LD(b.x) - a.x, dy = LD(b.y) - a.y, l2 = dx * dx + dy * dy;
  LD t = l2 > 0 ? ((LD(p.x) - a.x) * dx + (LD(p.y) - a.y) * dy) / l2 : 0;
  if (t < 0) t = 0;
  if (t > 1) t = 1;
  if (tt) *tt = t;
  return ldist(p.x, p.y, a.x + t * dx, a.y + t * dy);
}
inline LD cross(P o, P a, P b) { return (LD(a.x) - o.x) * (LD(b.y) - o.y) - (LD(a.y) - o.y) * (LD(b.x) - o.x); }
// Do two segments properly cross or come nearer than tol?
inline bool segsNear(P a, P b, P c, P d, double tol) {
  if (std::max(a.x, b.x) + tol < std::min(c.x, d.x) || std::max(c.x, d.x) + tol < std::min(a.x, b.x) ||
      std::max(a.y, b.y) + tol < std::min(c.y, d.y) || std::max(c.y, d.y) + tol < std::min(a.y, b.y)) return false;
  LD o1 = cross(a, b, c), o2 = cross(a, b, d), o3 = cross(c, d, a), o4 = cross(c, d, b);
  if (((o1 > 0) != (o2 > 0)) && ((o3 > 0) != (o4 > 0))) return true;
  return segDist(a, c, d) <= tol || segDist(b, c, d) <= tol || segDist(c, a, b) <= tol || segDist(d, a, b) <= tol;
}

struct Dom {
  std::string name;
  std::vector<Loop> loops;     // loops[0] is the outer boundary (CCW), the rest are holes (CW)
  bool convex = false, box = false;
  P lo{0, 0}, hi{0, 0};
  double L = 0;                // the longer side of the bounding box
  LD area = 0;
  void finish() {
    lo = {DBL_MAX, DBL_MAX}; hi = {-DBL_MAX, -DBL_MAX};
    if (loopArea(loops[0]) < 0) std::reverse(loops[0].begin(), loops[0].end());
    for (size_t h = 1; h < loops.size(); ++h) if (loopArea(loops[h]) > 0) std::reverse(loops[h].begin(), loops[h].end());
    for (auto& l : loops) for (auto& p : l) { lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); hi.x = std::max(hi.x, p.x); hi.y = std::max(hi.y, p.y); }
    L = std::max(hi.x - lo.x, hi.y - lo.y);
    area = 0;
    for (auto& l : loops) area += loopArea(l);
    convex = loops.size() == 1;
    if (convex) { size_t n = loops[0].size(); for (size_t i = 0; i < n; ++i) if (cross(loops[0][i], loops[0][(i + 1) % n], loops[0][(i + 2) % n]) < 0) convex = false; }
  }
  bool inside(P p) const {
    if (!inLoop(loops[0], p)) return false;
    for (size_t h = 1; h < loops.size(); ++h) if (inLoop(loops[h], p)) return false;
    return true;
  }
  double bdist(P p) const {
    double d = DBL_MAX;
    for (auto& l : loops) for (size_t i = 0; i < l.size(); ++i) d = std::min(d, segDist(p, l[i], l[(i + 1) % l.size()]));
    return d;
  }
  bool visible(P a, P b, double tol) const {
    for (auto& l : loops) for (size_t i = 0; i < l.size(); ++i) if (segsNear(a, b, l[i], l[(i + 1) % l.size()], tol)) return false;
    return true;
  }
  size_t npoints() const { size_t n = 0; for (auto& l : loops) n += l.size(); return n; }
};

// Smallest distance between non-adjacent boundary segments (how thin the domain gets).
inline double clearance(const Dom& d) {
  struct S { P a, b; size_t l, i, n; };
  std::vector<S> s;
  for (size_t l = 0; l < d.loops.size(); ++l) for (size_t i = 0; i < d.loops[l].size(); ++i) s.push_back({d.loops[l][i], d.loops[l][(i + 1) % d.loops[l].size()], l, i, d.loops[l].size()});
  double m = DBL_MAX;
  for (size_t i = 0; i < s.size(); ++i) {
    m = std::min(m, dist(s[i].a, s[i].b));
    for (size_t j = i + 1; j < s.size(); ++j) {
      if (s[i].l == s[j].l && ((s[i].i + 1) % s[i].n == s[j].i || (s[j].i + 1) % s[j].n == s[i].i)) continue;
      if (segsNear(s[i].a, s[i].b, s[j].a, s[j].b, 0)) return 0;
      m = std::min(m, std::min(std::min(segDist(s[i].a, s[j].a, s[j].b), segDist(s[i].b, s[j].a, s[j].b)), std::min(segDist(s[j].a, s[i].a, s[i].b), segDist(s[j].b, s[i].a, s[i].b))));
    }
  }
  return m;
}

inline Loop starLoop(Rng& r, P c, int n, double rmin, double rmax, double phase) {
  Loop l;
  for (int i = 0; i < n; ++i) {
    double t = phase + 2 * M_PI * (i + 0.35 * r.u(-1, 1)) / n, q = r.u(rmin, rmax);
    l.push_back({c.x + q * std::cos(t), c.y + q * std::sin(t)});
  }
  return l;
}
inline Loop boxLoop(double x0, double y0, double x1, double y1) { return {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; }

inline Loop canonical(int k) {
  Loop l;
  switch (k) {
    case 0: for (int b = 0; b < 90; ++b) { double t = 2 * M_PI * b / 91; l.push_back({std::cos(t), std::sin(t)}); } break;                                    // circle
    case 1: l = {{0, 0}, {2, 0}, {2, 2}, {1, 1}, {0, 2}}; break;                                                                                          // M
    case 2: for (int i = 9; i >= 0; --i) { double q = 2 + 0.5 * std::sin(12 * M_PI * i / 9.0); l.push_back({q * std::sin(M_PI * i / 9.0), q * std::cos(M_PI * i / 9.0)}); } break;  // funky star
    case 3: for (int b = 0; b < 90; ++b) { double t = 2 * M_PI * b / 91; l.push_back({2 * std::cos(t) - std::cos(2 * t), 2 * std::sin(t) - std::sin(2 * t)}); } break;            // cardioid
    case 4: l = {{0, 0}, {3, 0}, {3, 3}, {2, 3}, {2, 1}, {1, 1}, {1, 3}, {0, 3}}; break;                                                                       // U
    case 5: l = {{0, 0}, {2, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 2}}; break;                                                                                     // L
    case 6: { // comb
      l = {{0, 0}, {7, 0}};
      for (int t = 3; t >= 0; --t) { l.push_back({2.0 * t + 1, 3}); l.push_back({2.0 * t, 3}); if (t) { l.push_back({2.0 * t, 1}); l.push_back({2.0 * t - 1, 1}); } }
    } break;
    case 7: { // five-pointed star
      double r1 = 0.75, r0 = r1 * std::sin(M_PI / 10) / std::sin(3 * M_PI / 10);
      for (int p = 0; p < 5; ++p) { double t = M_PI / 2 + 2 * M_PI * p / 5; l.push_back({r1 * std::cos(t), r1 * std::sin(t)}); t += M_PI / 5; l.push_back({r0 * std::cos(t), r0 * std::sin(t)}); }
    } break;
    case 8: { // trogdor
      const double q[60] = {2.0, 9.0, 4.0, 8.9, 5.0, 9.2, 6.5, 8.8, 7.0, 8.0, 6.5, 7.0, 5.0, 6.3, 4.0, 5.5, 3.7, 4.6, 4.0, 3.5, 5.5, 2.8, 6.8, 3.4,
                            5.5, 2.5, 4.0, 2.6, 3.0, 3.0, 2.5, 4.0, 2.4, 4.5, 2.5, 5.3, 3.0, 5.9, 4.5, 7.0, 4.9, 7.3, 5.1, 7.7, 5.0, 8.0, 4.5, 8.0,
                            3.5, 7.5, 2.0, 7.0, 2.0, 7.4, 3.3, 8.0, 1.75, 8.0, 1.75, 9.2};
      for (int i = 29; i >= 0; --i) l.push_back({q[2 * i], q[2 * i + 1]});
    } break;
  }
  return l;
}

// Scale/translate a domain; k picks how extreme.
inline void place(Rng& r, Dom& d, bool rotate) {
  double sx = 1, sy = 1, tx = 0, ty = 0, th = 0;
  switch (r.i(0, 5)) {
    case 0: case 1: break;
    case 2: sx = sy = std::pow(10.0, r.u(-6, 6)); break;
    case 3: tx = r.u(-50, 50); ty = r.u(-50, 50); break;
    case 4: sx = std::pow(10.0, r.u(-1, 1)); sy = std::pow(10.0, r.u(-1, 1)); break;
    case 5: sx = sy = std::pow(10.0, r.u(-3, 3)); tx = sx * r.u(-10, 10); ty = sx * r.u(-10, 10); break;
  }
  if (rotate) th = r.u(0, 2 * M_PI);
  double c = std::cos(th), s = std::sin(th);
  for (auto& l : d.loops) for (auto& p : l) { double x = rotate ? c * p.x - s * p.y : p.x, y = rotate ? s * p.x + c * p.y : p.y; p = {x * sx + tx, y * sy + ty}; }
}

enum DomKind { D_UNIT, D_BOX, D_CONVEX, D_STAR, D_CANON, D_HOLES, D_NKINDS };

inline Dom makeDom(Rng& r, int kind) {
  for (;;) {
    Dom d;
    switch (kind) {
      case D_UNIT: d.name = "unit"; d.box = true; d.loops.push_back(boxLoop(0, 0, 1, 1)); if (r.p(0.5)) d.loops[0] = boxLoop(-0.5, -0.5, 0.5, 0.5); break;
      case D_BOX: d.name = "box"; d.box = true; d.loops.push_back(boxLoop(0, 0, 1, 1)); place(r, d, false); break;
      case D_CONVEX: {
        d.name = "convex";
        int n = r.i(3, 14); std::vector<double> t;
        for (int i = 0; i < n; ++i) t.push_back(2 * M_PI * (i + 0.4 * r.u(-1, 1)) / n);
        double b = r.u(0.3, 1); Loop l;
        for (double a : t) l.push_back({std::cos(a), b * std::sin(a)});
        d.loops.push_back(l); place(r, d, true); break;
      }
      case D_STAR: d.name = "star"; d.loops.push_back(starLoop(r, {0, 0}, r.i(5, 16), 0.35, 1, r.u(0, 6))); place(r, d, true); break;
      case D_CANON: { int k = r.i(0, 8); d.name = "canon" + std::to_string(k); d.loops.push_back(canonical(k)); place(r, d, r.p(0.5)); break; }
      case D_HOLES: {
        d.name = "holes";
        switch (r.i(0, 3)) {
          case 0: d.loops.push_back(boxLoop(-1, -1, 1, 1)); break;
          case 1: d.loops.push_back(starLoop(r, {0, 0}, r.i(5, 12), 0.75, 1, 0)); break;
          case 2: d.loops.push_back(canonical(0)); break;
          case 3: d.loops.push_back(starLoop(r, {0, 0}, r.i(4, 10), 1, 1, 0)); break;
        }
        int nh = r.i(1, 4);
        for (int h = 0; h < nh; ++h) {
          P c{r.u(-0.5, 0.5), r.u(-0.5, 0.5)}; double R = r.u(0.08, 0.35);
          switch (r.i(0, 2)) {
            case 0: d.loops.push_back(starLoop(r, c, r.i(3, 9), 0.5 * R, R, r.u(0, 6))); break;
            case 1: d.loops.push_back(boxLoop(c.x - R / 2, c.y - R / 2, c.x + R / 2, c.y + R / 2)); break;
            case 2: d.loops.push_back(starLoop(r, c, r.i(3, 12), R, R, 0)); break;
          }
        }
        place(r, d, r.p(0.5)); break;
      }
    }
    d.finish();
    // Holes really inside, disjoint from each other and the outside; nothing vanishingly thin.
    bool ok = true;
    for (size_t h = 1; h < d.loops.size() && ok; ++h) {
      for (auto& p : d.loops[h]) if (!inLoop(d.loops[0], p)) ok = false;
      for (size_t g = 1; g < d.loops.size() && ok; ++g) if (g != h) for (auto& p : d.loops[h]) if (inLoop(d.loops[g], p)) ok = false;
    }
    if (ok && clearance(d) > 1e-3 * d.L) return d;
  }
}

// ---- generators --------------------------------------------------------------
enum GenKind { G_UNIFORM, G_JITTER, G_LATTICE, G_TILTED, G_HEX, G_LINE, G_CLUSTER, G_COCIRC, G_NEARB, G_FEW, G_GRADED, G_NKINDS };
inline const char* genName(int k) {
  static const char* n[] = {"uniform", "jitter", "lattice", "tilted", "hex", "line", "cluster", "cocirc", "nearb", "few", "graded"};
  return n[k];
}

// Points in the domain, pairwise further apart than sep*L and further than bmin*L from the boundary.
inline std::vector<double> makeGens(Rng& r, const Dom& d, int kind, int n, double sep = 1e-5, double bmin = 1e-5) {
  std::vector<P> g;
  const double L = d.L;
  std::set<std::pair<long, long>> occ;   // coarse spatial hash is not worth it: n is small
  auto add = [&](P p) -> bool {
    if (!d.inside(p) || d.bdist(p) < bmin * L) return false;
    for (auto& q : g) if (dist(p, q) < sep * L) return false;
    g.push_back(p); return true;
  };
  auto rnd = [&]() -> P { return P{r.u(d.lo.x, d.hi.x), r.u(d.lo.y, d.hi.y)}; };
  const double w = d.hi.x - d.lo.x, h = d.hi.y - d.lo.y;
  int guard = 0;
  switch (kind) {
    case G_FEW: n = r.i(1, 4);   // fallthrough
    case G_UNIFORM: while ((int)g.size() < n && guard++ < 100 * n + 1000) add(rnd()); break;
    case G_JITTER: case G_LATTICE: {
      double a = std::sqrt(double(d.area) / n); int nx = std::max(1, int(std::lround(w / a))), ny = std::max(1, int(std::lround(h / a)));
      double j = kind == G_JITTER ? (r.p(0.5) ? 0.3 : 1e-3) : 0;
      for (int iy = 0; iy < ny; ++iy) for (int ix = 0; ix < nx; ++ix) add({d.lo.x + w * (ix + 0.5 + j * r.u(-1, 1)) / nx, d.lo.y + h * (iy + 0.5 + j * r.u(-1, 1)) / ny});
      break;
    }
    case G_TILTED: case G_HEX: {
      double a = std::sqrt(double(d.area) / n), th = kind == G_HEX && r.p(0.4) ? 0 : r.u(0, M_PI), c = std::cos(th), s = std::sin(th), ox = r.u(), oy = r.u();
      int m = int(2 * L / a) + 2; double yy = kind == G_HEX ? std::sqrt(3.0) / 2 : 1;
      for (int iy = -m; iy <= m; ++iy) for (int ix = -m; ix <= m; ++ix) {
        double x = (ix + ox + (kind == G_HEX && (iy & 1) ? 0.5 : 0)) * a, y = (iy + oy) * a * yy;
        add({(d.lo.x + d.hi.x) / 2 + c * x - s * y, (d.lo.y + d.hi.y) / 2 + s * x + c * y});
      }
      break;
    }
    case G_LINE: {
      P a = rnd(), b = rnd(); int mode = r.i(0, 3);
      if (mode == 0) b.y = a.y;
      if (mode == 1) b.x = a.x;
      for (int i = 0; i < n; ++i) { double t = (i + 0.5) / n; add({a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}); }
      break;
    }
    case G_CLUSTER: {
      int k = r.i(1, 4); std::vector<P> c; for (int i = 0; i < k; ++i) c.push_back(rnd());
      std::vector<double> sc; for (int i = 0; i < k; ++i) sc.push_back(L * std::pow(10.0, r.u(-3.5, -1)));
      while ((int)g.size() < n && guard++ < 200 * n + 1000) { int i = r.i(0, k - 1); if (r.p(0.2)) add(rnd()); else add({c[i].x + sc[i] * r.gauss(), c[i].y + sc[i] * r.gauss()}); }
      break;
    }
    case G_COCIRC: {
      P c = rnd(); double R = L * r.u(0.05, 0.4); int m = std::max(3, n / 2);
      for (int i = 0; i < m; ++i) add({c.x + R * std::cos(2 * M_PI * i / m), c.y + R * std::sin(2 * M_PI * i / m)});
      if (r.p(0.5)) add(c);
      while ((int)g.size() < n && guard++ < 200 * n + 1000) add(rnd());
      break;
    }
    case G_NEARB: {
      while ((int)g.size() < n && guard++ < 200 * n + 2000) {
        const Loop& l = d.loops[r.i(0, d.loops.size() - 1)]; int i = r.i(0, l.size() - 1); P a = l[i], b = l[(i + 1) % l.size()]; double t = r.u();
        double e = L * std::pow(10.0, r.u(-4.5, -1)), len = dist(a, b);
        add({a.x + t * (b.x - a.x) - e * (b.y - a.y) / len, a.y + t * (b.y - a.y) + e * (b.x - a.x) / len});
      }
      break;
    }
    case G_GRADED: {
      while ((int)g.size() < n && guard++ < 200 * n + 1000) { double a = r.u(), b = r.u(); add({d.lo.x + w * a * a * a, d.lo.y + h * b}); }
      break;
    }
  }
  guard = 0;
  while (g.empty()) { add(rnd()); if (guard++ > 1000000) abort(); }
  if (r.p(0.5)) r.shuffle(g);
  std::vector<double> out;
  for (auto& p : g) { out.push_back(p.x); out.push_back(p.y); }
  return out;
}

// ---- reference Voronoi cell in a convex region (half-plane clipping) ----------
struct RefCell { std::vector<std::pair<LD, LD>> v; std::vector<int> tag; LD area = 0; };   // tag[i]: neighbour over edge v[i]->v[i+1], or -1-k boundary edge k
inline RefCell refCell(const Loop& outer, const std::vector<double>& g, size_t i) {
  RefCell c; const LD gx = g[2 * i], gy = g[2 * i + 1];
  for (size_t k = 0; k < outer.size(); ++k) { c.v.push_back({LD(outer[k].x) - gx, LD(outer[k].y) - gy}); c.tag.push_back(-1 - int(k)); }
  const size_t n = g.size() / 2;
  for (size_t j = 0; j < n && c.v.size(); ++j) if (j != i) {
    LD nx = LD(g[2 * j]) - gx, ny = LD(g[2 * j + 1]) - gy, b = (nx * nx + ny * ny) / 2;   // keep n.x <= b
    std::vector<std::pair<LD, LD>> v; std::vector<int> t; size_t m = c.v.size();
    bool any = false;
    std::vector<LD> s(m);
    for (size_t k = 0; k < m; ++k) { s[k] = nx * c.v[k].first + ny * c.v[k].second - b; any |= s[k] > 0; }
    if (!any) continue;
    for (size_t k = 0; k < m; ++k) {
      size_t q = (k + 1) % m;
      if (s[k] <= 0) { v.push_back(c.v[k]); t.push_back(c.tag[k]); }
      if ((s[k] <= 0) != (s[q] <= 0)) {
        LD u = s[k] / (s[k] - s[q]);
        v.push_back({c.v[k].first + u * (c.v[q].first - c.v[k].first), c.v[k].second + u * (c.v[q].second - c.v[k].second)});
        t.push_back(s[k] <= 0 ? int(j) : c.tag[k]);
      }
    }
    c.v = v; c.tag = t;
  }
  LD a = 0; size_t m = c.v.size();
  for (size_t k = 0; k < m; ++k) a += c.v[k].first * c.v[(k + 1) % m].second - c.v[(k + 1) % m].first * c.v[k].second;
  c.area = a / 2;
  return c;
}

}
#endif

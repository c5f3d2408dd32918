// Geometric predicates against exact integer arithmetic, element metrics
// against an independent computation.
#include "meshlib.h"
#include "Matrix.h"
#include "StringOps.h"
using namespace ml;
typedef long long I;
struct G { I x, y; };
static I cr(G a, G b, G c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static I dt(G a, G b, G c) { return (b.x - a.x) * (c.x - a.x) + (b.y - a.y) * (c.y - a.y); }
static int sg(I v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static bool inseg(G p, G q, G r) { if (cr(p, q, r)) return false; I t = dt(p, q, r), l = dt(p, q, q); return t > 0 && t < l; }
static bool inonseg(G p, G q, G r) { if (cr(p, q, r)) return false; I t = dt(p, q, r), l = dt(p, q, q); return t >= 0 && t <= l; }
static bool xcross(G a, G b, G c, G d) { return sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0; }
static bool xinter(G a, G b, G c, G d) { return xcross(a, b, c, d) || inseg(a, b, c) || inseg(a, b, d) || inseg(c, d, a) || inseg(c, d, b); }
template <size_t N, size_t M> static bool edges_inter(const std::array<G, N>& a, const std::array<G, M>& b)
{ for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) if (xinter(a[i], a[(i + 1) % N], b[j], b[(j + 1) % M])) return true; return false; }
static bool eq(G a, G b) { return a.x == b.x && a.y == b.y; }

struct Frame { double u; double ox, oy; Vec2d operator()(G g) const { return Vec2d{ox + u * g.x, oy + u * g.y}; } };
static Frame frame(pbt::Src& s)
{ double u = s.pick<double>({1, 0.25, 0.0078125, 64, 1024}); return {u, u * s.pick<int>({0, 0, -100, 1000}), u * s.pick<int>({0, 0, 77, -512})}; }
static G pt(pbt::Src& s, int n) { return {s.i(0, n), s.i(0, n)}; }

PROPERTY(predicates)
{
  Frame f = frame(s); int n = s.pick<int>({3, 4, 8, 50}); s.note("grid unit ", f.u, " offset (", f.ox, ",", f.oy, ")\n");
  for (int rep = 0; rep < 20; ++rep)
  {
    G p[8]; for (auto& q : p) q = pt(s, n);
    if (s.p(1, 4)) p[3] = p[0]; if (s.p(1, 4)) p[4] = p[1];
    std::ostringstream os; for (auto& q : p) os << "(" << q.x << "," << q.y << ")"; std::string at = os.str();
    if (rep == 0) s.note(at, "\n");
    Vec2d v[8]; for (int k = 0; k < 8; ++k) v[k] = f(p[k]);
    int o = sg(cr(p[0], p[1], p[2])); Orientation w = orientation(v[0], v[1], v[2]);
    REQUIRE(w == (o > 0 ? Orientation::CCW : o < 0 ? Orientation::CW : Orientation::CL), "orientation", at);
    REQUIRE(is_left(v[0], v[1], v[2]) == (o > 0) && is_lefton(v[0], v[1], v[2]) == (o >= 0), "side-of-line", at);
    REQUIRE(in_segment(v[0], v[1], v[2]) == inseg(p[0], p[1], p[2]), "in-segment", at);
    REQUIRE(in_on_segment(v[0], v[1], v[2]) == inonseg(p[0], p[1], p[2]), "in-on-segment", at);
    if (!eq(p[0], p[1]) && !eq(p[2], p[3]))
    {
      bool c = xcross(p[0], p[1], p[2], p[3]), i = xinter(p[0], p[1], p[2], p[3]);
      REQUIRE(line_line_crossing(v[0], v[1], v[2], v[3]) == c, "segment-crossing", at, " expected ", c);
      REQUIRE(line_line_intersection(v[0], v[1], v[2], v[3]) == i, "segment-intersection", at, " expected ", i);
      REQUIRE(segment_overlap(v[0], v[1], v[2], v[3]) == ((eq(p[0], p[2]) && eq(p[1], p[3])) || (eq(p[0], p[3]) && eq(p[1], p[2]))), "segment-overlap", at);
    }
    if (o > 0)
    {
      s.nontrivial();
      std::array<G, 3> t{p[0], p[1], p[2]};
      bool on = cr(p[0], p[1], p[3]) >= 0 && cr(p[1], p[2], p[3]) >= 0 && cr(p[2], p[0], p[3]) >= 0;
      bool in = cr(p[0], p[1], p[3]) > 0 && cr(p[1], p[2], p[3]) > 0 && cr(p[2], p[0], p[3]) > 0;
      REQUIRE(in_on_triangle(v[3], v[0], v[1], v[2]) == on && in_triangle(v[3], v[0], v[1], v[2]) == in, "in-triangle", at);
      if (!eq(p[3], p[4]))
      {
        std::array<G, 2> l{p[3], p[4]}; bool li = false, lc = false;
        for (int k = 0; k < 3; ++k) { li |= xinter(p[3], p[4], t[k], t[(k + 1) % 3]); lc |= xcross(p[3], p[4], t[k], t[(k + 1) % 3]); }
        REQUIRE(line_tri_intersection(v[3], v[4], v[0], v[1], v[2]) == li && line_tri_crossing(v[3], v[4], v[0], v[1], v[2]) == lc, "segment-triangle", at);
      }
      if (cr(p[3], p[4], p[5]) > 0)
        REQUIRE(tri_tri_intersection(v[0], v[1], v[2], v[3], v[4], v[5]) == edges_inter(t, std::array<G, 3>{p[3], p[4], p[5]}), "triangle-triangle", at);
      // convex quad from 4..7
      std::array<G, 4> q{p[4], p[5], p[6], p[7]}; bool cvx = true;
      for (int k = 0; k < 4; ++k) cvx &= cr(q[k], q[(k + 1) % 4], q[(k + 2) % 4]) > 0;
      if (cvx)
      {
        bool qon = true, qin = true;
        for (int k = 0; k < 4; ++k) { I c = cr(q[k], q[(k + 1) % 4], p[3]); qon &= c >= 0; qin &= c > 0; }
        REQUIRE(in_on_quad(v[3], v[4], v[5], v[6], v[7]) == qon && in_quad(v[3], v[4], v[5], v[6], v[7]) == qin, "in-quad", at);
        REQUIRE(tri_quad_intersection(v[0], v[1], v[2], v[4], v[5], v[6], v[7]) == edges_inter(t, q), "triangle-quad", at);
        G d = p[3]; std::array<G, 4> q2{p[0], p[1], p[2], d}; bool cv2 = true;
        for (int k = 0; k < 4; ++k) cv2 &= cr(q2[k], q2[(k + 1) % 4], q2[(k + 2) % 4]) > 0;
        if (cv2) REQUIRE(quad_quad_intersection(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]) == edges_inter(q2, q), "quad-quad", at);
        bool lq = false; for (int k = 0; k < 4; ++k) lq |= xinter(p[0], p[1], q[k], q[(k + 1) % 4]);
        REQUIRE(line_quad_intersection(v[0], v[1], v[4], v[5], v[6], v[7]) == lq, "segment-quad", at);
      }
    }
    auto mn = [](I a, I b) { return a < b ? a : b; }; auto mx = [](I a, I b) { return a > b ? a : b; };
    G al{mn(p[0].x, p[1].x), mn(p[0].y, p[1].y)}, au{mx(p[0].x, p[1].x), mx(p[0].y, p[1].y)}, bl{mn(p[2].x, p[3].x), mn(p[2].y, p[3].y)}, bu{mx(p[2].x, p[3].x), mx(p[2].y, p[3].y)};
    REQUIRE(rect_overlap(f(al), f(au), f(bl), f(bu)) == (al.x <= bu.x && bl.x <= au.x && al.y <= bu.y && bl.y <= au.y), "rect-overlap", at);
    REQUIRE(in_on_rect(v[4], f(al), f(au)) == (p[4].x >= al.x && p[4].x <= au.x && p[4].y >= al.y && p[4].y <= au.y), "in-on-rect", at);
    REQUIRE(in_rect(v[4], f(al), f(au)) == (p[4].x > al.x && p[4].x < au.x && p[4].y > al.y && p[4].y < au.y), "in-rect", at);
    if (!eq(p[0], p[1]))
    {
      double d = geo::seg_dist(PT(v[2]), PT(v[0]), PT(v[1])), g = distance_point_edge_sqr(v[2], v[0], v[1]);
      REQUIRE(std::fabs(g - d * d) <= 1e-9 * f.u * f.u * n * n, "point-segment-distance", at, " got ", g, " expected ", d * d);
    }
    int np = s.i(3, 8); std::vector<Vec2d> poly; std::vector<P> pp; for (int k = 0; k < np; ++k) { poly.push_back(v[k]); pp.push_back(PT(v[k])); }
    double a = (double) geo::shoelace(pp), sc = f.u * f.u * (n + 1000.0) * (n + 1000.0);
    REQUIRE(std::fabs(polygon_area(poly) - a) <= 1e-10 * sc, "polygon-area", at, " got ", polygon_area(poly), " expected ", a);
  }
}

// ------------------------------------------------------------------ metrics
static double ang(P a, P b, P c) // at b
{ LD ux = (LD) a.x - b.x, uy = (LD) a.y - b.y, vx = (LD) c.x - b.x, vy = (LD) c.y - b.y; return (double) std::atan2(std::fabs(ux * vy - uy * vx), ux * vx + uy * vy); }
template <typename F> static void metrics(const F& t, const std::vector<P>& q, double sc, double h, const std::string& at)
{
  size_t n = q.size(); double tol = 1e-9 * sc;
  P c{0, 0}; for (auto& p : q) { c.x += p.x / n; c.y += p.y / n; }
  REQUIRE(std::fabs(t.xy().x - c.x) < tol && std::fabs(t.xy().y - c.y) < tol, "centroid", at);
  double A = (double) geo::shoelace(q);
  REQUIRE(std::fabs(t.area() - A) < 1e-9 * sc * sc, "area", at, " stored ", t.area(), " expected ", A);
  double lmin = 1e300, lmax = 0, amin = 10, amax = 0, sq = 0, sizef = 1;
  for (size_t k = 0; k < n; ++k)
  {
    double l = geo::dist(q[k], q[(k + 1) % n]), a = ang(q[(k + n - 1) % n], q[k], q[(k + 1) % n]);
    REQUIRE(std::fabs(t.edgelength(k) - l) < tol, "edge-length", at, " edge ", k);
    REQUIRE(std::fabs(t.angle(k) - a) < 1e-6, "angle", at, " angle ", k, " stored ", t.angle(k), " expected ", a);
    lmin = std::min(lmin, l); lmax = std::max(lmax, l); amin = std::min(amin, a); amax = std::max(amax, a); sq += l * l; sizef *= std::min(l / h, h / l);
  }
  REQUIRE(std::fabs(t.min_edge_length() - lmin) < tol && std::fabs(t.max_edge_length() - lmax) < tol, "edge-extremes", at);
  REQUIRE(std::fabs(t.min_angle() - amin) < 1e-6 && std::fabs(t.max_angle() - amax) < 1e-6, "angle-extremes", at);
  double Q = 2 * std::sqrt(3.0) * A / sq * sizef;
  REQUIRE(std::fabs(t.quality(h) - Q) <= 1e-9 * (1 + std::fabs(Q)), "quality", at, " got ", t.quality(h), " expected ", Q);
  if (n == 3) REQUIRE(t.quality(h) <= 0.5 + 1e-9, "quality-bound", at);
  REQUIRE(t.is_valid() == (A > 0), "validity", at, " is_valid() ", t.is_valid(), " area ", A);
}
PROPERTY(metrics)
{
  quiet();
  double u = s.pick<double>({1, 0.01, 100, 1e-3}); P off{u * s.i(-20, 20), u * s.i(-20, 20)};
  int n = s.i(3, 4); std::vector<P> q; std::ostringstream os; os << std::setprecision(17);
  bool eqi = s.p(1, 10);
  if (eqi) { n = 3; double r = u * s.i(1, 5), w = s.g(0, 6, 12); for (int k = 0; k < 3; ++k) q.push_back({off.x + r * std::cos(w + k * 2 * M_PI / 3), off.y + r * std::sin(w + k * 2 * M_PI / 3)}); }
  else for (int k = 0; k < n; ++k) q.push_back({off.x + u * s.i(0, 24) / 4.0, off.y + u * s.i(0, 24) / 4.0});
  for (auto& p : q) os << "(" << p.x << "," << p.y << ")"; std::string at = os.str(); s.note(at, "\n");
  for (int k = 0; k < n; ++k) for (int j = k + 1; j < n; ++j) if (geo::dist(q[k], q[j]) == 0) s.discard();
  double A = (double) geo::shoelace(q);
  if (std::fabs(A) < 1e-3 * u * u) s.discard(); // degenerate
  s.nontrivial();
  double sc = 24 * u + std::fabs(off.x) + std::fabs(off.y), h = u * s.g(0.5, 6, 11);
  Vertices vs; std::vector<Vertex*> v; for (auto& p : q) v.push_back(&vs.push_back(p.x, p.y));
  auto after = [&](auto& f)
  {
    metrics(f, q, sc, h, at);
    for (auto w : v) REQUIRE(w->facets().size() == 1 && w->is_adjacent(f), "vertex-element-link", at);
    if (eqi && A > 0) { double l = f.edgelength(0); REQUIRE(std::fabs(f.quality(l) - 0.5) < 1e-9, "quality-of-perfect", at, " ", f.quality(l)); s.label("equilateral"); }
    // after a vertex moved
    int k = s.i(0, n - 1); P old = q[k]; q[k] = {q[k].x + u * s.i(1, 8) / 8.0, q[k].y - u * s.i(0, 8) / 8.0};
    bool ok = std::fabs((double) geo::shoelace(q)) > 1e-3 * u * u; for (int j = 0; j < n; ++j) if (j != k) ok &= geo::dist(q[j], q[k]) > 0.05 * u;
    if (ok) { v[k]->adjust_xy(V(q[k])); f.update_metrics(); metrics(f, q, sc, h, at + " moved"); s.label("moved"); }
  };
  if (n == 3)
  {
    Triangles ts; Triangle& t = ts.push_back(*v[0], *v[1], *v[2]);
    for (int k = 0; k < 3; ++k) REQUIRE(std::fabs(geo::dist(PT(t.circumcenter()), q[k]) - t.circumradius()) < 1e-6 * sc * (1 + t.circumradius() / u), "circumcircle", at);
    after(t);
    ts.remove(t); for (auto w : v) REQUIRE(w->facets().size() == 0, "vertex-element-link", at, " after removal");
  }
  else
  {
    Quads qs; Quad& t = qs.push_back(*v[0], *v[1], *v[2], *v[3]); after(t);
    qs.remove(t); for (auto w : v) REQUIRE(w->facets().size() == 0, "vertex-element-link", at, " after removal");
  }
}

// elements against elements, vertices: the queries the mesher relies on
PROPERTY(overlap)
{
  quiet(); Frame f = frame(s); int n = s.pick<int>({6, 12});
  Vertices vs(1e8); Triangles ts(1e8); Quads qs(1e8); std::vector<std::array<G, 3>> T; std::vector<std::array<G, 4>> Q; std::vector<G> pts;
  std::ostringstream os;
  int nt = s.i(0, 3), nq = s.i(0, 3), nv = s.i(0, 4);
  std::vector<Vertex*> extra;
  auto mk = [&](G g) -> Vertex& { Vec2d x = f(g); return vs.push_back(x.x, x.y); };
  auto convex = [](const std::array<G, 4>& q) { bool c = true; for (int k = 0; k < 4; ++k) c &= cr(q[k], q[(k + 1) % 4], q[(k + 2) % 4]) > 0; return c; };
  for (int k = 0; k < nt; ++k)
  {
    std::array<G, 3> t{pt(s, n), pt(s, n), pt(s, n)}; if (cr(t[0], t[1], t[2]) < 0) std::swap(t[1], t[2]); if (!cr(t[0], t[1], t[2])) continue;
    Triangle& e = ts.push_back(mk(t[0]), mk(t[1]), mk(t[2])); bool act = !s.p(1, 5); e.is_active(act); if (act) T.push_back(t);
    os << "tri" << (act ? "" : "(inactive)"); for (auto& g : t) os << "(" << g.x << "," << g.y << ")"; os << "\n";
  }
  for (int k = 0; k < nq; ++k)
  {
    G a = pt(s, n), b = pt(s, n), c = pt(s, n), d = pt(s, n); std::array<G, 4> q{a, b, c, d}; if (!convex(q)) { q = {d, c, b, a}; if (!convex(q)) { I w = s.i(1, n), h = s.i(1, n); q = {a, G{a.x + w, a.y}, G{a.x + w, a.y + h}, G{a.x, a.y + h}}; } }
    Quad& e = qs.push_back(mk(q[0]), mk(q[1]), mk(q[2]), mk(q[3])); bool act = !s.p(1, 5); e.is_active(act); if (act) Q.push_back(q);
    os << "quad" << (act ? "" : "(inactive)"); for (auto& g : q) os << "(" << g.x << "," << g.y << ")"; os << "\n";
  }
  Vertices pv(1e8); for (int k = 0; k < nv; ++k) { G g = pt(s, n); Vec2d x = f(g); pv.push_back(x.x, x.y); pts.push_back(g); os << "vertex(" << g.x << "," << g.y << ")\n"; }
  // probe
  std::array<G, 3> t{pt(s, n), pt(s, n), pt(s, n)}; if (cr(t[0], t[1], t[2]) < 0) std::swap(t[1], t[2]); if (!cr(t[0], t[1], t[2])) s.discard();
  os << "probe"; for (auto& g : t) os << "(" << g.x << "," << g.y << ")"; s.note(os.str(), "\n"); std::string at = os.str();
  Triangles pr(1e8); Triangle& p = pr.push_back(mk(t[0]), mk(t[1]), mk(t[2]));
  double range = 40 * n * f.u; if (T.size() + Q.size() + pts.size()) s.nontrivial();
  auto in3 = [](G v3, const std::array<G, 3>& t) { // v3: three times the point
    for (int k = 0; k < 3; ++k) { G a{3 * t[k].x, 3 * t[k].y}, b{3 * t[(k + 1) % 3].x, 3 * t[(k + 1) % 3].y}; if (cr(a, b, v3) <= 0) return false; } return true; };
  auto cen3 = [](const std::array<G, 3>& t) { return G{t[0].x + t[1].x + t[2].x, t[0].y + t[1].y + t[2].y}; };
  bool want = false; for (auto& o : T) want |= edges_inter(o, t) || in3(cen3(o), t) || in3(cen3(t), o);
  REQUIRE(p.intersects_triangle(ts, range) == want, "triangle-overlap", at, " expected ", want);
  if (want) s.label("overlaps-triangle");
  bool wq = false;
  for (auto& o : Q)
  {
    wq |= edges_inter(t, o);
    // centroid of the quad (times 12) in the triangle, centroid of the triangle in the quad
    G c4{3 * (o[0].x + o[1].x + o[2].x + o[3].x), 3 * (o[0].y + o[1].y + o[2].y + o[3].y)}, c3{4 * (t[0].x + t[1].x + t[2].x), 4 * (t[0].y + t[1].y + t[2].y)};
    auto sc = [](G g) { return G{12 * g.x, 12 * g.y}; };
    bool a = true, b = true; for (int k = 0; k < 3; ++k) a &= cr(sc(t[k]), sc(t[(k + 1) % 3]), c4) > 0; for (int k = 0; k < 4; ++k) b &= cr(sc(o[k]), sc(o[(k + 1) % 4]), c3) > 0;
    wq |= a || b;
  }
  REQUIRE(p.intersects_quad(qs, range) == wq, "quad-overlap", at, " expected ", wq);
  if (wq) s.label("overlaps-quad");
  bool wv = false; for (auto& g : pts) wv |= cr(t[0], t[1], g) >= 0 && cr(t[1], t[2], g) >= 0 && cr(t[2], t[0], g) >= 0;
  REQUIRE(p.intersects_vertex(pv, range) == wv, "vertex-inside", at, " expected ", wv);
  if (wv) s.label("contains-vertex");
  // the same queries with a quad, and both kinds against the edges of a front
  auto sc = [](G g, I k) { return G{k * g.x, k * g.y}; };
  auto inside = [&](const auto& poly, G c, I k, bool closed) // c: k times the point
  { size_t m = poly.size(); for (size_t i = 0; i < m; ++i) { I z = cr(sc(poly[i], k), sc(poly[(i + 1) % m], k), c); if (z < 0 || (z == 0 && !closed)) return false; } return true; };
  auto sum = [](const auto& poly) { G c{0, 0}; for (auto& g : poly) { c.x += g.x; c.y += g.y; } return c; };
  std::vector<std::pair<G, G>> F; Vertices fv(1e8); Front fr;
  // the index of a front covers 10000 x 10000
  int ne = std::fabs(f.ox) + f.u * n < 4000 && std::fabs(f.oy) + f.u * n < 4000 ? s.i(0, 3) : 0;
  for (int k = 0; k < ne; ++k)
  {
    G a = pt(s, n), b = pt(s, n); if (eq(a, b)) continue;
    Vec2d xa = f(a), xb = f(b); Vertex& va = fv.push_back(xa.x, xa.y); Vertex& vb = fv.push_back(xb.x, xb.y);
    fr.add_edge(va, vb, 1); F.push_back({a, b}); std::ostringstream oe; oe << "front(" << a.x << "," << a.y << ")(" << b.x << "," << b.y << ")\n"; at += "\n" + oe.str(); s.note(oe.str());
  }
  bool wf = false; for (auto& e : F) for (int k = 0; k < 3; ++k) wf |= xinter(e.first, e.second, t[k], t[(k + 1) % 3]);
  REQUIRE(p.intersects_front(fr, range) == wf, "front-crossing", at, " expected ", wf);
  if (wf) s.label("crosses-front");
  std::array<G, 4> q{t[0], t[1], t[2], pt(s, n)};
  if (!convex(q)) { I w = s.i(1, n), h = s.i(1, n); G a = t[0]; q = {a, G{a.x + w, a.y}, G{a.x + w, a.y + h}, G{a.x, a.y + h}}; }
  { std::ostringstream oq; oq << "quad probe"; for (auto& g : q) oq << "(" << g.x << "," << g.y << ")"; oq << "\n"; at += "\n" + oq.str(); s.note(oq.str()); }
  Quads pq(1e8); Quad& z = pq.push_back(mk(q[0]), mk(q[1]), mk(q[2]), mk(q[3]));
  bool zt = false, zq = false, zv = false, zf = false;
  for (auto& o : T) zt |= edges_inter(o, q) || inside(q, sc(sum(o), 4), 12, false) || inside(o, sc(sum(q), 3), 12, false);
  for (auto& o : Q) zq |= edges_inter(o, q) || inside(q, sum(o), 4, false) || inside(o, sum(q), 4, false);
  for (auto& g : pts) zv |= inside(q, g, 1, true);
  for (auto& e : F) for (int k = 0; k < 4; ++k) zf |= xinter(e.first, e.second, q[k], q[(k + 1) % 4]);
  REQUIRE(z.intersects_triangle(ts, range) == zt, "quad-probe-triangle", at, " expected ", zt);
  REQUIRE(z.intersects_quad(qs, range) == zq, "quad-probe-quad", at, " expected ", zq);
  REQUIRE(z.intersects_vertex(pv, range) == zv, "quad-probe-vertex", at, " expected ", zv);
  REQUIRE(z.intersects_front(fr, range) == zf, "quad-probe-front", at, " expected ", zf);
  if (zt || zq) s.label("quad-overlaps");
  // a vertex against all elements, active or not
  size_t k = 0; std::vector<std::array<G, 3>> TA; std::vector<std::array<G, 4>> QA;
  auto back = [&](const Vertex& v) { return G{(I) std::llround((v.xy().x - f.ox) / f.u), (I) std::llround((v.xy().y - f.oy) / f.u)}; };
  for (auto& e : ts) TA.push_back({back(e->v1()), back(e->v2()), back(e->v3())});
  for (auto& e : qs) QA.push_back({back(e->v1()), back(e->v2()), back(e->v3()), back(e->v4())});
  for (auto& v : pv)
  {
    bool a = false, b = false; for (auto& o : TA) a |= inside(o, pts[k], 1, true); for (auto& o : QA) b |= inside(o, pts[k], 1, true);
    REQUIRE(v->intersects_facet(ts, range) == a && v->intersects_facet(qs, range) == b, "vertex-in-facet", at, " vertex ", k, " expected ", a, " ", b);
    ++k;
  }
  for (auto& e : ts) for (auto v : {&e->v1(), &e->v2(), &e->v3()}) REQUIRE(!e->intersects_vertex(*v), "own-vertex", at);
  for (auto& e : qs) for (auto v : {&e->v1(), &e->v2(), &e->v3(), &e->v4()}) REQUIRE(!e->intersects_vertex(*v), "own-vertex", at);
}
// Vectors, matrices and scalar helpers against plain loops. All entries are
// small integers (or their quotients), so every result is exact.
template <class T, size_t N> static void vec_case(pbt::Src& s)
{
  using V = VecND<T, N>; std::array<T, N> a, b; T k = T(s.i(1, 9)); if (s.p(1, 3)) k = -k;
  for (size_t i = 0; i < N; ++i)
  {
    a[i] = T(s.i(-30, 30)); b[i] = T(s.i(1, 30)); if (s.p(1, 2)) b[i] = -b[i];
    if (!std::is_same<T, int>::value && s.p(1, 3)) { a[i] /= 4; b[i] /= 8; }
  }
  std::ostringstream os; os << "N=" << N << " a="; for (T t : a) os << t << ' '; os << "b="; for (T t : b) os << t << ' '; os << "k=" << k; std::string at = os.str();
  s.note(at, "\n");
  V va(a), vb(b);
  auto all = [&](const V& v, auto f) { for (size_t i = 0; i < N; ++i) if (!(v[i] == f(i))) return false; return true; };
  REQUIRE(all(va + vb, [&](size_t i) { return T(a[i] + b[i]); }) && all(va - vb, [&](size_t i) { return T(a[i] - b[i]); }) && all(va * vb, [&](size_t i) { return T(a[i] * b[i]); }) &&
          all(va / vb, [&](size_t i) { return T(a[i] / b[i]); }), "vector-vector", at);
  REQUIRE(all(va + k, [&](size_t i) { return T(a[i] + k); }) && all(k + va, [&](size_t i) { return T(a[i] + k); }) && all(va - k, [&](size_t i) { return T(a[i] - k); }) && all(k - va, [&](size_t i) { return T(k - a[i]); }) &&
          all(va * k, [&](size_t i) { return T(a[i] * k); }) && all(k * va, [&](size_t i) { return T(a[i] * k); }) && all(va / k, [&](size_t i) { return T(a[i] / k); }) && all(k / vb, [&](size_t i) { return T(k / b[i]); }), "vector-scalar", at);
  REQUIRE(all(-va, [&](size_t i) { return T(-a[i]); }), "negation", at);
  REQUIRE(all(va, [&](size_t i) { return a[i]; }) && all(vb, [&](size_t i) { return b[i]; }), "operands-unchanged", at);
  { V v(va); v += vb; REQUIRE(all(v, [&](size_t i) { return T(a[i] + b[i]); }), "plus-assign", at); v = va; v -= vb; REQUIRE(all(v, [&](size_t i) { return T(a[i] - b[i]); }), "minus-assign", at);
    v = va; v *= vb; REQUIRE(all(v, [&](size_t i) { return T(a[i] * b[i]); }), "times-assign", at); v = va; v /= vb; REQUIRE(all(v, [&](size_t i) { return T(a[i] / b[i]); }), "divide-assign", at);
    REQUIRE(all(va, [&](size_t i) { return a[i]; }), "copy-independent", at); }
  { V v(va); v += k; REQUIRE(all(v, [&](size_t i) { return T(a[i] + k); }), "plus-assign-scalar", at); v = va; v -= k; REQUIRE(all(v, [&](size_t i) { return T(a[i] - k); }), "minus-assign-scalar", at);
    v = va; v *= k; REQUIRE(all(v, [&](size_t i) { return T(a[i] * k); }), "times-assign-scalar", at); v = va; v /= k; REQUIRE(all(v, [&](size_t i) { return T(a[i] / k); }), "divide-assign-scalar", at); }
  { // the scalar may be one of the vector's own entries
    size_t j = s.i(0, N - 1); V v(vb); v += v[j]; REQUIRE(all(v, [&](size_t i) { return T(b[i] + b[j]); }), "own-entry", at, " += entry ", j);
    v = vb; v -= v[j]; REQUIRE(all(v, [&](size_t i) { return T(b[i] - b[j]); }), "own-entry", at, " -= entry ", j); v = vb; v *= v[j]; REQUIRE(all(v, [&](size_t i) { return T(b[i] * b[j]); }), "own-entry", at, " *= entry ", j);
    v = vb; v /= v[j]; REQUIRE(all(v, [&](size_t i) { return T(b[i] / b[j]); }), "own-entry", at, " /= entry ", j); }
  T d{}, n2{}, sm{}; double lo = a[0], hi = a[0], pr = 1;
  for (size_t i = 0; i < N; ++i) { d += a[i] * b[i]; n2 += a[i] * a[i]; sm += a[i]; lo = std::min<double>(lo, a[i]); hi = std::max<double>(hi, a[i]); pr *= b[i] > 0 ? double(i % 3 + 1) : -1.0; }
  REQUIRE(dot(va, vb) == d && va.dot(vb) == d && dot(vb, va) == d, "dot", at);
  REQUIRE(va.norm_sqr() == n2 && std::fabs(double(va.norm()) - (std::is_same<T, int>::value ? std::floor(std::sqrt(double(n2))) : std::sqrt(double(n2)))) <= 1e-5 * (1 + std::sqrt(double(n2))), "norm", at);
  REQUIRE(va.sum() == sm, "sum", at, " got ", va.sum(), " expected ", sm);
  { std::array<T, N> q; for (size_t i = 0; i < N; ++i) q[i] = b[i] > 0 ? T(i % 3 + 1) : T(-1); REQUIRE(double(V(q).product()) == pr, "product", at); }
  REQUIRE(va.min() == T(lo) && va.max() == T(hi), "extrema", at);
  bool same = true, zero = true; for (size_t i = 0; i < N; ++i) { same &= a[i] == b[i]; zero &= a[i] == T{}; }
  REQUIRE((va == vb) == same && (va != vb) == !same && va == V(a) && !(va != V(a)), "equality", at);
  REQUIRE(va.is_zero() == zero, "is-zero", at);
  if constexpr (N >= 2) REQUIRE(va.x == a[0] && va.y == a[1], "access", at);
  if constexpr (N >= 3) REQUIRE(va.z == a[2], "access", at);
  { V c(va); V m(std::move(c)); V e; e = m; e[0] = T(77); if constexpr (N >= 2) { e.y = T(55); REQUIRE(e[1] == T(55), "access-alias", at); } REQUIRE(e.x == T(77) && all(m, [&](size_t i) { return a[i]; }), "copy-independent", at); }
  if constexpr (N == 2)
  {
    T c = a[0] * b[1] - a[1] * b[0]; REQUIRE(cross(va, vb) == c && va.cross(vb) == c && cross(vb, va) == -c, "cross-2d", at);
  }
  if constexpr (N == 3)
  {
    V c = cross(va, vb), c2 = va.cross(vb);
    T e[3] = {T(a[1] * b[2] - a[2] * b[1]), T(a[2] * b[0] - a[0] * b[2]), T(a[0] * b[1] - a[1] * b[0])};
    REQUIRE(all(c, [&](size_t i) { return e[i]; }) && all(c2, [&](size_t i) { return e[i]; }), "cross-3d", at);
  }
  if constexpr (std::is_same<T, double>::value)
    if (!zero)
    {
      long double nb = 0; for (T t : b) nb += (long double)t * t;
      double w = std::acos(std::max(-1.0, std::min(1.0, double((long double)d / std::sqrt((long double)n2 * nb)))));
      REQUIRE(std::fabs(angle(va, vb) - w) < 1e-7 && std::fabs(va.angle(vb) - w) < 1e-7 && angle(va, va) < 1e-7, "angle", at, " got ", angle(va, vb), " expected ", w);
      s.nontrivial();
    }
  if (std::is_same<T, int>::value && !same) s.nontrivial();
}
PROPERTY(vectors)
{
  switch (s.i(0, 6))
  {
    case 0: vec_case<double, 2>(s); break; case 1: vec_case<double, 3>(s); break; case 2: vec_case<double, 4>(s); break;
    case 3: vec_case<int, 2>(s); break; case 4: vec_case<int, 3>(s); break; case 5: vec_case<double, 5>(s); break; default: vec_case<int, 4>(s);
  }
  // scalar helpers
  for (int rep = 0; rep < 10; ++rep)
  {
    int n = s.i(-40, 40), M = s.i(1, 12), q = ((n % M) + M) % M, lo = s.i(-10, 10), hi = lo + s.i(0, 10);
    REQUIRE(MOD(n, M) == q && MOD(n, M) >= 0 && (n - MOD(n, M)) % M == 0, "mod", n, " mod ", M);
    REQUIRE(CLAMP(n, lo, hi) == (n < lo ? lo : n > hi ? hi : n) && CLAMP(n + 0.5, double(lo), double(hi)) == std::min<double>(hi, std::max<double>(lo, n + 0.5)), "clamp", n, " in ", lo, " ", hi);
    REQUIRE(ABS(n) == std::abs(n) && ABS(n - 0.25) == std::fabs(n - 0.25) && MIN(n, lo) == std::min(n, lo) && MAX(n, lo) == std::max(n, lo), "abs-min-max", n, " ", lo);
    double u = n * 0.125, v = lo * 0.125; REQUIRE(EQ(u, v) == (u == v) && EQ0(u) == (n == 0), "eq", u, " ", v);
    REQUIRE(EQ(u, std::nextafter(u, 1e9)) || n == 0, "eq-neighbour", u);
  }
  { // argsort: a stable permutation that sorts
    int n = s.p(1, 4) ? s.i(17, 60) : s.i(0, 14); std::vector<int> v(n); for (int& x : v) x = s.i(-4, 4);
    std::vector<size_t> p = argsort(v); REQUIRE((int)p.size() == n, "argsort-size", n);
    std::vector<char> seen(n, 0); for (size_t i : p) { REQUIRE(i < (size_t)n && !seen[i], "argsort-permutation", i); seen[i] = 1; }
    for (int i = 1; i < n; ++i) REQUIRE(v[p[i - 1]] < v[p[i]] || (v[p[i - 1]] == v[p[i]] && p[i - 1] < p[i]), "argsort-order", i);
  }
  { // splitting: the non-empty pieces, in order
    int n = s.i(0, 12); std::string t; for (int i = 0; i < n; ++i) t += s.pick<char>({',', ',', 'a', 'b', ' ', '7'});
    std::vector<std::string> w, g = split(t, ','), ge = split(t, ',', false); std::string c;
    for (char ch : t) if (ch == ',') { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch;
    if (!c.empty()) w.push_back(c);
    REQUIRE(g == w, "split", "'", t, "'");
    std::string back; for (auto& x : ge) back += x + ","; REQUIRE(back == t || back == t + ",", "split-keep-empty", "'", t, "'");
  }
  { // matrices: row-major storage, copies, swap
    int r = s.i(1, 5), c = s.i(1, 5), r2 = s.i(1, 5), c2 = s.i(1, 5); Matrix<int> A(r, c), B(r2, c2);
    std::string at = std::to_string(r) + "x" + std::to_string(c) + " and " + std::to_string(r2) + "x" + std::to_string(c2);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { REQUIRE(A[i][j] == 0, "matrix-zero", at); A[i][j] = 100 * i + j; }
    for (int i = 0; i < r2; ++i) for (int j = 0; j < c2; ++j) B[i][j] = -(100 * i + j);
    auto is = [](const Matrix<int>& m, int rr, int cc, int sgn) { if (m.rows() != rr || m.columns() != cc || (int)m.size() != rr * cc) return false; for (int i = 0; i < rr; ++i) for (int j = 0; j < cc; ++j) if (m[i][j] != sgn * (100 * i + j)) return false; return true; };
    REQUIRE(is(A, r, c, 1) && is(B, r2, c2, -1), "matrix-entries", at);
    std::vector<int> raw; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) raw.push_back(100 * i + j);
    Matrix<int> R(raw.data(), r, c); REQUIRE(is(R, r, c, 1), "matrix-from-data", at);
    Matrix<int> C(A), D; D = B; C[0][0] = 999; REQUIRE(is(A, r, c, 1) && is(D, r2, c2, -1), "matrix-copy", at);
    A.swap(B); REQUIRE(is(A, r2, c2, -1) && is(B, r, c, 1), "matrix-swap", at);
    Matrix<int> E(std::move(A)); REQUIRE(is(E, r2, c2, -1), "matrix-move", at);
    E.resize(r, c); REQUIRE(E.rows() == r && E.columns() == c && (int)E.size() == r * c, "matrix-resize", at);
  }
}

int main(int c, char** v) { return pbt::main_(c, v); }

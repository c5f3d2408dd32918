// Mesh generation, modification, refinement, smoothing: whole-mesh oracles.
#include "meshlib.h"
#include <malloc.h>
using namespace ml;

struct Built { std::unique_ptr<Domain> d; std::unique_ptr<MeshGenerator> g; Mesh* m = nullptr; bool ok = false, complete = false; };

static void start(Built& b, const Spec& sp)
{
  b.d = make_domain(sp); b.g = std::make_unique<MeshGenerator>();
  b.m = &b.g->new_mesh(*b.d, sp.mesh_id, sp.color);
}
static void triangulate(Built& b)
{
  b.ok = b.g->triangulation(*b.m).generate_elements();
  b.complete = MeshChecker(*b.m, *b.d).check_completeness();
}
static Built build(const Spec& sp) { Built b; start(b, sp); triangulate(b); return b; }

// stored element data agree with the vertices
static const int ANY_COLOUR = -12345;
static void check_element_data(const PM& pm, const Spec& sp, Mesh* m, int color)
{
  check_stored(*m, sp.extent());
  double ext = sp.extent();
  for (size_t k = 0; k < pm.e.size(); ++k)
  {
    const Elem& e = pm.e[k];
    double a = (double) elem_area(pm, e);
    REQUIRE(std::fabs(e.area - a) <= 1e-9 * ext * ext, "stored-area", "element ", k, " stores area ", e.area, " but its vertices enclose ", a);
    if (color != ANY_COLOUR) REQUIRE(e.color == color, "element-colour", "element ", k, " has colour ", e.color, " instead of ", color);
    REQUIRE(e.owner == m, "element-owner", "element ", k, " is not attributed to its mesh");
  }
}

// ------------------------------------------------------------------ C07
PROPERTY(tri_cover)
{
  quiet(); GenOpt o; o.target = s.pick<double>({400, 100, 1000});
  Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  Built b; start(b, sp);
  int how = s.i(0, 3);
  auto& t = b.g->triangulation(*b.m);
  if (how == 3)
  { // in portions
    s.label("in-portions");
    int n = s.i(1, 40);
    t.n_elements(n).generate_elements();
    PM part = extract(*b.m);
    REQUIRE((int) part.e.size() <= n, "too-many-elements", part.e.size(), " elements, limit ", n);
    check_elements_positive(part, sp.extent());
    t.n_elements(0);
  }
  triangulate(b);
  if (!b.ok || !b.complete) { s.label("reported-failure"); s.discard(); }
  s.nontrivial();
  PM pm = extract(*b.m);
  s.note("triangles=", pm.nt, " quads=", pm.nq, "\n");
  check_cover(pm, sp);
  check_element_data(pm, sp, b.m, sp.color);
  REQUIRE(std::fabs(pm.reported_area - (double) sp.area()) < 1e-8 * sp.extent() * sp.extent(), "reported-area",
          "the mesh reports area ", pm.reported_area, " for a domain of area ", (double) sp.area());
  REQUIRE(b.m->n_elements() == pm.e.size() && b.m->n_triangles() == (size_t) pm.nt && b.m->n_quads() == (size_t) pm.nq
       && b.m->n_vertices() == pm.v.size() && b.m->n_boundary_edges() == pm.be.size() && b.m->n_interior_edges() == pm.ie.size(),
       "counts", "entity counts disagree with the containers");
}

// ------------------------------------------------------------------ C08
static bool covers(const PM& pm, const Spec& sp, std::string& why)
{
  try { check_cover(pm, sp); } catch (const pbt::Failure& f) { why = f.key + ": " + f.msg; return false; }
  return true;
}
PROPERTY(tri_truth)
{
  quiet(); GenOpt o; o.target = s.pick<double>({100, 40, 150});
  // harder problems: coarse sizes next to small features
  Spec sp = gen_spec(s, o);
  double f = s.pick<double>({1, 1, 2.5, 6, 0.7}); sp.f.h *= f;
  s.note(show(sp)); classify(s, sp);
  Built b; start(b, sp);
  if (s.p(1, 3))
  {
    auto& t = b.g->triangulation(*b.m);
    t.min_cell_quality(s.g(0.05, 0.9, 17)).max_cell_angle(s.g(1.8, 3.14, 12)).mesh_range_factor(s.g(0.5, 2.5, 8))
     .wide_search_factor(s.g(1, 12, 11)).base_vertex_factor(s.g(0.8, 2.0, 6));
    s.label("tuned-parameters");
  }
  int mode = s.i(0, 5);   // 4: partial meshing first, 5: partial meshing, then exhaustive search only
  if (mode >= 4)
  {
    size_t n = s.i(1, 60), before = b.m->n_triangles();
    b.g->triangulation(*b.m).n_elements(n).generate_elements();
    b.g->triangulation(*b.m).n_elements(0);
    s.note("first ", n, " elements\n"); s.label("partial");
    REQUIRE(b.m->n_triangles() - before <= n, "too-many-elements", b.m->n_triangles() - before, " elements were created, requested were ", n);
  }
  bool small = false;   // the exhaustive search takes cubic time
  if (mode == 5 || mode == 3) { MeshCleanup::setup_facet_connectivity(*b.m); size_t n = b.m->get_front_edges().size(); small = n <= 70; }
  if (small)
  {
    s.label("exhaustive"); s.note("exhaustive search\n");
    if (s.b())
    {
      size_t n = s.i(1, 8), before = b.m->n_triangles();
      b.g->triangulation(*b.m).n_elements(n).generate_elements_exhaustive(); b.g->triangulation(*b.m).n_elements(0);
      s.note("first ", n, " elements\n"); s.label("exhaustive-partial");
      REQUIRE(b.m->n_triangles() - before <= n, "too-many-elements", b.m->n_triangles() - before, " elements were created by exhaustive search, requested were ", n);
    }
    b.ok = b.g->triangulation(*b.m).generate_elements_exhaustive();
    b.complete = MeshChecker(*b.m, *b.d).check_completeness();
  }
  else triangulate(b);
  s.label(b.ok ? "success" : "failure");
  s.nontrivial();
  PM pm = extract(*b.m);
  std::string why; bool cov = covers(pm, sp, why);
  if (b.ok && b.complete) REQUIRE(cov, "false-success", "success and completeness are reported but ", why);
  if (b.complete) REQUIRE(cov, "false-complete", "completeness is reported but ", why);
  if (cov) REQUIRE(b.complete, "false-incomplete", "the mesh covers the domain but is reported as incomplete");
  if (cov && !b.ok) s.label("covered-but-false");
}
// damaged meshes must be reported as incomplete
PROPERTY(damage)
{
  quiet(); GenOpt o; o.target = 120; o.holes = s.p(1, 3);
  Spec sp = gen_spec(s, o); s.note(show(sp));
  Built b = build(sp); if (!b.ok || !b.complete) s.discard();
  s.nontrivial();
  int n = s.i(1, 3);
  for (int k = 0; k < n && b.m->n_triangles() > 0; ++k)
  {
    size_t i = s.u(b.m->n_triangles());
    b.m->remove_triangle(b.m->triangles()[i]);
  }
  MeshCleanup::setup_facet_connectivity(*b.m);
  REQUIRE(!MeshChecker(*b.m, *b.d).check_completeness(), "hole-not-noticed", n, " removed triangles, still complete");
}

// ------------------------------------------------------------------ liveness
PROPERTY(tri_success)
{
  quiet(); GenOpt o; o.holes = false; o.fixed = false; o.sizes = false; o.vsizes = false; o.target = s.pick<double>({400, 100, 1500});
  Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  Built b = build(sp);
  s.nontrivial();
  REQUIRE(b.ok && b.complete, "meshing-failed", "a simple polygon with constant element size could not be meshed");
  PM pm = extract(*b.m);
  check_cover(pm, sp);
}

// elements of several colours, as after a merge of meshes
static bool recolour(pbt::Src& s, Mesh& m)
{
  if (!s.p(1, 3)) return false;
  s.label("several-colours");
  bool cut = s.b(); double w = s.g(0, 6, 12), n = s.i(2, 4);
  size_t k = 0;
  auto c = [&](const Vec2d& p) -> int { ++k; return cut ? 3 + (int) (std::fabs(std::sin(w) * p.x + std::cos(w) * p.y) * 3.3) % (int) n : 3 + (int) ((k * 2654435761u >> 7) % (unsigned) n); };
  for (const auto& t : m.triangles()) t->color(c(t->xy()));
  for (const auto& q : m.quads()) q->color(c(q->xy()));
  return true;
}

struct Layer { P a, e; int n; double h, g; bool r; };
static std::vector<Layer> add_layers(pbt::Src& s, Built& b, const Spec& sp);
struct SmoothOpt { double eps = 0.75, decay = 1, af = 0.5; bool set = false; };
static void smooth_with(Built& b, int n, int kind, bool layers, SmoothOpt o = SmoothOpt{})
{
  if (kind == 0) { auto& l = b.g->laplace_smoothing(*b.m); if (o.set) l.epsilon(o.eps).decay(o.decay); l.quad_layer_smoothing(layers).smooth(n); }
  if (kind == 1) { auto& t = b.g->torsion_smoothing(*b.m); if (o.set) t.epsilon(o.eps).decay(o.decay).angle_factor(o.af); t.quad_layer_smoothing(layers).smooth(n); }
  if (kind == 2) { auto& m = b.g->mixed_smoothing(*b.m); if (o.set) m.epsilon(o.eps).decay(o.decay).angle_factor(o.af); m.quad_layer_smoothing(layers).smooth(n); }
}

// ------------------------------------------------------------------ C11
PROPERTY(t2q)
{
  quiet(); Spec sp = gen_spec(s, GenOpt{}); s.note(show(sp)); classify(s, sp);
  Built b; start(b, sp);
  if (s.p(1, 4)) { add_layers(s, b, sp); s.label("quad-layers"); }
  triangulate(b); if (!b.ok || !b.complete) s.discard();
  bool rc = recolour(s, *b.m);
  int rounds = s.p(1, 4) ? 2 : 1;
  for (int round = 0; round < rounds; ++round) {
  if (s.p(1, 4)) { int n = s.i(1, 4), k = s.i(0, 2); s.note("smoothing kind ", k, " iterations ", n, "\n"); smooth_with(b, n, k, s.b()); s.label("smoothed-before"); }
  PM p0 = extract(*b.m);
  b.g->tri2quad_modification(*b.m).modify();
  PM pm = extract(*b.m);
  s.note("before: ", p0.nt, "t ", p0.nq, "q  after: ", pm.nt, "t ", pm.nq, "q\n");
  if (pm.nq > p0.nq) s.nontrivial();
  check_cover(pm, sp); check_adjacency(pm); check_element_data(pm, sp, b.m, rc ? ANY_COLOUR : sp.color);
  REQUIRE(2 * (pm.nq - p0.nq) == p0.nt - pm.nt, "merge-balance", "quads ", p0.nq, "->", pm.nq, " triangles ", p0.nt, "->", pm.nt);
  // vertices and boundary untouched
  REQUIRE(pm.v.size() == p0.v.size(), "vertices-changed", p0.v.size(), " -> ", pm.v.size());
  for (size_t k = 0; k < pm.v.size(); ++k)
    REQUIRE(pm.v[k].p.x == p0.v[k].p.x && pm.v[k].p.y == p0.v[k].p.y, "vertices-changed", "vertex ", k, " moved");
  REQUIRE(pm.be.size() == p0.be.size(), "boundary-changed", p0.be.size(), " -> ", pm.be.size());
  for (size_t k = 0; k < pm.v.size(); ++k)
    REQUIRE(pm.v[k].fixed == p0.v[k].fixed && pm.v[k].layer == p0.v[k].layer && pm.v[k].onb == p0.v[k].onb, "vertex-flags-changed", "vertex ", k, " at (", p0.v[k].p.x, ",", p0.v[k].p.y, ")");
  for (size_t k = 0; k < pm.be.size(); ++k)
    REQUIRE(pm.be[k].a == p0.be[k].a && pm.be[k].b == p0.be[k].b && pm.be[k].color == p0.be[k].color, "boundary-changed", "edge ", k, " ", p0.be[k].a, "-", p0.be[k].b, " of colour ", p0.be[k].color, " became ", pm.be[k].a, "-", pm.be[k].b, " of colour ", pm.be[k].color);
  // every new quad is the union of two former triangles, every other element is an old one
  auto canon = [](const std::vector<int>& v) { std::vector<int> r(v); std::sort(r.begin(), r.end()); return r; };
  std::map<std::vector<int>, int> old; for (auto& e : p0.e) old[canon(e.v)] = e.color;
  for (size_t k = 0; k < pm.e.size(); ++k)
  {
    const auto& v = pm.e[k].v;
    if (old.count(canon(v))) { REQUIRE(old[canon(v)] == pm.e[k].color, "element-colour", "element ", k, " changed its colour"); continue; }
    REQUIRE(v.size() == 4, "new-triangle", "triangle ", k, " did not exist before");
    bool d1 = old.count(canon({v[0], v[1], v[2]})) && old.count(canon({v[0], v[2], v[3]}));
    bool d2 = old.count(canon({v[0], v[1], v[3]})) && old.count(canon({v[1], v[2], v[3]}));
    REQUIRE(d1 || d2, "quad-not-from-two-triangles", "quad ", k);
    int c1 = d1 ? old[canon({v[0], v[1], v[2]})] : old[canon({v[0], v[1], v[3]})], c2 = d1 ? old[canon({v[0], v[2], v[3]})] : old[canon({v[1], v[2], v[3]})];
    REQUIRE(c1 == c2 && c1 == pm.e[k].color, "element-colour", "quad ", k, " of colour ", pm.e[k].color, " replaces triangles of colours ", c1, " and ", c2);
    for (int q = 0; q < 4; ++q)
      REQUIRE(geo::cross3(pm.v[v[q]].p, pm.v[v[(q + 1) % 4]].p, pm.v[v[(q + 2) % 4]].p) > 0, "concave-quad", "quad ", k, " is not convex");
  }
  // a useful share of the triangles is merged (never observed below 30 %)
  if (p0.nt >= 60 && !rc && round == 0) REQUIRE(pm.nt <= 0.85 * p0.nt, "nothing-merged", "only ", p0.nt - pm.nt, " of ", p0.nt, " triangles were merged");
  if (p0.nt >= 60 && pm.nt > 0.5 * p0.nt) s.label("few-merged");
  }
}

// ------------------------------------------------------------------ C12
PROPERTY(refine)
{
  quiet(); GenOpt o; o.target = s.pick<double>({150, 40}); Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  Built b; start(b, sp);
  if (s.p(1, 4)) { add_layers(s, b, sp); s.label("quad-layers"); }
  triangulate(b); if (!b.ok || !b.complete) s.discard();
  s.nontrivial();
  if (s.b()) { b.g->tri2quad_modification(*b.m).modify(); s.label("mixed-mesh"); }
  if (s.p(1, 4)) { smooth_with(b, s.i(1, 3), s.i(0, 2), s.b()); s.label("smoothed-before"); }
  bool rc = recolour(s, *b.m);
  PM p0 = extract(*b.m);
  int n = s.i(1, 2);
  for (int k = 0; k < n; ++k)
  {
    if (k) s.label("twice");
    bool r = b.g->quad_refinement(*b.m).refine();
    REQUIRE(r, "refinement-refused", "quad refinement returned false");
    PM p1 = extract(*b.m);
    check_cover(p1, sp); check_adjacency(p1); check_element_data(p1, sp, b.m, rc ? ANY_COLOUR : sp.color);
    REQUIRE(p1.nt == 0, "triangles-left", p1.nt);
    REQUIRE(p1.nq == 3 * p0.nt + 4 * p0.nq, "element-count", p1.nq, " quads from ", p0.nt, " triangles and ", p0.nq, " quads");
    REQUIRE(p1.be.size() == 2 * p0.be.size(), "boundary-count", p0.be.size(), " -> ", p1.be.size());
    REQUIRE(p1.v.size() == p0.v.size() + p0.e.size() + p0.ie.size() + p0.be.size(), "vertex-count", p1.v.size());
    // old vertices stay, new ones are midpoints and centroids
    double tol = 1e-9 * sp.extent();
    std::vector<P> q; for (auto& v : p1.v) q.push_back(v.p);
    auto less = [](const P& a, const P& c) { return a.x < c.x || (a.x == c.x && a.y < c.y); };
    std::sort(q.begin(), q.end(), less);
    auto has = [&](P a)
    { auto it = std::lower_bound(q.begin(), q.end(), P{a.x - tol, -1e300}, less);
      for (; it != q.end() && it->x <= a.x + tol; ++it) if (std::fabs(it->y - a.y) <= tol) return true;
      return false; };
    for (auto& v : p0.v) REQUIRE(has(v.p), "vertex-lost", "vertex (", v.p.x, ",", v.p.y, ") disappeared");
    auto mid = [&](int a, int c) { return P{(p0.v[a].p.x + p0.v[c].p.x) / 2, (p0.v[a].p.y + p0.v[c].p.y) / 2}; };
    for (auto& e : p0.ie) { P m = mid(e.a, e.b); REQUIRE(has(m), "no-edge-midpoint", "interior edge midpoint (", m.x, ",", m.y, ")"); }
    for (auto& e : p0.be) { P m = mid(e.a, e.b); REQUIRE(has(m), "no-edge-midpoint", "boundary edge midpoint (", m.x, ",", m.y, ")"); }
    // every new quad contains one former vertex, lies in one former element and inherits its colour
    std::map<std::pair<double, double>, std::vector<int>> at;
    for (size_t e = 0; e < p0.e.size(); ++e) for (int w : p0.e[e].v) at[{p0.v[w].p.x, p0.v[w].p.y}].push_back((int) e);
    for (size_t e = 0; e < p1.e.size(); ++e)
    {
      P c{0, 0}; for (int w : p1.e[e].v) { c.x += p1.v[w].p.x / 4; c.y += p1.v[w].p.y / 4; }
      int hits = 0, col = -1;
      for (int w : p1.e[e].v)
      {
        auto it = at.find({p1.v[w].p.x, p1.v[w].p.y}); if (it == at.end()) continue;
        for (int o : it->second) { std::vector<P> poly; for (int x : p0.e[o].v) poly.push_back(p0.v[x].p); if (geo::inside(c, poly)) { ++hits; col = p0.e[o].color; } }
      }
      REQUIRE(hits == 1, "no-parent", "quad ", e, " around (", c.x, ",", c.y, ") lies in ", hits, " former elements");
      REQUIRE(col == p1.e[e].color, "element-colour", "quad ", e, " around (", c.x, ",", c.y, ") has colour ", p1.e[e].color, ", its element had ", col);
    }
    for (auto& v : p1.v)
    { bool onb = sp.bdist(v.p) < tol; if (onb) REQUIRE(v.onb, "boundary-flag", "vertex (", v.p.x, ",", v.p.y, ") lies on the boundary but is not marked so"); }
    p0 = p1;
  }
}

// ------------------------------------------------------------------ C13
static bool convex(const PM& p, const Elem& e)
{
  size_t n = e.v.size();
  for (size_t q = 0; q < n; ++q) if (!(geo::cross3(p.v[e.v[q]].p, p.v[e.v[(q + 1) % n]].p, p.v[e.v[(q + 2) % n]].p) > 0)) return false;
  return true;
}
// direction to the closest boundary point; false if it is not clear
static bool bdry_dir(const PM& p, P x, double tol, P& dir)
{
  double best = 1e300, bm = 1e300, bm2 = 1e300; std::vector<P> c; size_t im = 0;
  for (auto& e : p.be)
  {
    P a = p.v[e.a].p, b = p.v[e.b].p; double t = std::min(1.0, std::max(0.0, (double) geo::seg_param(x, a, b))); P q{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
    double d = geo::dist(x, q); best = std::min(best, d); c.push_back(q);
    double dm = geo::dist(x, P{0.5 * (a.x + b.x), 0.5 * (a.y + b.y)});
    if (dm < bm) { bm2 = bm; bm = dm; im = c.size() - 1; } else bm2 = std::min(bm2, dm);
  }
  // near corners the edge with the closest centre need not hold the closest point; the code looks at the former
  if (bm2 - bm < tol || geo::dist(x, c[im]) > best + 1e-3 * tol) return false;
  int first = -1;
  for (size_t k = 0; k < c.size(); ++k)
    if (geo::dist(x, c[k]) < best + tol)
    { if (first < 0) first = (int) k; else if (geo::dist(c[first], c[k]) > 1e-3 * tol) return false; }
  if (best < tol) return false;
  dir = P{(c[first].x - x.x) / best, (c[first].y - x.y) / best};
  return true;
}
static void check_same_topology(const PM& a, const PM& b)
{
  REQUIRE(a.v.size() == b.v.size() && a.e.size() == b.e.size() && a.be.size() == b.be.size() && a.ie.size() == b.ie.size(), "topology-changed", "entity counts changed");
  for (size_t k = 0; k < a.e.size(); ++k) REQUIRE(a.e[k].v == b.e[k].v && a.e[k].color == b.e[k].color, "topology-changed", "element ", k, " changed");
  for (size_t k = 0; k < a.be.size(); ++k) REQUIRE(a.be[k].a == b.be[k].a && a.be[k].b == b.be[k].b && a.be[k].color == b.be[k].color, "topology-changed", "boundary edge ", k, " changed");
}
// what a smoothing pass does
PROPERTY(smooth_law)
{
  quiet(); GenOpt o; o.target = s.pick<double>({200, 80, 400}); Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  Built b = build(sp); if (!b.ok || !b.complete) s.discard();
  Built c = build(sp);   // the same mesh again
  if (s.b()) { b.g->tri2quad_modification(*b.m).modify(); c.g->tri2quad_modification(*c.m).modify(); s.label("tri2quad"); }
  Mesh& m = *b.m; double ext = sp.extent();
  std::vector<Vertex*> ws; for (const auto& v : c.m->vertices()) ws.push_back(v.get());
  std::vector<Vertex*> vs; for (const auto& v : m.vertices()) vs.push_back(v.get());
  PM p0 = extract(m);
  std::vector<std::vector<int>> at(p0.v.size());
  for (size_t e = 0; e < p0.e.size(); ++e) for (int w : p0.e[e].v) at[w].push_back((int) e);
  auto margin = [&](const PM& p, int i)
  { // smallest corner of the elements around vertex i
    double r = 1e300;
    for (int e : at[i])
    {
      auto& v = p.e[e].v; size_t n = v.size();
      for (size_t q = 0; q < n; ++q)
      { P a = p.v[v[q]].p, c = p.v[v[(q + 1) % n]].p, d = p.v[v[(q + 2) % n]].p; r = std::min(r, (double) geo::cross3(a, c, d) / (geo::dist(a, c) * geo::dist(c, d))); }
    }
    return r;
  };
  // disturb the mesh
  double amp = s.pick<double>({0.45, 0, 0.2, 0.6}); int nfree = 0;
  for (size_t i = 0; i < vs.size(); ++i)
  {
    if (p0.v[i].fixed || p0.v[i].onb) continue;
    ++nfree; if (amp == 0) continue;
    double h = 1e300; for (int e : at[i]) for (int w : p0.e[e].v) if (w != (int) i) h = std::min(h, geo::dist(p0.v[w].p, p0.v[i].p));
    P old = p0.v[i].p; p0.v[i].p = {old.x + amp * h * s.g(-1, 1, 32), old.y + amp * h * s.g(-1, 1, 32)};
    if (margin(p0, (int) i) < 0.02) { p0.v[i].p = old; continue; }
    MeshCleanup::set_vertex_coordinates(*vs[i], V(p0.v[i].p));
    MeshCleanup::set_vertex_coordinates(*ws[i], V(p0.v[i].p));
  }
  if (nfree < 3) s.discard();
  s.nontrivial(); if (amp > 0) s.label("disturbed");
  int kind = s.i(0, 2);
  if (kind == 0)
  {
    int rounds = s.i(1, 3); s.label("laplace");
    for (int r = 0; r < rounds; ++r)
    {
      double eps = s.g(0.05, 1.2, 23); bool again = s.b(); (void) again;
      s.note("laplace eps ", eps, "\n");
      b.g->laplace_smoothing(m).epsilon(eps).decay(1).smooth(1);
      PM p1 = extract(m);
      REQUIRE(p1.v.size() == p0.v.size(), "topology-changed", "vertex count");
      int refused = 0;
      for (size_t i = 0; i < vs.size(); ++i)
      {
        P old = p0.v[i].p, got = p1.v[i].p;
        if (p0.v[i].fixed || p0.v[i].onb) { REQUIRE(old.x == got.x && old.y == got.y, "fixed-vertex-moved", "vertex ", i); continue; }
        P mean{0, 0}; int n = 0;
        for (int e : at[i]) for (int w : p0.e[e].v) if (w != (int) i) { mean.x += p0.v[w].p.x; mean.y += p0.v[w].p.y; ++n; }
        P want{old.x + eps * (mean.x / n - old.x), old.y + eps * (mean.y / n - old.y)};
        if (std::fabs(want.x - got.x) < 1e-9 * ext && std::fabs(want.y - got.y) < 1e-9 * ext) { p0.v[i].p = got; continue; }
        REQUIRE(got.x == old.x && got.y == old.y, "laplace-position", "vertex ", i, " moved from (", old.x, ",", old.y, ") to (", got.x, ",", got.y, ") instead of (", want.x, ",", want.y, ")");
        ++refused;
        p0.v[i].p = want; bool valid = margin(p0, (int) i) > 1e-3 && sp.inside(want) && sp.bdist(want) > 1e-5 * ext; p0.v[i].p = old;
        REQUIRE(!valid, "vertex-not-moved", "vertex ", i, " stays at (", old.x, ",", old.y, ") although its elements remain valid at (", want.x, ",", want.y, ")");
      }
      if (refused) s.label("some-refused");
    }
    return;
  }
  // several passes are single passes with a damped factor; mixed smoothing alternates torsion and Laplace passes
  int n = s.i(1, 4); double eps = s.g(0.1, 1, 9), decay = s.g(0.5, 1, 5), af = s.g(0, 1, 4);
  s.label(kind == 1 ? "torsion" : "mixed"); s.note(kind == 1 ? "torsion " : "mixed ", n, " eps ", eps, " decay ", decay, " angle factor ", af, "\n");
  PM before = extract(m);
  SmoothOpt so; so.set = true; so.eps = eps; so.decay = decay; so.af = af;
  smooth_with(b, n, kind, false, so);
  for (int k = 0; k < n; ++k)
  {
    so.eps = eps; 
    smooth_with(c, 1, 1, false, so);
    if (kind == 2) smooth_with(c, 1, 0, false, so);
    eps *= kind == 1 ? -decay : decay;
  }
  PM p1 = extract(m), p2 = extract(*c.m); double move = 0;
  REQUIRE(p1.v.size() == p2.v.size(), "topology-changed", "vertex count");
  for (size_t i = 0; i < vs.size(); ++i)
  {
    move = std::max(move, geo::dist(before.v[i].p, p1.v[i].p));
    REQUIRE(geo::dist(p1.v[i].p, p2.v[i].p) < 1e-6 * ext, "passes-disagree", "vertex ", i, " is at (", p1.v[i].p.x, ",", p1.v[i].p.y, ") after ", n, " passes at once and at (", p2.v[i].p.x, ",", p2.v[i].p.y, ") after single passes");
  }
  if (kind == 2 || af > 0) REQUIRE(move > 1e-9 * ext, "nothing-moved", "no vertex moved");
  else REQUIRE(move < 1e-7 * ext, "angle-factor-ignored", "a vertex moved by ", move, " with angle factor 0");
}
PROPERTY(smooth)
{
  quiet(); GenOpt o; o.target = s.pick<double>({400, 100}); Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  Built b; start(b, sp);
  bool lay = s.p(1, 4);
  if (lay) { add_layers(s, b, sp); s.label("quad-layers"); }
  triangulate(b); if (!b.ok || !b.complete) s.discard();
  if (s.b()) { b.g->tri2quad_modification(*b.m).modify(); s.label("tri2quad"); }
  if (s.p(1, 4)) { b.g->quad_refinement(*b.m).refine(); s.label("refined"); }
  bool rc = recolour(s, *b.m);
  PM p0 = extract(*b.m);
  int rounds = s.i(1, 3); bool moved = false;
  for (int r = 0; r < rounds; ++r)
  {
    int n = s.i(1, 6), k = s.i(0, 2); bool ql = s.b(); SmoothOpt so;
    if (s.p(1, 3)) { so.set = true; so.eps = s.g(0.05, 1.5, 29); so.decay = s.g(0.5, 1, 5); so.af = s.g(0, 1, 4); s.label("tuned-parameters"); }
    s.note("smoothing kind ", k, " iterations ", n, " layers ", ql, " eps ", so.eps, " decay ", so.decay, " angle ", so.af, "\n");
    smooth_with(b, n, k, ql, so);
    PM p1 = extract(*b.m);
    check_same_topology(p0, p1);
    for (size_t i = 0; i < p0.v.size(); ++i)
    {
      bool same = p0.v[i].p.x == p1.v[i].p.x && p0.v[i].p.y == p1.v[i].p.y;
      moved |= !same;
      if (p0.v[i].fixed || p0.v[i].onb) REQUIRE(same, "fixed-vertex-moved", "vertex ", i, " at (", p0.v[i].p.x, ",", p0.v[i].p.y, ")");
      REQUIRE(std::isfinite(p1.v[i].p.x) && std::isfinite(p1.v[i].p.y), "not-finite", "vertex ", i);
      if (p0.v[i].layer && !ql) REQUIRE(same, "layer-vertex-moved", "vertex ", i, " of a quad layer at (", p0.v[i].p.x, ",", p0.v[i].p.y, ") moved although quad layers are not to be smoothed");
      if (p0.v[i].layer && ql && !same)
      { // layer heights are kept: no movement towards or away from the boundary
        s.label("layer-vertex-slides");
        P d; double tol = 1e-7 * sp.extent(); if (!bdry_dir(p0, p0.v[i].p, tol, d)) continue;
        double along = (p1.v[i].p.x - p0.v[i].p.x) * d.x + (p1.v[i].p.y - p0.v[i].p.y) * d.y;
        REQUIRE(std::fabs(along) <= tol, "layer-height-changed", "vertex (", p0.v[i].p.x, ",", p0.v[i].p.y, ") of a quad layer moved by ", along, " towards the boundary");
      }
    }
    for (auto& f : sp.fixed)
    { bool hit = false; for (auto& v : p1.v) hit |= v.p.x == f.p.x && v.p.y == f.p.y; REQUIRE(hit, "fixed-vertex-lost", f.p.x, ",", f.p.y); }
    check_cover(p1, sp); check_adjacency(p1); check_element_data(p1, sp, b.m, rc ? ANY_COLOUR : sp.color);
    for (size_t e = 0; e < p0.e.size(); ++e)
      if (p0.e[e].v.size() == 4 && convex(p0, p0.e[e]))
        REQUIRE(convex(p1, p1.e[e]), "quad-not-convex", "quad ", e, " at (", p1.v[p1.e[e].v[0]].p.x, ",", p1.v[p1.e[e].v[0]].p.y, ") was convex before smoothing and is not afterwards");
    p0 = p1;
  }
  if (moved) s.nontrivial();
}

// ------------------------------------------------------------------ C09
PROPERTY(fixed)
{
  quiet(); GenOpt o; o.force_fixed = true; Spec sp = gen_spec(s, o); if (sp.fixed.empty()) s.discard(); s.note(show(sp)); classify(s, sp);
  Built b = build(sp); if (!b.ok || !b.complete) s.discard();
  s.nontrivial();
  int steps = s.i(0, 4); bool refined = false;
  for (int r = 0; r < steps; ++r)
    switch (s.i(0, 5))
    {
      case 0: b.g->tri2quad_modification(*b.m).modify(); s.label("tri2quad"); s.note("tri2quad\n"); break;
      case 1: if (!refined) { b.g->quad_refinement(*b.m).refine(); refined = true; s.label("refined"); s.note("refine\n"); } break;
      case 2: b.g->mixed_smoothing(*b.m).smooth(s.i(1, 4)); s.label("smoothed"); s.note("smooth\n"); break;
      default:
      {
        int n = s.i(1, 6), k = s.i(0, 2); bool ql = s.b(); SmoothOpt so;
        if (s.p(1, 3)) { so.set = true; so.eps = s.g(0.05, 1.5, 29); so.decay = s.g(0.5, 1, 5); so.af = s.g(0, 1, 4); }
        s.note("smoothing kind ", k, " iterations ", n, " layers ", ql, " eps ", so.eps, " decay ", so.decay, " angle ", so.af, "\n"); s.label("smoothed");
        smooth_with(b, n, k, ql, so);
      }
    }
  PM p = extract(*b.m);
  check_cover(p, sp);
  for (auto& f : sp.fixed)
  {
    int hit = 0; bool flag = false;
    for (auto& v : p.v) if (v.p.x == f.p.x && v.p.y == f.p.y) { ++hit; flag = v.fixed; }
    REQUIRE(hit == 1, "fixed-vertex-missing", "fixed vertex (", f.p.x, ",", f.p.y, ") occurs ", hit, " times");
    REQUIRE(flag, "fixed-vertex-flag", "fixed vertex (", f.p.x, ",", f.p.y, ") is not marked as fixed");
  }
  // along each fixed edge vertices are placed at the local element size
  for (auto& e : sp.fedges)
  {
    P a = sp.fixed[e.first].p, c = sp.fixed[e.second].p; std::vector<double> t;
    double len = geo::dist(a, c);
    for (auto& v : p.v) if (geo::seg_dist(v.p, a, c) < 1e-9 * sp.extent()) t.push_back((double) geo::seg_param(v.p, a, c) * len);
    std::sort(t.begin(), t.end());
    for (size_t k = 0; k + 1 < t.size(); ++k)
    {
      double m = 0.5 * (t[k] + t[k + 1]) / len; P q{a.x + m * (c.x - a.x), a.y + m * (c.y - a.y)};
      double h = sp.f(q.x, q.y);
      // the domain's size function is bounded by the user's one
      double hm = std::max({h, sp.f(a.x + t[k] / len * (c.x - a.x), a.y + t[k] / len * (c.y - a.y)), sp.f(a.x + t[k + 1] / len * (c.x - a.x), a.y + t[k + 1] / len * (c.y - a.y))});
      REQUIRE(t[k + 1] - t[k] <= 2.1 * hm, "fixed-edge-gap", "no vertex on fixed edge (", a.x, ",", a.y, ")-(", c.x, ",", c.y, ") between ", t[k], " and ", t[k + 1], ", size ", hm);
    }
  }
}

template <typename F> static void stage(const char* name, F f)
{ try { f(); } catch (pbt::Failure& e) { throw pbt::Failure{std::string(name) + "/" + e.key, e.msg}; } }

// ------------------------------------------------------------------ C10
static std::vector<Layer> add_layers(pbt::Src& s, Built& b, const Spec& sp)
{
  std::vector<Layer> ls;
  int nl = s.i(1, 2);
  for (int k = 0; k < nl; ++k)
  {
    auto& l = sp.loops[s.u(sp.loops.size())];
    Layer y; y.a = s.pick(l.pts); y.e = s.b() ? y.a : s.pick(l.pts);
    y.n = s.i(1, 4); y.h = sp.f.h * s.g(0.05, 0.4, 7); y.g = s.g(1, 1.5, 5);
    s.note("layer (", y.a.x, ",", y.a.y, ")-(", y.e.x, ",", y.e.y, ") n=", y.n, " h=", y.h, " g=", y.g, "\n");
    y.r = b.g->quad_layer_generation(*b.m).n_layers(y.n).first_height(y.h).growth_rate(y.g)
         .starting_position(V(y.a)).ending_position(V(y.e)).generate_elements();
    if (!y.r) s.label("layer-refused");
    ls.push_back(y);
  }
  return ls;
}
PROPERTY(qlayer)
{
  quiet(); GenOpt o; o.fixed = false; o.target = s.pick<double>({400, 120}); Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  Built b; start(b, sp);
  auto ls = add_layers(s, b, sp);
  PM l0 = extract(*b.m);
  if (ls.size() == 1) stage("layers", [&] { check_elements_positive(l0, sp.extent()); });
  triangulate(b);
  if (!(b.ok && b.complete)) { s.label("reported-failure"); s.discard(); }
  PM pm = extract(*b.m);
  s.note("triangles=", pm.nt, " quads=", pm.nq, "\n");
  if (pm.nq > 0) s.nontrivial();
  stage("filled", [&] { check_cover(pm, sp); check_adjacency(pm); check_element_data(pm, sp, b.m, sp.color); });
  // optional post-processing keeps the cover
  int steps = s.i(0, 3); bool refined = false;
  for (int k = 0; k < steps; ++k)
  {
    int post = s.i(1, 3); if (post == 3 && refined) post = 2;
    s.note("post ", post, "\n");
    if (post == 1) { b.g->tri2quad_modification(*b.m).modify(); s.label("tri2quad"); }
    if (post == 2) { smooth_with(b, s.i(1, 4), s.i(0, 2), s.b()); s.label("smoothed"); }
    if (post == 3) { refined = true; REQUIRE(b.g->quad_refinement(*b.m).refine(), "refinement-refused", 0); s.label("refined"); }
    pm = extract(*b.m); stage(post == 1 ? "tri2quad" : post == 2 ? "smoothed" : "refined", [&] { check_cover(pm, sp); check_adjacency(pm); check_element_data(pm, sp, b.m, sp.color); });
  }
}

// the rows of a layer lie parallel to the boundary, at the requested heights
PROPERTY(layer_shape)
{
  quiet();
  Spec sp; double R = s.pick<double>({2, 1, 10, 0.5}); P c{s.g(-20, 20, 8), s.g(-20, 20, 8)};
  sp.f.h = R * s.g(0.1, 0.6, 25); sp.color = s.i(0, 5);
  bool hole = s.b(), rect = !hole && s.b(); int n = rect ? 4 : s.i(5, 16);
  auto plain = [&](Loop& l) { for (size_t i = 0; i < l.pts.size(); ++i) l.colors.push_back(s.i(0, 4)); l.msize.assign(l.pts.size(), 0); l.mrange.assign(l.pts.size(), 0); if (s.b()) std::reverse(l.pts.begin(), l.pts.end()); };
  Loop l; l.exterior = !hole;
  if (rect) { double w = R, h = R * s.g(0.4, 1, 6); l.pts = {{c.x - w, c.y - h}, {c.x + w, c.y - h}, {c.x + w, c.y + h}, {c.x - w, c.y + h}}; }
  else { double ph = s.g(0, 1, 10); for (int i = 0; i < n; ++i) l.pts.push_back({c.x + R * std::cos(2 * M_PI * i / n + ph), c.y + R * std::sin(2 * M_PI * i / n + ph)}); }
  plain(l);
  if (hole)
  { Loop e; double w = 2.5 * R; e.pts = {{c.x - w, c.y - w}, {c.x + w, c.y - w}, {c.x + w, c.y + w}, {c.x - w, c.y + w}}; plain(e); sp.loops.push_back(e); }
  sp.loops.push_back(l);
  s.note(show(sp));
  Built b; start(b, sp);
  // the ring of boundary vertices of the loop, in the direction of its edges
  PM p0 = extract(*b.m); std::map<int,int> nxt, prv;
  for (auto& e : p0.be) if (geo::poly_dist(p0.v[e.a].p, l.pts) < 1e-9 * R && geo::poly_dist(p0.v[e.b].p, l.pts) < 1e-9 * R) { nxt[e.a] = e.b; prv[e.b] = e.a; }
  std::vector<int> ring; REQUIRE(!nxt.empty(), "no-ring", 0);
  for (int v = nxt.begin()->first, k = 0; k < (int) nxt.size(); ++k, v = nxt[v]) ring.push_back(v);
  double L = 1e300, inr = 1e300;
  for (auto& e : nxt) L = std::min(L, geo::dist(p0.v[e.first].p, p0.v[e.second].p));
  for (size_t i = 0; i < l.pts.size(); ++i) inr = std::min(inr, geo::seg_dist(c, l.pts[i], l.pts[(i + 1) % l.pts.size()]));
  int nl = s.i(1, 4); double g = s.g(1, 1.5, 10), T = 0, f = 1; for (int k = 0; k < nl; ++k, f *= g) T += f;
  double H = std::min(L * s.g(0.05, 0.35, 6), std::min(0.45 * L, 0.3 * inr) / T); f /= g;
  if (1.6 * H * f > L - 2 * T * H) H = L / (1.6 * f + 2 * T);
  int m = (int) ring.size(); bool closed = s.b(); size_t a0 = s.u(l.pts.size()), a1 = a0; P A = l.pts[a0], E = A;
  if (!closed) { a1 = (a0 + 1 + s.u(l.pts.size() - 1)) % l.pts.size(); E = l.pts[a1]; }
  s.note(closed ? "closed" : "open", " layer (", A.x, ",", A.y, ")-(", E.x, ",", E.y, ") n=", nl, " h=", H, " g=", g, " on ", m, " edges\n");
  auto at = [&](P q) { for (int i = 0; i < m; ++i) if (geo::dist(p0.v[ring[i]].p, q) < 1e-9 * R) return i; return -1; };
  int i0 = at(A), i1 = at(E); REQUIRE(i0 >= 0 && i1 >= 0, "corner-lost", "a corner of the ring is no mesh vertex");
  int nb = closed ? m : (i1 - i0 + m) % m;
  bool ok = b.g->quad_layer_generation(*b.m).n_layers(nl).first_height(H).growth_rate(g).starting_position(V(A)).ending_position(V(E)).generate_elements();
  REQUIRE(ok, "layer-refused", "the layer was reported as failed");
  s.label(closed ? "closed" : "open"); if (nl > 1) s.label("several-rows"); if (g > 1) s.label("growing"); if (hole) s.label("hole");
  PM p1 = extract(*b.m);
  if (closed) REQUIRE((int) p1.nq == nl * m && p1.nt == 0, "layer-count", p1.nq, " quads and ", p1.nt, " triangles instead of ", nl * m, " quads");
  REQUIRE((int) p1.nq <= nl * nb, "layer-count", p1.nq, " quads for ", nl, " rows on ", nb, " edges");
  if (!closed && nb > 2) REQUIRE((int) p1.nq >= nl * (nb - 2), "layer-count", p1.nq, " quads for ", nl, " rows on ", nb, " edges");
  std::vector<P> want;
  for (int k = closed ? 0 : 1; k < nb; ++k)
  {
    P q = p0.v[ring[(i0 + k) % m]].p, pr = p0.v[ring[(i0 + k - 1 + m) % m]].p, ne = p0.v[ring[(i0 + k + 1) % m]].p;
    double u = geo::dist(pr, q), w = geo::dist(q, ne);
    P n1{-(q.y - pr.y) / u, (q.x - pr.x) / u}, n2{-(ne.y - q.y) / w, (ne.x - q.x) / w};
    P nn{n1.x + n2.x, n1.y + n2.y}; double nl2 = nn.x * nn.x + nn.y * nn.y; // point with distance t to both lines: q + t * 2 nn / |nn|^2
    double t = 0, hh = H;
    for (int r = 0; r < nl; ++r, hh *= g) { t += hh; if (closed || (k > r && k < nb - r)) want.push_back({q.x + 2 * t * nn.x / nl2, q.y + 2 * t * nn.y / nl2}); }
  }
  if (!want.empty()) s.nontrivial();
  auto rows = [&](const PM& p, const char* when)
  {
    for (size_t i = 0; i < want.size(); ++i)
    {
      double d = 1e300; bool lay = false; for (auto& v : p.v) { double x = geo::dist(v.p, want[i]); if (x < d) { d = x; lay = v.layer; } }
      REQUIRE(d < 1e-9 * (R + std::fabs(c.x) + std::fabs(c.y)), "row-height", when, ": no vertex at (", want[i].x, ",", want[i].y, "), next vertex is ", d, " away");
      REQUIRE(lay, "layer-flag", when, ": vertex (", want[i].x, ",", want[i].y, ") is not marked as layer vertex");
    }
  };
  rows(p1, "layer"); check_elements_positive(p1, sp.extent());
  triangulate(b); if (!b.ok || !b.complete) { s.label("not-filled"); return; }
  PM p2 = extract(*b.m); check_cover(p2, sp); check_adjacency(p2);
  rows(p2, "filled"); REQUIRE(p2.nq == p1.nq, "layer-lost", p1.nq, " quads became ", p2.nq);
}

// ------------------------------------------------------------------ C21
static std::string dump(const PM& p)
{
  std::ostringstream o; o << std::hexfloat;
  for (auto& v : p.v) o << v.p.x << ' ' << v.p.y << ' ' << v.fixed << v.onb << v.layer << '\n';
  for (auto& e : p.e) { for (int q : e.v) o << q << ' '; o << e.color << '\n'; }
  for (auto& e : p.be) o << e.a << ' ' << e.b << ' ' << e.color << ' ' << e.left << '\n';
  for (auto& e : p.ie) o << e.a << ' ' << e.b << ' ' << e.l << ' ' << e.r << '\n';
  return o.str();
}
static std::string pipeline(const Spec& sp, const std::vector<int>& ops)
{
  Built b; start(b, sp);
  for (int op : ops)
    if (op == 4) b.g->quad_layer_generation(*b.m).n_layers(2).first_height(0.1 * sp.f.h).growth_rate(1.2)
        .starting_position(V(sp.loops[0].pts[0])).ending_position(V(sp.loops[0].pts[0])).generate_elements();
  triangulate(b);
  if (!b.ok || !b.complete) return "failure";
  for (int op : ops)
    switch (op)
    {
      case 0: b.g->tri2quad_modification(*b.m).modify(); break;
      case 1: b.g->quad_refinement(*b.m).refine(); break;
      case 2: b.g->mixed_smoothing(*b.m).smooth(3); break;
      case 3: b.g->laplace_smoothing(*b.m).smooth(2); break;
      case 5: b.g->torsion_smoothing(*b.m).smooth(2); break;
      case 6: b.g->laplace_smoothing(*b.m).epsilon(0.3).decay(0.8).quad_layer_smoothing(true).smooth(2); break;
      case 7: b.g->mixed_smoothing(*b.m).epsilon(0.4).decay(0.7).angle_factor(0.25).quad_layer_smoothing(true).smooth(2); break;
      default: break;
    }
  return dump(extract(*b.m));
}
PROPERTY(determinism)
{
  quiet(); GenOpt o; o.target = 120; Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  auto draw = [&] { std::vector<int> r; int n = s.i(0, 3); for (int k = 0; k < n; ++k) r.push_back(s.i(0, 7)); if (std::count(r.begin(), r.end(), 1) > 1) r.resize(1); return r; };
  std::vector<int> ops = draw();
  s.note("ops:"); for (int q : ops) s.note(" ", q); s.note("\n");
  // fresh and freed heap memory has other contents in the second run
  mallopt(M_PERTURB, 0x5a);
  std::string a = pipeline(sp, ops);
  // other work in between must not matter
  GenOpt p; p.target = 60; Spec other = gen_spec(s, p); std::vector<int> oops = draw(); s.note("in between:\n", show(other), "ops:"); for (int q : oops) s.note(" ", q); s.note("\n");
  pipeline(other, oops);
  std::vector<std::unique_ptr<char[]>> ballast; for (int k = 0; k < 50; ++k) ballast.emplace_back(new char[1 + 97 * k]);
  mallopt(M_PERTURB, 0xff);
  std::string c = pipeline(sp, ops);
  mallopt(M_PERTURB, 0);
  if (a != "failure") s.nontrivial(); else s.label("failure");
  REQUIRE(a == c, "not-deterministic", "the same problem gave two different meshes");
}

// ------------------------------------------------------------------ C29
// Clean-up functions undo splits of elements: quads and triangles are split by an additional vertex, the clean-up restores them
namespace cleanup
{
struct El { std::vector<P> v; int color; };
static bool less(const P& a, const P& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
static El canon(El e) { std::rotate(e.v.begin(), std::min_element(e.v.begin(), e.v.end(), less), e.v.end()); return e; }
static std::string key(const El& e0)
{ El e = canon(e0); std::ostringstream o; o.precision(17); o << e.color; for (auto& p : e.v) o << " (" << p.x << "," << p.y << ")"; return o.str(); }
static std::vector<std::string> elements(const PM& p)
{
  std::vector<std::string> r;
  for (auto& e : p.e) { El q; q.color = e.color; for (int w : e.v) q.v.push_back(p.v[w].p); r.push_back(key(q)); }
  std::sort(r.begin(), r.end()); return r;
}
}
PROPERTY(cleanup)
{
  using namespace cleanup;
  quiet(); GenOpt o; o.target = s.pick<double>({60, 15, 200}); o.fixed = s.p(1, 4); Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  Built b = build(sp); if (!b.ok || !b.complete) s.discard();
  Mesh& m = *b.m;
  if (s.p(3, 4)) { b.g->tri2quad_modification(m).modify(); s.label("mixed-mesh"); }
  bool rc = recolour(s, m); (void) rc;
  PM p0 = extract(m);
  // no vertex may be removable beforehand
  for (const auto& v : m.vertices())
  {
    if (v->facets().size() != 3 || v->edges().size() != 3 || v->on_boundary() || v->is_fixed()) continue;
    bool tri = true; for (auto& f : v->facets()) if (f->n_vertices() != 3) tri = false;
    if (tri) s.discard();
  }
  for (auto& e : p0.e) if (!convex(p0, e)) s.discard();
  std::vector<std::string> want = elements(p0), kept;
  size_t nv = p0.v.size(), nie = p0.ie.size();
  auto forget = [&](const std::string& k) { want.erase(std::lower_bound(want.begin(), want.end(), k)); };
  auto insert = [&](const std::string& k) { want.insert(std::upper_bound(want.begin(), want.end(), k), k); };
  std::vector<Quad*> qs; for (const auto& q : m.quads()) qs.push_back(q.get());
  std::vector<Triangle*> ts; for (const auto& t : m.triangles()) ts.push_back(t.get());
  int n = s.i(1, 12), kinds[3] = {0, 0, 0}, nkeep = 0, chain = 0;
  const int which = s.i(0, 7);   // bits of the functions that are called; 0: all
  for (int k = 0; k < n; ++k)
  {
    int kind = s.i(0, 2);
    double t = s.g(0.25, 0.75, 8), off = s.g(-0.2, 0.2, 8);
    int keep = s.p(1, 5) ? s.i(1, 2) : 0;   // 1: the vertex is fixed, 2: the parts differ in colour
    if (kind == 0)
    {
      if (qs.empty()) continue;
      size_t i = s.u(qs.size()); Quad* q = qs[i]; qs.erase(qs.begin() + i);
      int r = s.i(0, 3); Vertex* w[4]; for (int j = 0; j < 4; ++j) w[j] = &q->vertex((j + r) % 4);
      P a = PT(w[0]->xy()), c = PT(w[2]->xy()), d = PT(w[1]->xy()), e = PT(w[3]->xy());
      P x{a.x + t * (c.x - a.x), a.y + t * (c.y - a.y)}; P to = off > 0 ? d : e; x = {x.x + std::fabs(off) * (to.x - x.x), x.y + std::fabs(off) * (to.y - x.y)};
      int col = q->color();
      int parts = !keep && s.p(1, 4) ? 3 : 2;
      El o4; o4.color = col; for (int j = 0; j < 4; ++j) o4.v.push_back(PT(w[j]->xy()));
      m.remove_quad(*q);
      Vertex& v = m.add_vertex(V(x)); if (s.b()) { m.add_interior_edge(*w[0], v); m.add_interior_edge(v, *w[2]); } else { m.add_interior_edge(*w[2], v); m.add_interior_edge(*w[0], v); }
      Vertex* last = &v;
      if (parts == 3)
      { // between v and w[3]
        ++chain; P y{x.x + 0.4 * (e.x - x.x), x.y + 0.4 * (e.y - x.y)};
        last = &m.add_vertex(V(y)); m.add_interior_edge(*w[0], *last); m.add_interior_edge(*last, *w[2]);
        m.add_quad(*w[0], v, *w[2], *last, col);
      }
      int rr = s.i(0, 3), c2 = keep == 2 ? col + 1 : col;
      const bool later = s.b();
      for (int j = 0; j < 2; ++j)
        if ((j == 0) != later) { Vertex* u[4] = {w[0], w[1], w[2], &v}; m.add_quad(*u[rr], *u[(rr + 1) % 4], *u[(rr + 2) % 4], *u[(rr + 3) % 4], col); }
        else { Vertex* u[4] = {w[0], last, w[2], w[3]}; m.add_quad(*u[rr], *u[(rr + 1) % 4], *u[(rr + 2) % 4], *u[(rr + 3) % 4], c2); }
      if (keep == 1) v.add_property(VertexProperty::is_fixed);
      bool called = which == 0 || (which & 1);
      if (keep || !called)
      {
        forget(key(o4)); nv += parts - 1; nie += 2 * (parts - 1); ++nkeep;
        P y = PT(last->xy());
        insert(key(El{{a, d, c, x}, col})); insert(key(El{{a, y, c, e}, c2}));
        if (parts == 3) insert(key(El{{a, x, c, y}, col}));
      }
      s.note("split quad of colour ", col, " at (", x.x, ",", x.y, ") keep ", keep, " parts ", parts, "\n");
    }
    else
    {
      if (ts.empty()) continue;
      size_t i = s.u(ts.size()); Triangle* q = ts[i]; ts.erase(ts.begin() + i);
      int r = s.i(0, 2); Vertex* w[3]; for (int j = 0; j < 3; ++j) w[j] = &q->vertex((j + r) % 3);
      P a = PT(w[0]->xy()), c = PT(w[1]->xy()), d = PT(w[2]->xy());
      double l0 = 0.2 + 0.4 * t, l1 = 0.25 + 0.6 * off; P x{l0 * a.x + l1 * c.x + (1 - l0 - l1) * d.x, l0 * a.y + l1 * c.y + (1 - l0 - l1) * d.y};
      int col = q->color(), c2 = keep == 2 ? col + 1 : col;
      El o3{{a, c, d}, col};
      m.remove_triangle(*q);
      Vertex& v = m.add_vertex(V(x)); if (keep == 1) v.add_property(VertexProperty::is_fixed);
      if (s.b()) { m.add_interior_edge(*w[0], v); m.add_interior_edge(v, *w[1]); } else { m.add_interior_edge(v, *w[1]); m.add_interior_edge(v, *w[0]); }
      bool called;
      if (kind == 1)
      {
        called = which == 0 || (which & 2);
        int rr = s.i(0, 3);
        Vertex* u[4] = {w[1], w[2], w[0], &v}; m.add_quad(*u[rr], *u[(rr + 1) % 4], *u[(rr + 2) % 4], *u[(rr + 3) % 4], col);
        Vertex* z[3] = {w[0], w[1], &v}; m.add_triangle(*z[rr % 3], *z[(rr + 1) % 3], *z[(rr + 2) % 3], c2);
        if (keep || !called) { insert(key(El{{c, d, a, x}, col})); insert(key(El{{a, c, x}, c2})); nie += 2; }
      }
      else
      {
        called = which == 0 || (which & 4);
        m.add_interior_edge(*w[2], v);
        int rr = s.i(0, 2); Vertex* z[3] = {w[0], w[1], w[2]};
        const int dir = s.b() ? 1 : 2, turn = s.i(0, 2);   // order of the parts and of their vertices
        for (int j = 0; j < 3; ++j)
        { int i0 = (rr + dir * j) % 3; Vertex* u[3] = {z[i0], z[(i0 + 1) % 3], &v}; m.add_triangle(*u[turn], *u[(turn + 1) % 3], *u[(turn + 2) % 3], i0 == 0 ? c2 : col); }
        if (keep || !called) { insert(key(El{{a, c, x}, c2})); insert(key(El{{c, d, x}, col})); insert(key(El{{d, a, x}, col})); nie += 3; }
      }
      if (keep || !called) { forget(key(o3)); nv += 1; ++nkeep; }
      s.note("split triangle of colour ", col, kind == 1 ? " in two" : " in three", " at (", x.x, ",", x.y, ") keep ", keep, "\n");
    }
    ++kinds[kind];
  }
  if (s.b()) m.clear_waste();
  if (kinds[0] + kinds[1] + kinds[2] > nkeep) s.nontrivial();
  for (int j = 0; j < 3; ++j) if (kinds[j] > 1) s.label(j == 0 ? "several-quads-split" : j == 1 ? "several-triangles-split-in-two" : "several-triangles-split-in-three");
  if (nkeep) s.label("parts-kept"); if (chain) s.label("chain");
  int rounds = chain ? 3 : 1;
  for (int r = 0; r < rounds; ++r)
  {
    if (which == 0 || (which & 1)) MeshCleanup::clear_double_quad_edges(m);
    if (which == 0 || (which & 2)) MeshCleanup::clear_double_triangle_edges(m);
    if (which == 0 || (which & 4)) MeshCleanup::merge_degenerate_triangles(m);
  }
  PM p1 = extract(m, 2);
  check_adjacency(p1);
  for (auto& e : p1.e) REQUIRE(elem_area(p1, e) > 0, "element-orientation", "element with area ", (double) elem_area(p1, e));
  std::vector<std::string> got = elements(p1), mi, su;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(mi));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(su));
  REQUIRE(mi.empty() && su.empty(), "elements-not-restored", mi.size(), " elements are missing", mi.empty() ? "" : ", such as ", mi.empty() ? "" : mi[0], "; ", su.size(), " are left over", su.empty() ? "" : ", such as ", su.empty() ? "" : su[0]);
  REQUIRE(p1.v.size() == nv, "vertex-count", p1.v.size(), " instead of ", nv);
  REQUIRE(p1.ie.size() == nie, "edge-count", p1.ie.size(), " interior edges instead of ", nie);
  REQUIRE(p1.be.size() == p0.be.size(), "boundary-changed", p1.be.size(), " instead of ", p0.be.size());
  if (!nkeep) { check_cover(p1, sp); check_stored(m, sp.extent()); }
}

// ------------------------------------------------------------------ C30
static bool same(const P& a, const P& b) { return a.x == b.x && a.y == b.y; }
// A domain that was edited (parts added, inserted, removed again) is the domain that never had the removed parts.
PROPERTY(domain_edit)
{
  quiet(); GenOpt o; o.target = 80; o.force_fixed = s.p(1, 2); Spec sp = gen_spec(s, o); s.note(show(sp)); classify(s, sp);
  for (auto& l : sp.loops) l.by_edges = false;
  SizeFn f = sp.f; P lo, hi; sp.bbox(lo, hi); double ext = sp.extent();
  auto d = std::make_unique<Domain>([f](const Vec2d& p) { return f(p.x, p.y); }, sp.qscale, sp.qitems, sp.qdepth);
  Domain& D = *d;
  struct B { int id; const Boundary* b; };                       // id >= 0: loop of the specification
  struct FV { int id; Vertex* v; FixedV x; }; struct FE { int a, b; Edge* e; }; // a, b: keys into all
  std::vector<B> bs; std::vector<FV> fs; std::vector<FE> es; std::vector<Vertex*> loose; std::map<int, Vertex*> byid;
  std::vector<Loop> extra; std::map<int, Loop> loops; int nextid = -1, n_removed = 0;
  size_t il = 0, iv = 0, ie = 0;
  auto fill = [&](Boundary& b, const Loop& l)
  {
    std::vector<Vec2d> xy, pr; for (size_t i = 0; i < l.pts.size(); ++i) { xy.push_back(V(l.pts[i])); pr.push_back(Vec2d{l.msize[i], l.mrange[i]}); }
    b.set_shape_from_coordinates(xy, l.colors, pr);
  };
  auto somewhere = [&] { return P{lo.x + ext * (s.g(-0.3, 1.3, 40) + 0.0137 / 3), lo.y + ext * (s.g(-0.3, 1.3, 40) + 0.0171 / 3)}; };
  auto check = [&](const std::string& what)
  {
    REQUIRE(D.size() == bs.size(), "boundary-list", what, ": ", D.size(), " boundaries instead of ", bs.size());
    for (size_t k = 0; k < bs.size(); ++k)
    {
      const Loop& l = loops[bs[k].id]; Boundary& b = D[k]; REQUIRE(&b == bs[k].b, "boundary-list", what, ": boundary ", k, " is another one");
      std::vector<P> q; std::vector<int> c; Spec::oriented(l, q, c); REQUIRE(b.is_exterior() == l.exterior && b.size() == q.size(), "boundary-edges", what, ": boundary ", k);
      for (auto& e : b.edges())
      {
        bool hit = false; for (size_t i = 0; i < q.size(); ++i) hit |= same(PT(e->v1().xy()), q[i]) && same(PT(e->v2().xy()), q[(i + 1) % q.size()]) && e->color() == c[i];
        REQUIRE(hit, "boundary-edges", what, ": boundary ", k, " has another edge");
      }
    }
    REQUIRE(D.fixed_vertices().size() == fs.size(), "fixed-list", what, ": ", D.fixed_vertices().size(), " fixed vertices instead of ", fs.size());
    for (size_t k = 0; k < fs.size(); ++k)
    {
      const Vertex* v = D.fixed_vertices()[k];
      REQUIRE(v == fs[k].v && same(PT(v->xy()), fs[k].x.p) && v->mesh_size() == fs[k].x.msize && v->size_range() == fs[k].x.mrange && v->is_fixed(), "fixed-list", what, ": fixed vertex ", k);
      int ne = 0; for (auto& e : es) ne += byid[e.a] == v || byid[e.b] == v;
      REQUIRE((int) v->edges().size() == ne, "fixed-edges", what, ": fixed vertex ", k, " has ", v->edges().size(), " edges instead of ", ne);
    }
    REQUIRE(D.fixed_edges().size() == es.size(), "fixed-edges", what, ": ", D.fixed_edges().size(), " fixed edges instead of ", es.size());
    size_t k = 0; for (auto& e : D.fixed_edges()) { REQUIRE(e.get() == es[k].e && &e->v1() == byid[es[k].a] && &e->v2() == byid[es[k].b] && e->is_fixed(), "fixed-edges", what, ": fixed edge ", k); ++k; }
    LD a = 0; for (auto& b : bs) { LD z = std::fabs(geo::shoelace(loops[b.id].pts)); a += loops[b.id].exterior ? z : -z; }
    REQUIRE(std::fabs((double) (D.area() - a)) <= 1e-11 * (1 + bs.size()) * ext * ext * 4, "domain-area", what, ": area ", D.area(), " instead of ", (double) a);
    size_t overlaps = 0; for (auto& b : bs) overlaps += loops[b.id].pts.size();
    REQUIRE(D.count_edge_overlaps(D) == overlaps, "edge-overlaps", what, ": ", D.count_edge_overlaps(D), " shared segments with itself instead of ", overlaps);
  };
  auto add_fixed = [&](int id, const FixedV& x) { Vertex& v = D.add_fixed_vertex(x.p.x, x.p.y, x.msize, x.mrange); fs.push_back({id, &v, x}); byid[id] = &v; };
  auto rm_edge = [&](size_t k) { D.remove_fixed_edge(*es[k].e); es.erase(es.begin() + k); ++n_removed; };
  auto rm_fixed = [&](size_t k)
  {
    for (size_t j = es.size(); j-- > 0; ) if (es[j].a == fs[k].id || es[j].b == fs[k].id) rm_edge(j);
    D.remove_fixed_vertex(*fs[k].v); byid.erase(fs[k].id); fs.erase(fs.begin() + k); ++n_removed;
  };
  auto rm_bdry = [&](size_t k) { D.remove_boundary(k); bs.erase(bs.begin() + k); ++n_removed; };
  std::string log;
  int budget = s.i(2, 14);
  while (true)
  {
    bool more = il < sp.loops.size() || iv < sp.fixed.size() || ie < sp.fedges.size();
    if (!more && budget <= 0) break;
    std::string what;
    if (budget > 0 && (!more || s.b()))
    {
      --budget;
      switch (s.i(0, 7))
      {
        case 0: case 1:
        { // a boundary at some position
          Loop l = gen_ring(s, somewhere(), ext * s.g(0.1, 0.5, 5), s.i(0, 4), s.b()); for (auto& p : l.pts) { p.x -= nextid * 1e-3 * ext / 7; p.y += nextid * 1e-3 * ext / 11; } // no two rings share a line
          l.colors.assign(l.pts.size(), s.i(1, 9)); l.msize.assign(l.pts.size(), s.b() ? 0.0 : 0.1 * ext); l.mrange.assign(l.pts.size(), 0.0);
          size_t pos = s.u(bs.size() + 1); int id = --nextid; loops[id] = l;
          Boundary& b = D.insert_boundary(D.begin() + pos, l.exterior ? BdryType::EXTERIOR : BdryType::INTERIOR); fill(b, l);
          bs.insert(bs.begin() + pos, {id, &b}); what = "insert boundary at " + std::to_string(pos); break;
        }
        case 2: case 3: { FixedV x{somewhere(), s.b() ? 0.0 : 0.05 * ext, s.b() ? 0.0 : 0.2 * ext}; if (fs.size() && s.p(1, 3)) { x.p = fs[s.u(fs.size())].x.p; s.label("same-place"); } add_fixed(--nextid, x); what = "add fixed vertex"; break; }
        case 4: if (fs.size() > 1)
        { size_t a = s.u(fs.size()), b = s.u(fs.size()); bool known = a == b; for (auto& e : es) known |= (e.a == fs[a].id && e.b == fs[b].id) || (e.a == fs[b].id && e.b == fs[a].id);
          for (auto& e : sp.fedges) known |= (e.first == fs[a].id && e.second == fs[b].id) || (e.first == fs[b].id && e.second == fs[a].id);
          if (!known) { Edge& e = D.add_fixed_edge(*fs[a].v, *fs[b].v); es.push_back({fs[a].id, fs[b].id, &e}); what = "add fixed edge"; } } break;
        case 5: { std::vector<size_t> c; for (size_t k = 0; k < bs.size(); ++k) if (bs[k].id < 0) c.push_back(k); if (c.size()) { rm_bdry(c[s.u(c.size())]); what = "remove boundary"; } break; }
        case 6: { std::vector<size_t> c; for (size_t k = 0; k < fs.size(); ++k) if (fs[k].id < 0) c.push_back(k); if (c.size()) { rm_fixed(c[s.u(c.size())]); what = "remove fixed vertex"; } break; }
        default: if (loose.size() && s.b()) { size_t k = s.u(loose.size()); D.remove_vertex(*loose[k]); loose.erase(loose.begin() + k); what = "remove vertex"; }
                 else { P p = somewhere(); loose.push_back(&D.add_vertex(p.x, p.y)); what = "add vertex"; }
      }
    }
    else if (il < sp.loops.size() && (s.b() || iv == sp.fixed.size()))
    { // the next loop of the specification, somewhere behind the ones before
      size_t pos = 0; for (size_t k = 0; k < bs.size(); ++k) if (bs[k].id >= 0) pos = k + 1;
      pos += s.u(bs.size() - pos + 1); int id = (int) il++; loops[id] = sp.loops[id];
      Boundary& b = pos == bs.size() && s.b() ? (loops[id].exterior ? D.add_exterior_boundary() : D.add_interior_boundary()) : D.insert_boundary(D.begin() + pos, loops[id].exterior ? BdryType::EXTERIOR : BdryType::INTERIOR);
      fill(b, loops[id]); bs.insert(bs.begin() + pos, {id, &b}); what = "loop " + std::to_string(id);
    }
    else if (iv < sp.fixed.size()) { add_fixed((int) iv, sp.fixed[iv]); ++iv; what = "fixed vertex of the problem"; }
    else if (ie < sp.fedges.size())
    { auto& e = sp.fedges[ie++]; Edge& x = D.add_fixed_edge(*byid[e.first], *byid[e.second]); es.push_back({e.first, e.second, &x}); what = "fixed edge of the problem"; }
    if (what.empty()) continue;
    log += what + "; "; check(log);
  }
  // take away what does not belong to the problem, in any order
  while (true)
  {
    std::vector<std::pair<int, size_t>> c;
    for (size_t k = 0; k < bs.size(); ++k) if (bs[k].id < 0) c.push_back({0, k});
    for (size_t k = 0; k < fs.size(); ++k) if (fs[k].id < 0) c.push_back({1, k});
    for (size_t k = 0; k < es.size(); ++k)
    { bool own = false; for (auto& e : sp.fedges) own |= e.first == es[k].a && e.second == es[k].b; if (!own) c.push_back({2, k}); }
    for (size_t k = 0; k < loose.size(); ++k) c.push_back({3, k});
    if (c.empty()) break;
    auto x = c[s.u(c.size())];
    switch (x.first) { case 0: rm_bdry(x.second); log += "remove boundary; "; break; case 1: rm_fixed(x.second); log += "remove fixed vertex; "; break; case 2: rm_edge(x.second); log += "remove fixed edge; "; break;
      default: D.remove_vertex(*loose[x.second]); loose.erase(loose.begin() + x.second); log += "remove vertex; "; }
    check(log);
  }
  s.note(log, "\n"); if (n_removed) s.nontrivial();
  auto ref = make_domain(sp);
  for (int k = 0; k < 8; ++k)
  {
    P p{lo.x + ext * s.g(-0.1, 1.1, 40), lo.y + ext * s.g(-0.1, 1.1, 40)};
    REQUIRE(D.size_function(V(p)) == ref->size_function(V(p)), "size-function", log, " size ", D.size_function(V(p)), " instead of ", ref->size_function(V(p)));
    REQUIRE(D.is_inside(Vertex(p.x, p.y)) == ref->is_inside(Vertex(p.x, p.y)), "inside", log);
  }
  Built a; a.d = std::move(ref); a.g = std::make_unique<MeshGenerator>(); a.m = &a.g->new_mesh(*a.d, sp.mesh_id, sp.color); triangulate(a);
  Built b; b.d = std::move(d); b.g = std::make_unique<MeshGenerator>(); b.m = &b.g->new_mesh(*b.d, sp.mesh_id, sp.color); triangulate(b);
  REQUIRE(a.ok == b.ok && a.complete == b.complete && dump(extract(*a.m, 2)) == dump(extract(*b.m, 2)), "edited-domain-differs", log, " gives another mesh (", extract(*b.m, 2).e.size(), " elements) than the same domain defined at once (",
          extract(*a.m, 2).e.size(), ")");
  if (a.complete) s.label("meshed");
}
int main(int c, char** v) { return pbt::main_(c, v); }

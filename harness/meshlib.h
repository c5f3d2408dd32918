// Generators of meshing problems, extraction of the produced mesh into plain
// arrays through the public interface, and the independent mesh oracles.
#pragma once
#include <TQMeshConfig.h>
#include "TQMesh.h"
#include "pbt.h"
#include "geo.h"
#include <unordered_map>

namespace ml {
using geo::P;
using geo::LD;
using namespace TQMesh;
using CppUtils::Vec2d;

inline Vec2d V(P p) { return Vec2d{p.x, p.y}; }
inline P PT(const Vec2d& v) { return P{v.x, v.y}; }

// ---------------------------------------------------------------- problem
struct Loop
{
  bool exterior = true;
  std::vector<P>   pts;     // input order
  std::vector<int> colors;  // colour of segment i -> i+1
  std::vector<double> msize, mrange;
  bool by_edges = false;    // add_vertex()/add_edge() instead of coordinates
};
struct SizeFn
{
  int kind = 0; double h = 1, a = 0, b = 0; P c;
  double operator()(double x, double y) const
  {
    switch (kind)
    {
      case 1: return h * (1.0 + a * std::fabs(x - c.x));
      case 2: { double d2 = (x - c.x) * (x - c.x) + (y - c.y) * (y - c.y);
                return h * (1.0 + a * (1.0 - std::exp(-d2 / (b * b)))); }
      case 3: return x < c.x ? h : h * (1 + a);
      default: return h;
    }
  }
};
struct FixedV { P p; double msize = 0, mrange = 0; };
struct Spec
{
  std::vector<Loop> loops;
  std::vector<FixedV> fixed;
  std::vector<std::pair<int,int>> fedges; // indices into fixed
  SizeFn f;
  double qscale = 10000; size_t qitems = 100, qdepth = 25;
  int mesh_id = 0, color = 0;

  LD area() const
  { LD a = 0; for (auto& l : loops) { LD s = std::fabs(geo::shoelace(l.pts)); a += l.exterior ? s : -s; } return a; }
  void bbox(P& lo, P& hi) const
  {
    lo = hi = loops[0].pts[0];
    for (auto& l : loops) for (auto& p : l.pts)
    { lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); hi.x = std::max(hi.x, p.x); hi.y = std::max(hi.y, p.y); }
  }
  double extent() const { P a, b; bbox(a, b); return std::max(b.x - a.x, b.y - a.y); }
  bool inside(P p) const
  {
    for (auto& l : loops) if (geo::inside(p, l.pts) != l.exterior) return false;
    return true;
  }
  double bdist(P p) const
  { double d = 1e300; for (auto& l : loops) d = std::min(d, geo::poly_dist(p, l.pts)); return d; }
  // pts oriented as the domain is (exterior ccw, interior cw), colours kept with their segment
  static void oriented(const Loop& l, std::vector<P>& q, std::vector<int>& c)
  {
    bool ccw = geo::shoelace(l.pts) > 0;
    q = l.pts; c = l.colors;
    if (ccw != l.exterior)
    {
      size_t n = q.size();
      std::vector<P> r(n); std::vector<int> d(n);
      // reversed: vertex k' = n-1-k ; segment (k+1 -> k) keeps colour of k
      for (size_t k = 0; k < n; ++k) r[k] = l.pts[n - 1 - k];
      for (size_t k = 0; k < n; ++k) d[k] = l.colors[(n - 2 - k + n) % n];
      q = r; c = d;
    }
  }
};

inline std::string show(const Spec& sp)
{
  std::ostringstream o; o << std::setprecision(10);
  o << "size{kind=" << sp.f.kind << ",h=" << sp.f.h << ",a=" << sp.f.a << ",b=" << sp.f.b << ",c=(" << sp.f.c.x << "," << sp.f.c.y << ")} "
    << "qtree{" << sp.qscale << "," << sp.qitems << "," << sp.qdepth << "} id=" << sp.mesh_id << " color=" << sp.color << "\n";
  for (auto& l : sp.loops)
  {
    o << (l.exterior ? "EXT" : "INT") << (l.by_edges ? " edges" : " coords") << ":";
    for (size_t i = 0; i < l.pts.size(); ++i)
    {
      o << " (" << l.pts[i].x << "," << l.pts[i].y << ")c" << l.colors[i];
      if (l.msize[i] > 0) o << "[s" << l.msize[i] << ",r" << l.mrange[i] << "]";
    }
    o << "\n";
  }
  if (sp.fixed.size()) { o << "FIXED:"; for (auto& v : sp.fixed) o << " (" << v.p.x << "," << v.p.y << ")[" << v.msize << "," << v.mrange << "]"; o << "\n"; }
  if (sp.fedges.size()) { o << "FEDGES:"; for (auto& e : sp.fedges) o << " " << e.first << "-" << e.second; o << "\n"; }
  return o.str();
}

// Build the library's domain for a problem
inline std::unique_ptr<Domain> make_domain(const Spec& sp)
{
  SizeFn f = sp.f;
  auto d = std::make_unique<Domain>([f](const Vec2d& p) { return f(p.x, p.y); },
                                    sp.qscale, sp.qitems, sp.qdepth);
  for (auto& l : sp.loops)
  {
    Boundary& b = l.exterior ? d->add_exterior_boundary() : d->add_interior_boundary();
    if (l.by_edges)
    {
      std::vector<P> q; std::vector<int> c; Spec::oriented(l, q, c);
      std::vector<double> ms = l.msize, mr = l.mrange;
      bool rev = (geo::shoelace(l.pts) > 0) != l.exterior;
      if (rev) { std::reverse(ms.begin(), ms.end()); std::reverse(mr.begin(), mr.end()); }
      std::vector<Vertex*> vs;
      for (size_t i = 0; i < q.size(); ++i) vs.push_back(&d->add_vertex(q[i].x, q[i].y, ms[i], mr[i]));
      for (size_t i = 0; i < q.size(); ++i) b.add_edge(*vs[i], *vs[(i + 1) % q.size()], c[i]);
    }
    else
    {
      std::vector<Vec2d> xy, pr;
      for (size_t i = 0; i < l.pts.size(); ++i) { xy.push_back(V(l.pts[i])); pr.push_back(Vec2d{l.msize[i], l.mrange[i]}); }
      b.set_shape_from_coordinates(xy, l.colors, pr);
    }
  }
  std::vector<Vertex*> fv;
  for (auto& v : sp.fixed) fv.push_back(&d->add_fixed_vertex(v.p.x, v.p.y, v.msize, v.mrange));
  for (auto& e : sp.fedges) d->add_fixed_edge(*fv[e.first], *fv[e.second]);
  return d;
}

// ---------------------------------------------------------------- extraction
struct Elem { std::vector<int> v; int color; double area; const Mesh* owner; };
struct BE { int a, b, color; int left; bool twin; };
struct IE { int a, b; int l, r; };
struct VX { P p; bool fixed, onb, layer; double size; };
struct PM
{
  std::vector<VX> v;
  std::vector<Elem> e;   // quads first, then triangles (file order)
  int nq = 0, nt = 0;
  std::vector<BE> be;
  std::vector<IE> ie;
  double reported_area = 0;
  std::string broken;    // dangling references found while extracting
};

// connectivity: 1 refreshed and read, 0 not read, 2 read as it is
inline PM extract(Mesh& m, int connectivity = 1)
{
  PM r;
  if (connectivity == 1)
  {
    MeshCleanup::assign_mesh_indices(m);
    MeshCleanup::setup_facet_connectivity(m);
  }
  std::unordered_map<const Vertex*, int> id;
  for (const auto& v : m.vertices())
  {
    id[v.get()] = (int) r.v.size();
    r.v.push_back({PT(v->xy()), v->is_fixed(), v->on_boundary(), v->in_quad_layer(), v->mesh_size()});
  }
  auto vid = [&](const Vertex& v) -> int
  {
    auto it = id.find(&v);
    if (it == id.end()) { r.broken = "an element or edge refers to a vertex that is not part of the mesh"; return -1; }
    return it->second;
  };
  std::unordered_map<const Facet*, int> fid;
  for (const auto& q : m.quads())
  {
    fid[q.get()] = (int) r.e.size();
    r.e.push_back({{vid(q->v1()), vid(q->v2()), vid(q->v3()), vid(q->v4())}, q->color(), q->area(), q->mesh()});
    ++r.nq;
  }
  for (const auto& t : m.triangles())
  {
    fid[t.get()] = (int) r.e.size();
    r.e.push_back({{vid(t->v1()), vid(t->v2()), vid(t->v3())}, t->color(), t->area(), t->mesh()});
    ++r.nt;
  }
  auto facet = [&](Facet* f) -> int
  {
    if (!f || NullFacet::is_null(f)) return -1;
    auto it = fid.find(f);
    if (it == fid.end()) return -2;
    return it->second;
  };
  for (const auto& e : m.boundary_edges())
    r.be.push_back({vid(e->v1()), vid(e->v2()), e->color(), connectivity ? facet(e->facet_l()) : -1, e->twin_edge() != nullptr});
  for (const auto& e : m.interior_edges())
    r.ie.push_back({vid(e->v1()), vid(e->v2()), connectivity ? facet(e->facet_l()) : -1, connectivity ? facet(e->facet_r()) : -1});
  r.reported_area = m.area();
  return r;
}

inline LD elem_area(const PM& m, const Elem& e)
{ std::vector<P> q; for (int k : e.v) q.push_back(m.v[k].p); return geo::shoelace(q); }
inline LD total_area(const PM& m) { LD s = 0; for (auto& e : m.e) s += elem_area(m, e); return s; }

inline uint64_t ekey(int a, int b) { return ((uint64_t)(uint32_t) a << 32) | (uint32_t) b; }

// All elements are strictly positively oriented simple polygons.
inline void check_elements_positive(const PM& m, double scale)
{
  for (size_t k = 0; k < m.e.size(); ++k)
  {
    const Elem& e = m.e[k];
    for (int q : e.v) REQUIRE(q >= 0, "dangling-vertex", m.broken);
    std::set<int> uniq(e.v.begin(), e.v.end());
    REQUIRE(uniq.size() == e.v.size(), "repeated-vertex", "element ", k, " uses a vertex twice");
    if (e.v.size() == 3)
    {
      LD c = geo::cross3(m.v[e.v[0]].p, m.v[e.v[1]].p, m.v[e.v[2]].p);
      REQUIRE(c > 0, "non-positive-element", "triangle ", k, " has signed area ", (double)(c / 2));
    }
    else
    {
      LD a = elem_area(m, e);
      REQUIRE(a > 0, "non-positive-element", "quad ", k, " has signed area ", (double) a);
      // simple: at least one of the two diagonal splits has two positive halves
      P p0 = m.v[e.v[0]].p, p1 = m.v[e.v[1]].p, p2 = m.v[e.v[2]].p, p3 = m.v[e.v[3]].p;
      LD a1 = geo::cross3(p0, p1, p2), a2 = geo::cross3(p0, p2, p3),
         b1 = geo::cross3(p0, p1, p3), b2 = geo::cross3(p1, p2, p3);
      LD tol = 1e-13L * scale * scale;
      bool ok = (a1 > -tol && a2 > -tol) || (b1 > -tol && b2 > -tol);
      REQUIRE(ok, "self-crossing-quad", "quad ", k, " is not a simple polygon: (", p0.x, ",", p0.y, ") (", p1.x, ",", p1.y, ") (", p2.x, ",", p2.y, ") (", p3.x, ",", p3.y, ")");
    }
  }
}

// Every element side is shared by exactly two elements in opposite direction,
// or is exactly one boundary edge; no stray or duplicate edges and vertices.
inline void check_conforming(const PM& m, bool edges = true)
{
  REQUIRE(m.broken.empty(), "dangling-vertex", m.broken);
  std::unordered_map<uint64_t, int> side;
  for (size_t k = 0; k < m.e.size(); ++k)
  {
    const Elem& e = m.e[k];
    for (size_t q = 0; q < e.v.size(); ++q)
    {
      int a = e.v[q], b = e.v[(q + 1) % e.v.size()];
      bool fresh = side.emplace(ekey(a, b), (int) k).second;
      REQUIRE(fresh, "overlapping-elements", "two elements lie on the same side of edge ", a, "-", b);
    }
  }
  std::set<uint64_t> bset;
  for (auto& b : m.be)
  {
    REQUIRE(bset.insert(ekey(b.a, b.b)).second, "duplicate-boundary-edge", "boundary edge ", b.a, "-", b.b, " exists twice");
    auto it = side.find(ekey(b.a, b.b));
    REQUIRE(it != side.end(), "boundary-edge-without-element", "boundary edge ", b.a, "-", b.b, " has no element on its interior side");
    REQUIRE(!side.count(ekey(b.b, b.a)), "element-outside-boundary", "boundary edge ", b.a, "-", b.b, " has an element on its outer side");
  }
  size_t open = 0, inner = 0;
  for (auto& s : side)
  {
    int a = (int)(s.first >> 32), b = (int)(uint32_t) s.first;
    if (side.count(ekey(b, a))) { if (a < b) ++inner; continue; }
    ++open;
    REQUIRE(bset.count(s.first), "gap-in-mesh", "element side ", a, "-", b, " at (", m.v[a].p.x, ",", m.v[a].p.y, ")-(", m.v[b].p.x, ",", m.v[b].p.y, ") has neither a neighbour nor a boundary edge");
  }
  std::vector<char> used(m.v.size(), 0);
  for (auto& e : m.e) for (int q : e.v) used[q] = 1;
  for (size_t k = 0; k < used.size(); ++k)
    REQUIRE(used[k], "unused-vertex", "mesh vertex ", k, " at (", m.v[k].p.x, ",", m.v[k].p.y, ") belongs to no element");
  if (edges)
  {
    std::set<uint64_t> iset;
    for (auto& e : m.ie)
    {
      uint64_t key = e.a < e.b ? ekey(e.a, e.b) : ekey(e.b, e.a);
      REQUIRE(iset.insert(key).second, "duplicate-interior-edge", "interior edge ", e.a, "-", e.b, " exists twice");
      REQUIRE(side.count(ekey(e.a, e.b)) && side.count(ekey(e.b, e.a)), "interior-edge-without-elements", "interior edge ", e.a, "-", e.b, " is not shared by two elements");
    }
    REQUIRE(iset.size() == inner, "missing-interior-edge", inner, " shared element sides but ", iset.size(), " interior edges");
  }
}

// facet references stored on edges agree with the elements
inline void check_adjacency(const PM& m)
{
  std::unordered_map<uint64_t, int> side;
  for (size_t k = 0; k < m.e.size(); ++k)
    for (size_t q = 0; q < m.e[k].v.size(); ++q)
      side[ekey(m.e[k].v[q], m.e[k].v[(q + 1) % m.e[k].v.size()])] = (int) k;
  for (auto& b : m.be)
  {
    auto it = side.find(ekey(b.a, b.b));
    REQUIRE(it != side.end() && it->second == b.left, "wrong-boundary-element", "boundary edge ", b.a, "-", b.b, " records element ", b.left);
  }
  for (auto& e : m.ie)
  {
    auto l = side.find(ekey(e.a, e.b)), r = side.find(ekey(e.b, e.a));
    REQUIRE(l != side.end() && r != side.end() && l->second == e.l && r->second == e.r, "wrong-edge-elements",
            "interior edge ", e.a, "-", e.b, " records elements ", e.l, ",", e.r);
  }
}

// The mesh boundary is exactly the given set of directed segments, split into
// pieces which keep one of the colours allowed for their segment.
struct Seg { P a, b; std::vector<int> c; std::vector<std::pair<LD,LD>> cov; };
inline void check_segments(const PM& m, std::vector<Seg> segs, double extent, bool colors = true)
{
  double tol = 1e-9 * std::max(1e-3, extent);
  for (auto& e : m.be)
  {
    P a = m.v[e.a].p, b = m.v[e.b].p;
    Seg* hit = nullptr; bool geom = false;
    for (auto& s : segs)
      if (geo::seg_dist(a, s.a, s.b) < tol && geo::seg_dist(b, s.a, s.b) < tol && geo::seg_param(b, s.a, s.b) > geo::seg_param(a, s.a, s.b))
      { geom = true; if (!colors || std::count(s.c.begin(), s.c.end(), e.color)) { hit = &s; break; } }
    REQUIRE(geom, "boundary-edge-off-boundary", "boundary edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") lies on no boundary segment of the domain");
    REQUIRE(hit, "boundary-colour", "boundary edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") has colour ", e.color, " which its segment does not have");
    hit->cov.push_back({geo::seg_param(a, hit->a, hit->b), geo::seg_param(b, hit->a, hit->b)});
  }
  for (auto& s : segs)
  {
    std::sort(s.cov.begin(), s.cov.end());
    LD at = 0; double len = geo::dist(s.a, s.b), t = tol / len;
    for (auto& c : s.cov)
    {
      REQUIRE(std::fabs((double)(c.first - at)) < t, "boundary-not-covered", "segment (", s.a.x, ",", s.a.y, ")-(", s.b.x, ",", s.b.y, ") is not covered exactly once at parameter ", (double) at);
      at = c.second;
    }
    REQUIRE(std::fabs((double)(at - 1)) < t, "boundary-not-covered", "segment (", s.a.x, ",", s.a.y, ")-(", s.b.x, ",", s.b.y, ") is not covered from parameter ", (double) at);
  }
}
inline std::vector<Seg> segments(const Spec& sp)
{
  std::vector<Seg> segs;
  for (auto& l : sp.loops)
  {
    std::vector<P> q; std::vector<int> c; Spec::oriented(l, q, c);
    for (size_t i = 0; i < q.size(); ++i) segs.push_back({q[i], q[(i + 1) % q.size()], {c[i]}, {}});
  }
  return segs;
}
inline void check_boundary(const PM& m, const Spec& sp, bool colors = true)
{ check_segments(m, segments(sp), sp.extent(), colors); }

inline void check_area(const PM& m, const Spec& sp)
{
  LD a = total_area(m), d = sp.area();
  double ext = sp.extent();
  REQUIRE(std::fabs((double)(a - d)) < 1e-9 * ext * ext, "area-mismatch", "elements cover ", (double) a, " but the domain has area ", (double) d);
}

// The full "exact conforming cover" oracle
inline void check_cover(const PM& m, const Spec& sp)
{
  REQUIRE(m.e.size() > 0, "empty-mesh", "no elements");
  check_elements_positive(m, sp.extent());
  check_conforming(m);
  check_boundary(m, sp);
  check_area(m, sp);
}

// everything the entities of a mesh store redundantly (lengths, centroids, incidence lists,
// positions in the spatial index) agrees with the vertices they consist of
inline void check_stored(Mesh& m, double ext)
{
  const double tol = 1e-9 * ext;
  std::unordered_map<const Vertex*, size_t> ne, nf;
  auto edges = [&](auto& list, const char* kind)
  {
    size_t step = 1 + list.size() / 150, k = 0; // index lookups of a sample: they may be linear for flat trees
    for (const auto& e : list)
    {
      P a = PT(e->v1().xy()), b = PT(e->v2().xy()), c = PT(e->xy()), n = PT(e->normal()), t = PT(e->tangent()); double l = geo::dist(a, b);
      REQUIRE(std::fabs(e->length() - l) <= tol, "stored-edge-length", kind, " edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") stores length ", e->length());
      REQUIRE(std::fabs(c.x - 0.5 * (a.x + b.x)) <= tol && std::fabs(c.y - 0.5 * (a.y + b.y)) <= tol, "stored-edge-centre", kind, " edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") stores centre (", c.x, ",", c.y, ")");
      REQUIRE(std::fabs(t.x * l - (b.x - a.x)) <= 10 * tol && std::fabs(t.y * l - (b.y - a.y)) <= 10 * tol, "stored-edge-tangent", kind, " edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ")");
      REQUIRE(std::fabs(n.x + t.y) <= 1e-9 && std::fabs(n.y - t.x) <= 1e-9, "stored-edge-normal", kind, " edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ")");
      ++ne[&e->v1()]; ++ne[&e->v2()];
      if (k++ % step) continue;
      bool found = false; for (auto q : list.get_edges(e->xy(), std::max(tol, 1e-6 * l))) found |= q == e.get();
      REQUIRE(found, "index-entry-lost", kind, " edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") is not found at its own position");
    }
  };
  edges(m.boundary_edges(), "boundary"); edges(m.interior_edges(), "interior");
  auto facets = [&](auto& list, const char* kind, size_t n)
  {
    size_t step = 1 + list.size() / 150, i = 0;
    for (const auto& f : list)
    {
      P c{0, 0}; double lmin = 1e300, lmax = 0;
      for (size_t k = 0; k < n; ++k)
      {
        P a = PT(f->vertex(k).xy()), b = PT(f->vertex((k + 1) % n).xy()); c.x += a.x / n; c.y += a.y / n; double l = geo::dist(a, b);
        REQUIRE(std::fabs(f->edgelength(k) - l) <= tol, "stored-element-edge", kind, " at (", a.x, ",", a.y, ") side ", k, " stores length ", f->edgelength(k), " instead of ", l);
        lmin = std::min(lmin, l); lmax = std::max(lmax, l); ++nf[&f->vertex(k)];
        REQUIRE(f->vertex(k).is_adjacent(*f), "vertex-element-link", kind, " with vertex (", a.x, ",", a.y, ") is not listed at that vertex");
      }
      REQUIRE(std::fabs(f->xy().x - c.x) <= tol && std::fabs(f->xy().y - c.y) <= tol, "stored-centroid", kind, " stores centroid (", f->xy().x, ",", f->xy().y, ") instead of (", c.x, ",", c.y, ")");
      REQUIRE(std::fabs(f->min_edge_length() - lmin) <= tol && std::fabs(f->max_edge_length() - lmax) <= tol, "stored-element-edge", kind, " at (", c.x, ",", c.y, "): extreme edge lengths");
      if (i++ % step) continue;
      bool found = false; for (auto q : list.get_items(f->xy(), std::max(tol, 1e-6 * lmin))) found |= q == f.get();
      REQUIRE(found, "index-entry-lost", kind, " at (", c.x, ",", c.y, ") is not found at its own position");
    }
  };
  facets(m.triangles(), "triangle", 3); facets(m.quads(), "quad", 4);
  size_t step = 1 + m.vertices().size() / 150, k = 0;
  for (const auto& v : m.vertices())
  {
    REQUIRE(v->edges().size() == ne[v.get()], "vertex-edge-link", "vertex (", v->xy().x, ",", v->xy().y, ") lists ", v->edges().size(), " edges, ", ne[v.get()], " exist");
    REQUIRE(v->facets().size() == nf[v.get()], "vertex-element-link", "vertex (", v->xy().x, ",", v->xy().y, ") lists ", v->facets().size(), " elements, ", nf[v.get()], " exist");
    if (k++ % step) continue;
    bool found = false; for (auto q : m.vertices().get_items(v->xy(), tol)) found |= q == v.get();
    REQUIRE(found, "index-entry-lost", "vertex (", v->xy().x, ",", v->xy().y, ") is not found at its own position");
  }
}

inline void quiet()
{
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::LogLevel::ERROR);
  CppUtils::LOG_PROPERTIES.set_error_ostream(CppUtils::TO_FILE, "/dev/null");
  CppUtils::LOG_PROPERTIES.set_warn_ostream(CppUtils::TO_FILE, "/dev/null");
  CppUtils::LOG_PROPERTIES.set_info_ostream(CppUtils::TO_FILE, "/dev/null");
}

// ---------------------------------------------------------------- generators
inline double grid64(double v) { return std::round(v * 1024.0) / 1024.0; }

struct GenOpt
{
  bool force_fixed = false; bool holes = true, fixed = true, fedges = true, sizes = true, vsizes = true, translate = true;
  double target = 400;   // rough maximal number of elements
};

inline Loop gen_ring(pbt::Src& s, P c, double r, int kind, bool exterior)
{
  Loop l; l.exterior = exterior;
  int n;
  switch (kind)
  {
    case 0: // rectangle
    {
      double w = grid64(r * s.g(0.5, 1.0, 8)), h = grid64(r * s.g(0.35, 1.0, 8));
      l.pts = {{c.x - w, c.y - h}, {c.x + w, c.y - h}, {c.x + w, c.y + h}, {c.x - w, c.y + h}};
      break;
    }
    case 1: // regular polygon
      n = s.i(3, 20);
      for (int i = 0; i < n; ++i)
        l.pts.push_back({c.x + r * std::cos(2 * M_PI * i / n), c.y + r * std::sin(2 * M_PI * i / n)});
      break;
    case 2: // star shaped polygon, grid coordinates
    {
      n = s.i(3, 9);
      for (int i = 0; i < n; ++i)
      {
        double a = 2 * M_PI * (i + 0.3 * s.g(-1, 1, 10)) / n, q = r * s.g(0.55, 1.0, 9);
        l.pts.push_back({grid64(c.x + q * std::cos(a)), grid64(c.y + q * std::sin(a))});
      }
      break;
    }
    case 3: // L / step shape
    {
      double w = grid64(r * s.g(0.6, 1.0, 4)), h = grid64(r * s.g(0.6, 1.0, 4)),
             u = grid64(w * s.g(-0.4, 0.4, 4)), v = grid64(h * s.g(-0.4, 0.4, 4));
      l.pts = {{c.x - w, c.y - h}, {c.x + w, c.y - h}, {c.x + w, c.y + v}, {c.x + u, c.y + v}, {c.x + u, c.y + h}, {c.x - w, c.y + h}};
      break;
    }
    default: // T / U shape
    {
      double w = grid64(r), h = grid64(r * s.g(0.6, 1.0, 4)), u = grid64(w * s.g(0.2, 0.5, 3)), v = grid64(h * s.g(-0.3, 0.3, 3));
      l.pts = {{c.x - w, c.y - h}, {c.x + w, c.y - h}, {c.x + w, c.y + h}, {c.x + u, c.y + h}, {c.x + u, c.y + v}, {c.x - u, c.y + v}, {c.x - u, c.y + h}, {c.x - w, c.y + h}};
      break;
    }
  }
  return l;
}

inline void dress(pbt::Src& s, Loop& l, int cbase, double h, bool vsizes, bool mids = true)
{
  if (mids && s.p(1, 5))
  { // additional vertices in the middle of some segments
    std::vector<P> q;
    for (size_t i = 0; i < l.pts.size(); ++i)
    {
      P a = l.pts[i], b = l.pts[(i + 1) % l.pts.size()];
      q.push_back(a);
      if (geo::dist(a, b) > 0.6 * h && s.b()) q.push_back({0.5 * (a.x + b.x), 0.5 * (a.y + b.y)});
    }
    l.pts = q;
  }
  size_t n = l.pts.size();
  bool multi = s.p(2, 3), many = s.p(1, 4);
  for (size_t i = 0; i < n; ++i) l.colors.push_back(multi ? s.i(0, many ? 14 : 6) : cbase);
  l.msize.assign(n, 0); l.mrange.assign(n, 0);
  if (vsizes && s.p(1, 3))
    for (size_t i = 0; i < n; ++i)
      if (s.p(1, 3)) { l.msize[i] = h * s.g(0.2, 1.0, 8); l.mrange[i] = s.p(1, 4) ? 0.0 : h * s.g(0.5, 4.0, 7); }
  if (s.b())
  { std::reverse(l.pts.begin(), l.pts.end()); }
  l.by_edges = s.p(1, 3);
}

inline Spec gen_spec(pbt::Src& s, const GenOpt& o)
{
  Spec sp;
  double R = s.pick<double>({2, 1, 5, 0.5, 20});
  P c{0, 0};
  if (o.translate && s.p(1, 3)) c = {s.g(-50, 50, 20), s.g(-50, 50, 20)};
  int kind = s.i(0, 4);
  Loop ext = gen_ring(s, c, R, kind, true);
  // size: number of elements ~ area / (0.43 h^2)
  double A = std::fabs((double) geo::shoelace(ext.pts));
  static const double tf = getenv("PBT_TARGET") ? atof(getenv("PBT_TARGET")) : 1.0; // smaller meshes for instrumented builds
  double hmin = std::sqrt(A / (0.43 * o.target * tf));
  double h = hmin * s.g(1.0, 4.0, 12);
  sp.f.h = h; sp.f.c = c; sp.f.b = R;
  if (o.sizes && s.p(1, 3))
  {
    sp.f.kind = s.i(1, 3);
    sp.f.a = sp.f.kind == 3 ? s.g(0.1, 1.0, 9) : sp.f.kind == 1 ? s.g(0.05, 0.5, 9) / R : s.g(0.2, 2.0, 9);
    sp.f.c = {c.x + R * s.g(-0.5, 0.5, 4), c.y + R * s.g(-0.5, 0.5, 4)};
    if (sp.f.kind == 3) sp.f.c.x += 0.0137 * h; // never level with a boundary: roundoff would decide on which side of the step a point lies
  }
  dress(s, ext, s.i(0, 9), h, o.vsizes);
  sp.loops.push_back(ext);

  // holes: small rings with a clear distance to everything else
  if (o.holes && s.p(1, 2))
  {
    int nh = s.i(1, 3);
    for (int k = 0; k < nh; ++k)
    {
      P hc{c.x + R * s.g(-0.7, 0.7, 14), c.y + R * s.g(-0.7, 0.7, 14)};
      if (!sp.inside(hc) || sp.bdist(hc) < 0.5 * h) hc = {c.x + R * s.g(-0.4, 0.4, 8), c.y + R * s.g(-0.4, 0.4, 8)};
      if (!sp.inside(hc)) continue;
      double d = sp.bdist(hc);
      double r = d * s.g(0.3, 0.65, 7);
      if (r < 0.25 * h) continue;
      Loop hl = gen_ring(s, hc, r / std::sqrt(2.0), s.i(0, 4), false);
      dress(s, hl, s.i(0, 9), h, o.vsizes);
      sp.loops.push_back(hl);
    }
  }
  // fixed vertices
  if (o.fixed && (s.p(1, 3) || o.force_fixed))
  {
    int nf = s.i(1, 4);
    for (int k = 0; k < nf; ++k)
    {
      P q{c.x + R * s.g(-0.8, 0.8, 32), c.y + R * s.g(-0.8, 0.8, 32)};
      if (!sp.inside(q) || sp.bdist(q) < 0.7 * h) continue;
      bool ok = true;
      for (auto& f : sp.fixed) ok &= geo::dist(f.p, q) > 0.7 * h;
      if (!ok) continue;
      FixedV fv; fv.p = q;
      if (s.b()) { fv.msize = h * s.g(0.3, 1.0, 7); fv.mrange = s.p(1, 4) ? 0.0 : h * s.g(0.5, 3.0, 5); }
      sp.fixed.push_back(fv);
    }
    if (o.fedges && s.b())
    {
      int n = (int) sp.fixed.size();
      for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b)
        {
          if (!s.p(2, 3)) continue;
          bool ok = true;
          for (auto& l : sp.loops)
            for (size_t i = 0; i < l.pts.size(); ++i)
              ok &= geo::seg_seg_dist(sp.fixed[a].p, sp.fixed[b].p, l.pts[i], l.pts[(i + 1) % l.pts.size()]) > 0.7 * h;
          for (int k = 0; k < n; ++k)
            if (k != a && k != b) ok &= geo::seg_dist(sp.fixed[k].p, sp.fixed[a].p, sp.fixed[b].p) > 0.7 * h;
          for (auto& e : sp.fedges)
          {
            bool share = e.first == a || e.second == a || e.first == b || e.second == b;
            if (!share) ok &= geo::seg_seg_dist(sp.fixed[a].p, sp.fixed[b].p, sp.fixed[e.first].p, sp.fixed[e.second].p) > 0.7 * h;
          }
          if (ok) sp.fedges.push_back({a, b});
        }
    }
  }
  if (s.p(1, 3)) { sp.qitems = s.pick<int>({4, 1, 10, 50}); sp.qdepth = s.pick<int>({25, 10, 5}); }
  if (s.p(1, 3)) { P lo, hi; sp.bbox(lo, hi); double mx = std::max(std::max(std::fabs(lo.x), std::fabs(hi.x)), std::max(std::fabs(lo.y), std::fabs(hi.y))); sp.qscale = 2.0 * (mx + 4 * R) * s.g(1, 4, 3); }
  sp.mesh_id = s.i(0, 3); sp.color = s.i(0, 5);
  return sp;
}

inline void classify(pbt::Src& s, const Spec& sp)
{
  if (sp.loops.size() > 1) s.label("holes");
  if (sp.fixed.size()) s.label("fixed-vertices");
  if (sp.fedges.size()) s.label("fixed-edges");
  if (sp.f.kind) s.label("varying-size");
  for (auto& l : sp.loops) { for (double m : l.msize) if (m > 0) { s.label("vertex-sizes"); break; } }
  for (auto& l : sp.loops) if ((geo::shoelace(l.pts) > 0) != l.exterior) { s.label("reversed-input"); break; }
}
} // namespace ml

// Several meshes in one generator: conforming interfaces and merging.
#include "outlib.h"
using namespace ml;

// A planar partition: cells whose rings share whole segments.
struct Cell { Spec sp; int made = -1; bool meshed = false; int group = -1; };
struct Part { std::vector<Cell> c; double ext = 1; };
typedef std::pair<std::pair<double,double>, std::pair<double,double>> SK;
static SK sk(P a, P b)
{
  auto p = std::make_pair(a.x, a.y), q = std::make_pair(b.x, b.y);
  return p < q ? SK{p, q} : SK{q, p};
}

static void ring_of(Spec& sp, bool exterior, std::vector<P> pts)
{ Loop l; l.exterior = exterior; l.pts = pts; sp.loops.push_back(l); }

static Part gen_part(pbt::Src& s, bool big = false)
{
  Part pa;
  double R = s.pick<double>({1, 4, 0.25});
  P o{0, 0}; if (s.p(1, 3)) o = {s.g(-20, 20, 8), s.g(-20, 20, 8)};
  int nx = s.i(1, 3), ny = s.i(1, 3);
  if (big) { nx = 3; ny = 3; }
  else if (nx * ny > 6 && !s.p(1, 3)) ny = 2;
  auto gr = [](double v) { return std::round(v * 1024) / 1024; };
  // corners and intermediate points of the grid lines
  std::vector<std::vector<P>> C(nx + 1, std::vector<P>(ny + 1));
  bool warp = s.p(2, 3);
  for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j)
    C[i][j] = {o.x + gr(R * (i + (warp ? s.g(-0.2, 0.2, 8) : 0))), o.y + gr(R * (j + (warp ? s.g(-0.2, 0.2, 8) : 0)))};
  typedef std::pair<std::pair<int,int>, int> GK;
  std::map<GK, std::vector<P>> mid;   // ((i,j),dir) -> points between the end points
  for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) for (int d = 0; d < 2; ++d)
  {
    if ((d == 0 && i == nx) || (d == 1 && j == ny)) continue;
    if (!s.p(1, 3)) continue;
    P a = C[i][j], b = d == 0 ? C[i + 1][j] : C[i][j + 1];
    int n = s.i(1, 2);
    for (int k = 1; k <= n; ++k)
    {
      double t = (double) k / (n + 1), off = R * s.g(-0.12, 0.12, 6);
      P q{a.x + t * (b.x - a.x) + (d == 1 ? off : 0), a.y + t * (b.y - a.y) + (d == 0 ? off : 0)};
      mid[{{i, j}, d}].push_back({gr(q.x), gr(q.y)});
    }
  }
  double h0 = R * (big ? s.g(0.3, 0.6, 6) : s.g(0.12, 0.3, 9));
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i)
  {
    std::vector<P> r;
    auto line = [&](P a, std::vector<P> m, bool rev) { r.push_back(a); if (rev) std::reverse(m.begin(), m.end()); for (auto& q : m) r.push_back(q); };
    line(C[i][j], mid[{{i, j}, 0}], false);
    line(C[i + 1][j], mid[{{i + 1, j}, 1}], false);
    line(C[i + 1][j + 1], mid[{{i, j + 1}, 0}], true);
    line(C[i][j + 1], mid[{{i, j}, 1}], true);
    Cell c; ring_of(c.sp, true, r);
    c.sp.f.h = h0 * s.g(0.6, 1.6, 10);
    std::vector<Cell> extra;
    if ((!big && s.p(1, 3)) || nx * ny == 1)
    { // a hole, possibly the place of another mesh
      P m{0, 0}; for (auto& q : r) { m.x += q.x / r.size(); m.y += q.y / r.size(); }
      double d = geo::inside(m, r) ? geo::poly_dist(m, r) : 0;
      if (d > 0.25 * R)
      {
        Loop hl = gen_ring(s, {gr(m.x), gr(m.y)}, d * s.g(0.4, 0.7, 3) / std::sqrt(2.0), s.i(0, 2), false);
        std::vector<P> hp = hl.pts;
        ring_of(c.sp, false, hp);
        if (s.p(2, 3) || nx * ny == 1)
        {
          Cell in; ring_of(in.sp, true, hp); in.sp.f.h = h0 * s.g(0.6, 1.6, 10);
          extra.push_back(in);
        }
      }
    }
    pa.c.push_back(c);
    for (auto& e : extra) pa.c.push_back(e);
  }
  pa.ext = R * std::max(nx, ny) * 1.4;
  for (auto& c : pa.c)
  {
    for (auto& l : c.sp.loops) dress(s, l, s.i(0, 9), c.sp.f.h, true, false);
    c.sp.color = s.i(0, 9); c.sp.mesh_id = s.i(0, 5);
    if (s.p(1, 4)) { c.sp.qitems = s.pick<int>({4, 1, 10}); }
    if (s.p(1, 4)) c.sp.qscale = 4 * (std::max(std::fabs(o.x), std::fabs(o.y)) + 5 * R);
    if (s.p(1, 5))
    {
      P lo, hi; c.sp.bbox(lo, hi);
      P q{lo.x + (hi.x - lo.x) * s.g(0.2, 0.8, 12), lo.y + (hi.y - lo.y) * s.g(0.2, 0.8, 12)};
      if (c.sp.inside(q) && c.sp.bdist(q) > 0.8 * c.sp.f.h) { FixedV f; f.p = q; c.sp.fixed.push_back(f); }
    }
  }
  return pa;
}

struct World
{
  Part pa;
  std::map<SK, std::vector<int>> owners;      // cells of a segment
  std::map<SK, std::vector<int>> color;       // colours it may have
  std::vector<std::unique_ptr<Domain>> dom;
  MeshGenerator gen;
  std::map<int, Mesh*> mesh;                  // group -> mesh
  std::map<int, std::set<int>> cells;         // group -> cells
  std::map<int, Domain*> gdom;
  bool layered = false;

  // the segments of a group's boundary; with the group on the other side (or -1)
  std::vector<Seg> outline(int g, std::vector<int>* other = nullptr)
  {
    std::vector<Seg> r;
    for (int k : cells[g])
      for (auto& sg : segments(pa.c[k].sp))
      {
        auto key = sk(sg.a, sg.b);
        int o = -1; bool inner = false;
        for (int w : owners[key]) if (w != k)
        {
          if (pa.c[w].group == g) inner = true;
          else if (pa.c[w].group >= 0) o = pa.c[w].group;
        }
        if (inner) continue;
        Seg q = sg;
        if (owners[key].size() > 1) for (int w : owners[key]) for (auto& s2 : segments(pa.c[w].sp)) if (sk(s2.a, s2.b) == key) q.c.push_back(s2.c[0]);
        r.push_back(q); if (other) other->push_back(o);
      }
    return r;
  }
};

static bool g_files = false; // exported files are judged: do not refresh the meshes in between
static void check_group(World& w, int g, const char* when, bool filled)
{
  if (g_files) return;
  auto& pa = w.pa; Mesh& m = *w.mesh[g];
  PM pm = extract(m);
  try
  {
    std::vector<int> other; auto segs = w.outline(g, &other);
    check_segments(pm, segs, pa.ext);
    // interfaces
    std::set<const Edge*> mine; for (auto& e : m.boundary_edges()) mine.insert(e.get());
    double tol = 1e-9 * pa.ext;
    for (auto& e : m.boundary_edges())
    {
      P a = PT(e->v1().xy()), b = PT(e->v2().xy());
      int o = -1; bool hit = false;
      for (size_t k = 0; k < segs.size(); ++k)
        if (geo::seg_dist(a, segs[k].a, segs[k].b) < tol && geo::seg_dist(b, segs[k].a, segs[k].b) < tol && geo::seg_param(b, segs[k].a, segs[k].b) > geo::seg_param(a, segs[k].a, segs[k].b))
        { o = other[k]; hit = true; }
      REQUIRE(hit, "boundary-edge-off-boundary", "no segment");
      Edge* t = e->twin_edge();
      if (o < 0) { REQUIRE(!t, "stray-twin", "boundary edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") has a twin, but there is no neighbouring mesh"); continue; }
      REQUIRE(t, "missing-twin", "interface edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") has no twin edge in its neighbouring mesh");
      bool there = false;
      for (auto& q : w.mesh[o]->boundary_edges()) there |= q.get() == t;
      REQUIRE(there, "foreign-twin", "the twin of (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") is not a boundary edge of the neighbouring mesh");
      REQUIRE(t->twin_edge() == e.get(), "one-sided-twin", "twin of twin differs at (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ")");
      P c = PT(t->v1().xy()), d = PT(t->v2().xy());
      REQUIRE(a.x == d.x && a.y == d.y && b.x == c.x && b.y == c.y, "interface-not-conforming", "edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") has twin (", c.x, ",", c.y, ")-(", d.x, ",", d.y, ")");
    }
    if (filled)
    {
      check_elements_positive(pm, pa.ext);
      check_conforming(pm);
      check_adjacency(pm);
      LD ar = 0; for (int k : w.cells[g]) ar += pa.c[k].sp.area();
      REQUIRE(std::fabs((double)(total_area(pm) - ar)) < 1e-9 * pa.ext * pa.ext, "area-mismatch", "elements cover ", (double) total_area(pm), " of ", (double) ar);
      for (size_t k = 0; k < pm.e.size(); ++k)
      {
        P c{0, 0}; for (int q : pm.e[k].v) { c.x += pm.v[q].p.x / pm.e[k].v.size(); c.y += pm.v[q].p.y / pm.e[k].v.size(); }
        bool ok = false, any = false;
        for (int q : w.cells[g]) { if (pa.c[q].sp.inside(c)) any = true; ok |= any && pa.c[q].sp.color == pm.e[k].color && pa.c[q].sp.inside(c); }
        REQUIRE(!any || ok, "element-colour", "element ", k, " at (", c.x, ",", c.y, ") has colour ", pm.e[k].color);
        REQUIRE(pm.e[k].owner == &m, "element-owner", "element ", k, " is not attributed to its mesh");
        REQUIRE(std::fabs(pm.e[k].area - (double) elem_area(pm, pm.e[k])) < 1e-9 * pa.ext * pa.ext, "stored-area", "element ", k);
      }
      std::set<int> onb; for (auto& b : pm.be) { onb.insert(b.a); onb.insert(b.b); }
      for (int q : onb) REQUIRE(pm.v[q].onb, "boundary-flag", "vertex (", pm.v[q].p.x, ",", pm.v[q].p.y, ") lies on a boundary edge but is not marked");
      for (int k : w.cells[g]) for (auto& f : pa.c[k].sp.fixed)
      {
        int n = 0; for (auto& v : pm.v) if (v.p.x == f.p.x && v.p.y == f.p.y) n += v.fixed;
        REQUIRE(n == 1, "fixed-vertex", "fixed vertex (", f.p.x, ",", f.p.y, ") occurs ", n, " times");
      }
      std::set<std::pair<double,double>> xy;
      for (auto& v : pm.v) REQUIRE(xy.insert({v.p.x, v.p.y}).second, "duplicate-vertex", "two vertices at (", v.p.x, ",", v.p.y, ")");
    }
  }
  catch (pbt::Failure& f) { f.key = std::string(when) + "/" + f.key; throw; }
}

static std::string dump(const PM& p)
{
  std::ostringstream o; o << std::hexfloat;
  for (auto& v : p.v) o << v.p.x << ' ' << v.p.y << ' ' << v.fixed << v.onb << v.layer << '\n';
  for (auto& e : p.e) { for (int q : e.v) o << q << ' '; o << e.color << '\n'; }
  for (auto& e : p.be) o << e.a << ' ' << e.b << ' ' << e.color << ' ' << e.left << ' ' << e.twin << '\n';
  for (auto& e : p.ie) o << e.a << ' ' << e.b << ' ' << e.l << ' ' << e.r << '\n';
  return o.str();
}

// a file of one of several meshes, with its interfaces
static void check_files(pbt::Src& s, World& w, int g, const Scratch& dir, int& faces)
{
  Mesh& m = *w.mesh[g];
  if (s.p(1, 4))
  {
    s.note("write vtu ", g, "\n");
    Vtu v = write_and_read_vtu(m, *w.gdom[g], dir / "m");
    PM pm = extract(m); check_vtu(v, m, pm, *w.gdom[g]); return;
  }
  s.note("write txt ", g, "\n");
  Txt t = write_and_read_txt(m, *w.gdom[g], dir / "m");
  check_txt_self(t);
  std::map<std::pair<std::pair<double,double>, std::pair<double,double>>, ElemAt> other;
  for (auto& q : w.mesh) if (q.first != g) { auto o = sides_xy(*q.second); other.insert(o.begin(), o.end()); }
  size_t n = 0; std::vector<std::array<int,4>> ref;
  for (auto& e : m.boundary_edges()) if (e->twin_edge())
  {
    auto a = e->v1().xy(), b = e->v2().xy(); auto it = other.find({{b.x, b.y}, {a.x, a.y}});
    ElemAt x = it == other.end() ? ElemAt{} : it->second;
    REQUIRE(n < t.itf.size(), "txt-interface", "interface edges are missing");
    auto& r = t.itf[n++];
    REQUIRE(r[0] == (int) e->v1().index() && r[1] == (int) e->v2().index(), "txt-interface", "vertices of interface edge ", n - 1);
    REQUIRE(r[3] == x.index && r[4] == x.color, "txt-interface-element", "interface edge (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") lists element ", r[3], " of colour ", r[4], " of the neighbour instead of ", x.index, " of colour ", x.color);
    int own = -1; for (auto& be : t.be) if (be[0] == r[0] && be[1] == r[1]) own = be[2];
    REQUIRE(r[2] == own, "txt-interface-own", "interface edge lists own element ", r[2], " instead of ", own);
    if (x.index >= 0) ++faces;
  }
  REQUIRE(n == t.itf.size(), "txt-interface", t.itf.size(), " interface edges instead of ", n);
  PM pm = extract(m); check_txt_mesh(t, m, pm, *w.gdom[g]);
}

static void multi_run(pbt::Src& s, bool big, bool files = false)
{
  quiet();
  std::unique_ptr<Scratch> dir; if (files) dir.reset(new Scratch);
  int faces = 0;
  World w; w.pa = gen_part(s, big);
  auto& C = w.pa.c; int n = (int) C.size();
  for (int k = 0; k < n; ++k) { s.note("cell ", k, ": ", show(C[k].sp)); for (auto& sg : segments(C[k].sp)) w.owners[sk(sg.a, sg.b)].push_back(k); }
  w.dom.resize(n);
  std::vector<int> pending; for (int k = 0; k < n; ++k) pending.push_back(k);
  bool eager = s.b(); // prepare everything before the first element is created
  int merges = 0, refused = 0; size_t n_made = 0;
  auto meshed = [&](int g) { for (int k : w.cells[g]) if (!C[k].meshed) return false; return true; };
  auto groups = [&]() { std::vector<int> r; for (auto& q : w.mesh) r.push_back(q.first); return r; };
  bool layers = !big && s.p(1, 3);
  std::set<const Mesh*> freed; const Mesh* last = nullptr;

  for (int step = 0; step < (big ? 120 : 60); ++step)
  {
    if (files && !w.mesh.empty() && s.p(1, 3)) { auto gs = groups(); check_files(s, w, gs[s.u(gs.size())], *dir, faces); }
    std::vector<int> todo; for (int g : groups()) if (!meshed(g)) todo.push_back(g);
    int op;
    if (pending.empty() && todo.empty()) { if (w.mesh.size() < 2 || s.p(1, 6)) break; op = 2 + s.i(0, 3) % 3; if (s.b()) op = 2; }
    else if (eager && !pending.empty()) op = 0;
    else op = s.i(0, 4);
    if (big && op > 2 && !s.p(1, 4)) op = 2;
    if (op == 0 && pending.empty()) op = 1;
    if (op == 1 && todo.empty()) { if (pending.empty()) continue; op = 0; }
    if (op == 0)
    {
      size_t q = s.u(pending.size()); int k = pending[q]; pending.erase(pending.begin() + q);
      s.note("create ", k, "\n");
      w.dom[k] = make_domain(C[k].sp);
      Mesh& m = w.gen.new_mesh(*w.dom[k], C[k].sp.mesh_id, C[k].sp.color);
      if (freed.count(&m)) s.label("address-reuse");
      C[k].group = k; w.mesh[k] = &m; w.cells[k] = {k}; w.gdom[k] = w.dom[k].get(); ++n_made;
      REQUIRE(w.gen.size() == w.mesh.size(), "mesh-count", w.gen.size(), " meshes instead of ", w.mesh.size());
      check_group(w, k, "prepared", false);
      for (int g : groups()) if (g != k) check_group(w, g, "neighbour-of-prepared", meshed(g));
    }
    else if (op == 1)
    {
      int g = todo[s.u(todo.size())]; Mesh& m = *w.mesh[g];
      s.note("mesh ", g);
      if (layers && s.b())
      {
        const Loop& l = C[g].sp.loops[s.u(C[g].sp.loops.size())];
        P a = l.pts[s.u(l.pts.size())], b = s.b() ? a : l.pts[s.u(l.pts.size())];
        int nl = s.i(1, 3); double fh = C[g].sp.f.h * s.g(0.05, 0.3, 5), gr = s.g(1, 1.4, 4);
        s.note(" layers n=", nl, " h=", fh, " g=", gr, " from (", a.x, ",", a.y, ") to (", b.x, ",", b.y, ")");
        w.gen.quad_layer_generation(m).n_layers(nl).first_height(fh).growth_rate(gr).starting_position(V(a)).ending_position(V(b)).generate_elements();
        w.layered = true; s.label("quad-layers");
        check_group(w, g, "layered", false);
        for (int o : groups()) if (o != g) check_group(w, o, "neighbour-of-layered", meshed(o));
      }
      s.note("\n");
      if (last == &m && freed.count(&m)) s.label("stale-algorithm");
      last = &m;
      bool ok = w.gen.triangulation(m).generate_elements();
      if (!ok || !MeshChecker(m, *w.gdom[g]).check_completeness()) { s.label("reported-failure"); s.discard(); }
      C[g].meshed = true;
      check_group(w, g, "meshed", true);
    }
    else if (op == 2)
    {
      auto gs = groups(); if (gs.size() < 2) continue;
      int a = gs[s.u(gs.size())], b = gs[s.u(gs.size())];
      if (a == b) continue;
      if (!meshed(a) || !meshed(b)) continue;
      bool adj = false;
      std::vector<int> other; w.outline(a, &other);
      for (int o : other) adj |= o == b;
      if (!adj && !s.p(1, 3)) continue;
      s.note("merge ", b, " into ", a, adj ? "\n" : " (not adjacent)\n");
      PM pa, pb; if (!g_files) { pa = extract(*w.mesh[a]); pb = extract(*w.mesh[b]); }
      bool r = w.gen.merge_meshes(*w.mesh[a], *w.mesh[b]);
      REQUIRE(r == adj, adj ? "merge-refused" : "merge-of-strangers", "merge_meshes returned ", r);
      if (!adj)
      {
        ++refused; s.label("refused-merge");
        if (g_files) continue;
        REQUIRE(w.gen.size() == w.mesh.size(), "mesh-count", w.gen.size(), " meshes instead of ", w.mesh.size());
        REQUIRE(dump(extract(*w.mesh[a])) == dump(pa) && dump(extract(*w.mesh[b])) == dump(pb), "refused-merge-changes-mesh", "");
        continue;
      }
      ++merges;
      freed.insert(w.mesh[b]);
      for (int k : w.cells[b]) { C[k].group = a; w.cells[a].insert(k); }
      w.cells.erase(b); w.mesh.erase(b); w.gdom.erase(b);
      REQUIRE(w.gen.size() == w.mesh.size(), "mesh-count", w.gen.size(), " meshes instead of ", w.mesh.size());
      if (g_files) continue;
      PM pm = extract(*w.mesh[a]);
      REQUIRE(pm.nt == pa.nt + pb.nt && pm.nq == pa.nq + pb.nq, "element-count", pa.nt, "+", pb.nt, " triangles give ", pm.nt, ", ", pa.nq, "+", pb.nq, " quads give ", pm.nq);
      for (int g : groups()) check_group(w, g, g == a ? "merged" : "neighbour-of-merged", meshed(g));
      // elements are those of both meshes
      auto poly = [](const PM& m, std::multiset<std::vector<std::pair<double,double>>>& out)
      { for (auto& e : m.e) { std::vector<std::pair<double,double>> v; for (int q : e.v) v.push_back({m.v[q].p.x, m.v[q].p.y}); std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); v.push_back({e.color, 0}); out.insert(v); } };
      std::multiset<std::vector<std::pair<double,double>>> A, B; poly(pa, A); poly(pb, A); poly(pm, B);
      REQUIRE(A == B, "elements-changed", "the merged mesh does not consist of the elements of both meshes");
    }
    else
    {
      auto gs = groups(); if (gs.empty()) continue;
      int g = gs[s.u(gs.size())]; if (!meshed(g)) continue;
      Mesh& m = *w.mesh[g];
      int what = s.i(0, 4);
      s.note("post ", g, " kind ", what, "\n");
      if (what == 0) w.gen.tri2quad_modification(m).modify();
      else if (what == 1) w.gen.mixed_smoothing(m).smooth(s.i(1, 3));
      else if (what == 2) w.gen.laplace_smoothing(m).smooth(s.i(1, 3));
      else if (what == 3) w.gen.torsion_smoothing(m).smooth(s.i(1, 3));
      else
      {
        bool iface = false; for (auto& e : m.boundary_edges()) iface |= e->twin_edge() != nullptr;
        if (!iface && (m.n_elements() > 600 || !pending.empty())) continue;
        PM p0; if (!g_files) p0 = extract(m);
        bool r = w.gen.quad_refinement(m).refine();
        REQUIRE(r == !iface, "refinement-of-interfaces", "refine() returned ", r);
        if (iface && !g_files) REQUIRE(dump(extract(m)) == dump(p0), "refused-refinement-changes-mesh", "");
        s.label("refined");
      }
      s.label("post-processed");
      for (int o : groups()) check_group(w, o, o == g ? "post" : "neighbour-of-post", meshed(o));
    }
  }
  s.note("cells=", n, " merges=", merges, " refused=", refused, "\n");
  if (n > 1) s.label("several-meshes");
  if (merges > 1) s.label("several-merges");
  if (faces) s.label("interfaces-in-file");
  if (files ? faces > 0 : n_made > 1 && merges > 0) s.nontrivial();
}

PROPERTY(multi_files) { g_files = true; multi_run(s, false, true); }
PROPERTY(multi) { g_files = false; multi_run(s, false); }
PROPERTY(multi_grid) { g_files = false; multi_run(s, true); }

// A mesh does not depend on what its generator did before.
static std::string one_mesh(MeshGenerator& g, const Spec& sp, const std::vector<int>& ops)
{
  auto d = make_domain(sp);
  Mesh& m = g.new_mesh(*d, sp.mesh_id, sp.color);
  for (int op : ops)
    if (op == 4) g.quad_layer_generation(m).n_layers(2).first_height(0.1 * sp.f.h).growth_rate(1.2)
        .starting_position(V(sp.loops[0].pts[0])).ending_position(V(sp.loops[0].pts[0])).generate_elements();
  bool ok = g.triangulation(m).generate_elements() && MeshChecker(m, *d).check_completeness();
  if (!ok) return "failure";
  for (int op : ops)
    switch (op)
    {
      case 0: g.tri2quad_modification(m).modify(); break;
      case 1: g.quad_refinement(m).refine(); break;
      case 2: g.mixed_smoothing(m).smooth(2); break;
      case 3: g.laplace_smoothing(m).smooth(2); break;
      default: break;
    }
  return dump(extract(m));
}
PROPERTY(gen_history)
{
  quiet();
  GenOpt o; o.translate = false; o.target = s.pick<double>({100, 250});
  Spec sp = gen_spec(s, o);
  s.note(show(sp));
  std::vector<int> ops; int k = s.i(0, 3); for (int i = 0; i < k; ++i) ops.push_back(s.i(0, 4));
  for (int q : ops) s.note(" op", q);
  s.note("\n");
  MeshGenerator fresh; std::string want = one_mesh(fresh, sp, ops);

  // another part of the plane is meshed and merged first
  World w; w.pa = gen_part(s);
  auto& C = w.pa.c; int n = std::min<int>(C.size(), s.i(2, 4));
  for (auto& c : C)
  {
    for (auto& l : c.sp.loops) for (auto& p : l.pts) p.x += 128;
    for (auto& f : c.sp.fixed) f.p.x += 128;
    if (c.sp.qscale < 10000) c.sp.qscale *= 64;
    for (auto& sg : segments(c.sp)) w.owners[sk(sg.a, sg.b)];
  }
  w.dom.resize(C.size());
  std::vector<std::pair<Mesh*, int>> live;
  int merged = 0;
  for (int i = 0; i < n; ++i)
  {
    s.note("cell ", i, ": ", show(C[i].sp));
    w.dom[i] = make_domain(C[i].sp);
    Mesh& m = w.gen.new_mesh(*w.dom[i], 0, 0);
    auto& t = w.gen.triangulation(m);
    if (s.p(1, 3)) t.wide_search_factor(s.g(8, 12, 5)).max_cell_angle(s.g(2.8, 3.1, 3)).mesh_range_factor(s.g(1.0, 1.4, 5));
    if (s.p(1, 15)) t.n_elements(s.i(1, 20));
    if (!t.generate_elements()) { s.label("neighbour-incomplete"); live.clear(); break; }
    if (!MeshChecker(m, *w.dom[i]).check_completeness()) { live.clear(); break; }
    live.push_back({&m, i});
    int post = s.i(0, 5);
    if (post == 0) w.gen.tri2quad_modification(m).modify();
    if (post == 1) w.gen.mixed_smoothing(m).smooth(1);
    if (post == 2) w.gen.laplace_smoothing(m).smooth(1);
    if (post == 3) w.gen.quad_refinement(m).refine();
    if (live.size() > 1 && s.p(2, 3))
    {
      int a = (int) live.size() - 1, b = (int) s.u(a); if (s.b()) std::swap(a, b);
      if (w.gen.merge_meshes(*live[a].first, *live[b].first))
      { ++merged; w.dom[live[b].second].reset(); live.erase(live.begin() + b); s.note("merged\n"); }
    }
  }
  if (merged) s.label("merged-before");
  std::string got = one_mesh(w.gen, sp, ops);
  if (want != "failure" && merged) s.nontrivial();
  REQUIRE(got == want, "depends-on-history", "the mesh differs from the one of a fresh generator");
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }

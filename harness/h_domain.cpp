// Domain definition: boundary shapes, CSV input, edge lists, point location,
// validity, size function, boundary discretisation.
#include "meshlib.h"
#include <numeric>
using namespace ml;

static std::string scratch_file(const char* suffix)
{
  const char* d = getenv("PBT_SCRATCH");
  return std::string(d ? d : "/tmp") + "/pbt_" + std::to_string((long) getpid()) + suffix;
}
struct TmpFile { std::string p; ~TmpFile() { unlink(p.c_str()); } };

// a random simple ring around c (radius r) in grid coordinates
static std::vector<P> ring(pbt::Src& s, P c, double r)
{
  Loop l = gen_ring(s, c, r, s.i(0, 4), true);
  if (s.b()) std::reverse(l.pts.begin(), l.pts.end());
  size_t rot = s.u(l.pts.size());
  std::rotate(l.pts.begin(), l.pts.begin() + rot, l.pts.end());
  return l.pts;
}

// The boundary is the closed ring pts (any input direction) in the direction
// its type demands, each edge with the colour of its input segment.
static void check_ring(const Boundary& b, const std::vector<P>& pts, const std::vector<int>& col,
                       const std::vector<double>* ms, const std::vector<double>* mr, double scale, const std::string& what)
{
  size_t n = pts.size();
  REQUIRE(b.size() == n, "edge-count", what, ": ", b.size(), " edges instead of ", n);
  bool in_ccw = geo::shoelace(pts) > 0, want_ccw = b.is_exterior();
  double tol = 1e-11 * scale;
  auto find = [&](const Vertex& v) { for (size_t i = 0; i < n; ++i) if (geo::dist(PT(v.xy()), pts[i]) <= tol) return (int) i; return -1; };
  std::vector<int> seen(n, 0);
  const Vertex* prev = nullptr; const Vertex* first = nullptr;
  for (const auto& e : b.edges())
  {
    int i = find(e->v1()), j = find(e->v2());
    REQUIRE(i >= 0 && j >= 0, "foreign-vertex", what, ": edge (", e->v1().xy().x, ",", e->v1().xy().y, ")-(", e->v2().xy().x, ",", e->v2().xy().y, ") does not join input vertices");
    int seg = in_ccw == want_ccw ? i : j, from = in_ccw == want_ccw ? i : j, to = in_ccw == want_ccw ? j : i;
    REQUIRE(to == (int) ((from + 1) % n), "edge-direction", what, ": edge joins input vertices ", i, " and ", j);
    REQUIRE(!seen[seg]++, "edge-twice", what, ": segment ", seg, " occurs twice");
    REQUIRE(e->color() == col[seg], "edge-colour", what, ": segment ", seg, " has colour ", e->color(), " instead of ", col[seg]);
    REQUIRE(e->on_boundary(), "edge-flag", what, ": edge is not marked as boundary edge");
    if (prev) REQUIRE(prev == &e->v1(), "ring-order", what, ": consecutive edges are not connected");
    else first = &e->v1();
    prev = &e->v2();
    if (ms)
    {
      REQUIRE(e->v1().mesh_size() == (*ms)[i] && e->v1().size_range() == (*mr)[i], "vertex-size", what, ": vertex ", i, " has size ", e->v1().mesh_size(), " range ", e->v1().size_range(),
              ", given ", (*ms)[i], " ", (*mr)[i]);
    }
    Edge* nx = e->get_next_edge(); Edge* pv = e->get_prev_edge();
    REQUIRE(nx && pv && &nx->v1() == &e->v2() && &pv->v2() == &e->v1(), "ring-walk", what, ": edges cannot be traversed");
  }
  REQUIRE(prev == first, "ring-open", what, ": not closed");
  LD a = geo::shoelace(pts); a = want_ccw ? std::fabs(a) : -std::fabs(a);
  REQUIRE(std::fabs((double)(b.area() - a)) < 1e-11 * scale * scale, "ring-area", what, ": area ", b.area(), " instead of ", (double) a);
}

// ---------------------------------------------------------------- C05
PROPERTY(shapes)
{
  quiet();
  Domain d;
  double scale = s.pick<double>({10, 1, 1000, 0.1});
  int nb = s.i(1, 5);
  std::vector<P> all; LD area = 0;
  std::vector<std::vector<P>> rings; std::vector<std::vector<int>> cols;
  for (int k = 0; k < nb; ++k)
  {
    bool ext = s.b();
    P c{scale * s.i(-3, 3), scale * s.i(-3, 3)};
    double r = scale * s.g(0.2, 0.9, 7);
    int kind = s.i(0, 6);
    std::vector<P> pts; std::vector<int> col; std::vector<double> ms, mr; bool props = true;
    double m0 = s.b() ? 0.0 : scale * s.g(0.01, 0.3, 5), r0 = s.b() ? 0.0 : scale * s.g(0.1, 1, 5);
    int c0 = s.i(0, 12);
    Boundary& b = ext ? d.add_exterior_boundary() : d.add_interior_boundary();
    std::string what;
    if (kind == 0)
    {
      double w = r, h = r * s.g(0.3, 1.5, 6);
      what = "rectangle";
      pts = {{c.x - w / 2, c.y - h / 2}, {c.x + w / 2, c.y - h / 2}, {c.x + w / 2, c.y + h / 2}, {c.x - w / 2, c.y + h / 2}};
      b.set_shape_rectangle(c0, V(c), w, h, m0, r0);
    }
    else if (kind == 1)
    {
      what = "square";
      pts = {{c.x - r / 2, c.y - r / 2}, {c.x + r / 2, c.y - r / 2}, {c.x + r / 2, c.y + r / 2}, {c.x - r / 2, c.y + r / 2}};
      b.set_shape_square(c0, V(c), r, m0, r0);
    }
    else if (kind == 2 || kind == 3)
    {
      int n = kind == 2 ? s.i(3, 40) : 3;
      double rad = kind == 2 ? r : r / std::sqrt(3.0);
      what = kind == 2 ? "circle" : "triangle";
      for (int i = 0; i < n; ++i) pts.push_back({c.x + rad * std::cos(2 * M_PI * i / n), c.y + rad * std::sin(2 * M_PI * i / n)});
      if (kind == 2) b.set_shape_circle(c0, V(c), r, n, m0, r0); else b.set_shape_triangle(c0, V(c), r, m0, r0);
    }
    else
    {
      what = kind == 4 ? "coordinates" : kind == 5 ? "coordinates without sizes" : "csv";
      if (kind == 4 && k > 0 && s.p(1, 3)) 
      { // reuses the vertices of another boundary
        pts = rings[s.u(k)];
        for (auto& p : pts) for (const auto& v : d.vertices()) if (geo::dist(p, PT(v->xy())) < 1e-9 * scale) { p = PT(v->xy()); break; }
        s.label("shared-vertices");
      }
      else pts = ring(s, c, r);
      for (size_t i = 0; i < pts.size(); ++i) { col.push_back(s.i(0, 15)); ms.push_back(s.b() ? 0.0 : 0.05 * s.i(1, 9)); mr.push_back(s.b() ? 0.0 : 0.25 * s.i(1, 9)); }
      std::vector<Vec2d> xy, pr; for (size_t i = 0; i < pts.size(); ++i) { xy.push_back(V(pts[i])); pr.push_back({ms[i], mr[i]}); }
      if (kind == 4) b.set_shape_from_coordinates(xy, col, pr);
      else if (kind == 5) { b.set_shape_from_coordinates(xy, col); props = false; }
      else
      {
        TmpFile f{scratch_file(".csv")};
        { std::ofstream o(f.p); o << std::setprecision(17);
          for (size_t i = 0; i < pts.size(); ++i) o << pts[i].x << "," << pts[i].y << "," << col[i] << "," << ms[i] << "," << mr[i] << "\n"; }
        b.set_shape_from_csv(f.p);
      }
    }
    if (col.empty()) { col.assign(pts.size(), c0); ms.assign(pts.size(), m0); mr.assign(pts.size(), r0); }
    // vertices that exist already keep their own sizes
    for (auto& p : pts) for (auto& q : all) if (geo::dist(p, q) < 1e-5 * scale) props = false;
    s.note(what, ext ? " exterior" : " interior", " n=", pts.size(), " colour ", c0, " c=(", c.x, ",", c.y, ") r=", r, "\n");
    check_ring(b, pts, col, props ? &ms : nullptr, &mr, 4 * scale, what);
    REQUIRE(b.is_exterior() == ext && b.is_interior() == !ext, "boundary-type", what);
    for (auto& p : pts) { bool known = false; for (auto& q : all) known |= geo::dist(p, q) < 1e-9 * scale; if (!known) all.push_back(p); }
    {
      // one vertex per location
      std::set<std::pair<double, double>> loc;
      for (const auto& v : d.vertices()) loc.insert({v->xy().x + 0.0, v->xy().y + 0.0});
      REQUIRE(loc.size() == d.vertices().size() && loc.size() >= all.size(), "domain-vertices", "domain has ", d.vertices().size(), " vertices at ", loc.size(), " locations");
    }
    size_t n_verts = d.vertices().size();
    area += ext ? std::fabs(geo::shoelace(pts)) : -std::fabs(geo::shoelace(pts));
    rings.push_back(pts); cols.push_back(col);
    if (s.p(1, 4))
    {
      // a boundary that has a shape keeps it
      if (s.b()) b.set_shape_square(1, Vec2d{0.0, 0.0}, scale); else b.set_shape_circle(1, Vec2d{0.0, 0.0}, scale, 7);
      check_ring(b, pts, col, nullptr, nullptr, 4 * scale, what + " after a second shape");
      REQUIRE(d.vertices().size() == n_verts, "domain-vertices", "a refused shape added vertices");
    }
    s.label(what); s.label(ext ? "exterior" : "interior");
    if ((geo::shoelace(pts) > 0) != ext) s.label("reversed");
  }
  REQUIRE(d.size() == (size_t) nb, "domain-size", d.size());
  REQUIRE(std::fabs((double)(d.area() - area)) < 1e-11 * 16 * scale * scale * nb, "domain-area", "domain area ", d.area(), " instead of ", (double) area);
  // earlier boundaries are not disturbed by later ones
  for (int k = 0; k < nb; ++k) check_ring(d[k], rings[k], cols[k], nullptr, nullptr, 4 * scale, "boundary " + std::to_string(k));
  if (nb > 1) s.nontrivial();
}

// ---------------------------------------------------------------- C20
PROPERTY(sizefn)
{
  quiet();
  GenOpt o; o.target = 300; o.force_fixed = s.p(1, 2);
  Spec sp = gen_spec(s, o);
  s.note(show(sp)); classify(s, sp);
  auto d = make_domain(sp);
  P lo, hi; sp.bbox(lo, hi);
  double ext = sp.extent();
  struct EV { P a, b; double sa, ra, sb, rb; };
  std::vector<EV> ev;
  for (auto& l : sp.loops)
    for (size_t i = 0; i < l.pts.size(); ++i)
    { size_t j = (i + 1) % l.pts.size(); ev.push_back({l.pts[i], l.pts[j], l.msize[i], l.mrange[i], l.msize[j], l.mrange[j]}); }
  auto ref = [&](P p)
  {
    double f = sp.f(p.x, p.y), h = f;
    auto blend = [&](P q, double range, double target)
    { double t = geo::dist(p, q) / range; double z = std::exp(-t * t); h = std::min(h, z * target + (1 - z) * f); };
    for (auto& e : ev)
    {
      double len = geo::dist(e.a, e.b), r = std::max(f / len, len / f);
      blend(e.a, r * (e.ra > 0 ? e.ra : len), std::min(e.sa > 0 ? e.sa : f, len));
      blend(e.b, r * (e.rb > 0 ? e.rb : len), std::min(e.sb > 0 ? e.sb : f, len));
    }
    for (auto& v : sp.fixed) if (v.msize > 0) blend(v.p, v.mrange > 0 ? v.mrange : f, v.msize);
    return h;
  };
  int n = 20;
  bool below = false;
  for (int k = 0; k < n; ++k)
  {
    P p{lo.x + ext * s.g(-0.2, 1.2, 70), lo.y + ext * s.g(-0.2, 1.2, 70)};
    if (s.p(1, 4)) { auto& e = ev[s.u(ev.size())]; p = e.a; }
    else if (sp.fixed.size() && s.p(1, 4)) p = sp.fixed[s.u(sp.fixed.size())].p;
    double h = d->size_function(V(p)), w = ref(p), f = sp.f(p.x, p.y);
    REQUIRE(h > 0 && h <= f * (1 + 1e-12), "size-bounds", "size ", h, " at (", p.x, ",", p.y, "), user function ", f);
    REQUIRE(std::fabs(h - w) <= 1e-9 * f, "size-value", "size ", h, " instead of ", w, " at (", p.x, ",", p.y, ")");
    below |= h < 0.99 * f;
  }
  // at a vertex with a size, the size does not exceed it
  for (auto& e : ev)
    if (e.sa > 0) REQUIRE(d->size_function(V(e.a)) <= e.sa * (1 + 1e-9), "vertex-size-ignored", "size at a vertex of size ", e.sa, " is ", d->size_function(V(e.a)));
  for (auto& v : sp.fixed)
    if (v.msize > 0) REQUIRE(d->size_function(V(v.p)) <= v.msize * (1 + 1e-9), "fixed-size-ignored", "size at a fixed vertex of size ", v.msize, " is ", d->size_function(V(v.p)));
  // grid export: row by row from the lower left corner
  if (s.p(1, 3))
  {
    unsigned nx = s.i(1, 12), ny = s.i(1, 12);
    std::ostringstream os;
    d->export_size_function(os, V(lo), V(hi), nx, ny);
    std::string t = os.str(); std::istringstream is(t);
    std::string word; double v; is >> word;
    REQUIRE(word == "SIZE-FUNCTION", "export-header", t.substr(0, 80));
    double hd[4]; for (double& q : hd) is >> q;
    unsigned ex, ey; is >> ex >> ey;
    REQUIRE(ex == nx && ey == ny && std::fabs(hd[0] - lo.x) < 1e-5 && std::fabs(hd[1] - lo.y) < 1e-5 && std::fabs(hd[2] - hi.x) < 1e-5 && std::fabs(hd[3] - hi.y) < 1e-5, "export-header", t.substr(0, 120));
    std::string rest; std::getline(is, rest, '\0');
    for (char& ch : rest) if (ch == ',' || ch == '\n') ch = ' ';
    std::istringstream vs(rest); std::vector<double> val; while (vs >> v) val.push_back(v);
    REQUIRE(val.size() == (size_t) nx * ny, "export-count", val.size(), " values for ", nx, "x", ny);
    for (unsigned j = 0; j < ny; ++j)
      for (unsigned i = 0; i < nx; ++i)
      {
        P p{lo.x + i * (hi.x - lo.x) / nx, lo.y + j * (hi.y - lo.y) / ny};
        REQUIRE(std::fabs(val[j * nx + i] - ref(p)) < 1.2e-5 + 1e-9 * ext, "export-value", "grid value ", i, ",", j, " is ", val[j * nx + i], " instead of ", ref(p));
      }
    s.label("export");
  }
  if (below) s.nontrivial();
}

// ---------------------------------------------------------------- C23
PROPERTY(csv)
{
  quiet();
  int n = s.i(0, 30);
  struct Row { double x, y; int c; double m, r; };
  std::vector<Row> rows; std::string text; bool bad = false;
  int bad_row = s.p(1, 3) && n > 0 ? (int) s.u(n) : -1;
  auto num = [&](double& out)
  {
    int k = s.i(0, 6); std::ostringstream o; double v = s.i(-100000, 100000) / 1000.0;
    switch (k)
    {
      case 0: o << (int) v; v = (int) v; break;
      case 1: o << std::setprecision(17) << v; break;
      case 2: o << std::scientific << std::setprecision(12) << v; break;
      case 3: o << "  " << std::setprecision(17) << v; break;
      case 4: o << std::setprecision(17) << v << " "; break;
      case 5: o << "+" << std::setprecision(17) << std::fabs(v); v = std::fabs(v); break;
      default: v *= 1e-7; o << std::setprecision(17) << v; break;
    }
    out = v; return o.str();
  };
  for (int i = 0; i < n; ++i)
  {
    Row r{0, 0, 0, 0, 0};
    std::vector<std::string> cell;
    cell.push_back(num(r.x)); cell.push_back(num(r.y));
    r.c = s.p(1, 8) ? s.i(0, 2000000000) : s.i(0, 20);
    cell.push_back((s.b() ? "" : " ") + std::to_string(r.c));
    int extra = s.i(0, 3);
    if (extra >= 1) cell.push_back(num(r.m));
    if (extra >= 2) cell.push_back(num(r.r));
    if (extra >= 3) cell.push_back("remark");
    if (i == bad_row)
    {
      bad = true;
      switch (s.i(0, 5))
      {
        case 0: cell.resize(1); break;
        case 1: cell.resize(2); break;
        case 2: cell[s.u(3)] = s.pick<std::string>({"x", "abc", "--1", "e", "#1"}); break;
        case 3: cell[2] = s.pick<std::string>({"-1", "-7", "-200"}); break;
        case 4: cell[s.u(2)] = ""; break;
        default: cell[s.u(2)] = "1e999"; break;
      }
    }
    for (size_t k = 0; k < cell.size(); ++k) text += (k ? "," : "") + cell[k];
    text += i + 1 < n || s.b() ? "\n" : "";
    rows.push_back(r);
  }
  s.note("csv file", bad ? " (malformed row " + std::to_string(bad_row) + ")" : "", ":\n", text, "\n");
  TmpFile f{scratch_file(".csv")};
  { std::ofstream o(f.p); o << text; }
  bool threw = false;
  try
  {
    CSVBoundaryReader r{f.p};
    REQUIRE(!bad, "malformed-accepted", "a malformed file was read without an error");
    REQUIRE(r.vertex_coords().size() == rows.size() && r.vertex_props().size() == rows.size() && r.edge_colors().size() == rows.size(), "row-count",
            r.vertex_coords().size(), " rows instead of ", rows.size());
    for (size_t i = 0; i < rows.size(); ++i)
    {
      REQUIRE(r.vertex_coords()[i].x == rows[i].x && r.vertex_coords()[i].y == rows[i].y, "coords", "row ", i, ": (", r.vertex_coords()[i].x, ",", r.vertex_coords()[i].y, ")");
      REQUIRE(r.edge_colors()[i] == rows[i].c, "colour", "row ", i, ": ", r.edge_colors()[i]);
      REQUIRE(r.vertex_props()[i].x == rows[i].m && r.vertex_props()[i].y == rows[i].r, "sizes", "row ", i);
    }
  }
  catch (const pbt::Failure&) { throw; }
  catch (const std::exception& e) { threw = true; REQUIRE(bad, "valid-refused", "a valid file was refused: ", e.what()); }
  // a missing file is an error, not an empty boundary
  if (s.p(1, 10))
  {
    bool t = false;
    try { CSVBoundaryReader r{f.p + ".missing"}; } catch (const std::exception&) { t = true; }
    REQUIRE(t, "missing-file", "a missing file was read without an error");
  }
  s.label(bad ? "malformed" : "valid");
  if (n >= 2) s.nontrivial();
}

// ---------------------------------------------------------------- C25
PROPERTY(edgelist)
{
  quiet();
  struct ME { Vertex* a; Vertex* b; int c; int flags; };
  std::map<Vertex*, int> vflags;
  bool closed = s.p(1, 3);
  Vertices verts;
  std::vector<Vertex*> vs;
  auto el = std::make_unique<EdgeList>(closed ? Orientation::CCW : Orientation::NONE);
  EdgeList other(Orientation::NONE);
  std::vector<std::pair<Edge*, ME>> model;   // in list order
  std::map<Vertex*, P> pos;
  int nv = s.i(3, 10);
  for (int i = 0; i < nv; ++i)
  {
    P p; bool fresh;
    do { p = {s.i(-40, 40) / 4.0, s.i(-40, 40) / 4.0}; fresh = true; for (auto& q : pos) fresh &= geo::dist(q.second, p) > 0.1; if (s.drawn() > 4000) s.discard(); } while (!fresh);
    Vertex& v = verts.push_back(Vec2d{p.x, p.y}, s.i(0, 4) * 0.5, s.i(0, 4) * 1.0);
    vs.push_back(&v); pos[&v] = p;
  }
  if (s.b()) other.add_edge(*vs[0], *vs[1], 3);   // foreign edges at the same vertices
  auto verify = [&]()
  {
    REQUIRE(el->size() == model.size(), "size", el->size(), " edges instead of ", model.size());
    size_t k = 0;
    for (const auto& e : *el)
    {
      REQUIRE(k < model.size() && e.get() == model[k].first, "order", "edge ", k, " of the list is not the expected one");
      const ME& m = model[k].second;
      REQUIRE(&e->v1() == m.a && &e->v2() == m.b && e->color() == m.c, "edge-data", "edge ", k);
      REQUIRE(e->on_boundary() == ((m.flags & 1) != 0) && e->is_interior() == !(m.flags & 1) && e->is_fixed() == ((m.flags & 2) != 0) && e->is_ghost() == ((m.flags & 4) != 0) && e->has_no_property() == (m.flags == 0), "edge-flags", "edge ", k, " should have flags ", m.flags, " but has ", (int) e->properties());
      P a = pos[m.a], b = pos[m.b]; double len = geo::dist(a, b);
      REQUIRE(std::fabs(e->length() - len) < 1e-12 * (1 + len), "length", "edge ", k, " has length ", e->length(), " instead of ", len);
      REQUIRE(geo::dist(PT(e->xy()), 0.5 * (a + b)) < 1e-12 * 50, "midpoint", "edge ", k);
      REQUIRE(geo::dist(PT(e->tangent()), (1 / len) * (b - a)) < 1e-11 * (1 + 1 / len), "tangent", "edge ", k, " of length ", len);
      P t = PT(e->tangent()), nn = PT(e->normal());
      REQUIRE(std::fabs(nn.x + t.y) < 1e-11 && std::fabs(nn.y - t.x) < 1e-11, "normal", "edge ", k, " normal is not to its left");
      ++k;
    }
    // adjacency of the vertices
    for (auto v : vs)
    {
      int vf = vflags[v];
      REQUIRE(v->on_front() == ((vf & 1) != 0) && v->in_quad_layer() == ((vf & 2) != 0) && v->is_fixed() == ((vf & 4) != 0) && v->on_boundary() == ((vf & 8) != 0), "vertex-flags", "flags ", vf, " expected, ", (int) v->properties(), " found");
      std::multiset<const Edge*> want, got;
      for (auto& q : model) if (q.second.a == v || q.second.b == v) want.insert(q.first);
      for (auto& e : other) if (&e->v1() == v || &e->v2() == v) want.insert(e.get());
      for (auto e : v->edges()) got.insert(e);
      REQUIRE(want == got, "vertex-edges", "a vertex knows ", got.size(), " edges, ", want.size(), " exist");
    }
  };
  int n_ops = s.i(1, 40), done = 0;
  for (int q = 0; q < n_ops; ++q)
  {
    int op = s.i(0, 11);
    if (op == 10 && model.size())
    { // edge flags
      auto& m = model[s.u(model.size())]; int f = 1 << s.i(0, 2), how = s.i(0, 2); auto pr = static_cast<EdgeProperty>(f);
      if (how == 0) { m.first->add_property(pr); m.second.flags |= f; }
      if (how == 1) { m.first->remove_property(pr); m.second.flags &= ~f; }
      if (how == 2) { m.first->set_property(pr); m.second.flags = f; }
      s.label("edge-flags");
    }
    else if (op == 11)
    { // vertex flags
      Vertex* v = vs[s.u(vs.size())]; int f = 1 << s.i(0, 3), how = s.i(0, 2); auto pr = static_cast<VertexProperty>(f);
      if (how == 0) { v->add_property(pr); vflags[v] |= f; }
      if (how == 1) { v->remove_property(pr); vflags[v] &= ~f; }
      if (how == 2) { v->set_property(pr); vflags[v] = f; }
    }
    else if (op <= 3)
    {
      Vertex* a = vs[s.u(vs.size())]; Vertex* b = vs[s.u(vs.size())];
      if (closed && model.size() && !s.p(1, 6)) a = model.back().second.b;
      if (a == b || geo::dist(pos[a], pos[b]) < 1e-4) continue;
      int c = s.i(0, 9);
      bool refuse = closed && model.size() && a != model.back().second.b, threw = false;
      try { Edge& e = el->add_edge(*a, *b, c); model.push_back({&e, {a, b, c, 0}}); }
      catch (const std::runtime_error&) { threw = true; }
      REQUIRE(threw == refuse, "add-unconnected", "an edge that is ", refuse ? "not " : "", "connected to the last one was ", threw ? "refused" : "added");
    }
    else if (op == 4 && !closed && model.size())
    {
      Vertex* a = vs[s.u(vs.size())]; Vertex* b = vs[s.u(vs.size())]; if (a == b || geo::dist(pos[a], pos[b]) < 1e-4) continue;
      size_t k = s.u(model.size());
      Edge& e = el->insert_edge(model[k].first->pos(), *a, *b, 5);
      model.insert(model.begin() + k, {&e, {a, b, 5, 0}});
    }
    else if (op == 5 && model.size())
    {
      size_t k = closed ? model.size() - 1 : s.u(model.size());
      bool r = el->remove(*model[k].first);
      REQUIRE(r, "remove", "removal of a stored edge failed");
      model.erase(model.begin() + k); ++done;
    }
    else if (op == 6 && model.size())
    {
      size_t k = s.u(model.size()); ME m = model[k].second; double t = s.g(-0.1, 1.1, 24);
      if (geo::dist(pos[m.a], pos[m.b]) < 0.1) continue;   // do not split down to nothing
      size_t nv0 = verts.size();
      auto r = el->split_edge(*model[k].first, verts, t);
      if (t <= 0 || t >= 1)
      { REQUIRE(!r.first && !r.second && verts.size() == nv0, "split-refused", "an edge was split at ", t); continue; }
      REQUIRE(r.first && r.second && verts.size() == nv0 + 1, "split", "edge was not split at ", t);
      Vertex* v = &r.first->v2();
      P a = pos[m.a], b = pos[m.b], p = PT(v->xy());
      double u = std::min(t, 1 - t);
      P p1 = a + u * (b - a), p2 = b + u * (a - b);
      REQUIRE(std::min(geo::dist(p, p1), geo::dist(p, p2)) < 1e-11, "split-position", "split vertex (", p.x, ",", p.y, ")");
      REQUIRE(v == &r.second->v1() && v != m.a && v != m.b, "split-vertex", "the halves do not share a new vertex");
      double w = geo::dist(p, b) / geo::dist(a, b);
      REQUIRE(std::fabs(v->mesh_size() - (w * m.a->mesh_size() + (1 - w) * m.b->mesh_size())) < 1e-9 &&
              std::fabs(v->size_range() - (w * m.a->size_range() + (1 - w) * m.b->size_range())) < 1e-9, "split-sizing", "sizes are not interpolated");
      { // flags shared by both ends are kept, no others appear; vertices within the domain are not on its boundary
        int got = (int) v->properties(), f1 = vflags[m.a], f2 = vflags[m.b], both = f1 & f2, any = f1 | f2;
        if (!(m.flags & 1)) both &= ~8, any &= ~8;
        REQUIRE((got & both) == both && (got & ~any) == 0, "split-vertex-flags", "vertex of flags ", got, " between vertices of flags ", f1, " and ", f2, " on an edge of flags ", m.flags);
        vflags[v] = got;
      }
      vs.push_back(v); pos[v] = p;
      model.erase(model.begin() + k);
      model.insert(model.begin() + k, {{r.first, {m.a, v, m.c, m.flags}}, {r.second, {v, m.b, m.c, m.flags}}});
      ++done; s.label("split");
    }
    else if (op == 7 && vs.size() && s.b())
    {
      Vertex* v = vs[s.u(vs.size())]; P p{s.i(-160, 160) / 16.0 + 0.03, s.i(-160, 160) / 16.0};
      bool ok = true; for (auto& q : pos) if (q.first != v) ok &= geo::dist(q.second, p) > 1e-3;
      if (!ok) continue;
      // move a vertex the way the smoothers do
      MeshCleanup::set_vertex_coordinates(*v, V(p));
      pos[v] = p; ++done; s.label("move");
    }
    else if (op == 8 && model.size())
    {
      // look-ups
      Vertex* a = vs[s.u(vs.size())]; Vertex* b = vs[s.u(vs.size())];
      if (s.b()) { auto& m = model[s.u(model.size())].second; a = m.a; b = m.b; if (s.b()) std::swap(a, b); }
      auto has = [&](bool dir) { for (auto& m : model) if ((m.second.a == a && m.second.b == b) || (!dir && m.second.a == b && m.second.b == a)) return true; return false; };
      for (bool dir : {false, true})
      {
        Edge* e = el->get_edge(*a, *b, dir);
        REQUIRE((e != nullptr) == has(dir), "get-edge", "look-up of an edge between two vertices ", e ? "found a wrong one" : "found none", dir ? " (directed)" : "");
        if (e) REQUIRE(&e->edgelist() == el.get() && ((&e->v1() == a && &e->v2() == b) || (!dir && &e->v1() == b && &e->v2() == a)), "get-edge", "a wrong edge was found");
      }
      for (int k = 0; k <= 2; ++k)
      {
        Edge* e = el->get_edge(*a, k);
        bool any = false; for (auto& m : model) any |= (k != 2 && m.second.a == a) || (k != 1 && m.second.b == a);
        REQUIRE((e != nullptr) == any, "get-edge-at", "look-up of an edge at a vertex, position ", k);
        if (e) REQUIRE(&e->edgelist() == el.get() && ((k != 2 && &e->v1() == a) || (k != 1 && &e->v2() == a)), "get-edge-at", "a wrong edge was found, position ", k);
      }
      P p{s.i(-80, 80) / 4.0, s.i(-80, 80) / 4.0};
      Vertex& cv = el->get_closest_vertex(V(p));
      double best = 1e300; bool member = false;
      for (auto& m : model) { best = std::min(best, geo::dist(p, pos[m.second.a])); member |= m.second.a == &cv; }
      REQUIRE(member && geo::dist(p, pos[&cv]) <= best + 1e-11, "closest-vertex", "the closest vertex has distance ", best, ", returned one ", geo::dist(p, pos[&cv]));
      double rad = s.g(0.1, 15, 40);
      auto f = el->get_edges(V(p), rad); std::set<Edge*> got(f.begin(), f.end());
      for (auto& m : model)
      {
        double d = geo::dist(p, 0.5 * (pos[m.second.a] + pos[m.second.b]));
        if (std::fabs(d - rad) > 1e-9) REQUIRE((d < rad) == (got.count(m.first) > 0), "get-edges", "edge at distance ", d, " for radius ", rad);
      }
      for (auto g : got) { bool st = false; for (auto& m : model) st |= m.first == g; REQUIRE(st, "get-edges", "a removed edge was found"); }
    }
    else if (op == 9 && s.p(1, 3)) { if (s.p(1, 4)) { el->clear_edges(); model.clear(); } else el->clear_waste(); }
    // next / previous edges
    for (auto& m : model)
    {
      Edge* nx = m.first->get_next_edge(); bool any = false;
      for (auto& m2 : model) any |= m2.first != m.first && m2.second.a == m.second.b;
      REQUIRE((nx != nullptr) == any && (!nx || (&nx->v1() == m.second.b && &nx->edgelist() == el.get())), "next-edge", "wrong successor");
      Edge* pv = m.first->get_prev_edge(); any = false;
      for (auto& m2 : model) any |= m2.first != m.first && m2.second.b == m.second.a;
      REQUIRE((pv != nullptr) == any && (!pv || (&pv->v2() == m.second.a && &pv->edgelist() == el.get())), "prev-edge", "wrong predecessor");
    }
    verify();
  }
  s.note(closed ? "ccw" : "free", " list, ", n_ops, " operations, ", model.size(), " edges left, ", done, " removals/splits/moves\n");
  el->clear_edges();
  model.clear(); verify();
  if (done && n_ops > 4) s.nontrivial();
}

// rings without coinciding vertices, crossings or contacts
static bool simple(const Spec& sp)
{
  struct S { size_t loop, i, n; P a, b; }; std::vector<S> g;
  for (size_t q = 0; q < sp.loops.size(); ++q)
    for (size_t i = 0, n = sp.loops[q].pts.size(); i < n; ++i) g.push_back({q, i, n, sp.loops[q].pts[i], sp.loops[q].pts[(i + 1) % n]});
  for (size_t a = 0; a < g.size(); ++a)
  {
    if (geo::dist(g[a].a, g[a].b) < 0.02) return false;
    for (size_t b = a + 1; b < g.size(); ++b)
    {
      bool nb = g[a].loop == g[b].loop && ((g[a].i + 1) % g[a].n == g[b].i || (g[b].i + 1) % g[b].n == g[a].i);
      if (nb) { if (std::fabs((double) geo::cross3(g[a].a, g[a].b, geo::dist(g[b].a, g[a].b) == 0 ? g[b].b : g[b].a)) < 1e-6) return false; }
      else if (geo::seg_touch(g[a].a, g[a].b, g[b].a, g[b].b)) return false;
    }
  }
  return true;
}

// ---------------------------------------------------------------- C27
PROPERTY(inside)
{
  quiet();
  GenOpt o; o.target = 100; o.fixed = false;
  Spec sp = gen_spec(s, o);
  Spec sp0 = sp;
  if (s.p(1, 3))
    for (auto& l : sp.loops) for (auto& p : l.pts) { p.x = std::round(p.x * 16) / 16; p.y = std::round(p.y * 16) / 16; }
  if (!simple(sp)) sp = sp0;
  s.note(show(sp)); classify(s, sp);
  auto d = make_domain(sp);
  P lo, hi; sp.bbox(lo, hi); double ext = sp.extent();
  REQUIRE(std::fabs(d->area() - (double) sp.area()) < 1e-11 * std::max(1.0, ext * ext + std::fabs(lo.x) + std::fabs(lo.y)) * 10, "domain-area", d->area(), " instead of ", (double) sp.area());
  { auto e = d->extent(); double tl = 1e-12 * (1 + std::fabs(lo.x) + std::fabs(lo.y) + ext);
    REQUIRE(std::fabs(e.first[0] - lo.x) < tl && std::fabs(e.first[1] - hi.x) < tl && std::fabs(e.second[0] - lo.y) < tl && std::fabs(e.second[1] - hi.y) < tl, "domain-extent",
            "[", e.first[0], ",", e.first[1], "]x[", e.second[0], ",", e.second[1], "] instead of [", lo.x, ",", hi.x, "]x[", lo.y, ",", hi.y, "]"); }
  int in = 0, out = 0;
  for (int k = 0; k < 40; ++k)
  {
    P p{lo.x + ext * s.g(-0.1, 1.1, 96), lo.y + ext * s.g(-0.1, 1.1, 96)};
    auto& l = sp.loops[s.u(sp.loops.size())];
    size_t i = s.u(l.pts.size()); P a = l.pts[i], b = l.pts[(i + 1) % l.pts.size()];
    int kind = s.i(0, 4);
    if (kind == 1) p.y = a.y;                     // level with a vertex
    if (kind == 2) p.x = a.x;
    if (kind == 3) { double off = s.pick<double>({1e-5, -1e-5, 1e-3, -1e-3}) * ext; P m = a + s.g(0.1, 0.9, 8) * (b - a); double ln = geo::dist(a, b); p = {m.x - off * (b.y - a.y) / ln, m.y + off * (b.x - a.x) / ln}; }
    if (sp.bdist(p) < 2e-6 * ext) continue;
    bool w = sp.inside(p), g = d->is_inside(V(p));
    REQUIRE(w == g, "point-location", "(", p.x, ",", p.y, ") is ", w ? "inside" : "outside", " of the domain but is reported ", g ? "inside" : "outside");
    for (size_t q = 0; q < sp.loops.size(); ++q)
      REQUIRE((*d)[q].is_inside(V(p)) == geo::inside(p, sp.loops[q].pts), "point-location", "(", p.x, ",", p.y, ") with respect to boundary ", q);
    Vertices tmp; Vertex& v = tmp.push_back(V(p));
    REQUIRE(d->is_inside(v) == w, "point-location", "vertex (", p.x, ",", p.y, ")");
    (w ? in : out)++;
  }
  // vertices of a ring belong to it
  for (size_t q = 0; q < sp.loops.size(); ++q)
    for (auto& p : sp.loops[q].pts) REQUIRE((*d)[q].is_inside(V(p)), "vertex-outside", "vertex (", p.x, ",", p.y, ") is outside of its own boundary");
  // and so do the points on its segments
  for (size_t q = 0; q < sp.loops.size(); ++q)
  {
    auto& l = sp.loops[q]; size_t i = s.u(l.pts.size());
    P a = l.pts[i], b = l.pts[(i + 1) % l.pts.size()], m{0.5 * (a.x + b.x), 0.5 * (a.y + b.y)};
    REQUIRE((*d)[q].is_inside(V(m)), "segment-outside", "point (", m.x, ",", m.y, ") on a segment is outside of the boundary");
  }
  if (in > 2 && out > 2) s.nontrivial();
}

// ---------------------------------------------------------------- C28
PROPERTY(validity)
{
  quiet();
  GenOpt o; o.target = 60; o.fixed = false; o.translate = s.b();
  Spec sp = gen_spec(s, o);
  for (auto& l : sp.loops) { l.msize.assign(l.pts.size(), 0); l.mrange.assign(l.pts.size(), 0); l.by_edges = true; }
  int kind = s.i(0, 5); bool valid = true; std::string what = "valid";
  P lo, hi; sp.bbox(lo, hi); double ext = sp.extent();
  std::unique_ptr<Domain> d;
  if (kind == 1)      { what = "no boundary"; valid = false; d = std::make_unique<Domain>(); }
  else if (kind == 2) { what = "no exterior boundary"; valid = false; for (auto& l : sp.loops) l.exterior = false; }
  else if (kind == 3)
  {
    // swap two vertices of a ring or move one across
    auto& l = sp.loops[s.u(sp.loops.size())]; size_t n = l.pts.size();
    if (n < 4) s.discard();
    std::swap(l.pts[s.u(n)], l.pts[s.u(n)]);
  }
  else if (kind == 4)
  {
    // another ring somewhere
    P c{lo.x + ext * s.g(0, 1, 16), lo.y + ext * s.g(0, 1, 16)};
    Loop l = gen_ring(s, c, ext * s.g(0.05, 0.8, 9), s.i(0, 4), s.p(1, 4));
    l.colors.assign(l.pts.size(), 1); l.msize.assign(l.pts.size(), 0); l.mrange = l.msize; l.by_edges = true;
    sp.loops.push_back(l);
  }
  // exact judgement: crossing or overlapping non-neighbouring edges
  double margin = 1e300; bool cross = false;
  if (kind != 1)
  {
    struct S { size_t loop, i, n; P a, b; }; std::vector<S> segs;
    for (size_t q = 0; q < sp.loops.size(); ++q)
      for (size_t i = 0; i < sp.loops[q].pts.size(); ++i) segs.push_back({q, i, sp.loops[q].pts.size(), sp.loops[q].pts[i], sp.loops[q].pts[(i + 1) % sp.loops[q].pts.size()]});
    for (size_t a = 0; a < segs.size(); ++a)
      for (size_t b = a + 1; b < segs.size(); ++b)
      {
        auto& u = segs[a]; auto& v = segs[b];
        if (u.loop == v.loop && ((u.i + 1) % u.n == v.i || (v.i + 1) % v.n == u.i))
        {
          // neighbours: only clearly open angles are judged
          P m = (u.i + 1) % u.n == v.i ? u.b : u.a, p = (u.i + 1) % u.n == v.i ? u.a : u.b, q = (u.i + 1) % u.n == v.i ? v.b : v.a;
          double ang = std::fabs((double) geo::cross3(m, p, q)) / (geo::dist(m, p) * geo::dist(m, q));
          if (ang < 1e-3 && geo::dot3(m, p, q) > 0) s.discard();
          continue;
        }
        if (geo::seg_touch(u.a, u.b, v.a, v.b))
        {
          // clear crossing: all four end points are clearly off the other line
          double c = std::min(std::min(geo::seg_dist(u.a, v.a, v.b), geo::seg_dist(u.b, v.a, v.b)), std::min(geo::seg_dist(v.a, u.a, u.b), geo::seg_dist(v.b, u.a, u.b)));
          if (c > 1e-4 * ext) cross = true; else margin = 0;
        }
        else margin = std::min(margin, geo::seg_seg_dist(u.a, u.b, v.a, v.b));
      }
    if (!cross && margin < 1e-4 * ext) s.discard();     // touching: not judged
    for (auto& l : sp.loops) if (std::fabs((double) geo::shoelace(l.pts)) < 1e-4 * ext * ext) s.discard();
    if (cross) { valid = false; what = kind == 3 ? "self-crossing" : "crossing boundaries"; }
    if (kind == 5)
    {
      // leave out one edge of a ring
      what = "open boundary"; valid = false;
      SizeFn f = sp.f; d = std::make_unique<Domain>([f](const Vec2d& p) { return f(p.x, p.y); });
      size_t lk = s.u(sp.loops.size());
      for (size_t q = 0; q < sp.loops.size(); ++q)
      {
        auto& l = sp.loops[q]; std::vector<P> pp; std::vector<int> cc; Spec::oriented(l, pp, cc);
        Boundary& b = l.exterior ? d->add_exterior_boundary() : d->add_interior_boundary();
        std::vector<Vertex*> vs; for (auto& p : pp) vs.push_back(&d->add_vertex(p.x, p.y));
        size_t n = pp.size(), rot = s.u(n);
        for (size_t i = 0; i + (q == lk ? 1 : 0) < n; ++i) b.add_edge(*vs[(i + rot) % n], *vs[(i + rot + 1) % n], cc[(i + rot) % n]);
      }
    }
    else d = make_domain(sp);
  }
  else if (s.b()) { what = "boundary without edges"; d->add_exterior_boundary(); }
  s.note(what, "\n", show(sp));
  s.label(what);
  bool got = EntityChecks::check_domain_validity(*d);
  REQUIRE(got == valid, valid ? "valid-refused" : "invalid-accepted", what, ": the domain is reported as ", got ? "valid" : "invalid");
  if (!valid)
  {
    MeshGenerator gen; Mesh& m = gen.new_mesh(*d);
    REQUIRE(m.n_boundary_edges() == 0 && m.n_elements() == 0, "invalid-prepared", what, ": a mesh was prepared for an invalid domain");
    bool ok = gen.triangulation(m).generate_elements();
    REQUIRE(!ok && m.n_elements() == 0, "invalid-meshed", what, ": meshing of an invalid domain reported success");
  }
  if (kind >= 2) s.nontrivial();
}

// ---------------------------------------------------------------- C06
PROPERTY(bdry_size)
{
  quiet();
  GenOpt o; o.target = 500;
  Spec sp = gen_spec(s, o);
  s.note(show(sp)); classify(s, sp);
  auto d = make_domain(sp);
  MeshGenerator gen; Mesh& m = gen.new_mesh(*d, sp.mesh_id, sp.color);
  PM pm = extract(m, false);
  check_boundary(pm, sp);
  // group the mesh boundary edges by segment
  double worst_lo = 1e300, worst_hi = 0;
  size_t split = 0;
  for (auto& l : sp.loops)
  {
    std::vector<P> q; std::vector<int> c; Spec::oriented(l, q, c);
    for (size_t i = 0; i < q.size(); ++i)
    {
      P a = q[i], b = q[(i + 1) % q.size()]; double len = geo::dist(a, b);
      size_t n = 0;
      for (auto& e : pm.be)
      {
        P x = pm.v[e.a].p, y = pm.v[e.b].p;
        if (geo::seg_dist(x, a, b) > 1e-9 * sp.extent() || geo::seg_dist(y, a, b) > 1e-9 * sp.extent()) continue;
        ++n;
      }
      // number of pieces against the integral of 1/size
      double I = 0, hmin = 1e300, hmax = 0; const int N = 400;
      for (int k = 0; k < N; ++k)
      { P p = a + ((k + 0.5) / N) * (b - a); double h = d->size_function(V(p)); I += len / N / h; hmin = std::min(hmin, h); hmax = std::max(hmax, h); }
      for (double t : {0.0, 1.0}) { double h = d->size_function(V(a + t * (b - a))); hmin = std::min(hmin, h); hmax = std::max(hmax, h); }
      double r = n / I;
      if (n > 1) ++split;
      if (I > 4 || n > 4)
      { worst_lo = std::min(worst_lo, r); worst_hi = std::max(worst_hi, r); }
      REQUIRE(n >= 1, "no-pieces", "segment ", i);
      s.note("seg ", i, " n=", n, " I=", I, " hmin=", hmin, " hmax=", hmax, "\n");
      double ext = hmax - hmin; // the splitting also looks one step beyond the end of a segment
      for (int k = 1; k <= 40; ++k) for (int side = 0; side < 2; ++side)
        ext = std::max(ext, std::fabs(hmax - d->size_function(V((side ? b : a) + (0.05 * k * hmax / len) * (side ? b - a : a - b)))));
      if (ext <= 1e-12 * hmax)
      { // constant size: the rounded number of pieces, none much shorter or longer than the size
        s.label("constant-on-segment");
        REQUIRE(std::fabs(n - I) <= 0.5 + 1e-6 || (n == 1 && I < 1.5), "piece-count", "segment (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") of length ", len, " was split into ", n, " edges for a constant size of ", hmax);
        for (auto& e : pm.be)
        {
          P x = pm.v[e.a].p, y = pm.v[e.b].p;
          if (geo::seg_dist(x, a, b) > 1e-9 * sp.extent() || geo::seg_dist(y, a, b) > 1e-9 * sp.extent()) continue;
          double pl = geo::dist(x, y);
          REQUIRE(pl <= 1.55 * hmax && (n == 1 || pl >= 0.45 * hmax), "piece-length", "a piece of segment (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") has length ", pl, " for a constant size of ", hmax);
        }
      }
      else if (hmax < 2 * hmin) // mildly varying size (largest deviation in 200000 segments: 0.7 pieces)
        REQUIRE(std::fabs(n - I) <= 1.2 + 0.03 * I || (n == 1 && I < 2), "piece-count", "segment (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") was split into ", n, " edges, the element size asks for ", I);
      REQUIRE((double) n <= 1.6 * I + 1.6 && (double) n >= 0.6 * I - 1.1, "piece-count", "segment (", a.x, ",", a.y, ")-(", b.x, ",", b.y, ") was split into ", n, " edges, the element size asks for ", I);
    }
  }
  for (auto& e : pm.be)
  {
    P x = pm.v[e.a].p, y = pm.v[e.b].p; double len = geo::dist(x, y);
    double hmax = 0; for (int k = 0; k <= 20; ++k) hmax = std::max(hmax, d->size_function(V(x + (k / 20.0) * (y - x))));
    REQUIRE(len <= 2.6 * hmax, "edge-too-long", "boundary edge (", x.x, ",", x.y, ")-(", y.x, ",", y.y, ") has length ", len, ", element size at most ", hmax);
  }
  if (split > 1) s.nontrivial();
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }

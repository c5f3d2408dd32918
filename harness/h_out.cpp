// Entity connectivity and exported files over random meshing pipelines.
#include "outlib.h"
using namespace ml;

struct Pipe
{
  Spec sp; std::unique_ptr<Domain> d; std::unique_ptr<MeshGenerator> g; Mesh* m = nullptr;
  bool filled = false, refined = false;
};

static void step(pbt::Src& s, Pipe& p)
{
  Mesh& m = *p.m; MeshGenerator& g = *p.g;
  if (!p.filled)
  {
    int k = s.i(0, 3);
    if (k == 1)
    {
      auto& l = p.sp.loops[s.u(p.sp.loops.size())]; P a = s.pick(l.pts), e = s.b() ? a : s.pick(l.pts); int n = s.i(1, 3); double h = p.sp.f.h * s.g(0.05, 0.4, 7);
      s.note("layers n=", n, " h=", h, " (", a.x, ",", a.y, ")-(", e.x, ",", e.y, ")\n"); s.label("layers");
      g.quad_layer_generation(m).n_layers(n).first_height(h).growth_rate(1.2).starting_position(V(a)).ending_position(V(e)).generate_elements();
      return;
    }
    if (k == 2)
    {
      int n = s.i(1, 30); s.note("triangulate ", n, "\n"); s.label("in-portions");
      bool ok = g.triangulation(m).n_elements(n).generate_elements(); (void) ok; g.triangulation(m).n_elements(0);
      return;
    }
    s.note("triangulate\n");
    bool ok = g.triangulation(m).generate_elements();
    if (!ok || !MeshChecker(m, *p.d).check_completeness()) { s.label("reported-failure"); s.discard(); }
    p.filled = true; return;
  }
  int k = s.i(0, 4);
  s.note("post ", k, "\n");
  switch (k)
  {
    case 0: g.tri2quad_modification(m).modify(); s.label("tri2quad"); break;
    case 1: g.mixed_smoothing(m).smooth(s.i(1, 3)); break;
    case 2: g.laplace_smoothing(m).smooth(s.i(1, 3)); break;
    case 3: g.torsion_smoothing(m).smooth(s.i(1, 2)); break;
    default: if (m.n_elements() < 400) { g.quad_refinement(m).refine(); s.label("refined"); } break;
  }
}
static Pipe start(pbt::Src& s, double target = 0)
{
  quiet(); GenOpt o; o.target = target > 0 ? target : s.pick<double>({60, 150, 300});
  Pipe p; p.sp = gen_spec(s, o); s.note(show(p.sp)); classify(s, p.sp);
  p.d = make_domain(p.sp); p.g = std::make_unique<MeshGenerator>();
  p.m = &p.g->new_mesh(*p.d, p.sp.mesh_id, p.sp.color);
  return p;
}

// ------------------------------------------------------- connectivity (C15)
static void check_connectivity(Mesh& m, const char* when)
{
  try
  {
    // what every entity knows about the others, without refreshing anything
    std::map<const Vertex*, std::multiset<const Facet*>> vf; std::map<const Vertex*, std::multiset<const Edge*>> ve;
    std::map<std::pair<const Vertex*, const Vertex*>, const Facet*> side;
    auto add = [&](const Facet* f, size_t n)
    {
      for (size_t q = 0; q < n; ++q)
      {
        vf[&f->vertex(q)].insert(f);
        REQUIRE(side.insert({{&f->vertex(q), &f->vertex((q + 1) % n)}, f}).second, "side-twice", "two elements on one side of an edge");
      }
      REQUIRE(f->mesh() == &m, "element-owner", "element of another mesh");
    };
    for (const auto& q : m.quads()) add(q.get(), 4);
    for (const auto& t : m.triangles()) add(t.get(), 3);
    for (const auto& e : m.interior_edges()) { ve[&e->v1()].insert(e.get()); ve[&e->v2()].insert(e.get()); }
    for (const auto& e : m.boundary_edges()) { ve[&e->v1()].insert(e.get()); ve[&e->v2()].insert(e.get()); }
    std::set<const Vertex*> all;
    for (const auto& v : m.vertices())
    {
      all.insert(v.get());
      std::multiset<const Facet*> f; for (auto q : v->facets()) f.insert(q);
      REQUIRE(f == vf[v.get()], "vertex-elements", "vertex (", v->xy().x, ",", v->xy().y, ") knows ", f.size(), " elements instead of ", vf[v.get()].size());
      std::multiset<const Edge*> e; for (auto q : v->edges()) e.insert(q);
      REQUIRE(e == ve[v.get()], "vertex-edges", "vertex (", v->xy().x, ",", v->xy().y, ") knows ", e.size(), " edges instead of ", ve[v.get()].size());
    }
    for (auto& q : vf) REQUIRE(all.count(q.first), "foreign-vertex", "an element uses a vertex of another mesh");
    for (auto& q : ve) REQUIRE(all.count(q.first), "foreign-vertex", "an edge uses a vertex of another mesh");
    auto at = [&](const Vertex* a, const Vertex* b) -> const Facet* { auto i = side.find({a, b}); return i == side.end() ? nullptr : i->second; };
    auto norm = [](const Facet* f) -> const Facet* { return f == &NullFacet::get_instance() ? nullptr : f; };
    // after the refresh which all exports and modifications use
    MeshCleanup::assign_mesh_indices(m); MeshCleanup::setup_facet_connectivity(m);
    for (const auto& e : m.interior_edges())
      REQUIRE(norm(e->facet_l()) == at(&e->v1(), &e->v2()) && norm(e->facet_r()) == at(&e->v2(), &e->v1()), "edge-elements", "interior edge (", e->v1().xy().x, ",", e->v1().xy().y, ")-(", e->v2().xy().x, ",", e->v2().xy().y, ")");
    for (const auto& e : m.boundary_edges())
      REQUIRE(norm(e->facet_l()) == at(&e->v1(), &e->v2()), "boundary-edge-element", "boundary edge (", e->v1().xy().x, ",", e->v1().xy().y, ")-(", e->v2().xy().x, ",", e->v2().xy().y, ")");
    auto nb = [&](auto& f, size_t n)
    {
      for (size_t q = 0; q < n; ++q)
      {
        const Vertex *a = &f.vertex(q), *b = &f.vertex((q + 1) % n);
        int idx = f.get_edge_index(*a, *b);
        REQUIRE(idx >= 0 && idx == f.get_edge_index(*b, *a), "edge-index", "local edge index ", idx);
        const Facet* want = at(b, a);
        REQUIRE(norm(f.neighbor(idx)) == want, "neighbour", "element ", f.index(), " has the wrong neighbour at its edge (", a->xy().x, ",", a->xy().y, ")-(", b->xy().x, ",", b->xy().y, ")");
        REQUIRE(f.get_vertex_index(*a) == (int) q, "vertex-index", "local vertex index");
        Edge* ie = m.get_interior_edge(*a, *b); Edge* be = m.get_boundary_edge(*a, *b);
        REQUIRE((ie != nullptr) + (be != nullptr) == 1, "edge-of-side", "an element side has ", (ie != nullptr) + (be != nullptr), " edges");
      }
    };
    int k = 0;
    for (const auto& q : m.quads()) { REQUIRE(q->index() == k, "index", "quad index ", q->index()); ++k; nb(*q, 4); }
    for (const auto& t : m.triangles()) { REQUIRE(t->index() == k, "index", "triangle index ", t->index()); ++k; nb(*t, 3); }
    k = 0; for (const auto& v : m.vertices()) { REQUIRE((int) v->index() == k, "index", "vertex index"); ++k; }
    // edge metrics
    auto em = [&](const Edge& e)
    {
      P a = PT(e.v1().xy()), b = PT(e.v2().xy()); double l = geo::dist(a, b), t = 1e-9 * (l + std::fabs(a.x) + std::fabs(a.y));
      REQUIRE(std::fabs(e.length() - l) < t, "edge-length", e.length(), " instead of ", l);
      REQUIRE(geo::dist(PT(e.xy()), {(a.x + b.x) / 2, (a.y + b.y) / 2}) < t, "edge-midpoint", "");
    };
    for (const auto& e : m.interior_edges()) em(*e);
    for (const auto& e : m.boundary_edges()) em(*e);
    // the spatial index of every container finds its items where they are
    auto found = [&](auto& c, const char* what)
    { for (const auto& x : c) { double r = 1e-9 * (1 + std::fabs(x->xy().x) + std::fabs(x->xy().y)); bool ok = false; for (auto* y : c.get_items(x->xy() - Vec2d{r, r}, x->xy() + Vec2d{r, r})) ok |= y == x.get(); REQUIRE(ok, std::string("index-of-") + what, what, " at (", x->xy().x, ",", x->xy().y, ") is not found by a range query"); } };
    found(m.vertices(), "vertices"); found(m.quads(), "quads"); found(m.triangles(), "triangles");
    found(m.interior_edges().edges(), "interior-edges"); found(m.boundary_edges().edges(), "boundary-edges");
  }
  catch (pbt::Failure& f) { f.key = std::string(when) + "/" + f.key; throw; }
}
PROPERTY(connectivity)
{
  Pipe p = start(s);
  check_connectivity(*p.m, "prepared");
  int n = s.i(1, 7);
  for (int k = 0; k < n; ++k) { step(s, p); check_connectivity(*p.m, p.filled ? "filled" : "partial"); }
  if (p.m->n_elements() >= 6) s.nontrivial();
}

// ------------------------------------------------------------- files (C16, C17)
static void walk(pbt::Src& s, Pipe& p) { int n = s.i(1, 6); for (int k = 0; k < n; ++k) step(s, p); }
PROPERTY(txt)
{
  Pipe p = start(s); Scratch dir; walk(s, p);
  int rep = s.i(1, 3);
  for (int k = 0; k < rep; ++k)
  {
    Txt t = write_and_read_txt(*p.m, *p.d, dir / s.pick<std::string>({"m", "m.txt", "a.b", "m.vtu"}));
    check_txt_self(t); PM pm = extract(*p.m); check_txt_mesh(t, *p.m, pm, *p.d);
    REQUIRE(t.itf.empty(), "txt-interface", "interfaces of a single mesh");
    if (p.m->n_elements() >= 6) s.nontrivial();
    s.label(p.filled ? "filled" : "partial");
    if (k + 1 < rep) step(s, p);
  }
}
PROPERTY(vtu)
{
  Pipe p = start(s); Scratch dir; walk(s, p);
  int rep = s.i(1, 3);
  for (int k = 0; k < rep; ++k)
  {
    Vtu t = write_and_read_vtu(*p.m, *p.d, dir / s.pick<std::string>({"m", "m.vtu", "a.b", "m.txt"}));
    PM pm = extract(*p.m); check_vtu(t, *p.m, pm, *p.d);
    if (p.m->n_elements() >= 6) s.nontrivial();
    s.label(p.filled ? "filled" : "partial");
    if (k + 1 < rep) step(s, p);
  }
}
// a failed export is reported
PROPERTY(write_failure)
{
  Pipe p = start(s, 40); Scratch dir; walk(s, p);
  bool txt = s.b(); std::string ext = txt ? ".txt" : ".vtu";
  int how = s.i(0, 2); std::string f;
  if (how == 0) f = dir / "missing/m";
  if (how == 1) { f = dir / "d"; mkdir((f + ext).c_str(), 0755); }
  if (how == 2) { f = dir / "full"; (void) !symlink("/dev/full", (f + ext).c_str()); }
  s.note(txt ? "txt" : "vtu", how == 0 ? " missing directory\n" : how == 1 ? " directory in the way\n" : " device full\n");
  s.nontrivial();
  bool ok = MeshWriter(*p.m, *p.d).write(f, txt ? MeshExportType::TXT : MeshExportType::VTU);
  REQUIRE(!ok, "failed-write-reported-as-success", how);
}

// ------------------------------------------------------------------ OpenFOAM
PROPERTY(foam)
{
  Pipe p = start(s); Scratch dir; walk(s, p);
  int guard = 0; while (!p.filled && ++guard < 20) step(s, p);
  if (!p.filled) s.discard();
  Txt t = write_and_read_txt(*p.m, *p.d, dir / "m.txt");
  double z = s.b() ? 1.0 : s.pick<double>({0.25, 2.5, 0.001, 40});
  const char* repo = getenv("PBT_REPO"); const char* py = getenv("PBT_PYTHON");
  std::ostringstream c; c << (py ? py : "python3-vt") << " -B '" << (repo ? repo : "/repo") << "/scripts/convert2foam.py'";
  if (z != 1.0) c << (s.b() ? " -e " : " --extrusion ") << z;
  c << " '" << dir / "m.txt" << "' '" << dir / "foam" << "' > '" << dir / "log" << "' 2>&1";
  s.note("extrusion ", z, "\n");
  int rc = system(c.str().c_str());
  std::string lg; slurp(dir / "log", lg);
  REQUIRE(rc == 0, "conversion-failed", lg.size() > 400 ? lg.substr(lg.size() - 400) : lg);
  s.nontrivial();
  std::set<int> marker; for (auto& e : t.be) marker.insert(e[3]);
  if (marker.size() > 1) s.label("several-markers");
  if (marker.size() > 8) s.label("many-markers");
  check_foam(read_foam(dir / "foam/constant/polyMesh"), t, z);
}

// ------------------------------------------------------------------ plotting
// The script runs with a recorder in place of the plotting library; what it
// draws is compared with the file.
static std::string emit_txt(const Txt& t)
{
  std::ostringstream o; auto rows = [&](const char* n, const std::vector<std::vector<int>>& r)
  { o << n << " " << r.size() << "\n"; for (auto& x : r) for (size_t k = 0; k < x.size(); ++k) o << std::setw(4) << x[k] << (k + 1 < x.size() ? "," : "\n"); };
  o << "MESH " << t.id << "\nVERTICES " << t.v.size() << "\n" << std::fixed << std::setprecision(5);
  for (auto& q : t.v) o << q.x << "," << q.y << "\n";
  rows("INTERIOREDGES", t.ie); rows("BOUNDARYEDGES", t.be); rows("INTERFACEEDGES", t.itf); rows("FRONT", t.front); rows("QUADS", t.quads); rows("TRIANGLES", t.tris);
  rows("QUADNEIGHBORS", t.qn); rows("TRIANGLENEIGHBORS", t.tn);
  o << "SIZEFUNCTION " << t.size.size() << "\n"; for (double d : t.size) o << d << "\n";
  return o.str();
}
PROPERTY(plot)
{
  Scratch dir; std::vector<Txt> ts; int nm = s.p(1, 4) ? 2 : 1; std::string text;
  for (int k = 0; k < nm; ++k)
  {
    Pipe p = start(s, 60); walk(s, p);
    Txt t = write_and_read_txt(*p.m, *p.d, dir / ("m" + std::to_string(k) + ".txt"));
    if (k) t.id = ts[0].id + s.pick<int>({1, 7, 10});
    int nc = s.i(1, 4); std::vector<int> pal; for (int q = 0; q < nc; ++q) pal.push_back(s.i(0, 12));
    for (auto& q : t.quads) q[4] = pal[s.u(nc)]; for (auto& q : t.tris) q[3] = pal[s.u(nc)];
    if (!t.front.empty()) s.label("front-left"); if (!t.quads.empty() && !t.tris.empty()) s.label("mixed"); if (nc > 1) s.label("several-colors");
    std::string one = emit_txt(t); size_t u = 0; t = parse_txt(one, u); text += one; ts.push_back(t);
  }
  if (nm > 1) s.label("two-meshes");
  { std::ofstream f(dir / "all.txt"); f << text; }
  const char* flag[] = {"-v", "-e", "-b", "-f", "-s", "-c"}; bool on[6]; std::string fl;
  for (int k : {0, 1, 2, 3, 4, 5}) { on[k] = s.b(); if (on[k]) fl += std::string(" ") + flag[k]; }
  s.note("flags", fl, "\n");
  const char* repo = getenv("PBT_REPO"); const char* py = getenv("PBT_PYTHON"); const char* stub = getenv("PBT_STUB");
  std::ostringstream c; c << "cd '" << dir / "" << "' && PYTHONPATH='" << (stub ? stub : "/verif/harness/plotstub") << "' OPENBLAS_NUM_THREADS=1 " << (py ? py : "python3-vt") << " -B '" << (repo ? repo : "/repo") << "/scripts/plot_mesh.py' all.txt" << fl << " > log 2>&1";
  int rc = system(c.str().c_str()); std::string lg; slurp(dir / "log", lg);
  REQUIRE(rc == 0, "plot-failed", lg.size() > 400 ? lg.substr(lg.size() - 400) : lg);
  std::string rec; REQUIRE(slurp(dir / "MeshPlot.png.rec", rec), "plot-not-written", fl);
  typedef std::vector<double> D; std::multiset<D> poly, line, point, size, wpoly, wline, wpoint, wsize; std::multiset<std::pair<D, std::string>> txt, wtxt; std::map<D, std::vector<std::string>> face; double lim[4] = {1, 1, 1, 1};
  std::istringstream in(rec); std::string w, ln; bool ended = false;
  while (std::getline(in, ln))
  {
    std::istringstream l(ln); l >> w; D d; double x;
    if (w == "POLY" || w == "LINE") { std::string col; int n; l >> col >> n; for (int k = 0; k < 2 * n; ++k) { l >> x; d.push_back(x); } if (w == "POLY") { poly.insert(d); face[d].push_back(col); } else line.insert(d); }
    else if (w == "POINT") { double y; l >> x >> y; point.insert({x, y}); }
    else if (w == "SIZE") { double y, z; l >> x >> y >> z; size.insert({x, y, z}); }
    else if (w == "TEXT") { double y; std::string t; l >> x >> y >> t; txt.insert({{x, y}, t}); }
    else if (w == "LIM") { std::string a; double y; l >> a >> x >> y; lim[a == "x" ? 0 : 2] = x; lim[a == "x" ? 1 : 3] = y; }
    else if (w == "END") ended = true;
  }
  REQUIRE(ended, "plot-not-written", "recording ends early");
  double ext[4] = {1e300, -1e300, 1e300, -1e300}; std::map<D, int> colour; std::set<D> twice;
  for (auto& t : ts)
  {
    auto el = [&](const std::vector<int>& q, size_t n) { D d; for (size_t k = 0; k < n; ++k) { d.push_back(t.v[q[k]].x); d.push_back(t.v[q[k]].y); } wpoly.insert(d); if (colour.count(d) && colour[d] != q[n]) twice.insert(d); colour[d] = q[n]; return d; };
    auto mid = [&](const D& d) { double x = 0, y = 0; for (size_t k = 0; k < d.size(); k += 2) { x += d[k]; y += d[k + 1]; } return D{x / (d.size() / 2), y / (d.size() / 2)}; };
    for (size_t k = 0; k < t.quads.size(); ++k) { D d = el(t.quads[k], 4); if (on[1]) wtxt.insert({mid(d), std::to_string(k)}); }
    for (size_t k = 0; k < t.tris.size(); ++k) { D d = el(t.tris[k], 3); if (on[1]) wtxt.insert({mid(d), std::to_string(t.quads.size() + k)}); }
    auto seg = [&](const std::vector<int>& e) { wline.insert({t.v[e[0]].x, t.v[e[0]].y, t.v[e[1]].x, t.v[e[1]].y}); };
    if (on[2]) for (auto& e : t.be) seg(e);
    if (on[3]) for (auto& e : t.front) seg(e);
    for (size_t k = 0; k < t.v.size(); ++k)
    {
      if (on[0]) { wpoint.insert({t.v[k].x, t.v[k].y}); wtxt.insert({{t.v[k].x, t.v[k].y}, std::to_string(k)}); }
      if (on[4]) wsize.insert({t.v[k].x, t.v[k].y, t.size[k]});
      ext[0] = std::min(ext[0], t.v[k].x); ext[1] = std::max(ext[1], t.v[k].x); ext[2] = std::min(ext[2], t.v[k].y); ext[3] = std::max(ext[3], t.v[k].y);
    }
  }
  s.nontrivial();
  REQUIRE(poly == wpoly, "plot-elements", "drawn ", poly.size(), " polygons, the file holds ", wpoly.size(), " elements");
  REQUIRE(line == wline, "plot-edges", "drawn ", line.size(), " lines, expected ", wline.size());
  REQUIRE(point == wpoint, "plot-vertices", point.size(), " ", wpoint.size());
  REQUIRE(size == wsize, "plot-size-function", size.size(), " ", wsize.size());
  { // labels at their places, up to rounding
    auto key = [](const std::multiset<std::pair<D, std::string>>& m) { std::vector<std::tuple<std::string, long long, long long>> r; for (auto& x : m) r.push_back({x.second, llround(x.first[0] * 1e4), llround(x.first[1] * 1e4)}); std::sort(r.begin(), r.end()); return r; };
    auto a = key(txt), b = key(wtxt); REQUIRE(a.size() == b.size(), "plot-labels", a.size(), " labels, expected ", b.size());
    std::map<std::string, std::vector<D>> g; for (auto& x : txt) g[x.second].push_back(x.first);
    for (auto& x : wtxt)
    {
      auto& v = g[x.second]; bool hit = false;
      for (size_t k = 0; k < v.size() && !hit; ++k) if (std::fabs(v[k][0] - x.first[0]) <= 1e-9 * (1 + std::fabs(x.first[0])) && std::fabs(v[k][1] - x.first[1]) <= 1e-9 * (1 + std::fabs(x.first[1]))) { v.erase(v.begin() + k); hit = true; }
      REQUIRE(hit, "plot-labels", "no label ", x.second, " at (", x.first[0], ",", x.first[1], ")");
    }
  }
  if (on[5])
  { // one face colour per element colour
    std::map<int, std::string> by; std::map<std::string, int> back;
    for (auto& c2 : colour) if (!twice.count(c2.first))
      for (auto& fc : face[c2.first])
      {
        auto i = by.insert({c2.second, fc}).first; REQUIRE(i->second == fc, "plot-colors", "elements of color ", c2.second, " are drawn in ", fc, " and ", i->second);
        auto j = back.insert({fc, c2.second}).first; REQUIRE(j->second == c2.second, "plot-colors", "elements of color ", c2.second, " and ", j->second, " look the same");
      }
  }
  for (int k = 0; k < 4; ++k) REQUIRE(std::fabs(lim[k] - ext[k]) <= 1e-9 * (1 + std::fabs(ext[k])), "plot-extent", k, ": ", lim[k], " instead of ", ext[k]);
}

int main(int c, char** v) { return pbt::main_(c, v); }

// The TQMesh application: generated parameter files, the files it writes and
// its exit status, against the same problems solved through the library and
// against the geometry of the problem.
#include "outlib.h"
#include <sys/resource.h>
using namespace ml;

namespace {
enum Kind { EDGES, COORDS, RECT, CIRC, SQUARE, TRIANGLE, CSV };

struct Shape { Kind kind = COORDS; int n = 0; double x = 0, y = 0, w = 0, h = 0, ms = 0, mr = 0; };
struct Lay { P a, e; int n; double h, g; };
struct Block
{
  Spec sp;                       // loops[k] belongs to shape[k]
  std::vector<Shape> shape;
  std::vector<Lay> layers;
  int alg = 0, nref = 0, nsm = -1, sml = -1;  // -1: key left out
  bool has_color = true, has_alg = true;
  std::string prefix, fmt, expr;
  bool exact = true;             // the size expression is exact
};

std::string num(double d)
{ char b[40]; for (int p = 1; p <= 17; ++p) { snprintf(b, 40, "%.*g", p, d); if (strtod(b, nullptr) == d) break; } return b; }
// v = k / 2^q with few bits
double coarse(double v, int bits)
{ if (v == 0) return 0; int e; double m = std::frexp(v, &e); return std::ldexp(std::round(std::ldexp(m, bits)), e - bits); }
std::string frac(double v)
{
  int q = 0; double w = v; while (w != std::round(w) && q < 40) { w *= 2; ++q; }
  std::string t = "(" + std::to_string((long long) w) + "/" + std::to_string(1ll << q) + ")";
  return v < 0 ? "(0-" + frac(-v) + ")" : t;
}
// The expression has to evaluate bit for bit like the function: the expression library turns v/c into v*(1/c) and
// 1+1*(1-v) into 2-v, so b is a power of two and a is not one.
void simplify(SizeFn& f)
{
  f.h = coarse(f.h, 6); f.a = coarse(f.a, 4); f.b = f.b > 0 ? std::ldexp(1.0, (int) std::lround(std::log2(f.b))) : f.b; if (f.a == 1) f.a = 1.0625; f.c = {std::round(f.c.x * 16) / 16, std::round(f.c.y * 16) / 16};
}
std::string expression(const SizeFn& f)
{
  std::string h = frac(f.h), a = frac(f.a), x = frac(f.c.x), y = frac(f.c.y), b = frac(f.b);
  switch (f.kind)
  {
    case 1: return h + " * (1 + " + a + " * abs(x - " + x + "))";
    case 2: return h + "*(1+" + a + "*(1-exp(-((x-" + x + ")*(x-" + x + ")+(y-" + y + ")*(y-" + y + "))/(" + b + "*" + b + "))))";
    case 3: return "if (x < " + x + ", " + h + ", " + h + "*(1+" + a + "))";
    default: return h;
  }
}
Loop loop_of(const Shape& q, int color, bool ext)
{
  Loop l; l.exterior = ext; int n = q.n;
  if (q.kind == RECT || q.kind == SQUARE)
    l.pts = {{q.x - q.w / 2, q.y - q.h / 2}, {q.x + q.w / 2, q.y - q.h / 2}, {q.x + q.w / 2, q.y + q.h / 2}, {q.x - q.w / 2, q.y + q.h / 2}};
  else
  {
    double r = q.kind == TRIANGLE ? q.w / std::sqrt(3.0) : q.w;
    for (int i = 0; i < n; ++i) l.pts.push_back({q.x + r * std::cos(i * (2.0 * M_PI / n)), q.y + r * std::sin(i * (2.0 * M_PI / n))});
  }
  l.colors.assign(l.pts.size(), color); l.msize.assign(l.pts.size(), q.ms); l.mrange.assign(l.pts.size(), q.mr);
  return l;
}
Shape gen_shape(pbt::Src& s, P c, double r, double h)
{
  Shape q; q.kind = (Kind) s.i(RECT, TRIANGLE); q.x = grid64(c.x); q.y = grid64(c.y);
  q.w = q.h = grid64(r * 1.2);
  if (q.kind == RECT) { q.w = grid64(r * s.g(0.8, 1.3, 5)); q.h = grid64(r * s.g(0.8, 1.3, 5)); }
  if (q.kind == CIRC) { q.w = grid64(r * 0.9); q.n = s.i(3, 24); }
  if (q.kind == TRIANGLE) { q.n = 3; q.w = grid64(r * 1.5); }
  if (s.p(1, 3)) { q.ms = coarse(h * s.g(0.3, 1, 7), 12); q.mr = s.p(1, 4) ? 0 : coarse(h * s.g(0.5, 3, 5), 12); }
  return q;
}

// a rectangle with an array of holes of one or two kinds
Block gen_array(pbt::Src& s, int id)
{
  Block b; b.sp.mesh_id = id; b.sp.color = s.i(0, 5); int nx = s.i(1, 3), ny = s.i(1, 3); double cell = s.pick<double>({4, 1, 16}); P o{cell * s.i(-3, 3), cell * s.i(-3, 3)};
  b.sp.f.h = cell * s.pick<double>({0.5, 0.25, 0.75}); s.label("array-of-holes");
  Shape e; e.kind = s.pick<Kind>({RECT, COORDS, CSV, EDGES}); e.x = o.x + 0.5 * cell * nx; e.y = o.y + 0.5 * cell * ny; e.w = cell * nx; e.h = cell * ny;
  auto dress = [&](Shape& q, bool ext)
  {
    int col = s.i(0, 9); Shape r = q; if (q.kind == COORDS || q.kind == CSV || q.kind == EDGES) r.kind = RECT;
    Loop l = loop_of(r, col, ext); if (r.kind != q.kind) for (auto& c : l.colors) c = s.i(0, 9); l.by_edges = q.kind == EDGES;
    b.sp.loops.push_back(l); b.shape.push_back(q);
  };
  dress(e, true);
  Kind kinds[2]; for (auto& k : kinds) k = s.pick<Kind>({RECT, SQUARE, CIRC, TRIANGLE, COORDS, CSV, EDGES});
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) if (s.p(2, 3))
  {
    Shape q; q.kind = kinds[s.u(2)]; q.x = o.x + cell * (i + 0.5); q.y = o.y + cell * (j + 0.5); q.w = cell * s.pick<double>({0.5, 0.375, 0.25}); q.h = q.w;
    if (q.kind == RECT) q.h = cell * s.pick<double>({0.5, 0.375, 0.25});
    if (q.kind == CIRC) { q.w *= 0.5; q.n = s.i(3, 12); }
    if (q.kind == TRIANGLE) q.n = 3;
    if (q.kind <= TRIANGLE && q.kind >= RECT && s.p(1, 3)) { q.ms = b.sp.f.h * s.pick<double>({0.25, 0.5}); q.mr = s.p(1, 3) ? 0 : b.sp.f.h * s.pick<double>({0.5, 1}); }
    dress(q, false);
  }
  return b;
}
void sort_kinds(Block& b)
{ // the application adds interior boundaries by kind
  std::vector<size_t> ord; for (size_t k = 1; k < b.shape.size(); ++k) ord.push_back(k);
  std::stable_sort(ord.begin(), ord.end(), [&](size_t i, size_t j) { return b.shape[i].kind < b.shape[j].kind; });
  Block c = b; for (size_t k = 0; k < ord.size(); ++k) { b.sp.loops[k + 1] = c.sp.loops[ord[k]]; b.shape[k + 1] = c.shape[ord[k]]; }
}
Block gen_block(pbt::Src& s, int id, double target)
{
  if (s.p(1, 5)) { Block b = gen_array(s, id); sort_kinds(b); return b; }
  Block b; GenOpt o; o.target = target; o.translate = s.p(1, 4);
  b.sp = gen_spec(s, o); b.sp.mesh_id = id; simplify(b.sp.f);
  // shapes instead of some of the rings
  for (size_t k = 0; k < b.sp.loops.size(); ++k)
  {
    auto& l = b.sp.loops[k]; Shape q; q.kind = l.by_edges ? EDGES : s.p(1, 6) ? CSV : COORDS;
    // the rings of a problem keep clear of each other, so a hole may be replaced by a shape inside of it
    if (k > 0 && s.p(1, 2))
    {
      P c{0, 0}; for (auto& p : l.pts) { c.x += p.x / l.pts.size(); c.y += p.y / l.pts.size(); }
      double r = 1e300; for (size_t i = 0; i < l.pts.size(); ++i) r = std::min(r, geo::seg_dist(c, l.pts[i], l.pts[(i + 1) % l.pts.size()]));
      if (geo::inside(c, l.pts) && r > 0.3 * b.sp.f.h) { q = gen_shape(s, c, r, b.sp.f.h); l = loop_of(q, l.colors[0], false); }
    }
    else if (k == 0 && b.sp.loops.size() == 1 && b.sp.fixed.empty() && s.p(1, 3))
    {
      P lo, hi; b.sp.bbox(lo, hi); q = gen_shape(s, {(lo.x + hi.x) / 2, (lo.y + hi.y) / 2}, b.sp.extent() / 2, b.sp.f.h); l = loop_of(q, l.colors[0], true);
    }
    b.shape.push_back(q);
  }
  sort_kinds(b);
  return b;
}

void options(pbt::Src& s, Block& b, int k)
{
  b.alg = s.p(1, 3); b.nref = s.p(1, 5) ? 1 : 0; b.nsm = s.p(1, 3) ? s.i(0, 4) : -1; b.sml = s.p(1, 4) ? s.i(0, 1) : -1;
  b.has_color = s.p(3, 4); if (!b.has_color) b.sp.color = 0;
  b.has_alg = b.alg || s.b();
  b.prefix = "out" + std::to_string(k); b.fmt = s.pick<std::string>({"TXT", "VTU", "txt", "vtu", "COUT"});
  b.expr = expression(b.sp.f);
  if (b.sp.f.kind == 0 && s.p(1, 3)) { b.exact = false; b.expr = num(b.sp.f.h); }
  if (s.p(1, 4))
  {
    int nl = s.i(1, 2);
    for (int q = 0; q < nl; ++q)
    { auto& l = b.sp.loops[s.u(b.sp.loops.size())]; Lay y; y.a = s.pick(l.pts); y.e = s.b() ? y.a : s.pick(l.pts); y.n = s.i(1, 3); y.h = coarse(b.sp.f.h * s.g(0.05, 0.4, 7), 12); y.g = s.g(1, 1.5, 4); b.layers.push_back(y); }
  }
}

// quad tree extent that the application derives
double app_scale(const Block& b)
{
  double m = 0;
  for (size_t k = 0; k < b.shape.size(); ++k) if (b.shape[k].kind == EDGES) for (auto& p : b.sp.loops[k].pts) m = std::max(m, std::max(std::fabs(p.x), std::fabs(p.y)));
  return b.shape[0].kind == EDGES ? 2.1 * m : TQ_MAX;
}

// -------------------------------------------------------------- para text
struct Text
{
  pbt::Src& s; std::vector<std::string> out;
  std::string sp(int n = 3) { return std::string(s.u(n), ' '); }
  std::string tail() { std::string t = sp(2); if (s.p(1, 6)) t += s.pick<std::string>({" # remark", " # 1, 2, 3", "# End mesh", " # Element size: 9", " #"}); return t; }
  void noise() { while (s.p(1, 6)) out.push_back(s.b() ? sp() : sp() + s.pick<std::string>({"# remark", "#", "# Element color: 77", "# End mesh", "#---"})); }
};
std::string row(Text& t, const std::vector<std::string>& v)
{ std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += "," + t.sp(2); r += v[i]; } return r; }

void csv_file(const Loop& l, const std::string& path)
{
  std::ofstream f(path);
  for (size_t i = 0; i < l.pts.size(); ++i)
  {
    f << num(l.pts[i].x) << ", " << num(l.pts[i].y) << ", " << l.colors[i];
    if (l.msize[i] > 0) f << ", " << num(l.msize[i]) << ", " << num(l.mrange[i]);
    f << "\n";
  }
}

std::string block_text(pbt::Src& s, const Block& b, const std::string& dir, int id)
{
  Text t{s, {}};
  typedef std::vector<std::string> Sec;
  std::vector<Sec> free;                    // sections in any order
  auto scalar = [&](const std::string& k, const std::string& v) { free.push_back({t.sp(4) + k + t.sp() + v + t.tail()}); };
  scalar("Output file prefix:", (s.b() ? "./" : "") + b.prefix); scalar("Output file format:", b.fmt); scalar("Element size:", b.expr);
  if (b.has_color) scalar("Element color:", std::to_string(b.sp.color));
  if (b.has_alg) scalar("Meshing algorithm:", b.alg ? "Tri-to-Quad" : "Triangulation");
  if (b.nref || s.p(1, 3)) scalar("Number of quad refinements:", std::to_string(b.nref));
  if (b.nsm >= 0) scalar("Number of smoothing iterations:", std::to_string(b.nsm));
  if (b.sml >= 0) scalar("Smooth quad layers:", std::to_string(b.sml));
  auto matrix = [&](const std::string& name, const std::vector<std::vector<std::string>>& rows)
  {
    Sec q{t.sp(4) + "Define " + name + ":" + t.tail()};
    Text u{s, {}};
    for (auto& r : rows) { u.noise(); u.out.push_back(t.sp(5) + row(t, r) + t.tail()); }
    q.insert(q.end(), u.out.begin(), u.out.end());
    q.push_back(t.sp(4) + "End " + name + t.tail()); return q;
  };
  auto props = [&](std::vector<std::string>& r, double ms, double mr)
  { if (ms > 0) { r.push_back(num(ms)); if (mr > 0 || s.b()) r.push_back(num(mr)); } else if (s.p(1, 5)) { r.push_back("0"); r.push_back("0"); } };
  // numbered vertices: those of the boundaries, then the fixed ones
  std::vector<std::vector<std::string>> vs; std::vector<std::vector<int>> idx(b.shape.size());
  std::vector<Sec> bd;                      // boundaries, in this order among one kind
  for (size_t k = 0; k < b.shape.size(); ++k)
  {
    auto& l = b.sp.loops[k]; auto& q = b.shape[k]; std::string ei = l.exterior ? "exterior" : "interior";
    std::vector<std::vector<std::string>> rows;
    switch (q.kind)
    {
      case EDGES:
      {
        bool rev = (geo::shoelace(l.pts) > 0) != l.exterior; std::vector<P> o; std::vector<int> c; Spec::oriented(l, o, c);
        std::vector<double> ms = l.msize, mr = l.mrange; if (rev) { std::reverse(ms.begin(), ms.end()); std::reverse(mr.begin(), mr.end()); }
        int v0 = (int) vs.size(), n = (int) o.size();
        for (int i = 0; i < n; ++i) { std::vector<std::string> r{num(o[i].x), num(o[i].y)}; props(r, ms[i], mr[i]); vs.push_back(r); rows.push_back({std::to_string(v0 + i), std::to_string(v0 + (i + 1) % n), std::to_string(c[i])}); }
        bd.push_back(matrix(ei + " boundary edges", rows)); break;
      }
      case COORDS:
        for (size_t i = 0; i < l.pts.size(); ++i) { std::vector<std::string> r{num(l.pts[i].x), num(l.pts[i].y), std::to_string(l.colors[i])}; props(r, l.msize[i], l.mrange[i]); rows.push_back(r); }
        bd.push_back(matrix(ei + " boundary", rows)); break;
      case CSV:
      {
        std::string f = "bd" + std::to_string(id) + "_" + std::to_string(k) + ".csv"; csv_file(l, dir + "/" + f);
        bd.push_back({t.sp(4) + "Define " + ei + " boundary from CSV file:" + t.sp() + f + t.tail()}); break;
      }
      default:
      {
        std::vector<std::string> r{std::to_string(l.colors[0]), num(q.x), num(q.y), num(q.w)};
        if (q.kind == RECT) r.push_back(num(q.h));
        if (q.kind == CIRC) r.push_back(std::to_string(q.n));
        props(r, q.ms, q.mr);
        bd.push_back({t.sp(4) + "Define " + ei + (q.kind == RECT ? " rectangular" : q.kind == CIRC ? " circular" : q.kind == SQUARE ? " squared" : " triangular") + " boundary:" + t.sp() + row(t, r) + t.tail()});
      }
    }
  }
  int nv = (int) vs.size();
  if (vs.size()) free.push_back(matrix("boundary vertices", vs));
  if (b.sp.fixed.size() || s.p(1, 10))
  { std::vector<std::vector<std::string>> r; for (auto& f : b.sp.fixed) { std::vector<std::string> q{num(f.p.x), num(f.p.y)}; props(q, f.msize, f.mrange); r.push_back(q); } free.push_back(matrix("fixed vertices", r)); }
  if (b.sp.fedges.size())
  { std::vector<std::vector<std::string>> r; for (auto& e : b.sp.fedges) r.push_back({std::to_string(nv + e.first), std::to_string(nv + e.second)}); free.push_back(matrix("fixed edges", r)); }
  std::vector<Sec> lay; for (auto& y : b.layers) lay.push_back({t.sp(4) + "Add quad layers:" + t.sp() + row(t, {num(y.a.x), num(y.a.y), num(y.e.x), num(y.e.y), std::to_string(y.n), num(y.h), num(y.g)}) + t.tail()});
  // any interleaving of the free sections, the boundaries and the layers
  if (s.b()) for (size_t i = free.size(); i > 1; --i) std::swap(free[i - 1], free[s.u(i)]);
  std::vector<std::vector<Sec>*> lists{&free, &bd, &lay}; std::vector<size_t> at(3, 0);
  t.out.push_back(t.sp() + "Define mesh:" + t.tail());
  for (;;)
  {
    std::vector<int> open; for (int k = 0; k < 3; ++k) if (at[k] < lists[k]->size()) open.push_back(k);
    if (open.empty()) break;
    int k = open[s.p(1, 2) ? 0 : s.u(open.size())]; t.noise();
    for (auto& l : (*lists[k])[at[k]]) t.out.push_back(l); ++at[k];
  }
  t.noise(); t.out.push_back(t.sp() + "End mesh" + t.tail()); t.noise();
  std::string r; for (auto& l : t.out) r += l + "\n"; return r;
}

// -------------------------------------------------------------- library
struct Ref { std::vector<std::unique_ptr<Domain>> dom; MeshGenerator g; bool ok = true; std::vector<std::string> text; };

std::unique_ptr<Domain> domain_of(const Block& b)
{
  SizeFn f = b.sp.f; double ext = app_scale(b);
  auto d = std::make_unique<Domain>([f](const Vec2d& p) { return f(p.x, p.y); }, ext);
  std::vector<std::vector<Vertex*>> vs(b.shape.size()); std::vector<std::vector<int>> cs(b.shape.size());
  for (size_t k = 0; k < b.shape.size(); ++k)
    if (b.shape[k].kind == EDGES)
    {
      auto& l = b.sp.loops[k]; std::vector<P> q; Spec::oriented(l, q, cs[k]); std::vector<double> ms = l.msize, mr = l.mrange;
      if ((geo::shoelace(l.pts) > 0) != l.exterior) { std::reverse(ms.begin(), ms.end()); std::reverse(mr.begin(), mr.end()); }
      for (size_t i = 0; i < q.size(); ++i) vs[k].push_back(&d->add_vertex(q[i].x, q[i].y, ms[i], mr[i]));
    }
  std::vector<Vertex*> fv; for (auto& v : b.sp.fixed) fv.push_back(&d->add_fixed_vertex(v.p.x, v.p.y, v.msize, v.mrange));
  for (size_t k = 0; k < b.shape.size(); ++k)
  {
    auto& l = b.sp.loops[k]; auto& q = b.shape[k];
    Boundary& bd = l.exterior ? d->add_exterior_boundary() : d->add_interior_boundary();
    switch (q.kind)
    {
      case EDGES: for (size_t i = 0; i < vs[k].size(); ++i) bd.add_edge(*vs[k][i], *vs[k][(i + 1) % vs[k].size()], cs[k][i]); break;
      case RECT: bd.set_shape_rectangle(l.colors[0], Vec2d{q.x, q.y}, q.w, q.h, q.ms, q.mr); break;
      case SQUARE: bd.set_shape_square(l.colors[0], Vec2d{q.x, q.y}, q.w, q.ms, q.mr); break;
      case CIRC: bd.set_shape_circle(l.colors[0], Vec2d{q.x, q.y}, q.w, q.n, q.ms, q.mr); break;
      case TRIANGLE: bd.set_shape_triangle(l.colors[0], Vec2d{q.x, q.y}, q.w, q.ms, q.mr); break;
      default:
      {
        std::vector<Vec2d> xy, pr; for (size_t i = 0; i < l.pts.size(); ++i) { xy.push_back(V(l.pts[i])); pr.push_back(Vec2d{l.msize[i], l.mrange[i]}); }
        bd.set_shape_from_coordinates(xy, l.colors, pr);
      }
    }
  }
  for (auto& e : b.sp.fedges) d->add_fixed_edge(*fv[e.first], *fv[e.second]);
  return d;
}

// mesh the blocks one after the other, each takes over the previous one
void solve(Ref& r, const std::vector<Block>& bs, const std::string& dir)
{
  for (size_t k = 0; k < bs.size(); ++k)
  {
    auto& b = bs[k]; r.dom.push_back(domain_of(b)); Domain& d = *r.dom.back();
    { // not too large a mesh
      P lo, hi; b.sp.bbox(lo, hi); double n = 0, c = (hi.x - lo.x) * (hi.y - lo.y) / 1600;
      for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j)
      { P q{lo.x + (i + 0.5) * (hi.x - lo.x) / 40, lo.y + (j + 0.5) * (hi.y - lo.y) / 40}; if (b.sp.inside(q)) { double h = d.size_function(V(q)); n += c / (0.43 * h * h); } }
      if (n * (b.nref ? 4 : 1) > 6000) throw pbt::Discard{};
    }
    Mesh& m = r.g.new_mesh(d, (int) k, b.sp.color);
    for (auto& y : b.layers) r.g.quad_layer_generation(m).n_layers(y.n).first_height(y.h).growth_rate(y.g).starting_position(V(y.a)).ending_position(V(y.e)).generate_elements();
    r.ok &= r.g.triangulation(m).generate_elements();
    if (b.alg) r.g.tri2quad_modification(m).modify();
    if (k) r.ok &= r.g.merge_meshes(m, r.g.mesh(0));
    for (int q = 0; q < b.nref; ++q) r.g.quad_refinement(m).refine();
    r.g.mixed_smoothing(m).quad_layer_smoothing(b.sml == 1).smooth(b.nsm < 0 ? 2 : b.nsm);
    bool vtu = b.fmt == "VTU" || b.fmt == "vtu";
    std::string f = dir + "/ref" + std::to_string(k) + (vtu ? ".vtu" : ".txt");
    r.g.write_mesh(m, f, vtu ? MeshExportType::VTU : MeshExportType::TXT);
    std::string t; slurp(f, t); r.text.push_back(t);
    MeshChecker c{m, d}; r.ok &= c.check_completeness();
  }
}

// -------------------------------------------------------------- running it
struct Run { bool exited = false; int code = -1, sig = 0; std::string out; };
Run run_app(const std::string& dir, const std::string& arg, int cpu = 40)
{
  const char* app = getenv("PBT_APP"); if (!app) pbt::fail("harness", "PBT_APP is not set");
  fflush(nullptr); pid_t p = fork();
  if (p == 0)
  {
    if (chdir(dir.c_str())) _exit(98);
    int fd = open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
    rlimit c{(rlim_t) cpu, (rlim_t) cpu}; setrlimit(RLIMIT_CPU, &c);
    rlimit fs{256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &fs);
    if (!getenv("PBT_APP_ASAN")) { rlimit as{2ull << 30, 2ull << 30}; setrlimit(RLIMIT_AS, &as); }
    if (arg.empty()) execl(app, app, (char*) nullptr); else execl(app, app, arg.c_str(), (char*) nullptr);
    _exit(97);
  }
  int st = 0; waitpid(p, &st, 0); Run r;
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); } else r.sig = WTERMSIG(st);
  slurp(dir + "/stdout", r.out);
  REQUIRE(r.code != 97 && r.code != 98, "harness", "cannot run the application");
  REQUIRE(r.code != 77, "app-sanitizer", r.out.substr(r.out.find("ERROR") == std::string::npos ? 0 : r.out.find("ERROR")).substr(0, 1500));
  if (!r.exited) pbt::fail(r.sig == SIGXCPU || r.sig == SIGKILL ? "app-hang" : "app-crash", "the application was ended by signal ", strsignal(r.sig));
  return r;
}

LD area_of_color(const Txt& t, int c)
{
  LD a = 0;
  for (auto& q : t.quads) if (q[4] == c) a += geo::shoelace({t.v[q[0]], t.v[q[1]], t.v[q[2]], t.v[q[3]]});
  for (auto& q : t.tris) if (q[3] == c) a += geo::shoelace({t.v[q[0]], t.v[q[1]], t.v[q[2]]});
  return a;
}

// a written TXT mesh of one block against its problem, at the precision of the file
void check_problem(const Txt& t, const Block& b)
{
  check_txt_self(t);
  auto& sp = b.sp; double ext = sp.extent(), tol = 2e-5 + 1e-9 * ext;
  REQUIRE(t.front.empty(), "app-front", t.front.size(), " front edges remain");
  REQUIRE(t.id == sp.mesh_id, "app-id", "mesh ", t.id, " instead of ", sp.mesh_id);
  for (auto& q : t.quads) REQUIRE(q[4] == sp.color, "app-element-color", "quad of colour ", q[4], " instead of ", sp.color);
  for (auto& q : t.tris) REQUIRE(q[3] == sp.color, "app-element-color", "triangle of colour ", q[3], " instead of ", sp.color);
  LD a = area_of_color(t, sp.color), per = 0; for (auto& l : sp.loops) for (size_t i = 0; i < l.pts.size(); ++i) per += geo::dist(l.pts[i], l.pts[(i + 1) % l.pts.size()]);
  REQUIRE(std::fabs((double) (a - sp.area())) <= tol * (double) per + 1e-9 * ext * ext, "app-area", "the mesh covers ", (double) a, " of ", (double) sp.area());
  std::vector<Seg> segs = segments(sp); std::vector<double> cov(segs.size(), 0);
  for (auto& e : t.be)
  {
    P p = t.v[e[0]], q = t.v[e[1]]; bool hit = false;
    for (size_t k = 0; k < segs.size() && !hit; ++k)
      if (geo::seg_dist(p, segs[k].a, segs[k].b) < tol && geo::seg_dist(q, segs[k].a, segs[k].b) < tol && std::find(segs[k].c.begin(), segs[k].c.end(), e[3]) != segs[k].c.end())
      { hit = true; cov[k] += geo::dist(p, q); }
    REQUIRE(hit, "app-boundary", "boundary edge (", p.x, ",", p.y, ")-(", q.x, ",", q.y, ") of colour ", e[3], " lies on no such boundary segment");
  }
  for (auto& f : sp.fixed)
  {
    bool hit = false; for (auto& v : t.v) hit |= geo::dist(v, f.p) < tol;
    REQUIRE(hit, "app-fixed-vertex", "no vertex at (", f.p.x, ",", f.p.y, ")");
  }
  if (b.nref) REQUIRE(t.tris.empty(), "app-refinement", t.tris.size(), " triangles after refinement");
  if (!b.nref && !b.alg && b.layers.empty()) REQUIRE(t.quads.empty(), "app-algorithm", t.quads.size(), " quads in a triangulation");
}

std::string body(const std::string& out)
{ // the mesh within the output of the application
  size_t a = out.find("MESH "); while (a != std::string::npos && a > 0 && out[a - 1] != '\n') a = out.find("MESH ", a + 1);
  return a == std::string::npos ? "" : out.substr(a);
}
void describe(pbt::Src& s, const std::vector<Block>& bs)
{
  for (auto& b : bs)
  {
    classify(s, b.sp); if (b.layers.size()) s.label("quad-layers"); if (b.alg) s.label("tri-to-quad"); if (b.nref) s.label("refined");
    for (auto& q : b.shape) s.label(q.kind == EDGES ? "by-edges" : q.kind == CSV ? "from-csv" : q.kind == COORDS ? "by-coordinates" : "by-shape");
    s.label(b.fmt == "COUT" ? "to-stdout" : b.fmt == "VTU" || b.fmt == "vtu" ? "vtu" : "txt"); if (!b.exact) s.label("decimal-size");
  }
  if (bs.size() > 1) s.label("several-meshes");
}
} // namespace

// ------------------------------------------------------------------ C19
PROPERTY(app)
{
  quiet(); Scratch dir;
  std::vector<Block> bs; bs.push_back(gen_block(s, 0, 250)); options(s, bs[0], 0);
  if (bs[0].sp.loops.size() > 1 && s.p(1, 2))
  { // the first holes get meshes of their own
    int nm = bs[0].sp.loops.size() > 2 && s.b() ? 2 : 1; if (nm == 2) s.label("three-meshes");
    for (int k = 1; k <= nm; ++k)
    {
      Block b; b.sp.f = bs[0].sp.f; b.sp.loops = {bs[0].sp.loops[k]}; b.sp.loops[0].exterior = true; b.sp.mesh_id = k; b.sp.color = bs[0].sp.color + k;
      Shape q; q.kind = s.p(1, 3) ? EDGES : COORDS; b.shape = {q}; options(s, b, k); if (!b.has_color) { b.has_color = true; b.sp.color = bs[0].sp.color + k; }
      bs.back().nref = 0; bs.push_back(b);
    }
  }
  std::string text; for (size_t k = 0; k < bs.size(); ++k) { Text t{s, {}}; t.noise(); for (auto& l : t.out) text += l + "\n"; text += block_text(s, bs[k], dir.dir, (int) k); }
  for (auto& b : bs) s.note(show(b.sp)); s.note(text);
  describe(s, bs);
  Ref r; solve(r, bs, dir.dir); if (!r.ok) s.discard();
  s.nontrivial();
  { std::ofstream f(dir / "in.para"); f << text; }
  Run a = run_app(dir.dir, "in.para");
  REQUIRE(a.code == 0, "app-status", "exit status ", a.code, " although the problem can be solved: ", a.out.substr(a.out.size() > 400 ? a.out.size() - 400 : 0));
  for (size_t k = 0; k < bs.size(); ++k)
  {
    auto& b = bs[k]; std::string got; bool vtu = b.fmt == "VTU" || b.fmt == "vtu", cout_ = b.fmt == "COUT";
    bool same = true; for (size_t q = 0; q <= k; ++q) same &= bs[q].exact;
    if (cout_)
    {
      REQUIRE(!same || a.out.find(r.text[k]) != std::string::npos, "app-mesh", "mesh ", k, " on stdout is not the one of the library");
      if (bs.size() == 1) { got = body(a.out); size_t u = 0; Txt t = parse_txt(got, u); check_problem(t, b); }
      continue;
    }
    REQUIRE(slurp(dir / (b.prefix + (vtu ? ".vtu" : ".txt")), got), "app-file", "no file for mesh ", k);
    if (same) REQUIRE(got == r.text[k], "app-mesh", "the file of mesh ", k, " is not the one of the library");
    if (vtu) continue;
    size_t u = 0; Txt t = parse_txt(got, u); REQUIRE(u == got.size(), "txt-format", "trailing content");
    if (k == 0) check_problem(t, b);
    else
    {
      check_txt_self(t); REQUIRE(t.itf.empty() && t.front.empty(), "app-merge", "open edges after merging");
      for (size_t q = 0; q <= k; ++q)
      {
        double ext = bs[q].sp.extent(), per = 0; for (auto& l : bs[q].sp.loops) for (size_t i = 0; i < l.pts.size(); ++i) per += geo::dist(l.pts[i], l.pts[(i + 1) % l.pts.size()]);
        LD ar = area_of_color(t, bs[q].sp.color); bool sole = true; for (size_t j = 0; j <= k; ++j) sole &= j == q || bs[j].sp.color != bs[q].sp.color;
        if (sole) REQUIRE(std::fabs((double) (ar - bs[q].sp.area())) <= 2e-5 * per + 1e-9 * ext * ext, "app-area", "elements of colour ", bs[q].sp.color, " cover ", (double) ar, " of ", (double) bs[q].sp.area());
      }
    }
  }
}

// what cannot be done as asked for is reported by the exit status
PROPERTY(app_reject)
{
  quiet(); Scratch dir;
  double w = s.i(1, 4);
  int m = s.i(0, 16); bool second = s.p(1, 3);
  struct S { std::string k; std::vector<std::string> l; };
  std::string sz = num(w / s.i(1, 3));
  bool by_edges = m == 2 || m == 3 || s.b();
  std::vector<S> ss = {{"prefix", {"Output file prefix: out"}}, {"format", {"Output file format: " + s.pick<std::string>({"TXT", "VTU"})}}, {"size", {"Element size: " + sz}}, {"alg", {"Meshing algorithm: " + s.pick<std::string>({"Triangulation", "Tri-to-Quad"})}}};
  if (by_edges)
  {
    ss.push_back({"v", {"Define boundary vertices:", "0, 0", num(w) + ", 0", num(w) + ", " + num(w), "0, " + num(w), "End boundary vertices"}});
    ss.push_back({"e", {"Define exterior boundary edges:", "0, 1, 1", "1, 2, 1", "2, 3, 2", "3, 0, 2", "End exterior boundary edges"}});
  }
  else ss.push_back({"c", {"Define exterior boundary:", "0, 0, 1", num(w) + ", 0, 1", num(w) + ", " + num(w) + ", 1", "0, " + num(w) + ", 1", "End exterior boundary"}});
  auto sec = [&](const std::string& k) -> S& { for (auto& q : ss) if (q.k == k) return q; static S none; return none; };
  auto drop = [&](const std::string& k) { for (size_t i = 0; i < ss.size(); ++i) if (ss[i].k == k) { ss.erase(ss.begin() + i); return; } };
  std::string what; bool input_file = true, end = true; std::string arg = "in.para";
  switch (m)
  {
    case 0: what = "nothing wrong"; break;
    case 1: { std::string k = s.pick<std::string>({"prefix", "format", "size"}); drop(k); what = "no " + k; break; }
    case 2: { int r = s.i(1, 4), c = s.i(0, 1), v = s.pick<int>({4, 5, 9, -1, 1000000}); std::vector<std::string> f{std::to_string(r - 1), std::to_string(r % 4)}; f[c] = std::to_string(v); sec("e").l[r] = f[0] + ", " + f[1] + ", 1"; what = "vertex index out of range"; break; }
    case 3: { int v = s.pick<int>({4, 7, -2}); ss.push_back({"x", {"Define " + std::string(s.b() ? "interior boundary" : "fixed") + " edges:", "0, " + std::to_string(v) + ", 1", "End interior boundary edges"}}); if (ss.back().l[0].find("fixed") != std::string::npos) ss.back().l = {"Define fixed edges:", "0, " + std::to_string(v), "End fixed edges"}; what = "vertex index out of range"; break; }
    case 4: sec("alg").l[0] = "Meshing algorithm: " + s.pick<std::string>({"Paving", "triangulation", "Tri2Quad"}); what = "unknown algorithm"; break;
    case 5: sec("size").l[0] = "Element size: " + s.pick<std::string>({"0.1 +", "foo", "0.2*z", "sin(", "2 3 )", ""}); what = "size function is no expression"; break;
    case 6: sec("prefix").l[0] = "Output file prefix: " + s.pick<std::string>({"no/such/dir/out", "./missing/out"}); what = "output cannot be written"; break;
    case 7: input_file = false; what = "no input file"; break;
    case 8: ss.push_back({"x", {std::string("Define interior boundary from CSV file: ") + "none.csv"}}); what = "no CSV file"; break;
    case 9: if (by_edges) { drop("v"); what = "no vertices"; } else { drop("c"); what = "no boundary"; } break;
    case 10: if (by_edges) { sec("e").l[2] = ""; what = "open boundary"; } else { sec("c").l[1] = "0, 0, -3"; what = "negative colour"; } break;
    case 11: end = false; what = "the block does not end"; break;
    case 12: sec("size").l[0] = "Element size: " + s.pick<std::string>({"0", "-1", "0/0", "0-0.5"}); what = "size is not positive"; break;
    case 14: { std::string k = by_edges ? s.pick<std::string>({"v", "e"}) : "c"; sec(k).l.pop_back(); what = "a list does not end"; break; }
    case 15: what = "no mesh"; second = false; break;
    case 16: sec("prefix").l[0] = "Output file prefix:"; what = "empty prefix"; break;
    default: ss.push_back({"x", {"Define interior boundary:", "0.25, 0.25, 1", "0.5, 0.25, " + s.pick<std::string>({"-1", "", "x"}), "0.25, 0.5, 1", "End interior boundary"}}); what = "invalid colour";
  }
  std::string text = "Define mesh:\n"; for (auto& q : ss) for (auto& l : q.l) text += "  " + l + "\n"; if (end) text += "End mesh\n"; if (m == 15) text = s.pick<std::string>({"", "\n", "# Define mesh:\n# End mesh\n", "End mesh\n"});
  if (second && m != 7)
  { // after a valid mesh on the other side of x = 0
    s.label("second-mesh"); std::string W = num(w);
    text = "Define mesh:\n Output file prefix: first\n Output file format: TXT\n Element size: " + num(w / 2) + "\n Define exterior boundary:\n 0, 0, 1\n 0, " + W + ", 1\n -" + W + ", " + W + ", 1\n -" + W + ", 0, 1\n End exterior boundary\nEnd mesh\n" + text;
  }
  s.note(what, "\n", text); s.label(what.substr(0, 40).c_str()); if (m) s.nontrivial();
  if (input_file) { std::ofstream f(dir / "in.para"); f << text; }
  Run a = run_app(dir.dir, arg, 20);
  std::string out; bool file = slurp(dir / "out.txt", out) || slurp(dir / "out.vtu", out);
  if (m == 0) { REQUIRE(a.code == 0 && file, "app-status", "exit status ", a.code, " for a valid problem"); return; }
  REQUIRE(a.code != 0, "app-accepts", "exit status 0 although: ", what);
}

int main(int c, char** v) { return pbt::main_(c, v); }

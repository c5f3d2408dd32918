// Readers for the mesh files, written against the documented formats only, and
// the comparison of a file with the mesh it was written from.
#pragma once
#include "meshlib.h"
#include <array>

namespace ml {

// a private directory of the running case
struct Scratch
{
  std::string dir;
  Scratch()
  {
    const char* base = getenv("PBT_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/pbt.XXXXXX";
    std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) pbt::fail("harness", "no scratch directory");
    dir = b.data();
  }
  ~Scratch() { clear(dir); }
  std::string operator/(const std::string& f) const { return dir + "/" + f; }
  static void clear(const std::string& d)
  {
    if (d.find("/pbt.") == std::string::npos) return;
    std::string c = "find '" + d + "' -depth -delete 2>/dev/null"; (void) !system(c.c_str());
  }
};

inline bool slurp(const std::string& f, std::string& out)
{
  std::ifstream i(f, std::ios::binary); if (!i) return false;
  out.assign((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); return true;
}

// ------------------------------------------------------------------- TXT
struct Txt
{
  int id = 0;
  std::vector<P> v;
  std::vector<std::vector<int>> ie, be, itf, front, quads, tris, qn, tn;
  std::vector<double> size;
};

inline Txt parse_txt(const std::string& text, size_t& used)
{
  Txt r; std::istringstream in(text.substr(used)); std::string line;
  auto fail = [&](const std::string& w) { pbt::fail("txt-format", w, ": '", line, "'"); };
  auto head = [&](const char* name) -> long
  {
    if (!std::getline(in, line)) fail(std::string("missing section ") + name);
    std::istringstream l(line); std::string w; long n = -1; std::string rest;
    if (!(l >> w >> n) || w != name || (l >> rest)) fail(std::string("expected section ") + name);
    return n;
  };
  auto rows = [&](const char* name, size_t cols, std::vector<std::vector<int>>& out)
  {
    long n = head(name); if (n < 0) fail("negative count");
    for (long k = 0; k < n; ++k)
    {
      if (!std::getline(in, line)) fail("section ends early");
      std::vector<int> row; std::istringstream l(line); std::string f;
      while (std::getline(l, f, ','))
      { char* e = nullptr; long q = strtol(f.c_str(), &e, 10); while (*e == ' ') ++e; if (*e || e == f.c_str()) fail("not an integer"); row.push_back((int) q); }
      if (row.size() != cols) fail("wrong number of columns in " + std::string(name));
      out.push_back(row);
    }
  };
  auto num = [&](const std::string& f) { char* e = nullptr; double d = strtod(f.c_str(), &e); if (*e || e == f.c_str()) fail("not a number"); return d; };
  r.id = (int) head("MESH");
  long n = head("VERTICES");
  for (long k = 0; k < n; ++k)
  {
    if (!std::getline(in, line)) fail("section ends early");
    size_t c = line.find(','); if (c == std::string::npos) fail("vertex without two coordinates");
    r.v.push_back({num(line.substr(0, c)), num(line.substr(c + 1))});
  }
  rows("INTERIOREDGES", 4, r.ie); rows("BOUNDARYEDGES", 4, r.be); rows("INTERFACEEDGES", 5, r.itf); rows("FRONT", 3, r.front);
  rows("QUADS", 5, r.quads); rows("TRIANGLES", 4, r.tris); rows("QUADNEIGHBORS", 4, r.qn); rows("TRIANGLENEIGHBORS", 3, r.tn);
  n = head("SIZEFUNCTION");
  for (long k = 0; k < n; ++k) { if (!std::getline(in, line)) fail("section ends early"); r.size.push_back(num(line)); }
  std::streamoff p = in.tellg(); used = p < 0 ? text.size() : used + (size_t) p;
  return r;
}

inline double dec5(double v) { return 0.5000001e-5 + 1e-15 * std::fabs(v); }

// the file on its own: indices, neighbours and edges agree with its elements
inline void check_txt_self(const Txt& t)
{
  int nv = (int) t.v.size(), nq = (int) t.quads.size(), ne = nq + (int) t.tris.size();
  std::vector<std::vector<int>> el;
  for (auto& q : t.quads) el.push_back({q[0], q[1], q[2], q[3]});
  for (auto& q : t.tris) el.push_back({q[0], q[1], q[2]});
  std::map<std::pair<int,int>, int> side;
  for (int k = 0; k < ne; ++k)
    for (size_t q = 0; q < el[k].size(); ++q)
    {
      int a = el[k][q], b = el[k][(q + 1) % el[k].size()];
      REQUIRE(a >= 0 && a < nv, "txt-index", "element ", k, " uses vertex ", a, " of ", nv);
      REQUIRE(side.insert({{a, b}, k}).second, "txt-side", "two elements on one side of ", a, "-", b);
    }
  auto el_at = [&](int a, int b) { auto i = side.find({a, b}); return i == side.end() ? -1 : i->second; };
  REQUIRE(t.qn.size() == t.quads.size() && t.tn.size() == t.tris.size(), "txt-counts", "neighbour sections");
  REQUIRE(t.size.size() == t.v.size(), "txt-counts", "size function section");
  for (int k = 0; k < ne; ++k)
  {
    auto& nb = k < nq ? t.qn[k] : t.tn[k - nq]; size_t n = el[k].size();
    for (size_t q = 0; q < n; ++q)
    { // the q-th neighbour lies behind the side that starts at local vertex q+1
      int want = el_at(el[k][(q + 2) % n], el[k][(q + 1) % n]);
      REQUIRE(nb[q] == want, "txt-neighbour", "element ", k, " lists neighbour ", nb[q], " at position ", q, " instead of ", want);
    }
  }
  std::set<std::pair<int,int>> inner;
  for (auto& e : t.ie)
  {
    REQUIRE(e[2] == el_at(e[0], e[1]) && e[3] == el_at(e[1], e[0]) && e[2] >= 0 && e[3] >= 0, "txt-interior-edge",
            "edge ", e[0], "-", e[1], " lists elements ", e[2], ",", e[3], " instead of ", el_at(e[0], e[1]), ",", el_at(e[1], e[0]));
    REQUIRE(inner.insert(std::minmax(e[0], e[1])).second, "txt-interior-edge", "listed twice");
  }
  size_t want_inner = 0; for (auto& s : side) want_inner += s.first.first < s.first.second && side.count({s.first.second, s.first.first});
  REQUIRE(inner.size() == want_inner, "txt-interior-edge", inner.size(), " interior edges, ", want_inner, " shared sides");
  std::set<std::pair<int,int>> bd;
  for (auto& e : t.be)
  {
    REQUIRE(e[2] == el_at(e[0], e[1]) && e[2] >= 0, "txt-boundary-edge", "edge ", e[0], "-", e[1], " lists element ", e[2], " instead of ", el_at(e[0], e[1]));
    REQUIRE(bd.insert({e[0], e[1]}).second, "txt-boundary-edge", "listed twice");
  }
  for (auto& e : t.front)
    REQUIRE(e[2] == -1 && (el_at(e[0], e[1]) < 0 || el_at(e[1], e[0]) < 0), "txt-front-edge", "edge ", e[0], "-", e[1], " is no front edge");
}

// the file against the mesh
inline void check_txt_mesh(const Txt& t, Mesh& m, const PM& pm, const Domain& d)
{
  REQUIRE(t.id == m.id(), "txt-id", t.id);
  REQUIRE(t.v.size() == pm.v.size(), "txt-counts", t.v.size(), " of ", pm.v.size(), " vertices");
  for (size_t k = 0; k < pm.v.size(); ++k)
  {
    P p = pm.v[k].p;
    REQUIRE(std::fabs(t.v[k].x - p.x) <= dec5(p.x) && std::fabs(t.v[k].y - p.y) <= dec5(p.y), "txt-vertex", "vertex ", k, " (", p.x, ",", p.y, ") is written as (", t.v[k].x, ",", t.v[k].y, ")");
    double f = d.size_function(V(p));
    REQUIRE(std::fabs(t.size[k] - f) <= dec5(f) + 1e-9 * f, "txt-size", "vertex ", k, " has size ", f, " written as ", t.size[k]);
  }
  REQUIRE((int) t.quads.size() == pm.nq && (int) t.tris.size() == pm.nt, "txt-counts", "elements");
  for (int k = 0; k < pm.nq + pm.nt; ++k)
  {
    auto row = k < pm.nq ? t.quads[k] : t.tris[k - pm.nq]; auto want = pm.e[k].v; want.push_back(pm.e[k].color);
    REQUIRE(row == want, "txt-element", "element ", k, " differs from the mesh");
  }
  // boundary edges with their colours; the rest is front
  std::multiset<std::array<int,3>> a, b; std::multiset<std::pair<int,int>> fa, fb;
  for (auto& e : t.be) a.insert({e[0], e[1], e[3]});
  for (auto& e : t.front) fa.insert(std::minmax(e[0], e[1]));
  std::set<std::pair<int,int>> side;
  for (auto& e : pm.e) for (size_t q = 0; q < e.v.size(); ++q) side.insert({e.v[q], e.v[(q + 1) % e.v.size()]});
  for (auto& e : pm.be) if (side.count({e.a, e.b})) b.insert({e.a, e.b, e.color}); else fb.insert(std::minmax(e.a, e.b));
  for (auto& e : pm.ie) if (!side.count({e.a, e.b}) || !side.count({e.b, e.a})) fb.insert(std::minmax(e.a, e.b));
  REQUIRE(a == b, "txt-boundary", "the boundary edges of the file are not those of the mesh");
  REQUIRE(fa == fb, "txt-front", "the front edges of the file are not those of the mesh");
}

// the element of a mesh on the left of a directed pair of positions, by geometry
struct ElemAt { int index = -1, color = -1; };
inline std::map<std::pair<std::pair<double,double>, std::pair<double,double>>, ElemAt> sides_xy(Mesh& m)
{
  std::map<std::pair<std::pair<double,double>, std::pair<double,double>>, ElemAt> r; int k = 0;
  auto add = [&](auto& f, int n)
  { for (int q = 0; q < n; ++q) { auto& a = f.vertex(q).xy(); auto& b = f.vertex((q + 1) % n).xy(); r[{{a.x, a.y}, {b.x, b.y}}] = {k, f.color()}; } ++k; };
  for (const auto& q : m.quads()) add(*q, 4);
  for (const auto& t : m.triangles()) add(*t, 3);
  return r;
}

inline Txt write_and_read_txt(Mesh& m, const Domain& d, const std::string& path)
{
  MeshWriter w(m, d);
  bool ok = w.write(path, MeshExportType::TXT);
  REQUIRE(ok, "txt-write", "write() returned false");
  std::string full = path; if (full.size() < 4 || full.substr(full.size() - 4) != ".txt") full += ".txt";
  std::string text; REQUIRE(slurp(full, text), "txt-write", "no file ", full);
  size_t used = 0; Txt t = parse_txt(text, used);
  REQUIRE(used == text.size(), "txt-format", "trailing content");
  return t;
}

// ------------------------------------------------------------------- VTU
struct Vtu { size_t np = 0, nc = 0; std::map<std::string, std::vector<double>> pd, cd; std::vector<double> pts, conn, off, types; std::map<std::string, std::string> type; };

inline Vtu parse_vtu(const std::string& x)
{
  Vtu r; size_t i = 0; std::vector<std::string> stack;
  std::string array; std::vector<double>* into = nullptr;
  auto attr = [](const std::string& tag, const std::string& n) -> std::string
  { size_t k = tag.find(" " + n + "=\""); if (k == std::string::npos) return ""; k += n.size() + 3; return tag.substr(k, tag.find('"', k) - k); };
  while (i < x.size())
  {
    if (x[i] != '<')
    {
      size_t e = x.find('<', i); if (e == std::string::npos) e = x.size();
      std::string body = x.substr(i, e - i);
      if (into)
      { std::istringstream b(body); std::string w; while (b >> w) { char* q; double d = strtod(w.c_str(), &q); REQUIRE(!*q, "vtu-format", "not a number: ", w); into->push_back(d); } }
      else for (char c : body) REQUIRE(isspace((unsigned char) c), "vtu-format", "text outside of a data array");
      i = e; continue;
    }
    size_t e = x.find('>', i); REQUIRE(e != std::string::npos, "vtu-format", "unterminated tag");
    std::string tag = x.substr(i + 1, e - i - 1); i = e + 1;
    if (tag[0] == '/')
    {
      REQUIRE(!stack.empty() && stack.back() == tag.substr(1), "vtu-format", "unexpected </", tag.substr(1), ">");
      stack.pop_back(); into = nullptr; continue;
    }
    std::string name = tag.substr(0, tag.find(' '));
    if (tag.back() == '/') continue;
    stack.push_back(name);
    if (name == "Piece") { r.np = strtoul(attr(tag, "NumberOfPoints").c_str(), 0, 10); r.nc = strtoul(attr(tag, "NumberOfCells").c_str(), 0, 10); }
    if (name == "DataArray")
    {
      std::string parent = stack.size() > 1 ? stack[stack.size() - 2] : "", an = attr(tag, "Name");
      if (parent == "PointData") into = &r.pd[an];
      else if (parent == "CellData") into = &r.cd[an];
      else if (parent == "Points") { into = &r.pts; REQUIRE(attr(tag, "NumberOfComponents") == "3", "vtu-format", "points need 3 components"); }
      else if (parent == "Cells") into = an == "connectivity" ? &r.conn : an == "offsets" ? &r.off : an == "types" ? &r.types : nullptr;
      REQUIRE(into && into->empty(), "vtu-format", "unexpected data array ", an, " in ", parent);
      r.type[parent + "/" + an] = attr(tag, "type");
    }
  }
  REQUIRE(stack.empty(), "vtu-format", "unclosed tag");
  return r;
}

inline void check_vtu(const Vtu& t, Mesh& m, const PM& pm, const Domain& d)
{
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * std::max(std::fabs(b), 1e-5) + 1e-9; };
  REQUIRE(t.np == pm.v.size() && t.nc == pm.e.size(), "vtu-counts", t.np, " points, ", t.nc, " cells");
  REQUIRE(t.pts.size() == 3 * t.np && t.off.size() == t.nc && t.types.size() == t.nc, "vtu-counts", "array lengths");
  for (auto& q : t.pd) REQUIRE(q.second.size() == t.np, "vtu-counts", "point data ", q.first);
  for (auto& q : t.cd) REQUIRE(q.second.size() == t.nc, "vtu-counts", "cell data ", q.first);
  auto pd = [&](const char* n) -> const std::vector<double>& { auto i = t.pd.find(n); REQUIRE(i != t.pd.end(), "vtu-data", "no point data ", n); return i->second; };
  auto cd = [&](const char* n) -> const std::vector<double>& { auto i = t.cd.find(n); REQUIRE(i != t.cd.end(), "vtu-data", "no cell data ", n); return i->second; };
  auto &sf = pd("size_function"), &ql = pd("in_quad_layer"), &fv = pd("fixed_vertices");
  for (size_t k = 0; k < t.np; ++k)
  {
    P p = pm.v[k].p;
    REQUIRE(std::fabs(t.pts[3 * k] - p.x) <= dec5(p.x) && std::fabs(t.pts[3 * k + 1] - p.y) <= dec5(p.y) && t.pts[3 * k + 2] == 0, "vtu-vertex", "vertex ", k, " (", p.x, ",", p.y, ") is written as (", t.pts[3 * k], ",", t.pts[3 * k + 1], ")");
    REQUIRE(near(sf[k], d.size_function(V(p))), "vtu-size", "vertex ", k, " ", sf[k]);
    REQUIRE(ql[k] == pm.v[k].layer, "vtu-quad-layer", "vertex ", k);
    REQUIRE(fv[k] == pm.v[k].fixed, "vtu-fixed", "vertex ", k);
  }
  auto &co = cd("element_color"), &el = cd("edge_length"), &ma = cd("max_angle"), &cq = cd("cell_quality");
  size_t at = 0; std::vector<double> qual;
  for (const auto& q : m.quads()) qual.push_back(q->quality(d.size_function(q->xy())));
  for (const auto& q : m.triangles()) qual.push_back(q->quality(d.size_function(q->xy())));
  for (size_t k = 0; k < t.nc; ++k)
  {
    const Elem& e = pm.e[k]; size_t n = e.v.size();
    REQUIRE(t.off[k] == at + n, "vtu-offset", "cell ", k);
    REQUIRE(t.types[k] == (n == 4 ? 9 : 5), "vtu-type", "cell ", k);
    REQUIRE(t.conn.size() >= at + n, "vtu-counts", "connectivity too short");
    double len = 0, ang = 0;
    for (size_t q = 0; q < n; ++q)
    {
      REQUIRE(t.conn[at + q] == e.v[q], "vtu-connectivity", "cell ", k);
      P a = pm.v[e.v[q]].p, b = pm.v[e.v[(q + 1) % n]].p, c = pm.v[e.v[(q + n - 1) % n]].p;
      len = std::max(len, geo::dist(a, b));
      double w = std::atan2((double) geo::cross3(a, b, c), (double) geo::dot3(a, b, c)); w = std::fabs(w);
      ang = std::max(ang, w * 180 / M_PI);
    }
    at += n;
    REQUIRE(co[k] == e.color, "vtu-colour", "cell ", k, " ", co[k]);
    REQUIRE(near(el[k], len), "vtu-edge-length", "cell ", k, " ", el[k], " instead of ", len);
    REQUIRE(std::fabs(ma[k] - ang) < 1e-3 || std::fabs(ma[k] - (360 - ang)) < 1e-3 || n == 4, "vtu-max-angle", "cell ", k, " ", ma[k], " instead of ", ang);
    REQUIRE(near(cq[k], qual[k]), "vtu-quality", "cell ", k, " ", cq[k], " instead of ", qual[k]);
  }
  REQUIRE(t.conn.size() == at, "vtu-counts", "connectivity too long");
  for (auto& q : t.type) REQUIRE(!q.second.empty(), "vtu-format", "data array ", q.first, " without type");
}

inline Vtu write_and_read_vtu(Mesh& m, const Domain& d, const std::string& path)
{
  MeshWriter w(m, d);
  bool ok = w.write(path, MeshExportType::VTU);
  REQUIRE(ok, "vtu-write", "write() returned false");
  std::string full = path; if (full.size() < 4 || full.substr(full.size() - 4) != ".vtu") full += ".vtu";
  std::string text; REQUIRE(slurp(full, text), "vtu-write", "no file ", full);
  return parse_vtu(text);
}

// ---------------------------------------------------------------- OpenFOAM
struct Foam { std::vector<std::array<double,3>> pts; std::vector<std::vector<int>> faces; std::vector<int> owner, nbr; struct Pa { std::string name; int n, start; }; std::vector<Pa> patch; };

inline Foam read_foam(const std::string& dir)
{
  Foam f;
  auto body = [&](const std::string& n) -> std::string
  {
    std::string t; REQUIRE(slurp(dir + "/" + n, t), "foam-file", "no file ", n);
    size_t k = t.find('}'); REQUIRE(t.compare(0, 8, "FoamFile") == 0 && k != std::string::npos, "foam-format", "header of ", n);
    REQUIRE(t.find("object      " + n + ";") != std::string::npos, "foam-format", "object of ", n);
    t = t.substr(k + 1); return t;
  };
  auto open = [&](std::istringstream& in, const std::string& n) -> long
  { long c = -1; char p = 0; in >> c >> p; REQUIRE(c >= 0 && p == '(', "foam-format", "list in ", n); return c; };
  auto close = [&](std::istringstream& in, const std::string& n)
  { std::string w, r; in >> w; REQUIRE(w == ")" && !(in >> r), "foam-format", "end of list in ", n, " (count does not match)"); };
  { std::istringstream in(body("points")); long n = open(in, "points"); char c;
    for (long k = 0; k < n; ++k) { std::array<double,3> p; in >> c; REQUIRE(c == '(', "foam-format", "point"); in >> p[0] >> p[1] >> p[2] >> c; REQUIRE(in && c == ')', "foam-format", "point ", k); f.pts.push_back(p); }
    close(in, "points"); }
  { std::istringstream in(body("faces")); long n = open(in, "faces"); char c;
    for (long k = 0; k < n; ++k) { int q; in >> q >> c; REQUIRE(in && c == '(' && (q == 3 || q == 4), "foam-format", "face ", k); std::vector<int> v(q); for (int& w : v) in >> w; in >> c; REQUIRE(in && c == ')', "foam-format", "face ", k); f.faces.push_back(v); }
    close(in, "faces"); }
  for (int w = 0; w < 2; ++w)
  { std::string n = w ? "neighbour" : "owner"; std::istringstream in(body(n)); long c = open(in, n); for (long k = 0; k < c; ++k) { int q; in >> q; REQUIRE((bool) in, "foam-format", n); (w ? f.nbr : f.owner).push_back(q); } close(in, n); }
  { std::istringstream in(body("boundary")); long n = open(in, "boundary");
    for (long k = 0; k < n; ++k)
    {
      Foam::Pa p; p.n = p.start = -1; std::string w; in >> p.name >> w; REQUIRE(w == "{", "foam-format", "patch ", p.name);
      while (in >> w && w != "}") { std::string val; in >> val; if (w == "nFaces") p.n = atoi(val.c_str()); if (w == "startFace") p.start = atoi(val.c_str()); }
      REQUIRE(p.n >= 0 && p.start >= 0, "foam-format", "patch ", p.name); f.patch.push_back(p);
    }
    close(in, "boundary"); }
  return f;
}

// a valid polyhedral mesh that is the extruded mesh of the file
inline void check_foam(const Foam& f, const Txt& t, double z)
{
  int nv = (int) t.v.size(), nq = (int) t.quads.size(), nc = nq + (int) t.tris.size();
  REQUIRE((int) f.pts.size() == 2 * nv, "foam-points", f.pts.size(), " points");
  for (int k = 0; k < nv; ++k)
    for (int l = 0; l < 2; ++l)
    {
      auto& p = f.pts[k + l * nv];
      REQUIRE(std::fabs(p[0] - t.v[k].x) < 1e-9 * std::fabs(p[0]) + 1e-9 && std::fabs(p[1] - t.v[k].y) < 1e-9 * std::fabs(p[1]) + 1e-9 && std::fabs(p[2] - l * z) < 1e-9 * z, "foam-points",
              "vertex ", k, " (", t.v[k].x, ",", t.v[k].y, ") became (", p[0], ",", p[1], ",", p[2], ")");
    }
  size_t nf = f.faces.size(), ni = f.nbr.size();
  REQUIRE(f.owner.size() == nf, "foam-owner", f.owner.size(), " owners of ", nf, " faces");
  REQUIRE(ni == t.ie.size() && nf == t.ie.size() + t.be.size() + 2 * (size_t) nc, "foam-faces", nf, " faces, ", ni, " interior");
  auto elem = [&](int k) { std::vector<int> v = k < nq ? t.quads[k] : t.tris[k - nq]; v.pop_back(); return v; };
  // every face is a face of its owner, pointing outwards, and of its neighbour, pointing inwards
  auto canon = [](std::vector<int> v) { std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); return v; };
  std::map<std::vector<int>, int> cellface; // outward face of an extruded cell -> cell
  for (int k = 0; k < nc; ++k)
  {
    auto v = elem(k); size_t n = v.size();
    std::vector<int> base(v.rbegin(), v.rend()), top; for (int q : v) top.push_back(q + nv);
    cellface[canon(base)] = k; cellface[canon(top)] = k;
    for (size_t q = 0; q < n; ++q) { int a = v[q], b = v[(q + 1) % n]; cellface[canon({a, b, b + nv, a + nv})] = k; }
  }
  std::set<std::vector<int>> seen;
  for (size_t k = 0; k < nf; ++k)
  {
    for (int q : f.faces[k]) REQUIRE(q >= 0 && q < 2 * nv, "foam-index", "face ", k);
    auto c = canon(f.faces[k]); auto it = cellface.find(c);
    REQUIRE(it != cellface.end() && it->second == f.owner[k], "foam-face-orientation", "face ", k, " is no outward face of its owner ", f.owner[k]);
    REQUIRE(seen.insert(c).second, "foam-face-twice", "face ", k);
    auto r = f.faces[k]; std::reverse(r.begin(), r.end()); auto jt = cellface.find(canon(r));
    if (k < ni)
    {
      REQUIRE(jt != cellface.end() && jt->second == f.nbr[k], "foam-neighbour", "face ", k);
      REQUIRE(f.owner[k] < f.nbr[k], "foam-owner-order", "face ", k, " owner ", f.owner[k], " neighbour ", f.nbr[k]);
      if (k) REQUIRE(std::make_pair(f.owner[k - 1], f.nbr[k - 1]) < std::make_pair(f.owner[k], f.nbr[k]), "foam-upper-triangular", "faces ", k - 1, ",", k, ": (", f.owner[k - 1], ",", f.nbr[k - 1], ") before (", f.owner[k], ",", f.nbr[k], ")");
    }
    else REQUIRE(jt == cellface.end(), "foam-boundary-face", "face ", k, " is an inner face");
  }
  // patches: consecutive, complete, one per marker in ascending order, then base and top
  std::map<int, std::set<std::pair<int,int>>> marker; for (auto& e : t.be) marker[e[3]].insert({e[0], e[1]});
  REQUIRE(f.patch.size() == marker.size() + 2, "foam-patches", f.patch.size(), " patches for ", marker.size(), " markers");
  size_t at = ni, k = 0; std::set<std::string> names;
  for (auto& m : marker)
  {
    auto& p = f.patch[k++];
    REQUIRE((size_t) p.start == at && (size_t) p.n == m.second.size(), "foam-patch", p.name, " starts at ", p.start, " with ", p.n, " faces; expected ", at, " and ", m.second.size(), " for marker ", m.first);
    for (int q = p.start; q < p.start + p.n; ++q)
    {
      std::vector<int> b; for (int w : f.faces[q]) if (w < nv) b.push_back(w);
      bool ok = b.size() == 2 && (m.second.count({b[0], b[1]}) || m.second.count({b[1], b[0]}));
      REQUIRE(ok, "foam-patch-face", "face ", q, " of ", p.name, " does not carry marker ", m.first);
    }
    at += p.n; REQUIRE(names.insert(p.name).second, "foam-patch", "name ", p.name);
  }
  for (int l = 0; l < 2; ++l)
  {
    auto& p = f.patch[k++];
    REQUIRE((size_t) p.start == at && p.n == nc, "foam-patch", p.name);
    for (int q = p.start; q < p.start + p.n; ++q) for (int w : f.faces[q]) REQUIRE((w >= nv) == (l == 1), "foam-patch-face", "face ", q, " of ", p.name);
    at += p.n; REQUIRE(names.insert(p.name).second, "foam-patch", "name ", p.name);
  }
  REQUIRE(at == nf, "foam-patches", "not all boundary faces belong to a patch");
}
} // namespace ml

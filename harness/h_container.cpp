// Spatial index (quad tree + container): histories against a brute force model.
#include "meshlib.h"
using namespace ml;

struct Item { P p; double tag; };
typedef std::map<Vertex*, Item> Model;

static double coord(pbt::Src& s, int kind, double L)
{
  switch (kind)
  {
    case 0: return L * (s.i(-8, 8) / 16.0);             // quad corners and centres
    case 1: return L * (s.i(-500, 500) / 1000.0);       // arbitrary decimals
    case 2: return L * (0.25 + s.i(-20, 20) * 1e-5);    // a dense cluster
    default: return L * (s.i(-4, 4) / 8.0) + (s.i(-1, 1)) * 1e-9 * L;
  }
}
static P point(pbt::Src& s, double L)
{ int k = s.i(0, 3); double x = coord(s, k, L); int k2 = s.p(1, 4) ? s.i(0, 3) : k; return {x, coord(s, k2, L)}; }

static void check_rect(const Vertices& c, const Model& m, P lo, P hi, double L)
{
  auto f = c.get_items(V(lo), V(hi));
  std::set<Vertex*> got(f.begin(), f.end()), want;
  for (auto& i : m) { P p = i.second.p; if (std::max(std::fabs(p.x), std::fabs(p.y)) > L / 2) continue;
    if (p.x >= lo.x && p.x <= hi.x && p.y >= lo.y && p.y <= hi.y) want.insert(i.first); }
  REQUIRE(got.size() == f.size(), "duplicate-result", "rectangle query returned an item twice");
  for (auto q : got) REQUIRE(m.count(q), "stale-item", "rectangle query returned an item that is not stored");
  REQUIRE(got == want, "rect-query", "rectangle (", lo.x, ",", lo.y, ")-(", hi.x, ",", hi.y, ") returned ", got.size(), " items, ", want.size(), " are inside");
}
static void check_circ(const Vertices& c, const Model& m, P q, double r, double L)
{
  auto f = c.get_items(V(q), r);
  std::set<Vertex*> got(f.begin(), f.end());
  REQUIRE(got.size() == f.size(), "duplicate-result", "radius query returned an item twice");
  for (auto g : got) REQUIRE(m.count(g), "stale-item", "radius query returned an item that is not stored");
  for (auto& i : m)
  {
    P p = i.second.p; if (std::max(std::fabs(p.x), std::fabs(p.y)) > L / 2) continue;
    LD d = std::sqrt(((LD) p.x - q.x) * ((LD) p.x - q.x) + ((LD) p.y - q.y) * ((LD) p.y - q.y));
    if (std::fabs((double)(d - r)) < 1e-12 * (L + r)) continue; // on the circle: either answer
    REQUIRE((d < r) == (got.count(i.first) > 0), "radius-query", "item (", p.x, ",", p.y, ") at distance ", (double) d, " of (", q.x, ",", q.y, "), radius ", r, d < r ? " is missing" : " is returned");
  }
}
static void check_nearest(const Vertices& c, const Model& m, P q, double L)
{
  Vertex* v = c.get_nearest(V(q));
  LD best = -1;
  for (auto& i : m)
  {
    P p = i.second.p; if (std::max(std::fabs(p.x), std::fabs(p.y)) > L / 2) continue;
    LD d = std::sqrt(((LD) p.x - q.x) * ((LD) p.x - q.x) + ((LD) p.y - q.y) * ((LD) p.y - q.y));
    if (best < 0 || d < best) best = d;
  }
  if (best < 0) { REQUIRE(!v || !m.size() || m.count(v), "nearest-of-none", "an item is returned though none is stored"); return; }
  REQUIRE(v, "nearest-missing", "no item found next to (", q.x, ",", q.y, ")");
  REQUIRE(m.count(v), "stale-item", "nearest query returned an item that is not stored");
  P p = m.at(v).p; double d = geo::dist(p, q);
  REQUIRE(d <= (double) best + 1e-12 * (L + std::fabs(q.x) + std::fabs(q.y)), "nearest-wrong", "nearest item to (", q.x, ",", q.y, ") is at distance ", (double) best, " but one at ", d, " is returned");
}
static void check_list(const Vertices& c, const std::vector<Vertex*>& order, const Model& m)
{
  REQUIRE(c.size() == order.size(), "size", c.size(), " items, expected ", order.size());
  size_t k = 0;
  for (auto& v : c)
  {
    REQUIRE(k < order.size() && v.get() == order[k], "order", "item ", k, " is not the expected one");
    P p = m.at(v.get()).p;
    REQUIRE(v->xy().x == p.x && v->xy().y == p.y && v->mesh_size() == m.at(v.get()).tag, "item-data", "item ", k, " lost its data");
    REQUIRE(v->in_container(), "flag", "stored item is not marked as stored");
    ++k;
  }
  REQUIRE(k == order.size(), "order", "iteration visits ", k, " items");
  if (order.size())
  {
    REQUIRE(&c.front() == order.front() && &c.back() == order.back(), "ends", "front() or back() is wrong");
    REQUIRE(&c[order.size() / 2] == order[order.size() / 2], "index", "operator[] is wrong");
  }
}

struct Hist
{
  double L; size_t items, depth; Vertices c; Model m; std::vector<Vertex*> order; int tag = 0; int removed = 0, moved = 0; bool outside = false;
  Hist(double l, size_t i, size_t d) : L(l), items(i), depth(d), c(l, i, d) {}
};
static void add(pbt::Src& s, Hist& h, P p, bool front)
{
  double t = ++h.tag;
  if (front)
  {
    size_t at = s.u(h.order.size() + 1);
    auto pos = h.c.begin(); std::advance(pos, at);
    Vertex& v = h.c.insert(pos, p.x, p.y, t); h.m[&v] = {p, t}; h.order.insert(h.order.begin() + at, &v);
  }
  else { Vertex& v = h.c.push_back(p.x, p.y, t); h.m[&v] = {p, t}; h.order.push_back(&v); }
}
static void del(Hist& h, size_t k)
{
  Vertex* v = h.order[k];
  REQUIRE(h.c.remove(*v), "remove-refused", "removing the item at (", v->xy().x, ",", v->xy().y, ") failed");
  REQUIRE(!v->in_container(), "flag", "removed item is still marked as stored");
  h.order.erase(h.order.begin() + k); h.m.erase(v); ++h.removed;
}
static void query(pbt::Src& s, Hist& h, int kind)
{
  double L = h.L;
  if (kind == 0)
  { P a = point(s, L), b = s.p(1, 4) ? a : point(s, L); if (s.p(1, 6)) { a = {-2 * L, -2 * L}; b = {2 * L, 2 * L}; }
    check_rect(h.c, h.m, {std::min(a.x, b.x), std::min(a.y, b.y)}, {std::max(a.x, b.x), std::max(a.y, b.y)}, L); }
  if (kind == 1)
  { P a = point(s, L); if (s.p(1, 4)) { a.x *= s.i(1, 6); a.y *= s.i(1, 6); }
    double r = L * s.pick<double>({0.01, 0.1, 0.3, 0.6, 1, 3, 1e-4, 20}); check_circ(h.c, h.m, a, r, L); }
  if (kind == 2)
  { P a = point(s, L); if (s.p(1, 3)) { int f = s.i(1, 40); a.x *= f; a.y *= s.b() ? f : 1; } check_nearest(h.c, h.m, a, L); }
}
static void history(pbt::Src& s, bool nearest_only)
{
  quiet();
  double L = s.pick<double>({16, 10000, 1, 0.3, 7.7, 123.456, 1e-3});
  size_t mi = s.pick<int>({1, 2, 4, 10, 100}), md = s.pick<int>({25, 2, 5, 1, 10, 0});
  Hist h(L, mi, md);
  s.note("tree scale ", L, " items ", mi, " depth ", md, "\n");
  int n = s.i(1, 60), bulk = s.p(1, 3) ? s.i(1, 300) : 0;
  if (bulk) { s.note("bulk insert ", bulk, "\n"); for (int k = 0; k < bulk; ++k) add(s, h, point(s, L), false); s.label("bulk"); }
  bool removed_many = false;
  for (int k = 0; k < n; ++k)
  {
    int op = s.i(0, nearest_only ? 5 : 9);
    switch (op)
    {
      case 0: case 1: case 2: { P p = point(s, L); s.note("add (", p.x, ",", p.y, ")\n"); add(s, h, p, s.p(1, 4)); break; }
      case 3: if (h.order.size()) { size_t q = s.u(h.order.size()); s.note("remove #", q, "\n"); del(h, q); } break;
      case 4: if (h.order.size())
        { Vertex* v = h.order[s.u(h.order.size())]; P p = point(s, L); s.note("move (", v->xy().x, ",", v->xy().y, ") -> (", p.x, ",", p.y, ")\n");
          v->adjust_xy(V(p)); h.m[v].p = p; ++h.moved; } break;
      case 5: query(s, h, nearest_only ? 2 : s.i(0, 2)); break;
      case 6: query(s, h, 0); break;
      case 7: query(s, h, 1); break;
      case 8: { size_t q = h.order.size() * s.i(0, 4) / 4; s.note("remove ", q, " items\n"); while (q--) del(h, s.u(h.order.size())); removed_many = true; break; }
      case 9: if (s.p(1, 3)) { s.note("clear waste\n"); h.c.clear_waste(); }
              else if (s.p(1, 4)) { P p{L * s.i(1, 3), L * s.i(-3, 3)}; s.note("add outside (", p.x, ",", p.y, ")\n"); add(s, h, p, false); h.outside = true; }
              break;
    }
  }
  if (h.removed) s.label("removals"); if (h.moved) s.label("moves"); if (h.outside) s.label("outside-of-tree"); if (removed_many) s.label("mass-removal");
  if (h.order.size() > mi) s.label("tree-was-split");
  check_list(h.c, h.order, h.m);
  if (!nearest_only)
  {
    check_rect(h.c, h.m, {-L / 2, -L / 2}, {L / 2, L / 2}, L);
    for (int k = 0; k < 4; ++k) query(s, h, k % 2);
  }
  for (int k = 0; k < (nearest_only ? 12 : 2); ++k) query(s, h, 2);
  // move every item, then look again
  if (s.p(1, 3)) { for (auto v : h.order) { P p = point(s, L); v->adjust_xy(V(p)); h.m[v].p = p; } s.label("all-moved");
    check_rect(h.c, h.m, {-L / 2, -L / 2}, {L / 2, L / 2}, L); query(s, h, 1); query(s, h, 2); check_list(h.c, h.order, h.m); }
  if (h.m.size() >= 3 && (h.removed || h.moved || nearest_only)) s.nontrivial();
}
PROPERTY(index_history) { history(s, false); }
PROPERTY(index_nearest) { history(s, true); }

// the tree itself (not through the container), anywhere in the plane
PROPERTY(index_tree)
{
  quiet();
  double L = s.pick<double>({16, 1, 0.7, 33.3}); P c{L * s.i(-8, 8) / 8.0, L * s.i(-8, 8) / 8.0 * (s.b() ? 1.1 : 1)};
  size_t mi = s.pick<int>({1, 2, 4, 10}), md = s.pick<int>({25, 2, 5});
  QuadTree<Vertex, double> t(L, mi, md, Vec2d{c.x, c.y});
  std::list<Vertex> store; std::map<Vertex*, Item> m;
  int n = s.i(1, 120); s.note("tree centre (", c.x, ",", c.y, ") scale ", L, " items ", mi, " depth ", md, " operations ", n, "\n");
  int rem = 0;
  for (int k = 0; k < n; ++k)
  {
    if (s.p(3, 4) || m.empty())
    {
      P p = point(s, L); p = {p.x + c.x, p.y + c.y}; if (s.p(1, 12)) p.x += 2 * L;
      store.emplace_back(p.x, p.y);
      bool in = p.x >= t.lowleft().x && p.x <= t.upright().x && p.y >= t.lowleft().y && p.y <= t.upright().y;
      bool r = t.add(&store.back());
      REQUIRE(r == in, "add-result", "adding (", p.x, ",", p.y, ") returned ", r, in ? " though it lies inside" : " though it lies outside");
      if (in) m[&store.back()] = {p, 0};
    }
    else { auto it = m.begin(); std::advance(it, s.u(m.size())); REQUIRE(t.remove(it->first), "remove-refused", 0); m.erase(it); ++rem; }
    REQUIRE(t.size() == m.size(), "tree-size", t.size(), " items reported, ", m.size(), " stored");
  }
  REQUIRE(!t.remove(nullptr) && !t.add(nullptr), "null-item", "a null item was accepted");
  for (int k = 0; k < 4; ++k)
  {
    P a = point(s, L), b = point(s, L); a = {a.x + c.x, a.y + c.y}; b = {b.x + c.x, b.y + c.y};
    P lo{std::min(a.x, b.x), std::min(a.y, b.y)}, hi{std::max(a.x, b.x), std::max(a.y, b.y)};
    std::vector<Vertex*> f; size_t nf = t.get_items(V(lo), V(hi), f);
    std::set<Vertex*> got(f.begin(), f.end()), want;
    for (auto& i : m) if (i.second.p.x >= lo.x && i.second.p.x <= hi.x && i.second.p.y >= lo.y && i.second.p.y <= hi.y) want.insert(i.first);
    REQUIRE(nf == f.size() && got.size() == f.size() && got == want, "rect-query", "rectangle query returned ", f.size(), " (count ", nf, "), ", want.size(), " are inside");
  }
  if (m.size() > mi && rem) s.nontrivial();
}
int main(int c, char** v) { return pbt::main_(c, v); }

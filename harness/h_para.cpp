// The parameter file reader against a model of the file.
#include <TQMeshConfig.h>
#include "pbt.h"
#include "outlib.h"
#include "ParaReader.h"
using namespace ml;
using CppUtils::ParaReader;

namespace {
struct Key { std::string name, start, end; int kind; int type; int cols; }; // kind 0 scalar 1 vector 2 matrix; type 0 int 1 double 2 string 3 bool 4 size_t
struct Occ                       // one occurrence in the file
{
  int key; std::vector<std::vector<double>> rows;   // NaN: entry left out (only with defaults)
  std::string word; bool bad = false;                // unparsable scalar
};
const char* HEADS[] = {"Element", "Output", "Number of", "Define", "Add", "Boundary"};
const char* TAILS[] = {"size", "color", "prefix", "layers", "vertices", "edges", "rect", "format"};

std::string num(double d, int type)
{
  if (type != 1) return std::to_string((long) d);
  char b[40]; for (int p = 1; p <= 17; ++p) { snprintf(b, 40, "%.*g", p, d); if (strtod(b, nullptr) == d) break; } return b;
}
std::string sp(pbt::Src& s, int n = 3) { return std::string(s.u(n), ' '); }
const char* REMARKS[] = {" a remark", " first, second, third", " 1, 2, 3", "", "# twice", " End", ": 7"};
std::string remark(pbt::Src& s, const std::vector<Key>& ks)
{
  int k = s.i(0, 7);
  if (k == 7 && ks.size()) { auto& q = ks[s.u(ks.size())]; return "# " + (s.b() || q.end.empty() ? q.start : q.end) + " 3"; }
  return std::string("#") + REMARKS[k % 7];
}
std::string tail(pbt::Src& s, const std::vector<Key>& ks) { std::string t = sp(s); if (s.p(1, 4)) t += " " + remark(s, ks); return t; }
void noise(pbt::Src& s, std::vector<std::string>& out, const std::vector<Key>& ks)
{
  while (s.p(1, 4)) out.push_back(s.b() ? sp(s) : sp(s) + remark(s, ks));
}
double value(pbt::Src& s, int type)
{
  switch (type)
  {
    case 0: return s.i(-40, 40);
    case 1: { double v = s.g(-40, 40, 160); int k = s.i(0, 3); return k == 0 ? v : k == 1 ? v * 1e-4 : k == 2 ? v * 1.2345678901234e5 : s.g(-1, 1, 977); }
    case 3: return s.i(0, 1);
    default: return s.i(0, 60);
  }
}
std::string entry(pbt::Src& s, double v, int type)
{
  if (std::isnan(v)) return sp(s);
  std::string t = sp(s) + num(v, type) + sp(s, 2);
  int k = s.i(0, 9); if (k == 0) t = "(" + t; if (k == 1) t += ")"; if (k == 2) t = "[" + t; if (k == 3) t += "]";
  return t;
}
void print(pbt::Src& s, const Key& k, const Occ& o, std::vector<std::string>& out, const std::vector<Key>& ks)
{
  std::string pre = sp(s, 5);
  if (k.kind == 0)
  {
    std::string v = o.bad ? s.pick<std::string>({"", "none", "-"}) : k.type == 2 ? o.word : num(o.rows[0][0], k.type);
    out.push_back(pre + k.start + sp(s) + v + tail(s, ks)); return;
  }
  auto row = [&](const std::vector<double>& r)
  { std::string t; for (size_t i = 0; i < r.size(); ++i) { if (i) t += ","; t += entry(s, r[i], k.type); } return t; };
  if (k.kind == 1) { out.push_back(pre + k.start + sp(s) + row(o.rows[0]) + tail(s, ks)); return; }
  out.push_back(pre + k.start + tail(s, ks));
  for (auto& r : o.rows) { noise(s, out, ks); out.push_back(sp(s) + row(r) + tail(s, ks)); }
  noise(s, out, ks);
  out.push_back(pre + k.end + tail(s, ks));
}
template <typename T> void add_as(ParaReader& r, const Key& k)
{
  if (k.kind == 0) r.new_scalar_parameter<T>(k.name, k.start);
  else if (k.kind == 1) r.new_vector_parameter<T>(k.name, k.start, k.cols);
  else r.new_matrix_parameter<T>(k.name, k.start, k.end, k.cols);
}
void add(ParaReader& r, const Key& k)
{
  switch (k.type)
  {
    case 0: add_as<int>(r, k); break; case 1: add_as<double>(r, k); break; case 2: add_as<std::string>(r, k); break;
    case 3: add_as<bool>(r, k); break; default: add_as<size_t>(r, k);
  }
}
// query once and compare with the expected occurrence (null: none left)
template <typename T> void ask_as(ParaReader& r, const Key& k, const Occ* o, bool def, const char* where)
{
  double dv = -1;
  bool want = o && !o->bad;
  if (o && k.kind == 1 && !def) want = (int) o->rows[0].size() >= k.cols;
  bool got = r.query<T>(k.name, def, (T) dv);
  REQUIRE(got == want, "query", where, ": query of '", k.start, "' returned ", got, " instead of ", want);
  if (!want) return;
  auto& p = r.get_parameter<T>(k.name);
  size_t nr = k.kind == 2 ? o->rows.size() : 1;
  REQUIRE(p.rows() == nr, "rows", where, ": '", k.start, "' has ", p.rows(), " rows instead of ", nr);
  REQUIRE((int) p.columns() == k.cols, "columns", where, ": '", k.start, "'");
  for (size_t j = 0; j < nr; ++j)
    for (int i = 0; i < k.cols; ++i)
    {
      double w = i < (int) o->rows[j].size() ? o->rows[j][i] : NAN; if (std::isnan(w)) w = dv;
      T g = p.get_value(i, j);
      REQUIRE(g == (T) w, "value", where, ": '", k.start, "' row ", j, " column ", i, " is ", g, " instead of ", w);
      REQUIRE(r.get_value<T>(i, j, k.name) == (T) w, "value", where, ": '", k.start, "'");
      if (k.kind != 2) REQUIRE(r.get_value<T>(i, k.name) == (T) w, "value", where, ": '", k.start, "'");
    }
}
void ask_word(ParaReader& r, const Key& k, const Occ* o, const char* where)
{
  bool want = o && !o->bad;
  // "none" and "-" are words
  bool got = r.query<std::string>(k.name);
  REQUIRE(got == want, "query", where, ": query of '", k.start, "' returned ", got, " instead of ", want);
  if (want) REQUIRE(r.get_value<std::string>(k.name) == o->word, "value", where, ": '", k.start, "' is '", r.get_value<std::string>(k.name), "' instead of '", o->word, "'");
}
void ask(ParaReader& r, const Key& k, const Occ* o, bool def, const char* where)
{
  switch (k.type)
  {
    case 0: ask_as<int>(r, k, o, def, where); break; case 1: ask_as<double>(r, k, o, def, where); break; case 2: ask_word(r, k, o, where); break;
    case 3: ask_as<bool>(r, k, o, def, where); break; default: ask_as<size_t>(r, k, o, def, where);
  }
}
std::vector<Key> keys(pbt::Src& s, int n, const std::string& mark)
{
  std::vector<Key> ks;
  for (int i = 0; i < n; ++i)
  {
    Key k; k.kind = s.i(0, 2); k.type = k.kind == 0 ? s.i(0, 4) : s.i(0, 1); k.cols = k.kind == 0 ? 1 : s.i(1, 6);
    std::string base = std::string(HEADS[s.u(6)]) + " " + TAILS[s.u(8)] + " " + mark + char('A' + i);
    k.name = mark + std::to_string(i); k.start = base + ":"; if (k.kind == 2) k.end = "End " + base;
    ks.push_back(k);
  }
  return ks;
}
// defaults are used for all queries of one parameter or for none
std::vector<Occ> occurrences(pbt::Src& s, const std::vector<Key>& ks, const std::vector<bool>& def)
{
  std::vector<Occ> os;
  int n = s.i(0, 6);
  for (int q = 0; q < n && ks.size(); ++q)
  {
    Occ o; o.key = (int) s.u(ks.size()); auto& k = ks[o.key];
    if (k.kind == 0)
    {
      o.rows = {{value(s, k.type)}};
      if (k.type == 2) o.word = s.pick<std::string>({"mesh", "./out/mesh_1", "0.1+x*y", "VTU", "a,b", "sin(x)"});
      else o.bad = s.p(1, 8);
    }
    else
    {
      int nr = k.kind == 1 ? 1 : s.i(def[o.key] ? 0 : 1, 5);
      for (int j = 0; j < nr; ++j)
      {
        std::vector<double> r;
        int c = k.cols;
        if (def[o.key] && s.p(1, 3)) c = s.i(1, k.cols);
        else if (k.kind == 1 && s.p(1, 6)) c = s.i(1, k.cols + 2);
        for (int i = 0; i < c; ++i) r.push_back(def[o.key] && i > 0 && i + 1 < c && s.p(1, 8) ? NAN : value(s, k.type));
        o.rows.push_back(r);
      }
    }
    os.push_back(o);
  }
  return os;
}
} // namespace

PROPERTY(para)
{
  quiet();
  std::vector<Key> top = keys(s, s.i(1, 4), "t"), in = keys(s, s.i(1, 5), "b");
  std::vector<Key> all = top; all.insert(all.end(), in.begin(), in.end());
  std::vector<bool> dt, di; for (auto& k : top) dt.push_back(k.kind > 0 && s.b()); for (auto& k : in) di.push_back(k.kind > 0 && s.b());
  std::vector<Occ> os = occurrences(s, top, dt);
  int nb = s.i(0, 3);
  std::vector<std::vector<Occ>> blocks; for (int k = 0; k < nb; ++k) blocks.push_back(occurrences(s, in, di));
  // lines: the blocks keep their order, the other occurrences lie between them
  std::vector<std::string> lines; std::vector<Occ> order; size_t io = 0; int ib = 0;
  while (io < os.size() || ib < nb)
  {
    noise(s, lines, all);
    if (ib < nb && (io == os.size() || s.b()))
    {
      lines.push_back(sp(s) + "Define block:" + tail(s, all));
      for (auto& o : blocks[ib]) { noise(s, lines, all); print(s, in[o.key], o, lines, all); }
      noise(s, lines, all);
      lines.push_back(sp(s) + "End block" + tail(s, all)); ++ib;
    }
    else { print(s, top[os[io].key], os[io], lines, all); ++io; }
  }
  noise(s, lines, all);
  std::string text; for (auto& l : lines) text += l + "\n";
  if (text.size() && s.p(1, 4)) text.pop_back();
  s.note(text, "\n");
  if (text.find('#') != std::string::npos) s.label("comments");
  if (nb) s.label("blocks"); if (nb > 1) s.label("several-blocks");
  if (os.size() + (nb ? blocks[0].size() : 0) >= 2) s.nontrivial();
  Scratch dir; { std::ofstream f(dir / "in.para"); f << text; }
  ParaReader r{dir / "in.para"};
  for (auto& k : top) add(r, k);
  r.new_block_parameter("block", "Define block:", "End block");
  ParaReader& b = r.get_block("block"); for (auto& k : in) add(b, k);

  // queries of different parameters are interleaved in any order
  auto drain = [&](ParaReader& rd, const std::vector<Key>& ks, const std::vector<Occ>& oc, const std::vector<bool>& df, const char* where)
  {
    std::vector<std::vector<const Occ*>> todo(ks.size()); for (auto& o : oc) todo[o.key].push_back(&o);
    std::vector<size_t> at(ks.size(), 0); size_t left = 0; for (auto& t : todo) left += t.size() + 1;
    std::vector<size_t> open; for (size_t k = 0; k < ks.size(); ++k) open.push_back(k);
    while (left--)
    {
      size_t q = s.u(open.size()), k = open[q];
      if (at[k] < todo[k].size()) ask(rd, ks[k], todo[k][at[k]++], df[k], where);
      else { ask(rd, ks[k], nullptr, df[k], where); open.erase(open.begin() + q); }
    }
  };
  bool first = s.b();
  if (first) drain(r, top, os, dt, "file");
  for (int k = 0; k < nb; ++k)
  {
    REQUIRE(r.query("block"), "block", "block ", k, " not found");
    drain(b, in, blocks[k], di, "block");
  }
  REQUIRE(!r.query("block"), "block", "a block too many");
  REQUIRE(!r.query("block"), "block", "a block too many");
  if (!first) drain(r, top, os, dt, "file");
}

// a list or block that does not end is an error, wherever the file ends
PROPERTY(para_open)
{
  quiet();
  Key k{"m", "Define rows:", "End rows", 2, 1, s.i(1, 4)}; std::string text; bool block = s.b(), ends = s.p(1, 4);
  int nr = s.i(0, 4), before = s.i(0, 2);
  if (block) text += "Define block:\n";
  for (int q = 0; q < before; ++q) text += "Define rows:\n" + std::string("End rows\n");
  int which = s.i(0, 1);                       // the matrix or the block stays open
  text += "Define rows:\n"; for (int j = 0; j < nr; ++j) { for (int i = 0; i < k.cols; ++i) text += (i ? ", " : "") + std::to_string(s.i(0, 9)); text += "\n"; }
  bool open_m = !ends && (which == 0 || !block), open_b = !ends && block && which == 1;
  if (!open_m) text += "End rows\n"; if (block && !open_b) text += "End block\n";
  s.note(text); if (!ends) s.nontrivial();
  Scratch dir; { std::ofstream f(dir / "in.para"); f << text; }
  ParaReader r{dir / "in.para"}; r.new_block_parameter("block", "Define block:", "End block");
  ParaReader* m = &r; if (block) m = &r.get_block("block"); add(*m, k);
  bool thrown = false; int got = 0;
  try { if (block) REQUIRE(r.query("block"), "block", "not found"); while (m->query<double>("m", true, -1.0)) ++got; } catch (const ParaReader::Invalid&) { thrown = true; }
  REQUIRE(thrown == !ends, "open", thrown ? "an error is reported for a complete file" : "no error is reported although the end is missing");
  if (ends) REQUIRE(got == before + 1, "open", got, " lists instead of ", before + 1);
}

PROPERTY(para_bytes)
{ // any bytes: no crash, every query ends
  quiet();
  std::string text; int n = s.i(0, 40); if (s.p(3, 4)) text = "Define mesh:\n";
  const std::vector<std::string> frag = {"Define mesh:", "End mesh", "Element size:", "Define boundary:", "End boundary", "Add layers:", "\n", "\n", "\n", " ", ",", "1", "0.5", "-3e4", "1e999", "nan", "#", "(", ")", "[", "]", "\t", "\r", "x", "Element size", "Define ", ":", "9999999999999999999", "True", "End "};
  for (int i = 0; i < n; ++i) { if (s.p(1, 12)) text += (char) s.u(256); else text += s.pick(frag); }
  if (s.p(3, 4)) text += "\nEnd boundary\nEnd mesh\n";
  s.note(pbt::jesc(text)); if (n > 5) s.nontrivial();
  Scratch dir; { std::ofstream f(dir / "in.para", std::ios::binary); f << text; }
  ParaReader r{dir / "in.para"};
  r.new_block_parameter("mesh", "Define mesh:", "End mesh");
  ParaReader& b = r.get_block("mesh");
  b.new_scalar_parameter<double>("size", "Element size:"); b.new_scalar_parameter<std::string>("word", "Element size:");
  b.new_scalar_parameter<bool>("flag", "Element size:"); b.new_scalar_parameter<size_t>("count", "Element size:");
  b.new_matrix_parameter<double>("bd", "Define boundary:", "End boundary", 5); b.new_matrix_parameter<int>("be", "Define boundary:", "End boundary", 3);
  b.new_vector_parameter<double>("layers", "Add layers:", 7);
  size_t found = 0, guard = 0;
  try {
  while (r.query("mesh"))
  {
    REQUIRE(++guard < 1000, "endless", "blocks without end");
    auto loop = [&](auto f) { size_t g = 0; while (f()) { ++found; REQUIRE(++g < 1000, "endless", "queries without end"); } };
    loop([&] { return b.query<double>("size"); }); loop([&] { return b.query<std::string>("word"); });
    loop([&] { return b.query<bool>("flag"); }); loop([&] { return b.query<size_t>("count"); });
    loop([&] { if (!b.query<double>("bd", true, -1.0)) return false; auto& p = b.get_parameter<double>("bd"); double q = 0; for (size_t j = 0; j < p.rows(); ++j) for (size_t i = 0; i < 5; ++i) q += p.get_value(i, j); return q == q || true; });
    loop([&] { if (!b.query<int>("be")) return false; auto& p = b.get_parameter<int>("be"); long q = 0; for (size_t j = 0; j < p.rows(); ++j) for (size_t i = 0; i < 3; ++i) q += p.get_value(i, j); return true; });
    loop([&] { return b.query<double>("layers", s.b(), -1.0); });
  }
  }
  catch (const ParaReader::Invalid&) { s.label("reported"); }
  if (found) s.label("found");
}

int main(int c, char** v) { return pbt::main_(c, v); }

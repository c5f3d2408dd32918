// Small property-based-testing engine: choice-sequence generation, fork
// isolation, crash/exit/hang capture, shrinking, replay files, statistics.
//
//   harness list
//   harness run   PROP SEED SHARD NSHARDS NCASES CPU_LIMIT OUT.json REPLAYDIR
//   harness replay FILE CPU_LIMIT            (exit 0 holds, 1 fails)
//   harness show  PROP SEED INDEX            (print the generated case)
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <memory>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

namespace pbt {

struct Failure { std::string key, msg; };
struct Discard {};

static const size_t MAX_DRAWS = 20000;
static const size_t NOTE_LEN  = 6000;
static const size_t MAX_LABELS = 48;

struct Shared
{
  volatile uint64_t cur;         // index of the case in progress
  volatile uint32_t n_draws;
  uint64_t draws[MAX_DRAWS];
  volatile uint32_t note_len;
  char note[NOTE_LEN + 1];
  volatile uint32_t expect_exit; // code under test may end the process
  volatile uint32_t nontrivial;
  volatile uint32_t discarded;
  volatile uint32_t done;        // the property ran to its end
  volatile uint32_t failed;
  char key[128];
  char msg[2000];
  volatile uint64_t label_mask;
  char label_names[MAX_LABELS][48];
};

class Src
{
public:
  Src(Shared* sh, uint64_t seed) : sh_(sh), state_(seed) {}
  Src(Shared* sh, const std::vector<uint64_t>& rep)
  : sh_(sh), state_(0), replay_(&rep) {}

  // uniform in [0, n)
  uint64_t u(uint64_t n)
  {
    if (n < 1) n = 1;
    uint64_t v;
    if (replay_) v = pos_ < replay_->size() ? std::min((*replay_)[pos_], n - 1) : 0;
    else         v = next() % n;
    ++pos_;
    if (sh_->n_draws >= MAX_DRAWS) throw Discard{};
    sh_->draws[sh_->n_draws] = v;
    sh_->n_draws = sh_->n_draws + 1;
    return v;
  }
  int    i(int lo, int hi) { return lo + (int) u((uint64_t)(hi - lo) + 1); }
  bool   b() { return u(2) == 1; }
  // true with probability num/den; shrinks to false
  bool   p(int num, int den) { return (int) u(den) >= den - num; }
  // a grid value lo + k*step, k in [0,n]
  double g(double lo, double hi, int n) { return lo + (hi - lo) * ((double) u(n + 1) / n); }
  template <typename T> T pick(const std::vector<T>& v) { return v[u(v.size())]; }

  template <typename... A> void note(A&&... a)
  {
    std::ostringstream os; os << std::setprecision(17);
    int dummy[] = {0, ((void)(os << a), 0)...}; (void) dummy;
    std::string s = os.str();
    size_t n = std::min(s.size(), NOTE_LEN - sh_->note_len);
    memcpy(sh_->note + sh_->note_len, s.data(), n);
    sh_->note_len = sh_->note_len + (uint32_t) n;
    sh_->note[sh_->note_len] = 0;
  }
  void label(const std::string& name)
  {
    for (size_t k = 0; k < MAX_LABELS; ++k)
    {
      if (!sh_->label_names[k][0]) strncpy(sh_->label_names[k], name.c_str(), 47);
      if (name.compare(0, 47, sh_->label_names[k]) == 0)
      { sh_->label_mask = sh_->label_mask | (1ull << k); return; }
    }
  }
  void nontrivial() { sh_->nontrivial = 1; }
  void expect_exit(bool v) { sh_->expect_exit = v; }
  [[noreturn]] void discard() { throw Discard{}; }
  size_t drawn() const { return pos_; }

private:
  uint64_t next()
  {
    uint64_t z = (state_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  Shared* sh_;
  uint64_t state_;
  const std::vector<uint64_t>* replay_ = nullptr;
  size_t pos_ = 0;
};

template <typename... A>
[[noreturn]] inline void fail(const std::string& key, A&&... a)
{
  std::ostringstream os; os << std::setprecision(17);
  int dummy[] = {0, ((void)(os << a), 0)...}; (void) dummy;
  throw Failure{ key, os.str() };
}

#define REQUIRE(cond, key, ...) \
  do { if (!(cond)) pbt::fail(key, __VA_ARGS__); } while (0)

using Prop = std::function<void(Src&)>;
struct Entry { std::string name; Prop prop; };
inline std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
struct Reg { Reg(const std::string& n, Prop p) { registry().push_back({n, p}); } };

// ------------------------------------------------------------- execution
enum class Res { PASS, DISCARD, FAIL };
struct Outcome { Res res = Res::PASS; std::string key, msg; };

inline void on_prof(int) { _exit(99); }

inline uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s)
{ uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (uint8_t) c) * 1099511628211ull; return h; }

inline void arm(double cpu)
{
  itimerval tv {}; tv.it_value.tv_sec = (long) cpu;
  tv.it_value.tv_usec = (long) ((cpu - (long) cpu) * 1e6);
  setitimer(ITIMER_PROF, &tv, nullptr);
}

inline void reset_case(Shared* sh)
{
  sh->n_draws = 0; sh->note_len = 0; sh->note[0] = 0; sh->expect_exit = 0;
  sh->nontrivial = 0; sh->discarded = 0; sh->done = 0; sh->failed = 0;
  sh->key[0] = 0; sh->msg[0] = 0; sh->label_mask = 0;
}

inline void run_one(Shared* sh, const Prop& prop, Src& src)
{
  try { prop(src); }
  catch (const Failure& f)
  {
    strncpy(sh->key, f.key.c_str(), 127); strncpy(sh->msg, f.msg.c_str(), 1999);
    sh->failed = 1;
  }
  catch (const Discard&) { sh->discarded = 1; }
  catch (const std::exception& e)
  {
    strncpy(sh->key, "uncaught-exception", 127); strncpy(sh->msg, e.what(), 1999);
    sh->failed = 1;
  }
  sh->done = 1;
}

inline std::string& err_file() { static std::string s; return s; }

inline void child_setup()
{
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (getenv("PBT_KEEP_STDERR") == nullptr)
  {
    int fe = err_file().empty() ? fd : open(err_file().c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
    dup2(fe, 2);
  }
  signal(SIGPROF, on_prof);
  rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
  rlimit as { 3ull << 30, 3ull << 30 }; setrlimit(RLIMIT_AS, &as);
#endif
}

inline std::string tail_err()
{
  if (err_file().empty()) return "";
  std::ifstream f(err_file());
  std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  size_t k = all.find("ERROR: AddressSanitizer");
  size_t r = all.find("runtime error:");
  if (k == std::string::npos) k = r;
  if (k == std::string::npos) return all.size() > 300 ? all.substr(all.size() - 300) : all;
  return all.substr(k, 1200);
}

// judge a finished/crashed case
inline Outcome judge(Shared* sh, bool crashed, int status)
{
  Outcome o;
  if (sh->done)
  {
    if (sh->failed) { o.res = Res::FAIL; o.key = sh->key; o.msg = sh->msg; return o; }
    if (sh->discarded) { o.res = Res::DISCARD; return o; }
    if (!crashed) return o;
  }
  if (!crashed) return o;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 99)
  { o.res = Res::FAIL; o.key = "hang"; o.msg = "no result within the CPU limit"; return o; }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 1 && sh->expect_exit) return o;
  o.res = Res::FAIL;
  if (WIFSIGNALED(status))
  { o.key = "crash"; o.msg = std::string("killed by signal ") + strsignal(WTERMSIG(status)); }
  else if (WEXITSTATUS(status) == 77)
  { o.key = "sanitizer"; o.msg = "sanitizer report"; }
  else
  { o.key = "process-exit"; o.msg = "the code under test ended the process, status " + std::to_string(WEXITSTATUS(status)); }
  std::string t = tail_err();
  if (!t.empty()) o.msg += " | stderr: " + t;
  return o;
}

inline Outcome run_replay(Shared* sh, const Prop& prop,
                          const std::vector<uint64_t>& draws, double cpu)
{
  reset_case(sh);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    child_setup(); arm(cpu);
    Src src(sh, draws);
    run_one(sh, prop, src);
    _exit(0);
  }
  int status = 0; waitpid(pid, &status, 0);
  bool crashed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
  return judge(sh, crashed, status);
}

// run the generated cases first, first+step, ..., last in one process: for
// failures that need state which earlier cases left behind
inline Outcome run_history(Shared* sh, const Prop& prop, uint64_t seed, uint64_t ph,
                           uint64_t first, uint64_t step, uint64_t last, double cpu)
{
  reset_case(sh);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    child_setup();
    for (uint64_t c = first; c <= last; c += step)
    {
      reset_case(sh); sh->cur = c; arm(cpu);
      Src src(sh, mix(mix(seed, ph), c));
      run_one(sh, prop, src);
      if (sh->failed) break;
    }
    _exit(0);
  }
  int status = 0; waitpid(pid, &status, 0);
  bool crashed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
  return judge(sh, crashed, status);
}

inline std::vector<uint64_t> shared_draws(Shared* sh)
{ return std::vector<uint64_t>(sh->draws, sh->draws + sh->n_draws); }

inline std::vector<uint64_t> shrink(Shared* sh, const Prop& prop,
  std::vector<uint64_t> best, const std::string& key, double cpu, int budget, int& used)
{
  time_t t0 = time(nullptr);
  auto attempt = [&](const std::vector<uint64_t>& cand) -> bool
  {
    if (used >= budget) return false;
    if (time(nullptr) - t0 > 60) { used = budget; return false; }
    if (cand == best) return false;
    ++used;
    Outcome o = run_replay(sh, prop, cand, cpu);
    if (o.res != Res::FAIL || o.key != key) return false;
    std::vector<uint64_t> eff = shared_draws(sh);
    if (eff.size() < cand.size() || key == "crash" || key == "sanitizer" || key == "hang") best = (eff.size() <= cand.size() && !eff.empty()) ? eff : cand;
    else best = cand;
    return true;
  };
  bool progress = true;
  while (progress && used < budget)
  {
    progress = false;
    for (size_t len : {64, 16, 8, 4, 3, 2, 1})
      for (size_t k = best.size(); k-- > 0 && used < budget; )
      {
        if (k + len > best.size()) continue;
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + k, c.begin() + k + len);
        if (attempt(c)) progress = true;
      }
    for (size_t len : {8, 2, 1})
      for (size_t k = 0; k + len <= best.size() && used < budget; k += len)
      {
        std::vector<uint64_t> c(best);
        bool any = false;
        for (size_t q = k; q < k + len; ++q) { any |= c[q] != 0; c[q] = 0; }
        if (any && attempt(c)) progress = true;
      }
    for (size_t k = 0; k < best.size() && used < budget; ++k)
    {
      uint64_t lo = 0;
      while (k < best.size() && best[k] > lo && used < budget)
      {
        std::vector<uint64_t> c(best);
        c[k] = lo + (best[k] - lo) / 2;
        if (c[k] == best[k]) break;
        if (attempt(c)) progress = true; else { lo = c[k] + 1; }
      }
    }
  }
  return best;
}

inline std::string jesc(const std::string& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char) c;
  }
  return r;
}

inline void write_replay(const std::string& path, const std::string& prop,
  const std::string& key, const std::string& msg, uint64_t seed, uint64_t idx,
  const std::vector<uint64_t>& draws, const std::string& note, uint64_t first = 0, uint64_t step = 0)
{
  std::ofstream f(path);
  f << "prop " << prop << "\nkey " << key << "\ncase " << seed << " " << idx;
  if (step) f << "\nhistory " << seed << " " << first << " " << step << " " << idx;
  f << "\ndraws";
  for (auto d : draws) f << " " << d;
  std::string m = msg; for (auto& c : m) if (c == '\n') c = ' ';
  f << "\nmsg " << m << "\n--- generated case ---\n" << note << "\n";
}

inline const Entry* find_prop(const std::string& n)
{ for (auto& e : registry()) if (e.name == n) return &e; return nullptr; }

inline Shared* make_shared_mem()
{ return (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); }

struct Slot { uint64_t hash; uint8_t state; uint64_t labels; };

inline int cmd_run(int argc, char** argv)
{
  if (argc < 10) return 2;
  std::string pname = argv[2];
  uint64_t seed = strtoull(argv[3], 0, 10), shard = strtoull(argv[4], 0, 10),
           nsh = strtoull(argv[5], 0, 10), n = strtoull(argv[6], 0, 10);
  double cpu = atof(argv[7]);
  std::string out = argv[8], rdir = argv[9];
  const Entry* e = find_prop(pname);
  if (!e) { fprintf(stderr, "no such property %s\n", argv[2]); return 2; }
  err_file() = out + ".stderr";

  Shared* sh = make_shared_mem();
  memset((void*) sh, 0, sizeof(Shared));
  size_t cap = n / nsh + 2;
  Slot* slots = (Slot*) mmap(nullptr, cap * sizeof(Slot), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  uint64_t ph = hash_str(pname);
  struct Fl { std::string key, msg, replay; uint64_t idx; int shrink_runs; };
  std::vector<Fl> fails;
  std::vector<std::string> samples;
  // samples area shared between children and the parent
  const int NS = 4; const size_t SL = NOTE_LEN + 64;
  char* samp = (char*) mmap(nullptr, NS * SL, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);

  // all shards end early once one of them has a failure, or at the deadline
  std::string stop = rdir + "/stop_" + pname;
  double deadline = getenv("PBT_DEADLINE") ? atof(getenv("PBT_DEADLINE")) : 0;
  auto ended = [&]() { struct stat sb; return stat(stop.c_str(), &sb) == 0 || (deadline > 0 && (double) time(nullptr) > deadline); };

  uint64_t k = shard;
  while (k < n && fails.size() < 2 && !ended())
  {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
      child_setup();
      for (uint64_t c = k; c < n; c += nsh)
      {
        if (ended()) _exit(0);
        reset_case(sh); sh->cur = c; arm(cpu);
        Src src(sh, mix(mix(seed, ph), c));
        run_one(sh, e->prop, src);
        uint64_t h = 1469598103934665603ull;
        for (uint32_t q = 0; q < sh->n_draws; ++q) h = (h ^ sh->draws[q]) * 1099511628211ull;
        Slot& s = slots[c / nsh];
        s.hash = h; s.labels = sh->label_mask;
        s.state = sh->failed ? 4 : sh->discarded ? 2 : sh->nontrivial ? 3 : 1;
        if (sh->failed) _exit(3);
        if (s.state == 3)
        {
          uint64_t lc = c / nsh;
          for (int q = 0; q < NS; ++q)
            if (!samp[q * SL] && lc >= (uint64_t) q * (cap / NS)) { strncpy(samp + q * SL, sh->note, SL - 1); break; }
        }
      }
      _exit(0);
    }
    int status = 0; waitpid(pid, &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) break;
    uint64_t c = sh->cur;
    Outcome o = judge(sh, true, status);
    Slot& s = slots[c / nsh];
    if (o.res == Res::PASS || o.res == Res::DISCARD)
    {
      uint64_t h = 1469598103934665603ull;
      for (uint32_t q = 0; q < sh->n_draws; ++q) h = (h ^ sh->draws[q]) * 1099511628211ull;
      s.hash = h; s.labels = sh->label_mask; s.state = sh->nontrivial ? 3 : 1;
    }
    else
    {
      s.state = 4;
      auto d = shared_draws(sh);
      std::string note(sh->note);
      std::string rp = rdir + "/" + pname + "_" + std::to_string(seed) + "_" + std::to_string(c) + ".replay";
      write_replay(rp + ".orig", pname, o.key, o.msg, seed, c, d, note);
      int used = 0;
      int budget = getenv("PBT_SHRINK") ? atoi(getenv("PBT_SHRINK")) : 600;
      { std::ofstream touch(stop); }
      if (o.key == "hang") budget = 0;
      else if (run_replay(sh, e->prop, d, cpu).res != Res::FAIL)
      {
        // not alone: look for the shortest run-up of earlier cases
        for (uint64_t w = 1; ; w *= 2)
        {
          uint64_t first = (c - k) / nsh > w ? c - w * nsh : k;
          Outcome h = run_history(sh, e->prop, seed, ph, first, nsh, c, cpu);
          if (h.res == Res::FAIL && sh->cur == c)
          {
            write_replay(rp, pname, h.key, h.msg, seed, c, d, note, first, nsh);
            fails.push_back({h.key, h.msg, rp, c, 0});
            break;
          }
          if (first == k) { fails.push_back({o.key, o.msg, rp + ".orig", c, 0}); break; }
        }
        k = c + nsh;
        continue;
      }
      if (!fails.empty()) budget = 0;
      auto best = shrink(sh, e->prop, d, o.key, cpu, budget, used);
      Outcome o2 = o;
      if (used > 0) o2 = run_replay(sh, e->prop, best, cpu);
      if (used > 0 && o2.res == Res::FAIL)
        write_replay(rp, pname, o2.key, o2.msg, seed, c, best, sh->note);
      else { write_replay(rp, pname, o.key, o.msg, seed, c, d, note); o2 = o; }
      fails.push_back({o2.key, o2.msg, rp, c, used});
    }
    k = c + nsh;
  }

  uint64_t total = 0, disc = 0, triv = 0, nontriv = 0;
  std::map<std::string, uint64_t> labels;
  std::ofstream hf(out + ".hashes", std::ios::binary);
  for (size_t q = 0; q < cap; ++q)
  {
    if (!slots[q].state) continue;
    ++total;
    if (slots[q].state == 2) ++disc;
    if (slots[q].state == 1) ++triv;
    if (slots[q].state == 3) { ++nontriv; hf.write((char*) &slots[q].hash, 8); }
    if (slots[q].state != 2)
      for (size_t l = 0; l < MAX_LABELS; ++l)
        if (slots[q].labels >> l & 1) ++labels[sh->label_names[l]];
  }
  for (int q = 0; q < NS; ++q) if (samp[q * SL]) samples.push_back(samp + q * SL);
  std::ofstream f(out);
  f << "{\"total\":" << total << ",\"discarded\":" << disc << ",\"trivial\":" << triv
    << ",\"nontrivial\":" << nontriv << ",\"labels\":{";
  bool first = true;
  for (auto& l : labels) { f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
  f << "},\"samples\":[";
  for (size_t q = 0; q < samples.size(); ++q) f << (q ? "," : "") << "\"" << jesc(samples[q].substr(0, 1200)) << "\"";
  f << "],\"failures\":[";
  for (size_t q = 0; q < fails.size(); ++q)
    f << (q ? "," : "") << "{\"key\":\"" << jesc(fails[q].key) << "\",\"msg\":\"" << jesc(fails[q].msg)
      << "\",\"replay\":\"" << jesc(fails[q].replay) << "\",\"case\":" << fails[q].idx
      << ",\"shrink_runs\":" << fails[q].shrink_runs << "}";
  f << "]}\n";
  return 0;
}

inline int cmd_replay(int argc, char** argv)
{
  std::ifstream f(argv[2]);
  std::string line, pname; std::vector<uint64_t> draws, hist;
  while (std::getline(f, line))
  {
    if (line.rfind("prop ", 0) == 0) pname = line.substr(5);
    else if (line.rfind("history ", 0) == 0)
    { std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) hist.push_back(v); }
    else if (line.rfind("draws", 0) == 0)
    { std::istringstream is(line.substr(5)); uint64_t v; while (is >> v) draws.push_back(v); }
    else if (line.rfind("---", 0) == 0) break;
  }
  const Entry* e = find_prop(pname);
  if (!e) { fprintf(stderr, "no such property %s\n", pname.c_str()); return 2; }
  Shared* sh = make_shared_mem();
  char tmp[] = "/tmp/pbt_err_XXXXXX"; int fd = mkstemp(tmp); close(fd); err_file() = tmp;
  double cpu = argc > 3 ? atof(argv[3]) : 60;
  Outcome o = hist.size() == 4 ? run_history(sh, e->prop, hist[0], hash_str(pname), hist[1], hist[2], hist[3], cpu)
                               : run_replay(sh, e->prop, draws, cpu);
  unlink(tmp);
  printf("%s\n", sh->note);
  if (o.res == Res::FAIL) { printf("FAIL key=%s %s\n", o.key.c_str(), o.msg.c_str()); return 1; }
  printf(o.res == Res::DISCARD ? "DISCARDED\n" : "HOLDS\n");
  return 0;
}

inline int cmd_show(int, char** argv)
{
  const Entry* e = find_prop(argv[2]);
  if (!e) return 2;
  uint64_t seed = strtoull(argv[3], 0, 10), c = strtoull(argv[4], 0, 10);
  Shared* sh = make_shared_mem();
  memset((void*) sh, 0, sizeof(Shared));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    child_setup(); arm(60);
    Src src(sh, mix(mix(seed, hash_str(e->name)), c));
    run_one(sh, e->prop, src);
    _exit(0);
  }
  int status = 0; waitpid(pid, &status, 0);
  Outcome o = judge(sh, !(WIFEXITED(status) && WEXITSTATUS(status) == 0), status);
  printf("%s\n", sh->note);
  printf("labels:");
  for (size_t l = 0; l < MAX_LABELS; ++l) if (sh->label_mask >> l & 1) printf(" %s", sh->label_names[l]);
  printf("\n%s %s %s\n", o.res == Res::FAIL ? "FAIL" : o.res == Res::DISCARD ? "DISCARD" : "PASS", o.key.c_str(), o.msg.c_str());
  return o.res == Res::FAIL;
}

inline int main_(int argc, char** argv)
{
  if (argc >= 2 && std::string(argv[1]) == "list")
  { for (auto& e : registry()) printf("%s\n", e.name.c_str()); return 0; }
  if (argc >= 10 && std::string(argv[1]) == "run") return cmd_run(argc, argv);
  if (argc >= 3 && std::string(argv[1]) == "replay") return cmd_replay(argc, argv);
  if (argc >= 5 && std::string(argv[1]) == "show") return cmd_show(argc, argv);
  fprintf(stderr, "usage: run|replay|show|list\n");
  return 2;
}

} // namespace pbt

#define PROPERTY(name) \
  static void name##_body(pbt::Src& s); \
  static pbt::Reg name##_reg(#name, name##_body); \
  static void name##_body(pbt::Src& s)

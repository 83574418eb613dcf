// Harness support: deterministic case numbering, sharding, crash attribution,
// violation collection and coverage counters.  Every harness enumerates its
// space in a fixed order; case k is the same execution in every run.
#ifndef VC_HPP
#define VC_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iomanip>
#include <functional>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace vc {

struct Ctx {
  std::string tier = "quick", out, beat, tmp;
  uint64_t shard = 0, nshards = 1;
  long long only = -1;           // --replay: the single case to run
  bool verbose = false;
  uint64_t ncase = 0;            // cases enumerated so far (all shards)
  uint64_t cur = 0;              // index of the case being run
  uint64_t ran = 0;              // cases this shard ran
  uint64_t evaluations = 0, transitions = 0, traces = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> notes;
  struct V { std::string key, msg; uint64_t c; };
  std::vector<V> viol;
  std::map<std::string, uint64_t> vcount;
  volatile uint64_t *hb = nullptr;
  bool started = false;
};
inline Ctx &C() { static Ctx c; return c; }

inline bool thorough() { return C().tier == "thorough"; }

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

inline void write_result() {
  Ctx &c = C();
  if (c.out.empty()) return;
  FILE *f = fopen(c.out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"cases\":%llu,\"ran\":%llu,\"evaluations\":%llu,\"transitions\":%llu,\"traces\":%llu,\"states\":[",
          (unsigned long long)c.ncase, (unsigned long long)c.ran, (unsigned long long)c.evaluations,
          (unsigned long long)c.transitions, (unsigned long long)c.traces);
  bool first = true;
  for (auto s : c.states) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)s); first = false; }
  fprintf(f, "],\"outcomes\":[");
  first = true;
  for (auto s : c.outcomes) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)s); first = false; }
  fprintf(f, "],\"samples\":[");
  for (size_t i = 0; i < c.samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(c.samples[i]).c_str());
  fprintf(f, "],\"notes\":{");
  first = true;
  for (auto &n : c.notes) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(n.first).c_str(), (unsigned long long)n.second); first = false; }
  fprintf(f, "},\"violations\":[");
  for (size_t i = 0; i < c.viol.size(); i++)
    fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"case\":%llu}", i ? "," : "", jesc(c.viol[i].key).c_str(),
            jesc(c.viol[i].msg).c_str(), (unsigned long long)c.viol[i].c);
  fprintf(f, "],\"done\":true}\n");
  fclose(f);
}

inline void init(int argc, char **argv) {
  Ctx &c = C();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") c.tier = val();
    else if (a == "--out") c.out = val();
    else if (a == "--beat") c.beat = val();
    else if (a == "--tmp") c.tmp = val();
    else if (a == "--shard") { std::string v = val(); c.shard = strtoull(v.c_str(), 0, 10); c.nshards = strtoull(v.c_str() + v.find('/') + 1, 0, 10); }
    else if (a == "--replay") { c.only = strtoll(val().c_str(), 0, 10); c.verbose = true; }
    else if (a == "--verbose") c.verbose = true;
  }
  if (c.tmp.empty()) c.tmp = ".";
  if (!c.beat.empty()) {
    int fd = open(c.beat.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 64) == 0)
      c.hb = (volatile uint64_t *)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (fd >= 0) close(fd);
  }
}

// Start the next case; false: it is not this run's to execute.
inline bool begin() {
  Ctx &c = C();
  uint64_t id = c.ncase++;
  if (c.only >= 0) { if ((uint64_t)c.only != id) return false; }
  else if (id % c.nshards != c.shard) return false;
  c.cur = id; c.ran++;
  if (c.hb) { c.hb[0] = id + 1; c.hb[1]++; }
  return true;
}
inline void beat() { if (C().hb) C().hb[1]++; }   // progress inside a long case

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

inline void fail(const std::string &key, const std::string &msg) {
  Ctx &c = C();
  uint64_t n = c.vcount[key]++;
  if (c.verbose) printf("  case %llu [%s]: %s\n", (unsigned long long)c.cur, key.c_str(), msg.c_str());
  if (n < 2 && c.viol.size() < 200) c.viol.push_back({key, msg, c.cur});
}
inline void eval(uint64_t n = 1) { C().evaluations += n; }
inline void transition(uint64_t n = 1) { C().transitions += n; }
inline void trace(uint64_t n = 1) { C().traces += n; }
inline void state(uint64_t h) { C().states.insert(h); }
inline void state(const std::string &s) { C().states.insert(fnv(s)); }
inline void outcome(uint64_t h) { C().outcomes.insert(h); }
inline void outcome(const std::string &s) { C().outcomes.insert(fnv(s)); }
inline void sample(const std::string &s) { if (C().samples.size() < 4) C().samples.push_back(s); }
inline void note(const std::string &k, uint64_t n = 1) { C().notes[k] += n; }

template <class... A> std::string cat(A const &...a) {
  std::ostringstream o; o << std::setprecision(17);
  int d[] = {0, ((o << a), 0)...}; (void)d;
  return o.str();
}
template <class V> std::string show(V const &v) {
  std::ostringstream o; o << std::setprecision(17) << "[";
  bool f = true;
  for (auto const &x : v) { if (!f) o << ","; o << x; f = false; }
  o << "]"; return o.str();
}

// |a-b| within rtol of the scale, NaN equal to NaN, infinities equal to themselves
inline bool close(double a, double b, double rtol, double atol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

inline int finish() { write_result(); return C().viol.empty() ? 0 : 3; }

// Run fn in a child so that a crash in it is an outcome, not the end of the
// exploration.  Returns the wait status: 0 clean, else exit code or 1000+signal.
template <class F> int isolated(F fn, unsigned limit_s = 20) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    C().out.clear();
    alarm(limit_s);
    int r = 0;
    r = fn();
    fflush(nullptr);
    _exit(r);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return 1000 + WTERMSIG(st);
}
} // namespace vc
#endif

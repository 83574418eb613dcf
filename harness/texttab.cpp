// C08: text tables.  Every sequence of line kinds up to a depth, every shape
// and value of a round trip, and every point at which the disk fills up.
#include "vc.hpp"
#include <nuSQuIDS/tools.h>
#include <limits>
#include <csignal>
#include <sys/resource.h>
using namespace nusquids;
typedef std::vector<std::vector<double>> T;
static std::string path(const char *n) { return vc::C().tmp + "/" + n; }
static void put(std::string const &p, std::string const &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string get(std::string const &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "<none>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

// oracle: whitespace separated numbers; a line's numbers end at the first thing which is not one
static T parse(std::string const &text, bool &ok) {
  T t; ok = true; size_t i = 0;
  while (i <= text.size()) {
    size_t e = text.find('\n', i); if (e == std::string::npos) e = text.size();
    std::string l = text.substr(i, e - i); i = e + 1;
    std::vector<double> row; const char *p = l.c_str();
    for (;;) { while (*p && isspace((unsigned char)*p)) p++; if (!*p) break; if (!(isdigit((unsigned char)*p) || *p == '+' || *p == '-' || *p == '.')) break; char *q; double v = strtod(p, &q); if (q == p) break; row.push_back(v); p = q; }
    if (row.empty()) continue;
    if (!t.empty() && t[0].size() != row.size()) { ok = false; return t; }
    t.push_back(row);
  }
  return t;
}
static void read_case(std::string const &text, std::string const &id, bool sample = false) {
  vc::transition(); vc::trace(); vc::eval();
  put(path("in.txt"), text);
  bool ok; T e = parse(text, ok);
  bool thrown = false; marray<double, 2> m; std::string what;
  try { m = quickread(path("in.txt")); } catch (std::runtime_error &x) { thrown = true; what = x.what(); }
  if (thrown == ok) { vc::fail(ok ? "read:reject" : "read:accept", id + (ok ? ": a regular table was rejected: " + what : ": a table with rows of different lengths was accepted")); return; }
  vc::outcome(vc::cat(ok, e.size(), "x", e.empty() ? 0 : e[0].size()));
  if (!ok) return;
  size_t c = e.empty() ? 0 : e[0].size();
  if (m.extent(0) != e.size() || m.extent(1) != c) { vc::fail("read:shape", vc::cat(id, ": shape ", m.extent(0), "x", m.extent(1), ", expected ", e.size(), "x", c)); return; }
  for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < c; j++) if (m[i][j] != e[i][j]) { vc::fail("read:value", vc::cat(id, ": entry ", i, ",", j, " is ", m[i][j], ", expected ", e[i][j])); return; }
}
static void reading() {
  std::vector<std::string> kinds{"1 2", "-3.5\t4e2", "   5 .25  ", "", "# comment", "   \t", "7 8 # tail", "1 2 3", "9", "6 -0.5\r", "text 1 2"};
  unsigned depth = vc::thorough() ? 6 : 5;
  std::vector<unsigned> seq;
  std::function<void()> rec = [&]() {
    if (seq.size() < 2 || true) {
      bool run = seq.size() <= 2 ? vc::begin() : seq.size() == 3 ? vc::begin() : true;
      if (seq.size() == 3 && !run) return;        // the subtree belongs to another shard
      if (run) {
        std::string text, id;
        for (unsigned k : seq) { text += kinds[k] + "\n"; id += "|" + kinds[k]; }
        vc::state("k" + id); vc::beat();
        read_case(text, "lines " + id);
        if (!text.empty() && (seq.size() < 5)) { text.pop_back(); read_case(text, "no final newline, lines " + id); }
      }
    }
    if (seq.size() == depth) return;
    if (seq.size() >= 4 && !vc::thorough()) { for (unsigned k : {0u, 3u, 4u, 6u, 7u}) { seq.push_back(k); rec(); seq.pop_back(); } return; }
    for (unsigned k = 0; k < kinds.size(); k++) { seq.push_back(k); rec(); seq.pop_back(); }
  };
  rec();
  // number formats
  std::vector<std::string> num{"0", "-0", "1", "+1", "-1", "1.", ".5", "-.5", "1e5", "1E5", "1e+5", "1e-5", "-2.5E-3", "007", "1e308", "1e-308", "4.9e-324", "2.2250738585072014e-308", "123456789012345678901234567890", "0.1", "3.14159265358979323846", "1.7976931348623157e308", "9007199254740993", "0.000000000000000000000000000001"};
  for (auto &a : num) for (auto &b : num) for (const char *sep : {" ", "\t", "    ", " \t "}) {
    if (!vc::begin()) continue; vc::state("n" + a + sep + b);
    read_case(a + sep + b + "\n" + b + sep + a + "\n", "numbers " + a + " " + b);
  }
  // tables of many sizes
  for (size_t r : {1u, 2u, 3u, 10u, 100u, 1000u, 5000u}) for (size_t c : {1u, 2u, 3u, 7u, 40u, 300u}) for (int odd = 0; odd < 4; odd++) {
    if (r * c > 30000) continue;
    if (!vc::begin()) continue;
    std::string s; for (size_t i = 0; i < r; i++) { for (size_t j = 0; j < c; j++) s += std::to_string((double)i * 3.25 - (double)j) + " "; if (odd == 1 && i == r - 1) s += "1"; if (odd == 2 && i == r / 2) s += " 5"; s += "\n"; if (odd == 3 && i % 3 == 1) s += "\n"; }
    vc::state(vc::cat("t", r, c, odd)); read_case(s, vc::cat("table ", r, "x", c, " variant ", odd));
  }
}
static bool close15(double a, double b) { return a == b || std::fabs(a - b) <= 0.51e-14 * std::fabs(a) || (std::fabs(a) < 1e-300 && std::fabs(a - b) < 1e-14 * std::fabs(a) + 5e-324); }
static void roundtrip() {
  std::vector<double> vals{0.0, -0.0, 1, -1, 0.1, 1.0 / 3, -2.0 / 3, 1e15, 123456789012345.0, 1234567890123456.0, 1e22, 1e100, -1e-100, 1e300, 1e-300, 2.2250738585072014e-308, 4.9406564584124654e-324, 1.79769313486231e308, 3.14159265358979323846, 999999999999999.0, 0.999999999999999, 1e-5, 99999.95, 2.5e-7, 1e6, 123456.5};
  for (size_t r = 0; r <= 6; r++) for (size_t c = 0; c <= 6; c++) for (size_t s = 0; s < vals.size(); s++) {
    if (!vc::begin()) continue;
    vc::transition(2); vc::trace(); vc::eval(); std::string id = vc::cat("table ", r, "x", c, " from value ", s); vc::state(id);
    marray<double, 2> m({r, c}); size_t k = s; for (auto &x : m) x = vals[k++ % vals.size()];
    put(path("rt.txt"), s % 2 ? std::string(5000, '7') + "\n" : "");
    int rc = -1;
    try { rc = quickwrite(path("rt.txt"), m); } catch (std::exception &e) { vc::fail("write:throw", id + ": " + e.what()); continue; }
    if (rc != 0) vc::fail("write:status", id);
    std::string text = get(path("rt.txt"));
    bool ok; T t = parse(text, ok);
    size_t er = (r && c) ? r : 0, ec = er ? c : 0;
    if (!ok || t.size() != er || (er && t[0].size() != ec)) { vc::fail("write:shape", id + ": file has another shape"); continue; }
    marray<double, 2> g; try { g = quickread(path("rt.txt")); } catch (std::exception &e) { vc::fail("roundtrip:throw", id + ": " + e.what()); continue; }
    if (g.extent(0) != er || g.extent(1) != ec) { vc::fail("roundtrip:shape", vc::cat(id, ": read back as ", g.extent(0), "x", g.extent(1))); continue; }
    for (size_t i = 0; i < er; i++) for (size_t j = 0; j < ec; j++) if (!close15(m[i][j], g[i][j]) || !close15(m[i][j], t[i][j])) { vc::fail("roundtrip:value", vc::cat(id, ": wrote ", m[i][j], " at ", i, ",", j, ", read ", g[i][j])); i = er; break; }
    vc::outcome(id);
  }
  for (size_t r : {1u, 50u, 700u, 3000u}) for (size_t c : {1u, 2u, 11u, 100u}) for (double mag : {1.0, 1e-12, 1e25}) {
    if (r * c > 40000 || !vc::begin()) continue;
    vc::transition(2); vc::trace(); vc::eval(); std::string id = vc::cat("big table ", r, "x", c, " ", mag); vc::state(id);
    marray<double, 2> m({r, c}); size_t k = 0; for (auto &x : m) { x = mag * std::sin(1.0 + k * 0.7) * (k % 5 ? 1 : 1000); k++; }
    quickwrite(path("rt.txt"), m); auto g = quickread(path("rt.txt"));
    if (g.get_extents() != m.get_extents()) { vc::fail("roundtrip:shape", id); continue; }
    for (size_t i = 0; i < m.size(); i++) if (!close15(m.get_data()[i], g.get_data()[i])) { vc::fail("roundtrip:value", vc::cat(id, " element ", i)); break; }
  }
}
static void faults() {
  // the file system accepts only the first `limit` bytes
  for (auto rc : std::vector<std::pair<size_t, size_t>>{{1, 1}, {2, 3}, {5, 4}, {40, 30}}) {
    marray<double, 2> m({rc.first, rc.second}); size_t k = 0; for (auto &x : m) x = 1.0 / (3 + k++);
    std::string f = path("full.txt"), ref = path("ref.txt");
    quickwrite(ref, m); size_t N = get(ref).size();
    size_t step = N > 2000 ? 509 : N > 300 ? 7 : 1;
    for (size_t lim = 0; lim <= N + step; lim += step) {
      if (!vc::begin()) continue;
      vc::transition(); vc::trace(); vc::eval(); vc::state(vc::cat("f", rc.first, rc.second, lim));
      unlink(f.c_str());
      int st = vc::isolated([&]() {
        signal(SIGXFSZ, SIG_IGN); struct rlimit r = {lim, lim}; setrlimit(RLIMIT_FSIZE, &r);
        try { quickwrite(f, m); } catch (std::exception &) { return 7; } return 0; });
      bool complete = get(f) == get(ref);
      std::string id = vc::cat(rc.first, "x", rc.second, " with room for ", lim, " of ", N, " bytes");
      if (st == 0 && !complete) vc::fail("fault:silent", id + ": success reported for an incomplete file");
      else if (st == 7 && complete) vc::fail("fault:spurious", id + ": failure reported for a complete file");
      else if (st != 0 && st != 7) vc::fail("fault:crash", vc::cat(id, ": ended with ", st));
      if (lim >= N && st != 0) vc::fail("fault:spurious", id);
      vc::outcome(vc::cat("f", st, complete));
    }
  }
  for (std::string p : {path("no/such/dir/x.txt"), path("."), std::string("")}) {
    if (!vc::begin()) continue;
    vc::eval(2); marray<double, 2> m({1, 1}); m[0][0] = 1; bool t = false;
    try { quickwrite(p, m); } catch (std::runtime_error &) { t = true; }
    if (!t) vc::fail("write:path", "'" + p + "' accepted");
    if (p == path(".")) continue;
    t = false; try { quickread(p); } catch (std::runtime_error &) { t = true; }
    if (!t) vc::fail("read:path", "'" + p + "' accepted");
    if (fexists(p)) vc::fail("fexists", "'" + p + "'");
  }
  if (vc::begin()) {
    vc::eval(5); put(path("e.txt"), ""); put(path("e space.txt"), "1\n");
    if (!fexists(path("e.txt")) || !fexists(path("e space.txt"))) vc::fail("fexists", "an existing file");
    if (fexists(path("e.tx")) || fexists(path("e.txt2")) || fexists(path("none"))) vc::fail("fexists", "a missing file");
    if (access(path("none").c_str(), F_OK) == 0) vc::fail("fexists", "created the file it was asked about");
    std::string body = "1 2\n3 4\n"; put(path("keep.txt"), body); fexists(path("keep.txt")); quickread(path("keep.txt")); if (get(path("keep.txt")) != body) vc::fail("read:modifies", "");
    symlink("nowhere", path("dangling").c_str()); if (fexists(path("dangling"))) vc::fail("fexists", "a dangling link");
    unlink(path("e.txt").c_str()); if (fexists(path("e.txt"))) vc::fail("fexists", "a removed file");
  }
}
int main(int argc, char **argv) { vc::init(argc, argv); reading(); roundtrip(); faults(); return vc::finish(); }

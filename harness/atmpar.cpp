// The zeniths of an atmospheric object propagated by several threads, under
// every schedule (preemption bounded); its failures; and independent objects
// and readers in threads of their own.
#define NOSKEW
#include "vc.hpp"
#include "mcsched.hpp"
#include "inter.hpp"
#include "objs.hpp"
#include <atomic>
#include <system_error>

static std::string bad;
static void expect(bool c, const std::string &m) { if (!c && bad.empty()) bad = m; }
static std::atomic<int> spot{0};
static int g_fail = 0; static bool g_late = false; static int g_points = 0;   // zeniths which fail (bits), after having evolved; scheduling points within
struct Node : Open {
  using Open::Open; Node() {} int id = 0, runs = 0, calls = 0;
  void AddToPreDerive(double) override { if (calls++ < g_points) spot.load(std::memory_order_relaxed); }
  void EvolveState() { if (mc::active()) mc::event(id); runs++; calls = 0; bool f = g_fail >> id & 1; if (f && !g_late) throw std::runtime_error(vc::cat("zenith ", id)); Open::EvolveState(); if (f) throw std::runtime_error(vc::cat("zenith ", id)); }
  bool bar = false; void Set_ProgressBar(bool b) { bar = b; Open::Set_ProgressBar(b); } bool shows() const { return bar; }
};
typedef nuSQUIDSAtm<Node> Atm;
struct Kind { const char *name; NeutrinoType nt; int n, nz, ne; bool inter; Basis basis; };
static const Kind KINDS[] = {{"nu", neutrino, 3, 2, 2, false, interaction}, {"both", both, 3, 3, 2, false, interaction}, {"interacting", both, 3, 2, 2, true, interaction}, {"mass basis", antineutrino, 3, 3, 2, true, mass}, {"four", neutrino, 3, 4, 2, false, interaction}, {"one", neutrino, 3, 1, 2, false, interaction}};
static std::shared_ptr<EarthAtm> earth() { static auto e = std::make_shared<EarthAtm>(V{0, .5, .9, 1}, V{8, 5, 4, 3}, V{.46, .47, .49, .5}); return e; }
static std::shared_ptr<CrossSectionLibrary> lib(bool i) { static auto l = library(0, 0); return i ? l : nullptr; }
static void start(Atm &a, Kind const &k) {
  unsigned nz = k.nz, ne = k.ne, n = k.n; auto v = [](int z, int e, int r, int f) { return .3 + .1 * z + .2 * e + .05 * r + .15 * f; };
  if (k.nt == both) { marray<double, 4> w{nz, ne, 2, n}; for (unsigned z = 0; z < nz; z++) for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < 2; r++) for (unsigned f = 0; f < n; f++) w[z][e][r][f] = v(z, e, r, f); a.Set_initial_state(w, flavor); }
  else { marray<double, 3> w{nz, ne, n}; for (unsigned z = 0; z < nz; z++) for (unsigned e = 0; e < ne; e++) for (unsigned f = 0; f < n; f++) w[z][e][f] = v(z, e, 0, f); a.Set_initial_state(w, flavor); }
}
static std::unique_ptr<Atm> make(Kind const &k, int threads, bool progress = false) {
  V c, E; const double cz[] = {-.05, .1, .3, .6}; for (int i = 0; i < k.nz; i++) c.push_back(cz[i]); for (int i = 0; i < k.ne; i++) E.push_back(100 + 80 * i);
  marray<double, 1> C{c.size()}; std::copy(c.begin(), c.end(), C.begin());
  std::unique_ptr<Atm> a(new Atm(C, nodes(E), k.n, k.nt, k.inter, lib(k.inter))); a->Set_EarthModel(earth()); a->Set_rel_error(1e-2); a->Set_abs_error(1e-2); a->Set_h(300 * nq::k.km);
  for (auto &q : a->GetnuSQuIDS()) q.Set_Basis(k.basis); if (k.inter) { if (k.nt == both) a->Set_TauRegeneration(true); a->Set_GlashowResonance(true); }
  start(*a, k); int i = 0; for (auto &q : a->GetnuSQuIDS()) q.id = i++; a->Set_EvalThreads(threads); a->Set_ProgressBar(progress); return a;
}
static std::vector<std::string> views(Atm &a) { std::vector<std::string> v; for (auto &q : a.GetnuSQuIDS()) {
  if (q.GetUseInteractions() && !q.runs) { std::string s; put(s, q.Get_t()); for (unsigned e = 0; e < q.GetNumE(); e++) for (unsigned r = 0; r < q.GetNumRho(); r++) for (unsigned i = 0; i < q.GetState(e, r).Size(); i++) put(s, q.GetState(e, r)[i]); v.push_back(s); } else v.push_back(dump(q)); }
  return v; }
static std::string values(Atm const &a, Kind const &k) { std::string s; for (int f = 0; f < k.n; f++) for (double c : {-.02, .08}) for (double E : {110., 150.}) put(s, a.EvalFlavor(f, std::min(c, k.nz > 1 ? 1 : -.05), E * nq::k.GeV, 0)); return s; }
struct Expected { std::vector<std::string> before, once, twice; std::string val; };
static Expected &ref(Kind const &k) { static std::map<std::string, Expected> m; Expected &r = m[k.name]; if (r.once.empty()) { int f = g_fail; g_fail = 0; auto a = make(k, 1); r.before = views(*a); Quiet z; a->EvolveState(); r.once = views(*a); r.val = values(*a, k); g_fail = f; } return r; }
static void equal(Atm &a, Kind const &k, std::string const &what, int but = 0) {
  Expected &r = ref(k); auto v = views(a); int i = 0;
  for (auto &q : a.GetnuSQuIDS()) { if (but >> i & 1) { i++; continue; } expect(q.runs == 1, vc::cat(what, ": zenith ", i, " was evolved ", q.runs, " times")); expect(v[i] == r.once[i], vc::cat(what, ": zenith ", i, " is not what one thread makes of it")); i++; }
  if (!but) expect(values(a, k) == r.val, what + ": interpolated values differ");
}
static void again(Atm &a, Kind const &k) { g_fail = 0; start(a, k); for (auto &q : a.GetnuSQuIDS()) q.runs = 0; }

struct Sc { std::string name; Kind k; std::function<void(Atm &)> body; std::function<void(Atm &)> after; int W, fail; bool late, progress; int failat, bq, bt; bool atom; int points; };
static long g_alloc = -1; static bool g_failed = false;
int main(int argc, char **argv) {
  vc::init(argc, argv);
  std::vector<Sc> S; static const Sc *cur; static std::unique_ptr<Atm> A, B;
  auto base = [&](std::string const &n, Kind const &k, int W, int bq, int bt) { Sc s; s.name = vc::cat(n, " ", k.name, " W", W); s.k = k; s.W = W; s.fail = 0; s.late = s.progress = s.atom = false; s.failat = -1; s.bq = bq; s.bt = bt; s.points = 0; return s; };
  auto plain = [](Atm &a) { Quiet z; a.EvolveState(); };
  for (auto &k : KINDS) for (int W = 1; W <= 4; W++) {
    if (W == 4 && k.nz > 2 && !vc::thorough()) continue; Sc s = base("evolve", k, W, W == 2 && k.nz < 3 && !k.inter ? 2 : W == 2 ? 1 : 0, W == 2 ? 2 : W == 3 && k.nz == 2 && !k.inter ? 1 : 0); s.body = plain; s.after = [k](Atm &a) { equal(a, k, "evolved"); }; S.push_back(s);
    if (W == 2 && k.nz <= 3) { s.name += " points"; s.atom = true; s.points = 3; s.bq = s.bt = 1; S.push_back(s); }
    if (W <= 3 && k.nz > 1) { s = base("progress", k, W, W == 2, W == 2 ? 2 : 0); s.progress = true; s.body = plain; s.after = [k](Atm &a) { equal(a, k, "evolved"); for (auto &q : a.GetnuSQuIDS()) expect(q.shows(), "the progress bar was switched off"); }; S.push_back(s); }
  }
  // zeniths which fail
  for (auto &k : KINDS) if (k.nz < 4) for (int W = 1; W <= (k.inter ? 2 : 3); W++) for (int f = 1; f < 1 << k.nz; f++) for (bool late : {false, true}) {
    Sc s = base(vc::cat(late ? "late " : "", "failure of ", f), k, W, W == 2 && k.nz == 2, W == 2); s.fail = f; s.late = late; s.progress = f & 1;
    s.body = [f, W](Atm &a) { Quiet z; g_failed = false; std::string w; try { a.EvolveState(); } catch (std::runtime_error &e) { w = e.what(); } bool one = false; for (int i = 0; i < 4; i++) if ((f >> i & 1) && w == vc::cat("zenith ", i)) one = true; expect(one, vc::cat("a failure of zeniths ", f, " is reported as '", w, "'")); };
    s.after = [k, f, W](Atm &a) { auto v = views(a); Expected &r = ref(k); int i = 0; for (auto &q : a.GetnuSQuIDS()) { expect(q.runs <= 1, vc::cat("zenith ", i, " was evolved ", q.runs, " times")); expect(q.shows() == bool(f & 1), "the progress bar was changed by a failure"); if (!(f >> i & 1)) expect(v[i] == (q.runs ? r.once[i] : r.before[i]), vc::cat("zenith ", i, " is not what one thread makes of it")); if (W > 1) expect(q.runs == 1, vc::cat("zenith ", i, " was not evolved")); i++; }
      again(a, k); { Quiet z; a.EvolveState(); } equal(a, k, "evolved after a failure"); };
    S.push_back(s); }
  // threads which can not be had, and memory
  for (auto &k : {KINDS[0], KINDS[1]}) for (int W = 2; W <= 3; W++) for (int f = 0; f < W; f++) for (bool prog : {false, true}) {
    Sc s = base(vc::cat("thread ", f, " fails", prog ? " progress" : ""), k, W, W == 2, W == 2 ? 2 : 1); s.failat = f; s.progress = prog;
    s.body = [](Atm &a) { Quiet z; bool threw = false; try { a.EvolveState(); } catch (std::system_error &) { threw = true; } expect(threw, "a thread could not be started, yet no failure"); };
    s.after = [k, prog](Atm &a) { for (auto &q : a.GetnuSQuIDS()) { expect(q.runs == 0, "a zenith was evolved"); expect(q.shows() == prog, "the progress bar was changed by a failure"); } again(a, k); { Quiet z; a.EvolveState(); } equal(a, k, "evolved after a failure"); };
    S.push_back(s); }
  for (int c = 0; c < 40; c++) { Kind const &k = KINDS[0]; bool prog = c & 1;
    Sc s = base(vc::cat("allocation ", c, " fails"), k, 2, 0, 1); s.progress = prog;
    s.body = [c](Atm &a) { Quiet z; g_failed = false; mc::fail_alloc(c); try { a.EvolveState(); } catch (std::bad_alloc &) { g_failed = true; } mc::fail_alloc(-1); };
    s.after = [k, prog](Atm &a) { Expected &r = ref(k); auto v = views(a); int i = 0; for (auto &q : a.GetnuSQuIDS()) { expect(q.runs <= 1 && (g_failed || q.runs == 1), vc::cat("zenith ", i, " was evolved ", q.runs, " times")); expect(v[i] == (q.runs ? r.once[i] : r.before[i]), vc::cat("zenith ", i, " is not what one thread makes of it")); expect(q.shows() == prog, "the progress bar was changed by a failure"); i++; } vc::note(g_failed ? "failed allocations" : "allocations without failure"); again(a, k); { Quiet z; a.EvolveState(); } equal(a, k, "evolved after a failure"); };
    S.push_back(s); }
  // independent objects sharing an Earth and cross sections; readers
  for (auto &k : KINDS) if (k.nz < 3) for (int W = 1; W <= 1; W++) {
    Sc s = base("two objects", k, W, 1, 2); s.body = [](Atm &a) { Quiet z; std::thread t([] { B->EvolveState(); }); a.EvolveState(); t.join(); }; s.after = [k](Atm &a) { equal(a, k, "one of two objects"); equal(*B, k, "the other object"); }; S.push_back(s);
    if (W == 1) { s.name += " points"; s.atom = true; s.points = 3; s.bq = s.bt = 1; S.push_back(s); }
  }
  for (auto &k : KINDS) if (k.nz < 4) for (bool atom : {false, true}) {
    Sc s = base(atom ? "readers with points" : "readers", k, 1, 1, 2); s.atom = atom;
    s.body = [k](Atm &a) { { Quiet z; a.EvolveState(); } std::string s1, s2; Atm const &c = a; auto read = [&](std::string &s) { s = values(c, k); for (auto &q : a.GetnuSQuIDS()) for (int f = 0; f < k.n; f++) { put(s, q.EvalFlavorAtNode(f, 1, 0)); put(s, q.EvalMassAtNode(f, 0, 0)); put(s, q.EvalFlavor(f, 120 * nq::k.GeV, 0)); std::vector<bool> avr(k.n); put(s, q.EvalFlavor(f, 130 * nq::k.GeV, 0, 1e9, avr)); put(s, c.EvalFlavor(f, std::min(.05, k.nz > 1 ? 1 : -.05), 130 * nq::k.GeV, 0, 1e9, avr)); } }; std::thread t([&] { read(s1); }); read(s2); t.join(); std::string s3; read(s3); expect(s1 == s3 && s2 == s3, "values read by two threads differ"); };
    s.after = [k](Atm &a) { equal(a, k, "after reading"); }; S.push_back(s); }

  static std::vector<int> curP; for (auto &k : KINDS) ref(k); lib(true); earth();
  auto where = [] { return vc::cat("scenario '", cur->name, "' schedule ", vc::show(curP)); };
  auto key = [] { std::string k = cur->name; for (auto &c : k) if (c == ' ') c = '_'; return k; };
  mc::on_stuck = [&](const mc::Result &r) {
    std::string k = r.violation.substr(0, r.violation.find(':')); for (auto &c : k) if (c == ' ') c = '_';
    vc::fail(k + ":" + key(), r.violation + " in " + where() + " choices " + vc::show(r.choices) + " trace " + r.log.substr(r.log.size() > 900 ? r.log.size() - 900 : 0)); vc::write_result(); _exit(3); };
  std::set_terminate([] { mc::Result r; r.violation = "terminate: std::terminate was called"; r.choices = curP; mc::on_stuck(r); _exit(70); });
  for (auto &sc : S) {
    if (getenv("POOLN") && sc.name.find(getenv("POOLN")) == std::string::npos) continue;
    cur = &sc; mc::Config cfg; cfg.fail_create_at = sc.failat; cfg.atomics_are_points = sc.atom; int bound = vc::thorough() ? sc.bt : sc.bq; if (getenv("POOLB")) bound = atoi(getenv("POOLB")); uint64_t ex0 = vc::C().evaluations;
    auto exec = [&](const std::vector<int> &pre) {
      bad.clear(); curP = pre; g_fail = 0; A = make(sc.k, sc.W, sc.progress); B.reset(); if (sc.name.compare(0, 3, "two") == 0) B = make(sc.k, sc.W);
      g_fail = sc.fail; g_late = sc.late; g_points = sc.points; mc::Result r;
      try { r = mc::run([&] { try { sc.body(*A); } catch (std::exception &e) { expect(false, vc::cat("failed: ", e.what())); } }, pre, cfg); g_points = 0; sc.after(*A); } catch (std::exception &e) { expect(false, vc::cat("failed afterwards: ", e.what())); }
      vc::eval(); vc::transition(r.steps); vc::trace(); vc::state(r.trace_hash ^ vc::fnv(sc.name)); vc::outcome(vc::fnv(sc.name + vc::show(r.events)));
      if (!bad.empty()) vc::fail("wrong:" + key(), bad + " in " + where() + " choices " + vc::show(r.choices)); if (r.violation.size()) vc::fail("viol:" + key(), r.violation); return r; };
    bool mine = vc::begin(); auto ev = vc::C().evaluations, tr = vc::C().transitions, tc = vc::C().traces; if (vc::C().hb) vc::C().hb[0] = vc::C().ncase;
    mc::Result root = exec({});
    if (!mine) { vc::C().evaluations = ev; vc::C().transitions = tr; vc::C().traces = tc; } else { vc::sample(vc::cat(sc.name, ": choices ", vc::show(root.choices), " zeniths started ", vc::show(root.events), " steps ", root.steps)); vc::note("scenarios"); }
    if (sc.failat >= 0 && root.failed_creates == 0) vc::fail("setup:" + key(), "the failing thread creation was never reached");
    for (size_t i = 0; i < root.choices.size(); i++) for (int c = 1; c < root.nopts[i]; c++) {
      if ((int)root.cost[i] + root.optcost[i][c] > bound || !vc::begin()) continue;
      std::vector<std::vector<int>> st; { std::vector<int> p(root.choices.begin(), root.choices.begin() + i); p.push_back(c); st.push_back(p); }
      while (!st.empty()) {
        std::vector<int> p = st.back(); st.pop_back(); mc::Result r = exec(p); if (vc::C().evaluations % 16 == 0) vc::beat();
        for (size_t j = p.size(); j < r.choices.size(); j++) for (int d = 1; d < r.nopts[j]; d++) { if ((int)r.cost[j] + r.optcost[j][d] > bound) continue; std::vector<int> n(r.choices.begin(), r.choices.begin() + j); n.push_back(d); st.push_back(n); }
      } }
    if (vc::C().verbose || getenv("POOLSTAT")) fprintf(stderr, "%s: %llu (%zu)\n", sc.name.c_str(), (unsigned long long)(vc::C().evaluations - ex0), root.choices.size());
  }
  return vc::finish();
}

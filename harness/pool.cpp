// Explores every schedule (preemption bounded) of small programs over the real ThreadPool.
#include "vc.hpp"
#include "mcsched.hpp"
#include <cstddef>
#include <nuSQuIDS/ThreadPool.h>
#include <atomic>
#include <system_error>

static std::string bad;
static void expect(bool c, const std::string &m) { if (!c && bad.empty()) bad = m; }

struct Err { int code; };
struct Counted {                       // instances alive, counted without synchronisation of its own
  static std::atomic<int> live;
  int v;
  explicit Counted(int x) : v(x) { live.fetch_add(1, std::memory_order_relaxed); }
  Counted(const Counted &o) : v(o.v) { live.fetch_add(1, std::memory_order_relaxed); }
  Counted(Counted &&o) : v(o.v) { o.v = -1; live.fetch_add(1, std::memory_order_relaxed); }
  ~Counted() { live.fetch_sub(1, std::memory_order_relaxed); }
};
std::atomic<int> Counted::live{0};
struct Callable {                      // checks it is invoked on a live object
  Counted c; int *slot;
  int operator()() { (*slot)++; return c.v * 3; }
};
struct Obj { int base; int add(int x) { return base + x; } };
static int freefn(int a, int b) { return a * 100 + b; }

static void values(int W, int n, bool rev) {
  std::vector<int> slot(n, 0);
  {
    ThreadPool p(W);
    std::vector<std::future<int>> f;
    for (int i = 0; i < n; i++) f.push_back(p.enqueue([&slot, i] { mc::event(i); slot[i]++; return 10 + i; }));
    for (int k = 0; k < n; k++) {
      int i = rev ? n - 1 - k : k;
      expect(f[i].valid(), "future not valid");
      expect(f[i].get() == 10 + i, vc::cat("task ", i, " gave a wrong value"));
      expect(slot[i] == 1, vc::cat("effects of task ", i, " not visible after get(), runs=", slot[i]));
    }
  }
  for (int i = 0; i < n; i++) expect(slot[i] == 1, vc::cat("task ", i, " executed ", slot[i], " times"));
}
static void dropped(int W, int n, bool keep) {
  std::vector<int> slot(n, 0);
  std::vector<std::future<int>> f;
  {
    ThreadPool p(W);
    for (int i = 0; i < n; i++) {
      auto fu = p.enqueue([&slot, i] { mc::event(i); slot[i]++; return 7 * i; });
      if (keep) f.push_back(std::move(fu));
    }
  }
  mc::event(99);
  for (int i = 0; i < n; i++) expect(slot[i] == 1, vc::cat("task ", i, " executed ", slot[i], " times by the time the pool is destroyed"));
  for (size_t i = 0; i < f.size(); i++) expect(f[i].get() == 7 * (int)i, "value after destruction");
}
static void fifo(int n) {
  {
    ThreadPool p(1);
    for (int i = 0; i < n; i++) p.enqueue([i] { mc::event(i); });
  }
  auto e = mc::events();
  expect((int)e.size() == n, "count");
  for (int i = 0; i < (int)e.size(); i++) expect(e[i] == i, "one worker: tasks not executed in the order they were enqueued");
}
static void startorder(int W, int n) {   // tasks start in the order of enqueueing: i may not start before all j<=i-W started
  {
    ThreadPool p(W);
    for (int i = 0; i < n; i++) p.enqueue([i] { mc::event(i); });
  }
  auto e = mc::events();
  expect((int)e.size() == n, "count");
  for (int k = 0; k < (int)e.size(); k++)
    expect(e[k] <= k + W - 1, vc::cat("task ", e[k], " started in position ", k, " of a pool of ", W));
}
static void throwing(int W) {
  int after = 0;
  std::vector<std::future<int>> f;
  {
    ThreadPool p(W);
    f.push_back(p.enqueue([]() -> int { throw Err{5}; }));
    f.push_back(p.enqueue([&after]() -> int { after++; return 1; }));
    if (W == 1) {
      bool got = false;
      try { f[0].get(); } catch (Err &e) { got = e.code == 5; }
      expect(got, "the task's exception was not delivered through its future");
      auto g = p.enqueue([] { return 42; });
      expect(g.get() == 42, "pool does not work after a task threw");
    }
  }
  expect(after == 1, "task after a throwing task not executed");
  expect(f[1].get() == 1, "value");
  if (W != 1) {
    bool got = false;
    try { f[0].get(); } catch (Err &e) { got = e.code == 5; }
    expect(got, "the task's exception was not delivered through its future");
  }
}
static void nested(int W) {
  int inner = 0, outer = 0;
  {
    ThreadPool p(W);
    auto f = p.enqueue([&]() { outer++; return p.enqueue([&inner] { inner++; return 5; }); });
    auto g = f.get();
    expect(g.get() == 5, "inner value");
    expect(inner == 1 && outer == 1, "inner/outer counts");
  }
  expect(inner == 1 && outer == 1, "inner/outer counts after destruction");
}
static void producers(int W, int n) {
  std::vector<int> slot(2 * n, 0);
  {
    ThreadPool p(W);
    std::thread t([&] { for (int i = 0; i < n; i++) p.enqueue([&slot, i] { mc::event(i); slot[i]++; }); });
    for (int i = n; i < 2 * n; i++) p.enqueue([&slot, i] { mc::event(i); slot[i]++; });
    t.join();
  }
  for (int i = 0; i < 2 * n; i++) expect(slot[i] == 1, vc::cat("task ", i, " executed ", slot[i], " times"));
}
static void rendezvous(int W) {          // W tasks that each need all the others to have started
  std::vector<std::promise<void>> pr(W);
  std::vector<std::shared_future<void>> sf;
  for (auto &q : pr) sf.push_back(q.get_future().share());
  int done[4] = {0, 0, 0, 0};
  {
    ThreadPool p(W);
    for (int i = 0; i < W; i++)
      p.enqueue([&, i] { pr[i].set_value(); for (int j = 0; j < W; j++) if (j != i) { auto f = sf[j]; f.wait(); } done[i]++; });
  }
  for (int i = 0; i < W; i++) expect(done[i] == 1, "rendezvous task not completed");
}
static void waitothers(int W) {          // first task waits on a later one
  std::promise<int> pr; std::future<int> f = pr.get_future();
  ThreadPool p(W);
  auto a = p.enqueue([&f] { return f.get() + 1; });
  auto b = p.enqueue([&pr] { pr.set_value(8); return 0; });
  expect(a.get() == 9, "value through the second task");
  b.get();
}
static void idle(int W) { ThreadPool p(W); }
static void shutdown_nested(int W) {     // a task enqueues while the pool is being destroyed
  int inner = 0; int refused = 0, other = 0;
  {
    ThreadPool p(W);
    p.enqueue([&] {
      try { p.enqueue([&inner] { inner++; mc::event(2); }); mc::event(1); }
      catch (std::runtime_error &) { refused++; mc::event(3); }
      catch (...) { other++; }
    });
  }
  expect(other == 0, "enqueue during shutdown threw something else than runtime_error");
  expect(inner + refused == 1, vc::cat("accepted work lost at shutdown: executed=", inner, " refused=", refused));
}
static void stopped(int W) {             // enqueue once destruction is under way is refused
  int inner = 0, refused = 0, other = 0, asked = 0;
  {
    ThreadPool p(W);
    p.enqueue([&] {
      for (int i = 0; i < 60 && !mc::joining(0); i++) mc::yield();
      if (!mc::joining(0)) return;
      asked++;
      try { p.enqueue([&inner] { inner++; }); } catch (std::runtime_error &) { refused++; } catch (...) { other++; }
    });
  }
  expect(other == 0 && refused == asked, vc::cat("enqueue on a pool being destroyed: refused ", refused, " of ", asked));
  expect(inner == 0, "a refused task was executed");
  if (asked) vc::note("enqueue after stop reached");
}
static void args(int W) {
  ThreadPool p(W);
  int target = 3;
  Obj o{40};
  auto a = p.enqueue(freefn, 2, 7);
  auto b = p.enqueue(&Obj::add, &o, 2);
  auto c = p.enqueue([](int &x) { x++; }, std::ref(target));
  int loc = 5;
  auto d = p.enqueue([](int x) { return x; }, loc);
  loc = 6;
  std::string s("abc");
  auto e = p.enqueue([](const std::string &q) { return q + "d"; }, s);
  s = "zzz";
  expect(a.get() == 207, "function with two arguments");
  expect(b.get() == 42, "member function");
  c.get();
  expect(target == 4, "reference argument");
  expect(d.get() == 5, "argument not copied at enqueue");
  expect(e.get() == "abcd", "string argument");
}
static void lifetime(int W) {
  Counted::live = 0;
  int slot = 0;
  {
    std::future<int> f;
    {
      ThreadPool p(W);
      f = p.enqueue(Callable{Counted(4), &slot});
    }
    expect(f.get() == 12, "callable's state damaged");
  }
  expect(slot == 1, "callable executed not once");
  expect(Counted::live.load() == 0, vc::cat("callables leaked or destroyed twice: ", Counted::live.load()));
}
static void rounds(int W, int R) {
  ThreadPool p(W);
  int x = 0;
  for (int r = 0; r < R; r++) { p.enqueue([&x] { x++; }).get(); expect(x == r + 1, "round"); }
}
static void twopools() {
  int a = 0, b = 0;
  { ThreadPool p(1), q(1); p.enqueue([&] { a++; q.enqueue([&b] { b++; }).get(); }).get(); expect(a == 1 && b == 1, "task of one pool waiting on another"); }
}
static void nogetdestroy(int W) {        // future discarded before the task runs
  int x = 0;
  { ThreadPool p(W); { auto f = p.enqueue([&x] { x++; return 1; }); } { auto f = p.enqueue([] { return 2; }); f.get(); } }
  expect(x == 1, "task of a discarded future");
}
static int g_failat = -1, g_W = 0;
static void ctorfail() {
  bool threw = false, other = false;
  int x = 0;
  try { ThreadPool p(g_W); p.enqueue([&x] { x++; }); } catch (std::system_error &) { threw = true; } catch (...) { other = true; }
  expect(!other, "constructor failed with something else than system_error");
  expect(threw, "a worker could not be started, yet no exception");
}
static long g_alloc = -1;
static bool g_allocdone = false;
static void allocfail(int W) {           // enqueue fails for lack of memory at its k-th allocation
  int x = 0, y = 0; bool threw = false;
  g_allocdone = false;
  {
    ThreadPool p(W);
    mc::fail_alloc(g_alloc);
    try { auto f = p.enqueue([&x] { x++; return 1; }); mc::fail_alloc(-1); expect(f.get() == 1, "value"); g_allocdone = true; }
    catch (std::bad_alloc &) { threw = true; }
    mc::fail_alloc(-1);
    auto g = p.enqueue([&y] { y++; return 2; });
    expect(g.get() == 2, "pool unusable after a failed enqueue");
  }
  expect(y == 1, "later task");
  expect(x == (threw ? 0 : 1), "a refused task was executed, or an accepted one not");
}

struct Sc { std::string name; std::function<void()> f; int spurious, failat, bq, bt; bool atom; };

int main(int argc, char **argv) {
  vc::init(argc, argv);
  std::vector<Sc> S;
  auto add = [&](const std::string &n, std::function<void()> f, int bq, int bt, int sp = 0, int fa = -1, bool atom = false) { S.push_back({n, f, sp, fa, bq, bt, atom}); };
  for (int W = 1; W <= 3; W++) for (int n = 1; n <= 3; n++) {
    int big = W == 3 || W + n >= 5;
    add(vc::cat("values W", W, " n", n), [=] { values(W, n, false); }, big ? 1 : 2, big ? 2 : 3);
    if (n > 1) add(vc::cat("values reverse W", W, " n", n), [=] { values(W, n, true); }, 1, big ? 2 : 3);
    add(vc::cat("dropped W", W, " n", n), [=] { dropped(W, n, true); }, big ? 1 : 2, big ? 2 : 3);
    if (n <= 2) add(vc::cat("dropped, futures discarded W", W, " n", n), [=] { dropped(W, n, false); }, big ? 1 : 2, big ? 2 : 3);
  }
  for (int n = 2; n <= 4; n++) add(vc::cat("fifo n", n), [=] { fifo(n); }, 2, 3);
  add("start order W2 n4", [] { startorder(2, 4); }, 1, 2);
  add("start order W3 n4", [] { startorder(3, 4); }, 1, 2);
  for (int W = 1; W <= 2; W++) {
    add(vc::cat("throwing W", W), [=] { throwing(W); }, 2, 3);
    add(vc::cat("nested W", W), [=] { nested(W); }, 2, 3);
    add(vc::cat("shutdown race W", W), [=] { shutdown_nested(W); }, 2, 4);
    add(vc::cat("stopped W", W), [=] { stopped(W); }, 1, 2);
    add(vc::cat("arguments W", W), [=] { args(W); }, 1, 2);
    add(vc::cat("lifetime W", W), [=] { lifetime(W); }, 2, 3);
    add(vc::cat("lifetime, atomics W", W), [=] { lifetime(W); }, 1, 2, 0, -1, true);
    add(vc::cat("rounds W", W), [=] { rounds(W, 2); }, 2, 3);
    add(vc::cat("discarded future W", W), [=] { nogetdestroy(W); }, 2, 3);
    add(vc::cat("producers W", W), [=] { producers(W, 1); }, W == 1 ? 2 : 1, W == 1 ? 3 : 2);
  }
  add("producers W1 n2", [] { producers(1, 2); }, 1, 2);
  add("shutdown race W3", [] { shutdown_nested(3); }, 1, 2);
  add("producers W2 n2", [] { producers(2, 2); }, 1, 2);
  add("rendezvous 2", [] { rendezvous(2); }, 2, 3);
  add("rendezvous 3", [] { rendezvous(3); }, 1, 2);
  add("wait on later task", [] { waitothers(2); }, 2, 3);
  add("two pools", twopools, 2, 3);
  for (int W = 0; W <= 4; W++) add(vc::cat("idle W", W), [=] { idle(W); }, W > 2 ? 1 : 3, W > 2 ? 2 : 4);
  add("values atomics W1 n1", [] { values(1, 1, false); }, 2, 3, 0, -1, true);
  add("values atomics W2 n2", [] { values(2, 2, false); }, 1, 2, 0, -1, true);
  add("dropped atomics W2 n2", [] { dropped(2, 2, true); }, 1, 2, 0, -1, true);
  for (int sp = 1; sp <= 2; sp++) {
    add(vc::cat("spurious", sp, " values W1 n2"), [] { values(1, 2, false); }, 2, 3, sp);
    add(vc::cat("spurious", sp, " values W2 n2"), [] { values(2, 2, false); }, 1, 2, sp);
    add(vc::cat("spurious", sp, " dropped W2 n2"), [] { dropped(2, 2, true); }, 2, 3, sp);
    add(vc::cat("spurious", sp, " idle W2"), [] { idle(2); }, 2, 4, sp);
    add(vc::cat("spurious", sp, " shutdown race W2"), [] { shutdown_nested(2); }, 2, 3, sp);
  }
  for (int W = 1; W <= 4; W++) for (int k = 0; k < W; k++)
    add(vc::cat("thread creation ", k, " of ", W, " fails"), [=] { g_W = W; ctorfail(); }, W > 2 ? 1 : 2, W > 2 ? 2 : 3, 0, k);
  for (int W = 1; W <= 2; W++) for (int k = 0; k < 8; k++)
    add(vc::cat("allocation ", k, " in enqueue fails W", W), [=] { g_alloc = k; allocfail(W); }, 1, 2);

  static const Sc *curS; static std::vector<int> curP;
  auto where = [] { return vc::cat("scenario '", curS->name, "' schedule ", vc::show(curP)); };
  auto key = [] { std::string k = curS->name; for (auto &c : k) if (c == ' ') c = '_'; return k; };
  mc::on_stuck = [&](const mc::Result &r) {
    std::string k = r.violation.substr(0, r.violation.find(':'));
    for (auto &c : k) if (c == ' ') c = '_';
    vc::fail(k + ":" + key(), r.violation + " in " + where() + " choices " + vc::show(r.choices) + " trace " + r.log.substr(r.log.size() > 900 ? r.log.size() - 900 : 0));
    vc::write_result();
    _exit(3);
  };
  std::set_terminate([] { mc::Result r; r.violation = "terminate: std::terminate was called"; r.choices = curP; mc::on_stuck(r); _exit(70); });
  for (auto &sc : S) {
    curS = &sc;
    mc::Config cfg; cfg.spurious = sc.spurious; cfg.fail_create_at = sc.failat; cfg.atomics_are_points = sc.atom;
    int bound = vc::thorough() ? sc.bt : sc.bq;
    uint64_t ex0 = vc::C().evaluations;
    auto exec = [&](const std::vector<int> &pre) {
      bad.clear(); curP = pre;
      mc::Result r = mc::run(sc.f, pre, cfg);
      vc::eval(); vc::transition(r.steps); vc::trace();
      vc::state(r.trace_hash ^ vc::fnv(sc.name));
      vc::outcome(vc::fnv(sc.name + vc::show(r.events)));
      if (!bad.empty()) vc::fail("wrong:" + key(), bad + " in " + where() + " choices " + vc::show(r.choices));
      if (r.violation.size()) vc::fail("viol:" + key(), r.violation);
      return r;
    };
    // a first execution tells where the schedule can deviate
    mc::Result root;
    // every shard runs it; only the owner counts it as a case
    bool mine = vc::begin();
    auto ev = vc::C().evaluations, tr = vc::C().transitions, tc = vc::C().traces;
    if (vc::C().hb) vc::C().hb[0] = vc::C().ncase;
    root = exec({});
    if (!mine) { vc::C().evaluations = ev; vc::C().transitions = tr; vc::C().traces = tc; }
    else { vc::sample(vc::cat(sc.name, ": choices ", vc::show(root.choices), " events ", vc::show(root.events), " steps ", root.steps)); vc::note("scenarios"); }
    if (sc.failat >= 0 && root.failed_creates == 0) vc::fail("setup:" + key(), "the failing thread creation was never reached");
    struct Item { std::vector<int> pre; };
    for (size_t i = 0; i < root.choices.size(); i++)
      for (int c = 1; c < root.nopts[i]; c++) {
        if ((int)root.cost[i] + root.optcost[i][c] > bound) continue;
        if (!vc::begin()) continue;
        std::vector<Item> st;
        { Item it; it.pre.assign(root.choices.begin(), root.choices.begin() + i); it.pre.push_back(c); st.push_back(it); }
        while (!st.empty()) {
          Item it = st.back(); st.pop_back();
          mc::Result r = exec(it.pre);
          if (vc::C().evaluations % 64 == 0) vc::beat();
          for (size_t j = it.pre.size(); j < r.choices.size(); j++)
            for (int d = 1; d < r.nopts[j]; d++) {
              if ((int)r.cost[j] + r.optcost[j][d] > bound) continue;
              Item n; n.pre.assign(r.choices.begin(), r.choices.begin() + j); n.pre.push_back(d); st.push_back(n);
            }
        }
      }
    if (vc::C().verbose || getenv("POOLSTAT")) fprintf(stderr, "%s: %llu\n", sc.name.c_str(), (unsigned long long)(vc::C().evaluations - ex0));
  }
  return vc::finish();
}

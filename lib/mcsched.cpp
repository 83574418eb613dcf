// See mcsched.hpp.  Compiled without any instrumentation.
#include "mcsched.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unordered_map>
#include <deque>
#include <map>
#include <new>

extern "C" char __libc_single_threaded;

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

namespace {
enum Op { NONE, START, LOCK, WAITREL, WAKE, SIGNAL, BCAST, CREATE, JOIN, ATOMIC, FWAIT, FWOKEN, FWAKE, ONCE, YIELD, TRY };
const char *opname[] = {"none", "start", "lock", "wait", "wake", "signal", "broadcast", "create", "join", "atomic", "fwait", "fwoken", "fwake", "once", "yield", "trylock"};
const int MAXT = 12;
typedef uint32_t VC[MAXT];

struct Th {
  int id; pthread_t real; volatile int token; bool done, detached, exited_ok;
  Op op; const void *obj; const void *obj2; int jt;
  bool signaled, timed, timedout, spurious;
  VC vc; void *(*fn)(void *); void *arg; void *ret;
};
struct Sync { VC vc; int owner; int rec; Sync() : owner(-1), rec(0) { memset(vc, 0, sizeof vc); } };
struct Cond { std::deque<int> waiters; };
struct Cell { uint32_t w[MAXT], r[MAXT]; uint8_t wm[MAXT], rm[MAXT]; };

struct S {
  bool on = false;
  mc::Config cfg;
  std::vector<Th *> th;
  Th *cur = nullptr;
  std::unordered_map<const void *, Sync> sync;
  std::unordered_map<const void *, Cond> cond, fut;
  std::unordered_map<uintptr_t, Cell> shadow;
  const std::vector<int> *prefix;
  mc::Result res;
  uint64_t spent = 0; int spur = 0; int creates = 0;
  std::vector<std::pair<int, Op>> trace;
} G;

__thread Th *me = nullptr;
__thread int inrt = 0;    // inside the runtime: do not instrument

template <class F> F real(const char *n) { static F f = nullptr; (void)f; return (F)dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, args) typedef ret(*F_##name) args; static F_##name r_##name; \
  static F_##name g_##name() { if (!r_##name) r_##name = (F_##name)dlsym(RTLD_NEXT, #name); return r_##name; }
REAL(int, pthread_mutex_lock, (pthread_mutex_t *))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t *))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t *))
REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *))
REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *))
REAL(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))
REAL(int, pthread_cond_signal, (pthread_cond_t *))
REAL(int, pthread_cond_broadcast, (pthread_cond_t *))
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))
REAL(int, pthread_join, (pthread_t, void **))
REAL(int, pthread_detach, (pthread_t))
REAL(int, pthread_once, (pthread_once_t *, void (*)(void)))
REAL(int, sched_yield, (void))

void vjoin(VC a, const VC b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
void acquire(const void *o) { vjoin(me->vc, G.sync[o].vc); }
void release(const void *o) { vjoin(G.sync[o].vc, me->vc); me->vc[me->id]++; }

void token_give(Th *t) { __atomic_store_n(&t->token, 1, __ATOMIC_SEQ_CST); raw_syscall(SYS_futex, (long)&t->token, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
void token_wait(Th *t) {
  for (;;) {
    if (__atomic_exchange_n(&t->token, 0, __ATOMIC_SEQ_CST)) return;
    raw_syscall(SYS_futex, (long)&t->token, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  }
}

void stuck(const std::string &why) {
  inrt++;
  G.res.violation = why;
  std::string l;
  char b[96];
  size_t from = G.trace.size() > 400 ? G.trace.size() - 400 : 0;
  for (size_t i = from; i < G.trace.size(); i++) { snprintf(b, 96, "T%d:%s ", G.trace[i].first, opname[G.trace[i].second]); l += b; }
  l += "| state:";
  for (Th *t : G.th) { snprintf(b, 96, " T%d=%s", t->id, t->done ? "done" : opname[t->op]); l += b; }
  G.res.log = l;
  G.on = false;
  if (mc::on_stuck) mc::on_stuck(G.res);
  _exit(70);
}

bool enabled(Th *t, bool timers) {
  if (t->done) return false;
  switch (t->op) {
    case LOCK: { auto &s = G.sync[t->obj]; return s.owner < 0 || s.owner == t->id; }
    case WAKE: return (t->signaled || t->spurious || (t->timed && timers)) && G.sync[t->obj2].owner < 0;
    case FWOKEN: return t->signaled || t->spurious || (t->timed && timers);
    case JOIN: return G.th[t->jt]->done;
    case ONCE: return *(const int *)t->obj != 1;
    default: return true;
  }
}

int decide(const std::vector<int> &optcost) {
  size_t i = G.res.choices.size();
  int c = 0;
  if (i < G.prefix->size()) {
    c = (*G.prefix)[i];
    if (c < 0 || c >= (int)optcost.size()) { fprintf(stderr, "replay divergence at decision %zu: %d of %zu\n", i, c, optcost.size()); _exit(71); }
  }
  G.res.choices.push_back(c); G.res.nopts.push_back((int)optcost.size());
  G.res.cost.push_back(G.spent); G.res.optcost.push_back(optcost);
  G.spent += optcost[c];
  return c;
}

// Pick who runs next.  mine: the current thread is still a candidate.
void schedule(bool mine) {
  Th *self = me;
  for (;;) {
    if (++G.res.steps > G.cfg.max_steps) stuck("livelock: step horizon exceeded");
    std::vector<Th *> cand; std::vector<int> cost;
    bool cur_en = mine && enabled(self, false);
    bool yielding = mine && self->op == YIELD;
    if (cur_en && !yielding) { cand.push_back(self); cost.push_back(0); }
    for (Th *t : G.th) if (t != self && enabled(t, false)) { cand.push_back(t); cost.push_back(cur_en && !yielding ? 1 : 0); }
    if (yielding) { cand.push_back(self); cost.push_back(cand.size() > 1 ? 1 : 0); }
    size_t base = cand.size();
    std::vector<Th *> sp;
    if (G.spur < G.cfg.spurious)
      for (Th *t : G.th) if (!t->done && t->op == WAKE && !t->signaled && !t->spurious) { sp.push_back(t); cost.push_back(1); }
    if (cand.empty()) {
      for (Th *t : G.th) if (enabled(t, true)) { cand.push_back(t); cost.insert(cost.begin() + cand.size() - 1, 0); }
      base = cand.size();
      for (Th *t : cand) t->timedout = true;
    }
    if (cand.empty()) {
      bool all = true;
      for (Th *t : G.th) if (!t->done) all = false;
      if (all) return;
      stuck("deadlock: no thread can run");
    }
    int c = cand.size() + sp.size() > 1 ? decide(cost) : 0;
    if (c >= (int)base) { sp[c - base]->spurious = true; G.spur++; continue; }
    Th *n = cand[c];
    for (Th *t : G.th) if (t != n) t->timedout = false;
    G.trace.push_back({n->id, n->op});
    G.cur = n;
    if (n != self) { token_give(n); if (mine) token_wait(self); }
    return;
  }
}

void point(Op op, const void *obj, const void *obj2 = nullptr) {
  me->op = op; me->obj = obj; me->obj2 = obj2;
  schedule(true);
  me->op = NONE;
}

void clear_range(const void *p, size_t n) {
  if (G.shadow.empty()) return;
  uintptr_t a = (uintptr_t)p / 8, b = ((uintptr_t)p + n + 7) / 8;
  if (b - a > 4096) { for (auto it = G.shadow.begin(); it != G.shadow.end();) if (it->first >= a && it->first < b) it = G.shadow.erase(it); else ++it; return; }
  for (; a < b; a++) G.shadow.erase(a);
}

void race(uintptr_t addr, int other, bool w, bool ow) {
  char b[200];
  snprintf(b, 200, "data race: %s by thread %d not ordered after %s by thread %d", w ? "write" : "read", me->id, ow ? "write" : "read", other);
  stuck(b);
}

void access(uintptr_t a, size_t n, bool w) {
  if (!G.on || !me || inrt) return;
  inrt++;
  uintptr_t end = a + n;
  while (a < end) {
    uintptr_t g = a / 8; size_t off = a & 7; size_t k = 8 - off; if (k > end - a) k = end - a;
    uint8_t m = (uint8_t)(((1u << k) - 1) << off);
    auto it = G.shadow.find(g);
    if (it == G.shadow.end()) { Cell c; memset(&c, 0, sizeof c); it = G.shadow.emplace(g, c).first; }
    Cell &c = it->second;
    int id = me->id;
    for (size_t t = 0; t < G.th.size(); t++) if ((int)t != id) {
      if ((c.wm[t] & m) && c.w[t] > me->vc[t]) race(a, t, w, true);
      if (w && (c.rm[t] & m) && c.r[t] > me->vc[t]) race(a, t, w, false);
    }
    if (w) { if (c.w[id] != me->vc[id]) { c.w[id] = me->vc[id]; c.wm[id] = m; } else c.wm[id] |= m; }
    else { if (c.r[id] != me->vc[id]) { c.r[id] = me->vc[id]; c.rm[id] = m; } else c.rm[id] |= m; }
    a += k;
  }
  inrt--;
}

void *tramp(void *p) {
  Th *t = (Th *)p;
  inrt++;
  me = t;
  token_wait(t);
  pthread_attr_t at; void *sa; size_t ss;
  if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &sa, &ss); pthread_attr_destroy(&at); clear_range(sa, ss); }
  t->op = NONE;
  inrt--;
  void *r = t->fn(t->arg);
  inrt++;
  t->ret = r;
  t->done = true;
  schedule(false);
  me = nullptr;
  return r;
}
bool ctl() { return G.on && me && !inrt; }
struct In { In() { inrt++; } ~In() { inrt--; } };
}

namespace mc {
std::function<void(const Result &)> on_stuck;
int self() { return me ? me->id : -1; }
bool active() { return G.on; }
bool joining(int t) { return G.on && t < (int)G.th.size() && G.th[t]->op == JOIN; }
void yield() { if (ctl()) { In i; point(YIELD, nullptr); } }
Result run(const std::function<void()> &body, const std::vector<int> &prefix, const Config &cfg) {
  In in;
  __libc_single_threaded = 0;
  for (Th *t : G.th) delete t;
  G.th.clear(); G.sync.clear(); G.cond.clear(); G.fut.clear(); G.shadow.clear(); G.trace.clear();
  G.res = Result(); G.prefix = &prefix; G.cfg = cfg; G.spent = 0; G.spur = 0; G.creates = 0;
  Th *m = new Th(); m->id = 0; m->real = pthread_self(); m->vc[0] = 1;
  G.th.push_back(m); me = m; G.cur = m;
  G.on = true;
  inrt = 0;
  body();
  inrt = 1;
  // threads that are still there after the body has returned
  bool left = false;
  for (Th *t : G.th) if (t != m && !t->done) left = true;
  if (left) stuck("a thread is still running after the body has returned");
  if (G.res.choices.size() < prefix.size()) { fprintf(stderr, "replay divergence: execution shorter than its prefix\n"); _exit(71); }
  G.on = false; me = nullptr;
  for (Th *t : G.th) if (t != m && !t->exited_ok && !t->detached) g_pthread_join()(t->real, nullptr);
  G.res.threads = (int)G.th.size();
  uint64_t h = 1469598103934665603ULL;
  for (auto &e : G.trace) { h ^= e.first * 31 + e.second; h *= 1099511628211ULL; }
  G.res.trace_hash = h;
  return G.res;
}
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!ctl()) return g_pthread_mutex_lock()(m);
  In i; auto &s0 = G.sync[m];
  if (s0.owner == me->id) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s0.rec++; return 0; } stuck("deadlock: thread locks a mutex it already holds"); }
  point(LOCK, m); G.sync[m].owner = me->id; acquire(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!ctl()) return g_pthread_mutex_trylock()(m);
  In i; point(TRY, m); auto &s = G.sync[m]; if (s.owner >= 0) return EBUSY; s.owner = me->id; acquire(m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!ctl()) return g_pthread_mutex_unlock()(m);
  In i; auto &s = G.sync[m];
  if (s.owner != me->id) stuck("unlock of a mutex the thread does not hold");
  if (s.rec) { s.rec--; return 0; }
  release(m); s.owner = -1; return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  In i;
  point(WAITREL, c, m);
  auto &s = G.sync[m];
  if (s.owner != me->id) stuck("condition wait without holding the mutex");
  release(m); s.owner = -1;
  G.cond[c].waiters.push_back(me->id);
  me->signaled = me->spurious = me->timedout = false; me->timed = timed;
  point(WAKE, c, m);
  bool to = !me->signaled && me->timedout;
  auto &w = G.cond[c].waiters;
  for (auto it = w.begin(); it != w.end(); ++it) if (*it == me->id) { w.erase(it); break; }
  me->signaled = me->spurious = me->timed = me->timedout = false;
  G.sync[m].owner = me->id; acquire(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return ctl() ? cwait(c, m, false) : g_pthread_cond_wait()(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return ctl() ? cwait(c, m, true) : g_pthread_cond_timedwait()(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return ctl() ? cwait(c, m, true) : g_pthread_cond_clockwait()(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!ctl()) return g_pthread_cond_signal()(c);
  In i; point(SIGNAL, c);
  std::vector<int> w; for (int t : G.cond[c].waiters) if (!G.th[t]->signaled) w.push_back(t);
  if (w.empty()) return 0;
  int k = w.size() > 1 ? decide(std::vector<int>(w.size(), 0)) : 0;
  G.th[w[k]]->signaled = true; return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!ctl()) return g_pthread_cond_broadcast()(c);
  In i; point(BCAST, c); for (int t : G.cond[c].waiters) G.th[t]->signaled = true; return 0;
}
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!ctl()) return g_pthread_create()(p, a, fn, arg);
  In i; point(CREATE, nullptr);
  if (G.creates++ == G.cfg.fail_create_at) { G.res.failed_creates++; return EAGAIN; }
  if (G.th.size() >= MAXT) { fprintf(stderr, "too many threads\n"); _exit(72); }
  Th *t = new Th(); t->id = (int)G.th.size(); t->fn = fn; t->arg = arg; t->op = START;
  memcpy(t->vc, me->vc, sizeof(VC)); t->vc[t->id] = 1; me->vc[me->id]++;
  int r = g_pthread_create()(&t->real, a, tramp, t);
  if (r) { fprintf(stderr, "pthread_create: %d\n", r); _exit(72); }
  G.th.push_back(t); *p = t->real; return 0;
}
int pthread_join(pthread_t p, void **ret) {
  if (!ctl()) return g_pthread_join()(p, ret);
  In i; int k = -1;
  for (Th *t : G.th) if (t->id && pthread_equal(t->real, p) && !t->exited_ok) k = t->id;
  if (k < 0) return ESRCH;
  me->jt = k; point(JOIN, nullptr);
  Th *t = G.th[k]; vjoin(me->vc, t->vc); t->exited_ok = true;
  g_pthread_join()(p, nullptr);
  if (ret) *ret = t->ret; return 0;
}
int pthread_detach(pthread_t p) {
  if (ctl()) for (Th *t : G.th) if (t->id && pthread_equal(t->real, p)) t->detached = true;
  return g_pthread_detach()(p);
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!ctl()) return g_pthread_once()(o, fn);
  { In i; point(ONCE, o); acquire(o); }
  if (*o == 2) return 0;
  *o = 1;
  struct U { pthread_once_t *o; bool ok; ~U() { if (!ok) *o = 0; } } u = {o, false};
  fn();
  In i; u.ok = true; release(o); *o = 2; return 0;
}
int sched_yield(void) { if (!ctl()) return g_sched_yield()(); In i; point(YIELD, nullptr); return 0; }
int nanosleep(const struct timespec *t, struct timespec *rem) {
  if (!ctl()) return (int)raw_syscall(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0);
  In i; point(YIELD, nullptr); return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *rem) {
  if (!ctl()) return (int)-raw_syscall(SYS_clock_nanosleep, c, f, (long)t, (long)rem, 0, 0);
  In i; point(YIELD, nullptr); return 0;
}
int usleep(useconds_t us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; return nanosleep(&t, nullptr); }

long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && ctl()) {
    In i;
    int op = (int)a[1] & FUTEX_CMD_MASK; volatile int *u = (volatile int *)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(FWAIT, (void *)u);
      if (*u != (int)a[2]) { errno = EAGAIN; return -1; }
      G.fut[(void *)u].waiters.push_back(me->id);
      me->signaled = me->spurious = me->timedout = false; me->timed = a[3] != 0;
      point(FWOKEN, (void *)u);
      bool to = !me->signaled;
      auto &w = G.fut[(void *)u].waiters;
      for (auto it = w.begin(); it != w.end(); ++it) if (*it == me->id) { w.erase(it); break; }
      me->signaled = me->timed = me->timedout = false;
      if (to) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      point(FWAKE, (void *)u);
      long k = 0; for (int t : G.fut[(void *)u].waiters) if (k < a[2] && !G.th[t]->signaled) { G.th[t]->signaled = true; k++; }
      return k;
    }
  }
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---- instrumentation entry points --------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void *p) { access((uintptr_t)p, n, true); } void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } \
  void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true); }
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false); }

static void at_before(const void *p) { if (G.cfg.atomics_are_points) point(ATOMIC, p); }
static void at_order(const void *p, int mo, bool ld, bool st) {
  bool acq = ld && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME);
  bool rel = st && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
  if (acq) acquire(p);
  if (rel) release(p);
  // a plain relaxed store ends the release sequence; this runtime keeps it (never a false race)
}
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) { if (!ctl()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T v = *p; at_order((void *)p, mo, true, false); return v; } \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { if (!ctl()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } In i; at_before((void *)p); at_order((void *)p, mo, false, true); *p = v; } \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { if (!ctl()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T o = *p; *p = v; at_order((void *)p, mo, true, true); return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { if (!ctl()) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T o = *p; *p = (T)(o + v); at_order((void *)p, mo, true, true); return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { if (!ctl()) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T o = *p; *p = (T)(o - v); at_order((void *)p, mo, true, true); return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { if (!ctl()) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T o = *p; *p = (T)(o & v); at_order((void *)p, mo, true, true); return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { if (!ctl()) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T o = *p; *p = (T)(o | v); at_order((void *)p, mo, true, true); return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { if (!ctl()) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T o = *p; *p = (T)(o ^ v); at_order((void *)p, mo, true, true); return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { if (!ctl()) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T o = *p; *p = (T)~(o & v); at_order((void *)p, mo, true, true); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { if (!ctl()) return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); In i; at_before((void *)p); T o = *p; if (o == *e) { *p = v; at_order((void *)p, mo, true, true); return 1; } *e = o; at_order((void *)p, fmo, true, false); return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { static int f; if (ctl()) { In i; acquire(&f); release(&f); } }
void __tsan_atomic_signal_fence(int) {}
}

// initialisation of function-local variables
extern "C" {
int __cxa_guard_acquire(uint64_t *g) {
  volatile char *c = (volatile char *)g;
  if (!ctl()) {
    for (;;) {
      if (__atomic_load_n(&c[0], __ATOMIC_ACQUIRE)) return 0;
      char no = 0; if (__atomic_compare_exchange_n(&c[1], &no, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { if (!c[0]) return 1; c[1] = 0; return 0; }
      raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
  }
  In i; point(ATOMIC, g);
  while (c[1] && !c[0]) point(YIELD, g);
  if (c[0]) { acquire(g); return 0; }
  c[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t *g) { volatile char *c = (volatile char *)g; if (ctl()) { In i; release(g); } __atomic_store_n(&c[0], 1, __ATOMIC_RELEASE); __atomic_store_n(&c[1], 0, __ATOMIC_RELEASE); }
void __cxa_guard_abort(uint64_t *g) { ((volatile char *)g)[1] = 0; }
}

// memory that changes hands through the allocator starts without a history
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && G.on && me) { inrt++; clear_range(p, n); inrt--; } return p; }
void *calloc(size_t k, size_t n) { void *p = __libc_calloc(k, n); if (p && G.on && me) { inrt++; clear_range(p, k * n); inrt--; } return p; }
void *__libc_memalign(size_t, size_t);
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p && G.on && me) { inrt++; clear_range(p, n); inrt--; } return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **q, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *q = p; return 0; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (p && p != q && G.on && me) { inrt++; clear_range(p, n); inrt--; } return p; }
}
namespace mc {
static __thread long alloc_countdown = -1; static __thread long alloc_seen = 0;
void fail_alloc(long k) { alloc_countdown = k; alloc_seen = 0; }
long allocs() { return alloc_seen; }
void event(int e) { In i; G.res.events.push_back(e); }
std::vector<int> events() { return G.res.events; }
}
void *operator new(size_t n) {
  if (!inrt && me) { mc::alloc_seen++; if (mc::alloc_countdown >= 0 && mc::alloc_countdown-- == 0) throw std::bad_alloc(); }
  void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

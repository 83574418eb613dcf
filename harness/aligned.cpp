// C05: aligned_allocator on top of an operator new[] which hands out blocks at
// every offset modulo the alignment, with guard bytes on both sides.
#include "vc.hpp"
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <new>
#include <limits>
#include <vector>
#include <map>
#include <list>
#include <memory>
#include <nuSQuIDS/aligned_alloc.h>
#include <nuSQuIDS/marray.h>

// ---- the heap under the allocator
struct Block { size_t n; char *raw; size_t rawn; };
static std::map<char *, Block> *blocks;          // live blocks handed out by new[]
static bool on = false, fail_next = false;
static size_t want_mod = 0, want_align = 1;      // place the block at want_mod modulo want_align
static size_t news = 0, deletes = 0, last_request = 0;
static std::string heap_error;
static const size_t G = 64;
static void *take(size_t n) {
  if (!on) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  on = false;
  last_request = n;
  struct R { ~R() { on = true; } } r;
  if (fail_next || n > (size_t(1) << 33)) { throw std::bad_alloc(); }
  size_t rawn = n + 2 * G + 2 * want_align;
  char *raw = (char *)malloc(rawn);
  if (!raw) throw std::bad_alloc();
  char *p = raw + G;
  while ((uintptr_t)p % want_align != want_mod) p++;
  memset(p - G, 0xA5, G); memset(p + n, 0x5A, G);
  (*blocks)[p] = Block{n, raw, rawn};
  news++;
  return p;
}
static void give(void *q) {
  if (!q) return;
  bool was = on;
  if (!on && (!blocks || !blocks->count((char *)q))) { free(q); return; }
  on = false;
  auto it = blocks->find((char *)q);
  if (it == blocks->end()) heap_error = "delete[] of an address which new[] did not return";
  else {
    Block b = it->second; char *p = it->first;
    for (size_t i = 0; i < G; i++) {
      if ((unsigned char)p[-(long)G + (long)i] != 0xA5) heap_error = "bytes before the block were overwritten";
      if ((unsigned char)p[b.n + i] != 0x5A) heap_error = "bytes after the block were overwritten";
    }
    blocks->erase(it); free(b.raw); deletes++;
  }
  on = was;
}
void *operator new[](size_t n) { return take(n); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

template <size_t N> struct Bytes { unsigned char b[N]; };
static bool inside(char *p, size_t n, char **base = nullptr) {
  bool was = on; on = false;
  bool r = false;
  for (auto &b : *blocks) if (p >= b.first && p + n <= b.first + b.second.n) { r = true; if (base) *base = b.first; }
  on = was;
  return r;
}
static void heapcheck(std::string const &id) {
  on = false;
  if (!heap_error.empty()) vc::fail("heap", id + ": " + heap_error);
  heap_error.clear();
}

template <class T> void single(const char *tn, unsigned pmax) {
  std::vector<size_t> ns{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000};
  for (unsigned p = 0; p <= pmax; p++) {
    if (!vc::begin()) continue;
    size_t al = size_t(1) << p;
    std::vector<size_t> mods;
    if (al <= 64) for (size_t m = 0; m < al; m++) mods.push_back(m);
    else for (size_t m : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(4), size_t(5), size_t(7), size_t(8), size_t(15), size_t(16), size_t(17), size_t(32), size_t(48), size_t(64), size_t(127), size_t(128), size_t(129), size_t(255), al / 2 - 1, al / 2, al / 2 + 1, al - 256, al - 255, al - 17, al - 16, al - 15, al - 8, al - 5, al - 4, al - 3, al - 2, al - 1}) if (m < al) mods.push_back(m);
    for (size_t m : mods) for (size_t n : ns) {
      std::string id = vc::cat(tn, " alignment 2^", p, " base ", m, " n ", n);
      vc::transition(2); vc::trace(); vc::eval(); vc::state(id);
      aligned_allocator<T> a((uint8_t)p);
      want_align = al; want_mod = m; on = true;
      T *q = nullptr;
      try { q = a.allocate(n); } catch (std::bad_alloc &) { on = false; vc::fail("allocate:throw", id + ": bad_alloc"); continue; }
      on = false;
      if (!q) { vc::fail("allocate:null", id); continue; }
      if ((uintptr_t)q % al) vc::fail("allocate:align", vc::cat(id, ": address is ", (uintptr_t)q % al, " modulo the alignment"));
      if (!inside((char *)q, n * sizeof(T))) { vc::fail("allocate:inside", id + ": the storage is not inside the block obtained"); heap_error.clear(); blocks->clear(); continue; }
      memset((void *)q, 0x77, n * sizeof(T));
      vc::outcome(vc::cat(p, ",", ((uintptr_t)q - (uintptr_t)blocks->begin()->first) & 255));
      on = true; a.deallocate(q, n); on = false;
      heapcheck(id);
      if (!blocks->empty()) { vc::fail("deallocate:leak", id + ": the block was not released"); blocks->clear(); }
    }
    // sizes which cannot be represented or obtained
    aligned_allocator<T> a((uint8_t)p);
    size_t mx = a.max_size();
    want_mod = 0;
    for (size_t n : {mx + 1, mx + 2, std::numeric_limits<size_t>::max() / sizeof(T), std::numeric_limits<size_t>::max() / sizeof(T) + 1, std::numeric_limits<size_t>::max() - 1, std::numeric_limits<size_t>::max(), std::numeric_limits<size_t>::max() / 2 + 1}) {
      if (n <= mx) continue;
      vc::transition(); vc::eval();
      on = true; last_request = 0; T *q = nullptr; bool t = false;
      try { q = a.allocate(n); } catch (std::bad_alloc &) { t = true; } catch (std::length_error &) { t = true; }
      on = false;
      if (!t) { vc::fail("allocate:toobig", vc::cat(tn, " 2^", p, " n ", n, ": returned storage")); blocks->clear(); }
      if (last_request) vc::fail("allocate:toobig", vc::cat(tn, " 2^", p, " n ", n, ": asked for ", last_request, " bytes"));
    }
    for (size_t n : {mx, mx - 1, mx / 2}) {  // representable but not available
      vc::transition(); vc::eval();
      on = true; last_request = 0; bool t = false;
      try { a.allocate(n); } catch (std::bad_alloc &) { t = true; }
      on = false;
      if (!t || last_request < n * sizeof(T)) { vc::fail("allocate:wrap", vc::cat(tn, " 2^", p, " n ", n, " of ", sizeof(T), " bytes: asked for ", last_request, " bytes")); blocks->clear(); }
    }
    // exhausted heap
    on = true; fail_next = true; bool t = false;
    try { a.allocate(3); } catch (std::bad_alloc &) { t = true; }
    on = false; fail_next = false;
    if (!t) vc::fail("allocate:oom", vc::cat(tn, " 2^", p));
    on = true; a.deallocate(nullptr, 0); on = false; heapcheck("deallocate of a null pointer");
  }
}

// all sequences of allocate / release of up to N blocks
static void sequences(unsigned depth) {
  typedef Bytes<8> T;
  struct Live { T *p; size_t n; unsigned char tag; unsigned pw; };
  const size_t ns[] = {0, 1, 5};
  const unsigned pws[] = {0, 4, 9};
  // op codes: 0..8 allocate(ns[i],pws[j]); 9.. release live k
  std::vector<unsigned> seq;
  std::function<void()> rec = [&]() {
    if (!seq.empty()) {
      if (!vc::begin()) goto deeper;
      std::vector<Live> live; unsigned char tag = 1;
      std::string id = "sequence " + vc::show(seq);
      vc::trace();
      blocks->clear();
      for (unsigned op : seq) {
        vc::transition();
        if (op < 9) {
          unsigned pw = pws[op / 3]; size_t n = ns[op % 3];
          aligned_allocator<T> a((uint8_t)pw);
          want_align = 512; want_mod = (tag * 37) % 512; on = true;
          T *p = a.allocate(n); on = false;
          if ((uintptr_t)p & ((1u << pw) - 1)) vc::fail("seq:align", id);
          if (!inside((char *)p, n * sizeof(T))) { vc::fail("seq:inside", id); return; }
          for (auto &l : live) if ((char *)p < (char *)(l.p + l.n) && (char *)l.p < (char *)(p + n)) vc::fail("seq:overlap", id);
          memset((void *)p, tag, n * sizeof(T));
          live.push_back({p, n, tag, pw}); tag++;
        } else {
          unsigned k = op - 9;
          Live l = live[k]; live.erase(live.begin() + k);
          for (size_t i = 0; i < l.n * sizeof(T); i++) if (((unsigned char *)l.p)[i] != l.tag) { vc::fail("seq:content", id + ": contents changed"); break; }
          aligned_allocator<T> a((uint8_t)l.pw);
          on = true; a.deallocate(l.p, l.n); on = false; heapcheck(id);
        }
        std::string st; for (auto &l : live) st += vc::cat(l.pw, "/", l.n, " "); vc::state("seq " + st);
      }
      for (auto &l : live) { aligned_allocator<T> a((uint8_t)l.pw); on = true; a.deallocate(l.p, l.n); on = false; heapcheck(id); }
      if (!blocks->empty()) { vc::fail("seq:leak", id); blocks->clear(); }
      vc::eval();
    }
  deeper:
    if (seq.size() == depth) return;
    unsigned nlive = 0; for (unsigned o : seq) nlive += o < 9 ? 1 : -1;
    for (unsigned o = 0; o < 9 + nlive; o++) { seq.push_back(o); rec(); seq.pop_back(); }
  };
  rec();
}

template <class T, class A> static bool aligned_at(const T *p, A pw) { return p == nullptr || ((uintptr_t)p & ((size_t(1) << pw) - 1)) == 0; }

// containers which use the allocator
static void containers() {
  for (unsigned p = 3; p <= 12; p++) for (unsigned p2 = 3; p2 <= 12; p2 += 3) for (size_t mod : {size_t(0), size_t(8), size_t(24), size_t(40)}) {
    if (!vc::begin()) continue;
    std::string id = vc::cat("containers 2^", p, " and 2^", p2, " base ", mod);
    vc::state(id); vc::trace();
    want_align = 4096; want_mod = mod;
    typedef aligned_allocator<double> A;
    size_t n0 = blocks->size();
    {
      std::vector<double, A> v((A((uint8_t)p)));
      on = true;
      for (int i = 0; i < 40; i++) { v.push_back(i); if (!aligned_at(v.data(), p)) { on = false; vc::fail("vector:align", vc::cat(id, " size ", i)); on = true; } }
      std::vector<double, A> w(v), x((A((uint8_t)p2))); x.assign(7, 1.0);
      if (!aligned_at(w.data(), p) || w != v) { on = false; vc::fail("vector:copy", id); on = true; }
      std::vector<double, A> v0(v);
      x = v; // copy assignment keeps x's allocator
      if (x != v0 || !aligned_at(x.data(), p2)) { on = false; vc::fail("vector:assign", id); on = true; }
      x = std::move(v); // move assignment takes v's buffer and allocator
      if (x != v0 || !aligned_at(x.data(), p)) { on = false; vc::fail("vector:move", id); on = true; }
      for (int i = 0; i < 40; i++) { x.push_back(i); if (!aligned_at(x.data(), p)) { on = false; vc::fail("vector:align-after-move", id); on = true; break; } }
      on = false; vc::transition(6);
      on = true;
      v.swap(v); { std::vector<double, A> kill(std::move(w)); }
      { using namespace nusquids; typedef marray<double, 2, A> M;
        on = false; M a{A((uint8_t)p)}, b{A((uint8_t)p2)}; on = true;
        a.resize(std::vector<size_t>{3, 5}); std::fill(a.begin(), a.end(), 2.5);
        if (!aligned_at(a.get_data(), p)) { on = false; vc::fail("marray:resize", id); on = true; }
        b.resize(std::vector<size_t>{2, 2}); std::fill(b.begin(), b.end(), 1.0);
        b = a; if (!aligned_at(b.get_data(), p2) || b[2][4] != 2.5) { on = false; vc::fail("marray:assign", id); on = true; }
        M c(a); if (!aligned_at(c.get_data(), p)) { on = false; vc::fail("marray:copy", id); on = true; }
        b = std::move(a); if (!aligned_at(b.get_data(), p) || b.extent(1) != 5) { on = false; vc::fail("marray:move", id); on = true; }
        b.resize(0, 7); if (!aligned_at(b.get_data(), p) || b[1][2] != 2.5) { on = false; vc::fail("marray:grow", id); on = true; }
        M d(std::move(b)); if (!aligned_at(d.get_data(), p) || d[0][0] != 2.5) { on = false; vc::fail("marray:movector", id); on = true; }
        on = false; vc::transition(6); on = true;
      }
      // node based: the allocator is rebound to a type of its own
      { std::list<double, A> l((A((uint8_t)std::max(p, 4u)))); for (int i = 0; i < 9; i++) l.push_back(i);
        int k = 0; for (double y : l) if (y != k++) { on = false; vc::fail("list", id); on = true; } }
      on = false;
    }
    on = true; on = false;
    heapcheck(id);
    if (blocks->size() != n0) { vc::fail("containers:leak", id); blocks->clear(); }
    vc::eval(); vc::outcome(id);
  }
}
static void identity() {
  for (unsigned p = 0; p < 32; p++) for (unsigned q = 0; q < 32; q++) {
    if (!vc::begin()) continue;
    aligned_allocator<double> a((uint8_t)p), b((uint8_t)q); aligned_allocator<int> c(a);
    aligned_allocator<double> d(a);
    vc::transition(4); vc::eval(); vc::state(p * 32 + q);
    if ((a == b) != (p == q) || (a != b) != (p != q) || (c == b) != (p == q) || (b == c) != (p == q) || (c != b) != (p != q) || !(d == a) || d != a) vc::fail("equality", vc::cat("2^", p, " and 2^", q));
    double x; if (a.address(x) != &x) vc::fail("address", "");
    size_t mx = a.max_size();
    if (mx > (std::numeric_limits<size_t>::max() - (size_t(1) << p)) / sizeof(double) || mx < (std::numeric_limits<size_t>::max() / sizeof(double)) / 2) vc::fail("max_size", vc::cat("2^", p, ": ", mx));
    if (a.max_size() < b.max_size() && p < q) vc::fail("max_size", "order");
  }
}

int main(int argc, char **argv) {
  vc::init(argc, argv);
  blocks = new std::map<char *, Block>;
  unsigned pm = vc::thorough() ? 18 : 14;
  single<Bytes<1>>("1 byte", pm); single<Bytes<3>>("3 byte", pm); single<Bytes<4>>("4 byte", pm); single<double>("double", pm);
  single<Bytes<24>>("24 byte", pm); single<long double>("long double", pm); single<Bytes<100>>("100 byte", pm);
  sequences(vc::thorough() ? 6 : 5);
  containers();
  identity();
  return vc::finish();
}

// Element types and allocators which keep accounts, for container checks.
#ifndef TRACK_HPP
#define TRACK_HPP
#include <map>
#include <set>
#include <string>
#include <stdexcept>
#include <cstddef>
#include <new>
#include <utility>

namespace trk {
struct Ledger {
  std::map<void *, std::pair<size_t, int>> blocks;   // live allocations: bytes, arena
  std::set<const void *> objs;                       // live constructed elements
  std::string err;                                   // first misuse
  long alloc_k = -1, copy_k = -1;                    // countdowns to the injected failure
  long allocs = 0, copies = 0;
  bool fired = false;
  void reset() { blocks.clear(); objs.clear(); err.clear(); alloc_k = copy_k = -1; allocs = copies = 0; fired = false; }
  void bad(const std::string &m) { if (err.empty()) err = m; }
  void arm(long a, long c) { alloc_k = a; copy_k = c; fired = false; allocs = copies = 0; }
  void disarm() { alloc_k = copy_k = -1; }
};
inline Ledger &L() { static Ledger l; return l; }

struct CopyFault { };

// value semantics, counts constructions; Throws: copies can fail and moves are not noexcept
template <bool Throws> struct Elem {
  int v;
  void born() { if (!L().objs.insert(this).second) L().bad("element constructed over a live element"); }
  static void tick() { L().copies++; if (L().copy_k >= 0 && L().copy_k-- == 0) { L().fired = true; throw CopyFault(); } }
  Elem() : v(0) { tick(); born(); }
  Elem(int x) : v(x) { born(); }
  Elem(const Elem &o) : v(o.v) { o.chk(); tick(); born(); }
  Elem(Elem &&o) noexcept(!Throws) : v(o.v) { o.chk(); if (Throws) tick(); else o.v = -7; born(); }
  Elem &operator=(const Elem &o) { chk(); o.chk(); tick(); v = o.v; return *this; }
  Elem &operator=(Elem &&o) noexcept(!Throws) { chk(); o.chk(); if (Throws) tick(); v = o.v; if (!Throws && &o != this) o.v = -7; return *this; }
  ~Elem() { if (!L().objs.erase(this)) L().bad("destroyed an element that is not alive"); }
  void chk() const { if (!L().objs.count(this)) L().bad("used an element that is not alive"); }
  operator int() const { chk(); return v; }
  bool operator==(const Elem &o) const { return v == o.v; }
};

template <class T, bool PCopy, bool PMove, bool PSwap> struct Alloc {
  typedef T value_type; typedef T *pointer; typedef const T *const_pointer; typedef size_t size_type; typedef ptrdiff_t difference_type;
  typedef T &reference; typedef const T &const_reference;
  typedef std::integral_constant<bool, PCopy> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, PMove> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, PSwap> propagate_on_container_swap;
  template <class U> struct rebind { typedef Alloc<U, PCopy, PMove, PSwap> other; };
  int id;
  Alloc(int i = 0) noexcept : id(i) {}
  template <class U> Alloc(const Alloc<U, PCopy, PMove, PSwap> &o) noexcept : id(o.id) {}
  T *allocate(size_t n) {
    L().allocs++;
    if (L().alloc_k >= 0 && L().alloc_k-- == 0) { L().fired = true; throw std::bad_alloc(); }
    if (n > (size_t(1) << 24)) throw std::bad_alloc();
    void *p = ::operator new(n * sizeof(T) + 1);
    L().blocks[p] = {n * sizeof(T), id};
    return (T *)p;
  }
  void deallocate(T *p, size_t n) {
    if (!p) return;
    auto it = L().blocks.find(p);
    if (it == L().blocks.end()) { L().bad("deallocated memory that was not allocated"); return; }
    if (it->second.first != n * sizeof(T)) L().bad("deallocated with the wrong size");
    if (it->second.second != id) L().bad("memory returned to another allocator than it came from");
    for (auto o = L().objs.lower_bound(p); o != L().objs.end() && (char *)*o < (char *)p + it->second.first; ++o) { L().bad("memory released while elements in it are alive"); break; }
    L().blocks.erase(it);
    ::operator delete(p);
  }
  template <class U> bool operator==(const Alloc<U, PCopy, PMove, PSwap> &o) const noexcept { return id == o.id; }
  template <class U> bool operator!=(const Alloc<U, PCopy, PMove, PSwap> &o) const noexcept { return id != o.id; }
};
}
#endif

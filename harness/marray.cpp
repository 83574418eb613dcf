// marray against a reference array: explicit-state exploration of operation sequences (set A),
// and every allocation/copy failure at every point of every single operation (set F).
#include "vc.hpp"
#include "track.hpp"
#include <cstddef>
#include <type_traits>
#include <nuSQuIDS/marray.h>
#include <numeric>
using namespace nusquids;
typedef std::vector<size_t> Ext;

// ---------------------------------------------------------------- reference
struct Ref {
  Ext e; std::vector<int> d; int al;
  size_t total() const { size_t t = 1; for (auto x : e) t *= x; return t; }
  std::string key() const { return vc::show(e) + vc::show(d) + vc::cat("@", al); }
};
static bool next(Ext &i, const Ext &e) {        // odometer, last index fastest
  for (size_t k = e.size(); k-- > 0;) { if (++i[k] < e[k]) return true; i[k] = 0; }
  return false;
}
static size_t lin(const Ext &i, const Ext &e) { size_t o = 0; for (size_t k = 0; k < e.size(); k++) o = o * e[k] + i[k]; return o; }
static void ref_insert(Ref &r, size_t dim, size_t pos, size_t num, int val) {
  Ref n; n.e = r.e; n.e[dim] += num; n.al = r.al; n.d.resize(n.total());
  if (n.total()) { Ext i(n.e.size(), 0); do {
    if (i[dim] >= pos && i[dim] < pos + num) n.d[lin(i, n.e)] = val;
    else { Ext s = i; if (s[dim] >= pos + num) s[dim] -= num; n.d[lin(i, n.e)] = r.d[lin(s, r.e)]; }
  } while (next(i, n.e)); }
  r = n;
}
static void ref_erase(Ref &r, size_t dim, size_t pos, size_t num) {
  Ref n; n.e = r.e; n.e[dim] -= num; n.al = r.al; n.d.resize(n.total());
  if (n.total()) { Ext i(n.e.size(), 0); do {
    Ext s = i; if (s[dim] >= pos) s[dim] += num; n.d[lin(i, n.e)] = r.d[lin(s, r.e)];
  } while (next(i, n.e)); }
  r = n;
}
static void ref_resize(Ref &r, size_t dim, size_t sz) {
  if (sz < r.e[dim]) ref_erase(r, dim, sz, r.e[dim] - sz);
  else if (sz > r.e[dim]) ref_insert(r, dim, r.e[dim], sz - r.e[dim], 0);
}

// ---------------------------------------------------------------- element types
template <class T> struct El { static T mk(int v) { return T(v); } static int val(const T &t) { return (int)t; } };
template <> struct El<std::string> { static std::string mk(int v) { return v ? "a string too long to be stored in place " + std::to_string(v) : std::string(); } static int val(const std::string &s) { return s.empty() ? 0 : atoi(s.c_str() + s.rfind(' ')); } };

// builds an array with contents
template <class M> struct Fill;
template <class T, unsigned R, class A> struct Fill<marray<T, R, A>> {
  static marray<T, R, A> make(const Ext &e, const std::vector<int> &d, A a) {
    std::array<size_t, R> ex; std::copy(e.begin(), e.end(), ex.begin());
    marray<T, R, A> m(ex, a);
    size_t k = 0; for (auto it = m.begin(); it != m.end(); ++it) *it = El<T>::mk(d[k++]);
    return m;
  }
};
template <class T> T &sub(marray<T, 1, typename std::allocator<T>> &m, const Ext &i);
template <class M> auto at(M &m, const Ext &i, std::integral_constant<int, 1>) -> decltype((m[i[0]])) { return m[i[0]]; }
template <class M> auto at(M &m, const Ext &i, std::integral_constant<int, 2>) -> decltype((m[i[0]][i[1]])) { return m[i[0]][i[1]]; }
template <class M> auto at(M &m, const Ext &i, std::integral_constant<int, 3>) -> decltype((m[i[0]][i[1]][i[2]])) { return m[i[0]][i[1]][i[2]]; }
template <class M> auto at(M &m, const Ext &i, std::integral_constant<int, 4>) -> decltype((m[i[0]][i[1]][i[2]][i[3]])) { return m[i[0]][i[1]][i[2]][i[3]]; }
template <class M> auto il(M &m, const Ext &i, std::integral_constant<int, 1>) -> decltype((m[{i[0]}])) { return m[std::initializer_list<size_t>{i[0]}]; }
template <class M> auto il(M &m, const Ext &i, std::integral_constant<int, 2>) -> decltype((m[{i[0], i[1]}])) { return m[{i[0], i[1]}]; }
template <class M> auto il(M &m, const Ext &i, std::integral_constant<int, 3>) -> decltype((m[{i[0], i[1], i[2]}])) { return m[{i[0], i[1], i[2]}]; }
template <class M> auto il(M &m, const Ext &i, std::integral_constant<int, 4>) -> decltype((m[{i[0], i[1], i[2], i[3]}])) { return m[{i[0], i[1], i[2], i[3]}]; }

// everything a user can observe of m must agree with r
template <class T, unsigned R, class A> std::string observe(marray<T, R, A> &m, const Ref &r, bool deep) {
  const marray<T, R, A> &c = m;
  size_t n = r.total();
  if (m.rank() != R) return "rank";
  for (unsigned k = 0; k < R; k++) {
    if (m.extent(k) != r.e[k]) return vc::cat("extent ", k, " is ", m.extent(k), " expected ", r.e[k]);
    if (m.get_extents()[k] != r.e[k]) return "get_extents";
  }
  if (m.size() != n) return vc::cat("size() ", m.size(), " expected ", n);
  if (m.empty() != (n == 0)) return "empty()";
  {
    size_t k = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++k) { if (k >= n) return "begin..end too long"; if (El<T>::val(*it) != r.d[k]) return vc::cat("element ", k, " is ", El<T>::val(*it), " expected ", r.d[k]); }
    if (k != n) return "begin..end too short";
  }
  if (!deep || !n) return "";
  if (&*m.begin() != m.get_data() || &*c.begin() != c.get_data()) return "get_data";
  { size_t k = 0; for (auto it = c.begin(); it != c.end(); it++, ++k) if (k >= n || El<T>::val(*it) != r.d[k]) return "const iteration"; if (k != n) return "const iteration length"; }
  { size_t k = 0; for (auto it = c.cbegin(); it != c.cend(); it++, ++k) if (k >= n || El<T>::val(*it) != r.d[k]) return "cbegin iteration"; if (k != n) return "cbegin iteration length"; }
  { size_t k = n; for (auto it = m.rbegin(); it != m.rend(); ++it) { if (k == 0 || El<T>::val(*it) != r.d[--k]) return "reverse iteration"; } if (k) return "reverse iteration length"; }
  { size_t k = n; for (auto it = c.rbegin(); it != c.rend(); it++) { if (k == 0 || El<T>::val(*it) != r.d[--k]) return "const reverse iteration"; } if (k) return "const reverse iteration length"; }
  { size_t k = n; for (auto it = c.crbegin(); it != c.crend(); it++) { if (k == 0 || El<T>::val(*it) != r.d[--k]) return "crbegin iteration"; } if (k) return "crbegin iteration length"; }
  if (El<T>::val(m.front()) != r.d[0] || El<T>::val(c.front()) != r.d[0]) return "front()";
  if (El<T>::val(m.back()) != r.d[n - 1] || El<T>::val(c.back()) != r.d[n - 1]) return "back()";
  if (m.end() - m.begin() != (ptrdiff_t)n || m.rend() - m.rbegin() != (ptrdiff_t)n || c.end() - c.begin() != (ptrdiff_t)n || c.rend() - c.rbegin() != (ptrdiff_t)n) return "iterator difference";
  Ext i(R, 0); size_t k = 0;
  std::integral_constant<int, R> rk;
  do {
    T *p = const_cast<T *>(m.get_data()) + k;
    std::array<size_t, R> ia; std::copy(i.begin(), i.end(), ia.begin());
    if (&at(m, i, rk) != p || &at(c, i, rk) != p) return vc::cat("[]...[] at ", vc::show(i));
    if (&m[i] != p || &c[i] != p || &m[ia] != p || &c[ia] != p) return vc::cat("[container] at ", vc::show(i));
    if (&il(m, i, rk) != p || &il(c, i, rk) != p) return vc::cat("[{...}] at ", vc::show(i));
    auto it = m.begin() + k; auto ci = c.begin(); ci += k;
    auto rt = m.rbegin() + (n - 1 - k); auto cr = c.rbegin(); cr += (n - 1 - k);
    if (&*it != p || &*ci != p || &*rt != p || &*cr != p) return vc::cat("iterator arithmetic at ", k);
    if (&m.begin()[k] != p || &m.rbegin()[n - 1 - k] != p) return "iterator subscript";
    if (it - m.begin() != (ptrdiff_t)k || rt - m.rbegin() != (ptrdiff_t)(n - 1 - k)) return "iterator distance";
    if (&*(k + m.begin()) != p) return "n + iterator";
    { auto e2 = m.end(); e2 -= (n - k); if (!(e2 == it) || e2 != it) return "iterator -="; }
    { auto e2 = m.rend(); e2 -= (k + 1); if (!(e2 == rt)) return "reverse iterator -="; }
    if (!(it < m.end()) || it < m.begin() || !(it <= it) || !(it >= m.begin()) || it > m.end() || (k > 0) != (it > m.begin())) return "iterator order";
    if (!(rt < m.rend()) || rt < m.rbegin() || !(rt <= rt) || !(rt >= m.rbegin()) || rt > m.rend() || (k < n - 1) != (rt > m.rbegin())) return "reverse iterator order";
    { auto q = it; auto o = q++; if (o != it || q - it != 1) return "it++"; o = q--; if (o - it != 1 || q != it) return "it--"; ++q; if (q - it != 1) return "++it"; --q; if (q != it) return "--it"; if (q.operator->() != p) return "it->"; }
    { auto q = rt; auto o = q++; if (o != rt || q - rt != 1) return "rit++"; o = q--; if (q != rt) return "rit--"; ++q; --q; if (q != rt) return "++rit"; }
    for (unsigned d = 0; d < R; d++) if (m.getCoordinate(it, d) != i[d] || m.getCoordinate(rt, d) != i[d]) return vc::cat("getCoordinate dim ", d, " of ", vc::show(i), " in ", vc::show(r.e));
    k++;
  } while (next(i, r.e));
  return "";
}

// ---------------------------------------------------------------- operations
enum Kind { INSERT, INSERT_DEF, ERASE, RESIZE1, RESIZEC, RESHAPE, COPYASG, MOVEASG, SWAP, COPYCTOR, MOVECTOR, SELFASG, SELFMOVE, BADRESHAPE, BADRESIZE, REUSE };
struct Op {
  Kind k; size_t dim, pos, num; int val; Ext e; int aid;
  std::string str() const {
    static const char *n[] = {"insert", "insert-default", "erase", "resize", "resize", "reshape", "copy-assign from", "move-assign from", "swap with", "copy-construct", "move-construct", "self-assign", "self-move", "bad reshape", "bad resize", "reuse moved-from"};
    std::string s = n[k];
    if (k <= RESIZE1) s += vc::cat("(dim ", dim, ", pos/size ", pos, ", num ", num, ")"); else s += vc::show(e) + (aid ? " other allocator" : "");
    return s;
  }
};
static std::vector<Ext> shapes(unsigned R, size_t mx) {
  std::vector<Ext> o; Ext i(R, 0), e(R, mx + 1);
  do o.push_back(i); while (next(i, e));
  return o;
}
static std::vector<int> fillv(size_t n, int base) { std::vector<int> d(n); for (size_t i = 0; i < n; i++) d[i] = base + (int)i; return d; }

static std::vector<Op> ops(const Ref &r, size_t mx, bool allocs) {
  std::vector<Op> o; size_t R = r.e.size();
  for (size_t dim = 0; dim < R; dim++) {
    for (size_t pos = 0; pos <= r.e[dim]; pos++) for (size_t num = 0; num + r.e[dim] <= mx && num <= 2; num++) o.push_back({INSERT, dim, pos, num, 77, {}, 0});
    o.push_back({INSERT_DEF, dim, r.e[dim] / 2, 1, 0, {}, 0});
    for (size_t pos = 0; pos < r.e[dim]; pos++) for (size_t num = 0; pos + num <= r.e[dim]; num++) o.push_back({ERASE, dim, pos, num, 0, {}, 0});
    for (size_t s = 0; s <= mx; s++) o.push_back({RESIZE1, dim, s, 0, 0, {}, 0});
  }
  for (auto &e : shapes(R, mx)) {
    size_t s = 0; for (auto x : e) s += x;
    if (s % 2 == 0) o.push_back({RESIZEC, 0, 0, 0, 0, e, 0});
  }
  for (auto &e : shapes(R, 6)) { size_t t = 1; for (auto x : e) t *= x; if (t == r.total() && (t || std::count(e.begin(), e.end(), 0) + std::count(e.begin(), e.end(), 2) == (int)R)) o.push_back({RESHAPE, 0, 0, 0, 0, e, 0}); }
  { Ext e = r.e; e[0]++; if (r.total() / std::max<size_t>(1, r.e[0])) o.push_back({BADRESHAPE, 0, 0, 0, 0, e, 0}); e = r.e; e.push_back(1); o.push_back({BADRESHAPE, 0, 0, 0, 0, e, 0}); o.push_back({BADRESIZE, 0, 0, 0, 0, e, 0}); }
  std::vector<Ext> src = {Ext(R, 0), Ext(R, 1), Ext(R, 2)}; { Ext e(R, 2); e[R - 1] = 3; src.push_back(e); e = Ext(R, 1); e[0] = 3; src.push_back(e); }
  for (int a = 0; a <= (allocs ? 1 : 0); a++) for (auto &e : src) { o.push_back({COPYASG, 0, 0, 0, 0, e, a}); o.push_back({MOVEASG, 0, 0, 0, 0, e, a}); if (!a) o.push_back({SWAP, 0, 0, 0, 0, e, a}); }
  o.push_back({COPYCTOR, 0, 0, 0, 0, {}, 0}); o.push_back({MOVECTOR, 0, 0, 0, 0, {}, 0}); o.push_back({SELFASG, 0, 0, 0, 0, {}, 0}); o.push_back({SELFMOVE, 0, 0, 0, 0, {}, 0}); o.push_back({REUSE, 0, 0, 0, 0, Ext(R, 2), 0});
  return o;
}
static void apply_ref(Ref &r, const Op &o) {
  switch (o.k) {
    case INSERT: ref_insert(r, o.dim, o.pos, o.num, o.val); break;
    case INSERT_DEF: ref_insert(r, o.dim, o.pos, o.num, 0); break;
    case ERASE: ref_erase(r, o.dim, o.pos, o.num); break;
    case RESIZE1: ref_resize(r, o.dim, o.pos); break;
    case RESIZEC: for (size_t d = 0; d < o.e.size(); d++) ref_resize(r, d, o.e[d]); break;
    case RESHAPE: r.e = o.e; break;
    case COPYASG: case MOVEASG: case SWAP: case REUSE: r.e = o.e; r.d = fillv(r.total(), 500); break;
    default: break;
  }
}
template <class A> int aid(const A &) { return 0; }
template <class T, bool a, bool b, bool c> int aid(const trk::Alloc<T, a, b, c> &x) { return x.id; }
template <class A> A mkalloc(int) { return A(); }
#define MK(T, a, b, c) template <> trk::Alloc<T, a, b, c> mkalloc<trk::Alloc<T, a, b, c>>(int i) { return trk::Alloc<T, a, b, c>(i); }
typedef trk::Elem<false> EN; typedef trk::Elem<true> ET;
MK(EN, false, true, false) MK(ET, false, false, false) MK(ET, true, true, true) MK(int, true, true, true) MK(int, false, false, false) MK(EN, true, true, true)

// Applies o to m.  cover: also check the other object the operation touches.
template <class M> std::string apply(M &m, Ref &r, const Op &o) {
  typedef typename M::value_type T; typedef typename M::allocator_type A;
  std::string w;
  auto other = [&] { return Fill<M>::make(o.e, fillv([&] { size_t t = 1; for (auto x : o.e) t *= x; return t; }(), 500), mkalloc<A>(o.aid + 10)); };
  Ref before = r; Ref oref; oref.e = o.e; if (!o.e.empty()) oref.d = fillv(oref.total(), 500);
  switch (o.k) {
    case INSERT: m.insert(o.dim, o.pos, o.num, El<T>::mk(o.val)); break;
    case INSERT_DEF: m.insert(o.dim, o.pos, o.num); break;
    case ERASE: m.erase(o.dim, o.pos, o.num); break;
    case RESIZE1: m.resize(o.dim, o.pos); break;
    case RESIZEC: m.resize(o.e); break;
    case RESHAPE: m.reshape(o.e); break;
    case BADRESHAPE: try { m.reshape(o.e); w = "reshape to a different total size or rank accepted"; } catch (std::logic_error &) {} break;
    case BADRESIZE: try { m.resize(o.e); w = "resize with the wrong number of dimensions accepted"; } catch (std::logic_error &) {} break;
    case COPYASG: { M s = other(); M &q = (m = s); if (&q != &m) w = "operator= does not return *this"; std::string x = observe(s, oref, false); if (!x.empty()) w = "source of a copy assignment changed: " + x; break; }
    case MOVEASG: { M s = other(); M &q = (m = std::move(s)); if (&q != &m) w = "operator= does not return *this"; break; }
    case SWAP: { M s = Fill<M>::make(o.e, oref.d, m.get_allocator()); m.swap(s); std::string x = observe(s, before, false); if (!x.empty()) w = "other side of swap: " + x; break; }
    case COPYCTOR: { M s(m); std::string x = observe(s, r, true); if (!x.empty()) w = "copy: " + x; if (m.size() && s.get_data() == m.get_data()) w = "copy shares its storage"; if (s.size()) { *s.begin() = El<T>::mk(901); } break; }
    case MOVECTOR: { M s(std::move(m)); std::string x = observe(s, r, true); if (!x.empty()) w = "moved-to: " + x; Ref z; z.e = Ext(r.e.size(), 0); x = observe(m, z, false); if (!x.empty()) w = "moved-from not empty: " + x; m = std::move(s); break; }
    case REUSE: { M s(std::move(m)); M t = Fill<M>::make(o.e, oref.d, m.get_allocator()); m = t; break; }
    case SELFASG: m = *&m; break;
    case SELFMOVE: { M &q = m; m = std::move(q); break; }
  }
  return w;
}

struct Account { std::string type; };
template <class M, unsigned R> struct Explore {
  std::string tn; size_t mx; bool allocs; 
  std::string path(const Ref &st, const std::vector<Op> &p) { std::string s = tn + " from " + vc::show(st.e) + ":"; for (auto &o : p) s += " " + o.str() + ";"; return s; }
  // explores all sequences of at most depth operations, merging equal states
  void bfs(const Ref &st, int depth) {
    typedef typename M::allocator_type A;
    struct Node { Ref r; std::vector<Op> p; };
    std::vector<Node> level = {{st, {}}};
    std::set<std::string> seen; seen.insert(st.key()); std::vector<Op> last;
    for (int d = 0; d < depth; d++) {
      std::vector<Node> nxt;
      for (auto &n : level) {
        auto os = ops(n.r, mx, allocs);
        for (auto &o : os) {
          trk::L().reset();
          std::string w; Ref r = n.r;
          {
            // the implementation goes through the whole sequence, not just the last step
            M m = Fill<M>::make(st.e, st.d, mkalloc<A>(1)); Ref q = st;
            for (auto &po : n.p) { apply(m, q, po); apply_ref(q, po); }
            w = apply(m, q, o); apply_ref(r, o);
            if (w.empty()) w = observe(m, r, true);
            if (w.empty() && !trk::L().err.empty()) w = trk::L().err;
          }
          if (w.empty() && !trk::L().err.empty()) w = trk::L().err;
          if (w.empty() && !trk::L().blocks.empty()) w = vc::cat(trk::L().blocks.size(), " allocations leaked");
          if (w.empty() && !trk::L().objs.empty()) w = vc::cat(trk::L().objs.size(), " elements leaked");
          vc::eval(); vc::transition(); vc::trace();
          vc::state(r.key() + tn);
          vc::outcome(o.str() + "/" + vc::show(n.r.e) + tn);
          auto p = n.p; p.push_back(o); last = p;
          if (!w.empty()) vc::fail(vc::cat("marray:", (int)o.k, ":", w.substr(0, 24)), w + " after " + path(st, p));
          if (d + 1 < depth && seen.insert(r.key()).second) nxt.push_back({r, p});
        }
        vc::beat();
      }
      level.swap(nxt);
    }
    vc::sample(path(st, last));
  }
  void run(const std::vector<Ext> &starts, int depth) {
    for (auto &e : starts) { if (!vc::begin()) continue; Ref r; r.e = e; r.al = 1; r.d = fillv(r.total(), 100); bfs(r, depth); }
  }
};

// ---------------------------------------------------------------- faults
// Every k-th allocation / element copy of one operation fails.
template <class M, unsigned R> struct Faults {
  std::string tn; size_t mx;
  template <class Prep> void one(const Ref &st, const Op &o, Prep) {
    typedef typename M::allocator_type A; typedef typename M::value_type T;
    for (int which = 0; which < 2; which++)
      for (long k = 0; k < 200; k++) {
        trk::L().reset();
        bool threw = false, fired = false; std::string w, other;
        {
          M m = Fill<M>::make(st.e, st.d, mkalloc<A>(1));
          Ref r = st, oref; oref.e = o.e; if (!o.e.empty()) oref.d = fillv(oref.total(), 500);
          M s = o.e.empty() || o.k == RESIZEC || o.k == RESHAPE ? M(mkalloc<A>(10)) : Fill<M>::make(o.e, oref.d, mkalloc<A>(o.aid + 10));
          T v = El<T>::mk(o.val);
          trk::L().arm(which == 0 ? k : -1, which == 1 ? k : -1);
          try {
            switch (o.k) {
              case INSERT: m.insert(o.dim, o.pos, o.num, v); break;
              case INSERT_DEF: m.insert(o.dim, o.pos, o.num); break;
              case ERASE: m.erase(o.dim, o.pos, o.num); break;
              case RESIZE1: m.resize(o.dim, o.pos); break;
              case RESIZEC: m.resize(o.e); break;
              case COPYASG: m = s; break;
              case MOVEASG: m = std::move(s); break;
              case COPYCTOR: { M c(m); break; }
              case MOVECTOR: { M c(std::move(m)); break; }
              default: break;
            }
          } catch (trk::CopyFault &) { threw = true; } catch (std::bad_alloc &) { threw = true; }
          fired = trk::L().fired;
          trk::L().disarm();
          if (threw) {
            if (o.k == RESIZEC) {          // one dimension at a time: some prefix of it has been done
              bool ok = false;
              for (size_t d = 0; d <= o.e.size(); d++) { if (observe(m, r, true).empty()) { ok = true; break; } if (d < o.e.size()) ref_resize(r, d, o.e[d]); }
              if (!ok) w = "array in none of the states the resize goes through";
            } else {
              w = observe(m, r, true);
              if (!w.empty()) w = "failed operation changed the array: " + w;
              if (w.empty() && o.k == COPYASG) { w = observe(s, oref, true); if (!w.empty()) w = "failed operation changed its source: " + w; }
            }
            // and it can still be used
            if (w.empty()) { Ref q = r; try { m.insert(0, q.e[0], 1, El<T>::mk(5)); ref_insert(q, 0, q.e[0], 1, 5); w = observe(m, q, true); } catch (...) { w = "unusable"; } if (!w.empty()) w = "array unusable after a failed operation: " + w; }
          } else if (fired) w = "failure of an element copy was swallowed";
          if (w.empty()) w = trk::L().err;
        }
        if (w.empty()) w = trk::L().err;
        if (w.empty() && !trk::L().blocks.empty()) w = "allocation leaked";
        if (w.empty() && !trk::L().objs.empty()) w = "elements leaked";
        vc::eval(); vc::trace(); vc::transition();
        if (fired) { vc::outcome(vc::cat(tn, which, o.str(), vc::show(st.e), k)); vc::note(which ? "element copy failures" : "allocation failures"); }
        if (!w.empty()) vc::fail(vc::cat("fault:", (int)o.k, ":", which, ":", w.substr(0, 30)), vc::cat(w, ": ", tn, " ", vc::show(st.e), " ", o.str(), which ? " element copy " : " allocation ", k, " fails"));
        if (!fired) break;
      }
  }
  // constructors
  template <class F> void ctor(const std::string &what, F f, bool mustthrow = false) {
    for (int which = 0; which < 2; which++)
      for (long k = mustthrow ? -1 : 0; k < 200; k++) {
        trk::L().reset();
        bool threw = false, fired;
        std::string w;
        trk::L().arm(which == 0 ? k : -1, which == 1 ? k : -1);
        try { f(); } catch (trk::CopyFault &) { threw = true; } catch (std::bad_alloc &) { threw = true; } catch (std::logic_error &) { threw = true; if (!mustthrow) w = "unexpected logic_error"; }
        fired = trk::L().fired; trk::L().disarm();
        if (fired && !threw) w = "failure swallowed";
        if (mustthrow && !threw) w = "wrongly shaped initialisation accepted";
        if (w.empty()) w = trk::L().err;
        if (w.empty() && !trk::L().blocks.empty()) w = "allocation leaked";
        if (w.empty() && !trk::L().objs.empty()) w = "elements leaked";
        vc::eval(); vc::trace(); vc::transition();
        if (fired || mustthrow) { vc::outcome(vc::cat(tn, which, what, k)); vc::note("constructor failures"); }
        if (!w.empty()) vc::fail("faultctor:" + what.substr(0, what.find(' ')) + ":" + w.substr(0, 30), vc::cat(w, ": ", tn, " ", what, which ? " element copy " : " allocation ", k, " fails"));
        if (!fired && k >= 0) break;
      }
  }
  void run() {
    typedef typename M::allocator_type A; typedef typename M::value_type T;
    for (auto &e : shapes(R, mx)) {
      if (!vc::begin()) continue;
      Ref r; r.e = e; r.al = 1; r.d = fillv(r.total(), 100);
      for (auto &o : ops(r, mx, true)) {
        if (o.k == RESHAPE || o.k == BADRESHAPE || o.k == BADRESIZE || o.k == SWAP || o.k == SELFASG || o.k == SELFMOVE || o.k == REUSE) continue;
        one(r, o, 0); vc::beat();
      }
      std::array<size_t, R> ex; std::copy(e.begin(), e.end(), ex.begin());
      A al = mkalloc<A>(3);
      ctor("extents " + vc::show(e), [&] { M m(ex, al); });
      ctor("extents-vector " + vc::show(e), [&] { M m(e, al); });
      vc::sample(vc::cat(tn, " ", vc::show(e), ": every allocation and every element copy of every operation fails in turn"));
    }
  }
};
template <class T, class A> void ctor1(Faults<marray<T, 1, A>, 1> f) {
  typedef marray<T, 1, A> M; A al = mkalloc<A>(3);
  for (size_t n = 0; n <= 4; n++) {
    if (!vc::begin()) continue;
    std::vector<int> src = fillv(n, 3);
    f.ctor(vc::cat("range ", n), [&] { M m({n}, src.begin(), src.end(), al); if (m.size() != n) trk::L().bad("size"); for (size_t i = 0; i < n; i++) if (El<T>::val(m[i]) != src[i]) trk::L().bad("contents of an array built from a range"); });
    f.ctor(vc::cat("bad-range ", n), [&] { M m({n + 1}, src.begin(), src.end(), al); }, true);
    if (n) f.ctor(vc::cat("bad-range2 ", n), [&] { M m({n - 1}, src.begin(), src.end(), al); }, true);
    f.ctor(vc::cat("bad-rank ", n), [&] { M m({n, 1}, al); }, true);
    f.ctor(vc::cat("bad-rank-range ", n), [&] { M m({n, 1}, src.begin(), src.end(), al); }, true);
    f.ctor(vc::cat("dims ", n), [&] { M m({n}, al); });
  }
  if (vc::begin()) {
    f.ctor("init", [&] { std::initializer_list<T> i = {El<T>::mk(4), El<T>::mk(5), El<T>::mk(6)}; M m({3}, i, al); int k = 4; for (auto &x : m) if (El<T>::val(x) != k++) trk::L().bad("contents"); });
    f.ctor("bad-init", [&] { std::initializer_list<T> i = {El<T>::mk(4), El<T>::mk(5), El<T>::mk(6)}; M m({2}, i, al); }, true);
    f.ctor("bad-init2", [&] { std::initializer_list<T> i = {El<T>::mk(4)}; M m({2}, i, al); }, true);
  }
}
template <class T, class A> void ctor2(Faults<marray<T, 2, A>, 2> f) {
  typedef marray<T, 2, A> M; A al = mkalloc<A>(3);
  if (vc::begin()) {
    typedef std::initializer_list<T> I;
    f.ctor("init2", [&] { T a(1), b(2), c(3), d(4), e(5), g(6); M m({2, 3}, {I{a, b, c}, I{d, e, g}}, al); int k = 1; for (auto &x : m) if (El<T>::val(x) != k++) trk::L().bad("contents"); if (El<T>::val(m[1][0]) != 4) trk::L().bad("layout"); });
    f.ctor("bad-init2-rows", [&] { T a(1); M m({3, 1}, {I{a}, I{a}}, al); }, true);
    f.ctor("bad-init2-cols", [&] { T a(1); M m({2, 2}, {I{a, a}, I{a}}, al); }, true);
    f.ctor("bad-init2-cols2", [&] { T a(1); M m({2, 1}, {I{a}, I{a, a}}, al); }, true);
  }
  if (vc::begin()) {
    typedef std::initializer_list<T> I;
    // assignment from an initializer
    trk::L().reset(); std::string w;
    { M m({2, 2}, al); T a(1), b(2), c(3), d(4);
      m = {I{a, b}, I{c, d}}; Ref r; r.e = {2, 2}; r.d = {1, 2, 3, 4}; w = observe(m, r, true);
      if (w.empty()) { bool t = false; try { m = {I{d, d}, I{d}}; } catch (std::logic_error &) { t = true; } if (!t) w = "assignment of a wrongly shaped initializer accepted"; else { w = observe(m, r, true); if (!w.empty()) w = "refused assignment changed the array"; } }
      if (w.empty()) { bool t = false; try { m = {I{d, d}}; } catch (std::logic_error &) { t = true; } if (!t) w = "assignment of a wrongly shaped initializer accepted"; } }
    if (w.empty()) w = trk::L().err;
    if (!w.empty()) vc::fail("initassign", w);
    vc::eval();
  }
}

// sizes whose products wrap around 32 bits, on empty arrays: no memory is needed to get them wrong
static void huge() {
  size_t big[] = {1, 2, 65536, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 33, 0};
  for (size_t a : big) for (size_t b : big) {
    if (!vc::begin()) continue;
    marray<char, 2> m({0, 0});
    unsigned __int128 t = (unsigned __int128)a * b;
    if (t >> 64) continue;
    bool ok = true; try { m.reshape(std::vector<size_t>{a, b}); } catch (std::logic_error &) { ok = false; }
    vc::eval(); vc::outcome(vc::cat("huge", a, ",", b)); vc::transition();
    if (ok != (t == 0)) vc::fail("huge:reshape", vc::cat("empty array reshaped to ", a, "x", b, ok ? " accepted" : " refused"));
    if (ok && m.size() != 0) vc::fail("huge:size", "size");
    // an array with a zero extent keeps its other extents through resizing
    marray<char, 3> z({0, a, b});
    if (z.size() != 0 || z.extent(1) != a || z.extent(2) != b) vc::fail("huge:zero", "extents of an empty array");
    z.resize(0, 0);
    if (t && t <= 4096) { z.resize(0, 2); if (z.size() != 2 * (size_t)t) vc::fail("huge:grow", "growing an empty array"); }
  }
}

template <class T> void exact() {   // default construction, no_init, get_allocator
  if (!vc::begin()) return;
  marray<T, 3> d; Ref z; z.e = {0, 0, 0};
  std::string w = observe(d, z, true); if (!w.empty()) vc::fail("default", w);
  marray<double, 2> n({2, 3}, detail::no_init);
  if (n.size() != 6 || n.extent(0) != 2 || n.extent(1) != 3) vc::fail("noinit", "shape");
  marray<double, 2> n2(std::array<size_t, 2>{{3, 2}}, detail::no_init);
  if (n2.size() != 6 || n2.extent(0) != 3 || n2.extent(1) != 2) vc::fail("noinit", "shape");
  marray<double, 2> v({4, 3}); for (double x : v) if (x != 0) vc::fail("valueinit", "default constructed doubles are not zero");
  std::swap(n, v); if (n.extent(0) != 4 || v.extent(0) != 2) vc::fail("swap", "std::swap");
  vc::eval();
}

int main(int argc, char **argv) {
  vc::init(argc, argv);
  bool faults = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "faults")) faults = true;
  int T = vc::thorough();
  if (!faults) {
    { Explore<marray<int, 1>, 1> x{"marray<int,1>", 4, false}; x.run(shapes(1, 4), T ? 4 : 3); }
    { Explore<marray<int, 2>, 2> x{"marray<int,2>", 3, false}; x.run(shapes(2, 3), 3); }
    { Explore<marray<int, 3>, 3> x{"marray<int,3>", T ? 3u : 2u, false}; x.run(shapes(3, T ? 3 : 2), 2); }
    if (T) { Explore<marray<int, 2>, 2> x{"marray<int,2> deep", 2, false}; x.run(shapes(2, 2), 4); }
    if (T) { Explore<marray<int, 3>, 3> x{"marray<int,3> deep", 2, false}; x.run({{2, 1, 2}, {0, 2, 2}, {2, 2, 2}, {1, 2, 0}}, 3); }
    { Explore<marray<int, 4>, 4> x{"marray<int,4>", 2, false}; x.run(T ? shapes(4, 2) : std::vector<Ext>{{2, 1, 2, 2}, {1, 2, 1, 2}, {2, 2, 2, 2}, {0, 2, 1, 2}}, 1); }
    { Explore<marray<std::string, 2>, 2> x{"marray<string,2>", 2, false}; x.run(shapes(2, 2), T ? 3 : 2); }
    { Explore<marray<EN, 2, trk::Alloc<EN, false, true, false>>, 2> x{"marray<movable,2>", 2, true}; x.run(shapes(2, 2), T ? 3 : 2); }
    { Explore<marray<ET, 2, trk::Alloc<ET, false, false, false>>, 2> x{"marray<copied,2>", 2, true}; x.run(shapes(2, 2), T ? 3 : 2); }
    { Explore<marray<ET, 1, trk::Alloc<ET, true, true, true>>, 1> x{"marray<copied,1,propagating>", 3, true}; x.run(shapes(1, 3), 3); }
    { Explore<marray<EN, 3, trk::Alloc<EN, true, true, true>>, 3> x{"marray<movable,3,propagating>", 2, true}; x.run(shapes(3, 2), T ? 2 : 1); }
    { Explore<marray<int, 2, trk::Alloc<int, false, false, false>>, 2> x{"marray<int,2,sticky>", 2, true}; x.run(shapes(2, 2), 2); }
    huge(); exact<int>();
  } else {
    { Faults<marray<ET, 1, trk::Alloc<ET, true, true, true>>, 1> f{"marray<copied,1,propagating>", 4}; f.run(); ctor1(f); }
    { Faults<marray<ET, 2, trk::Alloc<ET, false, false, false>>, 2> f{"marray<copied,2>", T ? 4u : 3u}; f.run(); ctor2(f); }
    { Faults<marray<EN, 1, trk::Alloc<EN, false, true, false>>, 1> f{"marray<movable,1>", 4}; f.run(); ctor1(f); }
    { Faults<marray<EN, 2, trk::Alloc<EN, false, true, false>>, 2> f{"marray<movable,2>", T ? 4u : 3u}; f.run(); ctor2(f); }
    { Faults<marray<EN, 3, trk::Alloc<EN, true, true, true>>, 3> f{"marray<movable,3>", T ? 3u : 2u}; f.run(); }
    { Faults<marray<int, 2, trk::Alloc<int, true, true, true>>, 2> f{"marray<int,2>", 3}; f.run(); ctor2(f); }
  }
  return vc::finish();
}

// C04: element-wise arithmetic, broadcasting, reductions and math functions of
// marray, compared with plain loops over index tuples for every pair of shapes.
#include "vc.hpp"
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <new>
#include <complex>
#include <numeric>
#include <nuSQuIDS/aligned_alloc.h>
#include <nuSQuIDS/marray.h>
using namespace nusquids;
typedef std::vector<size_t> Sh;

static size_t total(Sh const &s) { size_t n = 1; for (size_t e : s) n *= e; return n; }
static std::string sh(Sh const &s) { return vc::show(s); }

// every shape of the rank with extents from ext
static std::vector<Sh> shapes(unsigned rank, std::vector<size_t> const &ext) {
  std::vector<Sh> r{Sh()};
  for (unsigned d = 0; d < rank; d++) {
    std::vector<Sh> n;
    for (auto &s : r) for (size_t e : ext) { Sh t = s; t.push_back(e); n.push_back(t); }
    r.swap(n);
  }
  return r;
}
// next index tuple in row-major order
static bool advance(Sh &ix, Sh const &s) {
  for (size_t d = s.size(); d-- > 0;) { if (++ix[d] < s[d]) return true; ix[d] = 0; }
  return false;
}
static size_t flat(Sh const &ix, Sh const &s) { size_t f = 0; for (size_t d = 0; d < s.size(); d++) f = f * s[d] + ix[d]; return f; }
static bool bshape(Sh const &a, Sh const &b, Sh &o) {
  size_t R = std::max(a.size(), b.size());
  o.assign(R, 0);
  for (size_t k = 0; k < R; k++) {
    size_t x = k < a.size() ? a[a.size() - 1 - k] : 1, y = k < b.size() ? b[b.size() - 1 - k] : 1;
    bool hx = k < a.size(), hy = k < b.size();
    size_t e;
    if (!hx) e = y; else if (!hy) e = x; else if (x == y) e = x; else if (x == 1) e = y; else if (y == 1) e = x; else return false;
    o[R - 1 - k] = e;
  }
  return true;
}
static size_t bflat(Sh const &ix, Sh const &s) {
  Sh j(s.size());
  for (size_t d = 0; d < s.size(); d++) { size_t v = ix[ix.size() - s.size() + d]; j[d] = s[d] == 1 ? 0 : v; }
  return flat(j, s);
}

// a value type with a tracked life, for the path which initializes first
struct Num {
  double v; Num *self;
  Num(double x = 0) : v(x), self(this) {}
  Num(const Num &o) : v(o.v), self(this) { if (o.self != &o) vc::fail("life", "copy from an object which was never constructed"); }
  Num &operator=(const Num &o) { if (self != this || o.self != &o) vc::fail("life", "assignment involving an object which was never constructed"); v = o.v; return *this; }
  ~Num() { if (self != this) vc::fail("life", "destruction of an object which was never constructed"); self = nullptr; }
  Num &operator+=(const Num &o) { v += o.v; return *this; }
  Num &operator-=(const Num &o) { v -= o.v; return *this; }
  Num &operator*=(const Num &o) { v *= o.v; return *this; }
  Num &operator/=(const Num &o) { v /= o.v; return *this; }
  bool operator==(const Num &o) const { return v == o.v; }
};
static Num operator-(Num const &a) { return Num(-a.v); }
static Num operator+(Num a, Num const &b) { return a += b; }
static Num operator-(Num a, Num const &b) { return a -= b; }
static Num operator*(Num a, Num const &b) { return a *= b; }
static Num operator/(Num a, Num const &b) { return a /= b; }
static std::ostream &operator<<(std::ostream &o, Num const &n) { return o << n.v; }

// values: distinct, never 0 (divisors), exactly representable
template <class T> T val(size_t k, int which) { return T((which ? 3 : 2) + (int)k * (which ? 5 : 7)) * (T)((k % 3 == 1) ? -1 : 1); }
template <> unsigned val<unsigned>(size_t k, int which) { return (which ? 3 : 100) + (unsigned)k * 7; }
template <> uint64_t val<uint64_t>(size_t k, int which) { return (which ? 3 : (1ULL << 40)) + k * 7; }

template <class T, unsigned R> marray<T, R> make(Sh const &s, int which, size_t salt = 0) {
  std::array<size_t, R> e; std::copy(s.begin(), s.end(), e.begin());
  marray<T, R> a(e);
  size_t k = 0;
  for (auto it = a.begin(); it != a.end(); it++) *it = val<T>(k++ + salt, which);
  return a;
}
template <class T, unsigned R, class A, class V> void check(std::string const &what, marray<T, R, A> const &m, Sh const &es, V const &ev) {
  vc::eval();
  Sh ms(R); for (unsigned d = 0; d < R; d++) ms[d] = m.extent(d);
  if (ms != es) { vc::fail("shape:" + what.substr(0, what.find('|')), what + ": shape " + sh(ms) + ", expected " + sh(es)); return; }
  if (m.size() != ev.size()) { vc::fail("size:" + what.substr(0, what.find('|')), what + ": size"); return; }
  const T *p = m.get_data();
  for (size_t k = 0; k < ev.size(); k++)
    if (!(p[k] == ev[k])) {
      vc::fail("value:" + what.substr(0, what.find('|')), vc::cat(what, ": element ", k, " is ", p[k], ", expected ", ev[k]));
      return;
    }
}

template <class T1, unsigned R1, class T2, unsigned R2> void pairs(const char *tn, std::vector<Sh> const &s1, std::vector<Sh> const &s2) {
  const unsigned R = R1 > R2 ? R1 : R2;
  typedef decltype(std::declval<T1>() + std::declval<T2>()) O;
  for (auto &a : s1) {
    if (!vc::begin()) continue;
    for (auto &b : s2) {
      marray<T1, R1> A = make<T1, R1>(a, 0);
      marray<T2, R2> B = make<T2, R2>(b, 1);
      const marray<T1, R1> A0(A); const marray<T2, R2> B0(B);
      Sh o; bool ok = bshape(a, b, o);
      std::string id = vc::cat(tn, " ", sh(a), " with ", sh(b));
      vc::state("p" + id);
      auto expect = [&](std::function<O(T1, T2)> f) {
        std::vector<O> v;
        if (total(o)) { Sh ix(o.size(), 0); do v.push_back(f(A0.get_data()[bflat(ix, a)], B0.get_data()[bflat(ix, b)])); while (advance(ix, o)); }
        return v;
      };
#define OPER(NAME, SYM) { vc::transition(); vc::trace(); \
        const marray<T1, R1> &ca = A; const marray<T2, R2> &cb = B; \
        bool thrown = false; \
        try { marray<O, R> r = ca SYM cb; \
          if (ok) { check(std::string(NAME "|") + id, r, o, expect([](T1 x, T2 y) { return O(x SYM y); })); vc::outcome(vc::cat(NAME, tn, sh(o))); } \
        } catch (std::logic_error &e) { thrown = true; vc::outcome(std::string(NAME "throw")); } \
        if (thrown == ok) vc::fail(NAME ":reject", id + (ok ? ": compatible shapes were rejected" : ": incompatible shapes were accepted")); \
        /* operands are left alone */ \
        check(std::string(NAME "-left|") + id, A, a, std::vector<T1>(A0.get_data(), A0.get_data() + A0.size())); \
        check(std::string(NAME "-right|") + id, B, b, std::vector<T2>(B0.get_data(), B0.get_data() + B0.size())); \
        try { marray<O, R> r = A SYM B; if (ok) check(std::string(NAME "-nc|") + id, r, o, expect([](T1 x, T2 y) { return O(x SYM y); })); \
              else vc::fail(NAME ":reject", id + ": incompatible shapes were accepted"); } catch (std::logic_error &) { if (ok) vc::fail(NAME ":reject", id); } }
      OPER("add", +) OPER("sub", -) OPER("mul", *) OPER("div", /)
      // which elements meet: a function which identifies both
      {
        vc::transition();
        bool thrown = false;
        try {
          auto r = applyOp(A, B, [](const T1 &x, const T2 &y) { return std::make_pair(x, y); });
          if (ok) {
            Sh ix(o.size(), 0); size_t k = 0;
            if (r.size() != total(o)) vc::fail("applyOp:size", id);
            else if (total(o)) do { auto &p = r.get_data()[k++];
              if (!(p.first == A0.get_data()[bflat(ix, a)]) || !(p.second == B0.get_data()[bflat(ix, b)])) { vc::fail("applyOp:elements", vc::cat(id, ": result ", sh(ix), " combines the wrong elements")); break; }
            } while (advance(ix, o));
          }
        } catch (std::logic_error &) { thrown = true; }
        if (thrown == ok) vc::fail("applyOp:reject", id);
      }
    }
  }
}

template <class T1, class T2, unsigned R1, unsigned R2> void binfun(const char *tn, std::vector<Sh> const &s1, std::vector<Sh> const &s2) {
  const unsigned R = R1 > R2 ? R1 : R2;
  typedef decltype(std::atan2(std::declval<T1>(), std::declval<T2>())) O;
  for (auto &a : s1) {
    if (!vc::begin()) continue;
    for (auto &b : s2) {
      marray<T1, R1> A = make<T1, R1>(a, 0); marray<T2, R2> B = make<T2, R2>(b, 1);
      for (auto &x : A) x = x / 4; for (auto &x : B) x = x / 4;
      Sh o; bool ok = bshape(a, b, o);
      std::string id = vc::cat(tn, " ", sh(a), " with ", sh(b));
      vc::state("b" + id);
#define BF(F) { vc::transition(); vc::trace(); bool thrown = false; \
        try { marray<O, R> r = F(A, B); \
          if (ok) { Sh ix(o.size(), 0); size_t k = 0; vc::eval(); Sh rs(R); for (unsigned d = 0; d < R; d++) rs[d] = r.extent(d); \
            if (rs != o) vc::fail(#F ":shape", id); else if (total(o)) do { \
              double e = std::F((O)A.get_data()[bflat(ix, a)], (O)B.get_data()[bflat(ix, b)]); double g = r.get_data()[k++]; \
              if (!vc::close(g, e, 1e-13, 0)) { vc::fail(#F ":value", vc::cat(id, ": element ", sh(ix), " is ", g, ", expected ", e)); break; } } while (advance(ix, o)); } \
        } catch (std::logic_error &) { thrown = true; } \
        if (thrown == ok) vc::fail(#F ":reject", id); }
      BF(atan2) BF(pow) BF(hypot)
    }
  }
}

template <class T, unsigned R, class U> void scalars(const char *tn, std::vector<Sh> const &ss, std::vector<U> const &us) {
  for (auto &s : ss) {
    if (!vc::begin()) continue;
    for (U u : us) {
      const marray<T, R> A0 = make<T, R>(s, 0);
      std::vector<T> v(A0.get_data(), A0.get_data() + A0.size());
      std::string id = vc::cat(tn, " ", sh(s), " scalar ", u);
      vc::state("s" + id);
      auto ex = [&](std::function<T(T)> f) { std::vector<T> r; for (T x : v) r.push_back(f(x)); return r; };
#define SC(NAME, SYM) { vc::transition(2); vc::trace(); \
        { marray<T, R> A(A0); auto r = A SYM u; check(std::string(NAME " array,scalar|") + id, r, s, ex([u](T x) { T y = x; y SYM## = u; return y; })); check(std::string(NAME " operand|") + id, A, s, v); } \
        { marray<T, R> A(A0); auto &r = (A SYM## = u); check(std::string(NAME " compound|") + id, A, s, ex([u](T x) { T y = x; y SYM## = u; return y; })); if (&r != &A) vc::fail(NAME ":ref", id); } \
        { auto r = (marray<T, R>(A0) SYM## = u); check(std::string(NAME " compound rvalue|") + id, r, s, ex([u](T x) { T y = x; y SYM## = u; return y; })); } \
        { marray<T, R> A(A0); auto r = u SYM A; check(std::string(NAME " scalar,array|") + id, r, s, ex([u](T x) { return T(u SYM x); })); check(std::string(NAME " operand2|") + id, A, s, v); } }
      SC("add", +) SC("sub", -) SC("mul", *) SC("div", /)
      vc::outcome(id);
    }
  }
}

template <class T, unsigned R> void compound(const char *tn, std::vector<Sh> const &ss) {
  for (auto &s : ss) {
    if (!vc::begin()) continue;
    const marray<T, R> A0 = make<T, R>(s, 0), B0 = make<T, R>(s, 1);
    std::vector<T> va(A0.get_data(), A0.get_data() + A0.size()), vb(B0.get_data(), B0.get_data() + B0.size());
    std::string id = vc::cat(tn, " ", sh(s));
    vc::state("c" + id);
#define CP(NAME, SYM) { vc::transition(3); vc::trace(); std::vector<T> e; for (size_t k = 0; k < va.size(); k++) { T x = va[k]; x SYM vb[k]; e.push_back(x); } \
      { marray<T, R> A(A0); auto &r = (A SYM B0); check(NAME "|" + id, A, s, e); if (&r != &A) vc::fail(NAME ":ref", id); } \
      { auto r = (marray<T, R>(A0) SYM B0); check(NAME " rvalue|" + id, r, s, e); } \
      { marray<T, R> A(A0); A SYM A; std::vector<T> q; for (T x : va) { T y = x; T z = x; y SYM z; q.push_back(y); } check(NAME " self|" + id, A, s, q); } \
      check(NAME " operand|" + id, B0, s, vb); }
    CP("add-assign", +=) CP("sub-assign", -=) CP("mul-assign", *=) CP("div-assign", /=)
    std::vector<T> n; for (T x : va) n.push_back(T(0) - x);
    { auto r = -A0; check("negate|" + id, r, s, n); check("negate operand|" + id, A0, s, va); }
    { auto r = -marray<T, R>(A0); check("negate rvalue|" + id, r, s, n); }
    { T e(0); for (T x : va) e += x; T g = A0.sum(); vc::eval(); if (!(g == e)) vc::fail("sum:value", vc::cat("sum of ", id, " is ", g, ", expected ", e)); }
    vc::outcome(id);
  }
}
template <class T, unsigned R> void sums(const char *tn, std::vector<Sh> const &ss) {
  for (auto &s : ss) {
    if (!vc::begin()) continue;
    const marray<T, R> A = make<T, R>(s, 0);
    for (unsigned d = 0; d < R; d++) {
      vc::transition(2); vc::trace();
      std::string id = vc::cat(tn, " ", sh(s), " over dimension ", d);
      vc::state("m" + id);
      Sh lo, same = s; for (unsigned i = 0; i < R; i++) if (i != d) lo.push_back(s[i]); same[d] = 1;
      std::vector<T> e(total(lo), T(0));
      if (total(s)) { Sh ix(R, 0); do { Sh j; for (unsigned i = 0; i < R; i++) if (i != d) j.push_back(ix[i]); e[flat(j, lo)] += A.get_data()[flat(ix, s)]; } while (advance(ix, s)); }
      check("sum(dim)|" + id, A.sum(d), lo, e);
      check("sum_same_rank|" + id, A.sum_same_rank(d), same, e);
      vc::outcome(id);
    }
  }
}
template <unsigned R> void unary(std::vector<Sh> const &ss) {
  for (auto &s : ss) for (int range = 0; range < 3; range++) {
    if (!vc::begin()) continue;
    std::array<size_t, R> e; std::copy(s.begin(), s.end(), e.begin());
    marray<double, R> A(e); size_t k = 0, N = A.size();
    for (auto &x : A) { double u = N > 1 ? double(k) / (N - 1) : 0.3; k++; x = range == 0 ? u * 0.9 + 0.05 : range == 1 ? 1.1 + 5 * u : -0.95 - 4.3 * u; }
    const marray<double, R> A0(A);
    std::string id = vc::cat("shape ", sh(s), " range ", range);
#define UF(F) { vc::transition(2); vc::trace(); vc::state(#F + id); auto r = F(A0); auto r2 = F(marray<double, R>(A0)); vc::eval(2); \
      if (r.get_extents() != A0.get_extents() || r2.get_extents() != A0.get_extents()) vc::fail(#F ":shape", id); \
      else for (size_t i = 0; i < N; i++) { double x = std::F(A0.get_data()[i]); \
        if (!vc::close(r.get_data()[i], x, 1e-14, 0) || !vc::close(r2.get_data()[i], x, 1e-14, 0)) { vc::fail(#F ":value", vc::cat(#F "(", A0.get_data()[i], ") gave ", r.get_data()[i], ", expected ", x)); break; } } \
      vc::outcome(#F + std::to_string(range)); \
      for (size_t i = 0; i < N; i++) if (A0.get_data()[i] != A.get_data()[i]) { vc::fail(#F ":operand", id); break; } }
    UF(cos) UF(sin) UF(tan) UF(acos) UF(asin) UF(atan) UF(cosh) UF(sinh) UF(tanh) UF(acosh) UF(asinh) UF(atanh) UF(exp) UF(exp2)
    UF(log) UF(log2) UF(log10) UF(sqrt) UF(cbrt) UF(erf) UF(erfc) UF(tgamma) UF(lgamma) UF(ceil) UF(floor) UF(trunc) UF(round) UF(abs)
  }
}

int main(int argc, char **argv) {
  vc::init(argc, argv);
  std::vector<size_t> E4{0, 1, 2, 3, 4}, E3{0, 1, 2, 3}, E2{0, 1, 2};
  std::vector<Sh> r1 = shapes(1, {0, 1, 2, 3, 4, 5, 7, 16, 33}), r2 = shapes(2, E4), r3 = shapes(3, E3), r3s = shapes(3, vc::thorough() ? E3 : E2), r4 = shapes(4, vc::thorough() ? E2 : std::vector<size_t>{1, 2});
  r4.push_back({2, 3, 1, 2}); r4.push_back({3, 1, 2, 4}); r4.push_back({1, 3, 2, 1}); r3s.push_back({3, 4, 5}); r3s.push_back({1, 4, 1}); r3s.push_back({3, 1, 5});
  std::vector<Sh> big1 = shapes(1, {64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65536, 65537}); big1.push_back({1});
#if PART == 0
  pairs<double, 1, double, 1>("d1d1", r1, r1); pairs<double, 1, double, 1>("d1d1big", big1, big1);
  pairs<double, 2, double, 2>("d2d2", r2, r2); pairs<double, 3, double, 3>("d3d3", vc::thorough() ? r3 : r3s, r3);
  pairs<double, 1, double, 2>("d1d2", r1, r2); pairs<double, 2, double, 1>("d2d1", r2, r1);
  pairs<double, 1, double, 3>("d1d3", r1, r3); pairs<double, 3, double, 1>("d3d1", r3, r1);
  pairs<double, 2, double, 3>("d2d3", r2, r3); pairs<double, 3, double, 2>("d3d2", r3, r2);
  pairs<double, 4, double, 4>("d4d4", r4, r4); pairs<double, 4, double, 2>("d4d2", r4, r2); pairs<double, 1, double, 4>("d1d4", r1, r4); pairs<double, 4, double, 3>("d4d3", r4, r3s);
#elif PART == 1
  pairs<int, 2, double, 2>("i2d2", r2, r2); pairs<int, 2, int, 2>("i2i2", r2, r2); pairs<float, 2, int, 1>("f2i1", r2, r1);
  pairs<Num, 2, Num, 2>("N2N2", shapes(2, E3), shapes(2, E3)); pairs<Num, 3, Num, 1>("N3N1", r3s, r1);
  pairs<std::complex<double>, 2, std::complex<double>, 1>("c2c1", r2, r1); pairs<std::complex<double>, 2, std::complex<double>, 2>("c2c2", r2, r2);
  pairs<long, 1, unsigned, 3>("l1u3", r1, r3s);
#elif PART == 2
  scalars<double, 1, double>("d1", r1, {0.5, -3, 0, 1e300}); scalars<double, 2, double>("d2", r2, {0.5, -3}); scalars<double, 3, int>("d3i", r3s, {2, -7});
  scalars<int, 2, int>("i2", r2, {3, -2, 7}); scalars<uint64_t, 1, uint64_t>("u1", r1, {3, 1ULL << 33, 1000003}); scalars<float, 2, float>("f2", r2, {0.25f, -3});
  scalars<int64_t, 2, int64_t>("l2", r2, {3, -5}); scalars<uint32_t, 1, uint32_t>("w1", r1, {3, 2147483649u}); scalars<int, 1, double>("i1d", r1, {2.5, -0.5});
  compound<double, 1>("d1", r1); compound<double, 1>("d1big", big1); compound<double, 2>("d2", r2); compound<double, 3>("d3", r3); compound<double, 4>("d4", r4); compound<int, 2>("i2", r2); compound<Num, 2>("N2", r2); compound<std::complex<double>, 2>("c2", r2);
  sums<double, 2>("d2", r2); sums<double, 3>("d3", r3); sums<double, 4>("d4", r4); sums<int, 3>("i3", r3); sums<Num, 2>("N2", r2); sums<Num, 3>("N3", r3s); sums<double, 2>("d2big", {{300, 2}, {2, 300}, {1, 70000}, {70000, 1}}); sums<double, 5>("d5", shapes(5, {1, 2, 3}));
#else
  std::vector<Sh> u1 = shapes(1, {0, 1, 2, 3, 9, 40}), u2 = shapes(2, E3), u3 = shapes(3, E2);
  unary<1>(u1); unary<2>(u2); unary<3>(u3);
  binfun<double, double, 1, 1>("d1d1", r1, r1); binfun<double, double, 2, 2>("d2d2", r2, r2); binfun<double, double, 3, 1>("d3d1", r3s, r1); binfun<double, double, 1, 2>("d1d2", r1, r2); binfun<int, double, 2, 2>("i2d2", u2, u2); binfun<float, float, 2, 2>("f2f2", u2, u2); binfun<double, double, 3, 3>("d3d3", u3, u3);
#endif
  return vc::finish();
}

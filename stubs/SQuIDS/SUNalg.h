// Stand-in for the SU(N) algebra of the SQuIDS library (generalised Gell-Mann basis).
#ifndef SQUIDS_SUNALG_H
#define SQUIDS_SUNALG_H
#include <gsl/gsl_complex_math.h>
#include <gsl/gsl_eigen.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_vector.h>
#include <memory>
#include <utility>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <new>
#include <algorithm>
#include <iostream>
#include "const.h"
namespace squids {
inline void stub_align_check(const void *p, size_t n, const char *f, int l) {
  if ((uintptr_t)p % n) { fprintf(stderr, "ERROR: AddressSanitizer: promised-alignment %s:%d\n", f, l); fflush(stderr); _Exit(99); }
}
#define SQUIDS_POINTER_IS_ALIGNED(p, n) squids::stub_align_check((const void *)(p), (n), __FILE__, __LINE__)
namespace detail {
enum { NoAlias = 1, EqualSizes = 2, AlignedStorage = 4 };
}
// components on 32 byte boundaries, from the second on if their number is odd
inline double *stub_alloc(size_t n) { void *p = nullptr; if (!n) return nullptr; size_t skip = n % 2 ? 3 : 0; if (posix_memalign(&p, 32, (n + skip) * sizeof(double))) throw std::bad_alloc(); std::fill((double *)p, (double *)p + n + skip, 0.); return (double *)p + skip; }
inline void stub_free(double *p, size_t n) { if (p) free(p - (n % 2 ? 3 : 0)); }
inline void stub_broken(const char *what) { fprintf(stderr, "ERROR: AddressSanitizer: promised-%s\n", what); fflush(stderr); _Exit(99); }
class SU_vector {
  unsigned dim = 0; double *c = nullptr; bool own = true;
  // of a value just computed: its operand, whether that was aligned, and what was promised about it
  const double *from = nullptr; bool from_aligned = true; int promised = 0;
  static bool aligned(const double *p, unsigned d) { return uintptr_t(p + d % 2) % 32 == 0; }
  void kept(const SU_vector &o) const { if ((o.promised & detail::AlignedStorage) && !(aligned(c, dim) && o.from_aligned)) stub_broken("alignment of SU_vector storage"); if ((o.promised & detail::NoAlias) && o.from == c && c) stub_broken("absence of aliases"); if ((o.promised & detail::EqualSizes) && dim != o.dim) stub_broken("equality of sizes"); }
  typedef std::complex<double> C;
  void need(const SU_vector &o) const { if (dim != o.dim) throw std::runtime_error("SU_vector: dimensions differ"); }
public:
  struct M { // dense matrix, no allocation
    C a[SQUIDS_MAX_HILBERT_DIM * SQUIDS_MAX_HILBERT_DIM]; size_t n = 0;
    M() {}
    explicit M(size_t n) : n(n) { for (size_t i = 0; i < n; i++) a[i] = 0; }
    M(const M &o) : n(o.n) { for (size_t i = 0; i < n; i++) a[i] = o.a[i]; }
    M &operator=(const M &o) { n = o.n; for (size_t i = 0; i < n; i++) a[i] = o.a[i]; return *this; }
    C &operator[](size_t i) { return a[i]; }
    const C &operator[](size_t i) const { return a[i]; }
    C &at(size_t i) { if (i >= n) throw std::out_of_range("SU_vector::M"); return a[i]; }
    size_t size() const { return n; }
    C *begin() { return a; }
    C *end() { return a + n; }
  };
  SU_vector() {}
  explicit SU_vector(unsigned d) : dim(d), c(stub_alloc(d * d)) { if (d > SQUIDS_MAX_HILBERT_DIM) { stub_free(c, d * d); throw std::runtime_error("SU_vector: dimension too large"); } }
  SU_vector(unsigned d, double *p) : dim(d), c(p), own(false) {}
  explicit SU_vector(const gsl_matrix_complex *g) : dim(g->size1), c(stub_alloc(g->size1 * g->size1)) { if (g->size1 != g->size2) { stub_free(c, dim * dim); throw std::runtime_error("SU_vector: not a square matrix"); } M m(dim * dim); for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < dim; j++) { gsl_complex z = gsl_matrix_complex_get(g, i, j); m[i * dim + j] = C(GSL_REAL(z), GSL_IMAG(z)); } set(m); }
  static SU_vector make_aligned(unsigned d, bool zero = true) { (void)zero; return SU_vector(d); }
  explicit SU_vector(const std::vector<double> &v) : dim(std::lround(std::sqrt(double(v.size())))), c(stub_alloc(v.size())) { std::copy(v.begin(), v.end(), c); }
  SU_vector(const SU_vector &o) : dim(o.dim), c(stub_alloc(o.dim * o.dim)) { std::copy(o.c, o.c + dim * dim, c); }
  SU_vector(SU_vector &&o) noexcept : dim(o.dim), c(o.c), own(o.own), from(o.from), from_aligned(o.from_aligned) { o.dim = 0; o.c = nullptr; o.own = true; }
  ~SU_vector() { if (own) stub_free(c, dim * dim); }
  SU_vector &operator=(const SU_vector &o) {
    if (this == &o) return *this;
    if (dim != o.dim) { if (!own) throw std::runtime_error("SU_vector: cannot resize borrowed storage"); double *n = stub_alloc(o.dim * o.dim); stub_free(c, dim * dim); c = n; dim = o.dim; }
    std::copy(o.c, o.c + dim * dim, c); return *this;
  }
  SU_vector &operator=(SU_vector &&o) {
    if (this == &o) return *this;
    kept(o);
    if (dim && dim == o.dim) { std::copy(o.c, o.c + dim * dim, c); return *this; }
    if (!own && dim) throw std::runtime_error("SU_vector: cannot resize borrowed storage");
    std::swap(dim, o.dim); std::swap(c, o.c); std::swap(own, o.own); return *this;
  }
  M mat() const {
    M m(dim * dim);
    for (unsigned i = 0; i < dim; i++) m[i * dim + i] = c[0];
    for (unsigned l = 1; l < dim; l++) { double k = c[l * dim + l] * std::sqrt(2.0 / (l * (l + 1.0))); for (unsigned i = 0; i < l; i++) m[i * dim + i] += k; m[l * dim + l] -= l * k; }
    for (unsigned i = 0; i < dim; i++) for (unsigned j = i + 1; j < dim; j++) { m[i * dim + j] = C(c[i * dim + j], -c[j * dim + i]); m[j * dim + i] = std::conj(m[i * dim + j]); }
    return m;
  }
  void set(const M &m) {
    double t = 0; for (unsigned i = 0; i < dim; i++) t += m[i * dim + i].real();
    if (dim) c[0] = t / dim;
    for (unsigned l = 1; l < dim; l++) { double s = 0; for (unsigned i = 0; i < l; i++) s += m[i * dim + i].real(); s -= l * m[l * dim + l].real(); c[l * dim + l] = 0.5 * s * std::sqrt(2.0 / (l * (l + 1.0))); }
    for (unsigned i = 0; i < dim; i++) for (unsigned j = i + 1; j < dim; j++) { c[i * dim + j] = m[i * dim + j].real(); c[j * dim + i] = -m[i * dim + j].imag(); }
  }
  static SU_vector Projector(unsigned d, unsigned i) { SU_vector v(d); M m(d * d); m.at(i * d + i) = 1; v.set(m); return v; }
  static SU_vector Identity(unsigned d) { SU_vector v(d); v.c[0] = 1; return v; }
  unsigned Dim() const { return dim; }
  unsigned Size() const { return dim * dim; }
  double &operator[](unsigned i) { return c[i]; }
  double operator[](unsigned i) const { return c[i]; }
  std::vector<double> GetComponents() const { return std::vector<double>(c, c + dim * dim); }
  void SetAllComponents(double v) { std::fill(c, c + dim * dim, v); }
  void SetBackingStore(double *p) { if (own) stub_free(c, dim * dim); c = p; own = false; }
  SU_vector &operator+=(const SU_vector &o) { kept(o); need(o); for (unsigned i = 0; i < dim * dim; i++) c[i] += o.c[i]; return *this; }
  SU_vector &operator-=(const SU_vector &o) { kept(o); need(o); for (unsigned i = 0; i < dim * dim; i++) c[i] -= o.c[i]; return *this; }
  SU_vector &operator*=(double s) { for (unsigned i = 0; i < dim * dim; i++) c[i] *= s; return *this; }
  SU_vector &operator/=(double s) { for (unsigned i = 0; i < dim * dim; i++) c[i] /= s; return *this; }
  friend SU_vector operator+(SU_vector a, const SU_vector &b) { a += b; return a; }
  friend SU_vector operator-(SU_vector a, const SU_vector &b) { a -= b; return a; }
  friend SU_vector operator*(double s, const SU_vector &a) { SU_vector r(a); r *= s; r.from = a.c; r.from_aligned = aligned(a.c, a.dim); return r; }
  friend SU_vector operator*(const SU_vector &a, double s) { return s * a; }
  SU_vector &&promise(int f) { promised = f; return std::move(*this); }
  bool storage_aligned() const { return aligned(c, dim); }
  SU_vector operator-() const { SU_vector r(*this); r *= -1; return r; }
  double operator*(const SU_vector &o) const { need(o); double s = 0; for (unsigned i = 1; i < dim * dim; i++) s += c[i] * o.c[i]; return dim ? dim * c[0] * o.c[0] + 2 * s : 0; }
  bool operator==(const SU_vector &o) const { return dim == o.dim && std::equal(c, c + dim * dim, o.c); }
  // rotation of an operator given in the basis of definite flavor into the mass basis: U^dagger V U
  void RotateToB1(const Const &k) { rot(k, false); }
  void RotateToB0(const Const &k) { rot(k, true); }
  // eigenvalues and eigenvectors (columns), in ascending order when asked
  std::pair<std::unique_ptr<gsl_vector, void (*)(gsl_vector *)>, std::unique_ptr<gsl_matrix_complex, void (*)(gsl_matrix_complex *)>> GetEigenSystem(bool order = true) const {
    std::unique_ptr<gsl_vector, void (*)(gsl_vector *)> v(gsl_vector_alloc(dim), gsl_vector_free); std::unique_ptr<gsl_matrix_complex, void (*)(gsl_matrix_complex *)> w(gsl_matrix_complex_alloc(dim, dim), gsl_matrix_complex_free), m(gsl_matrix_complex_alloc(dim, dim), gsl_matrix_complex_free);
    M a = mat(); for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < dim; j++) gsl_matrix_complex_set(m.get(), i, j, gsl_complex_rect(a[i * dim + j].real(), a[i * dim + j].imag()));
    gsl_eigen_hermv_workspace *s = gsl_eigen_hermv_alloc(dim); gsl_eigen_hermv(m.get(), v.get(), w.get(), s); gsl_eigen_hermv_free(s);
    if (order) gsl_eigen_hermv_sort(v.get(), w.get(), GSL_EIGEN_SORT_VAL_ASC);
    return {std::move(v), std::move(w)};
  }
  // exp(i t H) V exp(-i t H), H diagonal
  SU_vector Evolve(const SU_vector &h, double t) const { std::vector<double> b(h.GetEvolveBufferSize()); h.PrepareEvolve(b.data(), t); return Evolve(b.data()); }
  size_t GetEvolveBufferSize() const { return dim * (dim - 1); }
  void PrepareEvolve(double *b, double t) const { fill(b, t, 0, nullptr); }
  void PrepareEvolve(double *b, double t, double scale, std::vector<bool> &avr) const { fill(b, t, scale, &avr); }
  void LowPassFilter(double *b, double cutoff, double scale) const {
    M m = mat(); size_t k = 0;
    for (unsigned i = 0; i < dim; i++) for (unsigned j = i + 1; j < dim; j++, k += 2) {
      double w = std::fabs(m[i * dim + i].real() - m[j * dim + j].real()), f = 1;
      if (w > cutoff) f = 0; else if (scale > 0 && w > cutoff - scale) f = (cutoff - w) / scale;
      b[k] *= f; b[k + 1] *= f;
    }
  }
  SU_vector Evolve(const double *b) const {
    SU_vector r(*this); size_t k = 0;
    for (unsigned i = 0; i < dim; i++) for (unsigned j = i + 1; j < dim; j++, k += 2) {
      double re = c[i * dim + j], im = -c[j * dim + i];   // M_ij
      r.c[i * dim + j] = re * b[k] - im * b[k + 1]; r.c[j * dim + i] = -(re * b[k + 1] + im * b[k]);
    }
    r.from = c; r.from_aligned = aligned(c, dim); return r;
  }
  // exp(-scale v) this exp(scale v)
  SU_vector UTransform(const SU_vector &v, gsl_complex scale) const {
    need(v); M a = v.mat(), e(dim * dim), t;
    C s(GSL_REAL(scale), GSL_IMAG(scale)); double n = 0;
    for (auto &x : a) { x *= s; n = std::max(n, std::abs(x)); }
    int q = 0; while (n * dim > 0.25) { n /= 2; q++; }
    for (auto &x : a) x *= std::pow(0.5, q);
    for (unsigned i = 0; i < dim; i++) e[i * dim + i] = 1;
    t = e; for (int i = 1; i < 24; i++) { t = mul(t, a); for (auto &x : t) x /= double(i); for (size_t j = 0; j < e.size(); j++) e[j] += t[j]; }
    for (int i = 0; i < q; i++) e = mul(e, e);
    M ed(dim * dim); for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < dim; j++) ed[i * dim + j] = std::conj(e[j * dim + i]);
    SU_vector r(dim); r.set(mul(ed, mul(mat(), e))); return r;
  }
  M mul(const M &a, const M &b) const {
    M r(dim * dim);
    for (unsigned i = 0; i < dim; i++) for (unsigned k = 0; k < dim; k++) {
      double x = a.a[i * dim + k].real(), y = a.a[i * dim + k].imag();
      for (unsigned j = 0; j < dim; j++) { const C &z = b.a[k * dim + j]; C &o = r.a[i * dim + j]; o = C(o.real() + x * z.real() - y * z.imag(), o.imag() + x * z.imag() + y * z.real()); }
    }
    return r;
  }
  std::unique_ptr<gsl_matrix_complex, void (*)(gsl_matrix_complex *)> GetGSLMatrix() const {
    std::unique_ptr<gsl_matrix_complex, void (*)(gsl_matrix_complex *)> g(gsl_matrix_complex_alloc(dim, dim), gsl_matrix_complex_free); M m = mat();
    for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < dim; j++) { gsl_complex z; GSL_SET_COMPLEX(&z, m[i * dim + j].real(), m[i * dim + j].imag()); gsl_matrix_complex_set(g.get(), i, j, z); }
    return g;
  }
  // what only the Python interface uses
  SU_vector Rotate(unsigned i, unsigned j, double th, double del) const { Const k; k.SetMixingAngle(i, j, th); k.SetPhase(i, j, del); SU_vector r(*this); r.rot(k, false); return r; }
  void WeightedRotation(const Const &a, const SU_vector &y, const Const &b) { rot(a, false); SU_vector r(dim); r.set(mul(y.mat(), mul(mat(), y.mat()))); std::copy(r.c, r.c + dim * dim, c); rot(b, false); }
  SU_vector Rotate(const gsl_matrix_complex *u) const { M k(dim * dim), d(dim * dim); for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < dim; j++) { gsl_complex z = gsl_matrix_complex_get(u, i, j); k[i * dim + j] = C(GSL_REAL(z), GSL_IMAG(z)); d[j * dim + i] = std::conj(k[i * dim + j]); } SU_vector r(dim); r.set(mul(d, mul(mat(), k))); return r; }
  SU_vector Transpose() const { SU_vector r(*this); for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < i; j++) r.c[i * dim + j] *= -1; return r; }
  SU_vector Real() const { SU_vector r(*this); for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < i; j++) r.c[i * dim + j] = 0; return r; }
  SU_vector Imag() const { SU_vector r(*this); for (unsigned i = 0; i < dim; i++) for (unsigned j = i; j < dim; j++) r.c[i * dim + j] = 0; return r; }
  static SU_vector PosProjector(unsigned d, unsigned n) { SU_vector v(d); for (unsigned i = 0; i < n; i++) v += Projector(d, i); return v; }
  static SU_vector NegProjector(unsigned d, unsigned n) { SU_vector v(d); for (unsigned i = 0; i < n; i++) v += Projector(d, d - 1 - i); return v; }
  static SU_vector Generator(unsigned d, unsigned i) { if (i >= d * d) throw std::runtime_error("SU_vector::Generator: no such generator"); SU_vector v(d); v.c[i] = 1; return v; }
  friend std::ostream &operator<<(std::ostream &o, const SU_vector &v) { for (unsigned i = 0; i < v.Size(); i++) o << v.c[i] << " "; return o; }
private:
  void rot(const Const &k, bool inv) {
    auto g = k.GetTransformationMatrix(dim); M u(dim * dim), ud(dim * dim);
    for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < dim; j++) { gsl_complex z = gsl_matrix_complex_get(g.get(), i, j); u[i * dim + j] = C(GSL_REAL(z), GSL_IMAG(z)); ud[j * dim + i] = std::conj(u[i * dim + j]); }
    set(inv ? mul(u, mul(mat(), ud)) : mul(ud, mul(mat(), u)));
  }
  void fill(double *b, double t, double scale, std::vector<bool> *avr) const {
    M m = mat(); size_t k = 0, n = 0;
    for (unsigned i = 0; i < dim; i++) for (unsigned j = i + 1; j < dim; j++, k += 2, n++) {
      double w = (m[i * dim + i].real() - m[j * dim + j].real()) * t;
      if (avr && std::fabs(w) > scale) { b[k] = b[k + 1] = 0; if (n < avr->size()) (*avr)[n] = true; }
      else { b[k] = std::cos(w); b[k + 1] = std::sin(w); if (avr && n < avr->size()) (*avr)[n] = false; }
    }
  }
};
namespace detail { // values the real library computes lazily
#define PROXY(X) struct X { operator SU_vector() const { return SU_vector(); } };
PROXY(AdditionProxy) PROXY(SubtractionProxy) PROXY(NegationProxy) PROXY(EvolutionProxy) PROXY(MultiplicationProxy) PROXY(iCommutatorProxy) PROXY(ACommutatorProxy)
#undef PROXY
}
template <int F = 0> double SUTrace(const SU_vector &a, const SU_vector &b) { if ((F & detail::AlignedStorage) && !(a.storage_aligned() && b.storage_aligned())) stub_broken("alignment of SU_vector storage"); return a * b; }
namespace detail { template <int F> SU_vector &&guarantee(SU_vector &&x) { return x.promise(F); } }
inline SU_vector iCommutator(const SU_vector &a, const SU_vector &b) { // i [a, b]
  SU_vector r(a.Dim()); auto x = a.mat(), y = b.mat(), p = a.mul(x, y), q = a.mul(y, x);
  for (size_t i = 0; i < p.size(); i++) p[i] = std::complex<double>(0, 1) * (p[i] - q[i]); r.set(p); return r;
}
inline SU_vector ACommutator(const SU_vector &a, const SU_vector &b) { // {a, b}
  SU_vector r(a.Dim()); auto x = a.mat(), y = b.mat(), p = a.mul(x, y), q = a.mul(y, x);
  for (size_t i = 0; i < p.size(); i++) p[i] += q[i]; r.set(p); return r;
}
}
#endif

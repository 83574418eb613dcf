// Reference description of neutrino propagation, in the flavor basis and the
// Schroedinger picture, with plain complex matrices.
#ifndef NQ_HPP
#define NQ_HPP
#ifndef NOSKEW
#include "skew.hpp"
#endif
#include <complex>
#include <vector>
#include <cmath>
#include <nuSQuIDS/nuSQuIDS.h>
namespace nq {
using namespace nusquids;
typedef std::complex<double> C;
static const squids::Const k;
struct M {
  int n; C a[25];
  explicit M(int n = 0) : n(n) {}
  C &operator()(int i, int j) { return a[i * n + j]; }
  C operator()(int i, int j) const { return a[i * n + j]; }
  static M id(int n) { M m(n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
  M dag() const { M m(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = std::conj((*this)(j, i)); return m; }
  M conj() const { M m(n); for (int i = 0; i < n * n; i++) m.a[i] = std::conj(a[i]); return m; }
  double norm() const { double s = 0; for (auto &x : a) s = std::max(s, std::abs(x)); return s; }
};
inline M operator*(M const &x, M const &y) { M r(x.n); for (int i = 0; i < x.n; i++) for (int l = 0; l < x.n; l++) { C f = x(i, l); for (int j = 0; j < x.n; j++) r(i, j) += f * y(l, j); } return r; }
inline M operator*(C s, M x) { for (auto &v : x.a) v *= s; return x; }
inline M operator+(M x, M const &y) { for (int i = 0; i < x.n * x.n; i++) x.a[i] += y.a[i]; return x; }
inline M operator-(M x, M const &y) { for (int i = 0; i < x.n * x.n; i++) x.a[i] -= y.a[i]; return x; }
inline M expm(M x) {
  double s = x.norm() * x.n; int q = 0; while (s > 0.5) { s /= 2; q++; }
  x = C(std::ldexp(1., -q)) * x; M r = M::id(x.n), t = r;
  for (int i = 1; i < 16; i++) { t = C(1. / i) * (t * x); r = r + t; }
  while (q--) r = r * r; return r;
}
// exp(i D t) V exp(-i D t), D diagonal
inline M turn(M v, std::vector<double> const &d, double t) { for (int i = 0; i < v.n; i++) for (int j = 0; j < v.n; j++) v(i, j) *= std::polar(1., (d[i] - d[j]) * t); return v; }
struct Par {
  int n; double th[6][6], de[6][6], dm[6];
  M u(bool anti) const {
    M r = M::id(n);
    for (int j = 1; j < n; j++) for (int i = 0; i < j; i++) {
      M x = M::id(n); double s = sin(th[i][j]), c = cos(th[i][j]); x(i, i) = x(j, j) = c;
      x(i, j) = std::polar(s, anti ? de[i][j] : -de[i][j]); x(j, i) = -std::conj(x(i, j)); r = x * r;
    }
    return r;
  }
  std::vector<double> h0(double E) const { std::vector<double> d(n); for (int i = 1; i < n; i++) d[i] = dm[i] / (2 * E); return d; }
  M diag(std::vector<double> const &d) const { M m(n); for (int i = 0; i < n; i++) m(i, i) = d[i]; return m; }
};
// 0: as built; 1: everything mixed, with phases; 2: inverted ordering; 3: no mixing
inline Par params(int n, int s) {
  Par p; p.n = n;
  for (int i = 0; i < 6; i++) { p.dm[i] = 0; for (int j = 0; j < 6; j++) p.th[i][j] = p.de[i][j] = 0; }
  p.th[0][1] = 0.583638; p.th[0][2] = 0.149575; p.th[1][2] = 0.855211; p.dm[1] = 7.42e-5; p.dm[2] = 2.514e-3;
  if (s == 1) for (int j = 1; j < n; j++) { p.dm[j] = j < 3 ? p.dm[j] : 0.003 * j; for (int i = 0; i < j; i++) { p.th[i][j] += .1 + .07 * i + .03 * j; p.de[i][j] = .4 + .9 * i - .5 * j; } }
  if (s == 2) { p.dm[2] = -2.4e-3; p.de[0][2] = 4.1; if (n > 3) { p.dm[3] = 2e-3; p.th[0][3] = .3; p.de[1][3] = 1; } }
  if (s == 3) { for (auto &r : p.th) for (double &x : r) x = 0; if (n > 3) p.dm[3] = 1e-3; }
  return p;
}
template <class Q> void apply(Q &q, Par const &p) {
  for (int j = 1; j < p.n; j++) { q.Set_SquareMassDifference(j, p.dm[j]); for (int i = 0; i < j; i++) { q.Set_MixingAngle(i, j, p.th[i][j]); q.Set_CPPhase(i, j, p.de[i][j]); } }
}
// A medium whose profile is a closed-form function of position.
struct Med : Body {
  double d0, d1, y0, y1, w; bool cst; std::function<double(double)> src; mutable int used = 0;
  Med(double d, double y) : d0(d), d1(0), y0(y), y1(0), w(0), cst(true) {}
  Med(double d0, double d1, double y0, double y1, double w) : d0(d0), d1(d1), y0(y0), y1(y1), w(w), cst(false) {}
  double rho(double x) const { return d0 + d1 * sin(w * x) * sin(w * x); }
  double e(double x) const { return y0 + y1 * cos(w * x); }
  double density(const GenericTrack &t) const { return rho(t.GetX()); }
  double ye(const GenericTrack &t) const { return e(t.GetX()); }
  bool IsConstantDensity() const { return cst; }
  void Serialize(hid_t) const {}
};
// Potential in the flavor basis: charged current for electron neutrinos and
// neutral current on neutrons for the three active ones.
inline std::vector<double> pot(int n, double rho, double ye, bool anti) {
  double a = sqrt(2.) * k.GF * k.Na / (k.cm * k.cm * k.cm) * rho * (anti ? -1 : 1);
  std::vector<double> v(n); for (int i = 0; i < 3; i++) v[i] = -0.5 * a * (1 - ye); v[0] += a * ye; return v;
}
inline M ham(Par const &p, double E, double rho, double ye, bool anti, bool frozen = false) { M u = p.u(anti), v = p.diag(pot(p.n, rho, ye, anti)); return frozen ? v : u * p.diag(p.h0(E)) * u.dag() + v; }
// Propagate from a to b.
inline M propagate(Par const &p, double E, Med const &m, double a, double b, bool anti, M r, bool frozen = false, int steps = 80) {
  if (m.cst) { M s = expm(C(0, -(b - a)) * ham(p, E, m.rho(a), m.e(a), anti, frozen)); return s * r * s.dag(); }
  double h = (b - a) / steps; M s = M::id(p.n);
  for (int i = 0; i < steps; i++) {
    double x1 = a + h * (i + .5 - sqrt(3.) / 6), x2 = a + h * (i + .5 + sqrt(3.) / 6);
    M h1 = C(0, -1) * ham(p, E, m.rho(x1), m.e(x1), anti, frozen), h2 = C(0, -1) * ham(p, E, m.rho(x2), m.e(x2), anti, frozen);
    s = expm(C(h / 2) * (h1 + h2) - C(h * h * sqrt(3.) / 12) * (h1 * h2 - h2 * h1)) * s;
  }
  return s * r * s.dag();
}
inline M mat(squids::SU_vector const &v) { M m(v.Dim()); auto g = v.GetGSLMatrix(); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) { gsl_complex z = gsl_matrix_complex_get(g.get(), i, j); m(i, j) = C(GSL_REAL(z), GSL_IMAG(z)); } return m; }
}
#endif

// C11: evenly spaced ranges and complex-matrix helpers.
#include "vc.hpp"
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_complex_math.h>
#include <nuSQuIDS/tools.h>
#include <complex>
#include <iostream>
#include <limits>
using namespace nusquids;
typedef std::complex<double> cd;
typedef std::vector<cd> CM;   // row major, d x d

static void spaces() {
  std::vector<double> lin{0., 1., -1., 0.1, -7.25, 3., 1e-9, 1e12, -1e12, 1e300, 5e-324, 100.};
  std::vector<double> pos{1., 10., 1e-9, 0.1, 3., 1e2, 1e12, 1e21, 1e-300, 1e300};
  unsigned nmax = vc::thorough() ? 400 : 60;
  std::vector<unsigned> ns; for (unsigned n = 1; n <= nmax; n++) ns.push_back(n); for (unsigned n : {127u, 128u, 257u, 700u, 1000u, 4097u}) ns.push_back(n);
  for (int lg = 0; lg < 2; lg++) {
    auto &al = lg ? pos : lin;
    const char *nm = lg ? "logspace" : "linspace";
    for (double a : al) for (double b : al) for (unsigned n : ns) {
      if (!vc::begin()) continue;
      std::string id = vc::cat(nm, "(", a, ",", b, ",", n, ")");
      vc::state(id); vc::transition(); vc::trace(); vc::eval(n);
      marray<double, 1> r = lg ? logspace(a, b, n) : linspace(a, b, n);
      if (r.extent(0) != n || r.size() != n) { vc::fail(std::string(nm) + ":size", vc::cat(id, " has ", r.size(), " points")); continue; }
      if (n >= 2 && r[0] != a) vc::fail(std::string(nm) + ":first", vc::cat(id, " starts at ", r[0]));
      if (r[n - 1] != b) vc::fail(std::string(nm) + ":last", vc::cat(id, " ends at ", r[n - 1]));
      const double eps = std::numeric_limits<double>::epsilon();
      for (unsigned k = 1; k + 1 < n; k++) {
        long double t = (long double)k / (n - 1), e; double tol;
        if (lg) { long double la = std::log((long double)a), lb = std::log((long double)b), l = la + (lb - la) * t; e = std::exp(l); tol = (double)e * 2 * eps * (n + 4) * (1 + std::max(std::fabs((double)la), std::fabs((double)lb))); }
        else { e = a + ((long double)b - a) * t; tol = eps * (n + 4) * std::max(std::fabs(a), std::fabs(b)) + 5e-324 * n; }
        if (!(std::fabs((double)(r[k] - e)) <= tol)) { vc::fail(std::string(nm) + ":value", vc::cat(id, ": point ", k, " is ", r[k], ", expected ", (double)e)); break; }
        double rel = std::max(std::fabs(a), std::fabs(b)), gap = lg ? std::fabs(std::log(b) - std::log(a)) / n * (double)e : std::fabs(b - a) / n;
        if (gap > 4 * tol && !(a < b ? r[k] > r[k - 1] : r[k] < r[k - 1])) { vc::fail(std::string(nm) + ":order", vc::cat(id, ": points ", k - 1, " and ", k)); break; }
        (void)rel;
      }
      if (n <= 3) vc::sample(id);
      vc::outcome(vc::cat(nm, n, a < b, a == b));
    }
    if (vc::begin()) {
      bool t = false; try { marray<double, 1> r = lg ? logspace(1, 2, 0) : linspace(1, 2, 0); } catch (std::length_error &) { t = true; } catch (...) {}
      vc::eval(); if (!t) vc::fail(std::string(nm) + ":zero", "0 points not refused with length_error");
    }
  }
}

// a gsl matrix over possibly padded storage
struct GM {
  gsl_matrix_complex *big; gsl_matrix_complex_view v; unsigned r, c, pad;
  GM(unsigned r, unsigned c, unsigned pad) : r(r), c(c), pad(pad) { big = gsl_matrix_complex_alloc(r + 2 * pad, c + 2 * pad); for (size_t i = 0; i < r + 2 * pad; i++) for (size_t j = 0; j < c + 2 * pad; j++) gsl_matrix_complex_set(big, i, j, gsl_complex_rect(-77, 55)); v = gsl_matrix_complex_submatrix(big, pad, pad, r, c); }
  GM(GM const &) = delete;
  ~GM() { gsl_matrix_complex_free(big); }
  gsl_matrix_complex *m() { return &v.matrix; }
  void set(CM const &x) { for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) gsl_matrix_complex_set(m(), i, j, gsl_complex_rect(x[i * c + j].real(), x[i * c + j].imag())); }
  CM get() { CM x(r * c); for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) { gsl_complex z = gsl_matrix_complex_get(m(), i, j); x[i * c + j] = cd(GSL_REAL(z), GSL_IMAG(z)); } return x; }
  bool border() { for (size_t i = 0; i < r + 2 * pad; i++) for (size_t j = 0; j < c + 2 * pad; j++) { if (i >= pad && i < pad + r && j >= pad && j < pad + c) continue; gsl_complex z = gsl_matrix_complex_get(big, i, j); if (GSL_REAL(z) != -77 || GSL_IMAG(z) != 55) return false; } return true; }
};
static CM mul(CM const &a, CM const &b, unsigned d) { CM r(d * d); for (unsigned i = 0; i < d; i++) for (unsigned j = 0; j < d; j++) for (unsigned k = 0; k < d; k++) r[i * d + j] += a[i * d + k] * b[k * d + j]; return r; }
static CM dag(CM const &a, unsigned d) { CM r(d * d); for (unsigned i = 0; i < d; i++) for (unsigned j = 0; j < d; j++) r[i * d + j] = std::conj(a[j * d + i]); return r; }
static std::string showm(CM const &m) { std::ostringstream o; for (auto &x : m) o << x; return o.str(); }
static void rotate(CM const &U, CM const &M, unsigned d, unsigned pad, double tol) {
  for (int w = 0; w < 2; w++) {
    GM u(d, d, pad), m(d, d, pad); u.set(U); m.set(M);
    vc::transition(); vc::trace(); vc::eval();
    (w ? gsl_matrix_complex_change_basis_UCMU : gsl_matrix_complex_change_basis_UMUC)(u.m(), m.m());
    CM e = w ? mul(dag(U, d), mul(M, U, d), d) : mul(U, mul(M, dag(U, d), d), d), g = m.get();
    for (unsigned i = 0; i < d * d; i++) if (std::abs(g[i] - e[i]) > tol) { vc::fail(w ? "rotate:UCMU" : "rotate:UMUC", vc::cat("dimension ", d, " U=", showm(U), " M=", showm(M), " gave ", showm(g))); break; }
    if (u.get() != U) vc::fail("rotate:U", "the rotation matrix was changed");
    if (!u.border() || !m.border()) vc::fail("rotate:border", "storage outside the matrix was changed");
  }
}
static void matrices() {
  const cd A[] = {cd(0), cd(1), cd(0, 1), cd(-1, 2)};
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (vc::begin()) { vc::state(vc::cat("1:", a, b)); rotate(CM{A[a]}, CM{A[b]}, 1, a & 1, 0); }
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
    if (!vc::thorough() && (a * 7 + b) % 4) continue;
    if (!vc::begin()) continue;
    CM U(4), M(4); for (int i = 0; i < 4; i++) { U[i] = A[a >> (2 * i) & 3]; M[i] = A[b >> (2 * i) & 3]; }
    vc::state(vc::cat("2:", a, ",", b)); vc::outcome(vc::cat("rot", a)); rotate(U, M, 2, b & 1, 0);
  }
  for (unsigned d = 3; d <= (vc::thorough() ? 5u : 4u); d++) for (unsigned p = 0; p < d * d; p++) for (unsigned q = 0; q < d * d; q++) {
    if (!vc::begin()) continue;
    for (unsigned m = 0; m < d * d; m++) for (int ph = 0; ph < 3; ph++) {
      CM U(d * d), M(d * d); U[p] += A[1]; U[q] += ph == 0 ? cd(0) : ph == 1 ? cd(0, 1) : cd(-1, 2); M[m] = cd(2, -1);
      vc::state(vc::cat(d, ":", p, ",", q, ",", m, ",", ph)); rotate(U, M, d, ph & 1, 0);
    }
  }
  // a rotation and its inverse
  for (unsigned d = 2; d <= 5; d++) for (unsigned i = 0; i < d; i++) for (unsigned j = i + 1; j < d; j++) for (int k = 0; k < 12; k++) {
    if (!vc::begin()) continue;
    double th = k * 0.37, ph = k * 1.1; CM U(d * d), M(d * d); for (unsigned x = 0; x < d; x++) U[x * d + x] = 1;
    U[i * d + i] = U[j * d + j] = std::cos(th); U[i * d + j] = std::polar(std::sin(th), -ph); U[j * d + i] = -std::polar(std::sin(th), ph);
    for (unsigned x = 0; x < d * d; x++) M[x] = cd(x * x % 7 - 3., x % 5 - 1.);
    rotate(U, M, d, 0, 1e-13);
    GM u(d, d, 0), m(d, d, 0); u.set(U); m.set(M); gsl_matrix_complex_change_basis_UMUC(u.m(), m.m()); gsl_matrix_complex_change_basis_UCMU(u.m(), m.m());
    CM g = m.get(); vc::eval(); vc::transition(2); for (unsigned x = 0; x < d * d; x++) if (std::abs(g[x] - M[x]) > 1e-12) { vc::fail("rotate:inverse", vc::cat("dimension ", d)); break; }
  }
  for (unsigned r = 1; r <= 4; r++) for (unsigned c = 1; c <= 4; c++) for (unsigned pad = 0; pad < 2; pad++) {
    if (!vc::begin()) continue;
    GM m(r, c, pad); CM x(r * c); for (unsigned i = 0; i < r * c; i++) x[i] = cd(i + 0.5, i % 3 == 0 ? 0. : i % 3 == 1 ? -1.25 * i : 2.5 * i); m.set(x);
    vc::state(vc::cat("c", r, c, pad)); vc::transition(2); vc::trace(); vc::eval(2);
    gsl_matrix_complex_conjugate(m.m()); CM g = m.get(); for (unsigned i = 0; i < r * c; i++) if (g[i] != std::conj(x[i])) { vc::fail("conjugate", vc::cat(r, "x", c, " entry ", i)); break; }
    if (!m.border()) vc::fail("conjugate", "storage outside the matrix was changed");
    gsl_matrix_complex_conjugate(m.m()); if (m.get() != x) vc::fail("conjugate", "twice is not the identity");
    std::ostringstream o, e; std::streambuf *b = std::cout.rdbuf(o.rdbuf()); gsl_matrix_complex_print(m.m()); std::cout.rdbuf(b);
    for (unsigned i = 0; i < r; i++) { for (unsigned j = 0; j < c; j++) e << x[i * c + j].real() << "+i" << x[i * c + j].imag() << " "; e << "\n"; }
    vc::outcome(e.str());
    if (o.str() != e.str()) vc::fail("print", vc::cat("'", o.str(), "' instead of '", e.str(), "'"));
    if (m.get() != x) vc::fail("print", "the matrix was changed");
  }
}
int main(int argc, char **argv) { vc::init(argc, argv); spaces(); matrices(); return vc::finish(); }

// C06 (PART 0) Akima splines, C07 (PART 1) bicubic and tricubic interpolation:
// every data vector over a small alphabet on several grids, and every cell of
// larger grids, against an independent construction in long double.
#include "vc.hpp"
#include <nuSQuIDS/tools.h>
#include <limits>
using namespace nusquids;
typedef long double L;
typedef std::vector<double> V;
static const double inf = std::numeric_limits<double>::infinity();

struct Ak {                 // reference
  std::vector<L> x, y, r, l; // r[i]: slope right of node i, l[i]: slope left of node i
  bool fragile = false;
  void slopes(size_t n, std::vector<L> const &m5, L scale, size_t i, L &right, L &left, bool dyadic) {
    L a = m5[0], b = m5[1], c = m5[2], d = m5[3];
    L w1 = fabsl(a - b), w2 = fabsl(c - d);
    if (w1 + w2 == 0) { right = c; left = b; }
    else right = left = b + (c - b) * (w1 / (w1 + w2));
    if (!dyadic && w1 + w2 < 1e-7L * scale && fabsl(c - b) > 1e-9L * scale) fragile = true;
  }
  Ak(V const &X, V const &Y, bool dyadic) {
    size_t n = X.size();
    for (size_t i = 0; i < n; i++) { x.push_back(X[i]); y.push_back(Y[i]); }
    std::vector<L> m(n + 3);  // m[k+2] secant k, k=-2..n
    L scale = 0;
    for (size_t i = 0; i + 1 < n; i++) { m[i + 2] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]); scale = std::max(scale, (L)fabsl(m[i + 2])); }
    m[1] = 2 * m[2] - m[3]; m[0] = 2 * m[1] - m[2];
    m[n + 1] = 2 * m[n] - m[n - 1]; m[n + 2] = 2 * m[n + 1] - m[n];
    r.resize(n); l.resize(n);
    for (size_t i = 0; i < n; i++) slopes(n, {m[i], m[i + 1], m[i + 2], m[i + 3]}, scale, i, r[i], l[i], dyadic);
  }
  size_t cell(L v) const { size_t c = 0; for (size_t i = 0; i + 1 < x.size(); i++) if (v >= x[i]) c = i; return c; }
  L operator()(L v) const {
    size_t i = cell(v); L h = x[i + 1] - x[i], t = (v - x[i]) / h;
    L h00 = (1 + 2 * t) * (1 - t) * (1 - t), h10 = t * (1 - t) * (1 - t), h01 = t * t * (3 - 2 * t), h11 = t * t * (t - 1);
    return h00 * y[i] + h10 * h * r[i] + h01 * y[i + 1] + h11 * h * l[i + 1];
  }
};
// size of the terms which cancel in the evaluation at v
static double magnitude(Ak const &a, L v) {
  size_t i = a.cell(v); L h = a.x[i + 1] - a.x[i], t = fabsl((v - a.x[i]) / h), u = std::max((L)1, t * t * t);
  return (double)(6 * u * (fabsl(a.y[i]) + fabsl(a.y[i + 1]) + h * (fabsl(a.r[i]) + fabsl(a.l[i + 1]))));
}
static bool near_(double g, L e, double mag, double tol = 1e-11) { return std::isfinite(g) && fabsl(g - e) <= tol * mag + 1e-300; }

static void akima_case(V const &x, V const &y, std::string const &id, bool dyadic, AkimaSpline *reused = nullptr) {
  AkimaSpline own;
  AkimaSpline *s = reused;
  try {
    if (s) s->initialize(x.data(), y.data(), x.size());
    else { own = AkimaSpline(x, y); s = &own; }
  } catch (std::exception &e) { vc::fail("akima:reject", id + ": " + e.what()); return; }
  vc::transition(); vc::trace();
  Ak a(x, y, dyadic);
  if (a.fragile) { vc::note("skipped: slopes decided by rounding"); return; }
  size_t n = x.size();
  V q;
  for (size_t i = 0; i < n; i++) q.push_back(x[i]);
  for (size_t i = 0; i + 1 < n; i++) { double h = x[i + 1] - x[i]; for (double t : {0.25, 0.5, 0.8125}) q.push_back(x[i] + t * h); q.push_back(std::nextafter(x[i + 1], x[i])); q.push_back(std::nextafter(x[i], x[i + 1])); }
  double w = x[n - 1] - x[0];
  q.push_back(std::nextafter(x[0], -inf)); q.push_back(std::nextafter(x[n - 1], inf));
  for (double t : {0.01, 0.5, 1.0}) { q.push_back(x[0] - t * (x[1] - x[0])); q.push_back(x[n - 1] + t * (x[n - 1] - x[n - 2])); }
  q.push_back(x[0] - w); q.push_back(x[n - 1] + w);
  for (double v : q) {
    vc::eval();
    double g = (*s)(v);
    L e = a(v);
    if (!near_(g, e, magnitude(a, v))) { vc::fail("akima:value", vc::cat(id, ": at ", v, " gave ", g, ", expected ", (double)e)); return; }
  }
  for (size_t i = 0; i < n; i++) { double g = (*s)(x[i]); if (i + 1 < n ? g != y[i] : !near_(g, y[i], magnitude(a, x[i]))) { vc::fail("akima:node", vc::cat(id, ": at node ", i, " gave ", g, " instead of ", y[i])); return; } }
  auto X = s->getAbscissas(), Y = s->getOrdinates(), D = s->getAbscissaDerivatives();
  marray<double, 1> D2; s->getAbscissaDerivatives(D2);
  marray<double, 1> D3{(unsigned)(n + 3)}; s->getAbscissaDerivatives(D3);
  if (X.size() != n || Y.size() != n || D.size() != n || D2.size() != n || D3.size() != n) { vc::fail("akima:tables", id + ": size"); return; }
  for (size_t i = 0; i < n; i++) {
    if (X[i] != x[i] || Y[i] != y[i]) { vc::fail("akima:tables", vc::cat(id, ": node ", i)); return; }
    L e = i + 1 < n ? a.r[i] : a.l[i];
    double mg = 0; for (size_t k = (i > 2 ? i - 3 : 0); k + 1 < std::min(n, i + 4); k++) mg = std::max(mg, (double)fabsl((a.y[k + 1] - a.y[k]) / (a.x[k + 1] - a.x[k])));
    for (double g : {D[i], D2[i], D3[i]})
      if (!near_(g, e, mg * 20, 1e-11)) { vc::fail("akima:derivative", vc::cat(id, ": slope at node ", i, " is ", g, ", expected ", (double)e)); return; }
  }
  vc::outcome(vc::cat(n, ",", (double)a(x[0] + 0.3 * w)));
}

static V irregular(size_t n, unsigned seed) {
  V y; uint64_t s = 88172645463325252ULL + seed * 7919;
  for (size_t i = 0; i < n; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; y.push_back((double)(int64_t)(s % 2001) - 1000 + (double)(s % 37) / 64); }
  return y;
}
static V grid(size_t n, int kind) {
  V x; double c = kind == 2 ? -1000 : kind == 4 ? -0.0625 * n : kind == 5 ? 1048576 : 0;
  for (size_t i = 0; i < n; i++) {
    x.push_back(c);
    double h = kind == 0 ? 1 : kind == 1 ? (i % 3 == 0 ? 0.5 : i % 3 == 1 ? 2 : 1) : kind == 2 ? (double)(1u << (i % 6)) : kind == 3 ? 1e-7 * (1 + i % 4) : kind == 4 ? 0.125 : (i % 2 ? 4 : 256);
    c += h;
  }
  return x;
}

static void akima() {
  // all data over an alphabet, dyadic grids
  V alpha{-1, 0, 1, 3};
  size_t nmax = vc::thorough() ? 8 : 7;
  for (size_t n = 3; n <= nmax; n++) for (int g : {0, 1, 2, 4}) {
    V x = grid(n, g);
    size_t A = n <= 6 ? 4 : 3;
    size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= A;
    for (size_t first = 0; first < tot; first += 64) {
      if (!vc::begin()) continue;
      for (size_t k = first; k < std::min(tot, first + 64); k++) {
        V y(n); size_t q = k; for (size_t i = 0; i < n; i++) { y[i] = alpha[q % A]; q /= A; }
        vc::state(vc::cat("d", g, vc::show(y)));
        akima_case(x, y, vc::cat("grid ", g, " data ", vc::show(y)), true);
      }
    }
  }
  // irregular data at every size, several grids and magnitudes
  std::vector<size_t> ns; for (size_t n = 3; n <= (vc::thorough() ? 300 : 70); n++) ns.push_back(n);
  for (size_t n : {100u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 1000u, 1024u, 1025u, 5000u}) ns.push_back(n);
  for (size_t n : ns) for (int g = 0; g < 6; g++) for (double mag : {1.0, 1e-30, 1e40}) for (int kind = 0; kind < 2; kind++) {
    if (n > 300 && (g % 2 || mag > 1)) continue;
    if (!vc::begin()) continue;
    V x = grid(n, g), y = irregular(n, n + g);
    for (size_t i = 0; i < n; i++) y[i] = kind ? mag * (0.5 + 0.25 * (double)i * i / n - 3.0 * i) * (g == 0 || g == 4) + (g == 0 || g == 4 ? 0 : mag * y[i]) : mag * y[i];
    vc::state(vc::cat("i", n, ",", g, ",", mag, ",", kind));
    akima_case(x, y, vc::cat("irregular n ", n, " grid ", g, " scale ", mag, " kind ", kind), false);
    vc::sample(vc::cat("akima n=", n, " grid=", g, " scale=", mag));
  }
  // an object used for one data set after another
  for (size_t n1 = 3; n1 <= 9; n1++) for (size_t n2 = 3; n2 <= 9; n2++) for (size_t n3 = 3; n3 <= 9; n3 += 2) {
    if (!vc::begin()) continue;
    AkimaSpline s; int i = 0;
    for (size_t n : {n1, n2, n3}) { akima_case(grid(n, i), irregular(n, 31 * i), vc::cat("reuse ", n1, " ", n2, " ", n3, " step ", i), false, &s); i++; }
    AkimaSpline c(s), d; d = s; AkimaSpline e(std::move(s));
    if (c(1.3) != e(1.3) || d(1.3) != e(1.3)) vc::fail("akima:copy", "");
    vc::state(vc::cat("r", n1, n2, n3));
  }
  // what must be refused
  for (size_t n = 0; n <= 12; n++) {
    if (!vc::begin()) continue;
    V x = grid(n, 0), y = irregular(n, 3);
    auto rej = [&](V const &X, V const &Y, std::string const &w) {
      vc::eval(); vc::transition(2); vc::state("rej" + w);
      bool t = false; try { AkimaSpline s(X, Y); } catch (std::runtime_error &) { t = true; }
      if (!t) vc::fail("akima:accept", w + ": accepted");
      if (X.size() == Y.size()) { t = false; AkimaSpline s; try { s.initialize(X.data(), Y.data(), X.size()); } catch (std::runtime_error &) { t = true; } if (!t) vc::fail("akima:accept", w + ": accepted by initialize"); 
        // the same object still works afterwards
        V gx = grid(5, 1); akima_case(gx, irregular(5, 1), "after " + w, false, &s); }
    };
    if (n < 3) { rej(x, y, vc::cat(n, " points")); continue; }
    for (size_t i = 0; i + 1 < n; i++) {
      V z = x; z[i + 1] = z[i]; rej(z, y, vc::cat("equal ", i, " of ", n));
      z = x; std::swap(z[i], z[i + 1]); rej(z, y, vc::cat("swapped ", i, " of ", n));
      z = x; z[i + 1] = std::nextafter(z[i], -inf); rej(z, y, vc::cat("slightly decreasing ", i, " of ", n));
      z = x; for (size_t k = 0; k < n; k++) z[k] = -z[k]; rej(z, y, vc::cat("decreasing ", n));
    }
    V y2 = y; y2.pop_back(); rej(x, y2, vc::cat("short values ", n)); y2 = y; y2.push_back(1); rej(x, y2, vc::cat("long values ", n));
    V x2 = x; x2.push_back(x.back() + 1); rej(x2, y, vc::cat("long abscissas ", n));
  }
}

// ---- tensor grids
static marray<double, 1> arr(V const &v) { marray<double, 1> a{(unsigned)v.size()}; std::copy(v.begin(), v.end(), a.begin()); return a; }
// slopes along one direction as the interpolators use them: right slope, the left one at the last node
static V D(V const &x, V const &y, bool &fragile) {
  Ak a(x, y, false); fragile |= a.fragile; V d; for (size_t i = 0; i < x.size(); i++) d.push_back((double)(i + 1 < x.size() ? a.r[i] : a.l[i])); return d;
}
static size_t cellof(V const &x, double v) { size_t c = 0; for (size_t i = 0; i + 1 < x.size(); i++) if (v >= x[i]) c = i; return c; }
static void basis(V const &x, size_t i, double v, L b[4]) {  // value lo, value hi, slope lo, slope hi
  L h = (L)x[i + 1] - x[i], t = ((L)v - x[i]) / h;
  b[0] = (1 + 2 * t) * (1 - t) * (1 - t); b[1] = t * t * (3 - 2 * t); b[2] = h * t * (1 - t) * (1 - t); b[3] = h * t * t * (t - 1);
}
struct Grid3 {   // bicubic: nz==1
  V x, y, z; size_t nx, ny, nz; std::vector<V> f; // f[mask], mask bit0 d/dx, bit1 d/dy, bit2 d/dz
  bool fragile = false;
  size_t at(size_t i, size_t j, size_t k) const { return (k * ny + j) * nx + i; }
  Grid3(V X, V Y, V Z, V const &data) : x(X), y(Y), z(Z), nx(X.size()), ny(Y.size()), nz(Z.size()), f(8, V(data.size())) {
    f[0] = data;
    if (nz > 1) along(2, 0, 4);
    along(1, 0, 2); if (nz > 1) along(1, 4, 6);
    for (int m : {0, 2, 4, 6}) if (nz > 1 || m < 4) along(0, m, m | 1);
  }
  void along(int dir, int from, int to) {
    size_t n[3] = {nx, ny, nz}; V const &c = dir == 0 ? x : dir == 1 ? y : z;
    for (size_t a = 0; a < n[(dir + 1) % 3]; a++) for (size_t b = 0; b < n[(dir + 2) % 3]; b++) {
      V s; size_t ix[3]; ix[(dir + 1) % 3] = a; ix[(dir + 2) % 3] = b;
      for (size_t q = 0; q < n[dir]; q++) { ix[dir] = q; s.push_back(f[from][at(ix[0], ix[1], ix[2])]); }
      V d = D(c, s, fragile);
      for (size_t q = 0; q < n[dir]; q++) { ix[dir] = q; f[to][at(ix[0], ix[1], ix[2])] = d[q]; }
    }
  }
  L eval(double vx, double vy, double vz, double &mag) const {
    size_t i = cellof(x, vx), j = cellof(y, vy), k = nz > 1 ? cellof(z, vz) : 0;
    L bx[4], by[4], bz[4] = {1, 0, 0, 0}; basis(x, i, vx, bx); basis(y, j, vy, by); if (nz > 1) basis(z, k, vz, bz);
    L r = 0, m = 0;
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < (nz > 1 ? 4 : 1); c++) {
      L t = bx[a] * by[b] * bz[c] * f[(a >> 1) | (b & 2) | ((c & 2) << 1)][at(i + (a & 1), j + (b & 1), k + (c & 1))];
      r += t; m += fabsl(t);
    }
    // the monomial coefficients are larger than the result
    L amp = 0; for (int msk = 0; msk < (nz > 1 ? 8 : 4); msk++) for (int v = 0; v < (nz > 1 ? 8 : 4); v++) {
      L t = fabsl(f[msk][at(i + (v & 1), j + (v >> 1 & 1), k + (v >> 2))]); if (msk & 1) t *= x[i + 1] - x[i]; if (msk & 2) t *= y[j + 1] - y[j]; if (msk & 4) t *= z[k + 1] - z[k]; amp += t; }
    L tx = fabsl((vx - x[i]) / (x[i + 1] - x[i])), ty = fabsl((vy - y[j]) / (y[j + 1] - y[j])), tz = nz > 1 ? fabsl((vz - z[k]) / (z[k + 1] - z[k])) : 0;
    for (L t : {tx, ty, tz}) if (t > 1) amp *= t * t * t;
    mag = (double)(m + 8 * amp); return r;
  }
};
static V queries(V const &x) {
  V q; size_t n = x.size();
  for (size_t i = 0; i < n; i++) q.push_back(x[i]);
  for (size_t i = 0; i + 1 < n; i++) { q.push_back(x[i] + 0.375 * (x[i + 1] - x[i])); if (i == 0 || i + 2 == n) q.push_back(x[i] + 0.8125 * (x[i + 1] - x[i])); }
  q.push_back(x[0] - 0.25 * (x[1] - x[0])); q.push_back(x[n - 1] + 0.25 * (x[n - 1] - x[n - 2]));
  q.push_back(std::nextafter(x[1], x[0])); q.push_back(std::nextafter(x[n - 1], x[0]));
  return q;
}
static marray<double, 2> arr2(V const &d, size_t ny, size_t nx) { marray<double, 2> a({ny, nx}); std::copy(d.begin(), d.end(), a.begin()); return a; }
static marray<double, 3> arr3(V const &d, size_t nz, size_t ny, size_t nx) { marray<double, 3> a({nz, ny, nx}); std::copy(d.begin(), d.end(), a.begin()); return a; }
typedef std::function<L(double, double, double)> F3;

static void cubic_case(V const &x, V const &y, V const &z, V const &data, std::string const &id, F3 exact = nullptr) {
  bool tri = z.size() > 1;
  vc::transition(); vc::trace();
  Grid3 g(x, y, z, data);
  if (g.fragile) vc::note("skipped: slopes decided by rounding");
  const char *nm = tri ? "tricubic" : "bicubic";
  std::function<double(double, double, double)> f;
  TriCubicInterpolator t3; BiCubicInterpolator b2;
  try {
    if (tri) { t3 = TriCubicInterpolator(arr3(data, z.size(), y.size(), x.size()), arr(x), arr(y), arr(z)); f = [&](double a, double b, double c) { return t3(a, b, c); }; }
    else { b2 = BiCubicInterpolator(arr2(data, y.size(), x.size()), arr(x), arr(y)); f = [&](double a, double b, double) { return b2(a, b); }; }
  } catch (std::exception &e) { vc::fail(vc::cat(nm, ":reject"), id + ": " + e.what()); return; }
  V qx = queries(x), qy = queries(y), qz = tri ? queries(z) : V{0};
  for (double vz : qz) for (double vy : qy) for (double vx : qx) {
    vc::eval();
    double got = f(vx, vy, vz), mag;
    L e = g.eval(vx, vy, vz, mag);
    if (!g.fragile && !near_(got, e, mag, 1e-11)) { vc::fail(vc::cat(nm, ":value"), vc::cat(id, ": at (", vx, ",", vy, ",", vz, ") gave ", got, ", expected ", (double)e)); return; }
    if (exact) { L p = exact(vx, vy, vz); if (!near_(got, p, mag, 1e-11)) { vc::fail(vc::cat(nm, ":polynomial"), vc::cat(id, ": at (", vx, ",", vy, ",", vz, ") gave ", got, ", the polynomial is ", (double)p)); return; } }
  }
  for (size_t k = 0; k < g.nz; k++) for (size_t j = 0; j < g.ny; j++) for (size_t i = 0; i < g.nx; i++) {
    double got = f(x[i], y[j], tri ? z[k] : 0), mag; g.eval(x[i], y[j], tri ? z[k] : 0, mag);
    if (!near_(got, data[g.at(i, j, k)], mag, 1e-11)) { vc::fail(vc::cat(nm, ":node"), vc::cat(id, ": node ", i, " ", j, " ", k, " gave ", got)); return; }
  }
  if (!tri) {
    if (b2.getData().size() != data.size() || b2.getXCoords().size() != x.size() || b2.getYCoords().size() != y.size() || !std::equal(data.begin(), data.end(), b2.getData().begin()) || !std::equal(x.begin(), x.end(), b2.getXCoords().begin()) || !std::equal(y.begin(), y.end(), b2.getYCoords().begin())) vc::fail("bicubic:tables", id);
  }
  vc::outcome(id);
}
static void cubic() {
  // bicubic: all small sizes and grid kinds
  size_t m = vc::thorough() ? 9 : 7;
  for (size_t nx = 3; nx <= m; nx++) for (size_t ny = 3; ny <= m; ny++) for (int gx : {0, 1, 2, 4, 5}) for (int gy : {0, 1, 3}) {
    if (!vc::begin()) continue;
    for (unsigned s = 0; s < 2; s++) { std::string id = vc::cat("irregular ", nx, "x", ny, " grids ", gx, " ", gy, " seed ", s); vc::state(id);
      cubic_case(grid(nx, gx), grid(ny, gy), V{0}, irregular(nx * ny, s * 100 + nx * 10 + ny), id); }
  }
  for (size_t nx : {3u, 16u, 33u, 64u, 65u, 130u}) for (size_t ny : {3u, 17u, 32u, 66u}) {
    if (!vc::begin()) continue; std::string id = vc::cat("irregular ", nx, "x", ny); vc::state(id);
    cubic_case(grid(nx, 1), grid(ny, 0), V{0}, irregular(nx * ny, nx + ny), id);
  }
  // single bumps at every place: every cell sees every coefficient
  for (size_t nx : {3u, 4u, 6u}) for (size_t ny : {3u, 5u}) for (size_t p = 0; p < nx * ny; p++) {
    if (!vc::begin()) continue; std::string id = vc::cat("bump ", p, " of ", nx, "x", ny); vc::state(id);
    V d = irregular(nx * ny, 5); d[p] += 5000; cubic_case(grid(nx, 0), grid(ny, 1), V{0}, d, id);
  }
  // polynomials of degree two in each variable are reproduced on uniform grids
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) for (size_t n : {3u, 4u, 5u}) {
    if (!vc::begin()) continue; std::string id = vc::cat("x^", a, " y^", b, " z^", c, " on ", n); vc::state(id);
    V x = grid(n, 0), y = grid(n + 1, 4), z = grid(n == 4 ? 3 : 4, 0); V d2, d3;
    F3 f = [=](double X, double Y, double Z) { L r = 3; auto pw = [](L v, int k) { return k == 0 ? (L)1 : k == 1 ? v : v * v; }; return r + 2 * pw(X, a) * pw(Y, b) * pw(Z, c) - pw(X, a) + pw(Y, b) * 5 + (L)X * Y * Z; };
    for (double Y : y) for (double X : x) d2.push_back((double)f(X, Y, 0.5));
    for (double Z : z) for (double Y : y) for (double X : x) d3.push_back((double)f(X, Y, Z));
    cubic_case(x, y, V{0}, d2, id + " 2d", [f](double X, double Y, double) { return f(X, Y, 0.5); });
    cubic_case(x, y, z, d3, id + " 3d", f);
  }
  // tricubic
  size_t t = vc::thorough() ? 6 : 5;
  for (size_t nx = 3; nx <= t; nx++) for (size_t ny = 3; ny <= t; ny++) for (size_t nz = 3; nz <= t; nz++) for (int g = 0; g < 3; g++) {
    if (!vc::begin()) continue; std::string id = vc::cat("irregular ", nx, "x", ny, "x", nz, " grid ", g); vc::state(id);
    cubic_case(grid(nx, g), grid(ny, (g + 1) % 3), grid(nz, g == 1 ? 3 : 4), irregular(nx * ny * nz, nx * 100 + ny * 10 + nz + g), id);
  }
  for (size_t p = 0; p < 27; p++) for (int axis = 0; axis < 3; axis++) {
    if (!vc::begin()) continue; std::string id = vc::cat("bump ", p, " in 3x3x3 axis ", axis); vc::state(id);
    V d = irregular(27, 9); d[p] += 4000; cubic_case(grid(3, axis), grid(3, (axis + 1) % 3), grid(3, (axis + 2) % 3), d, id);
  }
  for (size_t n : {12u, 9u}) { if (!vc::begin()) continue; std::string id = vc::cat("irregular ", n, "x8x7"); vc::state(id); cubic_case(grid(n, 1), grid(8, 0), grid(7, 2), irregular(n * 56, n), id); }
  // mismatched sizes, invalid coordinates
  for (size_t nx = 3; nx <= 5; nx++) for (size_t ny = 3; ny <= 5; ny++) for (size_t nz = 3; nz <= 4; nz++) {
    if (!vc::begin()) continue;
    V d2 = irregular(nx * ny, 1), d3 = irregular(nx * ny * nz, 1);
    for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) for (int dz = -1; dz <= 1; dz++) {
      bool bad2 = dx || dy, bad3 = bad2 || dz; bool t2 = false, t3 = false; vc::eval(2); vc::transition(2);
      std::string id = vc::cat("data ", nx, "x", ny, "x", nz, " coordinates ", nx + dx, " ", ny + dy, " ", nz + dz); vc::state(id);
      try { BiCubicInterpolator b(arr2(d2, ny, nx), arr(grid(nx + dx, 0)), arr(grid(ny + dy, 0))); } catch (std::runtime_error &) { t2 = true; }
      try { TriCubicInterpolator b(arr3(d3, nz, ny, nx), arr(grid(nx + dx, 0)), arr(grid(ny + dy, 0)), arr(grid(nz + dz, 0))); } catch (std::runtime_error &) { t3 = true; }
      if (t2 != (bad2 || false)) vc::fail("bicubic:sizes", id); 
      if (t3 != (bad3 || (nx + dx < 3))) vc::fail("tricubic:sizes", id);
    }
    for (int w = 0; w < 3; w++) for (int kind = 0; kind < 2; kind++) {
      V c[3] = {grid(nx, 0), grid(ny, 0), grid(nz, 0)}; if (kind) c[w][1] = c[w][0]; else std::swap(c[w][1], c[w][2]);
      bool t2 = w == 2, t3 = false; vc::eval(2);
      try { BiCubicInterpolator b(arr2(d2, ny, nx), arr(c[0]), arr(c[1])); } catch (std::runtime_error &) { t2 = true; }
      try { TriCubicInterpolator b(arr3(d3, nz, ny, nx), arr(c[0]), arr(c[1]), arr(c[2])); } catch (std::runtime_error &) { t3 = true; }
      if (!t2 || !t3) vc::fail("cubic:order", vc::cat("coordinate ", w, kind ? " repeated" : " unordered", " accepted"));
    }
  }
  if (vc::begin()) { BiCubicInterpolator b; TriCubicInterpolator t; vc::eval(2); if (b(1, 2) != 0 || t(1, 2, 3) != 0) vc::fail("cubic:empty", "an empty interpolator"); }
}
int main(int argc, char **argv) {
  vc::init(argc, argv);
#if PART == 0
  akima();
#else
  cubic();
#endif
  return vc::finish();
}

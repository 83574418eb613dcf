// C12 (PART 0): integrate() over GSL.  C13 (PART 1): AdaptiveQuad.
#include "vc.hpp"
#include <gsl/gsl_errno.h>
#include <gsl/gsl_matrix.h>
#include <limits>
#include <memory>
#include <functional>
#if PART == 0
#include <nuSQuIDS/tools.h>
using namespace nusquids;
#else
#include <nuSQuIDS/AdaptiveQuad.h>
#endif

struct Fn { std::string name; std::function<double(double)> f; std::function<long double(long double)> F; bool smooth; double lo, hi; };   // F: antiderivative
static std::vector<Fn> fns() {
  std::vector<Fn> v;
  const double INF = 1e300;
  for (int n = 0; n <= 20; n++) v.push_back({vc::cat("x^", n), [n](double x) { return std::pow(x, n); }, [n](long double x) { return std::pow(x, (long double)n + 1) / (n + 1); }, true, -INF, INF});
  v.push_back({"0", [](double) { return 0.; }, [](long double) { return 0.L; }, true, -INF, INF});
  v.push_back({"-3", [](double) { return -3.; }, [](long double x) { return -3 * x; }, true, -INF, INF});
  v.push_back({"exp", [](double x) { return std::exp(x); }, [](long double x) { return std::exp(x); }, true, -30, 30});
  v.push_back({"exp(-x)", [](double x) { return std::exp(-x); }, [](long double x) { return -std::exp(-x); }, true, -30, 30});
  for (int k : {1, 3, 10, 40}) { v.push_back({vc::cat("cos ", k, "x"), [k](double x) { return std::cos(k * x); }, [k](long double x) { return std::sin(k * x) / k; }, true, k > 3 ? -2. : -10., k > 3 ? 2. : 10.}); }
  v.push_back({"1+sin", [](double x) { return 1 + std::sin(x); }, [](long double x) { return x - std::cos(x); }, true, -30, 30});
  v.push_back({"1/(1+x^2)", [](double x) { return 1 / (1 + x * x); }, [](long double x) { return std::atan(x); }, true, -1000, 1000});
  v.push_back({"1/(0.0001+x^2)", [](double x) { return 1 / (1e-4 + x * x); }, [](long double x) { return 100 * std::atan(100 * x); }, true, -10, 10});
  v.push_back({"1/x", [](double x) { return 1 / x; }, [](long double x) { return std::log(x); }, true, 1e-3, INF});
  v.push_back({"1/x^2", [](double x) { return 1 / x / x; }, [](long double x) { return -1 / x; }, true, 1e-3, INF});
  v.push_back({"sqrt", [](double x) { return std::sqrt(x); }, [](long double x) { return x * std::sqrt(x) * 2 / 3; }, false, 0, INF});
  v.push_back({"x log x", [](double x) { return x > 0 ? x * std::log(x) : 0; }, [](long double x) { return x > 0 ? x * x / 2 * std::log(x) - x * x / 4 : 0; }, false, 0, INF});
  for (double c : {0.3, 0.41421356, 0.77}) {
    v.push_back({vc::cat("|x-", c, "|"), [c](double x) { return std::fabs(x - c); }, [c](long double x) { return (x > c ? 1 : -1) * (x - c) * (x - c) / 2; }, false, -20, 20});
    v.push_back({vc::cat("step ", c), [c](double x) { return x > c ? 2. : 1.; }, [c](long double x) { return x > c ? 2 * x - c : x; }, false, -20, 20});
    v.push_back({vc::cat("gauss ", c), [c](double x) { return std::exp(-(x - c) * (x - c) * 50); }, [c](long double x) { return std::erf((x - c) * std::sqrt(50.L)) * std::sqrt(3.14159265358979323846264338327950288L / 50) / 2; }, true, -1, 1.5});
  }
  return v;
}
static const double PTS[] = {-2, -1, 0, 0.001, 0.25, 0.5, 1, 2, 5, 10};
static double scale(Fn const &f, double a, double b) { double m = 0; for (int i = 0; i <= 200; i++) m = std::max(m, std::fabs(f.f(a + (b - a) * i / 200.))); return m * std::fabs(b - a); }

#if PART == 0
static int gslerr = 0, ngsl = 0;
static void handler(const char *, const char *, int, int e) { gslerr = e; ngsl++; }
static double plain(double x) { return 3 * x * x; }
struct Functor { double a; double operator()(double x) { return a * x; } };
struct Bad { int at; };
static void accuracy() {
  for (auto &f : fns()) for (double a : PTS) for (double b : PTS) for (double acc : {1e-3, 1e-5, 1e-7, 1e-9, 1e-10}) {
    if (std::min(a, b) < f.lo || std::max(a, b) > f.hi) continue;
    if (!vc::begin()) continue;
    std::string id = vc::cat("integral of ", f.name, " from ", a, " to ", b, " accuracy ", acc);
    vc::state(id); vc::transition(); vc::trace(); vc::eval();
    double lo = std::min(a, b), hi = std::max(a, b), worst = lo; size_t n = 0;
    auto g = [&](double x) { n++; if (x < lo || x > hi) worst = x; return f.f(x); };
    ngsl = 0;
    double r = integrate(g, a, b, acc);
    if (worst != lo) vc::fail("range", vc::cat(id, ": evaluated at ", worst));
    if (ngsl) { vc::note("not converged"); continue; }   // reported through the GSL error handler
    double e = (double)(f.F(b) - f.F(a)), tol = (f.smooth ? acc : std::max(10 * acc, f.name[0] == 's' ? 2e-3 : 0.)) * std::fabs(e) + 1e-13 * scale(f, a, b) + 1e-18;
    if (!(std::fabs(r - e) <= tol)) vc::fail("accuracy", vc::cat(id, ": ", r, " instead of ", e));
    if (a == b && r != 0) vc::fail("empty", id);
    vc::outcome(vc::cat(f.name, n)); if (n > 100) vc::sample(vc::cat(id, ": ", n, " evaluations"));
    // the same through a workspace of the caller's
    IntegrateWorkspace ws(500); double r2 = integrate(ws, g, a, b, acc); if (r2 != r) vc::fail("workspace", vc::cat(id, ": ", r2, " with the caller's workspace, ", r, " without"));
    double r3 = integrate(ws, g, b, a, acc); if (!(std::fabs(r3 + r) <= 2 * tol)) vc::fail("reverse", vc::cat(id, ": ", r3, " in reverse"));
  }
  // default accuracy
  for (auto &f : fns()) { if (f.lo > 0.25) continue; if (!vc::begin()) continue; vc::eval(); vc::transition(); ngsl = 0; double r = integrate(f.f, 0.25, 2), e = (double)(f.F(2) - f.F(0.25)); if (!ngsl && !(std::fabs(r - e) <= (f.smooth ? 1e-7 : 1e-6) * std::fabs(e) + 1e-13)) vc::fail("default", f.name); }
}
static void limits() {
  // the iteration limit bounds the work; a larger workspace or limit than needed changes nothing
  for (unsigned it : {1u, 2u, 3u, 5u, 10u, 50u, 1000u, 5000u, 20000u, 4294967295u}) for (size_t wsz : {1, 2, 5, 10, 100, 5000}) for (int which = 0; which < 4; which++) {
    if (!vc::begin()) continue;
    auto F = fns(); Fn *f = nullptr; const char *nm = which == 0 ? "exp" : which == 1 ? "step 0.77000000000000002" : which == 2 ? "1/(0.0001+x^2)" : "x^2"; for (auto &x : F) if (x.name == nm) f = &x;
    if (!f) abort();
    size_t n = 0; auto g = [&](double x) { n++; return f->f(x); };
    std::string id = vc::cat(nm, " max_iter ", it, " workspace ", wsz); vc::state(id); vc::transition(2); vc::trace(); vc::eval();
    double e = (double)(f->F(1.5) - f->F(-1)), r;
    ngsl = 0; { IntegrateWorkspace ws(wsz); r = integrate(ws, g, -1., 1.5, 1e-9, it); }
    size_t lim = std::min<size_t>(it, wsz);
    if (n > 21 + 42 * (lim - 1) + 42) vc::fail("maxiter", vc::cat(id, ": ", n, " evaluations"));
    if (!ngsl && std::fabs(r - e) > 1e-9 * std::fabs(e) + 1e-12) vc::fail("maxiter:silent", vc::cat(id, ": ", r, " returned without an error, expected ", e));
    if (which == 3 && ngsl) vc::fail("maxiter:refused", id + ": an easy integral failed");
    if (which == 2 && lim >= 100 && ngsl) vc::fail("maxiter:refused", id + ": the iteration limit was not used");
    if (which == 1 && lim < 5 && !ngsl) vc::fail("maxiter:ignored", id + ": the iteration limit was not honoured");
    size_t n1 = n; n = 0; int g1 = ngsl; ngsl = 0; double r2 = integrate(g, -1., 1.5, 1e-9, it, wsz);
    if (r2 != r || n != n1 || ngsl != g1) vc::fail("memory", id + ": the two forms differ");
    vc::outcome(vc::cat(which, n, g1));
  }
}
static void reuse() {
  // every sequence of integrals over one workspace equals the same integrals over fresh ones
  auto F = fns(); std::vector<Fn *> u; for (auto &x : F) for (const char *n : {"exp", "step 0.77000000000000002", "1/(0.0001+x^2)", "x^5", "sqrt"}) if (x.name == n) u.push_back(&x);
  unsigned depth = vc::thorough() ? 5 : 4, k = u.size() + 1; unsigned tot = 1; for (unsigned i = 0; i < depth; i++) tot *= k;
  std::vector<double> fresh; for (auto *f : u) fresh.push_back(integrate(f->f, 0., 1., 1e-6));
  for (unsigned c = 0; c < tot; c++) {
    if (!vc::begin()) continue;
    IntegrateWorkspace ws(300); unsigned q = c; vc::state(vc::cat("reuse", c)); vc::trace(); vc::eval();
    for (unsigned i = 0; i < depth; i++, q /= k) {
      vc::transition();
      if (q % k == u.size()) {   // one which fails half way
        int n = 0; bool t = false; try { integrate(ws, [&](double x) -> double { if (++n == 10 + (int)i * 20) throw Bad{n}; return 1 / (1e-6 + x * x); }, -1., 1.); } catch (Bad &b) { t = b.at == n; }
        if (!t) vc::fail("throw", "an exception from the integrand was lost");
      } else if (integrate(ws, u[q % k]->f, 0., 1., 1e-6) != fresh[q % k]) vc::fail("reuse", vc::cat("sequence ", c, " step ", i, ": ", u[q % k]->name));
    }
    vc::outcome(c % 97);
  }
  // an exception at each evaluation
  for (int at = 1; at <= 300; at++) if (vc::begin()) {
    vc::eval(); vc::transition(); vc::state(vc::cat("throw", at)); int n = 0; int got = 0;
    try { integrate([&](double x) -> double { if (++n == at) throw Bad{at}; return 1 / (1e-8 + x * x); }, -1., 1.5, 1e-10); } catch (Bad &b) { got = b.at; }
    if (got != (n >= at ? at : 0) || n > at) vc::fail("throw", vc::cat("exception at evaluation ", at));
  }
  // nesting, in the same and in different workspaces
  for (int k = 0; k < 2; k++) if (vc::begin()) {
    vc::eval(); vc::transition(); IntegrateWorkspace w1(100), w2(100);
    double r = k ? integrate(w1, [&](double x) { return integrate(w2, [x](double y) { return x * x * y + y; }, 0., x + 1); }, 0., 2.) : integrate([](double x) { return integrate([x](double y) { return x * x * y + y; }, 0., x + 1); }, 0., 2.);
    double e = 0; { auto P = [](double x) { return (std::pow(x, 5) / 5 + std::pow(x, 4) / 2 + std::pow(x, 3) / 3) / 2 + (std::pow(x + 1, 3) / 3) / 2; }; e = P(2) - P(0); }
    if (!vc::close(r, e, 1e-7, 0)) vc::fail("nested", vc::cat(r, " instead of ", e));
  }
  if (vc::begin()) {   // kinds of integrand
    vc::eval(5); vc::transition(5);
    Functor fu{2}; std::function<double(double)> sf = [](double x) { return 4 * x; }; const Fn &cf = F[3]; std::shared_ptr<int> sp(new int(6)); auto cap = [sp](double x) { return *sp * x; };
    double (*fp)(double) = plain;
    auto ck = [&](const char *n, double r, double e) { if (!vc::close(r, e, 1e-9, 0)) vc::fail("kind", vc::cat(n, ": ", r, " instead of ", e)); };
    ck("function", integrate(plain, 0., 2.), 8); ck("pointer", integrate(fp, 0., 2.), 8); ck("functor", integrate(fu, 0., 2.), 4); ck("std::function", integrate(sf, 0., 2.), 8); ck("capture", integrate(cap, 0., 2.), 12); ck("const function", integrate(cf.f, 0., 2.), 4);
    if (sp.use_count() != 2) vc::fail("kind", "a copy of the integrand was leaked");
    std::unique_ptr<IntegrateWorkspace> a(new IntegrateWorkspace(7)); if (a->ws->limit < 7) vc::fail("kind", "workspace size");
  }
}
int main(int argc, char **argv) { vc::init(argc, argv); gsl_set_error_handler(handler); accuracy(); limits(); reuse(); return vc::finish(); }
#else
using AdaptiveQuad::Options;
struct Stop {};
static const size_t CAP = 3000000;
static void accuracy() {
  double worst = 0;
  for (auto &f : fns()) for (double a : PTS) for (double b : PTS) for (double tol : {1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12}) {
    if (a == b || std::min(a, b) < f.lo || std::max(a, b) > f.hi) continue;
    if (!vc::begin()) continue;
    std::string id = vc::cat("integral of ", f.name, " from ", a, " to ", b, " tolerance ", tol);
    vc::state(id); vc::transition(); vc::trace(); vc::eval();
    double lo = std::min(a, b), hi = std::max(a, b); bool out = false; size_t n = 0, na = 0, nb = 0;
    auto g = [&](double x) { if (++n > CAP) throw Stop(); if (x < lo || x > hi) out = true; na += x == a; nb += x == b; return f.f(x); };
    double r, e = (double)(f.F(b) - f.F(a)), sc = scale(f, a, b);
    Options o; o.outOfTolerance = true; o.uncertainty = -1;
    try { r = AdaptiveQuad::integrate(g, a, b, tol, &o); } catch (Stop &) { vc::fail("runaway", id); continue; }
    if (out) vc::fail("range", id + ": evaluated outside the interval");
    if (na != 1 || nb != 1) vc::fail("endpoints", vc::cat(id, ": endpoints evaluated ", na, " and ", nb, " times"));
    if (o.fa != f.f(a) || o.fb != f.f(b)) vc::fail("endpoints:stored", vc::cat(id, ": ", o.fa, ",", o.fb));
    if (!(o.uncertainty >= 0) || o.inTolerance() == o.outOfTolerance) vc::fail("uncertainty", vc::cat(id, ": ", o.uncertainty));
    if (f.smooth && o.outOfTolerance) vc::fail("flag", id + ": smooth, but reported out of tolerance");
    // the estimate the tolerance is relative to is not known exactly: allow a margin
    double err = std::fabs(r - e), allow = 10 * tol * std::fabs(e) + 1e-13 * sc + 1e-18; if (e == 0) allow = std::max(allow, 3 * tol * std::fabs(b - a));
    if (!f.smooth) allow = std::max(allow, std::max(100 * tol, 1e-3) * std::max(std::fabs(e), sc));
    if (std::fabs(e) < 0.05 * sc) allow = std::max(allow, 3 * tol * std::max(sc, std::fabs(b - a)));
    if (allow > 0) worst = std::max(worst, err / allow);
    if (err > allow) vc::fail("accuracy", vc::cat(id, ": ", r, " instead of ", e, ", error ", err, " allowed ", allow, " n ", n));
    if (f.smooth && tol <= 1e-6 && err > 30 * o.uncertainty + 1e-13 * sc + 1e-16 && err > tol * std::fabs(e)) vc::fail("uncertainty:low", vc::cat(id, ": error ", err, " uncertainty ", o.uncertainty));
    // known endpoints: same result, two evaluations fewer
    size_t n1 = n; n = na = nb = 0; Options k; k.fa = f.f(a); k.fb = f.f(b); double r1 = AdaptiveQuad::integrate(g, a, b, tol, &k);
    if (r1 != r || n != n1 - 2 || na || nb) vc::fail("known", vc::cat(id, ": with known endpoint values ", r1, " instead of ", r, ", ", n, " evaluations instead of ", n1 - 2));
    for (int w = 0; w < 2; w++) { n = 0; Options h; (w ? h.fa : h.fb) = w ? f.f(a) : f.f(b); double q = AdaptiveQuad::integrate(g, a, b, tol, &h); if (q != r || n != n1 - 1 || h.fa != f.f(a) || h.fb != f.f(b)) vc::fail("known:one", id); }
    n = 0; double r2 = AdaptiveQuad::integrate(g, b, a, tol); if (r2 != -r || n != n1) vc::fail("reverse", vc::cat(id, ": ", r2, " in reverse, ", r, " forward"));
    Options ro; n = 0; AdaptiveQuad::integrate(g, b, a, tol, &ro); if (ro.fa != f.f(b) || ro.fb != f.f(a) || ro.uncertainty != o.uncertainty || ro.outOfTolerance != o.outOfTolerance) vc::fail("reverse:options", id);
    n = 0; if (AdaptiveQuad::integrate(g, a, b, tol) != r) vc::fail("plain", id);
    vc::outcome(vc::cat(f.name, n1)); if (n1 > 200) vc::sample(vc::cat(id, ": ", n1, " evaluations"));
  }
  if (vc::C().verbose) printf("worst %g\n", worst);
  for (auto &f : fns()) { if (f.lo > 0.25) continue; if (!vc::begin()) continue; vc::eval(); vc::transition(); double r = AdaptiveQuad::integrate(f.f, 0.25, 2.), e = (double)(f.F(2) - f.F(0.25)); if (!(std::fabs(r - e) <= (f.smooth ? 1e-5 : 2e-4) * std::max(std::fabs(e), f.smooth ? 0 : 1.) + 1e-13)) vc::fail("default", vc::cat(f.name, " ", r, " ", e)); }
}
static void hard() {
  // integrands with points which never settle: it ends, and says so
  struct H { const char *n; std::function<double(double)> f; bool oot; };
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  for (double c : {-0.5, 0.123, 0.7, 1. / 3, 0.9999}) for (double tol : {1e-3, 1e-6, 1e-10}) {
    std::vector<H> hs{
      {"1/|x-c|", [=](double x) { return 1 / std::fabs(x - c); }, true}, {"1/(x-c)^2", [=](double x) { return 1 / (x - c) / (x - c); }, true},
      {"NaN above c", [=](double x) { return x > c ? nan : 1; }, true}, {"NaN near c", [=](double x) { return std::fabs(x - c) < 0.01 ? nan : x; }, true}, {"NaN", [=](double) { return nan; }, true},
      {"infinite above c", [=](double x) { return x > c ? inf : 1; }, true}, {"infinite", [=](double) { return inf; }, true}, {"step at c", [=](double x) { return x > c ? 1. : 2.; }, false}, {"huge", [=](double x) { return 1e308 * (x > c ? 1 : -1); }, false}};
    for (auto &h : hs) if (tol > 1e-8 || h.n != std::string("1/(x-c)^2")) for (int rev = 0; rev < 2; rev++) {
      if (!vc::begin()) continue;
      std::string id = vc::cat(h.n, " c=", c, " tolerance ", tol, rev ? " reversed" : ""); vc::state(id); vc::transition(); vc::trace(); vc::eval();
      size_t n = 0; Options o; bool evalnan = false; double r;
      try { r = AdaptiveQuad::integrate([&](double x) { if (++n > CAP) throw Stop(); double y = h.f(x); if (!std::isfinite(y)) evalnan = true; return y; }, rev ? 1. : -1., rev ? -1. : 1., tol, &o); } catch (Stop &) { vc::fail("runaway", id); continue; }
      vc::outcome(vc::cat(h.n, n, o.outOfTolerance));
      bool must = h.oot && (evalnan || (h.n[0] == '1' && tol <= 1e-6));
      if (must && o.inTolerance()) vc::fail("flag:missing", vc::cat(id, ": claims to be in tolerance, result ", r));
      if (h.n == std::string("step at c") && (o.inTolerance() ? std::fabs(std::fabs(r) - (3 - c - 0 + 2 * c) ) > 40 * tol : false)) vc::fail("step", vc::cat(id, ": ", r));
    }
  }
  // flags are those of the last integral
  for (unsigned c = 0; c < 81; c++) if (vc::begin()) {
    Options o; unsigned q = c; vc::eval(); vc::state(vc::cat("flags", c));
    for (int i = 0; i < 4; i++, q /= 3) { o.fa = o.fb = nan; vc::transition(); int w = q % 3; try { AdaptiveQuad::integrate([&](double x) { return w == 0 ? x * x : w == 1 ? 1 / std::fabs(x - 0.3) : (x > 0.3 ? 1. : 0.); }, -1., 1., 1e-8, &o); } catch (...) {} if (o.outOfTolerance != (w == 1) && w != 2) vc::fail("flag:stale", vc::cat("sequence ", c, " step ", i)); }
  }
}
static void refusals() {
  const double eps = std::numeric_limits<double>::epsilon();
  auto f = [](double x) { return x; };
  for (double tol : {eps / 2, 0., -1., 1e-17, 1e-300, -1e-3}) if (vc::begin()) { vc::eval(); vc::transition(); vc::state(vc::cat("tol", tol)); bool t = false; try { AdaptiveQuad::integrate(f, 0., 1., tol); } catch (std::runtime_error &) { t = true; } if (!t) vc::fail("tolerance", vc::cat(tol, " accepted")); }
  for (double a : {1., -1., 1e10, -3e-5, 1e300}) for (double w : {0., 1., 4., 31.}) for (int rev = 0; rev < 2; rev++) if (vc::begin()) {
    double b = a + w * eps * std::fabs(a); vc::eval(); vc::transition(); vc::state(vc::cat("narrow", a, w)); bool t = false;
    try { rev ? AdaptiveQuad::integrate(f, b, a) : AdaptiveQuad::integrate(f, a, b); } catch (std::runtime_error &) { t = true; } if (!t) vc::fail("narrow", vc::cat(a, " to ", b, " accepted")); }
  if (vc::begin()) { vc::eval(); bool t = false; try { AdaptiveQuad::integrate(f, 0., 0.); } catch (std::runtime_error &) { t = true; } if (!t) vc::fail("narrow", "0 to 0"); }
  for (double tol : {eps, 2 * eps, 1e-15}) if (vc::begin()) { vc::eval(); vc::transition(); double r = AdaptiveQuad::integrate([](double x) { return x * x; }, 0., 3., tol); if (!vc::close(r, 9, 1e-14, 0)) vc::fail("finest", vc::cat(tol, ": ", r)); }
  // far away and tiny intervals
  for (double s : {1e-300, 1e-100, 1e-9, 1., 1e9, 1e100, 1e290}) for (double off : {0., 1., -1., 100.}) if (vc::begin()) {
    vc::eval(); vc::transition(); vc::state(vc::cat("scale", s, off)); double a = off * s, b = (off + 1) * s; double r = AdaptiveQuad::integrate([s](double x) { return x / s; }, a, b, 1e-9), e = ((off + 1) * (off + 1) - off * off) / 2 * s;
    if (!vc::close(r, e, 1e-9, 0)) vc::fail("scale", vc::cat(a, " to ", b, ": ", r, " instead of ", e)); }
  // an exception at every evaluation; the integrand is used in place, not copied
  for (int at = 1; at <= 200; at++) if (vc::begin()) { vc::eval(); vc::transition(); vc::state(vc::cat("throw", at)); int n = 0, got = 0; try { AdaptiveQuad::integrate([&](double x) -> double { if (++n == at) throw at; return 1 / (1e-6 + x * x); }, -1., 1.1); } catch (int k) { got = k; } if (got != at || n != at) vc::fail("throw", vc::cat(at)); }
  struct Count { int n; Count() : n(0) {} Count(Count const &) = delete; double operator()(double x) { n++; return std::exp(x); } };
  if (vc::begin()) { vc::eval(); Count c; AdaptiveQuad::integrate(c, 0., 1.); if (c.n < 9) vc::fail("inplace", vc::cat(c.n)); const auto cf = [](double x) { return 2 * x; }; if (!vc::close(AdaptiveQuad::integrate(cf, 0., 1.), 1, 1e-12, 0)) vc::fail("inplace", "const"); }
}
int main(int argc, char **argv) { vc::init(argc, argv); accuracy(); hard(); refusals(); return vc::finish(); }
#endif

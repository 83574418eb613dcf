// The contributed solar calculation: tables of fluxes and densities, survival
// probabilities after any history of parameters, and averages over the Sun.
#include "vc.hpp"
#include "nq.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <gsl/gsl_eigen.h>
#include <SolarModel.h>
#include <SolarProbabilities.h>
#define CK(key, cond, ...) do { vc::eval(); if (!(cond)) vc::fail(key, vc::cat(__VA_ARGS__)); } while (0)
typedef std::vector<double> V;
typedef SolarModel S;
static const double RS = 69662651411.1;
struct Spec { const char *file; double lo, hi; }; // in eV, what each component is made of
static const Spec SPEC[8] = {{"pp.dat", 0.00504e6, 0.42341e6}, {nullptr, 1.44e6, 0}, {"hep.dat", 1.8784e4, 1.8784e7}, {nullptr, 0.8618e6, 0}, {"b8.dat", 0.02e6, 16.56e6}, {"n13.dat", 5.9950e3, 1.1990e6}, {"o15.dat", 3.4640e3, 1.7320e6}, {"f17.dat", 3.4800e3, 1.7400e6}};
struct Tables { std::string name; V r, e[8], f[8]; V col[10]; };
static double lin(V const &x, V const &y, double t) { if (t <= x[0]) return y[0]; if (t >= x.back()) return y.back(); size_t i = 0; while (t > x[i + 1]) i++; return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i]); }
static void text(std::string const &f, std::vector<V> const &cols, size_t drop = 0, size_t rows = -1) {
  std::ofstream o(f); o.precision(17); for (size_t i = 0; i < std::min(rows, cols[0].size()); i++) { for (size_t j = 0; j + drop < cols.size(); j++) o << cols[j][i] << " "; o << "\n"; }
}
static void put(Tables const &t) {
  mkdir("SM", 0777); mkdir("SM/NuSpec", 0777); mkdir(("SM/" + t.name).c_str(), 0777);
  std::vector<V> c{t.r}; for (auto &v : t.col) c.push_back(v); text("SM/" + t.name + "/radial.dat", c);
  for (int i = 0; i < 8; i++) if (SPEC[i].file) { V m = t.e[i]; for (double &x : m) x /= 1e6; text(vc::cat("SM/NuSpec/", SPEC[i].file), {m, t.f[i]}); }
}
static std::vector<V> grids() { std::vector<V> g{{0, 1}, {0, .4, 1}, {1 / RS, .07, .25, .99907}, {.002, .1, .15, .5, .8, .97}, {0, .01, .05, .1, .3, .6, 1}}; for (auto &v : g) for (double &x : v) x *= RS; return g; }
static int kinds(V const &g) { return 3 + g.size(); } // unit data at each node, a falling profile, one with bumps, zero
static Tables make(int gi, int kind) {
  Tables t; t.name = vc::cat("m", gi, "_", kind); t.r = grids()[gi]; size_t n = t.r.size();
  for (int c = 0; c < 10; c++) for (size_t i = 0; i < n; i++) {
    double x = t.r[i] / RS, s = c < 8 ? pow(10., 3 + 2 * c) : 1, v;
    if (kind == 0) v = (c < 8 ? 1 + c * x : 140) * exp(-(c == 8 ? 10 : 4 + c) * x); else if (kind == 1) v = 1 + .1 * c + ((i * (c + 3)) % 4); else if (kind == 2) v = 0; else v = (i == (kind - 3 + c) % n);
    t.col[c].push_back(s * v);
  }
  for (int c = 0; c < 8; c++) if (SPEC[c].file) { double a = SPEC[c].lo * (1 - 1e-9), b = SPEC[c].hi * (1 + 1e-9); for (double f : {0., .1, .35, .5, .9, 1.}) { t.e[c].push_back(a + (b - a) * f); t.f[c].push_back(kind == 1 ? 1 + ((int)(10 * f) * (c + 1)) % 5 : (.1 + f) * (1.2 - f) * (1 + .2 * c)); } }
  return t;
}
static double spec(Tables const &t, int c, double E) { if (!SPEC[c].file) return 1; return E > SPEC[c].lo && E < SPEC[c].hi ? lin(t.e[c], t.f[c], E) : 0; }
static double flux(Tables const &t, int c, double R, double E) { if (E < 3.4640e3 || E > 1.8784e07) return 0; return lin(t.r, t.col[c], R * RS) * spec(t, c, E); }
static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b)) + 1e-300; }
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
static V energies() { V e{1e3, 3.4e3, 5e4, 1e5, 5e5, 1e6, 1.1e6, 5e6, 1e7, 1.7e7, 2e7}; for (auto &s : SPEC) for (double l : {s.lo, s.hi}) if (l) for (double d : {-1e-3, -1e-7, 1e-7, 1e-3}) e.push_back(l * (1 + d)); return e; }

static void model() {
  for (size_t g = 0; g < grids().size(); g++) for (int kd = 0; kd < kinds(grids()[g]); kd++) for (int order = 0; order < 3; order++) if (vc::begin()) {
    Tables t = make(g, kd); put(t); S m(t.name); std::string id = vc::cat("grid ", g, " data ", kd, " order ", order);
    V rs; for (double x : t.r) for (double d : {-1e-3, 0., 1e-3}) if (x / RS + d >= 0 && x / RS + d <= 1) rs.push_back(x / RS + d); for (double x : {0., .033, .2, .45, .77, .985, 1.}) rs.push_back(x);
    std::sort(rs.begin(), rs.end()); if (order == 1) std::reverse(rs.begin(), rs.end()); if (order == 2) { V z; for (size_t i = 0, n = rs.size(); i < n; i++) z.push_back(rs[i * 7 % n]); if (rs.size() % 7) rs = z; }
    CK("solar:components", m.NumComp() == 8, id, ": ", m.NumComp(), " components");
    double big[10]; for (int c = 0; c < 10; c++) { big[c] = 0; for (double v : t.col[c]) big[c] = std::max(big[c], v); }
    for (double R : rs) {
      vc::transition(2); double e = m.eDensity(R), d = m.DMDensity(R);
      CK("solar:density", std::fabs(e - lin(t.r, t.col[8], R * RS)) <= 1e-9 * big[8], id, " at ", R, ": electrons ", e, " instead of ", lin(t.r, t.col[8], R * RS));
      CK("solar:density", std::fabs(d - lin(t.r, t.col[9], R * RS)) <= 1e-9 * big[9], id, " at ", R, ": dark matter ", d, " instead of ", lin(t.r, t.col[9], R * RS));
      for (double E : energies()) for (int c = 0; c < 8; c++) { vc::transition(); double f = m.nuFlux(R, E, S::FluxType(c)), w = flux(t, c, R, E); CK("solar:flux", std::fabs(f - w) <= 1e-9 * big[c] * (SPEC[c].file ? 5 : 1), id, " at ", R, " energy ", E, " component ", c, ": ", f, " instead of ", w); }
      for (int c = 8; c < 10; c++) CK("solar:type", throws([&] { m.nuFlux(R, 1e6, S::FluxType(c)); }), id, ": flux of a component without neutrinos");
    }
    for (double R : {-1., -1e-9, 1 + 1e-9, 2.}) CK("solar:radius", throws([&] { m.eDensity(R); }) && throws([&] { m.DMDensity(R); }) && throws([&] { m.nuFlux(R, 1e6, S::pp); }), id, ": radius ", R, " is taken");
    vc::state(id); vc::outcome(id);
  }
  for (int bad = 0; bad < 16; bad++) if (vc::begin()) { // tables which are not there or not complete
    Tables t = make(1, 0); t.name = vc::cat("bad", bad); put(t); std::string f = "SM/" + t.name + "/radial.dat"; std::vector<V> c{t.r}; for (auto &v : t.col) c.push_back(v);
    if (bad == 0) unlink(f.c_str()); else if (bad == 1) text(f, c, 1); else if (bad == 2) text(f, c, 10); else if (bad == 3) text(f, c, 0, 1);
    else { int k = 0; const int comp[6] = {0, 2, 4, 5, 6, 7}; k = comp[(bad - 4) / 2]; std::string s = vc::cat("SM/NuSpec/", SPEC[k].file); if (bad % 2) unlink(s.c_str()); else text(s, {t.e[k]}); }
    CK("solar:incomplete", throws([&] { S m(t.name); }), "incomplete tables ", bad, " are taken"); vc::state(vc::cat("bad", bad)); put(t); CK("solar:incomplete", !throws([&] { S m(t.name); }), "the whole tables are refused");
  }
}

// |vector components of the first flavor|^2 of the eigenstates, by value; the smallest distance of two values
static V composition(nq::M const &h, double &gap) {
  int n = h.n; gsl_matrix_complex *m = gsl_matrix_complex_alloc(n, n), *w = gsl_matrix_complex_alloc(n, n); gsl_vector *v = gsl_vector_alloc(n); gsl_eigen_hermv_workspace *s = gsl_eigen_hermv_alloc(n);
  double z = h.norm() > 0 ? h.norm() : 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) gsl_matrix_complex_set(m, i, j, gsl_complex_rect(h(i, j).real() / z, h(i, j).imag() / z));
  gsl_eigen_hermv(m, v, w, s); gsl_eigen_hermv_sort(v, w, GSL_EIGEN_SORT_VAL_ASC); V r; gap = 1; for (int i = 0; i < n; i++) { r.push_back(gsl_complex_abs2(gsl_matrix_complex_get(w, 0, i))); if (i) gap = std::min(gap, gsl_vector_get(v, i) - gsl_vector_get(v, i - 1)); }
  gsl_eigen_hermv_free(s); gsl_vector_free(v); gsl_matrix_complex_free(m); gsl_matrix_complex_free(w); return r;
}
static double prob(nq::Par const &p, double ne, double E, double &gap) {
  nq::M u = p.u(false), d(p.n), h; for (int i = 0; i < p.n; i++) d(i, i) = p.dm[i] / (2 * E);
  h = u * d * u.dag(); double g0; V out = composition(h, g0); h(0, 0) += nq::k.sqrt2 * nq::k.GF * nq::k.Na * pow(nq::k.cm, -3) * ne; V in = composition(h, gap); gap = std::min(gap, g0);
  double s = 0; for (int i = 0; i < p.n; i++) s += in[i] * out[i]; return s;
}
struct Sop : SOP { using SOP::SOP; };
static void set(SOP &q, nq::Par const &p) { for (int j = 1; j < p.n; j++) { q.Set_SquareMassDifference(j, p.dm[j]); for (int i = 0; i < j; i++) { q.Set_MixingAngle(i, j, p.th[i][j]); q.Set_CPPhase(i, j, p.de[i][j]); } } }
static nq::Par par(int n, int s) { nq::Par p = nq::params(n, s); if (s >= 2 && n > 4) p.dm[4] = .5; if (!s) for (int j = 3; j < n; j++) p.dm[j] = 0; if (s == 3) { p.dm[1] = 7e-5; p.dm[2] = 2e-3; p.th[0][1] = .6; }
  if (s == 4) { p.dm[1] = 1e-5; p.th[0][1] = .05; p.th[0][2] = 0; } // a sharp resonance at the energies of the lines
  return p; }
static std::shared_ptr<S> shared(Tables const &t) { put(t); return std::make_shared<S>(t.name); }
static void check(SOP &q, Tables const &t, nq::Par const &p, std::string const &id) {
  for (double E : {1e5, 8e5, 3e6, 1.2e7}) for (double R : {0., .08, .3, .9, 1.}) {
    double gap, w = prob(p, lin(t.r, t.col[8], R * RS), E, gap), g = q.SolarOscillationProbability(E, R); vc::transition();
    if (gap < 1e-8) { vc::note("degenerate"); continue; }
    CK("solar:probability", std::fabs(g - w) < 1e-6 + 1e-13 / gap, id, " energy ", E, " at ", R, ": ", g, " instead of ", w);
    CK("solar:range", g > -1e-9 && g < 1 + 1e-9, id, ": probability ", g);
  }
}
static void probabilities() {
  int deep = vc::thorough() ? 4 : 2;
  for (int n = 3; n <= 5; n++) for (int kd = 0; kd < 4; kd++) for (int len = 0, hs = 1; len <= deep; len++, hs *= 6) for (int h = 0; h < hs; h++) if (vc::begin()) {
    // histories of: parameters 0-3, an initial state, another model
    Tables t = make(kd % 2 ? 4 : 3, kd / 2 ? 2 : kd); auto m = shared(t); SOP q(n); q.SetSolarModel(m); nq::Par p = par(n, 0); std::string id = vc::cat("flavours ", n, " data ", kd, " after [");
    bool bad = n > 3; // without a mass the sterile states are degenerate
    for (int i = 0, c = h; i < len; i++, c /= 6) {
      int a = c % 6; id += vc::cat(a < 4 ? "parameters " : a == 4 ? "state" : "model", a < 4 ? vc::cat(a) : "", " ");
      if (a < 4) { set(q, p = par(n, a)); bad = !a && n > 3; } else if (a == 5) { t = make(0, 0); q.SetSolarModel(shared(t)); } else { q.Set_E(1e7); q.Set_Body(std::make_shared<nusquids::Vacuum>()); q.Set_Track(std::make_shared<nusquids::Vacuum::Track>(1.)); nusquids::marray<double, 1> v{(size_t)n}; for (double &x : v) x = 1; q.Set_initial_state(v, nusquids::flavor); }
    }
    if (!bad) check(q, t, p, id + "]"); vc::state(id); vc::outcome(id);
  }
  if (vc::begin()) { SOP q; CK("solar:model", throws([&] { q.SolarOscillationProbability(1e6, .1); }) && throws([&] { q.GetSolarModel(); }) && throws([&] { q.RadialIntegratedFluxes(1e6); }) && throws([&] { q.PeeSquare(1e6); }), "a calculation without a solar model gives an answer"); auto m = shared(make(1, 0)); q.SetSolarModel(m); CK("solar:model", q.GetSolarModel() == m, "another model is returned"); }
}
// integrals over the Sun, by Simpson's rule between the nodes
template <class F> static double over(Tables const &t, int sub, F f) { V x{0}; for (double r : t.r) if (r / RS > 0 && r / RS < .99) x.push_back(r / RS); x.push_back(.99); double s = 0; for (size_t i = 1; i < x.size(); i++) for (int j = 0; j < sub; j++) { double h = (x[i] - x[i - 1]) / sub, a = x[i - 1] + j * h; s += h / 6 * (f(a) + 4 * f(a + h / 2) + f(a + h)); } return s; }
static void integrals() {
  V near_line; for (double l : {0.8618e6, 1.44e6}) for (double d : {-.05, -.02, -.012, -.008, -.003, 0., .003, .008, .012, .02, .05}) near_line.push_back(l * (1 + d));
  V es{5e4, 1e5, 4e5, 4.3e5, 1.1e6, 1.3e6, 1.8e6, 1e7, 1.7e7}; for (double l : {0.8618e6, 1.44e6}) for (double d : {-.02, -.012, -.008, -.003, 0., .003, .008, .012, .02}) es.push_back(l * (1 + d));
  if (vc::thorough()) { for (double x = 3e5; x < 1.9e7; x *= 1.07) es.push_back(x); for (double l : {0.8618e6, 1.44e6}) for (double d = -.03; d < .031; d += .0021) near_line.push_back(l * (1 + d)); }
  for (int lift = 0; lift < 3; lift++) for (int g = 0; g < 5; g++) for (int kd : lift ? std::vector<int>{0} : std::vector<int>{0, 1, 3, 4}) for (int s : lift ? std::vector<int>{1, 4} : std::vector<int>{0, 1, 2, 3}) for (double E : lift ? near_line : es) if (vc::begin()) {
    Tables t = make(g, kd); if (lift) { t.name += vc::cat("l", lift); for (int c = 0; c < 8; c++) for (double &v : t.col[c]) v /= pow(10., 2 * c) / (lift == 2 && !SPEC[c].file ? 100 : 1); } // as much from the lines as from the rest, or far more
    SOP q(3); q.SetSolarModel(shared(t)); nq::Par p = par(3, s); set(q, p); std::string id = vc::cat("grid ", g, " data ", kd, " lines ", lift, " parameters ", s, " energy ", E); double gap;
    auto all = [&](double R, bool weigh) { double sum = 0; for (int c = 0; c < 8; c++) { double e = SPEC[c].file ? E : SPEC[c].lo; if (!SPEC[c].file && !(std::fabs(E - e) / E < 1e-2)) continue; double f = flux(t, c, R, e); if (f) sum += f * (weigh ? prob(p, lin(t.r, t.col[8], R * RS), e, gap) : 1); } return sum; };
    double w = over(t, 2, [&](double R) { return all(R, false); }); if (!(w > 0)) { vc::note("no flux"); continue; }
    double f = q.RadialIntegratedFluxes(E); vc::transition(2); CK("solar:total", near(f, w, 1e-3), id, ": total flux ", f, " instead of ", w);
    double pe = q.PeeSquare(E), v = over(t, vc::thorough() ? 200 : 60, [&](double R) { return all(R, true); }) / w; CK("solar:average", std::fabs(pe - v) < 4e-3 * v + 1e-9, id, ": average probability ", pe, " instead of ", v);
    vc::state(id);
  }
}
int main(int argc, char **argv) {
  vc::init(argc, argv); std::string d = vc::cat(vc::C().tmp, "/sun", getpid()); mkdir(d.c_str(), 0777);
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(d.c_str())) return 98;
  model(); probabilities(); integrals(); if (chdir(cwd)) return 98; return vc::finish();
}

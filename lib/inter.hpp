// Cross sections, media with sources, and the transport equation that the
// interactions harnesses compare with.
#ifndef INTER_HPP
#define INTER_HPP
#include "vc.hpp"
#include "nq.hpp"
#include <memory>
using namespace nq;
typedef std::vector<double> V;
typedef NeutrinoCrossSections X;
#define CK(key, cond, ...) do { vc::eval(); if (!(cond)) vc::fail(key, vc::cat(__VA_ARGS__)); } while (0)
static const double S0 = 1.5e-33, TH = 1.2;

// Closed-form cross sections, different for every target, flavor, type and current.
struct Xs : X {
  int t, set; mutable long calls = 0; long bad = -1; // call which fails (-2: only counted)
  double val = 0; bool thr = false;
  Xs(int t, int set) : t(t), set(set) {}
  static double g(int t, int set, int f, int a, int c) {
    if (c == 2) return t == 3 && f == 0 && a == 1 ? 5 : 0;
    if (t == 3) return 0;
    if (set == 1 && t == 1 && c == 1) return 0; // neutrons do not scatter
    if (set == 2 && t == 0 && c == 0) return 0; // protons do not convert
    return (c == 1 ? .4 : 1.) * (1 + .5 * t) * (1 + .2 * f - .07 * f * t) * (a ? .6 + .1 * c : 1) * (set == 3 ? 1.7 : 1);
  }
  static double tot(int t, int set, double E, int f, int a, int c) { return S0 * g(t, set, f, a, c) * (c == 2 ? std::max(0., E / (10 * k.GeV) - TH) : sqrt(E / (10 * k.GeV))); }
  static double mean(int t, int set, double a, double b, int f, int n, int c) {
    if (c == 2) { double u = 10 * k.GeV, lo = std::max(a, TH * u); return b <= lo ? 0 : S0 * g(t, set, f, n, c) * ((b * b - lo * lo) / (2 * u) - TH * (b - lo)) / (b - a); }
    return S0 * g(t, set, f, n, c) * (pow(b, 1.5) - pow(a, 1.5)) / 1.5 / (b - a) / sqrt(10 * k.GeV);
  }
  static double dif(int t, int set, double E, double lo, double hi, int f, int a, int c) { double z = (lo + hi) / (2 * E); return tot(t, set, E, f, a, c) / (E / k.GeV) * (.5 + z - .2 * a * (z - .5) + .1 * f * (z - .5)); }
  double pass(double v) const { if (bad != -1 && calls++ == bad) { if (thr) throw std::runtime_error("no such table"); return val; } return v; }
  double TotalCrossSection(double E, NeutrinoFlavor f, X::NeutrinoType a, Current c) const override { return pass(tot(t, set, E, f, a, c)); }
  double SingleDifferentialCrossSection(double E, double e, NeutrinoFlavor f, X::NeutrinoType a, Current c) const override { return pass(dif(t, set, E, e, e, f, a, c)); }
  double AverageTotalCrossSection(double lo, double hi, NeutrinoFlavor f, X::NeutrinoType a, Current c) const override { return pass(mean(t, set, lo, hi, f, a, c)); }
  double AverageSingleDifferentialCrossSection(double E, double lo, double hi, NeutrinoFlavor f, X::NeutrinoType a, Current c) const override { return pass(dif(t, set, E, lo, hi, f, a, c)); }
};
// targets: 0 protons and neutrons, 1 isoscalar, 2 all of them
static std::shared_ptr<CrossSectionLibrary> library(int targets, int set, bool gr = true, std::vector<std::shared_ptr<Xs>> *out = nullptr) {
  auto l = std::make_shared<CrossSectionLibrary>();
  auto add = [&](PDGCode p, int t) { auto x = std::make_shared<Xs>(t, set); l->addTarget(p, std::shared_ptr<NeutrinoCrossSections>(x)); if (out) out->push_back(x); };
  if (targets != 1) { add(proton, 0); add(neutron, 1); }
  if (targets != 0) add(isoscalar_nucleon, 2);
  if (gr) add(electron, 3);
  return l;
}
// A medium which emits neutrinos.
struct Src : Med {
  using Med::Med;
  static std::string GetName() { return "vcMedium"; }
  void Serialize(hid_t g) const override { addH5Attribute<std::string>(g, "name", GetName()); const double v[] = {d0, d1, y0, y1, w, double(cst)}; const char *n[] = {"d0", "d1", "y0", "y1", "w", "cst"}; for (int i = 0; i < 6; i++) addH5Attribute<double>(g, n[i], v[i]); }
  static std::shared_ptr<Src> Deserialize(hid_t g) { double v[6]; const char *n[] = {"d0", "d1", "y0", "y1", "w", "cst"}; for (int i = 0; i < 6; i++) readH5Attribute<double>(g, n[i], v[i]); auto p = std::make_shared<Src>(v[0], v[1], v[2], v[3], v[4]); p->cst = v[5]; return p; }
  double s = 1;
  double rate(double x, int e, int r, int f) const { return s / (1e3 * k.km) * (.3 + .1 * e + .05 * r + .2 * f) * (1 + .5 * sin(x / (300 * k.km))); }
  void injected_neutrino_flux(marray<double, 3> &flux, const Track &t, const nuSQUIDS &) override {
    for (unsigned e = 0; e < flux.extent(0); e++) for (unsigned r = 0; r < flux.extent(1); r++) for (unsigned f = 0; f < flux.extent(2); f++) flux[e][r][f] = rate(t.GetX(), e, r, f);
  }
};
static std::shared_ptr<Src> medium(int m) {
  switch (m) {
  case 0: return std::make_shared<Src>(0, 1);
  case 1: return std::make_shared<Src>(5.5, .48);
  case 2: return std::make_shared<Src>(4, 0);
  case 3: return std::make_shared<Src>(5, 1);
  default: return std::make_shared<Src>(3, 4, .5, .2, 3 / (1e3 * k.km));
  }
}
struct Cfg { NeutrinoType nt; int n, ne; Basis basis; int targets, set; bool inter, single; int init; };
struct Seg { int med; bool osc, tau, gr, src, rev, pos, fast; };
static std::string name(Cfg const &c) { return vc::cat(c.nt == both ? "both" : c.nt == neutrino ? "nu" : "antinu", " n=", c.n, " ", c.single ? "single energy" : vc::cat(c.ne, " energies"), " ", c.basis == mass ? "mass" : "interaction", c.inter ? vc::cat(" targets ", c.targets, " set ", c.set) : std::string(" no interactions"), " init ", c.init); }
static std::string name(Seg const &s) { static const char *m[] = {"vacuum", "uniform", "neutrons", "protons", "varying"}; return vc::cat("[", m[s.med], s.osc ? "" : " frozen", s.tau ? " tau" : "", s.gr ? " resonance" : "", s.src ? " sources" : "", s.rev ? " backwards" : "", s.pos ? " positive" : "", s.fast ? " shortcut" : "", "]"); }
static V energies(int ne) { V e; for (int i = 0; i < ne; i++) e.push_back((4 + 3 * i + .7 * i * i) * k.GeV); return e; }

// The transport equation, in the flavor basis.
struct Ref {
  Cfg c; Par p; V E; int nr; TauDecaySpectra td;
  std::function<void(int e, int r, double x, M const &q, M &d)> extra; // further terms, added to the rate d of q
  Ref(Cfg const &c) : c(c), p(params(c.n, 1)), E(energies(c.ne)), nr(c.nt == both ? 2 : 1) { marray<double, 1> e{E.size()}; for (size_t i = 0; i < E.size(); i++) e[i] = E[i]; td.Init(e); }
  bool anti(int r) const { return c.nt == antineutrino || (c.nt == both && r == 1); }
  double sig(int t, int e, int f, int r, int cur) const { return (e ? Xs::mean(t, c.set, E[e - 1], E[e], f, anti(r), cur) : Xs::tot(t, c.set, E[0], f, anti(r), cur)) * k.cm * k.cm; }
  double dsig(int t, int e, int lo, int f, int r, int cur) const { return Xs::dif(t, c.set, E[e], lo ? E[lo - 1] : E[0], E[lo], f, anti(r), cur) * k.cm * k.cm / k.GeV; }
  std::vector<std::pair<int, double>> targets(double rho, double ye, double &ne) const {
    double d = rho * k.gr / pow(k.cm, 3), me = k.electron_mass, mp = k.proton_mass, mn = k.neutron_mass;
    if (c.targets == 1) { double n = 2 * d / (me + mp + mn); ne = n * ye; return {{2, n}}; }
    double nuc = d / (ye * (me + mp) + (1 - ye) * mn); ne = ye * nuc; return {{0, ye * nuc}, {1, (1 - ye) * nuc}};
  }
  typedef std::vector<std::vector<M>> St;
  St rhs(double x, St const &s, Src const &m, Seg const &g) const {
    double rho = m.rho(x), ye = m.e(x), ne; auto tr = targets(rho, ye, ne); int N = E.size(); V pv[2] = {pot(c.n, rho, ye, false), pot(c.n, rho, ye, true)};
    St d = s;
    std::vector<std::vector<V>> F(N, std::vector<V>(nr, V(c.n))), G(N, std::vector<V>(nr, V(c.n)));
    if (c.inter) {
      for (int e = 0; e < N; e++) for (int r = 0; r < nr; r++) for (int f = 0; f < 3; f++) {
        for (auto &t : tr) G[e][r][f] += t.second * (sig_(t.first, e, f, r, 0) + sig_(t.first, e, f, r, 1));
        if (g.gr && anti(r) && f == 0) G[e][r][f] += ne * sig_(3, e, 0, r, 2);
      }
      for (int r = 0; r < nr; r++) for (int hi = 1; hi < N; hi++) { double dE = E[hi] - E[hi - 1];
        for (int lo = 0; lo < hi; lo++) {
          for (int f = 0; f < 3; f++) for (auto &t : tr) F[lo][r][f] += s[hi][r](f, f).real() * dE * t.second * dsig_(t.first, hi, lo, f, r, 1);
          if (g.gr && anti(r)) for (int f = 0; f < 3; f++) F[lo][r][f] += s[hi][r](0, 0).real() * dE * ne * dsig_(3, hi, lo, 0, r, 2);
        } }
      if (g.tau) for (int r = 0; r < 2; r++) for (int et = 1; et < N; et++) {
        double taus = 0;
        for (int hi = et + 1; hi < N; hi++) for (auto &t : tr) taus += s[hi][r](2, 2).real() * (E[hi] - E[hi - 1]) * t.second * dsig_(t.first, hi, et, 2, r, 0);
        taus *= E[et] - E[et - 1];
        for (int lo = 0; lo < et; lo++) { F[lo][r][2] += taus * td.dNdEnu_All(et, lo, r) / k.GeV; for (int f = 0; f < 2; f++) F[lo][1 - r][f] += taus * td.dNdEnu_Lep(et, lo, r) / k.GeV; }
      }
    }
    if (g.src) for (int e = 0; e < N; e++) for (int r = 0; r < nr; r++) for (int f = 0; f < c.n; f++) F[e][r][f] += m.rate(x, e, r, f);
    for (int e = 0; e < N; e++) for (int r = 0; r < nr; r++) {
      M const &q = s[e][r]; M o(c.n), h = g.osc ? h0[e * nr + r] : M(c.n);
      for (int i = 0; i < c.n; i++) h(i, i) += pv[anti(r)][i];
      for (int i = 0; i < c.n; i++) for (int j = 0; j < c.n; j++) { double x = 0, y = 0; for (int l = 0; l < c.n; l++) { C u = h(i, l), v = q(l, j), w = q(i, l), z = h(l, j); x += u.real() * v.real() - u.imag() * v.imag() - w.real() * z.real() + w.imag() * z.imag(); y += u.real() * v.imag() + u.imag() * v.real() - w.real() * z.imag() - w.imag() * z.real(); } o(i, j) = C(y, -x); }
      for (int i = 0; i < c.n; i++) for (int j = 0; j < c.n; j++) o(i, j) -= .5 * (G[e][r][i] + G[e][r][j]) * q(i, j);
      for (int i = 0; i < c.n; i++) o(i, i) += F[e][r][i];
      if (extra) extra(e, r, x, q, o);
      d[e][r] = o;
    }
    return d;
  }
  // tables
  std::vector<double> tsig, tdsig; std::vector<M> h0;
  int ix(int t, int e, int f, int r, int cur) const { return (((t * E.size() + e) * 3 + f) * nr + r) * 3 + cur; }
  double sig_(int t, int e, int f, int r, int cur) const { return tsig[ix(t, e, f, r, cur)]; }
  double dsig_(int t, int e, int lo, int f, int r, int cur) const { return tdsig[ix(t, e, f, r, cur) * E.size() + lo]; }
  void fill() {
    int N = E.size(); tsig.assign(4 * N * 3 * nr * 3, 0); tdsig.assign(tsig.size() * N, 0); h0.clear();
    for (int t = 0; t < 4; t++) for (int e = 0; e < N; e++) for (int f = 0; f < 3; f++) for (int r = 0; r < nr; r++) for (int q = 0; q < 3; q++) { tsig[ix(t, e, f, r, q)] = sig(t, e, f, r, q); for (int lo = 0; lo < e; lo++) tdsig[ix(t, e, f, r, q) * N + lo] = dsig(t, e, lo, f, r, q); }
    for (int e = 0; e < N; e++) for (int r = 0; r < nr; r++) { M u = p.u(anti(r)); h0.push_back(u * p.diag(p.h0(E[e])) * u.dag()); }
  }
  static void ax(St &a, double f, St const &b) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) { M &x = a[i][j]; for (int l = 0; l < x.n * x.n; l++) x.a[l] += f * b[i][j].a[l]; } }
  St run(St s, double a, double b, Src const &m, Seg const &g) {
    // Butcher's method of order six
    static const double A[7][6] = {{}, {1 / 3.}, {0, 2 / 3.}, {1 / 12., 1 / 3., -1 / 12.}, {-1 / 16., 9 / 8., -3 / 16., -3 / 8.}, {0, 9 / 8., -3 / 8., -3 / 4., 1 / 2.}, {9 / 44., -9 / 11., 63 / 44., 18 / 11., 0, -16 / 11.}}, T[7] = {0, 1 / 3., 2 / 3., 1 / 3., .5, .5, 1}, B[7] = {11 / 120., 0, 27 / 40., 27 / 40., -4 / 15., -4 / 15., 11 / 120.};
    fill(); const int n = 40; double h = (b - a) / n;
    for (int i = 0; i < n; i++) {
      std::vector<St> K; St y = s;
      for (int j = 0; j < 7; j++) { St z = s; for (int l = 0; l < j; l++) if (A[j][l]) ax(z, h * A[j][l], K[l]); K.push_back(rhs(a + (i + T[j]) * h, z, m, g)); ax(y, h * B[j], K.back()); }
      s = y;
    }
    return s;
  }
};

struct Run {
  Cfg c; Ref ref; std::shared_ptr<nuSQUIDS> own; nuSQUIDS &q; Ref::St s; double tau = 0, tol = 1e-6; std::string log; bool osc = true;
  static nuSQUIDS *make(Cfg const &c, std::shared_ptr<CrossSectionLibrary> l) {
    if (c.single) return new nuSQUIDS(c.n, c.nt);
    V E = energies(c.ne); marray<double, 1> e{E.size()}; for (size_t i = 0; i < E.size(); i++) e[i] = E[i];
    return new nuSQUIDS(e, c.n, c.nt, c.inter, l ? l : library(c.targets, c.set));
  }
  void numerics() { q.Set_Basis(c.basis); q.Set_rel_error(1e-10); q.Set_abs_error(1e-10); q.Set_GSL_step(gsl_odeiv2_step_rk8pd); q.Set_h(10 * k.km); }
  Run(Cfg c, std::shared_ptr<CrossSectionLibrary> l = nullptr) : c(c), ref(c), own(make(c, l)), q(*own) { numerics(); apply(q, ref.p); }
  Run(Cfg c, std::shared_ptr<nuSQUIDS> o) : c(c), ref(c), own(o), q(*own) { numerics(); apply(q, ref.p); }
  // an object which is to continue another run
  Run(Run const &r, std::shared_ptr<nuSQUIDS> o) : c(r.c), ref(r.ref), own(o), q(*own), s(r.s), tau(r.tau), log(r.log), osc(r.osc) {}
  double w(int e, int r, int j) const { return c.init < 3 ? (j == c.init ? 1 + .25 * e + .1 * r : 0) : .2 + .3 * j + .1 * e + .05 * r; }
  void start(std::shared_ptr<Src> m, double a, double b) {
    q.Set_Body(m); q.Set_Track(std::make_shared<ConstantDensity::Track>(a, b)); if (c.single) q.Set_E(ref.E[0]);
    unsigned ne = ref.E.size(), n = c.n, nr = ref.nr;
    if (c.single) { marray<double, 1> v{n}; for (unsigned j = 0; j < n; j++) v[j] = w(0, 0, j); q.Set_initial_state(v); }
    else if (nr == 1) { marray<double, 2> v{ne, n}; for (unsigned e = 0; e < ne; e++) for (unsigned j = 0; j < n; j++) v[e][j] = w(e, 0, j); q.Set_initial_state(v); }
    else { marray<double, 3> v{ne, 2, n}; for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < 2; r++) for (unsigned j = 0; j < n; j++) v[e][r][j] = w(e, r, j); q.Set_initial_state(v); }
    s.assign(ne, {}); tau = 0;
    for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < nr; r++) { M m(n); for (unsigned j = 0; j < n; j++) m(j, j) = w(e, r, j); s[e].push_back(m); }
  }
  void toggles(Seg const &g) {
    q.Set_IncludeOscillations(g.osc); osc = g.osc; q.Set_NeutrinoSources(g.src); q.Set_AllowConstantDensityOscillationOnlyEvolution(g.fast);
    q.Set_PositivityConstrain(g.pos); q.Set_PositivityConstrainStep(130 * k.km);
    if (c.inter) { q.Set_TauRegeneration(g.tau); q.Set_GlashowResonance(g.gr); }
  }
  void segment(Seg g, double a, double b, bool set) {
    auto m = medium(g.med); if (g.rev) std::swap(a, b);
    toggles(g); if (set) { q.Set_Body(m); q.Set_Track(std::make_shared<ConstantDensity::Track>(a, b)); } else start(m, a, b);
    go(g, *m, a, b, set);
  }
  // the rest of the path, from x to b
  void go(Seg const &g, Src const &m, double x, double b, bool plus) { q.EvolveState(); s = ref.run(s, x, b, m, g); tau += b - x; log += vc::cat(plus ? " + " : "", name(g)); vc::transition(); check(); }
  void check(const char *key = "inter:flavor") {
    for (size_t e = 0; e < s.size(); e++) for (int r = 0; r < ref.nr; r++) {
      M u = ref.p.u(ref.anti(r)), m = u.dag() * s[e][r] * u; double sc = 1; for (auto &x : s) for (auto &y : x) sc = std::max(sc, y.norm());
      for (int j = 0; j < c.n; j++) {
        double f = q.EvalFlavorAtNode(j, e, r), g = q.EvalMassAtNode(j, e, r);
        CK(key, fabs(f - s[e][r](j, j).real()) <= tol * sc, name(c), " after ", log, ": flavor ", j, " at ", ref.E[e] / k.GeV, "GeV rho ", r, " is ", f, " instead of ", s[e][r](j, j).real());
        CK("inter:mass", fabs(g - m(j, j).real()) <= tol * sc, name(c), " after ", log, ": mass state ", j + 1, " at ", ref.E[e] / k.GeV, "GeV rho ", r, " is ", g, " instead of ", m(j, j).real());
      }
      if (c.basis != mass && osc) m = turn(m, ref.p.h0(ref.E[e]), tau);
      double dev = (mat(q.GetState(e, r)) - m).norm(); CK("inter:state", dev <= tol * sc, name(c), " after ", log, ": state at ", ref.E[e] / k.GeV, "GeV rho ", r, " off by ", dev);
    }
  }
  void tables(bool gr) {
    auto t = q.GetInteractionStructure(); V tg; int N = ref.E.size();
    std::vector<PDGCode> want = c.targets == 1 ? std::vector<PDGCode>{isoscalar_nucleon} : std::vector<PDGCode>{proton, neutron};
    CK("inter:targets", t->targets == want, name(c), ": ", t->targets.size(), " targets");
    auto near = [](double a, double b) { return fabs(a - b) <= 1e-12 * fabs(b); };
    for (size_t i = 0; i < want.size(); i++) for (int r = 0; r < ref.nr; r++) for (int f = 0; f < 3; f++) for (int e = 0; e < N; e++) { int x = c.targets == 1 ? 2 : i;
      CK("inter:total", near(t->sigma_CC[i][r][f][e], ref.sig(x, e, f, r, 0)) && near(t->sigma_NC[i][r][f][e], ref.sig(x, e, f, r, 1)), name(c), ": target ", i, " rho ", r, " flavor ", f, " node ", e, ": CC ", t->sigma_CC[i][r][f][e], " NC ", t->sigma_NC[i][r][f][e], " instead of ", ref.sig(x, e, f, r, 0), " ", ref.sig(x, e, f, r, 1));
      for (int lo = 0; lo < e; lo++) { double a = ref.sig(x, e, f, r, 0), b = ref.sig(x, e, f, r, 1); a = a ? ref.dsig(x, e, lo, f, r, 0) / a : 0; b = b ? ref.dsig(x, e, lo, f, r, 1) / b : 0;
        CK("inter:spectrum", near(t->dNdE_CC[i][r][f][e][lo], a) && near(t->dNdE_NC[i][r][f][e][lo], b), name(c), ": target ", i, " rho ", r, " flavor ", f, " nodes ", e, ",", lo, ": CC ", t->dNdE_CC[i][r][f][e][lo], " NC ", t->dNdE_NC[i][r][f][e][lo], " instead of ", a, " ", b); } }
    if (gr && c.nt != neutrino) for (int e = 0; e < N; e++) { int r = ref.nr - 1; double a = ref.sig(3, e, 0, r, 2); CK("inter:resonance", near(t->sigma_GR[e], a), name(c), ": node ", e, ": ", t->sigma_GR[e], " instead of ", a);
      for (int lo = 0; lo < e; lo++) CK("inter:resonance", near(t->dNdE_GR[e][lo], a ? ref.dsig(3, e, lo, 0, r, 2) / a : 0), name(c), ": nodes ", e, ",", lo, ": ", t->dNdE_GR[e][lo]); }
    for (int r = 0; r < ref.nr; r++) for (int e = 0; e < N; e++) for (int lo = 0; lo < e; lo++) CK("inter:taudecay", near(t->dNdE_tau_all[r][e][lo], ref.td.dNdEnu_All(e, lo, ref.anti(r)) / k.GeV) && near(t->dNdE_tau_lep[r][e][lo], ref.td.dNdEnu_Lep(e, lo, ref.anti(r)) / k.GeV), name(c), ": nodes ", e, ",", lo);
  }
};
#endif

// Oscillations in vacuum and matter: every sequence of path segments, compared
// with the exact evolution of the density matrix.
#include "vc.hpp"
#include "nq.hpp"
#include <memory>
using namespace nq;
typedef std::vector<double> V;
#define CK(key, cond, ...) do { vc::eval(); if (!(cond)) vc::fail(key, vc::cat(__VA_ARGS__)); } while (0)

struct Cfg { bool single; NeutrinoType nt; int n, par; Basis basis; int init; V E; double x0; };
struct Seg { int med; bool fast, rev, pos, frozen; };
static std::string name(Cfg const &c) { return vc::cat(c.single ? "single " : "multi ", c.nt == both ? "both" : c.nt == neutrino ? "nu" : "antinu", " n=", c.n, " parameters ", c.par, " basis ", c.basis == mass ? "mass" : "interaction", " initial ", c.init, " from ", c.x0 / k.km, "km"); }
static std::string name(Seg const &s) { static const char *m[] = {"vacuum", "uniform", "neutrons", "electron-rich", "varying", "uniform2"}; return vc::cat(m[s.med], s.rev ? " backwards" : "", s.fast ? " shortcut" : "", s.pos ? " positive" : "", s.frozen ? " without oscillations" : ""); }
static std::shared_ptr<Med> medium(int m) {
  switch (m) {
  case 0: return std::make_shared<Med>(0, 1);
  case 1: return std::make_shared<Med>(5.5, .48);
  case 2: return std::make_shared<Med>(8, 0);
  case 3: return std::make_shared<Med>(11, 1);
  case 4: return std::make_shared<Med>(3, 6, .5, .2, 3 / (1e3 * k.km));
  default: return std::make_shared<Med>(2.2, 1e-11);
  }
}
static bool isanti(Cfg const &c, int r) { return c.nt == antineutrino || (c.nt == both && r == 1); }

struct Run {
  Cfg c; Par p; nuSQUIDS q; int nr; std::vector<std::vector<M>> s; double tau = 0, tol = 3e-7; std::string log;
  static nuSQUIDS make(Cfg const &c) {
    if (c.single) return nuSQUIDS(c.n, c.nt);
    marray<double, 1> e{c.E.size()}; for (size_t i = 0; i < c.E.size(); i++) e[i] = c.E[i];
    return nuSQUIDS(e, c.n, c.nt);
  }
  Run(Cfg c) : c(c), p(params(c.n, c.par)), q(make(c)), nr(c.nt == both ? 2 : 1) {
    q.Set_Basis(c.basis); q.Set_rel_error(1e-10); q.Set_abs_error(1e-10); q.Set_GSL_step(gsl_odeiv2_step_rk8pd); q.Set_h(10 * k.km);
    if (c.par) apply(q, p);
  }
  // weight of component j for the initial state at energy e
  double w(int e, int r, int j) const {
    int i = c.init; if (i >= 10) i -= 10;
    if (i < c.n) return (j + e + r) % c.n == i ? 1 + .25 * e : 0;
    if (i > c.n) return j == (e + r) % c.n ? -.3 : .1 + .2 * j; // a state which needs mending
    return .2 + .3 * j + .1 * e + .05 * r;
  }
  void start(std::shared_ptr<Med> m, double a, double b) {
    q.Set_Body(m); q.Set_Track(std::make_shared<ConstantDensity::Track>(a, b));
    if (c.single) q.Set_E(c.E[0]);
    int ne = c.single ? 1 : c.E.size(); Basis b0 = c.init >= 10 ? mass : flavor;
    if (c.single) { marray<double, 1> v{(size_t)c.n}; for (int j = 0; j < c.n; j++) v[j] = w(0, 0, j); q.Set_initial_state(v, b0); }
    else if (nr == 1) { marray<double, 2> v{(size_t)ne, (size_t)c.n}; for (int e = 0; e < ne; e++) for (int j = 0; j < c.n; j++) v[e][j] = w(e, 0, j); q.Set_initial_state(v, b0); }
    else { marray<double, 3> v{(size_t)ne, 2, (size_t)c.n}; for (int e = 0; e < ne; e++) for (int r = 0; r < 2; r++) for (int j = 0; j < c.n; j++) v[e][r][j] = w(e, r, j); q.Set_initial_state(v, b0); }
    s.assign(ne, {}); tau = 0;
    for (int e = 0; e < ne; e++) for (int r = 0; r < nr; r++) { V d(c.n); for (int j = 0; j < c.n; j++) d[j] = w(e, r, j); M m = p.diag(d); if (b0 == mass) { M u = p.u(isanti(c, r)); m = u * m * u.dag(); } s[e].push_back(m); }
  }
  bool frozen = false;
  void segment(Seg g, double a, double b, bool set) {
    auto m = medium(g.med);
    if (g.rev) std::swap(a, b);
    q.Set_IncludeOscillations(!g.frozen); frozen = g.frozen;
    q.Set_AllowConstantDensityOscillationOnlyEvolution(g.fast);
    q.Set_PositivityConstrain(g.pos); q.Set_PositivityConstrainStep(130 * k.km);
    if (set) { q.Set_Body(m); q.Set_Track(std::make_shared<ConstantDensity::Track>(a, b)); } else { start(m, a, b); check("start", *m, a); }
    q.EvolveState();
    for (size_t e = 0; e < s.size(); e++) for (int r = 0; r < nr; r++) {
      M &x = s[e][r];
      if (!g.pos || g.fast) { x = propagate(p, c.E[e], *m, a, b, isanti(c, r), x, frozen); continue; }
      for (double t = a, z = b > a ? 130 * k.km : -130 * k.km; t != b;) { // steps, after each of which no flavor is negative
        double u = fabs(b - t) < fabs(z) * (1 + 1e-9) ? b : t + z; x = propagate(p, c.E[e], *m, t, u, isanti(c, r), x, frozen); t = u;
        for (int j = 0; j < c.n; j++) if (x(j, j).real() < 0) x(j, j) = 0;
      }
      for (int j = 0; j < c.n; j++) { double v = q.EvalFlavorAtNode(j, e, r); CK("osc:positive", v >= -1e-13, name(c), " after ", log, " + ", name(g), ": flavor ", j, " at node ", e, " rho ", r, " is ", v); }
    }
    tau += b - a; log += vc::cat(set ? " + " : "", name(g)); vc::transition();
    CK("osc:time", fabs(q.GetTrack()->GetX() - b) < 1e-9 * (fabs(a) + fabs(b)), name(c), " after ", log, ": position ", q.GetTrack()->GetX() / k.km, " instead of ", b / k.km);
    check(log, *m, b);
  }
  void check(std::string const &when, Med const &med, double x) {
    const char *f[] = {"e", "mu", "tau", "s1", "s2"};
    for (size_t e = 0; e < s.size(); e++) for (int r = 0; r < nr; r++) {
      M u = p.u(isanti(c, r)), m = u.dag() * s[e][r] * u; double sc = 0;
      for (int j = 0; j < c.n; j++) sc += s[e][r](j, j).real();
      for (int j = 0; j < c.n; j++) {
        double pf = s[e][r](j, j).real(), pm = m(j, j).real();
        V gf, gm; std::vector<bool> avr(c.n);
        gf.push_back(q.EvalFlavorAtNode(j, e, r)); gm.push_back(q.EvalMassAtNode(j, e, r));
        if (c.single) { gf.push_back(q.EvalFlavor(j)); gm.push_back(q.EvalMass(j)); gf.push_back(q.EvalFlavor(j, 1e9, avr)); gm.push_back(q.EvalMass(j, 1e9, avr)); }
        else { gf.push_back(q.EvalFlavor(j, c.E[e], r)); gm.push_back(q.EvalMass(j, c.E[e], r)); gf.push_back(q.EvalFlavor(j, c.E[e], r, 1e9, avr)); gm.push_back(q.EvalMass(j, c.E[e], r, 1e9, avr)); }
        if (c.basis != mass) for (double lim : {.05, .6, 5.}) { // oscillations faster than the limit averaged out
          V d = frozen ? V(c.n) : p.h0(c.E[e]); M z = m; bool edge = false;
          for (int i = 0; i < c.n; i++) for (int l = 0; l < c.n; l++) { double w = fabs((d[i] - d[l]) * tau); if (fabs(w - lim) < 1e-6) edge = true; if (w > lim) z(i, l) = 0; }
          if (edge) continue;
          double zf = (u * z * u.dag())(j, j).real(), v = c.single ? q.EvalFlavor(j, lim, avr) : q.EvalFlavor(j, c.E[e], r, lim, avr), v2 = c.single ? q.EvalMass(j, lim, avr) : q.EvalMass(j, c.E[e], r, lim, avr);
          CK("osc:average", fabs(v - zf) <= tol * sc && fabs(v2 - pm) <= tol * sc, name(c), " after ", when, ": nu_", f[j], " averaged beyond phase ", lim, " at ", c.E[e] / k.GeV, "GeV rho ", r, " is ", v, " instead of ", zf, ", mass state ", v2, " instead of ", pm);
        }
        for (size_t i = 0; i < gf.size(); i++) {
          CK("osc:flavor", fabs(gf[i] - pf) <= tol * sc, name(c), " after ", when, ": nu_", f[j], " at ", c.E[e] / k.GeV, "GeV rho ", r, " (query ", i, ") is ", gf[i], " instead of ", pf);
          CK("osc:mass", fabs(gm[i] - pm) <= tol * sc, name(c), " after ", when, ": mass state ", j + 1, " at ", c.E[e] / k.GeV, "GeV rho ", r, " (query ", i, ") is ", gm[i], " instead of ", pm);
        }
      }
      // the Hamiltonian acting on the state
      M h = u.dag() * p.diag(pot(c.n, med.rho(x), med.e(x), isanti(c, r))) * u; auto d = frozen ? V(c.n) : p.h0(c.E[e]);
      if (c.basis != mass) h = turn(h, d, tau);
      h = h + p.diag(d); M g = mat(q.GetHamiltonian(e, r)); double dev = (g - h).norm();
      CK("osc:hamiltonian", dev <= 1e-7 * h.norm() + 1e-25, name(c), " after ", when, ": Hamiltonian at ", c.E[e] / k.GeV, "GeV rho ", r, " off by ", dev, " of ", h.norm(), " first element ", g(0, 0).real(), " instead of ", h(0, 0).real());
    }
    // between nodes: the state is interpolated between its neighbours
    for (size_t e = 0; e + 1 < s.size(); e++) for (double fr : {.25, .5, .9}) for (int r = 0; r < nr; r++) {
      double E = c.E[e] + fr * (c.E[e + 1] - c.E[e]); M u = p.u(isanti(c, r)), a = u.dag() * s[e][r] * u, b = u.dag() * s[e + 1][r] * u;
      if (c.basis != mass && !frozen) { a = turn(a, p.h0(c.E[e]), tau); b = turn(b, p.h0(c.E[e + 1]), tau); }
      M m = C(1 - fr) * a + C(fr) * b; if (c.basis != mass && !frozen) m = turn(m, p.h0(E), -tau);
      M g = u * m * u.dag();
      double sf = 0, sw = 0; for (int j = 0; j < c.n; j++) { sw += g(j, j).real(); double v = q.EvalFlavor(j, E, r), v2 = q.EvalMass(j, E, r); sf += v;
        CK("osc:between", fabs(v - g(j, j).real()) <= 2e-6, name(c), " after ", when, ": nu_", f[j], " at ", E / k.GeV, "GeV rho ", r, " is ", v, " instead of ", g(j, j).real());
        CK("osc:between", fabs(v2 - m(j, j).real()) <= 2e-6, name(c), " after ", when, ": mass state ", j + 1, " at ", E / k.GeV, "GeV rho ", r, " is ", v2, " instead of ", m(j, j).real()); }
    }
  }
};

static void sequence(Cfg const &c, std::vector<Seg> const &g, bool again) {
  if (!vc::begin()) return;
  std::string log;
  try {
    Run r(c); double L[] = {1200 * k.km, 700 * k.km, 400 * k.km};
    double a = c.x0;
    for (int rep = 0; rep <= again; rep++) {
      r.log = rep ? "restart: " : "";
      for (size_t i = 0; i < g.size(); i++) { double o = i == 1 ? 300 * k.km : a; r.segment(g[i], o, o + L[i], i > 0); }
    }
    vc::state(vc::cat(name(c), r.log)); std::string o; for (auto &x : r.s) for (auto &m : x) o += vc::cat(std::round(m(0, 0).real() * 1e6), " "); vc::outcome(o);
    vc::sample(vc::cat(name(c), ": ", r.log, " leaves electron component ", r.s[0][0](0, 0).real()));
  } catch (std::exception &e) { std::string l; for (auto &x : g) l += " " + name(x); vc::fail("osc:exception", vc::cat(name(c), l, ": exception ", e.what())); }
}

int main(int argc, char **argv) {
  vc::init(argc, argv);
  V E{2.5 * k.GeV, 6 * k.GeV, 7.5 * k.GeV}; bool th = vc::thorough();
  struct Mode { bool s; NeutrinoType t; } modes[] = {{false, neutrino}, {false, antineutrino}, {false, both}, {true, neutrino}, {true, antineutrino}};
  // one segment: every configuration
  for (auto m : modes) for (int n = 3; n <= (th ? 5 : 4); n++) for (int par = 0; par < 4; par++) for (Basis b : {interaction, mass}) {
    std::vector<int> in; for (int i = 0; i <= n + 1; i++) { if (m.s || i == 0 || i >= n) { in.push_back(i); in.push_back(10 + i); } }
    for (int i : in) for (int med = 0; med < 6; med++) {
      if (!th && n == 4 && (med == 0 || med == 3)) continue;
      for (int o = 0; o < 3; o++) { // plain, shortcut, positivity
        if (!th && o && (par == 2 || i >= 10)) continue;
        if (i % 10 > n && o == 1) continue;
        for (int rev = 0; rev < 2; rev++) { if (!th && rev && (med != 1 && med != 4)) continue;
          sequence({m.s, m.t, n, par, b, i, E, (i % 2) * 500 * k.km}, {{med, o == 1, (bool)rev, o == 2, false}}, (i + med) % 3 == 0); }
      }
    }
  }
  // sequences of segments
  std::vector<Seg> al;
  for (int med : {0, 1, 2, 4}) for (int rev = 0; rev < 2; rev++) for (int o = 0; o < 3; o++) if (!(o == 2 && med == 0)) al.push_back({med, o == 1, (bool)rev, o == 2, false});
  for (int med : {1, 4}) for (int o = 0; o < 2; o++) al.push_back({med, o == 1, false, false, true});
  for (auto m : modes) for (Basis b : {interaction, mass}) {
    Cfg c{m.s, m.t, 3, 1, b, 3, E, 200 * k.km};
    for (auto &x : al) for (auto &y : al) {
      if (!th && (m.s != (b == mass))) { if (x.rev || y.pos) continue; }
      sequence(c, {x, y}, false);
    }
    for (auto &x : al) for (auto &y : al) if (x.pos || y.pos) { Cfg d = c; d.init = 4; if (th || !x.rev) sequence(d, {x, y}, false); }
    for (auto &x : al) for (auto &y : al) for (auto &z : al) {
      if (x.rev || z.rev || x.pos || y.pos || z.pos) continue;
      if (!th && (z.med == 2 || x.med == 2 || y.med == 0)) continue;
      if (!th && m.t == antineutrino) continue;
      sequence(c, {x, y, z}, false);
    }
  }
  return vc::finish();
}

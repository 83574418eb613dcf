// Stand-in for the solver class of the SQuIDS library.
#ifndef SQUIDS_SQUIDS_H
#define SQUIDS_SQUIDS_H
#include <functional>
#include <limits>
#include <sstream>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_odeiv2.h>
#include "SUNalg.h"
namespace squids {
class SQuIDS {
  bool coh = false, ncoh = false, oth = false, gs = false, os = false, any = true, adaptive = true, init_ = false;
  double t = 0, t_ini = 0, tunit = 1; unsigned nsteps = 1000;
  double h = std::numeric_limits<double>::epsilon(), h_min = std::numeric_limits<double>::min(), h_max = std::numeric_limits<double>::max();
  double abs_error = 1e-9, rel_error = 1e-9;
  const gsl_odeiv2_step_type *step = gsl_odeiv2_step_rkf45;
  std::vector<double> x; size_t size_state = 0, neq = 0;
  std::unique_ptr<double[]> system;
  struct SU_state { std::unique_ptr<SU_vector[]> rho; double *scalar = nullptr; };
  std::unique_ptr<SU_state[]> dstate;
  void point(SU_state *s, double *p) {
    for (unsigned e = 0; e < nx; e++) { for (unsigned r = 0; r < nrhos; r++) s[e].rho[r].SetBackingStore(p + e * size_state + r * nsun * nsun); s[e].scalar = p + e * size_state + nrhos * nsun * nsun; }
  }
  static int rhs(double t, const double *y, double *f, void *p) {
    SQuIDS *s = (SQuIDS *)p;
    s->point(s->estate.get(), const_cast<double *>(y)); s->point(s->dstate.get(), f);
    s->derive(t); return GSL_SUCCESS;
  }
  void derive(double at) {
    t = at; PreDerive(at);
    for (unsigned e = 0; e < nx; e++) {
      for (unsigned r = 0; r < nrhos; r++) {
        SU_vector &d = dstate[e].rho[r]; d.SetAllComponents(0);
        if (coh) d = iCommutator(estate[e].rho[r], HI(e, r, t));
        if (ncoh) d -= ACommutator(GammaRho(e, r, t), estate[e].rho[r]);
        if (oth) d += InteractionsRho(e, r, t);
      }
      for (unsigned s = 0; s < nscalars; s++) {
        double d = 0;
        if (gs) d += -estate[e].scalar[s] * GammaScalar(e, s, t);
        if (os) d += InteractionsScalar(e, s, t);
        dstate[e].scalar[s] = d;
      }
    }
  }
protected:
  unsigned nx = 0, nsun = 0, nrhos = 0, nscalars = 0;
  std::unique_ptr<SU_state[]> state, estate;
  void ini(unsigned n, unsigned dim, unsigned nr, unsigned ns, double ti = 0) {
    nx = n; nsun = dim; nrhos = nr; nscalars = ns; t = t_ini = ti;
    size_state = nr * dim * dim + ns; neq = size_state * nx;
    system.reset(new double[neq]()); x.assign(n, 0);
    auto mk = [&](std::unique_ptr<SU_state[]> &s) { s.reset(new SU_state[n]); for (unsigned e = 0; e < n; e++) { s[e].rho.reset(new SU_vector[nr]); for (unsigned r = 0; r < nr; r++) s[e].rho[r] = SU_vector(dim, (double *)system.get() + e * size_state + r * dim * dim); } };
    mk(state); mk(estate); mk(dstate); point(state.get(), system.get()); point(estate.get(), system.get()); point(dstate.get(), system.get()); init_ = true;
  }
  int Set_xrange(const std::vector<double> &v) {
    if (v.size() != nx) throw std::runtime_error("SQUIDS::Set_xrange: wrong number of nodes");
    if (!std::is_sorted(v.begin(), v.end())) throw std::runtime_error("SQUIDS::Set_xrange: not sorted");
    x = v; return 0;
  }
public:
  Const params;
  SQuIDS() {}
  SQuIDS(unsigned n, unsigned dim, unsigned nr, unsigned ns, double ti = 0) { ini(n, dim, nr, ns, ti); }
  SQuIDS(const SQuIDS &) = delete;
  SQuIDS(SQuIDS &&o) { swap(o); }
  SQuIDS &operator=(SQuIDS &&o) { if (&o != this) { SQuIDS e; swap(e); swap(o); } return *this; }
  virtual ~SQuIDS() {}
  virtual void PreDerive(double) {}
  virtual SU_vector H0(double, unsigned) const { return SU_vector(nsun); }
  virtual SU_vector HI(unsigned, unsigned, double) const { return SU_vector(nsun); }
  virtual SU_vector GammaRho(unsigned, unsigned, double) const { return SU_vector(nsun); }
  virtual SU_vector InteractionsRho(unsigned, unsigned, double) const { return SU_vector(nsun); }
  virtual double GammaScalar(unsigned, unsigned, double) const { return 0; }
  virtual double InteractionsScalar(unsigned, unsigned, double) const { return 0; }
  double GetExpectationValue(SU_vector op, unsigned r, unsigned i) const { return state[i].rho[r] * op.Evolve(H0(x[i], r), t - t_ini); }
  double GetExpectationValue(SU_vector op, unsigned r, unsigned i, double scale, std::vector<bool> &avr) const {
    SU_vector h0 = H0(x[i], r); std::vector<double> b(h0.GetEvolveBufferSize()); h0.PrepareEvolve(b.data(), t - t_ini, scale, avr); return state[i].rho[r] * op.Evolve(b.data());
  }
  SU_vector GetIntermediateState(unsigned r, double xi) const {
    size_t k = loc(xi); double f = (xi - x[k]) / (x[k + 1] - x[k]); return (1 - f) * state[k].rho[r] + f * state[k + 1].rho[r];
  }
  double GetExpectationValueD(const SU_vector &op, unsigned r, double xi) const { return GetIntermediateState(r, xi) * op.Evolve(H0(xi, r), t - t_ini); }
  double GetExpectationValueD(const SU_vector &op, unsigned r, double xi, double scale, std::vector<bool> &avr) const {
    SU_vector h0 = H0(xi, r); std::vector<double> b(h0.GetEvolveBufferSize()); h0.PrepareEvolve(b.data(), t - t_ini, scale, avr); return GetIntermediateState(r, xi) * op.Evolve(b.data());
  }
  void Set_CoherentRhoTerms(bool o) { coh = o; upd(); }
  void Set_NonCoherentRhoTerms(bool o) { ncoh = o; upd(); }
  void Set_OtherRhoTerms(bool o) { oth = o; upd(); }
  void Set_GammaScalarTerms(bool o) { gs = o; upd(); }
  void Set_OtherScalarTerms(bool o) { os = o; upd(); }
  void Set_AnyNumerics(bool o) { any = o; }
  void Set_AdaptiveStep(bool o) { adaptive = o; }
  void Set_NumSteps(unsigned n) { nsteps = n; }
  void Set_h(double v) { h = v; }
  void Set_h_min(double v) { h_min = v; if (h < h_min) h = h_min; }
  void Set_h_max(double v) { h_max = v; if (h > h_max) h = h_max; }
  double Get_h() const { return h; }
  double Get_h_min() const { return h_min; }
  double Get_h_max() const { return h_max; }
  void Set_rel_error(double v) { rel_error = v; }
  void Set_abs_error(double v) { abs_error = v; }
  double Get_rel_error() const { return rel_error; }
  double Get_abs_error() const { return abs_error; }
  void Set_GSL_step(gsl_odeiv2_step_type const *o) { step = o; }
  double Get_t() const { return t; }
  double Get_t_initial() const { return t_ini; }
  void Set_t(double v) { t = v; }
  double Get_x(unsigned i) const { return x[i]; }
  std::vector<double> Get_xrange() const { return x; }
  bool Get_CoherentRhoTerms() const { return coh; }
  bool Get_NonCoherentRhoTerms() const { return ncoh; }
  bool Get_OtherRhoTerms() const { return oth; }
  bool Get_AnyNumerics() const { return any; }
  const gsl_odeiv2_step_type *Get_step() const { return step; }
  void Evolve(double dt) {
    if (!any) { t += dt; PreDerive(t); return; }
    gsl_odeiv2_system sys = {&SQuIDS::rhs, nullptr, neq, this};
    if (dt != 0 && (h > 0) != (dt > 0)) throw std::runtime_error("SQUIDS::Evolve: error in the ODE solver (integration limits and/or step direction not consistent)");
    double hs = std::min(std::fabs(h), h_max); if (!(hs > 0)) hs = std::fabs(dt); if (dt < 0) hs = -hs;
    std::unique_ptr<gsl_odeiv2_driver, void (*)(gsl_odeiv2_driver *)> d(gsl_odeiv2_driver_alloc_y_new(&sys, step, hs, abs_error, rel_error), gsl_odeiv2_driver_free);
    if (h_min > std::numeric_limits<double>::min()) gsl_odeiv2_driver_set_hmin(d.get(), std::min(h_min, std::fabs(hs)));
    gsl_odeiv2_driver_set_hmax(d.get(), h_max);
    double tt = t, end = t + dt; int st = GSL_SUCCESS;
    std::unique_ptr<double[]> keep;
    try {
      if (dt != 0) st = adaptive ? gsl_odeiv2_driver_apply(d.get(), &tt, end, system.get()) : gsl_odeiv2_driver_apply_fixed_step(d.get(), &tt, dt / nsteps, nsteps, system.get());
    } catch (...) { point(estate.get(), system.get()); throw; }
    point(estate.get(), system.get()); t = end;
    if (st != GSL_SUCCESS) throw std::runtime_error("SQUIDS::Evolve: error in the ODE solver");
    PreDerive(t);
  }
private:
  void upd() { any = coh || ncoh || oth || gs || os; }
  size_t loc(double xi) const {
    auto it = std::lower_bound(x.begin(), x.end(), xi);
    if (it == x.end() || (it == x.begin() && xi != x[0]) || nx < 2) throw std::runtime_error("SQUIDS::GetIntermediateState : x value not in the array.");
    return it == x.begin() ? 0 : it - x.begin() - 1;
  }
  void swap(SQuIDS &o) {
    using std::swap;
    swap(coh, o.coh); swap(ncoh, o.ncoh); swap(oth, o.oth); swap(gs, o.gs); swap(os, o.os); swap(any, o.any); swap(adaptive, o.adaptive); swap(init_, o.init_);
    swap(t, o.t); swap(t_ini, o.t_ini); swap(tunit, o.tunit); swap(nsteps, o.nsteps); swap(h, o.h); swap(h_min, o.h_min); swap(h_max, o.h_max);
    swap(abs_error, o.abs_error); swap(rel_error, o.rel_error); swap(step, o.step); swap(x, o.x); swap(size_state, o.size_state); swap(neq, o.neq); swap(system, o.system);
    swap(dstate, o.dstate); swap(nx, o.nx); swap(nsun, o.nsun); swap(nrhos, o.nrhos); swap(nscalars, o.nscalars); swap(state, o.state); swap(estate, o.estate); swap(params, o.params);
  }
};
}
#endif

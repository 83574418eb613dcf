// Objects to work on, and everything that can be seen of them.
#ifndef OBJS_HPP
#define OBJS_HPP
#include "inter.hpp"
#include <unistd.h>
#include <sstream>
#include <iostream>

static std::string file(const char *n = "s") { return vc::cat(vc::C().tmp, "/", n, getpid(), ".h5"); }
static nusquids::detail::registerBody reg_body(Src::GetName(), [](hid_t g) -> std::shared_ptr<Body> { return Src::Deserialize(g); });
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
// An object with content of its own.
struct Open : nuSQUIDS {
  using nuSQUIDS::nuSQUIDS; Open() {} using nuSQUIDS::ReadStateHDF5Internal; double extra = -1; bool broken = false;
  void AddToWriteHDF5(hid_t g) const override { if (broken) throw std::runtime_error("user"); if (extra > 0) addH5Attribute<double>(g, "extra", extra); }
  void AddToReadHDF5(hid_t g) override { if (broken) throw std::runtime_error("user"); htri_t h = H5Aexists(g, "extra"); if (h < 0) throw std::runtime_error("user parameters"); extra = -1; if (h) readH5Attribute<double>(g, "extra", extra); }
};
typedef std::shared_ptr<Open> Q;
static marray<double, 1> nodes(V E) { marray<double, 1> e{E.size()}; for (size_t i = 0; i < E.size(); i++) e[i] = E[i] * k.GeV; return e; }
static void fill(nuSQUIDS &q) { // an initial state of the right shape
  unsigned n = q.GetNumNeu(), ne = q.GetNumE(), r = q.GetNumRho();
  if (r == 2) { marray<double, 3> v{ne, 2, n}; std::fill(v.begin(), v.end(), .7); q.Set_initial_state(v); } else { marray<double, 2> v{ne, n}; std::fill(v.begin(), v.end(), .7); q.Set_initial_state(v); }
}
// Objects in use before a state is read into them.
static const int USED = 7;
static Q used(int what) {
  Q q; auto m = std::make_shared<Src>(2, .4); auto tr = std::make_shared<ConstantDensity::Track>(0, 50 * k.km);
  switch (what) {
  case 0: return std::make_shared<Open>();
  case 1: { q = std::make_shared<Open>(4, neutrino); apply(*q, params(4, 2)); q->Set_Body(m); q->Set_Track(tr); q->Set_E(3 * k.GeV); marray<double, 1> v{4}; std::fill(v.begin(), v.end(), .5); q->Set_initial_state(v); q->EvolveState(); return q; }
  case 2: q = std::make_shared<Open>(nodes({2, 3, 9, 11, 30}), 3, both, true, library(0, 2)); q->Set_TauRegeneration(true); q->Set_GlashowResonance(true); q->Set_NeutrinoSources(true); break;
  case 3: q = std::make_shared<Open>(nodes({1, 50}), 5, antineutrino); q->Set_IncludeOscillations(false); q->Set_NeutrinoSources(true); break;
  case 4: return std::make_shared<Open>(nodes({1, 2, 50}), 4, both, true, library(1, 1));
  case 5: q = std::make_shared<Open>(nodes({1, 2, 50}), 3, antineutrino, true, library(1, 0)); q->Set_IncludeOscillations(false); break;
  default: q = std::make_shared<Open>(nodes({5}), 3, both); break;
  }
  apply(*q, params(q->GetNumNeu(), 2)); q->Set_Body(m); q->Set_Track(tr); fill(*q); q->EvolveState(); return q;
}
static bool bits(double a, double b) { return !memcmp(&a, &b, sizeof a); }
static void same(std::string const &id, nuSQUIDS &a, nuSQUIDS &b, bool mass_basis) {
#define EQ(key, x, ...) CK(key, bits(a.x, b.x), id, ": " #x " ", __VA_ARGS__, " is ", b.x, " instead of ", a.x)
  CK("state:shape", a.GetNumNeu() == b.GetNumNeu() && a.GetNumE() == b.GetNumE() && a.GetNumRho() == b.GetNumRho(), id, ": ", b.GetNumNeu(), " flavors, ", b.GetNumE(), " energies, ", b.GetNumRho(), " equations");
  if (a.GetNumNeu() != b.GetNumNeu() || a.GetNumE() != b.GetNumE() || a.GetNumRho() != b.GetNumRho()) return;
  unsigned n = a.GetNumNeu(), ne = a.GetNumE(), nr = a.GetNumRho();
  CK("state:flags", a.GetUseInteractions() == b.GetUseInteractions() && a.GetUseOscillations() == b.GetUseOscillations(), id);
  EQ("state:time", Get_t(), ""); EQ("state:time", Get_t_initial(), "");
  for (unsigned j = 1; j < n; j++) { EQ("state:parameters", Get_SquareMassDifference(j), j); for (unsigned i = 0; i < j; i++) { EQ("state:parameters", Get_MixingAngle(i, j), vc::cat(i, j)); EQ("state:parameters", Get_CPPhase(i, j), vc::cat(i, j)); } }
  EQ("state:track", GetTrack()->GetX(), ""); EQ("state:track", GetTrack()->GetInitialX(), ""); EQ("state:track", GetTrack()->GetFinalX(), "");
  for (double x : {0., 150 * k.km, 700 * k.km}) { ConstantDensity::Track t(x, 0, 1e4 * k.km); if (dynamic_cast<Src *>(a.GetBody().get())) { CK("state:body", bits(a.GetBody()->density(t), b.GetBody()->density(t)) && bits(a.GetBody()->ye(t), b.GetBody()->ye(t)), id); } }
  auto E = a.GetERange(), F = b.GetERange();
  for (unsigned e = 0; e < ne; e++) {
    CK("state:energies", bits(E[e], F[e]), id, ": node ", e);
    for (unsigned r = 0; r < nr; r++) {
      auto &x = a.GetState(e, r), &y = b.GetState(e, r); CK("state:vector", x.Dim() == y.Dim(), id); bool ok = x.Dim() == y.Dim(); for (unsigned i = 0; ok && i < n * n; i++) ok = bits(x[i], y[i]);
      CK("state:vector", ok, id, ": node ", e, " equation ", r);
      for (unsigned j = 0; j < n; j++) { double f = a.EvalFlavorAtNode(j, e, r), g = b.EvalFlavorAtNode(j, e, r); CK("state:flavor", fabs(f - g) <= 1e-11 * (1 + fabs(f)), id, ": flavor ", j, " at node ", e, " equation ", r, " is ", g, " instead of ", f);
        f = a.EvalMassAtNode(j, e, r), g = b.EvalMassAtNode(j, e, r); CK("state:mass", fabs(f - g) <= 1e-11 * (1 + fabs(f)), id, ": mass state ", j, " at node ", e, " is ", g, " instead of ", f);
        if (e) { double en = E[e - 1] * .4 + E[e] * .6; f = a.EvalFlavor(j, en, r), g = b.EvalFlavor(j, en, r); CK("state:between", fabs(f - g) <= 1e-11 * (1 + fabs(f)), id, ": flavor ", j, " between nodes ", e - 1, " and ", e, " is ", g, " instead of ", f); } }
      double dev = (mat(a.GetHamiltonian(e, r)) - mat(b.GetHamiltonian(e, r))).norm(), sc = mat(a.GetHamiltonian(e, r)).norm(); CK("state:hamiltonian", dev <= 1e-11 * sc, id, ": node ", e, " equation ", r, ": off by ", dev / sc);
    }
  }
  if (a.GetUseInteractions()) {
    auto s = a.GetInteractionStructure(), t = b.GetInteractionStructure(); CK("state:tables", s->targets == t->targets, id, ": targets"); bool ok = s->sigma_CC.size() == t->sigma_CC.size() && s->dNdE_tau_all.size() == t->dNdE_tau_all.size(); CK("state:tables", ok, id, ": sizes");
    for (unsigned r = 0; ok && r < nr; r++) for (unsigned e = 0; ok && e < ne; e++) { for (unsigned x = 0; x < s->targets.size(); x++) for (unsigned f = 0; f < n; f++) { ok = ok && bits(s->sigma_CC[x][r][f][e], t->sigma_CC[x][r][f][e]) && bits(s->sigma_NC[x][r][f][e], t->sigma_NC[x][r][f][e]); for (unsigned l = 0; l < ne; l++) ok = ok && bits(s->dNdE_CC[x][r][f][e][l], t->dNdE_CC[x][r][f][e][l]) && bits(s->dNdE_NC[x][r][f][e][l], t->dNdE_NC[x][r][f][e][l]); }
      ok = ok && bits(s->sigma_GR[e], t->sigma_GR[e]); for (unsigned l = 0; l < ne; l++) ok = ok && bits(s->dNdE_GR[e][l], t->dNdE_GR[e][l]) && bits(s->dNdE_tau_all[r][e][l], t->dNdE_tau_all[r][e][l]) && bits(s->dNdE_tau_lep[r][e][l], t->dNdE_tau_lep[r][e][l]); }
    CK("state:tables", ok, id);
  }
}
static bool throws(std::function<void()> f) { Quiet q; try { f(); } catch (std::exception &) { return true; } return false; }
// Everything which a state consists of.
static std::string dump(Open &q) {
  std::string s; auto put = [&](double v) { s.append((char *)&v, sizeof v); };
  unsigned n = q.GetNumNeu(), ne = q.GetNumE(), nr = q.GetNumRho(); for (double v : {double(n), double(ne), double(nr), double(q.GetUseInteractions()), double(q.GetUseOscillations()), q.Get_t(), q.Get_t_initial(), q.GetTrack()->GetX(), q.extra}) put(v);
  for (unsigned j = 1; j < n; j++) { put(q.Get_SquareMassDifference(j)); for (unsigned i = 0; i < j; i++) { put(q.Get_MixingAngle(i, j)); put(q.Get_CPPhase(i, j)); } }
  for (double v : q.GetTrack()->GetTrackParams()) put(v);
  for (double x : {0., .3, .7, 1.}) { auto t = q.GetTrack(); double was = t->GetX(); t->SetX(t->GetInitialX() + x * (t->GetFinalX() - t->GetInitialX())); put(q.GetBody()->density(*t)); put(q.GetBody()->ye(*t)); t->SetX(was); }
  for (double v : q.GetERange()) put(v);
  for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < nr; r++) { for (unsigned i = 0; i < n * n; i++) put(q.GetState(e, r)[i]); for (unsigned f = 0; f < n; f++) put(q.EvalFlavorAtNode(f, e, r)); }
  if (q.GetUseInteractions()) { auto t = q.GetInteractionStructure(); if (!t) return s + "no tables"; for (auto x : t->targets) put(x);
    for (unsigned r = 0; r < nr; r++) for (unsigned e = 0; e < ne; e++) { for (unsigned x = 0; x < t->targets.size(); x++) for (unsigned f = 0; f < n; f++) { put(t->sigma_CC[x][r][f][e]); put(t->sigma_NC[x][r][f][e]); for (unsigned l = 0; l < ne; l++) { put(t->dNdE_CC[x][r][f][e][l]); put(t->dNdE_NC[x][r][f][e][l]); } } put(t->sigma_GR[e]); for (unsigned l = 0; l < ne; l++) { put(t->dNdE_GR[e][l]); put(t->dNdE_tau_all[r][e][l]); put(t->dNdE_tau_lep[r][e][l]); } } }
  return s;
}
static void put(std::string &s, double v) { s.append((char *)&v, sizeof v); }
// Like dump, for objects at any stage.
static std::string view(Open &q) {
  std::string s; auto part = [&](std::function<void()> f) { try { f(); } catch (std::exception &e) { s += e.what(); } };
  unsigned n = q.GetNumNeu(), ne = q.GetNumE(), nr = q.GetNumRho(); for (double v : {double(n), double(ne), double(nr), double(q.GetUseInteractions()), double(q.GetUseOscillations()), q.Get_t(), q.Get_t_initial(), q.extra}) put(s, v);
  for (unsigned j = 1; j < n; j++) { put(s, q.Get_SquareMassDifference(j)); for (unsigned i = 0; i < j; i++) { put(s, q.Get_MixingAngle(i, j)); put(s, q.Get_CPPhase(i, j)); } }
  if (q.GetTrack()) { for (double v : q.GetTrack()->GetTrackParams()) put(s, v); put(s, q.GetTrack()->GetX()); } if (q.GetBody()) s += q.GetBody()->GetName();
  for (double v : q.GetERange()) put(s, v);
  for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < nr; r++) {
    part([&] { auto &v = q.GetState(e, r); for (unsigned i = 0; i < v.Size(); i++) put(s, v[i]); });
    for (unsigned f = 0; f < n; f++) part([&] { put(s, q.EvalFlavorAtNode(f, e, r)); put(s, q.EvalMassAtNode(f, e, r)); for (unsigned i = 0; i < n * n; i++) { put(s, q.GetFlavorProj(f, r)[i]); put(s, q.GetMassProj(f, r)[i]); } });
    if (e) part([&] { put(s, q.EvalFlavor(1, q.GetERange()[e - 1] * .3 + q.GetERange()[e] * .7, r)); });
    part([&] { auto h = q.GetHamiltonian(e, r); for (unsigned i = 0; i < h.Size(); i++) put(s, h[i]); });
  }
  if (q.GetUseInteractions()) part([&] { auto t = q.GetInteractionStructure(); for (auto x : t->targets) put(s, x); for (double v : t->sigma_CC) put(s, v); for (double v : t->dNdE_NC) put(s, v); for (double v : t->dNdE_GR) put(s, v); for (double v : t->dNdE_tau_lep) put(s, v); });
  return s;
}
#endif

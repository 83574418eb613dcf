// The atmospheric object under every sequence of settings, in lockstep with
// one ordinary object for each of its zeniths; its interpolation against the
// formula; and the calls which have to be refused.
#include "vc.hpp"
#include "inter.hpp"
#include "objs.hpp"
#include <hdf5.h>
#ifndef PART
#define PART 0
#endif

// An Earth which also emits neutrinos.
struct Shiny : EarthAtm {
  using EarthAtm::EarthAtm; double s = 1;
  void injected_neutrino_flux(marray<double, 3> &flux, const GenericTrack &t, const nuSQUIDS &) override { for (unsigned e = 0; e < flux.extent(0); e++) for (unsigned r = 0; r < flux.extent(1); r++) for (unsigned f = 0; f < flux.extent(2); f++) flux[e][r][f] = s * (1 + .3 * e + .1 * r + .2 * f) * (1 + .4 * sin(t.GetX() / (900 * k.km))) / (2e4 * k.km); }
};
static std::shared_ptr<EarthAtm> earth(int i) {
  static const V x = {0, .2, .4, .6, .8, 1}; static const V r[3] = {{6, 5.5, 5, 4, 3, 2.6}, {3, 3.2, 3.1, 3, 2, 1.5}, {6, 5.5, 5, 4, 3, 2.6}}, y[2] = {{.46, .47, .48, .49, .495, .5}, {.5, .52, .51, .48, .46, .45}};
  std::shared_ptr<EarthAtm> e; if (i == 1) { auto s = std::make_shared<Shiny>(x, r[1], y[1]); e = s; } else e = std::make_shared<EarthAtm>(x, r[i], y[0]);
  if (i == 1) e->SetAtmosphereHeight(70); if (i == 2) e->SetAtmosphereHeight(300); return e;
}
struct Kind { NeutrinoType nt; int n; V cz, E; bool inter, single; Basis basis; int targets, set; bool defearth; };
static std::string name(Kind const &x) { return vc::cat(x.nt == both ? "both" : x.nt == neutrino ? "nu" : "antinu", " n=", x.n, " ", x.cz.size(), " zeniths ", x.single ? "single energy" : vc::cat(x.E.size(), " energies"), x.inter ? " interacting" : "", x.basis == mass ? " mass basis" : "", x.defearth ? " given Earth" : ""); }
static marray<double, 1> ar(V const &v, double u = 1) { marray<double, 1> a{v.size()}; for (size_t i = 0; i < v.size(); i++) a[i] = v[i] * u; return a; }
enum { INITF, INITM, EVOLVE, ANGLE, PHASE, DM, DEFAULTS, OSC, TAU, GR, XSEC, EARTH1, EARTH2, THREADS, PROGRESS, POS, FILTER, SRC, STEPS_, ONESTEP, STORE, LOAD, MOVE, ONTO, FAST, NOPS, LATE, LATER };
static const char *OPS[] = {"flavor state", "mass state", "evolve", "angle", "phase", "mass difference", "defaults", "oscillations", "regeneration", "resonance", "cross sections", "shining Earth", "other Earth", "threads", "progress", "positivity", "filter", "sources", "steps", "one zenith's steps", "store and read back", "constructed from a file", "move", "move onto another", "shortcut", "", "paths which begin later", "one path which begins later"};
typedef nuSQUIDSAtm<Open> Atm;
static std::unique_ptr<Atm> make(Kind const &x) { std::unique_ptr<Atm> a(x.single ? new Atm(ar(x.cz), (unsigned)x.n, x.nt) : new Atm(ar(x.cz), ar(x.E, k.GeV), (unsigned)x.n, x.nt, x.inter, library(x.targets, x.set))); return a; }
static Q twin(Kind const &x) { return x.single ? std::make_shared<Open>(x.n, x.nt) : std::make_shared<Open>(ar(x.E, k.GeV), x.n, x.nt, x.inter, library(x.targets, x.set)); }

struct Pair {
  Kind x; std::unique_ptr<Atm> a; std::vector<Q> t; std::shared_ptr<EarthAtm> e; std::string log, did; bool tau = false, gr = false, pos = false, filt = false, src = false, prog = false, fast = false; int inits = 0, xs, threads = 1, evolved = 0; double th = .1; bool left = false, loaded = false; std::unique_ptr<Atm> old;
  Pair(Kind const &x) : x(x), a(make(x)), e(x.defearth ? std::make_shared<EarthAtm>() : earth(0)), log(name(x)), xs(x.set) {
    for (size_t i = 0; i < x.cz.size(); i++) { Q q = twin(x); q->Set_Body(e); q->Set_Track(std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(x.cz[i]))); t.push_back(q); }
    if (!x.defearth) a->Set_EarthModel(e); else e = nullptr;
    settings(); if (x.basis == mass) { for (auto &q : a->GetnuSQuIDS()) q.Set_Basis(mass); for (auto &q : t) q->Set_Basis(mass); }
    if (x.single) for (size_t i = 0; i < t.size(); i++) { a->GetnuSQuIDS(i).Set_E(x.E[0] * k.GeV * (1 + i)); t[i]->Set_E(x.E[0] * k.GeV * (1 + i)); }
  }
  void settings() { a->Set_rel_error(1e-5); a->Set_abs_error(1e-7); a->Set_h(30 * k.km); for (auto &q : t) { q->Set_rel_error(1e-5); q->Set_abs_error(1e-7); q->Set_h(30 * k.km); } }
  // the same call on both: refused by one if and only if by the other
  template <class F, class G> void both_(const char *what, F f, G g) {
    std::string w1, w2; { Quiet z; try { f(*a); } catch (std::exception &e) { w1 = e.what(); if (w1 == "") w1 = "?"; } try { for (size_t i = 0; i < t.size(); i++) g(*t[i], i); } catch (std::exception &e) { w2 = e.what(); if (w2 == "") w2 = "?"; } }
    CK("atm:refusal", (w1 == "") == (w2 == ""), log, ": ", what, " ", w1 == "" ? "works" : w1, " where a single path ", w2 == "" ? "works" : w2);
    if (w1 != "" || w2 != "") did = "";
  }
  void apply(int op) {
    log += vc::cat(", ", OPS[op]); did = "yes"; vc::transition(); unsigned nz = t.size(), ne = x.single ? 1 : x.E.size(), n = x.n;
    switch (op) {
    case INITF: case INITM: { Basis b = op == INITF ? flavor : mass; inits++; auto v = [&](unsigned z, unsigned e, unsigned r, unsigned f) { return .2 + .15 * z + .1 * e + .05 * r + .3 * ((f + inits) % 3); };
      if (x.nt == ::both) { marray<double, 4> w{nz, ne, 2, n}; for (unsigned z = 0; z < nz; z++) for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < 2; r++) for (unsigned f = 0; f < n; f++) w[z][e][r][f] = v(z, e, r, f);
        both_("initial state", [&](Atm &q) { q.Set_initial_state(w, b); }, [&](Open &q, int z) { marray<double, 3> u{ne, 2, n}; for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < 2; r++) for (unsigned f = 0; f < n; f++) u[e][r][f] = v(z, e, r, f); q.Set_initial_state(u, b); }); }
      else if (x.single) both_("initial state", [&](Atm &q) { for (unsigned z = 0; z < nz; z++) { marray<double, 1> u{n}; for (unsigned f = 0; f < n; f++) u[f] = v(z, 0, 0, f); q.GetnuSQuIDS(z).Set_initial_state(u, b); } }, [&](Open &q, int z) { marray<double, 1> u{n}; for (unsigned f = 0; f < n; f++) u[f] = v(z, 0, 0, f); q.Set_initial_state(u, b); });
      else { marray<double, 3> w{nz, ne, n}; for (unsigned z = 0; z < nz; z++) for (unsigned e = 0; e < ne; e++) for (unsigned f = 0; f < n; f++) w[z][e][f] = v(z, e, 0, f);
        both_("initial state", [&](Atm &q) { q.Set_initial_state(w, b); }, [&](Open &q, int z) { marray<double, 2> u{ne, n}; for (unsigned e = 0; e < ne; e++) for (unsigned f = 0; f < n; f++) u[e][f] = v(z, e, 0, f); q.Set_initial_state(u, b); }); }
      break; }
    case EVOLVE: both_("evolving", [&](Atm &q) { if (x.single) for (auto &o : q.GetnuSQuIDS()) o.EvolveState(); else q.EvolveState(); }, [&](Open &q, int) { q.EvolveState(); }); evolved++; break;
    case ANGLE: th += .07; both_("angle", [&](Atm &q) { q.Set_MixingAngle(0, 2, th); q.Set_MixingAngle(1, 2, .6); }, [&](Open &q, int) { q.Set_MixingAngle(0, 2, th); q.Set_MixingAngle(1, 2, .6); }); break;
    case PHASE: both_("phase", [&](Atm &q) { q.Set_CPPhase(0, 2, 10 * th); }, [&](Open &q, int) { q.Set_CPPhase(0, 2, 10 * th); }); break;
    case DM: both_("mass difference", [&](Atm &q) { q.Set_SquareMassDifference(2, -2e-3); q.Set_SquareMassDifference(1, th * 1e-3); }, [&](Open &q, int) { q.Set_SquareMassDifference(2, -2e-3); q.Set_SquareMassDifference(1, th * 1e-3); }); break;
    case DEFAULTS: both_("defaults", [&](Atm &q) { q.Set_MixingParametersToDefault(); }, [&](Open &q, int) { q.Set_MixingParametersToDefault(); }); break;
    case OSC: { bool o = !t[0]->GetUseOscillations(); both_("oscillations", [&](Atm &q) { q.Set_IncludeOscillations(o); }, [&](Open &q, int) { q.Set_IncludeOscillations(o); }); break; }
    case TAU: tau = !tau; both_("regeneration", [&](Atm &q) { q.Set_TauRegeneration(tau); }, [&](Open &q, int) { q.Set_TauRegeneration(tau); }); break;
    case GR: gr = !gr; if (gr && x.inter && loaded) { auto l = library(xs % 3, xs); a->SetNeutrinoCrossSections(l); for (auto &q : t) q->SetNeutrinoCrossSections(l); loaded = false; } both_("resonance", [&](Atm &q) { q.Set_GlashowResonance(gr); }, [&](Open &q, int) { q.Set_GlashowResonance(gr); }); break;
    case XSEC: { xs = (xs + 1) % 4; auto l = library(xs % 3, xs); both_("cross sections", [&](Atm &q) { q.SetNeutrinoCrossSections(l); }, [&](Open &q, int) { q.SetNeutrinoCrossSections(library(xs % 3, xs)); }); loaded = false; CK("atm:getter", a->GetNeutrinoCrossSections() == l, log, ": other cross sections are returned"); break; }
    case EARTH1: case EARTH2: { auto w = earth(op == EARTH1 ? 1 : 2); both_("Earth", [&](Atm &q) { q.Set_EarthModel(w); }, [&](Open &q, int z) { q.Set_Body(w); q.Set_Track(std::make_shared<EarthAtm::Track>(w->MakeTrackWithCosine(x.cz[z]))); }); e = w; break; }
    case THREADS: threads = threads % 3 + 1; a->Set_EvalThreads(threads); CK("atm:getter", a->Get_EvalThreads() == (unsigned)threads, log, ": ", a->Get_EvalThreads(), " threads"); break;
    case PROGRESS: prog = !prog; a->Set_ProgressBar(prog); for (auto &q : t) q->Set_ProgressBar(prog); break;
    case POS: pos = !pos; both_("positivity", [&](Atm &q) { q.Set_PositivityConstrain(pos); q.Set_PositivityConstrainStep(900 * k.km); }, [&](Open &q, int) { q.Set_PositivityConstrain(pos); q.Set_PositivityConstrainStep(900 * k.km); }); break;
    case FILTER: filt = !filt; both_("filter", [&](Atm &q) { q.Set_EvolLowPassCutoff(filt ? .002 / k.km : 0); q.Set_EvolLowPassScale(filt ? .004 / k.km : 0); }, [&](Open &q, int) { q.Set_EvolLowPassCutoff(filt ? .002 / k.km : 0); q.Set_EvolLowPassScale(filt ? .004 / k.km : 0); }); break;
    case SRC: src = !src; both_("sources", [&](Atm &q) { q.Set_NeutrinoSources(src); }, [&](Open &q, int) { q.Set_NeutrinoSources(src); }); break;
    case STEPS_: both_("steps", [&](Atm &q) { q.Set_h_min(.1 * k.km); q.Set_h_max(700 * k.km); q.Set_h(13 * k.km); q.Set_rel_error(2e-4); q.Set_abs_error(3e-5); q.Set_GSL_step(gsl_odeiv2_step_rkck); }, [&](Open &q, int) { q.Set_h_min(.1 * k.km); q.Set_h_max(700 * k.km); q.Set_h(13 * k.km); q.Set_rel_error(2e-4); q.Set_abs_error(3e-5); q.Set_GSL_step(gsl_odeiv2_step_rkck); }); break;
    case ONESTEP: { unsigned i = nz - 1; both_("one zenith's steps", [&](Atm &q) { q.Set_h_max(400 * k.km, i); q.Set_h_min(.2 * k.km, i); q.Set_h(17 * k.km, i); q.Set_rel_error(1e-3, 0); q.Set_abs_error(1e-4, i); }, [&](Open &q, int z) { if (z == int(i)) { q.Set_h_max(400 * k.km); q.Set_h_min(.2 * k.km); q.Set_h(17 * k.km); q.Set_abs_error(1e-4); } if (!z) q.Set_rel_error(1e-3); }); break; }
    case STORE: case LOAD: { std::string f = file("a"), g = file("b"); double extra = inits + 2; for (auto &q : a->GetnuSQuIDS()) q.extra = extra; for (auto &q : t) q->extra = extra; bool ok = true; if (dynamic_cast<Shiny *>(e.get()) || x.single) { did = ""; break; } if (filt) apply(FILTER);
      { bool w1 = !throws([&] { a->WriteStateHDF5(f); }), w2 = true; for (auto &q : t) if (throws([&] { q->WriteStateHDF5(g); })) w2 = false; CK("atm:refusal", w1 == w2, log, ": storing ", w1 ? "works" : "fails", " where for a single path it ", w2 ? "works" : "fails"); ok = w1 && w2; if (!ok) did = ""; }
      if (ok) { std::string was = views(), w; { Quiet z; try { if (op == STORE) a->ReadStateHDF5(f); else { a.reset(new Atm(f)); threads = 1; } } catch (std::exception &e) { w = e.what(); } } CK("atm:read", w == "", log, ": ", w);
        for (auto &q : t) { Quiet z; q->WriteStateHDF5(g); q = std::make_shared<Open>(); q->ReadStateHDF5(g); }
        CK("atm:stored", views() == was, log, ": differs after reading back"); loaded = true; tau = gr = pos = filt = src = prog = fast = false; for (auto *q : {&a}) { Quiet z; (*q)->Set_TauRegeneration(false); (*q)->Set_GlashowResonance(false); (*q)->Set_ProgressBar(false); } for (auto &q : t) { q->Set_TauRegeneration(false); q->Set_GlashowResonance(false); } settings(); }
      unlink(f.c_str()); unlink(g.c_str()); break; }
    case MOVE: { std::unique_ptr<Atm> b(new Atm(std::move(*a))); old = std::move(a); a = std::move(b); left = true; break; }
    case ONTO: { Kind y = x; y.n = 7 - x.n; y.cz = {-.5, .4}; y.E = {200, 300, 500}; y.single = false; std::unique_ptr<Atm> b = make(y); b->Set_EvalThreads(2); *b = std::move(*a); old = std::move(a); a = std::move(b); left = true; break; }
    // zeniths which run through something else, from a point other than 0
    case LATE: case LATER: { unsigned lo = op == LATE ? 0 : nz - 1; auto body = std::make_shared<ConstantDensity>(4., .48); auto path = [&](unsigned z) { return std::make_shared<ConstantDensity::Track>((900 + 400 * z) * k.km, (1500 + 700 * z) * k.km); };
      both_("paths", [&](Atm &q) { for (unsigned z = lo; z < nz; z++) { q.GetnuSQuIDS(z).Set_Body(body); q.GetnuSQuIDS(z).Set_Track(path(z)); } }, [&](Open &q, unsigned z) { if (z >= lo) { q.Set_Body(body); q.Set_Track(path(z)); } }); break; }
    case FAST: fast = !fast; both_("shortcut", [&](Atm &q) { q.Set_AllowConstantDensityOscillationOnlyEvolution(fast); }, [&](Open &q, int) { q.Set_AllowConstantDensityOscillationOnlyEvolution(fast); }); break;
    }
    if (left) { remains(); old.reset(); left = false; }
  }
  std::string views() { std::string s; for (auto &q : a->GetnuSQuIDS()) s += view(q); return s; }
  void remains() {
    std::vector<std::function<void()>> f = {[&] { old->EvolveState(); }, [&] { old->EvalFlavor(0, x.cz[0], x.E[0] * k.GeV, 0); }, [&] { std::vector<bool> v(x.n); old->EvalFlavor(0, x.cz[0], x.E[0] * k.GeV, 0, 1., v); }, [&] { old->WriteStateHDF5(file("a")); }, [&] { old->GetnuSQuIDS(0); }, [&] { old->Set_h(1, 0); }, [&] { old->Get_MixingAngle(0, 1); }, [&] { old->Get_CPPhase(0, 1); }, [&] { old->Get_SquareMassDifference(1); }, [&] { old->GetNumNeu(); }, [&] { old->GetNumRho(); }};
    for (size_t i = 0; i < f.size(); i++) CK("atm:remains", throws(f[i]), log, ": call ", i, " on the place it left is not refused");
    throws([&] { old->Set_MixingAngle(0, 1, .2); old->Set_ProgressBar(true); old->Set_IncludeOscillations(false); old->GetNumE(); old->GetNumCos(); old->GetERange(); old->GetCosthRange(); old->Set_EvalThreads(2); });
    if (log.size() % 3 == 0) { Kind y = x; y.cz = {-.5, .4}; *old = std::move(*make(y)); CK("atm:reuse", old->GetNumCos() == 2 && old->GetnuSQuIDS(1).GetNumNeu() == (unsigned)x.n, log, ": the place it left does not take another object"); }
  }
  bool valid() { return !throws([&] { t[0]->EvalFlavorAtNode(0, 0, 0); }); }
  void check() {
    unsigned nz = t.size(), ne = x.single ? 1 : x.E.size(), n = x.n, nr = x.nt == ::both ? 2 : 1;
    // the nodes are what single paths are
    CK("atm:shape", a->GetNumCos() == nz && a->GetNumNodes() == nz && a->GetnuSQuIDS().size() == nz && a->GetNumNeu() == n && a->GetNumRho() == nr && (x.single || a->GetNumE() == ne), log, ": ", a->GetNumCos(), " zeniths");
    if (a->GetnuSQuIDS().size() != nz) return;
    auto cr = a->GetCosthRange(), er = a->GetERange(); for (unsigned z = 0; z < nz; z++) CK("atm:shape", cr[z] == x.cz[z], log, ": zenith ", z); if (!x.single) for (unsigned e = 0; e < ne; e++) CK("atm:shape", er[e] == x.E[e] * k.GeV, log, ": energy ", e);
    for (unsigned z = 0; z < nz; z++) CK("atm:node", view(a->GetnuSQuIDS(z)) == view(*t[z]), log, ": zenith ", z, " differs from a single path");
    for (unsigned j = 1; j < n; j++) { CK("atm:getter", a->Get_SquareMassDifference(j) == t[0]->Get_SquareMassDifference(j), log, ": mass difference"); for (unsigned i = 0; i < j; i++) CK("atm:getter", a->Get_MixingAngle(i, j) == t[0]->Get_MixingAngle(i, j) && a->Get_CPPhase(i, j) == t[0]->Get_CPPhase(i, j), log, ": angle or phase ", i, j); }
    bool ok = valid(); if (ok) for (unsigned r = 0; r < nr; r++) { auto s = a->GetStates(r); bool same = s.extent(0) == nz && s.extent(1) == n * n; for (unsigned z = 0; same && z < nz; z++) for (unsigned i = 0; i < n * n; i++) same = same && bits(s[z][i], t[z]->GetState(0, r)[i]); CK("atm:states", same, log, ": states of rho ", r); }
    std::string before = views();
    // refused calls
    auto no = [&](const char *what, std::function<void()> f) { CK("atm:accepted", throws(f), log, ": ", what, " is not refused"); };
    double c0 = x.cz[0], c1 = x.cz.back(), e0 = x.E[0] * k.GeV, e1 = x.E.back() * k.GeV; std::vector<bool> avr(n), bad(n + 1), none; const unsigned big = 4000000000u;
    std::vector<std::pair<double, bool>> cs = {{c0, true}, {(c0 + c1) / 2, true}, {c0 - 1e-9, false}, {c1 + 1e-9, false}, {NAN, false}, {INFINITY, false}, {-1.5, false}}, es = {{e0, true}, {(e0 + e1) / 2, true}, {e0 * (1 - 1e-12), false}, {e1 * (1 + 1e-12), false}, {NAN, false}, {0, false}, {-e0, false}, {INFINITY, false}}; std::vector<std::pair<unsigned, bool>> fs = {{0, true}, {n - 1, true}, {n, false}, {n + 2, false}, {big, false}}, rs = {{0, true}, {1, nr == 2}, {2, false}, {big, false}};
    for (auto &f : fs) for (auto &c : cs) for (auto &e : es) for (auto &r : rs) { int wrong = !f.second + !c.second + !e.second + !r.second; if (wrong > 1 || (ok && !wrong && !x.single)) continue; no("a composition", [&] { a->EvalFlavor(f.first, c.first, e.first, r.first); }); no("an average", [&] { a->EvalFlavor(f.first, c.first, e.first, r.first, 1e9, avr); }); }
    for (auto *v : {&bad, &none}) no("averages of another size", [&] { a->EvalFlavor(0, c0, e0, 0, 1e9, *v); });
    if (!ok) { no("evolving", [&] { a->EvolveState(); }); no("storing", [&] { a->WriteStateHDF5(file("n")); }); unlink(file("n").c_str()); }
    for (unsigned i : {nz, nz + 3, big}) { no("a zenith", [&] { a->GetnuSQuIDS(i); }); no("a step", [&] { a->Set_h(1, i); }); no("a step", [&] { a->Set_h_max(1, i); }); no("a step", [&] { a->Set_h_min(1, i); }); no("an accuracy", [&] { a->Set_rel_error(1, i); }); no("an accuracy", [&] { a->Set_abs_error(1, i); }); }
    for (unsigned i : {n, n + 3, big}) { no("an angle", [&] { a->Set_MixingAngle(0, i, .3); }); no("a phase", [&] { a->Set_CPPhase(0, i, .3); }); no("a mass difference", [&] { a->Set_SquareMassDifference(i, .3); }); no("an angle", [&] { a->Get_MixingAngle(0, i); }); no("a phase", [&] { a->Get_CPPhase(0, i); }); no("a mass difference", [&] { a->Get_SquareMassDifference(i); }); }
    no("no Earth", [&] { a->Set_EarthModel(nullptr); }); if (!x.inter) { no("regeneration", [&] { a->Set_TauRegeneration(true); }); no("the resonance", [&] { a->Set_GlashowResonance(true); }); }
    for (unsigned z : {0u, nz - 1, nz, nz + 1}) for (unsigned e : {0u, ne - 1, ne, ne + 1}) for (unsigned f : {0u, n - 1, n, n + 1}) { if (!x.single && nr == 1 && z == nz && e == ne && f == n) continue; no("an initial state of rank 3", [&] { marray<double, 3> v{z, e, f}; std::fill(v.begin(), v.end(), 1); a->Set_initial_state(v); }); }
    for (unsigned z : {0u, nz - 1, nz, nz + 1}) for (unsigned e : {0u, ne - 1, ne, ne + 1}) for (unsigned f : {n - 1, n}) for (unsigned r : {0u, 1u, 2u, 3u}) { if (nr == 2 && z == nz && e == ne && f == n && r == 2) continue; no("an initial state of rank 4", [&] { marray<double, 4> v{z, e, r, f}; std::fill(v.begin(), v.end(), 1); a->Set_initial_state(v); }); }
    no("a file which is not there", [&] { a->GetnuSQuIDS(nz); });
    CK("atm:changed", views() == before, log, ": changed by refused calls");
    if (ok && !x.single) values();
    vc::trace(); vc::state(log); double c = ok ? t[0]->EvalFlavorAtNode(0, 0, 0) : 0; vc::outcome(vc::cat(ok, std::round(c * 1e5))); vc::sample(vc::cat(log, ": electron component at the first node ", c));
  }
  // the interpolation
  void values() {
    unsigned nz = t.size(), ne = x.E.size(), n = x.n, nr = x.nt == ::both ? 2 : 1; V cs, es; auto ea = e ? e : std::make_shared<EarthAtm>();
    for (unsigned z = 0; z < nz; z++) { cs.push_back(x.cz[z]); if (z + 1 < nz) for (double f : {1e-7, .3, .8}) cs.push_back(x.cz[z] * (1 - f) + x.cz[z + 1] * f); } for (unsigned i = 0; i < ne; i++) { es.push_back(x.E[i] * k.GeV); if (i + 1 < ne) for (double f : {.4, .999}) es.push_back((x.E[i] * (1 - f) + x.E[i + 1] * f) * k.GeV); }
    auto cell = [](V const &g, double v, double u) { size_t i = 0; while (i + 2 < g.size() && v > g[i + 1] * u) i++; return i; };
    std::vector<M> P[2]; for (unsigned r = 0; r < nr; r++) for (unsigned f = 0; f < n; f++) P[r].push_back(mat(t[0]->GetFlavorProj(f, r)));
    for (double c : cs) { size_t z = cell(x.cz, c, 1), w = std::min<size_t>(z + 1, nz - 1); auto tr = ea->MakeTrackWithCosine(c); double L = tr.GetFinalX() - tr.GetInitialX(), ti = 0; for (size_t q : {z, w}) ti += .5 * L * (t[q]->Get_t() - t[q]->Get_t_initial()) / (t[q]->GetTrack()->GetFinalX() - t[q]->GetTrack()->GetInitialX()); double fc = w == z ? 0 : (c - x.cz[z]) / (x.cz[w] - x.cz[z]);
      for (double E : es) { size_t i = cell(x.E, E, k.GeV), j = std::min<size_t>(i + 1, ne - 1); double fe = j == i ? 0 : (E / k.GeV - x.E[i]) / (x.E[j] - x.E[i]); V d(n); if (t[0]->GetUseOscillations()) for (unsigned m = 1; m < n; m++) d[m] = t[0]->Get_SquareMassDifference(m) / (2 * E);
        for (unsigned r = 0; r < nr; r++) { M s = (1 - fc) * ((1 - fe) * mat(t[z]->GetState(i, r)) + fe * mat(t[z]->GetState(j, r))) + fc * ((1 - fe) * mat(t[w]->GetState(i, r)) + fe * mat(t[w]->GetState(j, r)));
          for (unsigned f = 0; f < n; f++) for (double scale : {-1., 1e9, 2., 0.}) { M p = P[r][f]; if (x.basis != mass) p = turn(p, d, ti); bool border = false; if (scale >= 0 && x.basis != mass) for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < n; b++) { double ph = fabs((d[a] - d[b]) * ti); if (fabs(ph - scale) < 1e-6 * (1 + scale) && ph > 0) border = true; if (ph > scale) p(a, b) = 0; } if (border) continue;
            double want = 0; M q = s * p; for (unsigned a = 0; a < n; a++) want += q(a, a).real(); std::vector<bool> avr(n); double got = scale < 0 ? a->EvalFlavor(f, c, E, r) : a->EvalFlavor(f, c, E, r, scale, avr);
            CK("atm:value", fabs(got - want) <= 1e-8, log, ": flavor ", f, " at cosine ", c, " energy ", E / k.GeV, " rho ", r, scale < 0 ? "" : vc::cat(" averaged above ", scale), " is ", got, " instead of ", want); }
          // at a node, the node itself
          for (unsigned f = 0; f < n; f++) if ((c == x.cz[z] || c == x.cz[w]) && (E == x.E[i] * k.GeV || E == x.E[j] * k.GeV) && !partial()) { double b = t[c == x.cz[z] ? z : w]->EvalFlavorAtNode(f, E == x.E[i] * k.GeV ? i : j, r), g = a->EvalFlavor(f, c, E, r); CK("atm:atnode", fabs(b - g) <= 1e-7, log, ": flavor ", f, " at zenith cosine ", c, " energy ", E / k.GeV, " is ", g, " where the path has ", b); }
          if (c == x.cz[0]) for (unsigned f = 0; f < n; f++) { double lo = 1e9, hi = -1e9; for (int y = 0; y < 12; y++) { double g = a->EvalFlavor(f, c, E, r, true); CK("atm:height", std::isfinite(g), log, ": not finite"); lo = std::min(lo, g); hi = std::max(hi, g); } CK("atm:height", hi - lo < 1, log, ": production heights change the flavor by ", hi - lo); }
        } } }
  }
  // the clocks of the zeniths are not at the same part of their paths
  bool partial() { for (auto &q : t) { double p = (q->Get_t() - q->Get_t_initial()) / (q->GetTrack()->GetFinalX() - q->GetTrack()->GetInitialX()); double p0 = (t[0]->Get_t() - t[0]->Get_t_initial()) / (t[0]->GetTrack()->GetFinalX() - t[0]->GetTrack()->GetInitialX()); if (fabs(p - p0) > 1e-9) return true; } for (size_t z = 0; z < t.size(); z++) { auto tr = (e ? e : std::make_shared<EarthAtm>())->MakeTrackWithCosine(x.cz[z]); if (fabs(tr.GetFinalX() - tr.GetInitialX() - t[z]->GetTrack()->GetFinalX() + t[z]->GetTrack()->GetInitialX()) > 1 * k.cm) return true; } return false; }
};
static void run(Kind const &x, std::vector<int> const &seq) {
  if (!vc::begin()) return;
  std::string l = name(x); for (int i : seq) l += vc::cat(", ", OPS[i]);
  auto o = std::cout.rdbuf(); std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
  try { Pair p(x); for (int i : seq) p.apply(i); p.check(); if (p.valid() && (seq.empty() || seq.back() != EVOLVE)) { p.apply(EVOLVE); p.check(); } } catch (std::exception &e) { vc::fail("atm:exception", vc::cat(l, ": ", e.what())); }
  std::cout.rdbuf(o); for (const char *f : {"a", "b", "n"}) unlink(file(f).c_str());
}
int main(int argc, char **argv) {
  vc::init(argc, argv); bool th = vc::thorough(); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  std::vector<Kind> ks; V c3 = {-.9, -.2, .4}, c2 = {-.6, .1}, c1 = {-.3}, c5 = {-1, -.7, -.1, .2, 1};
  ks.push_back({both, 3, c3, {60, 90, 200}, false, false, interaction, 0, 0, false}); ks.push_back({neutrino, 4, c2, {80, 100, 150, 400}, false, false, interaction, 0, 0, false}); ks.push_back({antineutrino, 3, c3, {100, 300}, false, false, mass, 0, 0, false});
  ks.push_back({both, 3, c2, {100, 200, 400}, true, false, interaction, 0, 0, false}); ks.push_back({antineutrino, 4, c3, {150, 250}, true, false, interaction, 1, 3, false}); ks.push_back({both, 4, c2, {100, 250}, true, false, mass, 2, 1, false});
  ks.push_back({neutrino, 3, c1, {50, 200}, false, false, interaction, 0, 0, false}); ks.push_back({both, 3, c3, {120}, false, false, interaction, 0, 0, false}); ks.push_back({neutrino, 3, c2, {100}, false, true, interaction, 0, 0, false}); ks.push_back({both, 3, c5, {200, 500}, false, false, interaction, 0, 0, true});
  for (Kind const &x : ks) for (int l : {LATE, LATER}) for (auto s : std::vector<std::vector<int>>{{l, INITF}, {l, INITF, EVOLVE}, {l, INITM, EVOLVE, ANGLE}, {INITF, EVOLVE, l}, {l, INITF, EVOLVE, EVOLVE}, {l, INITF, EVOLVE, EARTH2}, {l, FAST, INITF, EVOLVE}, {l, INITF, OSC, EVOLVE}}) run(x, s);
  for (size_t i = 0; i < ks.size(); i++) {
    Kind const &x = ks[i]; auto ok = [&](int op) { return !(x.single && (op == THREADS || op == PROGRESS || op == XSEC || op == SRC)) && !(!x.inter && op == XSEC) && !(op == STORE && x.single && false); };
    for (int a = -1; a < NOPS; a++) { if (a >= 0 && !ok(a)) continue; for (int b = a < 0 ? -1 : 0; b < (a < 0 ? 0 : NOPS); b++) { if (b >= 0 && !ok(b)) continue;
      std::vector<int> s; if (a >= 0) { s.push_back(a); s.push_back(b); }
      auto with = [&](std::vector<int> p) { p.insert(p.end(), s.begin(), s.end()); run(x, p); };
      int z = a * NOPS + b; if (th || a == INITF || b == INITF || (z + i) % 5 == 0) with({}); if (th || (z + i) % 2 == 0 || a < 0) with({INITF}); with({INITF, EVOLVE}); if (th || x.inter) if (th || (z + i) % 2 == 0) with({INITM, EVOLVE, a == EVOLVE ? OSC : THREADS});
      if (th) for (int c = 0; c < NOPS; c++) if (ok(c) && a >= 0) { s.push_back(c); if ((z + c) % 3 == int(i % 3)) with({INITF, EVOLVE}); s.pop_back(); }
    } }
  }
  return vc::finish();
}

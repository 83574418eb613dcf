// An object moved elsewhere at any point of a history goes on exactly as one
// which stays; the place it left, and a place it replaces, stay safe to use.
#include "vc.hpp"
#include "inter.hpp"
#include "objs.hpp"
#include <hdf5.h>

struct Mode { bool tau, gr, osc, src, pos, fast, filter, bar; };
static std::string name(Mode const &m) { return vc::cat(m.osc ? "" : " frozen", m.tau ? " tau" : "", m.gr ? " resonance" : "", m.src ? " sources" : "", m.pos ? " positive" : "", m.fast ? " shortcut" : "", m.filter ? " filter" : "", m.bar ? " progress" : ""); }
static const int WAYS = 14, STEPS = 6;
struct Case { Cfg c; Mode m; int hist, way, med, cont; };
static std::string name(Case const &x) {
  static const char *w[WAYS] = {"constructed from it", "assigned to a new object", "assigned to a single-energy object", "assigned to one with interactions", "assigned to one with five flavors", "assigned to one never evolved", "assigned to a frozen one", "assigned to one with one node", "swapped with one with interactions", "swapped with a single-energy one", "in a growing vector", "moved twice and back", "assigned to itself", "assigned over one which was read from a file"};
  static const char *h[] = {"before the initial state", "before evolving", "after a segment", "after two segments", "with the next segment set", "read from a file"}; return vc::cat(name(x.c), name(x.m), " medium ", x.med, ", ", h[x.hist], " ", w[x.way], " continuing ", x.cont);
}
static Q fresh(Cfg const &c) {
  if (c.single) return std::make_shared<Open>(c.n, c.nt);
  V E = energies(c.ne); marray<double, 1> e{E.size()}; for (size_t i = 0; i < E.size(); i++) e[i] = E[i];
  return std::make_shared<Open>(e, c.n, c.nt, c.inter, library(c.targets, c.set));
}
static void modes(Open &q, Cfg const &c, Mode const &m) {
  q.Set_IncludeOscillations(m.osc); q.Set_NeutrinoSources(m.src); q.Set_PositivityConstrain(m.pos); if (m.pos) q.Set_PositivityConstrainStep(90 * k.km); q.Set_AllowConstantDensityOscillationOnlyEvolution(m.fast); q.Set_ProgressBar(m.bar);
  if (m.filter) { q.Set_EvolLowPassCutoff(.002 / k.km); q.Set_EvolLowPassScale(.004 / k.km); } if (c.inter) { q.Set_TauRegeneration(m.tau); q.Set_GlashowResonance(m.gr); }
}
static void next(Open &q, int med, double a, double b) { q.Set_Body(medium(med)); q.Set_Track(std::make_shared<ConstantDensity::Track>(a, b)); }
// An object with the given past.
static Q past(Case const &x) {
  Q q = fresh(x.c); q->extra = 3; q->Set_Basis(x.c.basis); q->Set_rel_error(1e-4); q->Set_abs_error(1e-6); q->Set_h(7 * k.km); apply(*q, params(x.c.n, 1)); modes(*q, x.c, x.m); if (x.c.single) q->Set_E(4 * k.GeV);
  double a = 200 * k.km, b = 650 * k.km, d = 900 * k.km; if (x.hist == 0) return q; next(*q, x.med, a, b);
  if (x.c.single) { marray<double, 1> v{(size_t)x.c.n}; for (int i = 0; i < x.c.n; i++) v[i] = .2 + i; q->Set_initial_state(v); } else fill(*q);
  if (x.hist == 1) return q; q->EvolveState(); if (x.hist == 3) { next(*q, 4, b, d); q->EvolveState(); } if (x.hist == 4) next(*q, x.med, a, b);
  if (x.hist == 5) { Quiet z; std::string f = file("m"); q->WriteStateHDF5(f); Q r = std::make_shared<Open>(f); unlink(f.c_str()); r->Set_rel_error(1e-4); r->Set_abs_error(1e-6); r->Set_NeutrinoSources(x.m.src); return r; }
  return q;
}
// One step further.
static void step(Open &q, Case const &x, int i) {
  int s = (i + x.cont) % STEPS; if (i == 0) s = 0;
  if (s == 0) { if (x.hist == 0) { next(q, x.med, 0, 300 * k.km); if (x.c.single) { marray<double, 1> v{(size_t)x.c.n}; for (int j = 0; j < x.c.n; j++) v[j] = .3 + j; q.Set_initial_state(v); } else fill(q); } else if (x.hist != 1 && x.hist != 4) next(q, 1, 300 * k.km, 800 * k.km); q.EvolveState(); }
  if (s == 1) { next(q, 4, 100 * k.km, 500 * k.km); q.EvolveState(); }
  if (s == 2) { q.Set_IncludeOscillations(!q.GetUseOscillations()); next(q, 2, 500 * k.km, 100 * k.km); q.EvolveState(); }
  if (s == 3) { if (x.c.inter && x.hist != 5 && x.c.nt == both) q.Set_TauRegeneration(!x.m.tau); q.Set_NeutrinoSources(!x.m.src); q.EvolveState(); }
  if (s == 4) { q.Set_MixingAngle(0, 1, .4); next(q, 3, 0, 200 * k.km); if (x.c.single) { q.Set_E(5 * k.GeV); marray<double, 1> v{(size_t)x.c.n}; for (int j = 0; j < x.c.n; j++) v[j] = .1 + j; q.Set_initial_state(v); } else fill(q); q.EvolveState(); }
  if (s == 5) { Quiet z; std::string f = file("n"); q.WriteStateHDF5(f, "/", true); q.ReadStateHDF5(f); unlink(f.c_str()); }
}
// Calls on an object whose content was taken: each is refused or does nothing.
static void remains(std::string const &id, Open &q) {
  unsigned n = q.GetNumNeu();
  CK("move:remains", throws([&] { q.EvolveState(); }), id, ": the place it left can still be evolved");
  std::vector<std::function<void()>> f = {[&] { q.EvalFlavorAtNode(0, 0, 0); }, [&] { q.EvalMassAtNode(0, 0, 0); }, [&] { q.EvalFlavor(0, 5 * k.GeV, 0); }, [&] { q.EvalMass(0, 5 * k.GeV, 0); }, [&] { std::vector<bool> a(n); q.EvalFlavor(0, 5 * k.GeV, 0, 1., a); }, [&] { std::vector<bool> a(n); q.EvalMass(0, 5 * k.GeV, 0, 1., a); }, [&] { q.EvalFlavor(0); }, [&] { q.EvalMass(0); }, [&] { std::vector<bool> a(n); q.EvalFlavor(0, 1., a); }, [&] { q.GetHamiltonian(0, 0); }, [&] { q.WriteStateHDF5(file("x")); }, [&] { q.Set_E(3 * k.GeV); }, [&] { q.InitializeInteractions(); }, [&] { q.GetInteractionStructure(); }, [&] { fill(q); }, [&] { marray<double, 1> v{n}; std::fill(v.begin(), v.end(), 1); q.Set_initial_state(v); }};
  for (size_t i = 0; i < f.size(); i++) CK("move:remains", throws(f[i]), id, ": call ", i, " on the place it left is not refused");
  throws([&] { q.GetERange(); q.GetNumE(); q.GetNumNeu(); q.GetNumRho(); q.GetTrack(); q.GetBody(); q.Set_IncludeOscillations(!q.GetUseOscillations()); });
  throws([&] { q.Set_TauRegeneration(true); }); throws([&] { q.Set_GlashowResonance(true); }); throws([&] { q.Set_MixingAngle(0, 1, .1); q.Set_SquareMassDifference(1, 2e-5); q.Set_CPPhase(0, 1, .3); q.Set_Basis(mass); }); throws([&] { q.Set_NeutrinoSources(true); });
  unlink(file("x").c_str());
}
static void run(Case const &x) {
  if (!vc::begin()) return;
  std::string id = name(x), why; std::ostringstream oa, ob;
  try {
    Q stays = past(x), goes = past(x), second, other, otherstays; std::vector<Open> vec;
    Open *p = goes.get(), *left = goes.get();
    auto onto = [&](Q o) { second = o; *second = std::move(*goes); p = second.get(); };
    switch (x.way) {
    case 0: second = std::make_shared<Open>(std::move(*goes)); p = second.get(); break;
    case 1: onto(used(0)); break; case 2: onto(used(1)); break; case 3: onto(used(2)); break; case 4: onto(used(3)); break; case 5: onto(used(4)); break; case 6: onto(used(5)); break; case 7: onto(used(6)); break;
    case 8: case 9: second = used(x.way == 8 ? 2 : 1); otherstays = used(x.way == 8 ? 2 : 1); std::swap(*second, *goes); p = second.get(); other = goes; left = nullptr; break;
    case 10: vec.push_back(std::move(*goes)); for (int i = 0; i < 4; i++) vec.push_back(std::move(*used(i))); p = &vec[0]; break;
    case 11: { Open t(std::move(*goes)), u; u = std::move(t); *goes = std::move(u); left = nullptr; break; }
    case 12: { Open &r = *goes; *goes = std::move(r); left = nullptr; break; }
    default: { Case y = x; y.hist = 5; y.c = Cfg{both, 3, 3, interaction, 0, 0, true, false, 3}; y.m = Mode{true, true, true}; y.med = 1; onto(past(y)); }
    }
    vc::transition();
    CK("move:content", view(*stays) == view(*p), id, ": differs after the move");
    // what stays has settings of its own
    if (left) remains(id, *left);
    if (left && left != p) CK("move:shared", view(*stays) == view(*p), id, ": changed by using the place it left");
    for (int i = 0; i < (vc::thorough() ? 6 : 4); i++) {
      std::string a, b; { auto o = std::cout.rdbuf(oa.rdbuf()); try { step(*stays, x, i); } catch (std::exception &e) { a = e.what(); } std::cout.rdbuf(ob.rdbuf()); try { step(*p, x, i); } catch (std::exception &e) { b = e.what(); } std::cout.rdbuf(o); }
      vc::transition(); CK("move:refusal", a == b, id, " step ", i, ": ", b.empty() ? "works" : b, " instead of ", a.empty() ? "working" : a); if (a != "") throw std::logic_error(vc::cat("step ", i, ": ", a));
      if (view(*stays) != view(*p)) { vc::fail("move:evolution", vc::cat(id, ": differs after step ", i)); break; }
      if (i == 1 && left && left != p && x.way != 10) { // the place it left holds another object
        *left = std::move(*used(2)); CK("move:reuse", view(*left) == view(*used(2)), id, ": the place it left does not take another object"); CK("move:shared", view(*stays) == view(*p), id, ": changed by what replaced it"); left = nullptr; } }
    CK("move:output", oa.str() == ob.str(), id, ": prints ", ob.str().size(), " characters instead of ", oa.str().size());
    if (other) { CK("move:swapped", view(*other) == view(*otherstays), id, ": the object it changed places with differs"); for (Q q : {other, otherstays}) { next(*q, 1, 0, 100 * k.km); q->EvolveState(); } CK("move:swapped", view(*other) == view(*otherstays), id, ": the object it changed places with goes on differently"); }
    vc::trace(); vc::state(id); double c = stays->EvalFlavorAtNode(0, 0, 0); vc::outcome(vc::cat(std::round(c * 1e6))); vc::sample(vc::cat(id, ": electron component ", c, " in both"));
  } catch (std::exception &e) { vc::fail("move:exception", vc::cat(id, ": ", e.what())); }
}
// The tables as values.
template <class T> struct Field { std::string n; std::function<void(T &)> change; };
template <class A> struct Rank;
template <class T, unsigned R, class A> struct Rank<marray<T, R, A>> { static const unsigned value = R; };
template <class T, class A> static void fields(std::vector<Field<T>> &v, std::string n, A T::*m) {
  v.push_back({n, [m](T &t) { *(t.*m).begin() += 1; }}); v.push_back({n + " end", [m](T &t) { auto l = (t.*m).end(); --l; *l += 1; }});
  v.push_back({n + " size", [m](T &t) { std::vector<size_t> e; for (unsigned i = 0; i < Rank<A>::value; i++) e.push_back((t.*m).extent(i) + (i == 0)); (t.*m).resize(e); }});
  v.push_back({n + " none", [m](T &t) { std::vector<size_t> e(Rank<A>::value, 0); (t.*m).resize(e); }});
}
template <class A> static void stamp(A &a, std::initializer_list<size_t> e, double s) { a.resize(std::vector<size_t>(e)); double i = 0; for (double &x : a) x = s + .5 * i++; }
typedef nuSQUIDS::InteractionStructure IS; typedef nuSQUIDS::InteractionState IT;
static IS is(size_t t, size_t r, size_t n, double s) { IS x; for (size_t i = 0; i < t; i++) x.targets.push_back(i ? neutron : proton); stamp(x.dNdE_CC, {t, r, 3, n, n}, s); stamp(x.dNdE_NC, {t, r, 3, n, n}, s + 1); stamp(x.dNdE_GR, {n, n}, s + 2); stamp(x.sigma_CC, {t, r, 3, n}, s + 3); stamp(x.sigma_NC, {t, r, 3, n}, s + 4); stamp(x.sigma_GR, {n}, s + 5); stamp(x.dNdE_tau_all, {r, n, n}, s + 6); stamp(x.dNdE_tau_lep, {r, n, n}, s + 7); return x; }
static IT it(size_t, size_t r, size_t n, double s) { IT x; stamp(x.invlen_CC, {r, 3, n}, s); stamp(x.invlen_NC, {r, 3, n}, s + 1); stamp(x.invlen_GR, {n}, s + 2); stamp(x.invlen_INT, {r, 3, n}, s + 3); return x; }
template <class A> static void cont(std::string &s, A const &a) { for (unsigned i = 0; i < Rank<A>::value; i++) s += vc::cat(a.extent(i), " "); for (double x : a) put(s, x); }
static std::string cont(IS const &x) { std::string s; for (auto t : x.targets) s += vc::cat(t, ","); cont(s, x.dNdE_CC); cont(s, x.dNdE_NC); cont(s, x.dNdE_GR); cont(s, x.sigma_CC); cont(s, x.sigma_NC); cont(s, x.sigma_GR); cont(s, x.dNdE_tau_all); cont(s, x.dNdE_tau_lep); return s; }
static std::string cont(IT const &x) { std::string s; cont(s, x.invlen_CC); cont(s, x.invlen_NC); cont(s, x.invlen_GR); cont(s, x.invlen_INT); return s; }
template <class T> static void values(const char *what, T (*mk)(size_t, size_t, size_t, double), std::vector<Field<T>> const &fs) {
  struct S { size_t t, r, n; double s; }; std::vector<S> all; for (size_t t : {1, 2}) for (size_t r : {1, 2}) for (size_t n : {2, 3, 5}) all.push_back({t, r, n, 10.}); all.push_back({1, 1, 2, 20});
  auto get = [&](int i) { return i < 0 ? T() : mk(all[i].t, all[i].r, all[i].n, all[i].s); };
  auto two = [&](std::string id, T const &a, T const &b, bool eq) { CK("tables:equal", (a == b) == eq && (b == a) == eq && (a != b) == !eq && (b != a) == !eq, id, ": ", eq ? "not equal" : "equal"); };
  for (int i = -1; i < int(all.size()); i++) {
    for (auto &f : fs) if (i >= 0 && vc::begin()) { T a = get(i), b = get(i); two(vc::cat(what, i), a, b, true); f.change(b); std::string id = vc::cat(what, i, " with another ", f.n); two(id, a, b, cont(a) == cont(b)); T c(b); two(id, b, c, true); two(id, a, c, cont(a) == cont(b)); vc::transition(2); vc::state(id); vc::outcome(id); }
    for (int j = -1; j < int(all.size()); j++) for (int w = 0; w < 6; w++) if (vc::begin()) {
      T a = get(i), b = get(j); std::string ca = cont(a), cb = cont(b), id = vc::cat(what, " ", i, " over ", j, " way ", w); two(id, a, b, ca == cb);
      switch (w) {
      case 0: { const T &r = a; b = r; CK("tables:copy", cont(a) == ca && cont(b) == ca, id, ": the copy differs"); if (i >= 0) { fs[0].change(b); CK("tables:apart", cont(a) == ca, id, ": the copy shares its content"); } break; }
      case 1: { T c(a); CK("tables:copy", cont(a) == ca && cont(c) == ca, id, ": the copy differs"); if (i >= 0) { fs[0].change(c); CK("tables:apart", cont(a) == ca, id); } break; }
      case 2: b = std::move(a); CK("tables:move", cont(b) == ca, id, ": differs"); a = get(j); CK("tables:reuse", cont(a) == cb && cont(b) == ca, id); break;
      case 3: { T c(std::move(a)); CK("tables:move", cont(c) == ca, id, ": differs"); a = b; CK("tables:reuse", cont(a) == cb && cont(b) == cb && cont(c) == ca, id); break; }
      case 4: std::swap(a, b); CK("tables:swap", cont(a) == cb && cont(b) == ca, id); break;
      default: { T &r = a; a = r; CK("tables:self", cont(a) == ca, id); std::vector<T> v; v.push_back(a); v.push_back(b); v.insert(v.begin(), b); CK("tables:vector", cont(v[0]) == cb && cont(v[1]) == ca && cont(v[2]) == cb, id); }
      }
      vc::transition(2); vc::state(id); vc::outcome(vc::cat(what, w, ca == cb));
    }
  }
}
int main(int argc, char **argv) {
  vc::init(argc, argv); bool th = vc::thorough(); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  std::vector<Cfg> cs; for (NeutrinoType nt : {both, neutrino, antineutrino}) for (Basis b : {interaction, mass}) { for (int n : {3, 4}) { cs.push_back({nt, n, 3, b, 0, 0, false, false, 3}); cs.push_back({nt, n, nt == both ? 4 : 3, b, n == 3 ? 0 : 1, 0, true, false, 3}); } if (nt != both) cs.push_back({nt, 3, 1, b, 0, 0, false, true, 3}); }
  std::vector<Mode> ms = {{false, false, true}, {false, false, false}, {true, true, true}, {true, true, false}, {true, false, true, true}, {false, true, false, true}, {false, false, true, false, true}, {false, false, true, true, false, true}, {false, false, true, false, false, true}, {false, false, true, false, false, false, true}, {true, false, false, false, true, false, false, true}};
  int z = 0;
  for (auto &c : cs) for (auto m : ms) {
    if (!c.inter && (m.tau || m.gr)) continue; if (c.nt != both) m.tau = false;
    for (int h = 0; h < 6; h++) for (int w = 0; w < WAYS; w++) { int med = (z / 3) % 5, cont = (z / 7) % STEPS; z++; if (!th && (z * 7 / 3) % 3 && w != h) continue; if (m.fast && med == 4) med = 1; if (!th) run({c, m, h, w, med, cont}); else for (int k = 0; k < STEPS; k++) run({c, m, h, w, med, k}); }
  }
  std::vector<Field<IS>> f; fields(f, "CC spectra", &IS::dNdE_CC); fields(f, "NC spectra", &IS::dNdE_NC); fields(f, "resonant spectra", &IS::dNdE_GR); fields(f, "CC totals", &IS::sigma_CC); fields(f, "NC totals", &IS::sigma_NC); fields(f, "resonant totals", &IS::sigma_GR); fields(f, "tau spectra", &IS::dNdE_tau_all); fields(f, "leptonic spectra", &IS::dNdE_tau_lep);
  f.push_back({"target", [](IS &t) { t.targets[0] = isoscalar_nucleon; }}); f.push_back({"number of targets", [](IS &t) { t.targets.push_back(proton); }}); f.push_back({"no targets", [](IS &t) { t.targets.clear(); }});
  std::vector<Field<IT>> g; fields(g, "CC lengths", &IT::invlen_CC); fields(g, "NC lengths", &IT::invlen_NC); fields(g, "resonant lengths", &IT::invlen_GR); fields(g, "lengths", &IT::invlen_INT);
  values<IS>("tables", is, f); values<IT>("lengths", it, g);
  return vc::finish();
}

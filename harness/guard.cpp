// Every sequence of calls up to a depth, in any order, against a small model
// of what an object has been told: which calls are refused, that a refused
// call changes nothing, and the composition after the others.
#include "vc.hpp"
#include "inter.hpp"
#include "objs.hpp"
#include <hdf5.h>

// what an object is
struct Kind { NeutrinoType nt; int n, ne; bool single, inter; Basis basis; };
static const std::vector<Kind> KINDS = {{neutrino, 3, 1, true, false, interaction}, {antineutrino, 4, 1, true, false, mass}, {both, 3, 2, false, false, interaction}, {neutrino, 4, 3, false, false, mass}, {antineutrino, 3, 1, false, false, interaction}, {both, 3, 2, false, true, interaction}, {antineutrino, 4, 2, false, true, mass}, {both, 3, 3, false, true, mass}, {both, 5, 2, false, false, interaction}};
static const char *OPS[] = {"body 1", "body 2", "track 1", "track 2", "energy 1", "energy 2", "flavor state", "mass state", "angles", "defaults", "evolve", "oscillations", "move", "move onto another", "store and restore", "tables", "regeneration", "resonance", "cross sections", "failed restore", "same track", "phase", "mass difference"};
enum { BODY1, BODY2, TRACK1, TRACK2, E1, E2, FLAV, MASS, ANGLES, DEFAULTS, EVOLVE, OSC, MOVE, MOVEONTO, STORE, TABLES, TAU, GR, XSEC, FAILED, SAME, PHASE, DM, NOPS };
// what it has been told
struct Told { bool dead = false, body = false, track = false, energy = false, state = false, osc = true, tau = false, gr = false, defaults = true; int med = 0, tr = 0, e = 0, par = 0; };
static bool allowed(Kind const &k, Told const &t, int op) {
  if (op == E1 || op == E2) return k.single && !t.dead;
  if (t.dead) return op == BODY1 || op == BODY2 || op == TRACK1 || op == TRACK2 || op == MOVE || op == MOVEONTO || op == FAILED;
  switch (op) {
  case FLAV: case MASS: return t.body && t.track && t.energy;
  case EVOLVE: case STORE: return t.body && t.track && t.energy && t.state;
  case SAME: return t.track;
  case TABLES: case XSEC: return k.inter; case TAU: return k.inter && k.nt == both; case GR: return k.inter;
  }
  return true;
}
static void tell(Told &t, int op) {
  switch (op) {
  case BODY1: t.body = true; t.med = 1; break; case BODY2: t.body = true; t.med = 2; break;
  case TRACK1: t.track = true; t.tr = 1; break; case TRACK2: t.track = true; t.tr = 2; break;
  case E1: t.energy = true; t.state = false; t.e = 1; break; case E2: t.energy = true; t.state = false; t.e = 2; break;
  case FLAV: case MASS: t.state = true; break;
  case ANGLES: case DEFAULTS: case PHASE: case DM: t.state = false; break;
  case OSC: t.osc = !t.osc; break; case TAU: t.tau = !t.tau; break; case GR: t.gr = !t.gr; break;
  case FAILED: t = Told(); t.dead = true; break;
  }
}
static const double LEN[3] = {0, 400, 250}, START[3] = {0, 0, 600};
struct Obj {
  Kind k; Told t; Q q; Par now, in; std::vector<std::vector<M>> s; V E; std::string log; std::shared_ptr<CrossSectionLibrary> lib; double w;
  explicit Obj(Kind const &k) : k(k), now(params(k.n, 0)), in(now), lib(k.inter ? library(k.n % 2, 0) : nullptr), w(.3) {
    if (k.single) q = std::make_shared<Open>(k.n, k.nt); else { V v; for (int i = 0; i < k.ne; i++) v.push_back(3 + 2 * i); q = std::make_shared<Open>(nodes(v), k.n, k.nt, k.inter, lib); for (double x : v) E.push_back(x * nq::k.GeV); t.energy = true; }
    setup(*q); log = vc::cat(k.nt == both ? "both" : k.nt == neutrino ? "nu" : "antinu", " n=", k.n, " ", k.single ? "single" : vc::cat(k.ne, " energies"), k.inter ? " interacting" : "", k.basis == mass ? " mass basis" : "");
  }
  void setup(Open &q) { q.Set_Basis(k.basis); q.Set_AllowConstantDensityOscillationOnlyEvolution(true); q.Set_rel_error(1e-5); q.Set_abs_error(1e-7); q.Set_h(30 * nq::k.km); }
  int nr() const { return k.nt == both ? 2 : 1; }
  bool anti(int r) const { return k.nt == antineutrino || (k.nt == both && r); }
  static std::shared_ptr<Src> med(int m) { return m == 1 ? std::make_shared<Src>(4, .45) : std::make_shared<Src>(9, .52); }
  void initial(Basis b) {
    unsigned n = k.n, ne = k.ne; auto f = [&](int e, int r, int j) { return w + .2 * j + .1 * e + .05 * r; };
    if (k.single) { marray<double, 1> v{n}; for (unsigned j = 0; j < n; j++) v[j] = f(0, 0, j); q->Set_initial_state(v, b); }
    else if (nr() == 1) { marray<double, 2> v{ne, n}; for (unsigned e = 0; e < ne; e++) for (unsigned j = 0; j < n; j++) v[e][j] = f(e, 0, j); q->Set_initial_state(v, b); }
    else { marray<double, 3> v{ne, 2, n}; for (unsigned e = 0; e < ne; e++) for (int r = 0; r < 2; r++) for (unsigned j = 0; j < n; j++) v[e][r][j] = f(e, r, j); q->Set_initial_state(v, b); }
    s.assign(ne, {}); in = now; for (unsigned e = 0; e < ne; e++) for (int r = 0; r < nr(); r++) { M m(n); for (unsigned j = 0; j < n; j++) m(j, j) = f(e, r, j); if (b == mass) { M u = in.u(anti(r)); m = u * m * u.dag(); } s[e].push_back(m); } w += .1;
  }
  void apply(int op) {
    const double km = nq::k.km;
    switch (op) {
    case BODY1: q->Set_Body(med(1)); break; case BODY2: q->Set_Body(med(2)); break;
    case TRACK1: q->Set_Track(std::make_shared<ConstantDensity::Track>(0, 400 * km)); break; case TRACK2: q->Set_Track(std::make_shared<ConstantDensity::Track>(600 * km, 850 * km)); break; case SAME: q->Set_Track(q->GetTrack()); break;
    case E1: q->Set_E(3 * nq::k.GeV); E = {3 * nq::k.GeV}; break; case E2: q->Set_E(8 * nq::k.GeV); E = {8 * nq::k.GeV}; break;
    case FLAV: initial(flavor); break; case MASS: initial(mass); break;
    case ANGLES: now.th[0][1] += .2; now.th[1][2] -= .1; q->Set_MixingAngle(0, 1, now.th[0][1]); q->Set_MixingAngle(1, 2, now.th[1][2]); break;
    case PHASE: now.de[0][k.n - 1] += .7; q->Set_CPPhase(0, k.n - 1, now.de[0][k.n - 1]); break;
    case DM: now.dm[k.n - 1] = now.dm[k.n - 1] ? now.dm[k.n - 1] * .5 : .001; q->Set_SquareMassDifference(k.n - 1, now.dm[k.n - 1]); break;
    case DEFAULTS: { Par d = params(k.n, 0); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) now.th[j][i] = d.th[j][i]; now.dm[1] = d.dm[1]; now.dm[2] = d.dm[2]; now.de[0][2] = 0; q->Set_MixingParametersToDefault(); break; }
    case EVOLVE: q->EvolveState(); if (!k.inter) { auto m = med(t.med); for (int e = 0; e < k.ne; e++) for (int r = 0; r < nr(); r++) s[e][r] = propagate(in, E[e], *m, 0, LEN[t.tr] * km, anti(r), s[e][r], !t.osc); } break;
    case OSC: q->Set_IncludeOscillations(!t.osc); break;
    case MOVE: q = std::make_shared<Open>(std::move(*q)); break; case MOVEONTO: { Q o = used(2); *o = std::move(*q); q = o; break; }
    case STORE: { Quiet z; std::string f = file("g"); q->WriteStateHDF5(f); q = std::make_shared<Open>(f); unlink(f.c_str()); q->Set_AllowConstantDensityOscillationOnlyEvolution(true); q->Set_rel_error(1e-5); q->Set_abs_error(1e-7); break; }
    case TABLES: q->InitializeInteractions(); break; case TAU: q->Set_TauRegeneration(!t.tau); break; case GR: q->Set_GlashowResonance(!t.gr); break; case XSEC: q->SetNeutrinoCrossSections(lib = library(k.n % 2, 1)); break;
    case FAILED: { std::string f = file("g"); hid_t h = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); H5Fclose(h); bool no = throws([&] { q->ReadStateHDF5(f); }); unlink(f.c_str()); CK("order:refused", no, log, ": an empty file is read"); break; }
    }
    tell(t, op); log += vc::cat(", ", OPS[op]); vc::transition();
  }
  std::string view() {
    std::string s; unsigned n = q->GetNumNeu(), ne = q->GetNumE(), nr = q->GetNumRho(); for (double v : {double(n), double(ne), double(nr), double(q->GetUseInteractions()), double(q->GetUseOscillations()), double(q->Get_NeutrinoSources())}) put(s, v);
    if (!t.dead) { put(s, q->Get_t()); put(s, q->Get_t_initial()); for (unsigned j = 1; j < n; j++) { put(s, q->Get_SquareMassDifference(j)); for (unsigned i = 0; i < j; i++) { put(s, q->Get_MixingAngle(i, j)); put(s, q->Get_CPPhase(i, j)); } } for (double v : q->GetERange()) put(s, v);
      for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < nr; r++) { auto &v = q->GetState(e, r); for (unsigned i = 0; i < v.Size(); i++) put(s, v[i]); for (unsigned f = 0; f < n; f++) { auto &p = q->GetFlavorProj(f, r); for (unsigned i = 0; i < p.Size(); i++) put(s, p[i]); } } }
    if (t.track) { put(s, q->GetTrack()->GetX()); put(s, q->GetTrack()->GetInitialX()); put(s, q->GetTrack()->GetFinalX()); } s += vc::cat(q->GetTrack().get(), q->GetBody().get()); return s;
  }
  void check(unsigned part, unsigned of) {
    const double km = nq::k.km, GeV = nq::k.GeV; (void)km;
    unsigned n = k.n, ne = k.ne, nr = this->nr(); Open &o = *q; const unsigned big[] = {1000000u, ~0u};
    // what has been told is reported
    if (!t.dead) { CK("order:told", o.GetNumNeu() == n && o.GetNumE() == ne && o.GetNumRho() == nr && o.GetUseOscillations() == t.osc && o.GetUseInteractions() == k.inter, log); CK("order:told", bool(o.GetBody()) == t.body && bool(o.GetTrack()) == t.track, log, ": body or track");
      if (t.energy) { auto r = o.GetERange(); CK("order:told", r.size() == ne && std::equal(E.begin(), E.end(), r.begin()), log, ": energies"); }
      for (unsigned j = 1; j < n; j++) { CK("order:parameters", o.Get_SquareMassDifference(j) == now.dm[j], log, ": mass difference ", j); for (unsigned i = 0; i < j; i++) CK("order:parameters", o.Get_MixingAngle(i, j) == now.th[i][j] && o.Get_CPPhase(i, j) == now.de[i][j], log, ": angle or phase ", i, j, " are ", o.Get_MixingAngle(i, j), " ", o.Get_CPPhase(i, j)); } }
    // the composition
    bool known = t.energy && t.state;
    if (known) for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < nr; r++) { M u = in.u(anti(r)); M m = u.dag() * s[e][r] * u;
      for (unsigned f = 0; f < n; f++) { double a = o.EvalFlavorAtNode(f, e, r), b = o.EvalMassAtNode(f, e, r);
        if (k.inter) CK("order:finite", std::isfinite(a) && std::isfinite(b), log, ": not finite"); else { CK("order:flavor", fabs(a - s[e][r](f, f).real()) <= 1e-7, log, ": flavor ", f, " at node ", e, " rho ", r, " is ", a, " instead of ", s[e][r](f, f).real()); CK("order:mass", fabs(b - m(f, f).real()) <= 1e-7, log, ": mass state ", f, " at node ", e, " rho ", r, " is ", b, " instead of ", m(f, f).real()); }
        if (ne > 1) { double a1 = o.EvalFlavor(f, E[e], r); CK("order:node", fabs(a - a1) <= 1e-9, log, ": flavor ", f, " at the energy of node ", e, " is ", a1, " instead of ", a); a1 = o.EvalMass(f, E[e], r); CK("order:node", fabs(b - a1) <= 1e-9, log, ": mass state ", f, " at the energy of node ", e, " is ", a1, " instead of ", b); }
        else if (k.single) CK("order:node", o.EvalFlavor(f) == a && o.EvalMass(f) == b, log, ": single values"); } }
    // refused calls
    std::string before = view(), which; std::vector<bool> avr(n), bad(n + 1), none;
    unsigned turn = 0; // after longer sequences, a part of the calls
    auto no = [&](bool refuse, const char *what, std::function<void()> f) { if ((turn++ + part) % of) return; bool r = true; try { f(); r = false; } catch (std::exception &) {} if (refuse) { CK("order:accepted", r, log, ": ", what, " is not refused"); if (!r && which.empty()) which = what; } };
    std::vector<std::pair<unsigned, bool>> flv, nod, rh; for (unsigned f : {0u, n - 1}) flv.push_back({f, true}); for (unsigned f : {n, n + 1, big[0], big[1]}) flv.push_back({f, false}); nod = {{0, true}, {ne - 1, true}, {ne, false}, {ne + 5, false}, {big[1], false}}; rh = {{0, true}, {1, nr == 2}, {2, false}, {big[1], false}};
    for (auto f : flv) for (auto e : nod) for (auto r : rh) { bool in = f.second && e.second && r.second && known; if (in) continue; if (!f.second + !e.second + !r.second > 1) continue; vc::eval(); no(true, "a flavor at a node", [&] { o.EvalFlavorAtNode(f.first, e.first, r.first); }); no(true, "a mass state at a node", [&] { o.EvalMassAtNode(f.first, e.first, r.first); }); }
    double lo = t.energy ? E[0] : GeV, hi = t.energy ? E[ne - 1] : 2 * GeV; const double en[] = {lo, hi, (lo + hi) / 2, lo * (1 - 1e-9), hi * (1 + 1e-9), 0, -lo, NAN, INFINITY};
    for (auto f : flv) for (int e = 0; e < 9; e++) for (auto r : rh) { bool in = f.second && r.second && known && e < 3 && ne > 1; if (in || !f.second + (e > 2) + !r.second > 1) continue; if (!(e > 2 || !f.second || !r.second) && ne == 1 && known) continue; no(true, "a flavor at an energy", [&] { o.EvalFlavor(f.first, en[e], r.first); }); no(true, "a mass state at an energy", [&] { o.EvalMass(f.first, en[e], r.first); }); no(true, "an averaged flavor", [&] { o.EvalFlavor(f.first, en[e], r.first, 1., avr); }); no(true, "an averaged mass state", [&] { o.EvalMass(f.first, en[e], r.first, 1., avr); }); }
    if (known && ne > 1) for (auto *v : {&bad, &none}) { no(true, "averages of another size", [&] { o.EvalFlavor(0, lo, 0, 1., *v); }); no(true, "averages of another size", [&] { o.EvalMass(0, lo, 0, 1., *v); }); }
    for (auto f : flv) if (!(known && f.second && ne == 1)) { no(true, "a flavor", [&] { o.EvalFlavor(f.first); }); no(true, "a mass state", [&] { o.EvalMass(f.first); }); no(true, "an average", [&] { o.EvalFlavor(f.first, 1., avr); }); no(true, "an average", [&] { o.EvalMass(f.first, 1., avr); }); }
    if (known && ne == 1) for (auto *v : {&bad, &none}) { no(true, "single averages of another size", [&] { o.EvalFlavor(0, 1., *v); }); no(true, "single averages of another size", [&] { o.EvalMass(0, 1., *v); }); }
    if (!(t.body && t.track && known)) { no(true, "evolving", [&] { o.EvolveState(); }); no(true, "storing", [&] { Quiet z; o.WriteStateHDF5(file("g")); }); unlink(file("g").c_str()); }
    if (!(t.body && t.track && t.energy)) no(true, "the Hamiltonian", [&] { o.GetHamiltonian(0, 0); }); else for (auto e : nod) for (auto r : rh) if (!(e.second && r.second)) no(true, "a Hamiltonian of no node", [&] { o.GetHamiltonian(e.first, r.first); });
    if (ne != 1 || t.dead) no(true, "a single energy", [&] { o.Set_E(2 * GeV); });
    // initial states of every wrong shape
    bool ready = t.body && t.track && t.energy && !t.dead;
    for (unsigned a : {0u, n - 1, n, n + 1, ne}) { bool ok = ready && ne == 1 && nr == 1 && a == n; if (!ok) no(true, "an initial state of rank 1", [&] { marray<double, 1> v{a}; std::fill(v.begin(), v.end(), 1); o.Set_initial_state(v); }); }
    for (unsigned a : {0u, ne - 1, ne, ne + 1}) for (unsigned b : {0u, n - 1, n, n + 1, 2u}) { bool ok = ready && nr == 1 && a == ne && b == n; if (!ok) no(true, "an initial state of rank 2", [&] { marray<double, 2> v{a, b}; std::fill(v.begin(), v.end(), 1); o.Set_initial_state(v); }); }
    for (unsigned a : {0u, ne - 1, ne, ne + 1}) for (unsigned c : {0u, 1u, 2u, 3u}) for (unsigned b : {0u, n - 1, n, n + 1}) { bool ok = ready && nr == 2 && a == ne && b == n && c == 2; if (!ok) no(true, "an initial state of rank 3", [&] { marray<double, 3> v{a, c, b}; std::fill(v.begin(), v.end(), 1); o.Set_initial_state(v); }); }
    no(true, "an initial state in the solution basis", [&] { if (nr == 2) { marray<double, 3> v{ne, 2, n}; std::fill(v.begin(), v.end(), 1); o.Set_initial_state(v, interaction); } else { marray<double, 2> v{ne, n}; std::fill(v.begin(), v.end(), 1); o.Set_initial_state(v, interaction); } });
    // parameters
    if (!t.dead) for (unsigned i : {0u, 1u, n - 1, n, n + 1, big[0], big[1]}) {
      if (i >= n) { no(true, "a mass difference", [&] { o.Set_SquareMassDifference(i, 7); }); no(true, "reading a mass difference", [&] { o.Get_SquareMassDifference(i); }); }
      for (unsigned j : {0u, n - 1, n, n + 1, big[1]}) if (i >= n || j >= n || i == j) { no(true, "a mixing angle", [&] { o.Set_MixingAngle(i, j, 7); }); no(true, "a phase", [&] { o.Set_CPPhase(i, j, 7); }); if (i >= n || j >= n) { no(true, "reading a mixing angle", [&] { o.Get_MixingAngle(i, j); }); no(true, "reading a phase", [&] { o.Get_CPPhase(i, j); }); } } }
    no(true, "a mass difference of the first state", [&] { o.Set_SquareMassDifference(0, 7); });
    no(true, "solving in the flavor basis", [&] { o.Set_Basis(flavor); }); no(true, "no track", [&] { o.Set_Track(nullptr); });
    if (!k.inter) { no(true, "regeneration without interactions", [&] { o.Set_TauRegeneration(true); }); no(true, "the resonance without interactions", [&] { o.Set_GlashowResonance(true); }); } else if (k.nt != both) no(true, "regeneration for one type", [&] { o.Set_TauRegeneration(true); });
    if (!k.inter || t.dead) no(true, "tables which are not there", [&] { o.GetInteractionStructure(); }); if (t.dead) no(true, "tables of an unusable object", [&] { o.InitializeInteractions(); });
    no(true, "a file which is not there", [&] { Quiet z; o.ReadStateHDF5(file("none")); });
    std::string after = view(); CK("order:changed", before == after, log, ": changed by refused calls");
    vc::trace(); vc::state(log); vc::outcome(vc::cat(t.dead, t.body, t.track, t.energy, t.state, t.osc, known && !k.inter ? std::round(s[0][0](0, 0).real() * 1e5) : 0)); vc::sample(vc::cat(log, known ? vc::cat(": electron component ", o.EvalFlavorAtNode(0, 0, 0)) : ": no state"));
  }
};
static unsigned shallow = 2;
static void explore(Kind const &k, std::vector<int> const &ops, unsigned depth, std::vector<int> &seq, Told t) {
  if (vc::begin()) { Obj *o = nullptr; std::string l; try { Obj x(k); o = &x; for (int i : seq) { l = x.log; x.apply(i); } x.check(vc::C().ncase, seq.size() <= shallow ? 1 : 16); } catch (std::exception &e) { (void)o; std::string w; for (int i : seq) w += vc::cat(", ", OPS[i]); vc::fail("order:exception", vc::cat(l, " of", w, ": ", e.what())); } }
  if (seq.size() == depth) return;
  for (int op : ops) if (allowed(k, t, op)) { if (!seq.empty() && (op == MOVE || op == MOVEONTO || op == SAME || op == TABLES) && seq.back() == op) continue; Told u = t; tell(u, op); seq.push_back(op); explore(k, ops, depth, seq, u); seq.pop_back(); }
}
// Cross sections which can not be had: every sequence of calls which would
// need them, and then an object like any other once they are given.
static void without(NeutrinoType nt, int lacking, std::vector<int> const &seq, Basis basis) {
  if (!vc::begin()) return;
  static const char *W[] = {"evolving", "the Hamiltonian", "the tables", "tabulating", "storing", "the resonance", "regeneration", "the same cross sections again"}, *L[] = {"no default cross sections", "no nucleons", "protons only", "no electrons"};
  std::string log = vc::cat(L[lacking], nt == both ? " both" : nt == neutrino ? " nu" : " antinu", basis == mass ? " mass basis" : "");
  auto lib = [&](int i) -> std::shared_ptr<CrossSectionLibrary> { if (!i) return nullptr; auto l = std::make_shared<CrossSectionLibrary>(); if (i == 2) l->addTarget(proton, std::shared_ptr<NeutrinoCrossSections>(std::make_shared<Xs>(0, 0))); if (i == 3) l = library(1, 0, false); return l; };
  auto make = [&](std::shared_ptr<CrossSectionLibrary> l) { auto q = std::make_shared<Open>(nodes({3, 5, 9}), 3, nt, true, l); q->Set_Basis(basis); q->Set_Body(std::make_shared<Src>(4, .45)); q->Set_Track(std::make_shared<ConstantDensity::Track>(0, 400 * nq::k.km)); q->Set_rel_error(1e-5); q->Set_abs_error(1e-7); q->Set_h(30 * nq::k.km); return q; };
  try {
    Q q, r; { Quiet z; q = make(lib(lacking)); r = make(library(1, 0)); } fill(*q); fill(*r); bool gr = false, tau = false; std::string f = file("w");
    for (int op : seq) { vc::transition(); log += vc::cat(", ", W[op]); if (lacking == 3 && (!gr || nt == neutrino) && op != 5 && op != 7) continue; bool refused = true; switch (op) {
      case 0: refused = throws([&] { q->EvolveState(); }); break; case 1: refused = throws([&] { q->GetHamiltonian(1, 0); }); break; case 2: refused = throws([&] { q->GetInteractionStructure(); }); break; case 3: refused = throws([&] { q->InitializeInteractions(); }); break; case 4: refused = throws([&] { q->WriteStateHDF5(f); }); unlink(f.c_str()); break;
      case 5: gr = !gr; q->Set_GlashowResonance(gr); r->Set_GlashowResonance(gr); break; case 6: if (nt == both) { tau = !tau; q->Set_TauRegeneration(tau); r->Set_TauRegeneration(tau); } break; case 7: if (lacking) q->SetNeutrinoCrossSections(lib(lacking)); break; }
      CK("order:tables", refused, log, ": is not refused"); }
    auto l = library(1, 0); q->SetNeutrinoCrossSections(l); { Quiet z; q->EvolveState(); r->EvolveState(); }
    CK("order:tables", view(*q) == view(*r), log, ", cross sections: differs from an object which had them"); vc::trace(); vc::state(log); vc::outcome(vc::cat(std::round(q->EvalFlavorAtNode(0, 0, 0) * 1e6)));
  } catch (std::exception &e) { vc::fail("order:exception", vc::cat(log, ": ", e.what())); }
}
int main(int argc, char **argv) {
  vc::init(argc, argv); bool th = vc::thorough(); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  setenv("NUSQUIDS_DATA_PATH", vc::C().tmp.c_str(), 1);
  for (NeutrinoType nt : {both, neutrino, antineutrino}) for (int w = 0; w < 4; w++) for (Basis b : {interaction, mass}) { without(nt, w, {}, b); for (int i = 0; i < 8; i++) { without(nt, w, {i}, b); for (int j = 0; j < 8; j++) { without(nt, w, {i, j}, b); if (th || (i * 8 + j + w) % 4 == 0) for (int l = 0; l < 8; l++) without(nt, w, {i, j, l}, b); } } }
  std::vector<int> seq; int more = th ? 1 : 0;
  std::vector<int> core = {BODY1, BODY2, TRACK1, TRACK2, E1, E2, FLAV, MASS, ANGLES, EVOLVE, OSC}, all; for (int i = 0; i < NOPS; i++) all.push_back(i);
  for (size_t i = 0; i < KINDS.size(); i++) {
    Kind const &k = KINDS[i]; Told t; t.energy = !k.single;
    shallow = 2; explore(k, all, 3 + more, seq, t);
    // from a state which has been evolved
    Told u = t; std::vector<int> p; auto go = [&](int op) { tell(u, op); p.push_back(op); }; go(BODY1); go(TRACK1); if (k.single) go(E1); go(FLAV); shallow = p.size() + 1; explore(k, all, p.size() + (k.inter ? 2 : 3) + more - (k.n == 5), p, u);
    shallow = 1; if (!k.inter && k.n < 5) explore(k, core, 4 + more + (k.single && k.n == 3), seq, t);
  }
  unlink(file("g").c_str()); return vc::finish();
}

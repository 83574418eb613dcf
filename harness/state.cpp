// PART 0: states stored in a file and restored, into fresh and into used objects,
// at every point of sequences of path segments; the copy then goes on as the
// original and the reference do.
// PART 1: every HDF5 call of storing and restoring failing in turn, and files
// with every part missing or of another size.
#define H5TRACK_FILES
#define H5TRACK_LT
#include "vc.hpp"
#include "h5track.hpp"
#include "inter.hpp"
#include "objs.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <sstream>
#include <fstream>
#include <iostream>
#include <hdf5_hl.h>
#include "h5damage.hpp"

// Where a state is stored.
struct Place { std::string f, g, xs; bool given; };
static const int FORMS = 8;
static Place store(nuSQUIDS const &q, int form) {
  Quiet quiet; Place p{file(), "/", "", false}; unlink(p.f.c_str());
  auto another = [&](const char *g, bool over) { static Q o = used(6); o->WriteStateHDF5(p.f, g, true, "", over); };
  switch (form) {
  case 0: another("/", true); q.WriteStateHDF5(p.f); break;
  case 1: p.g = "/a"; another("/a", true); q.WriteStateHDF5(p.f, p.g); break;
  case 2: p.g = "b"; q.WriteStateHDF5(p.f, p.g); break;
  case 3: p.g = "/a"; another("/z", true); q.WriteStateHDF5(p.f, p.g, true, "", false); another("/y", false); break;
  case 4: p.g = "/c1"; p.xs = "/xs"; q.WriteStateHDF5(p.f, "/c0", true, p.xs); q.WriteStateHDF5(p.f, p.g, false, p.xs, false); break;
  case 5: p.given = q.GetUseInteractions(); q.WriteStateHDF5(p.f, p.g, false); break;
  case 6: p.g = "/a/b"; another("/a", true); q.WriteStateHDF5(p.f, p.g, true, "", false); break;
  default: p.g = "/new"; q.WriteStateHDF5(p.f, p.g, true, "shared", false); p.xs = "shared"; break;
  }
  return p;
}
static Q restore(Place const &p, std::shared_ptr<nuSQUIDS::InteractionStructure> t, int into) {
  Quiet quiet;
  if (into < 0 && p.xs == "") return p.given ? std::make_shared<Open>(p.f, p.g, t) : std::make_shared<Open>(p.f, p.g);
  Q q = used(std::max(into, 0)); if (p.given) q->ReadStateHDF5Internal(p.f, p.g, t); else q->ReadStateHDF5(p.f, p.g, p.xs); return q;
}
// Store at some point of a sequence of segments, restore, compare, go on with both.
struct Case { Cfg c; int hist; Seg a, b; int form, into; };
static std::string name(Case const &x) { static const char *h[] = {"before evolving", "after a segment", "after two segments", "after a segment, the next one set"}; return vc::cat(name(x.c), " ", name(x.a), " then ", name(x.b), " stored ", h[x.hist], " form ", x.form, " into ", x.into); }
static void roundtrip(Case x) {
  if (!vc::begin()) return;
  std::string id = name(x);
  try {
    Run r(x.c); double a = 200 * k.km, b = 700 * k.km, d = 1000 * k.km; auto m = medium(x.a.med), m2 = medium(x.b.med);
    if (x.hist == 0) { r.toggles(x.a); r.start(m, a, b); } else r.segment(x.a, a, b, false);
    if (x.hist == 2) { Seg g = x.a; g.osc = !g.osc; r.segment(g, b, d, true); x.a = g; }
    if (x.hist == 3) { r.q.Set_Body(m2); r.q.Set_Track(std::make_shared<ConstantDensity::Track>(a, d)); }
    Place p = store(r.q, x.form); vc::transition(2);
    if (x.c.inter && x.hist == 0) r.q.InitializeInteractions();
    std::shared_ptr<nuSQUIDS::InteractionStructure> t; if (x.c.inter) t = r.q.GetInteractionStructure();
    Q q = restore(p, t, x.into); Run s(r, q); same(id, r.q, *q, x.c.basis == mass);
    // a second copy of the same file, into an object which has just been used
    if (x.into >= 1) { Quiet quiet; if (p.given) q->ReadStateHDF5Internal(p.f, p.g, t); else q->ReadStateHDF5(p.f, p.g, p.xs); same(id + " again", r.q, *q, x.c.basis == mass); }
    s.numerics(); s.log = id + ": copy";
    Seg g = x.b; if (x.hist == 0) g.med = x.a.med;
    bool kept = g.osc == x.a.osc && g.tau == x.a.tau && g.gr == x.a.gr;
    for (Run *y : {&r, &s}) {
      if (y == &s && !kept && x.c.inter) y->q.SetNeutrinoCrossSections(library(x.c.targets, x.c.set));
      if (y == &s && kept) { y->q.Set_NeutrinoSources(g.src); y->q.Set_AllowConstantDensityOscillationOnlyEvolution(g.fast); y->q.Set_PositivityConstrain(g.pos); y->q.Set_PositivityConstrainStep(130 * k.km); } else y->toggles(g);
      if (x.hist == 0) y->go(g, *m, a, b, true);
      else if (x.hist == 3) y->go(g, *m2, a, d, true);
      else { y->q.Set_Body(m2); y->q.Set_Track(std::make_shared<ConstantDensity::Track>(a, b)); y->go(g, *m2, a, b, true); }
    }
    if (x.c.inter && g.gr == x.a.gr) s.tables(g.gr);
    vc::trace(); vc::state(id); std::string o; for (auto &v : r.s) for (auto &z : v) o += vc::cat(std::round(z(0, 0).real() * 1e6), " "); vc::outcome(o);
    vc::sample(vc::cat(id, ": electron component ", r.q.EvalFlavorAtNode(0, 0, 0), " in the original, ", s.q.EvalFlavorAtNode(0, 0, 0), " in the copy"));
  } catch (std::exception &e) { vc::fail("state:exception", vc::cat(id, ": ", e.what())); }
}
// Objects to store, with each kind of medium.
static const int KINDS = 12;
static Q make(int kind) {
  static const int N[KINDS] = {3, 3, 4, 3, 3, 3, 3, 3, 3, 3, 3, 5}; Q q; int n = N[kind]; bool inter = kind == 1 || kind == 2 || kind == 10; std::shared_ptr<Body> b; std::shared_ptr<Track> t;
  if (kind == 0) q = std::make_shared<Open>(n, antineutrino); else if (kind == 1) q = std::make_shared<Open>(nodes({2, 3, 9}), n, both, true, library(0, 0)); else if (kind == 2) q = std::make_shared<Open>(nodes({2, 3, 9, 11}), n, antineutrino, true, library(1, 0)); else if (kind == 10) q = std::make_shared<Open>(nodes({4, 9}), n, both, true, library(2, 2)); else q = std::make_shared<Open>(nodes({2, 3, 9}), n, kind % 2 ? both : neutrino);
  if (kind == 0) { q->Set_E(3 * k.GeV); q->Set_Basis(mass); } if (kind == 1) { q->Set_TauRegeneration(true); q->Set_GlashowResonance(true); } if (kind == 3) { q->Set_IncludeOscillations(false); q->extra = 2.5; }
  apply(*q, params(n, 1));
  V r{0, .1, .3, .6, .8, 1}, v{9, 8, 5, 3, 1, .5}, y{.4, .45, .5, .48, .47, .46};
  switch (kind) {
  case 3: b = std::make_shared<ConstantDensity>(3.5, .47); t = std::make_shared<ConstantDensity::Track>(1 * k.km, 30 * k.km); break;
  case 4: b = std::make_shared<VariableDensity>(V{0, 1e5, 3e5, 1e6, 2e6, 5e6}, v, y); t = std::make_shared<VariableDensity::Track>(0, 30 * k.km); break;
  case 5: b = std::make_shared<Earth>(r, v, y); t = std::make_shared<Earth::Track>(2 * k.km, 2 * k.km, 30 * k.km, 3000 * k.km); break;
  case 6: b = std::make_shared<Sun>(r, v, y); t = std::make_shared<Sun::Track>(2 * k.km, 30 * k.km); break;
  case 7: b = std::make_shared<SunASnu>(r, v, y); t = std::make_shared<SunASnu::Track>(0, 1e5 * k.km); break;
  case 8: { auto e = std::make_shared<EarthAtm>(r, v, y); b = e; t = std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(.3)); break; }
  case 9: b = std::make_shared<Vacuum>(); t = std::make_shared<Vacuum::Track>(1 * k.km, 30 * k.km); break;
  default: b = std::make_shared<Src>(2, .4); t = std::make_shared<ConstantDensity::Track>(0, 30 * k.km);
  }
  q->Set_Body(b); q->Set_Track(t);
  if (kind == 0) { marray<double, 1> i{3}; i[0] = .2; i[1] = .7; i[2] = 1; q->Set_initial_state(i); } else fill(*q);
  if (kind != 7 && kind != 6) q->EvolveState();
  return q;
}
static Q kind(int n) { static Q m[KINDS]; if (!m[n]) m[n] = make(n); return m[n]; }
static std::shared_ptr<nuSQUIDS::InteractionStructure> tables(int n) { return kind(n)->GetUseInteractions() ? kind(n)->GetInteractionStructure() : nullptr; }
static std::string const &content(int n) { static std::string s[KINDS]; if (s[n].empty()) s[n] = dump(*kind(n)); return s[n]; }
// Files as earlier versions wrote them.
static void older(int what, int kindno) {
  if (!vc::begin()) return;
  std::string id = vc::cat("older file ", what, " kind ", kindno); std::string f = file();
  try {
    Q q; Place p{f, "/", "", false}; unlink(f.c_str()); bool tau2 = what == 1;
    if (what < 2) { // tables for one kind of target; what == 1: with tau spectra averaged over polarizations
      bool two = kindno >= 4; V E{2, 3, 9, 11, 20}; E.resize(2 + kindno % 4); q = std::make_shared<Open>(nodes(E), 3 + kindno % 2, two ? both : neutrino, true, library(1, 0)); if (two) { q->Set_TauRegeneration(true); q->Set_GlashowResonance(true); }
      apply(*q, params(q->GetNumNeu(), 1)); q->Set_Body(std::make_shared<Src>(2, .4)); q->Set_Track(std::make_shared<ConstantDensity::Track>(0, 30 * k.km)); fill(*q); q->EvolveState();
    } else { q = std::make_shared<Open>(nodes({2, 3, 9}), 3, both); apply(*q, params(3, 1)); std::shared_ptr<Body> b; std::shared_ptr<Track> t;
      switch (kindno) {
      case 1: b = std::make_shared<Vacuum>(); t = std::make_shared<Vacuum::Track>(1 * k.km, 30 * k.km); break;
      case 2: b = std::make_shared<ConstantDensity>(3.5, .47); t = std::make_shared<ConstantDensity::Track>(1 * k.km, 30 * k.km); break;
      case 3: b = std::make_shared<VariableDensity>(V{0, 1e5, 3e5, 1e6, 2e6, 5e6}, V{9, 8, 5, 3, 1, .5}, V{.4, .45, .5, .48, .47, .46}); t = std::make_shared<VariableDensity::Track>(0, 30 * k.km); break;
      case 4: b = std::make_shared<Earth>(); t = std::make_shared<Earth::Track>(2 * k.km, 30 * k.km, 3000 * k.km); break;
      case 5: b = std::make_shared<Sun>(); t = std::make_shared<Sun::Track>(2 * k.km, 30 * k.km); break;
      default: { auto e = std::make_shared<EarthAtm>(); b = e; double phi = 1.2; while (acos(cos(phi)) != phi) phi += .01; t = std::make_shared<EarthAtm::Track>(e->MakeTrack(phi)); } }
      q->Set_Body(b); q->Set_Track(t); fill(*q); if (kindno < 5) q->EvolveState();
    }
    { Quiet z; q->WriteStateHDF5(f); }
    hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
    auto renew = [&](std::string n, std::vector<hsize_t> cut, size_t skip) { // a dataset of the first elements, its leading extents gone
      int r; H5LTget_dataset_ndims(h, n.c_str(), &r); std::vector<hsize_t> d(r); H5LTget_dataset_info(h, n.c_str(), d.data(), nullptr, nullptr); hsize_t t = 1; for (auto x : d) t *= x; V v(t); H5LTread_dataset_double(h, n.c_str(), v.data()); H5Ldelete(h, n.c_str(), H5P_DEFAULT); H5LTmake_dataset_double(h, n.c_str(), r - skip, d.data() + skip, v.data()); };
    unsigned version = what < 2 ? 101000 : 100000; H5LTset_attribute_uint(h, "basic", "nusquids_version_number", &version, 1);
    for (auto a : {"oscillations", "tau_regeneration", "glashow_resonance", "basis"}) if (what == 2 || !strcmp(a, "basis")) H5Adelete_by_name(h, "basic", a, H5P_DEFAULT);
    if (what < 2) { std::string g = "crosssections/"; H5Ldelete(h, (g + "targets").c_str(), H5P_DEFAULT); for (auto n : {"sigmacc", "sigmanc", "dNdEcc", "dNdEnc"}) renew(g + n, {}, 1); if (tau2) for (auto n : {"dNdEtauall", "dNdEtaulep"}) renew(g + n, {}, 1); }
    else { V bp = q->GetBody()->GetBodyParams(), tp = q->GetTrack()->GetTrackParams(); double x = q->GetTrack()->GetX(); for (auto o : {"body", "track"}) { H5Ldelete(h, o, H5P_DEFAULT); V &v = *o == 'b' ? bp : tp; if (v.empty()) v.push_back(0); hsize_t d = v.size(); H5LTmake_dataset_double(h, o, 1, &d, v.data()); } unsigned bid = kindno; H5LTset_attribute_uint(h, "body", "ID", &bid, 1); H5LTset_attribute_double(h, "track", "X", &x, 1); }
    H5Fclose(h); vc::transition(2);
    for (int into : {-1, 0, 2, 3, 5}) { Q c = restore(p, nullptr, into); auto t = q->GetUseInteractions() ? q->GetInteractionStructure() : nullptr;
      if (tau2 && q->GetNumRho() == 2) { auto u = c->GetInteractionStructure(); for (unsigned r = 0; r < 2; r++) for (unsigned e = 0; e < q->GetNumE(); e++) for (unsigned l = 0; l < q->GetNumE(); l++) { CK("older:tau", l >= e ? u->dNdE_tau_all[r][e][l] == 0 && u->dNdE_tau_lep[r][e][l] == 0 : bits(u->dNdE_tau_all[r][e][l], t->dNdE_tau_all[0][e][l]) && bits(u->dNdE_tau_lep[r][e][l], t->dNdE_tau_lep[0][e][l]), id, ": from ", e, " to ", l); u->dNdE_tau_all[r][e][l] = t->dNdE_tau_all[r][e][l]; u->dNdE_tau_lep[r][e][l] = t->dNdE_tau_lep[r][e][l]; } }
      CK("older:content", dump(*c) == dump(*q), id, " into ", into); same(id, *q, *c, false);
      if (what < 2 || kindno < 4) { c->Set_Track(std::make_shared<ConstantDensity::Track>(0, 20 * k.km)); c->EvolveState(); } }
    vc::state(id); vc::outcome(id); vc::sample(vc::cat(id, ": restored as it was"));
  } catch (std::exception &e) { vc::fail("older:exception", vc::cat(id, ": ", e.what())); }
}
#if PART == 0
int main(int argc, char **argv) {
  vc::init(argc, argv); bool th = vc::thorough(); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); int turn = 0;
  auto seg = [](int bits, int med) { return Seg{med, !(bits & 1), bool(bits & 2), bool(bits & 4), bool(bits & 8), false, false, false}; };
  // every configuration
  for (NeutrinoType nt : {neutrino, antineutrino, both}) for (int n = 3; n <= (th ? 5 : 4); n++) for (int ne : {0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16}) for (Basis b : {interaction, mass}) for (int in = 0; in < 4; in++) for (int x = 0; x < 8; x++) for (int h = 0; h < 4; h++) {
    if (ne > 8 && !th && (n != 3 || b == mass || h != 1 || (x != 0 && x != 5) || in == 2)) continue;
    bool single = ne == 0, inter = in > 0; if (single && (inter || nt == both)) continue;
    if (!inter && x > 1) continue;
    if ((x & 2) && nt != both) continue;
    if (!th && inter && ne <= 8 && (ne + x + in + h + int(b == mass)) % (n == 4 ? 9 : 3)) continue;
    turn++; Cfg c{nt, n, std::max(ne, 1), b, in == 2 ? 1 : 0, in == 3 ? 2 : 0, inter, single, 3};
    roundtrip({c, h, seg(x, turn % 5), seg(turn % 3 ? x : x ^ 1, (turn / 5) % 5), turn % FORMS, (turn / FORMS) % (USED + 1) - 1});
  }
  // every way of storing and every object to restore into
  for (NeutrinoType nt : {antineutrino, both}) for (int ne : {0, 1, 3}) for (int in = 0; in < 2; in++) for (int form = 0; form < FORMS; form++) for (int into = -1; into < USED; into++) for (int h = 0; h < 4; h++) for (int x : {0, 7}) {
    if ((x && !in) || (ne == 0 && (in || nt == both))) continue;
    if (!th && (h + form + into + x) % 3) continue;
    int bits = nt == both ? x : x & 5; roundtrip({{nt, 3, std::max(ne, 1), h % 2 ? mass : interaction, 0, 0, bool(in), ne == 0, 3}, h, seg(bits, 4), seg(bits | 8, 1), form, into});
  }
  for (int n = 0; n < 8; n++) for (int w : {0, 1}) older(w, n);
  for (int n = 1; n <= 7; n++) if (n != 6) older(2, n);
  unlink(file().c_str());
  return vc::finish();
}
#endif

#if PART == 1
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
// An object whose reading failed refuses everything that needs a state, and can be read into again.
static void unusable(std::string const &id, Open &q) {
  CK("state:after", throws([&] { q.EvolveState(); }), id, ": evolves"); CK("state:after", throws([&] { q.WriteStateHDF5(file("w")); }), id, ": can be stored");
  CK("state:after", throws([&] { q.EvalFlavorAtNode(0, 0, 0); }) && throws([&] { q.EvalMassAtNode(0, 0, 0); }) && throws([&] { q.EvalFlavor(0); }) && throws([&] { q.EvalFlavor(0, 3 * k.GeV, 0); }) && throws([&] { q.EvalMass(0, 3 * k.GeV, 0); }), id, ": has fluxes");
  CK("state:after", throws([&] { q.GetHamiltonian(0, 0); }) && throws([&] { marray<double, 2> v{q.GetNumE(), std::min(9u, q.GetNumNeu())}; q.Set_initial_state(v); }) && throws([&] { marray<double, 1> v{std::min(9u, q.GetNumNeu())}; q.Set_initial_state(v); }) && throws([&] { q.Set_E(k.GeV); }), id, ": has a Hamiltonian or takes a state");
}
struct Faults { std::string name; long calls; };
// A call that fails while a state is stored.
static const int WAYS = 5;
static std::string way(int w) { static const char *n[] = {"a new file", "a file to be replaced", "a new group of a file", "a new group of a file, tables elsewhere", "a file without tables"}; return n[w]; }
static Place prepare(int w, int n) {
  Place p{file(), "/", "", false}; unlink(p.f.c_str()); Quiet q;
  if (w) kind((n + 5) % KINDS)->WriteStateHDF5(p.f, w == 1 ? "/" : "/other");
  if (w == 2 || w == 3) p.g = "/mine"; if (w == 3) p.xs = "/tables"; if (w == 4) { unlink(p.f.c_str()); p.given = kind(n)->GetUseInteractions(); }
  return p;
}
static void put(Open const &q, Place const &p, int w) { q.WriteStateHDF5(p.f, p.g, w != 4, p.xs, w == 0 || w == 1 || w == 4); }
static Q get(Place const &p, int n, Q into = nullptr) { if (!into) into = std::make_shared<Open>(); Quiet q; if (p.given) into->ReadStateHDF5Internal(p.f, p.g, tables(n)); else into->ReadStateHDF5(p.f, p.g, p.xs); return into; }
static void store_faults(int n, int w) {
  auto one = [&](long k) {
    Place p = prepare(w, n); open_ids.clear(); failed_name = ""; ncall = 0; fail_at = k; track = true;
    bool threw = throws([&] { put(*kind(n), p, w); }); track = false; fail_at = -1; long calls = ncall; if (k < 0) { CK("store:works", !threw, "kind ", n, " into ", way(w)); return calls; }
    std::string id = vc::cat("storing kind ", n, " in ", way(w), ", ", failed_name, " (call ", k, ") failing");
    CK("store:handles", open_ids.empty(), id, ": ", open_ids.size(), " left open"); for (auto h : std::set<hid_t>(open_ids)) H5Idec_ref(h);
    if (!threw) { bool ok = false; std::string why; try { ok = dump(*get(p, n)) == content(n); } catch (std::exception &e) { why = e.what(); } CK("store:silent", ok, id, ": not reported, restored differently ", why); }
    if (w == 2 || w == 3) { bool ok = false; std::string why; try { Place o{p.f, "/other", "", false}; ok = dump(*get(o, n)) == content((n + 5) % KINDS); } catch (std::exception &e) { why = e.what(); } CK("store:other", ok, id, ": the other state in the file is lost ", why); }
    CK("store:object", dump(*kind(n)) == content(n), id, ": the object has changed");
    Place r = prepare(w, n); bool ok = false; try { put(*kind(n), r, w); ok = dump(*get(r, n)) == content(n); } catch (std::exception &) {} CK("store:retry", ok, id, ": cannot be repeated");
    vc::transition(3); vc::state(id); vc::outcome(vc::cat(failed_name, threw, w)); return calls;
  };
  static std::map<int, long> total; int key = n * WAYS + w; if (!total.count(key)) total[key] = one(-1);
  for (long i = 0; i < total[key]; i++) if (vc::begin()) one(i);
}
static void read_faults(int n, int w) {
  auto one = [&](long k, int into) {
    Place p = prepare(w, n); { Quiet q; put(*kind(n), p, w); } Q q = used(into); auto t = tables(n); open_ids.clear(); failed_name = ""; ncall = 0; fail_at = k; track = true;
    bool threw = throws([&] { if (p.given) q->ReadStateHDF5Internal(p.f, p.g, t); else q->ReadStateHDF5(p.f, p.g, p.xs); }); track = false; fail_at = -1; long calls = ncall; if (k < 0) { CK("restore:works", !threw, "kind ", n, " from ", way(w)); return calls; }
    std::string id = vc::cat("restoring kind ", n, " from ", way(w), " into ", into, ", ", failed_name, " (call ", k, ") failing");
    CK("restore:handles", open_ids.empty(), id, ": ", open_ids.size(), " left open"); for (auto h : std::set<hid_t>(open_ids)) H5Idec_ref(h);
    // before anything has been read, the object is as it was
    if (threw) { if (failed_name != "H5Fopen" && failed_name != "H5Gopen2") unusable(id, *q); } else CK("restore:silent", dump(*q) == content(n), id, ": not reported, restored differently");
    bool ok = false; std::string why; try { ok = dump(*get(p, n, q)) == content(n); if (n != 6 && n != 7) { q->Set_Track(q->GetTrack()); q->EvolveState(); } } catch (std::exception &e) { why = e.what(); } CK("restore:retry", ok, id, ": cannot be repeated ", why);
    vc::transition(3); vc::state(id); vc::outcome(vc::cat(failed_name, threw, w)); return calls;
  };
  for (int into : {0, 2}) { static std::map<int, long> total; int key = (n * WAYS + w) * 10 + into; if (!total.count(key)) total[key] = one(-1, into); for (long i = 0; i < total[key]; i++) if (vc::begin()) one(i, into); }
}
static void damaged(int n) {
  static std::map<int, std::vector<Part>> all; static std::map<int, std::string> good; std::string f = file(); Place p{f, "/", "", false};
  if (!all.count(n)) { Quiet q; unlink(f.c_str()); put(*kind(n), p, 0); all[n] = parts(f); good[n] = slurp(f); }
  for (auto &x : all[n]) for (int d = 0; d < DAMAGE; d++) if (vc::begin()) {
    spit(f, good[n]); std::string what = damage(f, x, d); if (what == "") continue;
    std::string id = vc::cat("kind ", n, " with ", x.obj, x.attr.empty() ? "" : " ", x.attr, " ", what); Q q = used(d % 2 ? 2 : 0); open_ids.clear(); track = true; bool threw = throws([&] { q->ReadStateHDF5(f); }); track = false;
    CK("damage:handles", open_ids.empty(), id, ": ", open_ids.size(), " left open"); for (auto h : std::set<hid_t>(open_ids)) H5Idec_ref(h);
    bool optional = d == 0 && (x.attr == "oscillations" || x.attr == "tau_regeneration" || x.attr == "glashow_resonance" || x.attr == "basis" || x.attr == "extra" || x.attr == "radius" || x.attr == "atm_height" || x.attr == "earth_radius" || x.attr == "atmheight"), value = x.type == 'a' && (what == "negative" || what == "huge") && x.obj == "basic" && x.attr != "numneu";
    if (threw) unusable(id, *q); else if (!optional && !value) CK("damage:accepted", dump(*q) == content(n), id, ": accepted");
    if (!threw && n != 6 && n != 7) throws([&] { q->EvolveState(); }); // stays within its memory
    if (!threw) throws([&] { dump(*q); });
    spit(f, good[n]); bool ok = false; std::string why; try { ok = dump(*get(p, n, q)) == content(n); } catch (std::exception &e) { why = e.what(); } CK("damage:retry", ok, id, ": the sound file cannot be read afterwards ", why);
    vc::transition(2); vc::state(id); vc::outcome(vc::cat(x.obj, x.attr, what, threw)); vc::sample(vc::cat(id, threw ? " is refused" : " is as good"));
  }
  for (int i = 0; i < 24; i++) if (vc::begin()) { std::string id = vc::cat("kind ", n, " cut to ", i, "/24"); spit(f, good[n].substr(0, good[n].size() * i / 24)); Q q = used(0); CK("damage:cut", throws([&] { q->ReadStateHDF5(f); }), id, ": accepted"); vc::transition(); vc::state(id); }
}
static void refusals() {
  std::string f = file(), g = file("t"); Place p{f, "/", "", false};
  for (int n = 0; n < KINDS; n++) {
    bool inter = kind(n)->GetUseInteractions();
    if (vc::begin()) { unlink(f.c_str()); CK("refuse:absent", throws([&] { used(0)->ReadStateHDF5(f); }), "no file"); put(*kind(n), p, 0); for (auto gr : {"/no", "no", "/basic", "/energies"}) CK("refuse:group", throws([&] { used(0)->ReadStateHDF5(f, gr); }), "kind ", n, ": group ", gr, " accepted"); if (inter) CK("refuse:tables", throws([&] { used(0)->ReadStateHDF5(f, "/", "/no"); }), "kind ", n, ": tables from nowhere"); vc::transition(3); vc::state(vc::cat("refuse", n)); vc::outcome("refused"); }
    if (vc::begin()) { // nothing is written over
      unlink(f.c_str()); put(*kind(n), p, 0); std::string other = vc::cat("kind ", n, " over another in the same place"); int m = (n + 1) % KINDS; CK("refuse:same", throws([&] { kind(m)->WriteStateHDF5(f, "/", true, "", false); }), other, ": accepted"); CK("refuse:same", dump(*get(p, n)) == content(n), other, ": the first is lost");
      { Quiet q; kind(m)->WriteStateHDF5(f, "/x", true, "", false); } CK("refuse:same", throws([&] { kind(n)->WriteStateHDF5(f, "/x", true, "", false); }), other, ": accepted in a group"); Place x{f, "/x", "", false}; CK("refuse:same", dump(*get(x, m)) == content(m) && dump(*get(p, n)) == content(n), other, ": lost"); vc::transition(4); vc::state(other); vc::outcome("kept"); }
    if (vc::begin()) { // a file which is something else
      for (std::string text : {std::string("precious notes"), std::string("\n"), std::string(5000, 'x')}) { spit(f, text); bool threw = throws([&] { kind(n)->WriteStateHDF5(f, "/", true, "", false); }); CK("refuse:text", threw && slurp(f) == text, "kind ", n, ": added to a file which is not HDF5: ", threw ? "" : "not refused, ", slurp(f) == text ? "" : "content lost"); CK("refuse:read", throws([&] { used(0)->ReadStateHDF5(f); }), "text read as a state"); }
      unlink(f.c_str()); CK("refuse:path", throws([&] { kind(n)->WriteStateHDF5(vc::C().tmp + "/no/such/dir"); }) && throws([&] { kind(n)->WriteStateHDF5(vc::C().tmp + "/no/such/dir", "/", true, "", false); }), "unwritable path"); vc::transition(4); vc::state(vc::cat("text", n)); vc::outcome("kept text"); }
    if (vc::begin()) { // the user's own part failing
      Q q = make(n); q->broken = true; unlink(f.c_str()); open_ids.clear(); track = true; CK("user:write", throws([&] { put(*q, p, 0); }), "kind ", n); track = false; CK("user:handles", open_ids.empty(), "kind ", n, ": ", open_ids.size(), " left open after writing"); q->broken = false; q->extra = 7; { Quiet z; put(*q, p, 0); }
      Q r = used(2); r->broken = true; open_ids.clear(); track = true; CK("user:read", throws([&] { r->ReadStateHDF5(f); }), "kind ", n); track = false; CK("user:handles", open_ids.empty(), "kind ", n, ": ", open_ids.size(), " left open after reading"); unusable(vc::cat("kind ", n, " after the user's part failed"), *r); r->broken = false; r->ReadStateHDF5(f); CK("user:restored", dump(*r) == dump(*q) && r->extra == 7, "kind ", n); vc::transition(4); vc::state(vc::cat("user", n)); vc::outcome("user"); }
    for (int m = 0; m < KINDS; m++) if (inter && vc::begin()) { // tables given to the reader
      unlink(f.c_str()); { Quiet q; put(*kind(n), p, 4); } CK("refuse:none", throws([&] { used(0)->ReadStateHDF5(f); }) && throws([&] { used(0)->ReadStateHDF5Internal(f, "/", nullptr); }), "kind ", n, ": stored without tables, read without"); auto t = tables(m); bool ok = false; try { Q q = used(2); q->ReadStateHDF5Internal(f, "/", t); ok = true; } catch (std::exception &) {}
      CK("refuse:given", ok == (m == n), "kind ", n, ": tables of kind ", m, ok ? " accepted" : " refused"); vc::transition(2); vc::state(vc::cat("given", n, m)); vc::outcome(vc::cat("given", ok)); }
    // a full disk
    long size = 0; { Quiet q; unlink(f.c_str()); put(*kind(n), p, 0); struct stat s; stat(f.c_str(), &s); size = s.st_size; unlink(f.c_str()); }
    for (int add = 0; add < 2; add++) for (int i = 0; i < (vc::thorough() ? 40 : 12); i++) if (vc::begin()) {
      unlink(f.c_str()); Place w = p; long before = 0; if (add) { Quiet q; kind(5)->WriteStateHDF5(f, "/other"); struct stat s; stat(f.c_str(), &s); before = s.st_size; w.g = "/mine"; } long lim = before + size * i / (vc::thorough() ? 40 : 12) + (add ? 0 : 1);
      int st; pid_t c = fork(); if (!c) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {(rlim_t)lim, (rlim_t)lim}; setrlimit(RLIMIT_FSIZE, &l); bool t = throws([&] { put(*kind(n), w, add ? 2 : 0); }); _exit(t ? 1 : 0); }
      waitpid(c, &st, 0); std::string id = vc::cat("kind ", n, add ? " added to a file," : "", " where ", lim, " bytes fit"); bool ended = WIFEXITED(st), threw = ended && WEXITSTATUS(st) == 1; CK("disk:ends", ended, id, ": crashed"); if (!threw) { bool ok = false; try { ok = dump(*get(w, n)) == content(n); } catch (std::exception &) {} CK("disk:silent", ok, id, ": not reported"); } vc::transition(); vc::state(id); vc::outcome(vc::cat("disk", threw)); }
  }
}
int main(int argc, char **argv) {
  vc::init(argc, argv); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); bool th = vc::thorough();
  for (int n = 0; n < KINDS; n++) for (int w = 0; w < WAYS; w++) if (th || n < 4 || w == n % WAYS) { store_faults(n, w); read_faults(n, w); }
  for (int n = 0; n < KINDS; n++) if (th || n != 10) damaged(n);
  refusals();
  for (auto n : {"s", "w", "t"}) unlink(file(n).c_str());
  return vc::finish();
}
#endif

// Atmospheric states in files: every HDF5 call of storing and restoring failing
// in turn, every part of a file damaged, files put together from parts of
// others, and full disks.
#define H5TRACK_FILES
#define H5TRACK_LT
#include "vc.hpp"
#include "h5track.hpp"
#include "inter.hpp"
#include "objs.hpp"
#include "h5damage.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>

typedef nuSQUIDSAtm<Open> Atm;
static marray<double, 1> ar(V const &v) { marray<double, 1> a{v.size()}; std::copy(v.begin(), v.end(), a.begin()); return a; }
static std::shared_ptr<EarthAtm> earth(int i) { V x{0, .3, .7, 1}; auto e = std::make_shared<EarthAtm>(x, i ? V{3, 5, 6, 1} : V{8, 5, 4, 3}, V{.46, .47, .49, .5}); if (i) e->SetAtmosphereHeight(90); return e; }
static void start(Atm &a) {
  size_t nz = a.GetNumCos(), ne = a.GetNumE(), n = std::min(9u, a.GetNumNeu()); auto v = [](int z, int e, int r, int f) { return .3 + .1 * z + .2 * e + .05 * r + .15 * f; };
  if (a.GetNumRho() == 2) { marray<double, 4> w{nz, ne, 2, n}; for (unsigned z = 0; z < nz; z++) for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < 2; r++) for (unsigned f = 0; f < n; f++) w[z][e][r][f] = v(z, e, r, f); a.Set_initial_state(w, flavor); }
  else { marray<double, 3> w{nz, ne, n}; for (unsigned z = 0; z < nz; z++) for (unsigned e = 0; e < ne; e++) for (unsigned f = 0; f < n; f++) w[z][e][f] = v(z, e, 0, f); a.Set_initial_state(w, flavor); }
}
// What is stored.
struct Kind { NeutrinoType nt; int n; V cz, E; bool inter; Basis basis; int targets, planet; bool evolved, osc; };
static const std::vector<Kind> KINDS = {
  {neutrino, 3, {-.4, .2}, {50, 80, 300}, false, interaction, 0, 0, true, true}, {both, 3, {-.9, -.3, .5}, {100, 200}, true, interaction, 0, 1, true, true}, {antineutrino, 4, {-.1}, {70, 90}, false, mass, 0, 0, true, true},
  {antineutrino, 3, {-.2, .3}, {150, 400}, true, interaction, 1, 0, true, false}, {both, 4, {.1, .6}, {120}, false, interaction, 0, 1, false, true}, {neutrino, 3, {-.6, -.4, -.2, .1}, {90, 95}, true, mass, 2, 0, false, true}};
static const int NK = 6;
static std::shared_ptr<Atm> make(Kind const &x) {
  std::shared_ptr<Atm> a = std::make_shared<Atm>(ar(x.cz), nodes(x.E), (unsigned)x.n, x.nt, x.inter, library(x.targets, 0)); a->Set_EarthModel(earth(x.planet)); for (auto &q : a->GetnuSQuIDS()) { apply(q, params(x.n, 1)); q.Set_Basis(x.basis); }
  a->Set_IncludeOscillations(x.osc); if (x.inter && x.targets == 0) { a->Set_TauRegeneration(true); a->Set_GlashowResonance(true); } a->Set_h(200 * k.km); a->Set_rel_error(1e-3); a->Set_abs_error(1e-3); int i = 0; for (auto &q : a->GetnuSQuIDS()) if (i++ == 1) q.extra = 4; start(*a); if (x.evolved) { Quiet z; a->EvolveState(); } else if (x.inter) for (auto &q : a->GetnuSQuIDS()) q.InitializeInteractions(); return a;
}
static std::string dump(Atm &a) { std::string s; put(s, a.GetNumCos()); put(s, a.GetNumE()); for (double v : a.GetCosthRange()) put(s, v); for (double v : a.GetERange()) put(s, v); put(s, a.GetNumNodes()); for (auto &q : a.GetnuSQuIDS()) s += dump(q); auto c = a.GetCosthRange(), E = a.GetERange(); for (unsigned f = 0; f < a.GetNumNeu(); f++) for (unsigned r = 0; r < a.GetNumRho(); r++) put(s, a.EvalFlavor(f, c[0] + .7 * (c[c.size() - 1] - c[0]), E[0] + .4 * (E[E.size() - 1] - E[0]), r)); return s; }
static Atm &kind(int n) { static std::shared_ptr<Atm> m[NK]; if (!m[n]) { m[n] = make(KINDS[n]); } return *m[n]; }
static std::string const &content(int n) { static std::string s[NK]; if (s[n].empty()) s[n] = dump(kind(n)); return s[n]; }
// What it is restored into.
static std::shared_ptr<Atm> busy(int i) { if (i < 1) return std::make_shared<Atm>(ar({0., 1.}), 3u, neutrino); Kind x = KINDS[i]; x.cz = {-.7, -.5, 0, .7}; x.E = {20, 30, 40}; x.osc = x.evolved = i != 1; auto a = make(x); a->Set_EvalThreads(2); return a; }
static std::string dumped(std::string f, std::shared_ptr<Atm> a = nullptr) { Quiet z; if (!a) a = std::make_shared<Atm>(f); else a->ReadStateHDF5(f); return dump(*a); }
static void handles(const char *key, std::string const &id) { CK(key, open_ids.empty(), id, ": ", open_ids.size(), " left open"); for (auto h : std::set<hid_t>(open_ids)) H5Idec_ref(h); open_ids.clear(); }
static void unusable(std::string const &id, Atm &a) {
  CK("atmio:after", throws([&] { a.EvolveState(); }), id, ": evolves"); CK("atmio:after", throws([&] { a.WriteStateHDF5(file("w")); }), id, ": can be stored"); unlink(file("w").c_str());
  for (double c : {-.5, 0., .3}) for (double E : {25., 90.}) CK("atmio:after", throws([&] { a.EvalFlavor(0, c, E * k.GeV, 0); }) && throws([&] { std::vector<bool> v(3); a.EvalFlavor(0, c, E * k.GeV, 0, 1e9, v); }), id, ": has fluxes");
  throws([&] { start(a); }); throws([&] { a.Set_MixingAngle(0, 1, .3); a.Set_h(1 * k.km); a.Set_ProgressBar(false); }); // stays within its memory
}
static void goes_on(std::string const &id, Atm &a) { std::string w; { Quiet z; try { a.Set_h(200 * k.km); a.Set_rel_error(1e-3); a.Set_abs_error(1e-3); start(a); a.EvolveState(); } catch (std::exception &e) { w = e.what(); if (w == "") w = "?"; } } CK("atmio:goeson", w == "", id, ": does not go on: ", w); }
static const int WAYS = 4;
static std::string way(int w) { static const char *n[] = {"a new file", "a file to be replaced", "a file to be added to", "a new file not to be replaced"}; return n[w]; }
static void prepare(int w, std::string f) { unlink(f.c_str()); Quiet z; if (w == 1) kind(0).WriteStateHDF5(f); if (w == 2) kind(1).GetnuSQuIDS(0).WriteStateHDF5(f, "/other"); }
static void store_faults(int n, int w) {
  std::string f = file();
  auto one = [&](long c) {
    prepare(w, f); Atm &a = kind(n); content(n); open_ids.clear(); failed_name = ""; ncall = 0; fail_at = c; track = true;
    bool threw = throws([&] { a.WriteStateHDF5(f, w < 2); }); track = false; fail_at = -1; long calls = ncall; if (c < 0) { CK("atmio:works", !threw, "kind ", n, " into ", way(w)); handles("atmio:handles", "storing"); return calls; }
    std::string id = vc::cat("storing kind ", n, " in ", way(w), ", ", failed_name, " (call ", c, ") failing"); handles("atmio:handles", id);
    if (!threw) { std::string why; bool ok = false; try { ok = dumped(f) == content(n); } catch (std::exception &e) { why = e.what(); } CK("atmio:silent", ok, id, ": not reported, restored differently ", why); }
    if (w == 2) { bool ok = false; std::string why; try { Quiet z; Open o; o.ReadStateHDF5(f, "/other"); ok = dump(o) == dump(kind(1).GetnuSQuIDS(0)); } catch (std::exception &e) { why = e.what(); } CK("atmio:other", ok, id, ": what was in the file is lost ", why); }
    CK("atmio:object", dump(a) == content(n), id, ": the object has changed");
    prepare(w, f); bool ok = false; std::string why; try { { Quiet z; a.WriteStateHDF5(f, w < 2); } ok = dumped(f) == content(n); } catch (std::exception &e) { why = e.what(); } CK("atmio:retry", ok, id, ": cannot be repeated ", why);
    vc::transition(3); vc::state(id); vc::outcome(vc::cat(failed_name, threw, w)); vc::sample(vc::cat(id, threw ? " is reported" : " does no harm")); return calls; };
  static std::map<int, long> total; int key = n * WAYS + w; if (!total.count(key)) total[key] = one(-1);
  for (long i = 0; i < total[key]; i++) if (vc::begin()) one(i);
}
static void read_faults(int n, int into) {
  std::string f = file();
  auto one = [&](long c) {
    prepare(0, f); { Quiet z; kind(n).WriteStateHDF5(f); } auto q = busy(into); open_ids.clear(); failed_name = ""; ncall = 0; fail_at = c; track = true;
    bool threw = throws([&] { if (into < 0) q = std::make_shared<Atm>(f); else q->ReadStateHDF5(f); }); track = false; fail_at = -1; long calls = ncall; if (c < 0) { CK("atmio:restores", !threw, "kind ", n, " into ", into); handles("atmio:handles", "restoring"); return calls; }
    std::string id = vc::cat("restoring kind ", n, " into ", into, ", ", failed_name, " (call ", c, ") failing"); handles("atmio:handles", id);
    if (threw) { if (into >= 0) unusable(id, *q); } else CK("atmio:silent", dump(*q) == content(n), id, ": not reported, restored differently");
    bool ok = false; std::string why; try { ok = dumped(f, q) == content(n); } catch (std::exception &e) { why = e.what(); } CK("atmio:retry", ok, id, ": cannot be repeated ", why); if (ok && c % 4 == 0) goes_on(id, *q);
    vc::transition(3); vc::state(id); vc::outcome(vc::cat(failed_name, threw)); vc::sample(vc::cat(id, threw ? " is reported" : " does no harm")); return calls; };
  static std::map<int, long> total; int key = n * 100 + into; if (!total.count(key)) total[key] = one(-1);
  for (long i = 0; i < total[key]; i++) if (vc::begin()) one(i);
}
static void refused(std::string const &id, std::string f, int into, std::string const &good, int n, bool must) {
  auto q = busy(into); open_ids.clear(); track = true; bool threw = throws([&] { q->ReadStateHDF5(f); }); track = false; handles("atmio:handles", id);
  if (threw) unusable(id, *q); else { if (must) CK("atmio:damage", dump(*q) == content(n), id, ": accepted"); throws([&] { dump(*q); }); if (n >= 0) throws([&] { q->Set_h(200 * k.km); q->EvolveState(); }); }
  if (good.size()) { spit(f, good); bool ok = false; std::string why; try { ok = dumped(f, q) == content(n); } catch (std::exception &e) { why = e.what(); } CK("atmio:retry", ok, id, ": the sound file cannot be read afterwards ", why); }
  vc::transition(2); vc::state(id); vc::outcome(vc::cat(id.substr(id.find("with") + 4), threw)); vc::sample(vc::cat(id, threw ? " is refused" : " is as good"));
}
static std::string sound(int n) { static std::string s[NK]; if (s[n].empty()) { std::string f = file(); Quiet z; unlink(f.c_str()); kind(n).WriteStateHDF5(f); s[n] = slurp(f); } return s[n]; }
static void damaged(int n) {
  std::string f = file(); spit(f, sound(n)); auto all = parts(f);
  for (auto &x : all) for (int d = 0; d < DAMAGE; d++) if (vc::begin()) {
    spit(f, sound(n)); std::string what = damage(f, x, d); if (what == "") continue; bool basic = x.obj.find("/basic") != std::string::npos;
    bool optional = d == 0 && (x.attr == "oscillations" || x.attr == "tau_regeneration" || x.attr == "glashow_resonance" || x.attr == "basis" || x.attr == "extra" || x.attr == "radius" || x.attr == "atm_height" || x.attr == "earth_radius" || x.attr == "atmheight"), value = x.type == 'a' && (what == "negative" || what == "huge") && basic && x.attr != "numneu";
    refused(vc::cat("kind ", n, " with ", x.obj, x.attr.empty() ? "" : " ", x.attr, " ", what), f, d % 2, sound(n), n, !optional && !value);
  }
  for (int i = 0; i < 24; i++) if (vc::begin()) { spit(f, sound(n).substr(0, sound(n).size() * i / 24)); refused(vc::cat("kind ", n, " with its file cut to ", i, "/24"), f, 0, "", n, true); }
  // parts of other calculations in the place of one zenith's
  for (size_t z = 0; z < KINDS[n].cz.size(); z++) for (int m = 0; m < NK + 5; m++) if (vc::begin()) {
    spit(f, sound(n)); std::string g = "/costh_" + std::to_string(KINDS[n].cz[z]), what; std::shared_ptr<Open> o; Kind const &x = KINDS[n]; bool same_ = m == n;
    if (m < NK) { what = vc::cat("a zenith of kind ", m); }
    else { unsigned nn = x.n; NeutrinoType nt = x.nt; V E = x.E; bool inter = x.inter; std::shared_ptr<Body> b = earth(x.planet); std::shared_ptr<Track> t = std::make_shared<EarthAtm::Track>(earth(x.planet)->MakeTrackWithCosine(x.cz[z]));
      switch (m - NK) { case 0: what = "more flavors"; nn++; break; case 1: what = "another type"; nt = x.nt == neutrino ? antineutrino : neutrino; break; case 2: what = "other energies"; E.back() *= 1.5; break; case 3: what = "another medium"; b = std::make_shared<ConstantDensity>(3, .5); t = std::make_shared<ConstantDensity::Track>(0, 30 * k.km); break; default: what = "interactions switched"; inter = !inter; }
      o = std::make_shared<Open>(nodes(E), nn, nt, inter, library(x.targets, 0)); o->Set_Body(b); o->Set_Track(t); fill(*o); if (inter) o->InitializeInteractions(); }
    hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); H5Ldelete(h, g.c_str(), H5P_DEFAULT); H5Fclose(h);
    bool works = !throws([&] { (o ? *o : kind(m).GetnuSQuIDS(0)).WriteStateHDF5(f, g, false, "", false); }); CK("atmio:setup", works, "could not be set up"); bool whole = x.cz.size() == 1, ok_ = false;
    // a calculation of a single zenith is what that zenith is
    if (m < NK) { Kind const &y = KINDS[m]; ok_ = y.n == x.n && y.nt == x.nt && y.inter == x.inter && y.E == x.E && y.targets == x.targets; } if (whole && (m == NK || m == NK + 1)) ok_ = true;
    auto q = busy(z % 2); open_ids.clear(); track = true; bool threw = throws([&] { q->ReadStateHDF5(f); }); track = false; std::string id = vc::cat("kind ", n, " with zenith ", z, " replaced by ", what); handles("atmio:handles", id);
    CK("atmio:mixed", threw != (ok_ || same_), id, threw ? ": refused" : ": accepted"); if (threw) unusable(id, *q); else throws([&] { dump(*q); });
    spit(f, sound(n)); bool ok = false; try { ok = dumped(f, q) == content(n); } catch (std::exception &) {} CK("atmio:retry", ok, id, ": the sound file cannot be read afterwards"); vc::transition(2); vc::state(id); vc::outcome(vc::cat(what, threw)); }
}
static void refusals(int n) {
  std::string f = file(); Atm &a = kind(n); content(n);
  if (vc::begin()) { unlink(f.c_str()); for (int into : {0, 1}) { auto q = busy(into); CK("atmio:absent", throws([&] { q->ReadStateHDF5(f); }) && throws([&] { q->ReadStateHDF5(vc::C().tmp); }) && throws([&] { Atm z(f); }), "no file"); unusable(vc::cat("no file for ", into), *q); }
    { Quiet z; a.GetnuSQuIDS(0).WriteStateHDF5(f); } CK("atmio:single", throws([&] { dumped(f); }), "kind ", n, ": a single path is read as an atmospheric state"); spit(f, "notes"); CK("atmio:text", throws([&] { dumped(f); }) && throws([&] { a.WriteStateHDF5(f, false); }) && slurp(f) == "notes", "a text is read or added to"); vc::transition(5); vc::state(vc::cat("absent", n)); vc::outcome("absent"); }
  for (int m = 0; m < NK; m++) if (vc::begin()) { unlink(f.c_str()); { Quiet z; a.WriteStateHDF5(f); } CK("atmio:occupied", throws([&] { kind(m).WriteStateHDF5(f, false); }), "kind ", m, " over kind ", n, ": accepted"); bool ok = false; try { ok = dumped(f) == content(n); } catch (std::exception &) {} CK("atmio:occupied", ok, "kind ", m, " over kind ", n, ": lost");
    content(m); { Quiet z; kind(m).WriteStateHDF5(f); } ok = false; try { ok = dumped(f) == content(m); } catch (std::exception &) {} CK("atmio:replace", ok, "kind ", m, " in the place of kind ", n, ": not what is read"); vc::transition(4); vc::state(vc::cat("occupied", n, m)); vc::outcome("occupied"); }
  if (vc::begin()) { // the user's own part failing at each zenith
    for (size_t z = 0; z < KINDS[n].cz.size(); z++) { auto b = make(KINDS[n]); b->GetnuSQuIDS(z).broken = true; unlink(f.c_str()); open_ids.clear(); track = true; CK("atmio:user", throws([&] { b->WriteStateHDF5(f); }), "kind ", n, " zenith ", z); track = false; handles("atmio:handles", "the user's part failing"); b->GetnuSQuIDS(z).broken = false; std::string was = dump(*b); { Quiet q; b->WriteStateHDF5(f); } bool ok = false; try { ok = dumped(f) == was; } catch (std::exception &) {} CK("atmio:user", ok, "kind ", n, " after zenith ", z, ": not restored"); vc::transition(2); } vc::state(vc::cat("user", n)); vc::outcome("user"); }
  if (vc::begin()) { CK("atmio:path", throws([&] { a.WriteStateHDF5(vc::C().tmp + "/no/such/dir"); }) && throws([&] { a.WriteStateHDF5(vc::C().tmp + "/no/such/dir", false); }), "unwritable path"); Atm none(ar({0., 1.}), 3u, neutrino), stolen(std::move(none)); CK("atmio:none", throws([&] { none.WriteStateHDF5(f); }) && throws([&] { none.WriteStateHDF5(f, false); }), "an object without content is stored"); Kind x = KINDS[n]; unlink(f.c_str()); Atm fresh(ar(x.cz), nodes(x.E), (unsigned)x.n, x.nt, x.inter, library(x.targets, 0)); CK("atmio:none", throws([&] { fresh.WriteStateHDF5(f); }) && access(f.c_str(), F_OK), "an object without a state is stored"); vc::transition(4); vc::state(vc::cat("none", n)); vc::outcome("none"); }
  long size = sound(n).size(); int parts_ = vc::thorough() ? 60 : 16;
  for (int add = 0; add < 2; add++) for (int i = 0; i < parts_; i++) if (vc::begin()) {
    prepare(add ? 2 : 0, f); long before = 0; if (add) { struct stat s; stat(f.c_str(), &s); before = s.st_size; } long lim = before + size * i / parts_ + (add ? 0 : 1);
    int st; pid_t c = fork(); if (!c) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {(rlim_t)lim, (rlim_t)lim}; setrlimit(RLIMIT_FSIZE, &l); bool t = throws([&] { a.WriteStateHDF5(f, !add); }); _exit(t ? 1 : 0); }
    waitpid(c, &st, 0); std::string id = vc::cat("kind ", n, add ? " added to a file," : "", " where ", lim, " bytes fit"); bool ended = WIFEXITED(st), threw = ended && WEXITSTATUS(st) == 1; CK("atmio:disk", ended, id, ": crashed"); if (!threw) { bool ok = false; try { ok = dumped(f) == content(n); } catch (std::exception &) {} CK("atmio:disk", ok, id, ": not reported"); } vc::transition(); vc::state(id); vc::outcome(vc::cat("disk", threw)); }
}
int main(int argc, char **argv) {
  vc::init(argc, argv); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); bool th = vc::thorough(); for (int n = 0; n < NK; n++) content(n);
  for (int n = 0; n < NK; n++) { for (int w = 0; w < WAYS; w++) if (th || w == n % WAYS || n == 1) store_faults(n, w); for (int into = -1; into < 3; into++) if (th || (n + into) % 2 == 0) read_faults(n, into); if (th || n == 0 || n == 2 || n == 3 || n == 4) damaged(n); refusals(n); }
  for (auto n : {"s", "w"}) unlink(file(n).c_str());
  return vc::finish();
}

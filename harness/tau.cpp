// C14: tau decay spectra against the published formulae.
#include "vc.hpp"
#include <nuSQuIDS/taudecay.h>
#include <stdexcept>
#include <memory>
using namespace nusquids;
typedef long double ld;
static const ld RPI = 0.07856L * 0.07856L, RRHO = 0.43335L * 0.43335L, RA1 = 0.70913L * 0.70913L;
// P = -1
static ld lep(ld z) { return 4 / 3.L - 4 / 3.L * z * z * z; }
static ld pion(ld z) { ld q = 1 - RPI; return z < q ? 1 / q + (2 * z - q) / (q * q) : 0; }
static ld vec(ld z, ld r) { ld q = 1 - r; return z < q ? 1 / q + (2 * z - q) / q * (1 - 2 * r) / (1 + 2 * r) : 0; }
static ld had(ld z) { return z < 0.3L ? 1 / 0.3L : 0; }
static ld all(ld z) { return 2 * 0.18L * lep(z) + 0.12L * pion(z) + 0.26L * vec(z, RRHO) + 0.13L * vec(z, RA1) + 0.13L * had(z); }
static bool edge(ld z) { for (ld q : {1 - RPI, 1 - RRHO, 1 - RA1, 0.3L}) if (std::fabs(z - q) < 1e-12L) return true; return false; }
static bool near(double a, ld e) { return std::fabs(a - e) <= 1e-12L * (std::fabs(e) + 1); }

static void spectra() {
  for (int mode = 0; mode < 3; mode++) for (double E : {1., 0.1, 3.7e3, 1e9, 7.7e15, 1e20}) for (int k = 0; k <= 400; k++) {
    if (!vc::begin()) continue;
    std::unique_ptr<TauDecaySpectra> t(mode == 0 ? new TauDecaySpectra() : mode == 1 ? new TauDecaySpectra(false) : new TauDecaySpectra(true));
    double z = k / 400.; ld zz = (ld)(E * z) / E; if (edge(zz)) continue;
    std::string id = vc::cat("E_tau ", E, " fraction ", z); vc::state(id); vc::transition(6); vc::trace(); vc::eval();
    struct { const char *n; double g; ld e; } q[] = {{"lepton", t->TauDecayToLepton(E, E * z), lep(zz)}, {"pion", t->TauDecayToPion(E, E * z), pion(zz)}, {"rho", t->TauDecayToRho(E, E * z), vec(zz, RRHO)}, {"a1", t->TauDecayToA1(E, E * z), vec(zz, RA1)}, {"hadron", t->TauDecayToHadron(E, E * z), had(zz)}, {"all", t->TauDecayToAll(E, E * z), all(zz)}};
    for (auto &x : q) { if (!near(x.g, x.e)) vc::fail(std::string("spectrum:") + x.n, vc::cat(id, ": ", x.g, " instead of ", (double)x.e)); if (!(x.g >= -1e-12)) vc::fail(std::string("negative:") + x.n, id); vc::outcome(vc::cat(x.n, k)); }
    if (k % 200 == 100) vc::sample(vc::cat(id, " all ", q[5].g));
  }
  // each is normalised, the branching fractions add up
  if (vc::begin()) {
    TauDecaySpectra t; double s[6] = {0}; const int N = 2000000; vc::eval(6);
    for (int i = 0; i < N; i++) { double z = (i + 0.5) / N; s[0] += t.TauDecayToLepton(1, z); s[1] += t.TauDecayToPion(1, z); s[2] += t.TauDecayToRho(1, z); s[3] += t.TauDecayToA1(1, z); s[4] += t.TauDecayToHadron(1, z); s[5] += t.TauDecayToAll(1, z); if (i % 100000 == 0) vc::beat(); }
    for (int i = 0; i < 6; i++) if (std::fabs(s[i] / N - 1) > 1e-5) vc::fail("norm", vc::cat("channel ", i, ": ", s[i] / N));
    if (t.GetTauToLeptonBranchingRatio() != 0.18 || t.GetTauToHadronBranchingRatio() != 0.13) vc::fail("branching", "");
  }
}
template <class F> static int refused(F f) { try { f(); } catch (std::runtime_error &) { return 1; } catch (...) { return 2; } return 0; }
static bool table(TauDecaySpectra const &t, std::vector<double> const &E, std::string const &id, bool last) {
  unsigned n = E.size(); bool ok = true;
  for (unsigned r = 0; r < 2; r++) for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) {
    ld e1 = (ld)E[i] / 1e9L, e2 = (ld)E[j] / 1e9L, z = e2 / e1; if (edge(z)) continue;
    vc::transition(4);
    struct { const char *n; double g; ld e; } q[] = {{"dNdEnu_All", t.dNdEnu_All(i, j, r), all(z) / e1}, {"dNdEnu_Lep", t.dNdEnu_Lep(i, j, r), 0.18L * lep(z) / e1}, {"dNdEle_All", t.dNdEle_All(i, j, r), all(z) * e2 / (e1 * e1)}, {"dNdEle_Lep", t.dNdEle_Lep(i, j, r), 0.18L * lep(z) * e2 / (e1 * e1)}};
    for (auto &x : q) if (!(std::fabs(x.g - x.e) <= 1e-11L * (std::fabs(x.e) + 1 / e1))) { vc::fail(std::string("table:") + x.n, vc::cat(id, " type ", r, " nodes ", i, ",", j, ": ", x.g, " instead of ", (double)x.e)); ok = false; }
  }
  if (last) for (unsigned i : {0u, n ? n - 1 : 0u, n, 4294967295u}) for (unsigned j : {0u, n ? n - 1 : 0u, n, 4294967295u}) for (unsigned r : {0u, 1u, 2u, 4294967295u}) {
    int want = (i >= n || j >= n || r >= 2) ? 1 : 0; vc::eval(4);
    int g[4] = {refused([&] { t.dNdEnu_All(i, j, r); }), refused([&] { t.dNdEnu_Lep(i, j, r); }), refused([&] { t.dNdEle_All(i, j, r); }), refused([&] { t.dNdEle_Lep(i, j, r); })};
    for (int k = 0; k < 4; k++) if (g[k] != want) { vc::fail("index", vc::cat(id, " table ", k, " nodes ", i, ",", j, " type ", r, want ? " accepted" : " refused")); ok = false; }
  }
  if (n) { if (t.dNdEnu_All(0, n - 1) != t.dNdEnu_All(0, n - 1, 0) || t.dNdEnu_Lep(n - 1, 0) != t.dNdEnu_Lep(n - 1, 0, 0) || t.dNdEle_All(0, n - 1) != t.dNdEle_All(0, n - 1, 0) || t.dNdEle_Lep(n - 1, 0) != t.dNdEle_Lep(n - 1, 0, 0)) { vc::fail("default type", id); ok = false; } }
  return ok;
}
static marray<double, 1> arr(std::vector<double> const &v) { marray<double, 1> a{(unsigned)v.size()}; for (size_t i = 0; i < v.size(); i++) a[i] = v[i]; return a; }
static void tables() {
  std::vector<std::vector<double>> G{{}, {5e9}, {1e9, 2e9}, {1e9, 3e9, 1e10}, {2e9, 1e9}, {1e11, 1.5e11, 2e11, 1e15}, {1e2, 1e6, 1e8, 3e9, 4.4e12, 1e18, 2e18}, {7e9, 7e9, 8e9}};
  { std::vector<double> b; for (int i = 0; i < 20; i++) b.push_back(1e9 * std::pow(2.3, i)); G.push_back(b); }
  // every sequence of grids given to one object; copies and moves keep their tables
  unsigned depth = vc::thorough() ? 4 : 3, base = G.size() + 3, tot = 1; for (unsigned i = 0; i < depth; i++) tot *= base;
  for (unsigned c = 0; c < tot; c++) {
    if (!vc::begin()) continue;
    unsigned q = c; std::unique_ptr<TauDecaySpectra> t(new TauDecaySpectra()); const std::vector<double> *cur = nullptr; std::string id; vc::trace(); vc::eval();
    for (unsigned i = 0; i < depth; i++, q /= base) {
      unsigned o = q % base; id += vc::cat(o, " "); vc::transition(); vc::state(id);
      if (o < G.size()) { if (i == 0) t.reset(new TauDecaySpectra(arr(G[o]))); else t->Init(arr(G[o])); cur = &G[o]; }
      else if (o == G.size()) { std::unique_ptr<TauDecaySpectra> u(new TauDecaySpectra(*t)); t.swap(u); }
      else if (o == G.size() + 1) { std::unique_ptr<TauDecaySpectra> u(new TauDecaySpectra(std::move(*t))); t.swap(u); }
      else { TauDecaySpectra u(arr({3e9, 4e9})); u = *t; TauDecaySpectra w; w = std::move(u); *t = w; }
      if (!table(*t, cur ? *cur : std::vector<double>(), id, i + 1 == depth)) break;
    }
    vc::outcome(c % 511);
  }
}
int main(int argc, char **argv) { vc::init(argc, argv); spectra(); tables(); return vc::finish(); }

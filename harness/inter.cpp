// Interactions, tau regeneration, the resonance and sources: every combination
// of them along sequences of path segments, compared with a direct integration
// of the transport equation.
#include "vc.hpp"
#include "inter.hpp"
static void sequence(Cfg const &c, std::vector<Seg> const &g) {
  if (!vc::begin()) return;
  try {
    Run r(c); double L[] = {900 * k.km, 600 * k.km, 400 * k.km}, a = 200 * k.km;
    for (size_t i = 0; i < g.size(); i++) { double o = i == 1 ? 300 * k.km : a; r.segment(g[i], o, o + L[i], i > 0); }
    if (c.inter) r.tables(g.back().gr);
    vc::state(vc::cat(name(c), r.log)); std::string o; for (auto &x : r.s) for (auto &m : x) o += vc::cat(std::round(m(0, 0).real() * 1e6), " "); vc::outcome(o);
    vc::sample(vc::cat(name(c), " ", r.log, " leaves electron component ", r.s[0][0](0, 0).real()));
  } catch (std::exception &e) { std::string l; for (auto &x : g) l += " " + name(x); vc::fail("inter:exception", vc::cat(name(c), l, ": exception ", e.what())); }
}

// Cross sections which cannot be used: the tables are refused, and can be made
// once the cross sections are in order again.
static void faults(Cfg c, bool gr) {
  long total[4] = {0, 0, 0, 0}; int nt = 0;
  { std::vector<std::shared_ptr<Xs>> x; Run r(c, library(c.targets, c.set, true, &x)); for (auto &p : x) p->bad = -2; if (gr) r.q.Set_GlashowResonance(true); r.q.InitializeInteractions(); nt = x.size(); for (int i = 0; i < nt; i++) total[i] = x[i]->calls; }
  for (int t = 0; t < nt; t++) for (long at = 0; at < total[t]; at++) for (int how = 0; how < 5; how++) {
    if (!vc::begin()) continue;
    const double vals[] = {NAN, -1e-40, INFINITY, -INFINITY, 0}; std::vector<std::shared_ptr<Xs>> x; auto l = library(c.targets, c.set, true, &x); Run r(c, l);
    std::string id = vc::cat(name(c), gr ? " resonance" : "", " target ", t, " call ", at, how == 4 ? std::string(" failing") : vc::cat(" returning ", vals[how])); vc::state(id); vc::transition(2);
    if (gr) r.q.Set_GlashowResonance(true);
    x[t]->bad = at; x[t]->val = vals[how]; x[t]->thr = how == 4; bool refused = false, evolved = false;
    try { r.q.InitializeInteractions(); } catch (std::runtime_error &e) { refused = true; } catch (...) { vc::fail("inter:refusal", id + ": another exception"); }
    CK("inter:refusal", refused, id, ": accepted");
    bool given = true; try { r.q.GetInteractionStructure(); } catch (std::logic_error &) { given = false; } CK("inter:refusal", !given, id, ": tables given out");
    for (int i = 0; i < nt; i++) x[i]->calls = 0;
    refused = false; auto m = medium(1); r.start(m, 0, 300 * k.km);
    try { r.q.EvolveState(); } catch (std::runtime_error &) { refused = true; } CK("inter:refusal", refused, id, ": evolved at the second attempt");
    for (int i = 0; i < nt; i++) x[i]->bad = -1;
    try { if (at % 2) r.q.SetNeutrinoCrossSections(library(c.targets, c.set)); r.log = id + " repaired "; r.segment({4, true, false, gr, false, false, false, false}, 100 * k.km, 400 * k.km, false); r.tables(gr); vc::outcome(id); } catch (std::exception &e) { vc::fail("inter:recovery", vc::cat(id, ": ", e.what())); }
  }
}
// Other cross sections given between segments.
static void replace(Cfg c, int t2, int s2, int bits) {
  if (!vc::begin()) return;
  Seg g{1, bool(bits & 1), bool(bits & 2) && c.nt == both, bool(bits & 4), false, false, false, false};
  try {
    Run r(c); r.segment(g, 0, 500 * k.km, false); auto old = r.q.GetInteractionStructure(); auto copy = old->sigma_CC; double s0 = copy[0][0][0][0];
    r.q.SetNeutrinoCrossSections(library(t2, s2)); r.c.targets = r.ref.c.targets = t2; r.c.set = r.ref.c.set = s2; g.med = 4; r.log += vc::cat(" then targets ", t2, " set ", s2);
    r.segment(g, 100 * k.km, 500 * k.km, true); r.tables(g.gr); CK("inter:shared", old->sigma_CC[0][0][0][0] == s0, r.log);
    vc::state(r.log + name(c)); vc::outcome(vc::cat(r.s[0][0](0, 0).real()));
  } catch (std::exception &e) { vc::fail("inter:replace", vc::cat(name(c), " targets ", t2, " set ", s2, ": ", e.what())); }
}
// Libraries which lack what is needed.
static void missing() {
  for (int has = 0; has < 16; has++) for (NeutrinoType nt : {neutrino, antineutrino, both}) for (int gr = 0; gr < 2; gr++) {
    if (!vc::begin()) continue;
    auto l = std::make_shared<CrossSectionLibrary>(); PDGCode p[] = {proton, neutron, isoscalar_nucleon, electron};
    for (int i = 0; i < 4; i++) if (has >> i & 1) l->addTarget(p[i], std::shared_ptr<NeutrinoCrossSections>(std::make_shared<Xs>(i, 0)));
    bool pn = (has & 3) == 3, can = (pn || (has & 4)) && (!gr || nt == neutrino || (has & 8)), did = true;
    Cfg c{nt, 3, 3, interaction, pn ? 0 : 1, 0, true, false, 3}; Run r(c, l); std::string id = vc::cat("targets ", has, " ", name(c), gr ? " resonance" : ""); vc::state(id); vc::transition();
    if (gr) r.q.Set_GlashowResonance(true);
    try { r.q.InitializeInteractions(); } catch (std::runtime_error &) { did = false; }
    CK("inter:missing", did == can, id, did ? " accepted" : " refused"); vc::outcome(vc::cat(has, did));
    try { if (!did) { r.q.SetNeutrinoCrossSections(library(r.c.targets, 0)); } r.segment({1, true, false, bool(gr), false, false, false, false}, 0, 300 * k.km, false); r.tables(gr); } catch (std::exception &e) { vc::fail("inter:missing", vc::cat(id, ": ", e.what())); }
  }
}

int main(int argc, char **argv) {
  vc::init(argc, argv); bool th = vc::thorough();
  // one segment: every configuration and every combination of effects
  for (NeutrinoType nt : {neutrino, antineutrino, both}) for (int n = 3; n <= 4; n++) for (int ne = 1; ne <= (th ? 9 : 6); ne++) for (Basis b : {interaction, mass}) for (int tg = 0; tg < 3; tg++) for (int set = 0; set < 3; set++) {
    if (set && tg == 1) continue;
    if (!th && (n == 4 || b == mass) && (ne == 2 || ne == 3)) continue;
    for (int bits = 0; bits < 16; bits++) { Seg s{1, bool(bits & 1), bool(bits & 2), bool(bits & 4), bool(bits & 8), false, false, false};
      if (s.tau && nt != both) continue;
      if (!th && (tg == 2 || set) && bits != 1 && bits != 3 && bits != 7 && bits != 15 && bits != 6) continue;
      for (int med = 0; med < 5; med++) for (int init : {0, 2, 3}) {
        if (!th && (med + init + ne) % 3 && !(ne == 5 && med == 4)) continue;
        if (!th && n == 4 && init != 3) continue;
        s.med = med; sequence({nt, n, ne, b, tg, set, true, false, init}, {s});
        if (init == 3 && med) { Seg t = s; t.rev = true; if (med == 1 && !s.tau) sequence({nt, n, ne, b, tg, set, true, false, init}, {t}); t.rev = false; t.fast = true; sequence({nt, n, ne, b, tg, set, true, false, init}, {t}); t.pos = true; if (med == 4) sequence({nt, n, ne, b, tg, set, true, false, init}, {t}); }
      }
    }
  }
  // sources alone
  for (NeutrinoType nt : {neutrino, antineutrino, both}) for (int n = 3; n <= 5; n++) for (int ne = 0; ne <= 4; ne++) for (Basis b : {interaction, mass}) for (int med = 0; med < 5; med++) for (int o = 0; o < 8; o++) {
    if (ne == 0 && nt == both) continue;
    sequence({nt, n, std::max(ne, 1), b, 0, 0, false, ne == 0, 3}, {{med, bool(o & 1), false, false, true, bool(o & 4), false, bool(o & 2)}});
  }
  // sequences of segments between which effects are switched
  for (NeutrinoType nt : {antineutrino, both}) for (Basis b : {interaction, mass}) for (int tg = 0; tg < 2; tg++) for (int x = 0; x < 16; x++) for (int y = 0; y < 16; y++) {
    auto seg = [&](int bits, int med) { return Seg{med, bool(bits & 1), bool(bits & 2) && nt == both, bool(bits & 4), bool(bits & 8), false, false, false}; };
    if (nt != both && ((x | y) & 2)) continue;
    if (!th && b == mass && tg) continue;
    sequence({nt, 3, 5, b, tg, 0, true, false, 3}, {seg(x, 1), seg(y, 4)});
    if (th || ((x ^ y) == 15)) for (int z = 0; z < 16; z++) { if (nt != both && (z & 2)) continue; sequence({nt, 3, 4, b, tg, 0, true, false, 3}, {seg(x, 4), seg(y, 3), seg(z, 1)}); }
  }
  for (Basis b : {interaction, mass}) for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) for (int z = 0; z < 4; z++) sequence({both, 3, 2, b, 0, 0, false, false, 3}, {{1, bool(x & 1), false, false, bool(x & 2), false, false, false}, {4, bool(y & 1), false, false, bool(y & 2), false, false, true}, {1, bool(z & 1), false, false, bool(z & 2), false, false, true}});
  for (NeutrinoType nt : {antineutrino, both}) { faults({nt, 3, 2, interaction, 0, 0, true, false, 3}, nt == antineutrino); faults({nt, 3, 3, interaction, 1, 0, true, false, 3}, nt == both); }
  for (NeutrinoType nt : {neutrino, antineutrino, both}) for (int ne = 2; ne <= 4; ne += 2) for (int t = 0; t < 2; t++) for (int t2 = 0; t2 < 2; t2++) for (int s2 : {0, 2, 3}) for (int bits = 0; bits < 8; bits++) if (!(bits & 2) || nt == both) replace({nt, 3, ne, interaction, t, 0, true, false, 3}, t2, s2, bits);
  missing();
  return vc::finish();
}

// Classes derived from the propagation, which add terms of their own to the
// Hamiltonian, the absorption and the interactions, compared with a direct
// integration of the master equation with these terms; what they are told
// before each evaluation; and what they keep in files.
#include "vc.hpp"
#include "inter.hpp"
#include "objs.hpp"
#include <hdf5.h>
#ifndef PART
#define PART 0
#endif
struct Terms { double h, g, o; bool flat; Terms(double h = 0, double g = 0, double o = 0, bool flat = false) : h(h), g(g), o(o), flat(flat) {} }; // strengths
static std::string name(Terms const &t) { return vc::cat(t.h ? " hamiltonian" : "", t.g ? " absorption" : "", t.o ? " interactions" : "", t.flat ? " constant" : ""); }
static M herm_(int n, int s) { M m(n); for (int i = 0; i < n; i++) { m(i, i) = .9 - .5 * ((i + s) % 3); for (int j = 0; j < i; j++) { m(i, j) = C(.3 + .2 * i - .1 * s, .4 - .3 * j + .1 * s); m(j, i) = std::conj(m(i, j)); } } return m; }
static M const &herm(int n, int s) { static std::vector<M> all = [] { std::vector<M> v; for (int n = 0; n < 6; n++) for (int s = 0; s < 3; s++) v.push_back(herm_(n, s)); return v; }(); return all[3 * n + s]; }
static double wave(Terms const &t, double x) { return t.flat ? 1 : 1 + .4 * sin(x / (700 * k.km)); }
// The added terms, in the flavor basis, for energy E at position x in a medium.
static M addH(Terms const &t, int n, double E, bool anti, double x, double rho, double ye) { M m = herm(n, 0); if (anti) m = m.conj(); return C((anti ? -1 : 1) * t.h * E / (10 * k.GeV) * wave(t, x) * (.5 + rho * ye / 5) / (900 * k.km)) * m; }
static M addG(Terms const &t, int n, double E, bool anti, double x, double rho) { M v = herm(n, 1); return C(t.g * (anti ? 1.3 : 1) * sqrt(E / (10 * k.GeV)) * wave(t, x) * (1 + rho / 20) / (4000 * k.km)) * (v * v); }
// of state q, mixing u: coherence between mass states is lost, neutrinos of a mixed flavor come in
static M addO(Terms const &t, int n, double E, bool anti, double x, M const &q, M const &u) {
  M m = u.dag() * q * u; for (int i = 0; i < n; i++) m(i, i) = 0; M v = herm(n, 2); if (anti) v = v.conj();
  return C(-t.o * wave(t, x) / (1500 * k.km)) * (u * m * u.dag()) + C(.1 * t.o * (1 + E / (20 * k.GeV)) * wave(t, x) / (1000 * k.km)) * v;
}
static squids::SU_vector vec(M const &m) { squids::SU_vector v(m.n); squids::SU_vector::M d(m.n * m.n); for (int i = 0; i < m.n * m.n; i++) d[i] = m.a[i]; v.set(d); return v; }

struct Ext : nuSQUIDS {
  using nuSQUIDS::ReadStateHDF5Internal;
  Terms t; std::shared_ptr<Src> watch; mutable long writes = 0; long reads = 0, pre = 0, failpre = -1; mutable long failwrite = -1, failread = -1; double seen = NAN, shift = NAN; std::string id; std::vector<double> list; bool checks = true;
  Ext() {}
  Ext(marray<double, 1> E, unsigned n, NeutrinoType nt, bool inter, std::shared_ptr<CrossSectionLibrary> l = nullptr, Terms t = Terms()) : nuSQUIDS(E, n, nt, inter, l), t(t) { on(); }
  Ext(unsigned n, NeutrinoType nt, Terms t = Terms()) : nuSQUIDS(n, nt), t(t) { on(); }
  void on() { Set_NonCoherentRhoTerms(true); Set_OtherRhoTerms(true); }
  bool anti(unsigned r) const { return NT == antineutrino || (NT == both && r == 1); }
  Par par() const { Par p; p.n = numneu; for (int i = 0; i < 6; i++) { p.dm[i] = 0; for (int j = 0; j < 6; j++) p.th[i][j] = p.de[i][j] = 0; } for (unsigned j = 1; j < numneu; j++) { p.dm[j] = Get_SquareMassDifference(j); for (unsigned i = 0; i < j; i++) { p.th[i][j] = Get_MixingAngle(i, j); p.de[i][j] = Get_CPPhase(i, j); } } return p; }
  M us[2]; M const &u(unsigned r) const { return us[r]; }
  // an operator, given in the flavor basis, in the picture the solution uses
  squids::SU_vector op(M const &m, unsigned e, unsigned r) const { M const &w = u(r); squids::SU_vector v = vec(w.dag() * m * w); if (basis == mass) return v; return squids::SU_vector(v.Evolve(H0_array[e], Get_t() - Get_t_initial())); }
  M flavor_(squids::SU_vector const &v, unsigned e, unsigned r) const { M const &w = u(r); if (basis == mass) return w * mat(v) * w.dag(); return w * mat(squids::SU_vector(v.Evolve(H0_array[e], -(Get_t() - Get_t_initial())))) * w.dag(); }
  void AddToPreDerive(double x) override {
    if (pre++ == failpre) throw std::runtime_error("terms not set");
    seen = track->GetX(); Par now = par(); for (unsigned r = 0; r < nrhos; r++) us[r] = now.u(anti(r));
    if (!std::isnan(shift)) CK("ext:position", fabs(seen - (x + shift)) <= 1e-9 * (fabs(x) + fabs(seen)) + 1e-3 && x == Get_t(), id, ": at ", seen / k.km, " instead of ", (x + shift) / k.km);
    if (watch) CK("ext:medium", current_density == watch->rho(seen) && current_ye == watch->e(seen), id, ": density ", current_density, " electron fraction ", current_ye, " instead of ", watch->rho(seen), " ", watch->e(seen));
    if (checks && pre % 32 == 1) for (unsigned r = 0; r < nrhos; r++) for (unsigned e = 0; e < ne; e++) for (unsigned f = 0; f < numneu; f++) { M p(numneu); p(f, f) = 1; double d = (flavor_(evol_b1_proj[r][f][e], e, r) - p).norm(); CK("ext:projector", d <= 1e-8, id, ": flavor ", f, " node ", e, " off by ", d); }
  }
  void there() const { CK("ext:order", seen == track->GetX(), id, ": a term is asked for at ", track->GetX() / k.km, ", the preparation was for ", seen / k.km); }
  squids::SU_vector HI(unsigned e, unsigned r) const override { squids::SU_vector v = nuSQUIDS::HI(e, r); if (!t.h) return v; there(); v += op(addH(t, numneu, E_range[e], anti(r), seen, current_density, current_ye), e, r); return v; }
  squids::SU_vector GammaRho(unsigned e, unsigned r) const override { squids::SU_vector v = nuSQUIDS::GammaRho(e, r); if (!t.g) return v; there(); v += op(addG(t, numneu, E_range[e], anti(r), seen, current_density), e, r); return v; }
  squids::SU_vector InteractionsRho(unsigned e, unsigned r) const override { squids::SU_vector v = nuSQUIDS::InteractionsRho(e, r); if (!t.o) return v; there(); v += op(addO(t, numneu, E_range[e], anti(r), seen, flavor_(estate[e].rho[r], e, r), u(r)), e, r); return v; }
  void AddToWriteHDF5(hid_t g) const override {
    if (writes++ == failwrite) throw std::runtime_error("can not write");
    addH5Attribute<double>(g, "h", t.h); addH5Attribute<double>(g, "g", t.g); addH5Attribute<double>(g, "o", t.o); addH5Attribute<double>(g, "flat", t.flat);
    hid_t s = H5Gcreate(g, "hamiltonian", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); addH5Attribute<std::string>(s, "name", vc::cat("terms ", t.h)); H5Gclose(s);
    hsize_t d[1] = {list.size()}; if (list.size()) H5LTmake_dataset_double(g, "energies", 1, d, list.data());
  }
  void AddToReadHDF5(hid_t g) override {
    if (reads++ == failread) throw std::runtime_error("can not read");
    double f; readH5Attribute<double>(g, "h", t.h); readH5Attribute<double>(g, "g", t.g); readH5Attribute<double>(g, "o", t.o); readH5Attribute<double>(g, "flat", f); t.flat = f;
    hid_t s = H5Gopen(g, "hamiltonian", H5P_DEFAULT); std::string w; if (s >= 0) { readH5Attribute<std::string>(s, "name", w); H5Gclose(s); } CK("ext:content", w == vc::cat("terms ", t.h), id, ": name ", w);
    list.clear(); htri_t h = H5Lexists(g, "energies", H5P_DEFAULT); if (h > 0) { list.resize(ne); hsize_t d[1]; size_t z; H5T_class_t c; H5LTget_dataset_info(g, "energies", d, &c, &z); CK("ext:content", d[0] == ne, id); H5LTread_dataset_double(g, "energies", list.data()); for (unsigned e = 0; e < ne; e++) CK("ext:content", list[e] == E_range[e], id, ": energies are not there yet"); }
    on();
  }
};
// the same terms in the reference
static void teach(Run &r, Terms const &t, std::shared_ptr<Src const *> mp) {
  Ref *f = &r.ref;
  r.ref.extra = [t, f, mp](int e, int rr, double x, M const &q, M &d) { Src const *m = *mp;
    bool a = f->anti(rr); int n = f->c.n; M h = addH(t, n, f->E[e], a, x, m->rho(x), m->e(x)); if (t.h) d = d + C(0, -1) * (h * q - q * h);
    if (t.g) { M g = addG(t, n, f->E[e], a, x, m->rho(x)); d = d - (g * q + q * g); }
    if (t.o) d = d + addO(t, n, f->E[e], a, x, q, f->p.u(a));
  };
}
static std::shared_ptr<Ext> make(Cfg const &c, Terms const &t) { if (c.single) return std::make_shared<Ext>(c.n, c.nt, t); V E = energies(c.ne); marray<double, 1> e{E.size()}; for (size_t i = 0; i < E.size(); i++) e[i] = E[i]; return std::make_shared<Ext>(e, c.n, c.nt, c.inter, library(c.targets, c.set), t); }
static long handles() { return H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL); }
struct Go {
  Run r; std::shared_ptr<Ext> x; std::shared_ptr<Src> m; std::shared_ptr<Src const *> mp = std::make_shared<Src const *>(nullptr); Terms t; std::string id;
  Go(Cfg const &c, Terms const &t) : Go(c, t, make(c, t)) {}
  Go(Cfg const &c, Terms const &t, std::shared_ptr<Ext> e) : r(c, std::shared_ptr<nuSQUIDS>(e)), x(e), t(t), id(name(c) + name(t)) { x->id = id; teach(r, t, mp); }
  // goes on from where another run is
  Go(Go const &o, std::shared_ptr<Ext> e) : r(o.r, std::shared_ptr<nuSQUIDS>(e)), x(e), m(o.m), t(o.t), id(o.id + " restored") { x->id = id; r.numerics(); teach(r, t, mp); *mp = m.get(); x->watch = m; }
  static void range(int i, double &a, double &b) { static const double L[] = {900, 600, 400}; a = (i == 1 ? 300 : 200) * k.km; b = a + L[i] * k.km; }
  void segment(Seg g, int i) {
    double a, b; range(i, a, b); m = medium(g.med); *mp = m.get(); if (g.rev) std::swap(a, b); r.toggles(g);
    r.q.Set_Body(m); if (i) r.q.Set_Track(std::make_shared<ConstantDensity::Track>(a, b)); else r.start(m, a, b);
    x->watch = m; x->shift = a - r.q.Get_t(); long before = x->pre; x->checks = !g.pos && x->GetUseOscillations(); r.go(g, *m, a, b, i > 0); CK("ext:prepared", x->pre > before, id, " ", name(g), ": terms were never prepared");
    ham(g, b);
  }
  // the reported Hamiltonian has the added terms
  void ham(Seg const &g, double at) {
    x->watch = m; for (size_t e = 0; e < r.ref.E.size(); e++) for (int q = 0; q < r.ref.nr; q++) {
      M u = r.ref.p.u(r.ref.anti(q)); V h0 = r.ref.p.h0(r.ref.E[e]); M w = r.ref.p.diag(pot(r.c.n, m->rho(at), m->e(at), r.ref.anti(q))) + addH(t, r.c.n, r.ref.E[e], r.ref.anti(q), at, m->rho(at), m->e(at)); w = u.dag() * w * u;
      if (g.osc && r.c.basis != mass) w = turn(w, h0, r.tau); if (g.osc) w = w + r.ref.p.diag(h0); M got = mat(r.q.GetHamiltonian(e, q)); double d = (got - w).norm(); CK("ext:hamiltonian", d <= 1e-8 * w.norm(), id, " after ", r.log, ": node ", e, " equation ", q, " off by ", d / w.norm());
    }
  }
};
static std::string said(Cfg const &c, Terms const &t, std::vector<Seg> const &g) { std::string l = name(c) + name(t); for (auto &x : g) l += " " + name(x); return l; }
static void sequence(Cfg const &c, Terms const &t, std::vector<Seg> const &g) {
  if (!vc::begin()) return;
  try {
    Go o(c, t); for (size_t i = 0; i < g.size(); i++) o.segment(g[i], i);
    vc::state(said(c, t, g)); std::string s; for (auto &x : o.r.s) for (auto &m : x) s += vc::cat(std::round(m(0, 0).real() * 1e6), " "); vc::outcome(s); vc::sample(vc::cat(o.id, " ", o.r.log, " leaves electron component ", o.r.s[0][0](0, 0).real()));
  } catch (std::exception &e) { vc::fail("ext:exception", said(c, t, g) + ": exception " + e.what()); }
}
// Stored after the first segment, restored into a fresh object or one in use, and continued.
static void stored(Cfg const &c, Terms const &t, std::vector<Seg> const &g, int into) {
  if (!vc::begin()) return;
  std::string id = said(c, t, g) + vc::cat(" stored, restored into object ", into);
  try {
    std::string f = file("ext"); remove(f.c_str()); Go o(c, t); o.segment(g[0], 0); if (into & 1) { o.x->list.assign(c.single ? 1 : c.ne, 0); for (size_t i = 0; i < o.x->list.size(); i++) o.x->list[i] = o.r.ref.E[i]; }
    long h0 = handles(), pre = o.x->pre; o.x->WriteStateHDF5(f, "/one"); CK("ext:once", o.x->writes == 1 && o.x->pre == pre, id, ": asked to write ", o.x->writes, " times"); CK("ext:handles", handles() == h0, id, ": handles left open");
    auto y = into < 2 ? std::make_shared<Ext>() : make(into == 2 ? Cfg{neutrino, 4, 3, mass, 0, 0, false, false, 3} : Cfg{both, 3, 5, interaction, 0, 1, true, false, 3}, Terms{2, 1, 1, true}); if (into >= 2) { y->Set_Body(medium(1)); y->Set_Track(std::make_shared<ConstantDensity::Track>(0, 10 * k.km)); fill(*y); y->EvolveState(); }
    y->watch = nullptr; y->id = id; y->ReadStateHDF5(f, "/one"); CK("ext:once", y->reads == 1, id, ": asked to read ", y->reads, " times"); CK("ext:handles", handles() == h0, id, ": handles left open");
    CK("ext:content", y->t.h == t.h && y->t.g == t.g && y->t.o == t.o && y->t.flat == t.flat && y->list == o.x->list, id, ": strengths ", y->t.h, " ", y->t.g, " ", y->t.o);
    // continue both
    Go p(o, y);
    for (size_t i = 1; i < g.size(); i++) { o.segment(g[i], i); p.segment(g[i], i); }
    // a plain object takes the state without the added terms
    nuSQUIDS z; z.ReadStateHDF5(f, "/one"); CK("ext:plain", z.GetNumE() == o.x->GetNumE(), id);
    vc::state(id); vc::outcome(vc::cat(o.r.s[0][0](0, 0).real())); vc::transition(2); remove(f.c_str());
  } catch (std::exception &e) { vc::fail("ext:exception", id + ": exception " + e.what()); }
}
// An addition which fails is reported, and the object is usable again.
static void failing(Cfg const &c, Terms const &t, int what) {
  if (!vc::begin()) return;
  std::string id = name(c) + name(t) + vc::cat(" failing ", what), f = file("extf"), w; Seg g{4, true, false, false, false, false, false, false}, u{1, true, false, false, false, false, false, false};
  try {
    remove(f.c_str()); Go o(c, t); long h0 = handles(); auto thrown = [&](std::function<void()> call) { try { call(); } catch (std::runtime_error &e) { return std::string(e.what()); } catch (...) { return std::string("?"); } return std::string(); };
    if (what == 0) {
      o.segment(g, 0); o.x->failwrite = o.x->writes; w = thrown([&] { o.x->WriteStateHDF5(f, "/a"); }); CK("ext:reported", w == "can not write", id, ": ", w); CK("ext:handles", handles() == h0, id); o.r.check("ext:unchanged");
      remove(f.c_str()); o.x->WriteStateHDF5(f, "/a"); Ext y; y.id = id; y.ReadStateHDF5(f, "/a"); same(id, *o.x, y, c.basis == mass); o.segment(u, 1);
    } else if (what == 1 || what == 2) {
      o.segment(g, 0); o.x->WriteStateHDF5(f, "/a"); auto y = what == 1 ? std::make_shared<Ext>() : make(c, t); y->id = id; if (what == 2) { y->Set_Body(medium(1)); y->Set_Track(std::make_shared<ConstantDensity::Track>(0, 10 * k.km)); if (!c.single) fill(*y); }
      y->failread = 0; w = thrown([&] { y->ReadStateHDF5(f, "/a"); }); CK("ext:reported", w == "can not read", id, ": ", w); CK("ext:handles", handles() == h0, id);
      w = thrown([&] { y->EvalFlavorAtNode(0, 0, 0); }); CK("ext:unusable", w != "", id, ": evaluated"); w = thrown([&] { y->EvolveState(); }); CK("ext:unusable", w != "", id, ": evolved");
      y->ReadStateHDF5(f, "/a"); same(id, *o.x, *y, c.basis == mass); CK("ext:content", y->t.h == t.h && y->t.o == t.o, id);
    } else if (what == 3) { // a state stored by an object without additions
      nuSQUIDS z(nodes({4, 9}), 3, both); z.Set_Body(medium(1)); z.Set_Track(std::make_shared<ConstantDensity::Track>(0, 10 * k.km)); fill(z); z.WriteStateHDF5(f, "/a"); Ext y; w = thrown([&] { y.ReadStateHDF5(f, "/a"); }); CK("ext:reported", w != "", id, ": strengths made up"); CK("ext:handles", handles() == h0, id);
      w = thrown([&] { y.EvolveState(); }); CK("ext:unusable", w != "", id, ": evolved");
    } else { // the preparation fails during the evolution
      long at = what - 4; double a, b; Go::range(0, a, b); o.m = medium(4); *o.mp = o.m.get(); o.r.toggles(g); o.r.start(o.m, a, b); o.x->watch = o.m; o.x->checks = false; o.x->failpre = at; w = thrown([&] { o.x->EvolveState(); }); CK("ext:reported", w == "terms not set", id, ": ", w);
      o.x->failpre = -1; o.r.start(o.m, a, b); o.r.log = ""; o.r.go(g, *o.m, a, b, false); o.segment(u, 1);
    }
    vc::state(id); vc::outcome(w); vc::transition(2); remove(f.c_str());
  } catch (std::exception &e) { vc::fail("ext:exception", id + ": exception " + e.what()); }
}
// The atmospheric class made of extended propagations.
typedef nuSQUIDSAtm<Ext> Atm;
static marray<double, 1> ar(V const &v, double u = 1) { marray<double, 1> a{v.size()}; for (size_t i = 0; i < v.size(); i++) a[i] = v[i] * u; return a; }
struct AtmExt : Atm { using Atm::nuSQUIDSAtm; };
static bool equal(nuSQUIDS &a, nuSQUIDS &b) { for (unsigned e = 0; e < a.GetNumE(); e++) for (unsigned r = 0; r < a.GetNumRho(); r++) for (unsigned i = 0; i < a.GetNumNeu() * a.GetNumNeu(); i++) if (!bits(a.GetState(e, r)[i], b.GetState(e, r)[i])) return false; return true; }
static void atm(NeutrinoType nt, int n, int nz, bool inter, Basis b, Terms const &t, int threads, bool given) {
  if (!vc::begin()) return;
  std::string id = vc::cat("atmospheric ", nt == both ? "both" : nt == neutrino ? "nu" : "antinu", " n=", n, " ", nz, " zeniths", inter ? " interacting" : "", b == mass ? " mass basis" : "", name(t), " threads ", threads, given ? " different strengths" : "");
  try {
    V cz, E = energies(3); for (int i = 0; i < nz; i++) cz.push_back(-.9 + .45 * i); auto e = std::make_shared<EarthAtm>(V{0, .5, 1}, V{6, 4.5, 3}, V{.46, .48, .5});
    auto strength = [&](int z) { Terms s = t; if (given) { s.h *= 1 + .5 * z; s.g *= 1 + .2 * z; s.o *= 1 - .1 * z; } return s; };
    auto set = [&](Ext &q) { q.Set_rel_error(1e-5); q.Set_abs_error(1e-7); q.Set_h(30 * k.km); q.Set_Basis(b); q.id = id; q.checks = false; apply(q, params(n, 1)); };
    auto value = [&](unsigned z, unsigned e, unsigned r, unsigned f, int i) { return .2 + .15 * z + .1 * e + .05 * r + .3 * ((f + i) % 3); };
    auto init = [&](Ext &q, unsigned z, int i) { unsigned ne = E.size(); if (nt == both) { marray<double, 3> u{ne, 2, (size_t)n}; for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < 2; r++) for (int f = 0; f < n; f++) u[e][r][f] = value(z, e, r, f, i); q.Set_initial_state(u); } else { marray<double, 2> u{ne, (size_t)n}; for (unsigned e = 0; e < ne; e++) for (int f = 0; f < n; f++) u[e][f] = value(z, e, 0, f, i); q.Set_initial_state(u); } };
    auto initA = [&](AtmExt &a, int i) { size_t ne = E.size(); if (nt == both) { marray<double, 4> u{(size_t)nz, ne, 2, (size_t)n}; for (int z = 0; z < nz; z++) for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < 2; r++) for (int f = 0; f < n; f++) u[z][e][r][f] = value(z, e, r, f, i); a.Set_initial_state(u); } else { marray<double, 3> u{(size_t)nz, ne, (size_t)n}; for (int z = 0; z < nz; z++) for (unsigned e = 0; e < ne; e++) for (int f = 0; f < n; f++) u[z][e][f] = value(z, e, 0, f, i); a.Set_initial_state(u); } };
    auto lib = library(0, 0); std::vector<std::shared_ptr<Ext>> tw; for (int z = 0; z < nz; z++) { tw.push_back(std::make_shared<Ext>(ar(E), n, nt, inter, lib, strength(z))); tw[z]->Set_Body(e); tw[z]->Set_Track(std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(cz[z]))); set(*tw[z]); init(*tw[z], z, 0); tw[z]->EvolveState(); }
    AtmExt a(ar(cz), ar(E), (unsigned)n, nt, inter, lib, t); a.Set_EarthModel(e); a.Set_EvalThreads(threads);
    for (int z = 0; z < nz; z++) { auto &q = a.GetnuSQuIDS(z); CK("ext:arguments", q.t.h == t.h && q.t.g == t.g && q.t.o == t.o, id, ": constructor arguments did not arrive at zenith ", z); q.t = strength(z); set(q); }
    initA(a, 0); a.EvolveState(); for (int z = 0; z < nz; z++) CK("ext:zenith", equal(*tw[z], a.GetnuSQuIDS(z)), id, ": zenith ", z, " differs from a single path");
    std::string f = file("exta"); remove(f.c_str()); long h0 = handles(); a.WriteStateHDF5(f); for (int z = 0; z < nz; z++) CK("ext:once", a.GetnuSQuIDS(z).writes == 1, id, ": zenith ", z, " asked to write ", a.GetnuSQuIDS(z).writes, " times"); CK("ext:handles", handles() == h0, id);
    AtmExt c(f); CK("ext:handles", handles() == h0, id); CK("ext:zeniths", c.GetNumCos() == (size_t)nz, id);
    for (int z = 0; z < nz; z++) { auto &q = c.GetnuSQuIDS(z); Terms s = strength(z); CK("ext:content", q.t.h == s.h && q.t.g == s.g && q.t.o == s.o && q.t.flat == s.flat, id, ": zenith ", z, " has strengths ", q.t.h, " ", q.t.g, " ", q.t.o); CK("ext:zenith", equal(*tw[z], q), id, ": zenith ", z, " differs when restored"); CK("ext:once", q.reads == 1, id, ": zenith ", z, " asked to read ", q.reads, " times"); }
    // what was restored, and the original, go on as single paths do
    if (inter) c.SetNeutrinoCrossSections(lib); c.Set_EvalThreads(threads); for (int z = 0; z < nz; z++) { set(c.GetnuSQuIDS(z)); init(*tw[z], z, 1); tw[z]->EvolveState(); } initA(a, 1); a.EvolveState(); initA(c, 1); c.EvolveState();
    for (int z = 0; z < nz; z++) { CK("ext:zenith", equal(*tw[z], a.GetnuSQuIDS(z)), id, ": zenith ", z, " differs when evolved again"); double d = 0; for (unsigned x = 0; x < E.size(); x++) for (unsigned r = 0; r < tw[z]->GetNumRho(); r++) d = std::max(d, (mat(tw[z]->GetState(x, r)) - mat(c.GetnuSQuIDS(z).GetState(x, r))).norm()); CK("ext:zenith", d <= 1e-9, id, ": zenith ", z, " off by ", d, " when restored and evolved again"); }
    // a failing zenith is reported
    for (int z = 0; z < nz; z++) {
      std::string w; a.GetnuSQuIDS(z).failpre = a.GetnuSQuIDS(z).pre + 5; initA(a, 0); try { a.EvolveState(); } catch (std::runtime_error &x) { w = x.what(); } CK("ext:reported", w == "terms not set", id, ": zenith ", z, ": ", w); a.GetnuSQuIDS(z).failpre = -1;
      w = ""; remove(f.c_str()); initA(a, 0); a.GetnuSQuIDS(z).failwrite = a.GetnuSQuIDS(z).writes; try { a.WriteStateHDF5(f); } catch (std::runtime_error &x) { w = x.what(); } CK("ext:reported", w == "can not write", id, ": zenith ", z, ": ", w); CK("ext:handles", handles() == h0, id); vc::transition(3);
      remove(f.c_str()); a.WriteStateHDF5(f); c.GetnuSQuIDS(z).failread = c.GetnuSQuIDS(z).reads; AtmExt d(f); a.EvolveState(); for (int y = 0; y < nz; y++) { if (y == 0) { for (int q = 0; q < nz; q++) { init(*tw[q], q, 0); tw[q]->EvolveState(); } } CK("ext:zenith", equal(*tw[y], a.GetnuSQuIDS(y)), id, ": zenith ", y, " differs after a failure at ", z); }
    }
    vc::state(id); vc::outcome(id); vc::transition(4); remove(f.c_str());
  } catch (std::exception &x) { vc::fail("ext:exception", id + ": exception " + x.what()); }
}

int main(int argc, char **argv) {
  vc::init(argc, argv); H5Eset_auto(H5E_DEFAULT, nullptr, nullptr); bool th = vc::thorough();
  auto seg = [](int med, bool osc, int bits = 0) { return Seg{med, osc, bool(bits & 1), bool(bits & 2), bool(bits & 4), bool(bits & 8), bool(bits & 16), bool(bits & 32)}; };
  for (NeutrinoType nt : {neutrino, antineutrino, both}) for (int n = 3; n <= (th ? 5 : 4); n++) for (int ne = 0; ne <= (th ? 4 : 3); ne++) for (Basis b : {interaction, mass}) for (int inter = 0; inter < 2; inter++) {
    if (ne == 0 && (nt == both || inter)) continue; if (!th && ne == 1) continue;
    Cfg c{nt, n, std::max(ne, 1), b, 0, 0, bool(inter), ne == 0, 3};
    auto tau = [&](int b) { return !inter ? b & 4 : nt == both ? b : b & 6; };
    for (int bits = 1; bits < 8; bits++) { Terms t{bits & 1 ? 1. : 0, bits & 2 ? 1. : 0, bits & 4 ? 1. : 0, false}; if (!th && n == 4 && bits != 1 && bits != 7) continue;
      // one segment
      for (int med = 0; med < 5; med++) for (int osc = 0; osc < 2; osc++) {
        if (!th && n == 4 && med != 4) continue;
        sequence(c, t, {seg(med, osc)}); if (med == 1 || med == 4) { if (!inter) sequence(c, t, {seg(med, osc, 8)}); sequence(c, t, {seg(med, osc, tau(7))}); if (bits == 1 && med == 4) sequence(c, t, {seg(med, osc, 16)}); }
        for (int init = 0; init < 3; init++) if (med == 4 && (th || (bits == 7 && n == 3))) { Cfg d = c; d.init = init; sequence(d, t, {seg(4, osc)}); }
      }
      // the shortcut takes the added Hamiltonian
      if (bits == 1 && !inter) for (int med = 0; med < 4; med++) for (int osc = 0; osc < 2; osc++) for (int rev = 0; rev < 2; rev++) { Terms f = t; f.flat = true; sequence(c, f, {seg(med, osc, 32 | 8 * rev)}); for (int o2 = 0; o2 < 2; o2++) { sequence(c, f, {seg(4, o2), seg(med, osc, 32 | 8 * rev)}); sequence(c, f, {seg(med, osc, 32 | 8 * rev), seg(4, o2)}); } }
      // two segments, three
      for (int m1 : {1, 4}) for (int m2 : {0, 1, 4}) for (int o = 0; o < 4; o++) { if (!th && (n == 4 || (m1 + m2 + o + bits) % 3)) continue; sequence(c, t, {seg(m1, o & 1), seg(m2, o & 2)}); if (th || m1 == m2) sequence(c, t, {seg(m1, o & 1, inter ? tau(3) : 8), seg(m2, o & 2, 4), seg(4, !(o & 1), inter ? 2 : 0)}); }
      for (int into = 0; into < 4; into++) { if (!th && (bits % 3 != 1 || (n == 4 && into != 1))) continue; for (int o = 0; o < 4; o++) stored(c, t, {seg(4, o & 1, tau(3)), seg(1, o & 2)}, into); }
      if (bits == 7 || bits == 1) for (int w = 0; w < 4; w++) failing(c, t, w);
      if (bits == 7 && n == 3) for (int at = 0; at < (th ? 60 : 16); at++) failing(c, t, 4 + at);
    }
  }
  for (NeutrinoType nt : {neutrino, antineutrino, both}) for (int n = 3; n <= 4; n++) for (int nz = 1; nz <= 3; nz++) for (int inter = 0; inter < 2; inter++) for (Basis b : {interaction, mass}) for (int bits : {0, 1, 6, 7}) for (int th2 = 1; th2 <= 3; th2 += 2) { if (!th && n == 4 && nz != 2) continue; if (!th && b == mass && bits != 7) continue; Terms t{bits & 1 ? 1. : 0, bits & 2 ? 1. : 0, bits & 4 ? 1. : 0, false}; atm(nt, n, nz, inter, b, t, th2, bits == 7 || th2 == 3); }
  return vc::finish();
}

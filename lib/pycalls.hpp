// Calls made from Python, each with the same call in C++.
#ifndef PYCALLS_HPP
#define PYCALLS_HPP
typedef nuSQUIDSAtm<nuSQUIDS> Atm;
// ---- what a call answers
static void put(V &v, double x) { v.push_back(x); }
template <unsigned D> static V lin(marray<double, D> const &a) { V v; for (unsigned i = 0; i < D; i++) v.push_back(a.extent(i)); for (double x : a) v.push_back(x); return v; }
static V lin(squids::SU_vector const &a) { V v{double(a.Dim())}; for (unsigned i = 0; i < a.Size(); i++) v.push_back(a[i]); return v; }
static V lin(std::shared_ptr<Track> t) { if (!t) return {}; return {t->GetX(), t->GetInitialX(), t->GetFinalX()}; }
static V lin(std::shared_ptr<Body> b) { if (!b) return {}; V v; if (dynamic_cast<EarthAtm *>(b.get())) return {7}; ConstantDensity::Track t(0, 5000 * k.km); for (double x : {0., 1000., 4000.}) { t.SetX(x * k.km); v.push_back(b->density(t)); v.push_back(b->ye(t)); } return v; }
static V lin(V v) { return v; }
static V lin(double x) { return {x}; }
static V value(bp::object const &o) {
  if (o.is_none()) return {};
  PyObject *p = o.ptr();
  if (PyBool_Check(p) || PyFloat_Check(p) || PyLong_Check(p)) return {bp::extract<double>(o)};
  for (int d = 1; d <= 4; d++) { V v; std::vector<long> s; if (!take(d, o, v, s)) continue; V r; for (long x : s) r.push_back(x); r.insert(r.end(), v.begin(), v.end()); return r; }
  bp::extract<squids::SU_vector &> su(o); if (su.check()) return lin(su());
  bp::extract<std::shared_ptr<Track>> t(o); if (t.check()) return lin(t());
  bp::extract<std::shared_ptr<Body>> b(o); if (b.check()) return lin(b());
  bp::extract<V> l(o); if (l.check()) return l();
  throw std::runtime_error(vc::cat("cannot look at a ", Py_TYPE(p)->tp_name));
}
// ---- what an object looks like
static V look(nuSQUIDS &q) {
  V v; auto all = [&](V const &x) { v.insert(v.end(), x.begin(), x.end()); }; auto tr = [&](std::function<void()> f) { Quiet z; try { f(); } catch (std::exception &e) { v.push_back(std::hash<std::string>()(e.what()) % 1000003); } };
  unsigned n = q.GetNumNeu(), ne = q.GetNumE(), nr = q.GetNumRho(); for (double x : {double(n), double(ne), double(nr), double(q.GetUseInteractions()), double(q.GetUseOscillations()), double(q.Get_NeutrinoSources()), q.Get_t(), q.Get_t_initial()}) v.push_back(x);
  if (n > 9) return v;
  for (unsigned j = 1; j < n; j++) { v.push_back(q.Get_SquareMassDifference(j)); for (unsigned i = 0; i < j; i++) { v.push_back(q.Get_MixingAngle(i, j)); v.push_back(q.Get_CPPhase(i, j)); } }
  all(lin(q.GetTrack())); all(lin(q.GetBody())); tr([&] { all(lin(q.GetERange())); });
  for (unsigned e = 0; e < ne; e++) for (unsigned r = 0; r < nr; r++) { bool have = n > 0; for (unsigned f = 0; f < n; f++) tr([&] { try { v.push_back(q.EvalFlavorAtNode(f, e, r)); } catch (std::exception &) { have = false; throw; } }); if (have) all(lin(q.GetState(e, r))); if (q.GetTrack() && q.GetBody() && have) tr([&] { all(lin(q.GetHamiltonian(e, r))); }); }
  return v;
}
static V look(Atm &a) {
  V v{double(a.GetNumCos()), double(a.GetNumE()), double(a.GetNumRho()), double(a.Get_EvalThreads())}; for (double x : a.GetCosthRange()) v.push_back(x); for (auto &q : a.GetnuSQuIDS()) { V w = look(q); v.insert(v.end(), w.begin(), w.end()); }
  for (double c : {-.6, .1}) for (unsigned f = 0; f < 3; f++) { Quiet z; try { v.push_back(a.EvalFlavor(f, c, 60 * k.GeV, 0)); } catch (std::exception &e) { v.push_back(std::hash<std::string>()(e.what()) % 1000003); } }
  return v;
}
static bool same(V const &a, V const &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof a[0])); }
static std::string show(V const &v) { std::string s; for (size_t i = 0; i < v.size() && i < 6; i++) s += vc::cat(v[i], " "); return vc::cat(s, v.size() > 6 ? vc::cat("... (", v.size(), " numbers)") : ""); }
// ---- values which both sides put in arrays
static double some(int i) { return .2 + ((i * 7) % 11) * .3; }
template <unsigned D> static marray<double, D> ini(std::vector<size_t> s) { marray<double, D> a; a.resize(s); int i = 0; for (double &x : a) x = some(i++); return a; }
static marray<double, 1> arr(V const &v) { marray<double, 1> a{v.size()}; std::copy(v.begin(), v.end(), a.begin()); return a; }
// ---- files: everything they contain
static herr_t attr_(hid_t o, const char *n, const H5A_info_t *, void *p) {
  std::string &s = *(std::string *)p; hid_t a = H5Aopen(o, n, H5P_DEFAULT), t = H5Aget_type(a), sp = H5Aget_space(a); hssize_t np = H5Sget_simple_extent_npoints(sp); s += vc::cat("@", n, "=");
  if (np > 0 && !H5Tis_variable_str(t)) { std::string b(np * H5Tget_size(t), 0); H5Aread(a, t, &b[0]); s += b; } H5Sclose(sp); H5Tclose(t); H5Aclose(a); return 0;
}
static herr_t obj_(hid_t o, const char *n, const H5O_info_t *i, void *p) {
  std::string &s = *(std::string *)p; s += vc::cat("\n", n, ":", int(i->type)); hid_t h = H5Oopen(o, n, H5P_DEFAULT); hsize_t at = 0; H5Aiterate2(h, H5_INDEX_NAME, H5_ITER_INC, &at, attr_, p);
  if (i->type == H5O_TYPE_DATASET) { hid_t sp = H5Dget_space(h); hsize_t d[8]; int r = H5Sget_simple_extent_dims(sp, d, nullptr); for (int j = 0; j < r; j++) s += vc::cat(" ", d[j]); V b(std::max<hssize_t>(1, H5Sget_simple_extent_npoints(sp))); if (H5Dread(h, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()) >= 0) s.append((char *)b.data(), b.size() * 8); H5Sclose(sp); }
  H5Oclose(h); return 0;
}
static std::string content(std::string const &f) { std::string s; hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (h < 0) return "none"; H5Ovisit(h, H5_INDEX_NAME, H5_ITER_INC, obj_, &s); H5Fclose(h); return s; }
// ---- a call
template <class T> struct Op { const char *py; std::function<V(T &)> cc; };
static std::string F_; // the file which is written: another one on either side
struct Out { V v; bool threw = false; std::string what, text; };
static std::string plain(std::string s) { size_t i = s.find(": "); return i == std::string::npos ? s : s.substr(i + 2); }
static Out python(std::string const &s) { Out o; Quiet z; try { o.v = value(run(s)); } catch (std::exception &e) { o.threw = true; o.what = e.what(); PyErr_Clear(); } catch (bp::error_already_set &) { o.threw = true; o.what = error(); } o.text = z.s.str(); size_t i = o.what.find("/py"); if (i != std::string::npos) o.what.replace(i, 3, "/cc"); return o; }
static Out native(std::function<V()> f) { Out o; Quiet z; try { o.v = f(); } catch (std::exception &e) { o.threw = true; o.what = e.what(); } o.text = z.s.str(); return o; }
static void compare(std::string const &id, Out const &p, Out const &c) {
  CK("call:accepted", p.threw == c.threw, id, p.threw ? ": raises " : ": does not raise ", p.threw ? p.what : c.what, p.threw ? " in Python only" : " in Python");
  if (p.threw || c.threw) { if (p.threw && c.threw) CK("call:message", plain(p.what) == c.what || p.what.find("ArgumentError") != std::string::npos || p.what.find("OverflowError") != std::string::npos, id, ": raises ", p.what, " instead of ", c.what); return; }
  CK("call:result", same(p.v, c.v), id, ": answers ", show(p.v), " instead of ", show(c.v)); CK("call:output", p.text == c.text, id, ": prints other text");
}
static bool skip(nuSQUIDS &q, const char *s) { return strstr(s, "GetState(") && ( !q.GetNumNeu() || throws([&] { q.EvalFlavorAtNode(0, 0, 0); }) || (!strstr(s, "State(0") && q.GetNumE() < 3) || (strstr(s, "1, 1") && q.GetNumRho() < 2)); }
static bool skip(Atm &a, const char *s) { return strstr(s, "rho=1") && a.GetNumRho() < 2; }
template <class T> static void one(std::string const &id, Op<T> const &o, T &a, T &b) {
  if (skip(b, o.py)) return; // an unchecked access
  std::string f = file("py"), g = file("cc"); ns["F"] = bp::str(f); Out p = python(o.py); F_ = g; Out c = native([&] { return o.cc(b); }); vc::transition();
  CK("call:pending", !PyErr_Occurred(), id, ": a Python error is left pending"); compare(id, p, c);
  if (strstr(o.py, "(F")) { CK("call:file", content(f) == content(g), id, ": the files differ"); }
  V x = look(a), y = look(b); if (!same(x, y)) { size_t i = 0; while (i < x.size() && i < y.size() && bits(x[i], y[i])) i++; vc::fail("call:state", vc::cat(id, ": the objects differ, number ", i, " is ", i < x.size() ? x[i] : 0, " instead of ", i < y.size() ? y[i] : 0)); } else vc::eval();
}
#define EX(s, e) {s, [](T &q) -> V { return lin(e); }}
#define DO(s, e) {s, [](T &q) -> V { e; return {}; }}
static double gev(double x) { return x * k.GeV; }
static std::vector<Op<nuSQUIDS>> const &ops() {
  typedef nuSQUIDS T; static std::vector<bool> none(3, false);
  static const std::vector<Op<nuSQUIDS>> v = {
    DO("q.EvolveState()", q.EvolveState()), EX("q.GetERange()", q.GetERange()), EX("q.GetNumE()", double(q.GetNumE())), EX("q.GetNumNeu()", double(q.GetNumNeu())), EX("q.GetNumRho()", double(q.GetNumRho())),
    EX("q.GetUseInteractions()", double(q.GetUseInteractions())), EX("q.GetUseOscillations()", double(q.GetUseOscillations())),
    DO("q.Set_initial_state(ini(3))", q.Set_initial_state(ini<1>({3}))), DO("q.Set_initial_state(ini(3), ns.Basis.mass)", q.Set_initial_state(ini<1>({3}), mass)),
    DO("q.Set_initial_state(ini(3, 3))", q.Set_initial_state(ini<2>({3, 3}))), DO("q.Set_initial_state(ini(3, 3).T, ns.Basis.mass)", auto a = ini<2>({3, 3}); auto b = a; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b[i][j] = a[j][i]; q.Set_initial_state(b, mass)),
    DO("q.Set_initial_state(ini(3, 2, 3))", q.Set_initial_state(ini<3>({3, 2, 3}))), DO("q.Set_initial_state(ini(3, 2, 3)[::-1], ns.Basis.flavor)", auto a = ini<3>({3, 2, 3}); auto b = a; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) for (int l = 0; l < 3; l++) b[i][j][l] = a[2 - i][j][l]; q.Set_initial_state(b, flavor)),
    DO("q.Set_initial_state(ini(3, 2, 3), ns.Basis.mass)", q.Set_initial_state(ini<3>({3, 2, 3}), mass)), DO("q.Set_initial_state(ini(2, 3))", q.Set_initial_state(ini<2>({2, 3}))), DO("q.Set_initial_state(np.zeros((0, 3)))", q.Set_initial_state(ini<2>({0, 3}))), DO("q.Set_initial_state(np.zeros(0))", q.Set_initial_state(ini<1>({0}))), DO("q.Set_initial_state(ini(3, 3), ns.Basis.interaction)", q.Set_initial_state(ini<2>({3, 3}), interaction)),
    DO("q.Set_Body(ns.Vacuum())", q.Set_Body(std::make_shared<Vacuum>())), DO("q.Set_Body(ns.ConstantDensity(4.5, .4))", q.Set_Body(std::make_shared<ConstantDensity>(4.5, .4))), DO("q.Set_Body(Body=ns.ConstantDensity(2, 1))", q.Set_Body(std::make_shared<ConstantDensity>(2, 1))),
    DO("q.Set_Body(ns.VariableDensity([0, 1e13, 2e13, 3e13], (3., 5, 4, 8), [.5, .4, .45, .5]))", q.Set_Body(std::make_shared<VariableDensity>(V{0, 1e13, 2e13, 3e13}, V{3, 5, 4, 8}, V{.5, .4, .45, .5}))), DO("q.Set_Body(None)", q.Set_Body(nullptr)),
    DO("q.Set_Track(ns.ConstantDensity.Track(100 * km))", q.Set_Track(std::make_shared<ConstantDensity::Track>(100 * k.km))), DO("q.Set_Track(Track=ns.ConstantDensity.Track(50 * km, 20 * km))", q.Set_Track(std::make_shared<ConstantDensity::Track>(50 * k.km, 20 * k.km))), DO("q.Set_Track(ns.Vacuum.Track(10 * km, 60 * km))", q.Set_Track(std::make_shared<Vacuum::Track>(10 * k.km, 60 * k.km))), DO("q.Set_Track(ns.VariableDensity.Track(40 * km))", q.Set_Track(std::make_shared<VariableDensity::Track>(40 * k.km))), DO("q.Set_Track(None)", q.Set_Track(nullptr)),
    DO("q.Set_E(7 * GeV)", q.Set_E(gev(7))), DO("q.Set_E(NeutrinoEnergy=3 * GeV)", q.Set_E(gev(3))),
    EX("q.EvalFlavorAtNode(1, 0, 0)", q.EvalFlavorAtNode(1, 0, 0)), EX("q.EvalFlavorAtNode(2, 1, 1)", q.EvalFlavorAtNode(2, 1, 1)), EX("q.EvalMassAtNode(0, 2, 0)", q.EvalMassAtNode(0, 2, 0)), EX("q.EvalMassAtNode(1, 5, 0)", q.EvalMassAtNode(1, 5, 0)), EX("q.EvalFlavorAtNode(-1, 0, 0)", q.EvalFlavorAtNode(-1, 0, 0)),
    EX("q.EvalFlavor(0)", q.EvalFlavor(0)), EX("q.EvalMass(2)", q.EvalMass(2)), EX("q.EvalFlavor(5)", q.EvalFlavor(5)), EX("q.EvalFlavor(1, 5 * GeV, 0)", q.EvalFlavor(1, gev(5), 0)), EX("q.EvalFlavor(0, 6 * GeV, 1)", q.EvalFlavor(0, gev(6), 1)), EX("q.EvalMass(1, 5 * GeV, 0)", q.EvalMass(1, gev(5), 0)), EX("q.EvalMass(2, 8 * GeV, 1)", q.EvalMass(2, gev(8), 1)), EX("q.EvalFlavor(1, 500 * GeV, 0)", q.EvalFlavor(1, gev(500), 0)),
    EX("ns.EvalFlavor(q, 1, 5 * GeV, 0, .3, [False] * 3)", (none.assign(3, false), q.EvalFlavor(1, gev(5), 0, .3, none))), EX("ns.EvalFlavor(q, 0, 7 * GeV, 1, 1e-6, (False, True, False))", (none.assign(3, false), none[1] = true, q.EvalFlavor(0, gev(7), 1, 1e-6, none))), EX("ns.EvalFlavor(q, 2, .2, [False] * 3)", (none.assign(3, false), q.EvalFlavor(2, .2, none))), EX("ns.EvalFlavor(self=q, flav=1, E=4 * GeV, current=0, x=1e9, mask=[False] * 3)", (none.assign(3, false), q.EvalFlavor(1, gev(4), 0, 1e9, none))), EX("ns.EvalFlavor(q, 1, 5 * GeV, 0, .3, [])", (none.assign(0, false), q.EvalFlavor(1, gev(5), 0, .3, none))), EX("ns.EvalFlavor(q, 1, .3, [True])", (none.assign(1, true), q.EvalFlavor(1, .3, none))),
    EX("q.GetHamiltonian(0, 0)", q.GetHamiltonian(0, 0)), EX("q.GetHamiltonian(1, 1)", q.GetHamiltonian(1, 1)), EX("q.GetState(0)", q.GetState(0)), EX("q.GetState(0, 0)", q.GetState(0, 0)), EX("q.GetState(1, 1)", q.GetState(1, 1)), EX("q.GetState(2)", q.GetState(2)),
    DO("q.Set_EvolLowPassCutoff(2e-13)", q.Set_EvolLowPassCutoff(2e-13)), DO("q.Set_EvolLowPassScale(1e-14)", q.Set_EvolLowPassScale(1e-14)), DO("q.Set_h_min(10 * km)", q.Set_h_min(10 * k.km)), DO("q.Set_h_max(13 * km)", q.Set_h_max(13 * k.km)), DO("q.Set_h(3 * km)", q.Set_h(3 * k.km)), DO("q.Set_rel_error(1e-9)", q.Set_rel_error(1e-9)), DO("q.Set_abs_error(1e-9)", q.Set_abs_error(1e-9)), DO("q.Set_AdaptiveStep(False)", q.Set_AdaptiveStep(false)),
    DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RK2)", q.Set_GSL_step(gsl_odeiv2_step_rk2)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RK4)", q.Set_GSL_step(gsl_odeiv2_step_rk4)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RKF45)", q.Set_GSL_step(gsl_odeiv2_step_rkf45)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RKCK)", q.Set_GSL_step(gsl_odeiv2_step_rkck)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RK8PD)", q.Set_GSL_step(gsl_odeiv2_step_rk8pd)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_MSADAMS)", q.Set_GSL_step(gsl_odeiv2_step_msadams)),
    DO("q.Set_TauRegeneration(True)", q.Set_TauRegeneration(true)), DO("q.Set_GlashowResonance(True)", q.Set_GlashowResonance(true)), DO("q.Set_TauRegeneration(False)", q.Set_TauRegeneration(false)), DO("q.Set_GlashowResonance(False)", q.Set_GlashowResonance(false)), DO("q.Set_IncludeOscillations(False)", q.Set_IncludeOscillations(false)), DO("q.Set_IncludeOscillations(True)", q.Set_IncludeOscillations(true)),
    DO("q.Set_AllowConstantDensityOscillationOnlyEvolution(True)", q.Set_AllowConstantDensityOscillationOnlyEvolution(true)), DO("q.Set_PositivityConstrain(True)", q.Set_PositivityConstrain(true)), DO("q.Set_PositivityConstrainStep(17 * km)", q.Set_PositivityConstrainStep(17 * k.km)), DO("q.Set_ProgressBar(True)", q.Set_ProgressBar(true)), DO("q.Set_MixingParametersToDefault()", q.Set_MixingParametersToDefault()), DO("q.Set_Basis(ns.Basis.mass)", q.Set_Basis(mass)), DO("q.Set_Basis(ns.Basis.interaction)", q.Set_Basis(interaction)), DO("q.Set_Basis(ns.Basis.flavor)", q.Set_Basis(flavor)),
    DO("q.Set_MixingAngle(0, 2, .3)", q.Set_MixingAngle(0, 2, .3)), DO("q.Set_MixingAngle(2, 1, .3)", q.Set_MixingAngle(2, 1, .3)), EX("q.Get_MixingAngle(0, 2)", q.Get_MixingAngle(0, 2)), EX("q.Get_MixingAngle(0, 17)", q.Get_MixingAngle(0, 17)), DO("q.Set_CPPhase(0, 2, 1.1)", q.Set_CPPhase(0, 2, 1.1)), EX("q.Get_CPPhase(0, 2)", q.Get_CPPhase(0, 2)), DO("q.Set_SquareMassDifference(2, 3e-3)", q.Set_SquareMassDifference(2, 3e-3)), EX("q.Get_SquareMassDifference(2)", q.Get_SquareMassDifference(2)), DO("q.Set_SquareMassDifference(0, 3e-3)", q.Set_SquareMassDifference(0, 3e-3)),
    EX("q.GetTrack()", q.GetTrack()), EX("q.GetBody()", q.GetBody()), EX("[q.GetBody().density(q.GetTrack()), q.GetBody().ye(q.GetTrack())]", (V{q.GetBody() && q.GetTrack() ? q.GetBody()->density(*q.GetTrack()) : throw std::runtime_error("'NoneType' object has no attribute 'density'"), q.GetBody()->ye(*q.GetTrack())})),
    DO("q.InitializeInteractions()", q.InitializeInteractions()), EX("[q.GetNeutrinoCrossSections().hasTarget(t) for t in (ns.PDGCode.electron, ns.PDGCode.proton, ns.PDGCode.neutron, ns.PDGCode.isoscalar_nucleon)]", [&] { V v; if (!q.GetNeutrinoCrossSections()) throw std::runtime_error("'NoneType' object has no attribute 'hasTarget'"); for (PDGCode p : {electron, proton, neutron, isoscalar_nucleon}) v.push_back(q.GetNeutrinoCrossSections()->hasTarget(p)); return v; }()),
    DO("q.SetNeutrinoCrossSections(lib)", q.SetNeutrinoCrossSections(library(1, 1))), DO("q.Set_Debug(False)", q.Set_Debug(false)), DO("q.Set_NeutrinoSources(True)", q.Set_NeutrinoSources(true)), EX("q.Get_NeutrinoSources()", double(q.Get_NeutrinoSources())), DO("q.Set_NeutrinoSources(False)", q.Set_NeutrinoSources(false)),
    DO("q.WriteStateHDF5(F)", q.WriteStateHDF5(F_)), DO("q.WriteStateHDF5(F, '/g')", q.WriteStateHDF5(F_, "/g")), DO("q.WriteStateHDF5(F, '/g', False)", q.WriteStateHDF5(F_, "/g", false)), DO("q.WriteStateHDF5(F, '/h', True, '/xs')", q.WriteStateHDF5(F_, "/h", true, "/xs")), DO("q.WriteStateHDF5(F, '/i', False, '', False)", q.WriteStateHDF5(F_, "/i", false, "", false)), DO("q.WriteStateHDF5(F, overwrite=False, group='/j', save_cross_sections=False, cross_section_grp_loc='/xs')", q.WriteStateHDF5(F_, "/j", false, "/xs", false)), DO("q.WriteStateHDF5(hdf5_filename=F, group='/i', save_cross_sections=True, cross_section_grp_loc='/tables', overwrite=False)", q.WriteStateHDF5(F_, "/i", true, "/tables", false)),
    DO("q.ReadStateHDF5(F)", q.ReadStateHDF5(F_)), DO("q.ReadStateHDF5(F, '/g')", q.ReadStateHDF5(F_, "/g")), DO("q.ReadStateHDF5(F, '/h', '/xs')", q.ReadStateHDF5(F_, "/h", "/xs")), DO("q.ReadStateHDF5(F, group='/j', cross_section_grp_loc='/xs')", q.ReadStateHDF5(F_, "/j", "/xs")), DO("q.ReadStateHDF5('/nonexistent/file.h5')", q.ReadStateHDF5("/nonexistent/file.h5")),
  };
  return v;
}
#define EACH(e) for (auto &x : q.GetnuSQuIDS()) { (void)x; } e
static std::vector<Op<Atm>> const &atm_ops() {
  typedef Atm T;
  static const std::vector<Op<Atm>> v = {
    DO("q.EvolveState()", q.EvolveState()), DO("q.Set_TauRegeneration(True)", q.Set_TauRegeneration(true)), DO("q.Set_TauRegeneration(False)", q.Set_TauRegeneration(false)), DO("q.Set_GlashowResonance(True)", q.Set_GlashowResonance(true)), DO("q.Set_IncludeOscillations(False)", q.Set_IncludeOscillations(false)), DO("q.Set_AllowConstantDensityOscillationOnlyEvolution(True)", q.Set_AllowConstantDensityOscillationOnlyEvolution(true)), DO("q.Set_PositivyConstrain(True)", q.Set_PositivityConstrain(true)), DO("q.Set_PositivyConstrainStep(170 * km)", q.Set_PositivityConstrainStep(170 * k.km)),
    EX("q.EvalFlavor(1, -.3, 60 * GeV)", q.EvalFlavor(1, -.3, gev(60))), EX("q.EvalFlavor(0, .1, 70 * GeV, 1)", q.EvalFlavor(0, .1, gev(70), 1)), EX("q.EvalFlavor(2, -.8, 90 * GeV, 0, False)", q.EvalFlavor(2, -.8, gev(90), 0, false)), EX("q.EvalFlavor(2, -.99, 90 * GeV, 0, False)", q.EvalFlavor(2, -.99, gev(90), 0, false)), EX("ns.EvalFlavor(q, 1, -.2, 60 * GeV, 0, .4, [False] * 3)", q.EvalFlavor(1, -.2, gev(60), 0, .4, {false, false, false})), EX("ns.EvalFlavor(q, flav=0, costh=.1, E=60 * GeV, current=0, x=1e9, mask=[True, False, False])", q.EvalFlavor(0, .1, gev(60), 0, 1e9, {true, false, false})), EX("ns.EvalFlavor(q, 0, .1, 60 * GeV, 0, .4, [])", q.EvalFlavor(0, .1, gev(60), 0, .4, {})),
    DO("q.Set_EvalThreads(2)", q.Set_EvalThreads(2)), DO("q.Set_EvalThreads(0)", q.Set_EvalThreads(0)), DO("q.Set_EvalThreads(-1)", throw std::runtime_error("out of range")), EX("q.Get_EvalThreads()", double(q.Get_EvalThreads())),
    DO("q.Set_EarthModel(earth)", q.Set_EarthModel(std::make_shared<EarthAtm>(VERIF_EARTH()))), DO("q.Set_EarthModel(None)", q.Set_EarthModel(nullptr)),
    DO("q.WriteStateHDF5(F, True)", q.WriteStateHDF5(F_, true)), DO("q.WriteStateHDF5(F, False)", q.WriteStateHDF5(F_, false)), DO("q.ReadStateHDF5(F)", q.ReadStateHDF5(F_)), DO("q.ReadStateHDF5('/nonexistent/file.h5')", q.ReadStateHDF5("/nonexistent/file.h5")),
    DO("q.Set_MixingAngle(0, 2, .3)", q.Set_MixingAngle(0, 2, .3)), EX("q.Get_MixingAngle(0, 2)", q.Get_MixingAngle(0, 2)), DO("q.Set_CPPhase(0, 2, 1.1)", q.Set_CPPhase(0, 2, 1.1)), EX("q.Get_CPPhase(0, 2)", q.Get_CPPhase(0, 2)), DO("q.Set_SquareMassDifference(2, 3e-3)", q.Set_SquareMassDifference(2, 3e-3)), EX("q.Get_SquareMassDifference(2)", q.Get_SquareMassDifference(2)), DO("q.Set_MixingParametersToDefault()", q.Set_MixingParametersToDefault()), DO("q.Set_MixingAngle(2, 0, .3)", q.Set_MixingAngle(2, 0, .3)),
    DO("q.Set_h(31 * km)", q.Set_h(31 * k.km)), DO("q.Set_h(37 * km, 1)", q.Set_h(37 * k.km, 1)), DO("q.Set_h(37 * km, 7)", q.Set_h(37 * k.km, 7)), DO("q.Set_h_max(13 * km)", q.Set_h_max(13 * k.km)), DO("q.Set_h_max(17 * km, 0)", q.Set_h_max(17 * k.km, 0)), DO("q.Set_h_min(110 * km)", q.Set_h_min(110 * k.km)), DO("q.Set_h_min(120 * km, 1)", q.Set_h_min(120 * k.km, 1)), DO("q.Set_rel_error(1e-9)", q.Set_rel_error(1e-9)), DO("q.Set_rel_error(1e-10, 1)", q.Set_rel_error(1e-10, 1)), DO("q.Set_abs_error(1e-9)", q.Set_abs_error(1e-9)), DO("q.Set_abs_error(1e-10, 0)", q.Set_abs_error(1e-10, 0)), DO("q.Set_abs_error(1e-10, 9)", q.Set_abs_error(1e-10, 9)),
    DO("q.Set_ProgressBar(True)", q.Set_ProgressBar(true)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RK2)", q.Set_GSL_step(gsl_odeiv2_step_rk2)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RK4)", q.Set_GSL_step(gsl_odeiv2_step_rk4)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RKF45)", q.Set_GSL_step(gsl_odeiv2_step_rkf45)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RKCK)", q.Set_GSL_step(gsl_odeiv2_step_rkck)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_RK8PD)", q.Set_GSL_step(gsl_odeiv2_step_rk8pd)), DO("q.Set_GSL_step(ns.GSL_STEP_FUNCTIONS.GSL_STEP_MSADAMS)", q.Set_GSL_step(gsl_odeiv2_step_msadams)),
    DO("q.Set_EvolLowPassCutoff(2e-13)", q.Set_EvolLowPassCutoff(2e-13)), DO("q.Set_EvolLowPassScale(1e-14)", q.Set_EvolLowPassScale(1e-14)), EX("q.GetNumE()", double(q.GetNumE())), EX("q.GetNumCos()", double(q.GetNumCos())), EX("q.GetNumNeu()", double(q.GetNumNeu())), EX("q.GetNumRho()", double(q.GetNumRho())), EX("q.GetERange()", q.GetERange()), EX("q.GetCosthRange()", q.GetCosthRange()), EX("q.GetStates()", q.GetStates()), EX("q.GetStates(0)", q.GetStates(0)), EX("q.GetStates(rho=1)", q.GetStates(1)),
    EX("q.GetnuSQuIDS(1).EvalFlavorAtNode(0, 0, 0)", q.GetnuSQuIDS(1).EvalFlavorAtNode(0, 0, 0)), DO("q.GetnuSQuIDS(0).Set_MixingAngle(0, 1, .2)", q.GetnuSQuIDS(0).Set_MixingAngle(0, 1, .2)), EX("q.GetnuSQuIDS(11).GetNumE()", double(q.GetnuSQuIDS(11).GetNumE())),
    DO("q.Set_initial_state(ini(3, 2, 3))", q.Set_initial_state(ini<3>({3, 2, 3}))), DO("q.Set_initial_state(ini(3, 2, 3), ns.Basis.mass)", q.Set_initial_state(ini<3>({3, 2, 3}), mass)), DO("q.Set_initial_state(ini(3, 2, 2, 3))", q.Set_initial_state(ini<4>({3, 2, 2, 3}))), DO("q.Set_initial_state(ini(3, 2, 2, 3), ns.Basis.mass)", q.Set_initial_state(ini<4>({3, 2, 2, 3}), mass)), DO("q.Set_initial_state(ini(3, 2, 2, 3)[:, ::-1])", auto a = ini<4>({3, 2, 2, 3}); auto b = a; for (int z = 0; z < 3; z++) for (int e = 0; e < 2; e++) for (int r = 0; r < 2; r++) for (int f = 0; f < 3; f++) b[z][e][r][f] = a[z][1 - e][r][f]; q.Set_initial_state(b)), DO("q.Set_initial_state(ini(3, 2))", throw std::runtime_error("shape")),
    DO("q.SetNeutrinoCrossSections(lib)", q.SetNeutrinoCrossSections(library(1, 1))), EX("q.GetNeutrinoCrossSections().hasTarget(ns.PDGCode.proton)", (q.GetNeutrinoCrossSections() ? double(q.GetNeutrinoCrossSections()->hasTarget(proton)) : throw std::runtime_error("'NoneType' object has no attribute 'hasTarget'"))),
  };
  return v;
}
// ---- objects alike for both sides
static std::shared_ptr<nuSQUIDS> fresh(int c) {
  std::shared_ptr<nuSQUIDS> q; Quiet z; auto e = arr({4 * k.GeV, 6 * k.GeV, 9 * k.GeV});
  switch (c) {
  case 0: return std::make_shared<nuSQUIDS>();
  case 1: q = std::make_shared<nuSQUIDS>(3, neutrino); break;
  case 2: q = std::make_shared<nuSQUIDS>(e, 3, neutrino); break;
  case 3: q = std::make_shared<nuSQUIDS>(e, 3, both); break;
  default: q = std::make_shared<nuSQUIDS>(e, 3, both, true, library(0, 0)); break;
  }
  q->Set_Body(std::make_shared<ConstantDensity>(5, .45)); q->Set_Track(std::make_shared<ConstantDensity::Track>(120 * k.km)); q->Set_rel_error(1e-4); q->Set_abs_error(1e-4); q->Set_h(40 * k.km); q->Set_h_max(1000 * k.km);
  if (c == 1) { q->Set_E(5 * k.GeV); q->Set_initial_state(ini<1>({3})); } else if (c == 2) q->Set_initial_state(ini<2>({3, 3})); else q->Set_initial_state(ini<3>({3, 2, 3}));
  return q;
}
static std::shared_ptr<Atm> fresh_atm(int c) {
  Quiet z; auto a = std::make_shared<Atm>(arr({-.9, -.4, .2}), arr({50 * k.GeV, 100 * k.GeV}), 3u, c == 0 ? neutrino : both, c == 2, c == 2 ? library(0, 0) : nullptr); a->Set_EarthModel(std::make_shared<EarthAtm>(VERIF_EARTH())); a->Set_rel_error(1e-3); a->Set_abs_error(1e-3); a->Set_h(500 * k.km); a->Set_h_max(5000 * k.km);
  if (c == 0) a->Set_initial_state(ini<3>({3, 2, 3})); else a->Set_initial_state(ini<4>({3, 2, 2, 3})); return a;
}
template <class T, class Make> static void sequence(std::string const &what, Make make, int c, std::vector<Op<T> const *> const &s) {
  if (!vc::begin()) return;
  std::string id = what;
  try {
    std::shared_ptr<T> a = make(c), b = make(c); ns["q"] = bp::object(a); ns["lib"] = bp::object(library(1, 1)); unlink(file("py").c_str()); unlink(file("cc").c_str());
    for (auto o : s) { id += vc::cat(id == what ? ": " : ", ", o->py); one(id, *o, *a, *b); }
    if (strstr(s.back()->py, "Set_") || strstr(s.back()->py, "Read") || strstr(s.back()->py, "Initialize")) { Op<T> ev{"q.EvolveState()", [](T &q) -> V { q.EvolveState(); return {}; }}; id += ", EvolveState"; one(id, ev, *a, *b); }
    CK("call:references", a.use_count() == 2, id, ": held ", a.use_count() - 2, " times by calls which have returned"); ns["q"] = bp::object(); CK("call:references", a.use_count() == 1, id, ": still held");
    vc::state(id); vc::outcome(show(look(*a))); vc::sample(vc::cat(id, " leaves ", show(look(*a))));
  } catch (std::exception &e) { vc::fail("py:exception", id + ": " + e.what()); } catch (bp::error_already_set &) { vc::fail("py:exception", id + ": " + error()); }
}
// ---- calls which need no object to begin with
struct Ex { const char *py; std::function<V()> cc; };
static V objs(std::shared_ptr<nuSQUIDS> q) { return look(*q); }
static V pyobj(std::string const &s) { ns["q"] = run(s); bp::extract<std::shared_ptr<nuSQUIDS>> x(ns["q"]); if (x.check()) return look(*x()); bp::extract<std::shared_ptr<Atm>> y(ns["q"]); return look(*y()); }
typedef NeutrinoCrossSections NX;
static void calls() {
  bool th = vc::thorough();
  { std::ofstream f(vc::cat(vc::C().tmp, "/py_earth.", getpid(), ".dat")); f << VERIF_EARTH_TEXT; }
  ns["EARTH"] = bp::str(VERIF_EARTH()); ns["F"] = bp::str(file("py"));
  exec("k = ns.Const()\nkm = k.km\nGeV = k.GeV\nearth = ns.EarthAtm(EARTH)\ndef ini(*s): return (.2 + ((np.arange(int(np.prod(s))) * 7) % 11) * .3).reshape(s)\nfl = ns.NeutrinoCrossSections_NeutrinoFlavor\nnt = ns.NeutrinoCrossSections_NeutrinoType\ncu = ns.NeutrinoCrossSections_Current\n");
  int no = 0;
  auto ex = [&](std::string py, std::function<V()> cc) { if (!vc::begin()) return; Out p = python(py), c = native(cc); CK("call:pending", !PyErr_Occurred(), py, ": a Python error is left pending"); compare(py, p, c); vc::transition(); vc::state(py); vc::outcome(show(c.v)); vc::sample(vc::cat(py, " answers ", show(p.v))); (void)no; };
  auto mk = [&](std::string py, std::function<V()> cc) { if (!vc::begin()) return; Out p, c = native(cc); { Quiet z; try { p.v = pyobj(py); } catch (std::exception &e) { p.threw = true; p.what = e.what(); PyErr_Clear(); } } c.text = p.text = ""; compare(py, p, c); ns["q"] = bp::object(); vc::transition(); vc::state(py); };
  // constructors
  auto e = arr({4 * k.GeV, 6 * k.GeV, 9 * k.GeV}); typedef nuSQUIDS N; ns["E"] = bp::object(e); ns["Z"] = bp::object(arr({-.9, -.4, .2})); ns["lib"] = bp::object(library(0, 0));
  mk("ns.nuSQUIDS()", [&] { return objs(std::make_shared<N>()); });
  for (int n = 0; n <= 8; n++) for (NeutrinoType t : {neutrino, antineutrino, both}) { std::string T = t == neutrino ? "neutrino" : t == both ? "both" : "antineutrino";
    mk(vc::cat("ns.nuSQUIDS(", n, ", ns.NeutrinoType.", T, ")"), [&] { return objs(std::make_shared<N>(n, t)); });
    mk(vc::cat("ns.nuSQUIDS(E, ", n, ", ns.NeutrinoType.", T, ")"), [&] { return objs(std::make_shared<N>(e, n, t)); }); mk(vc::cat("ns.nuSQUIDS(E_vector=E[::-1], numneu=", n, ", NT=ns.NeutrinoType.", T, ", iinteraction=False)"), [&] { return objs(std::make_shared<N>(arr({9 * k.GeV, 6 * k.GeV, 4 * k.GeV}), n, t, false)); }); mk(vc::cat("ns.nuSQUIDS(E, ", n, ", ns.NeutrinoType.", T, ", True, lib)"), [&] { return objs(std::make_shared<N>(e, n, t, true, library(0, 0))); }); mk(vc::cat("ns.nuSQUIDS(E_vector=E[1:], numneu=", n, ", NT=ns.NeutrinoType.", T, ", iinteraction=True, ncs=lib)"), [&] { return objs(std::make_shared<N>(arr({6 * k.GeV, 9 * k.GeV}), n, t, true, library(0, 0))); });
    if (n == 3 || n == 4 || n == 7) { mk(vc::cat("ns.nuSQUIDSAtm(Z, E, ", n, ", ns.NeutrinoType.", T, ")"), [&] { Atm a(arr({-.9, -.4, .2}), e, n, t); return look(a); }); mk(vc::cat("ns.nuSQUIDSAtm(CosZenith_vector=Z[:2], E_vector=E, numneu=", n, ", NT=ns.NeutrinoType.", T, ", iinteraction=False)"), [&] { Atm a(arr({-.9, -.4}), e, n, t, false); return look(a); }); mk(vc::cat("ns.nuSQUIDSAtm(Z, E, ", n, ", ns.NeutrinoType.", T, ", True, lib)"), [&] { Atm a(arr({-.9, -.4, .2}), e, n, t, true, library(0, 0)); return look(a); }); } }
  mk("ns.nuSQUIDS(E, 3)", [&] { return objs(std::make_shared<N>(e, 3)); }); mk("ns.nuSQUIDS(E[::2], 4)", [&] { return objs(std::make_shared<N>(arr({4 * k.GeV, 9 * k.GeV}), 4)); }); mk("ns.nuSQUIDSAtm(np.zeros(0), E, 3, ns.NeutrinoType.both)", [&] { Atm a(arr({}), e, 3, both); return look(a); });
  for (int c = 1; c < 5; c++) for (int g = 0; g < 3; g++) { { Quiet z; unlink(file("py").c_str()); fresh(c)->WriteStateHDF5(file("py"), g ? "/here" : "/", true, g == 2 ? "/xs" : ""); } mk(g ? "ns.nuSQUIDS(F, '/here')" : "ns.nuSQUIDS(F)", [&] { return objs(g ? std::make_shared<N>(file("py"), "/here") : std::make_shared<N>(file("py"))); }); }
  for (int c = 0; c < 3; c++) { { Quiet z; unlink(file("py").c_str()); fresh_atm(c)->WriteStateHDF5(file("py")); } mk("ns.nuSQUIDSAtm(F)", [&] { Atm a(file("py")); return look(a); }); } mk("ns.nuSQUIDSAtm('/nonexistent/file.h5')", [&] { Atm a("/nonexistent/file.h5"); return look(a); }); mk("ns.nuSQUIDS(filename='/nonexistent/file.h5')", [&] { return objs(std::make_shared<N>("/nonexistent/file.h5")); });
  // grids
  for (int n = 0; n < 6; n++) for (double a : {.5, 3.}) for (double b : {.5, 7.}) { ex(vc::cat("ns.linspace(", a, ", ", b, ", ", n, ")"), [=] { return lin(linspace(a, b, n)); }); ex(vc::cat("ns.logspace(min=", a, ", max=", b, ", samples=", n, ")"), [=] { return lin(logspace(a, b, n)); }); }
  // bodies and tracks
  struct B { const char *name, *make, *args; std::function<std::shared_ptr<Body>()> body; std::function<std::shared_ptr<Track>(int)> track; };
  std::string ea = VERIF_EARTH(), sun = ea + ".sun"; { std::ofstream f(sun); f << VERIF_SUN_TEXT; } ns["SUN"] = bp::str(sun);
#define TR(c) [](int i) -> std::shared_ptr<Track> { if (i) return std::make_shared<c::Track>(1e12, 5e12); return std::make_shared<c::Track>(3e12); }
  std::vector<B> bodies = {{"Vacuum", "ns.Vacuum()", "1e12, 5e12", [] { return std::make_shared<Vacuum>(); }, TR(Vacuum)}, {"ConstantDensity", "ns.ConstantDensity(3.5, .4)", "1e12, 5e12", [] { return std::make_shared<ConstantDensity>(3.5, .4); }, TR(ConstantDensity)}, {"VariableDensity", "ns.VariableDensity([0, 1e12, 2e12, 5e12], [1, 2, 3, 5.], (.5, .4, .5, .6))", "1e12, 5e12", [] { return std::make_shared<VariableDensity>(V{0, 1e12, 2e12, 5e12}, V{1, 2, 3, 5}, V{.5, .4, .5, .6}); }, TR(VariableDensity)},
    {"Earth", "ns.Earth(EARTH)", "1e12, 5e12, 6e12", [=] { return std::make_shared<Earth>(ea); }, [](int i) -> std::shared_ptr<Track> { if (i) return std::make_shared<Earth::Track>(1e12, 5e12, 6e12); return std::make_shared<Earth::Track>(3e12); }}, {"Sun", "ns.Sun(SUN)", "1e12, 5e12", [=] { return std::make_shared<Sun>(sun); }, TR(Sun)}, {"SunASnu", "ns.SunASnu(SUN)", "1e12, 5e12", [=] { return std::make_shared<SunASnu>(sun); }, TR(SunASnu)}};
  for (auto &b : bodies) for (int i = 0; i < 2; i++) for (int rev = 0; rev < 2; rev++) for (double x : {-1., 1.5e12, 2.9e12}) if (vc::begin()) {
    std::string id = vc::cat(b.make, " on ", i ? b.args : "3e12", rev ? " backwards" : "", " at ", x);
    try {
      ns["b"] = run(b.make); ns["t"] = run(vc::cat("ns.", b.name, ".Track(", i ? b.args : "3e12", ")")); std::shared_ptr<Body> B = b.body(); std::shared_ptr<Track> T = b.track(i);
      if (x >= 0) { exec(vc::cat("t.SetX(", vc::cat(x), ")")); T->SetX(x); } if (rev) { exec("t.ReverseTrack()"); T->ReverseTrack(); }
      Out p = python("[t.GetX(), t.GetInitialX(), t.GetFinalX(), b.density(t), b.ye(t)]"), c = native([&] { return V{T->GetX(), T->GetInitialX(), T->GetFinalX(), B->density(*T), B->ye(*T)}; }); compare(id, p, c);
      bp::extract<std::shared_ptr<Body>> xb(ns["b"]); bp::extract<std::shared_ptr<Track>> xt(ns["t"]); CK("call:accepted", xb.check() && xt.check(), id, ": is not taken as a body and a track"); if (xb.check() && xt.check()) CK("call:result", same(lin(xt()), lin(T)) && bits(xb()->density(*xt()), B->density(*T)), id, ": another body or track in C++"); vc::transition(3); vc::state(id);
    } catch (std::exception &e) { vc::fail("py:exception", id + ": " + e.what()); } }
  for (double c : {-1., -.3, .4, 1.}) for (double h : {22., 60.}) if (vc::begin()) {
    std::string id = vc::cat("EarthAtm, height ", h, ", cosine ", c);
    try { EarthAtm a(ea); ns["b"] = run("ns.EarthAtm(EARTH)"); a.SetAtmosphereHeight(h); CK("call:result", true, ""); Out p0 = python(vc::cat("b.SetAtmosphereHeight(", h, ")")); CK("call:accepted", !p0.threw, id, ": ", p0.what); std::string cs = vc::cat(c), ph = vc::cat(acos(c));
      auto t = a.MakeTrackWithCosine(c), u = a.MakeTrack(acos(c)); ns["c"] = bp::object(c); ns["h"] = bp::object(acos(c)); compare(id, python("[b.GetRadius(), b.GetAtmosphereHeight()]"), native([&] { return V{a.GetRadius(), a.GetAtmosphereHeight()}; }));
      auto f = [&](EarthAtm::Track t) { t.SetX(t.GetFinalX() * .4); return V{t.GetX(), t.GetInitialX(), t.GetFinalX(), a.density(t), a.ye(t)}; }; exec("def f(t):\n    t.SetX(t.GetFinalX() * .4)\n    return [t.GetX(), t.GetInitialX(), t.GetFinalX(), b.density(t), b.ye(t)]\n");
      compare(id, python("f(b.MakeTrackWithCosine(c))"), native([&] { return f(t); })); compare(id, python("f(b.MakeTrack(h))"), native([&] { return f(u); })); compare(id, python("f(ns.EarthAtm.Track(b.MakeTrack(h)))"), native([&] { return f(u); })); compare(id, python("f(ns.EarthAtm.Track(h, b.GetRadius() * km, b.GetAtmosphereHeight() * km))"), native([&] { return f(EarthAtm::Track(acos(c), a.GetRadius() * ::k.km, a.GetAtmosphereHeight() * ::k.km)); })); compare(id, python("ns.EarthAtm.Track(1e10, h, b.GetRadius() * km, b.GetAtmosphereHeight() * km)"), native([&] { return lin(std::make_shared<EarthAtm::Track>(1e10, acos(c), a.GetRadius() * ::k.km, a.GetAtmosphereHeight() * ::k.km)); })); vc::transition(6); vc::state(id);
    } catch (std::exception &e) { vc::fail("py:exception", id + ": " + e.what()); } }
  // cross sections, libraries, decays
  const char *fn[] = {"electron", "muon", "tau", "sterile"}, *tn[] = {"neutrino", "antineutrino"}, *cn[] = {"CC", "NC", "GR"};
  for (int f = 0; f < 4; f++) for (int t = 0; t < 2; t++) for (int c = 0; c < 3; c++) for (double E : {3e6, 7e6}) { std::string a = vc::cat(E, " * GeV, "), z = vc::cat("fl.", fn[f], ", nt.", tn[t], ", cu.", cn[c], ")"); auto F = NX::NeutrinoFlavor(f); auto T = NX::NeutrinoType(t); auto C = NX::Current(c); double x = E * ::k.GeV;
    ex("ns.NullCrossSections().TotalCrossSection(" + a + z, [=] { return V{NullCrossSections().TotalCrossSection(x, F, T, C)}; }); ex("ns.NullCrossSections().SingleDifferentialCrossSection(" + a + "2e5 * GeV, " + z, [=] { return V{NullCrossSections().SingleDifferentialCrossSection(x, 2e5 * ::k.GeV, F, T, C)}; });
    ex("ns.GlashowResonanceCrossSection().TotalCrossSection(" + a + z, [=] { return V{GlashowResonanceCrossSection().TotalCrossSection(x, F, T, C)}; }); ex("ns.GlashowResonanceCrossSection().SingleDifferentialCrossSection(" + a + "2e5 * GeV, " + z, [=] { return V{GlashowResonanceCrossSection().SingleDifferentialCrossSection(x, 2e5 * ::k.GeV, F, T, C)}; }); }
  for (const char *g : {"TauDecayToLepton", "TauDecayToHadron", "TauDecayToAll", "TauDecayToPion", "TauDecayToRho", "TauDecayToA1"}) for (double z : {.1, .6, .95}) ex(vc::cat("ns.TauDecaySpectra(E).", g, "(", 5e9, ", ", z * 5e9, ")"), [=] { TauDecaySpectra t(e); std::string s = g; double a = 5e9, b = z * 5e9; return V{s == "TauDecayToLepton" ? t.TauDecayToLepton(a, b) : s == "TauDecayToHadron" ? t.TauDecayToHadron(a, b) : s == "TauDecayToAll" ? t.TauDecayToAll(a, b) : s == "TauDecayToPion" ? t.TauDecayToPion(a, b) : s == "TauDecayToRho" ? t.TauDecayToRho(a, b) : t.TauDecayToA1(a, b)}; });
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int n = 0; n < 2; n++) { std::string a = vc::cat("(", i, ", ", j, ", ", n, ")"); ex("ns.TauDecaySpectra(E).dNdEnu_All" + a, [=] { return V{TauDecaySpectra(e).dNdEnu_All(i, j, n)}; }); ex("ns.TauDecaySpectra(E).dNdEnu_Lep" + a, [=] { return V{TauDecaySpectra(e).dNdEnu_Lep(i, j, n)}; }); ex("ns.TauDecaySpectra(E).dNdEle_All" + a, [=] { return V{TauDecaySpectra(e).dNdEle_All(i, j, n)}; }); ex("ns.TauDecaySpectra(E).dNdEle_Lep" + a, [=] { return V{TauDecaySpectra(e).dNdEle_Lep(i, j, n)}; }); }
  ex("[ns.TauDecaySpectra().GetTauToHadronBranchingRatio(), ns.TauDecaySpectra().GetTauToLeptonBranchingRatio()]", [] { TauDecaySpectra t; return V{t.GetTauToHadronBranchingRatio(), t.GetTauToLeptonBranchingRatio()}; });
  const char *pdg[] = {"electron", "isoscalar_nucleon", "proton", "neutron"}; const PDGCode code[] = {electron, isoscalar_nucleon, proton, neutron};
  for (int m = 0; m < 16; m++) { std::string l = "(lambda l: ["; for (int i = 0; i < 4; i++) if (m >> i & 1) l += vc::cat("l.addTarget(ns.PDGCode.", pdg[i], ", ns.NullCrossSections()) or 0, "); for (int i = 0; i < 4; i++) l += vc::cat("l.hasTarget(ns.PDGCode.", pdg[i], "), l.crossSectionForTarget(ns.PDGCode.", pdg[i], ") is not None, "); l += "])(ns.CrossSectionLibrary())";
    ex(l, [=] { CrossSectionLibrary c; V v; for (int i = 0; i < 4; i++) if (m >> i & 1) { c.addTarget(code[i], std::shared_ptr<NeutrinoCrossSections>(new NullCrossSections)); v.push_back(0); } for (int i = 0; i < 4; i++) { v.push_back(c.hasTarget(code[i])); v.push_back(!!c.crossSectionForTarget(code[i])); } return v; }); }
  // sequences of calls
  auto &o = ops(); auto &p = atm_ops();
  for (int c = 0; c < 5; c++) { std::string w = vc::cat("object ", c);
    for (auto &x : o) { sequence<nuSQUIDS>(w, fresh, c, {&x}); }
    for (size_t i = 0; i < o.size(); i++) for (size_t j = 0; j < o.size(); j++) { if (!th && (i * 7 + j * 3 + c) % 3) continue; sequence<nuSQUIDS>(w, fresh, c, {&o[i], &o[j]}); } }
  for (int c = 0; c < 3; c++) { std::string w = vc::cat("atmosphere ", c);
    for (auto &x : p) sequence<Atm>(w, fresh_atm, c, {&x});
    for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < p.size(); j++) { if (!th && (i * 7 + j * 3 + c) % 5) continue; sequence<Atm>(w, fresh_atm, c, {&p[i], &p[j]}); } }
}
#endif

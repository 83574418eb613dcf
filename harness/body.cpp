// Media and paths: PART 0, what a body reports along every path; PART 1, storing and restoring bodies and paths.
#include "vc.hpp"
#include "h5track.hpp"
#include <memory>
#include <typeinfo>
#include <nuSQuIDS/body.h>
#include <nuSQuIDS/resources.h>
#include <SQuIDS/const.h>
#include <H5Gpublic.h>
#include <hdf5.h>
#include <set>
#include <fstream>
#include <algorithm>
#include <unistd.h>
using namespace nusquids;
typedef long double R;
typedef std::vector<double> V;
static squids::Const k;

// A radial table: constant beyond its ends (outside: as given), interpolated between.
struct Table {
  AkimaSpline s; double r0, r1, lo, hi;
  Table(V r, V v, bool zero) : s(r, v), r0(r.front()), r1(r.back()), lo(v.front()), hi(zero ? 0 : v.back()) {}
  double operator()(double r) const { return r < r0 ? lo : r > r1 ? hi : s(r); }
};
// Value at a radius known to within a relative rounding error.
static bool agrees(Table const &t, R r, double got, double add = 0, double mul = 1) {
  double lo = INFINITY, hi = -INFINITY;
  for (int i = -8; i <= 8; i++) { double v = add + mul * t(double(r + i * 2e-9L / 8)); lo = std::min(lo, v); hi = std::max(hi, v); }
  double e = 1e-7 * std::max(fabs(lo), fabs(hi)) + 1e-13;
  return got >= lo - e && got <= hi + e;
}
static V lin(double a, double b, int n) { V v; for (int i = 0; i < n; i++) v.push_back(i == n - 1 ? b : a + (b - a) * i / (n - 1)); return v; }
static V fracs() { V v = lin(0, 1, vc::thorough() ? 401 : 81); for (double e : {1e-12, 1e-9, 1e-6, 1e-3}) { v.push_back(e); v.push_back(1 - e); v.push_back(.5 + e); v.push_back(.5 - e); } return v; }
static V col(marray<double, 2> const &m, unsigned c) { V v; for (unsigned i = 0; i < m.extent(0); i++) v.push_back(m[i][c]); return v; }
struct Model { std::string name; V x, rho, ye; unsigned cols[3]; bool text; }; // text: read from a file of these columns
template <class B> std::shared_ptr<B> build(Model const &m) {
  if (!m.text) return std::make_shared<B>(m.x, m.rho, m.ye);
  std::string f = vc::cat(vc::C().tmp, "/model", getpid(), ".dat"); { std::ofstream o(f); o.precision(17); unsigned n = 1 + *std::max_element(m.cols, m.cols + 3); for (size_t i = 0; i < m.x.size(); i++) { for (unsigned c = 0; c < n; c++) o << (c == m.cols[0] ? m.x[i] : c == m.cols[1] ? m.rho[i] : c == m.cols[2] ? m.ye[i] : 77. + c) << " "; o << "\n"; } }
  auto b = std::make_shared<B>(f); unlink(f.c_str()); return b;
}
static std::vector<Model> models(std::string file, unsigned cx, unsigned cr, unsigned cy) {
  std::vector<Model> m;
  auto t = quickread(getResourcePath() + "/astro/" + file);
  m.push_back({file, col(t, cx), col(t, cr), col(t, cy)});
  m.push_back({"3 nodes 0-1", {0, .5, 1}, {12, 6, 2.5}, {.46, .47, .49}});
  m.push_back({"4 nodes inside", {.1, .3, .7, .9}, {10, 3, 5, 1}, {.3, .6, .5, .4}});
  m.push_back({"7 nodes", {0, .19, .2, .54, .55, .99, 1}, {13, 12.8, 12.1, 10, 5.5, 3.3, 1}, {.46, .461, .465, .47, .49, .495, .5}});
  for (Model &x : m) { x.cols[0] = cx; x.cols[1] = cr; x.cols[2] = cy; x.text = false; }
  for (size_t i = 1, n = m.size(); i < n; i++) { Model x = m[i]; x.name += " from a file"; x.text = true; m.push_back(x); }
  return m;
}
#define CK(key, cond, ...) do { vc::eval(); if (!(cond)) vc::fail(key, vc::cat(__VA_ARGS__)); } while (0)

#if PART == 0
template <class T> void track_common(std::string const &n, T t, double x, double xi, double xf, V extra) {
  V p{xi, xf}; p.insert(p.end(), extra.begin(), extra.end());
  CK("track:position", t.GetX() == x && t.GetInitialX() == xi && t.GetFinalX() == xf, n, ": position ", t.GetX(), " start ", t.GetInitialX(), " end ", t.GetFinalX(), " expected ", x, " ", xi, " ", xf);
  auto same = [&](V const &a, V const &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (fabs(a[i] - b[i]) > 1e-12 * fabs(b[i]) + (i > 1 ? 3e-8 : 0)) return false; return true; };
  CK("track:params", same(t.GetTrackParams(), p), n, ": parameters ", vc::show(t.GetTrackParams()), " expected ", vc::show(p));
  for (double y : {xi, xf, 0.5 * (xi + xf), 3.25}) { t.SetX(y); CK("track:setx", t.GetX() == y && t.GetInitialX() == xi && t.GetFinalX() == xf, n, ": after moving to ", y, ": ", t.GetX(), " ", t.GetInitialX(), " ", t.GetFinalX()); }
  t.ReverseTrack();
  CK("track:reverse", t.GetInitialX() == xf && t.GetFinalX() == xi, n, ": reversed runs from ", t.GetInitialX(), " to ", t.GetFinalX());
  V q = p; std::swap(q[0], q[1]);
  CK("track:reverse", same(t.GetTrackParams(), q), n, ": reversed parameters ", vc::show(t.GetTrackParams()));
  t.ReverseTrack();
  CK("track:reverse", t.GetInitialX() == xi && t.GetFinalX() == xf, n, ": reversed twice runs from ", t.GetInitialX(), " to ", t.GetFinalX());
  vc::transition(7); vc::state(vc::cat(n, x, xi, xf)); vc::outcome(n);
}
template <class T> void straight(const char *n) {
  V a{0, 1, 2.5, 1e3 * k.km, 12742 * k.km, 1e8 * k.km};
  for (double x : a) { if (vc::begin()) track_common(vc::cat(n, "(", x, ")"), T(x), 0, 0, x, {});
    for (double y : a) { if (vc::begin()) track_common(vc::cat(n, "(", x, ",", y, ")"), T(x, y), x, x, y, {});
      for (double z : a) if (vc::begin()) track_common(vc::cat(n, "(", x, ",", y, ",", z, ")"), T(x, y, z), x, y, z, {}); } }
}
static void run() {
  straight<Vacuum::Track>("vacuum"); straight<ConstantDensity::Track>("constant"); straight<VariableDensity::Track>("variable"); straight<Sun::Track>("sun");
  V a{0, 1, 1e3 * k.km, 12742 * k.km};
  for (double b : {1e3 * k.km, 12742 * k.km}) {
    if (vc::begin()) track_common("earth", Earth::Track(b), 0, 0, b, {b});
    for (double x : a) for (double y : a) { if (vc::begin()) track_common("earth", Earth::Track(x, y, b), x, x, y, {b});
      if (vc::begin()) { Earth::Track t(x, y, b); CK("track:baseline", t.GetBaseline() == b, "earth baseline ", t.GetBaseline()); }
      for (double z : a) if (vc::begin()) track_common("earth", Earth::Track(x, y, z, b), x, y, z, {b}); }
  }
  // uniform media
  if (vc::begin()) {
    Vacuum v; Vacuum::Track t(0, 5 * k.km);
    for (double x : a) { t.SetX(x); CK("vacuum", v.density(t) == 0 && v.ye(t) == 1 && v.IsConstantDensity(), "vacuum at ", x, ": ", v.density(t), " ", v.ye(t)); }
    vc::transition(4);
  }
  for (double d : {0., 1e-3, 1., 5.5, 13.1}) for (double y : {0., .46, .5, 1.}) if (vc::begin()) {
    ConstantDensity b(d, y); ConstantDensity::Track t(0, 1e4 * k.km);
    for (double x : a) { t.SetX(x); CK("constant", b.density(t) == d && b.ye(t) == y && b.IsConstantDensity(), "constant ", d, " ", y, " at ", x, ": ", b.density(t), " ", b.ye(t)); }
    CK("constant:params", b.GetBodyParams() == (V{d, y}), "constant parameters ", vc::show(b.GetBodyParams())); vc::transition(5);
    vc::state(vc::cat(d, y));
  }
  // tables along the path, in cm
  for (auto &m : models("EARTH_MODEL_PREM.dat", 0, 1, 2)) for (double scale : {1., 100., 1e9}) if (vc::begin()) {
    V x = m.x; for (auto &e : x) e *= scale;
    VariableDensity b(x, m.rho, m.ye); Table rho(x, m.rho, true), ye(x, m.ye, true);
    CK("variable:constant", !b.IsConstantDensity(), "variable density claims to be constant");
    V p = x; p.insert(p.end(), m.rho.begin(), m.rho.end()); p.insert(p.end(), m.ye.begin(), m.ye.end());
    CK("variable:params", b.GetBodyParams() == p, "variable parameters ", vc::show(b.GetBodyParams()));
    VariableDensity::Track t(0, scale * k.cm); V at = x; for (double f : fracs()) at.push_back(f * scale);
    for (double q : {-1., 1.001, 2.}) at.push_back(q * scale);
    for (double q : at) for (double e : {-1e-6, 0., 1e-6}) {
      double c = q + e * scale; t.SetX(c * k.cm); vc::transition(2);
      // interpolation sees the position within rounding, at the ends either side counts
      auto ok = [&](Table const &f, double got) { if (fabs(c - f.r0) < 1e-9 * scale) return fabs(got - f.s(f.r0)) < 1e-6 * (1 + fabs(f.s(f.r0))) || got == 0; if (fabs(c - f.r1) < 1e-9 * scale) return fabs(got - f.s(f.r1)) < 1e-6 * (1 + fabs(f.s(f.r1))) || got == 0;
        double w = c < f.r0 || c > f.r1 ? 0 : f.s(c); return fabs(got - w) <= 1e-7 * (fabs(w) + 1e-3); };
      CK("variable:density", ok(rho, b.density(t)), m.name, " x", scale, " at ", c, " cm: density ", b.density(t));
      CK("variable:ye", ok(ye, b.ye(t)), m.name, " x", scale, " at ", c, " cm: ye ", b.ye(t));
    }
    vc::state(vc::cat("variable", m.name, scale)); vc::outcome(vc::cat("variable", m.name));
  }
  // Earth: chords
  const R RE = 6371;
  auto em = models("EARTH_MODEL_PREM.dat", 0, 1, 2);
  V cz = lin(-1, 1, vc::thorough() ? 161 : 41); for (double c : {-.999, -.9999, -.837, -.836, -1e-3, -1e-6, 1e-6, 1e-3, .999}) cz.push_back(c);
  for (size_t mi = 0; mi <= em.size(); mi++) {
    auto &m = em[mi ? mi - 1 : 0];
    std::shared_ptr<Earth> b; std::string n = mi ? m.name : "default"; 
    auto mk = [&] { if (!b) b = mi ? build<Earth>(m) : std::make_shared<Earth>(); };
    Table rho(m.x, m.rho, false), ye(m.x, m.ye, false);
    for (double c : cz) if (c <= 0) { if (!vc::begin()) continue;
      mk(); double L = -2 * double(RE) * c; if (c == 0) L = 1e-3;
      CK("earth:radius", b->GetRadius() == 6371 && !b->IsConstantDensity(), "earth radius ", b->GetRadius());
      Earth::Track t(L * k.km); CK("earth:baseline", t.GetBaseline() == L * k.km, "baseline");
      R h2 = RE * RE - R(L) * L / 4;
      for (double f : fracs()) {
        double x = f * L; t.SetX(x * k.km); R d = R(x) - R(L) / 2, r = sqrtl(std::max<R>(0, h2 + d * d)) / RE; vc::transition(2);
        try {
          double gd = b->density(t), gy = b->ye(t);
          // near the centre the radius is only known to the square root of the rounding error
          bool c0 = r < 3e-7L;
          CK("earth:density", agrees(rho, r, gd) || (c0 && agrees(rho, 0, gd, 0, 1)) || (c0 && fabs(gd - rho(double(r))) < 1e-6 * gd), n, " chord ", L, " km at ", x, " km (radius ", double(r), "): density ", gd, " expected ", rho(double(r)));
          CK("earth:ye", agrees(ye, r, gy) || (c0 && fabs(gy - ye(double(r))) < 1e-6 * gy), n, " chord ", L, " km at ", x, " km (radius ", double(r), "): ye ", gy, " expected ", ye(double(r)));
        } catch (std::exception &e) { vc::fail("earth:throws", vc::cat(n, " chord ", L, " km at ", x, " km: ", e.what())); }
      }
      vc::state(vc::cat("earth", n, c)); vc::outcome(vc::cat("earth", n));
    }
    if (vc::begin()) { mk(); // a chord longer than the diameter does not exist
      Earth::Track t(14000 * k.km); t.SetX(7000 * k.km); int e = 0;
      try { b->density(t); } catch (std::runtime_error &) { e++; } try { b->ye(t); } catch (std::runtime_error &) { e++; }
      CK("earth:impossible", e == 2, "a chord of 14000 km was accepted"); }
  }
  // Earth with atmosphere
  for (size_t mi = 0; mi <= em.size(); mi++) {
    auto &m = em[mi ? mi - 1 : 0]; std::string n = mi ? m.name : "default";
    Table rho(m.x, m.rho, false), ye(m.x, m.ye, false);
    std::shared_ptr<EarthAtm> b;
    for (double H : {-1., 22., 10., 60., 1.}) for (double c : cz) { if (!vc::begin()) continue;
      b = mi ? build<EarthAtm>(m) : std::make_shared<EarthAtm>();
      if (H > 0) b->SetAtmosphereHeight(H);
      double h = H > 0 ? H : 22;
      CK("atm:radius", b->GetRadius() == 6371 && b->GetAtmosphereHeight() == h && !b->IsConstantDensity(), "radius ", b->GetRadius(), " height ", b->GetAtmosphereHeight());
      R L = sqrtl((RE + h) * (RE + h) - RE * RE * (1 - R(c) * c)) - RE * c;
      std::vector<EarthAtm::Track> ts{b->MakeTrackWithCosine(c), b->MakeTrack(acos(c)), EarthAtm::Track(acos(c), b->GetRadius() * k.km, h * k.km), EarthAtm::Track::MakeWithCosine(c, b->GetRadius() * k.km, h * k.km), EarthAtm::Track(3 * k.km, acos(c), b->GetRadius() * k.km, h * k.km)};
      { EarthAtm::Track z(0., acos(c), b->GetRadius() * k.km, h * k.km); CK("atm:length", z.GetX() == 0 && z.GetFinalX() == ts[4].GetFinalX(), "a path at its beginning is at ", z.GetX() / k.km); }
      for (size_t ti = 0; ti < ts.size(); ti++) {
        auto &t = ts[ti];
        double xl = t.GetFinalX() / k.km, tol = 1e-6 + 1e-9 * double(L);
        CK("atm:length", fabs(xl - double(L)) < tol && fabs(t.GetBaseline() / k.km - double(L)) < tol && t.GetInitialX() == 0 && t.GetX() == (ti == 4 ? 3 * k.km : 0), "maker ", ti, " cos ", c, " height ", h, ": from ", t.GetInitialX(), " to ", xl, " km at ", t.GetX() / k.km, " expected length ", double(L));
        V p = t.GetTrackParams();
        CK("atm:params", p.size() == 5 && p[0] == t.GetInitialX() && p[1] == t.GetFinalX() && fabs(p[2] - acos(c)) < 1e-7 && p[3] == b->GetRadius() * k.km && p[4] == h * k.km, "maker ", ti, " cos ", c, " height ", h, ": parameters ", vc::show(p));
        if (ti == 4) continue;
        for (double f : fracs()) {
          double x = f * double(L); t.SetX(x * k.km); R d = L - R(x), r = sqrtl(std::max<R>(0, RE * RE + d * d + 2 * RE * d * c)); vc::transition(2);
          double gd = b->density(t), gy = b->ye(t);
          double air = 0.0012 * exp(-double(r - RE) / 7.594); bool above = r > RE - 1e-5, below = r < RE + 1e-5;
          bool okd = (above && fabs(gd - air) < 1e-5 * air) || (below && agrees(rho, r / RE, gd)), oky = (above && gy == 0.494) || (below && agrees(ye, r / RE, gy));
          bool alt = below && agrees(rho, r / (RE + h), gd), alty = below && agrees(ye, r / (RE + h), gy);
          vc::eval(2);
          if (!okd) vc::fail(alt ? "atm:interior-scale" : "atm:density", vc::cat(n, " cos ", c, " height ", h, " maker ", ti, " at ", x, " km (radius ", double(r), " km): density ", gd, " expected ", above ? air : rho(double(r / RE))));
          if (!oky) vc::fail(alty ? "atm:interior-scale" : "atm:ye", vc::cat(n, " cos ", c, " height ", h, " maker ", ti, " at ", x, " km (radius ", double(r), " km): ye ", gy, " expected ", above ? .494 : ye(double(r / RE))));
        }
      }
      vc::state(vc::cat("atm", n, c, h)); vc::outcome(vc::cat("atm", n, h));
    }
  }
  // Sun: outwards from the centre, and chords
  auto sm = models("bs05_agsop.dat", 1, 3, 6);
  for (size_t mi = 0; mi <= sm.size(); mi++) {
    auto &m = sm[mi ? mi - 1 : 0]; std::string n = mi ? m.name : "default";
    Table rho(m.x, m.rho, true), xh(m.x, m.ye, true);
    if (vc::begin()) {
      auto b = mi ? build<Sun>(m) : std::make_shared<Sun>();
      CK("sun:radius", b->GetRadius() == 695980.0 * k.km && !b->IsConstantDensity(), "sun radius ", b->GetRadius());
      Sun::Track t(0, b->GetRadius()); V fr = fracs(); fr.insert(fr.end(), {1.01, 2.}); for (double x : m.x) { fr.push_back(x); fr.push_back(x + 1e-7); }
      for (double f : fr) { t.SetX(f * b->GetRadius()); vc::transition(2);
        CK("sun:density", agrees(rho, f, b->density(t)), n, " radius ", f, ": density ", b->density(t), " expected ", rho(f));
        CK("sun:ye", agrees(xh, f, b->ye(t), .5, .5), n, " radius ", f, ": ye ", b->ye(t), " expected ", .5 * (1 + xh(f))); }
      vc::state("sun" + n); vc::outcome("sun" + n);
    }
    for (double bf : {0., 1e-3, .1, .25, .5, .7, .9, .99}) if (vc::begin()) {
      auto b = mi ? build<SunASnu>(m) : std::make_shared<SunASnu>();
      const R RS = 694439.0L; double bi = bf * 694439.0 * k.km;
      CK("asnu:radius", b->GetRadius() == 694439.0 * k.km && !b->IsConstantDensity(), n, ": radius ", b->GetRadius() / k.km, " km, paths are laid out for 694439 km");
      SunASnu::Track t(bi), u(2 * k.km, bi), w(3 * k.km, 1 * k.km, bi);
      R half = RS * sqrtl(1 - R(bf) * bf); double L = double(2 * half) * k.km;
      CK("asnu:length", t.GetInitialX() == 0 && t.GetX() == 0 && fabs(t.GetFinalX() - L) < 1e-9 * L, "impact ", bf, ": from ", t.GetInitialX(), " to ", t.GetFinalX(), " expected length ", L);
      CK("asnu:length", u.GetInitialX() == 2 * k.km && u.GetX() == 2 * k.km && fabs(u.GetFinalX() - L) < 1e-9 * L && w.GetX() == 3 * k.km && w.GetInitialX() == 1 * k.km, "impact ", bf);
      V p = t.GetTrackParams(); CK("asnu:params", p.size() == 3 && p[0] == 0 && p[1] == t.GetFinalX() && p[2] == bi, "parameters ", vc::show(p));
      for (double f : fracs()) {
        R d = R(f) * 2 * half - half, r = sqrtl(R(bf) * bf + d * d / (RS * RS)); t.SetX(f * L); vc::transition(2);
        double gd = b->density(t), gy = b->ye(t); bool edge = fabsl(r - m.x.back()) < 1e-7, c0 = r < 1e-6;
        // the interpolating table stops at the last node: either side of it is right there
        CK("asnu:density", agrees(rho, r, gd) || edge || (c0 && fabs(gd - rho(double(r))) < 1e-5 * gd), n, " impact ", bf, " at fraction ", f, " (radius ", double(r), "): density ", gd, " expected ", rho(double(r)));
        CK("asnu:ye", agrees(xh, r, gy, .5, .5) || edge || (c0 && fabs(gy - .5 - .5 * xh(double(r))) < 1e-5), n, " impact ", bf, " at fraction ", f, " (radius ", double(r), "): ye ", gy, " expected ", .5 * (1 + xh(double(r))));
      }
      vc::state(vc::cat("asnu", n, bf)); vc::outcome("asnu" + n);
    }
  }
  vc::sample("Earth with atmosphere, 22 km, cos -0.5: position, density and composition at 97 points against vector geometry");
}
#else
// a medium of the user's own
struct Slab : Body {
  double w; Slab(double w) : w(w) {}
  struct Track : Body::Track { Track(double a, double b, double c) : Body::Track(a, b, c) {}
    void Serialize(hid_t g) const { addH5Attribute(g, "name", GetName()); addH5Attribute(g, "p", x); addH5Attribute(g, "q", xini); addH5Attribute(g, "r", xend); }
    static std::shared_ptr<Track> Deserialize(hid_t g) { double a, b, c; readH5Attribute(g, "p", a); readH5Attribute(g, "q", b); readH5Attribute(g, "r", c); return std::make_shared<Track>(a, b, c); }
    static std::string GetName() { return "SlabTrack"; } };
  static std::string GetName() { return "Slab"; }
  double density(const GenericTrack &t) const { return w * t.GetX(); }
  void Serialize(hid_t g) const { addH5Attribute(g, "name", GetName()); addH5Attribute(g, "w", w); }
  static std::shared_ptr<Slab> Deserialize(hid_t g) { double w; readH5Attribute(g, "w", w); return std::make_shared<Slab>(w); }
};
NUSQUIDS_REGISTER_BODY(Slab);

static int serial = 0;
// store both, restore by stored name, compare everything observable
template <class B, class T> void trip(std::string const &what, B const &b, T const &t0, V const &at) {
  T t(t0); vc::transition(4);
  std::string fn = vc::C().tmp + "/b" + std::to_string(serial++ % 4) + ".h5"; remove(fn.c_str());
  auto bp = std::make_shared<int>(0); std::shared_ptr<Body> rb; std::shared_ptr<Body::Track> rt;
  try {
    { hid_t f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), g = H5Gcreate2(f, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), h = H5Gcreate2(f, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      open_ids.clear(); track = true; b.Serialize(g); track = false; CK("handles:body", open_ids.empty(), what, ": storing the body leaves ", open_ids.size(), " HDF5 handles open");
      open_ids.clear(); track = true; t.Serialize(h); track = false; CK("handles:track", open_ids.empty(), what, ": storing the path leaves ", open_ids.size(), " HDF5 handles open");
      H5Gclose(g); H5Gclose(h); H5Fclose(f); }
    { hid_t f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), g = H5Gopen2(f, "body", H5P_DEFAULT), h = H5Gopen2(f, "track", H5P_DEFAULT);
      std::string bn, tn; open_ids.clear(); track = true; readH5Attribute(g, "name", bn); readH5Attribute(h, "name", tn);
      rb = GetBodyDeserializer(bn)(g); rt = GetTrackDeserializer(tn)(h);
      track = false; CK("handles:restore", open_ids.empty(), what, ": restoring leaves ", open_ids.size(), " HDF5 handles open");
      H5Gclose(g); H5Gclose(h); H5Fclose(f);
      CK("name", bn == B::GetName() && tn == T::GetName(), what, ": stored under ", bn, " ", tn); }
  } catch (std::exception &e) { track = false; vc::fail("throws", vc::cat(what, ": ", e.what())); return; }
  remove(fn.c_str());
  Body &q = *rb;
  CK("type", dynamic_cast<B *>(rb.get()) && typeid(q) == typeid(B) && dynamic_cast<T *>(rt.get()), what, ": another kind of object came back");
  if (!dynamic_cast<B *>(rb.get()) || !dynamic_cast<T *>(rt.get())) return;
  CK("body:params", rb->GetBodyParams() == b.GetBodyParams() && rb->IsConstantDensity() == b.IsConstantDensity(), what, ": body parameters ", vc::show(rb->GetBodyParams()), " expected ", vc::show(b.GetBodyParams()));
  CK("track:position", rt->GetX() == t.GetX(), what, ": position ", rt->GetX(), " expected ", t.GetX());
  CK("track:ends", rt->GetInitialX() == t.GetInitialX() && rt->GetFinalX() == t.GetFinalX(), what, ": runs from ", rt->GetInitialX(), " to ", rt->GetFinalX(), " expected ", t.GetInitialX(), " to ", t.GetFinalX());
  CK("track:params", rt->GetTrackParams() == t.GetTrackParams(), what, ": path parameters ", vc::show(rt->GetTrackParams()), " expected ", vc::show(t.GetTrackParams()));
  for (double x : at) {
    t.SetX(x); rt->SetX(x);
    CK("body:density", b.density(t) == rb->density(t), what, " at ", x, ": density ", rb->density(t), " was ", b.density(t));
    CK("body:ye", b.ye(t) == rb->ye(t), what, " at ", x, ": ye ", rb->ye(t), " was ", b.ye(t));
    CK("track:density", b.density(t) == b.density(*rt) && b.ye(t) == b.ye(*rt), what, " at ", x, " on the restored path: ", b.density(*rt), " ", b.ye(*rt), " was ", b.density(t), " ", b.ye(t));
  }
  vc::state(what); vc::outcome(vc::cat(B::GetName(), at.size()));
}
template <class B, class T> void straight(std::string const &n, std::function<std::shared_ptr<B>()> mk, double len) {
  std::shared_ptr<B> b;
  for (double x : {0., .3, 1.}) for (double i : {0., .25, 1.}) for (double e : {0., .5, 1.}) for (int rev = 0; rev < 2; rev++) if (vc::begin()) {
    if (!b) b = mk(); T t(x * len, i * len, e * len); if (rev) t.ReverseTrack();
    trip(vc::cat(n, " path ", x, " ", i, " ", e, rev ? " reversed" : ""), *b, t, lin(-.1 * len, 1.1 * len, 25));
  }
}
static void run() {
  if (vc::begin()) { // every kind has an identifier and names of its own
    std::vector<unsigned> id{Vacuum::GetId(), ConstantDensity::GetId(), VariableDensity::GetId(), Earth::GetId(), Sun::GetId(), SunASnu::GetId(), EarthAtm::GetId(), Body::GetId()};
    std::vector<std::string> nm{Vacuum::GetName(), ConstantDensity::GetName(), VariableDensity::GetName(), Earth::GetName(), Sun::GetName(), SunASnu::GetName(), EarthAtm::GetName(), Body::GetName(), Vacuum::Track::GetName(), ConstantDensity::Track::GetName(), VariableDensity::Track::GetName(), Earth::Track::GetName(), Sun::Track::GetName(), SunASnu::Track::GetName(), EarthAtm::Track::GetName(), Body::Track::GetName()};
    CK("name", std::set<unsigned>(id.begin(), id.end()).size() == id.size(), "two kinds of body have the same identifier");
    CK("name", std::set<std::string>(nm.begin(), nm.end()).size() == nm.size(), "two kinds of body or path have the same name");
  }
  straight<Vacuum, Vacuum::Track>("vacuum", [] { return std::make_shared<Vacuum>(); }, 1e4 * k.km);
  for (double d : {0., 2.6, 13.}) for (double y : {.4, .5, 1.}) straight<ConstantDensity, ConstantDensity::Track>(vc::cat("constant ", d, " ", y), [=] { return std::make_shared<ConstantDensity>(d, y); }, 1e4 * k.km);
  auto em = models("EARTH_MODEL_PREM.dat", 0, 1, 2), sm = models("bs05_agsop.dat", 1, 3, 6);
  for (auto &m : em) straight<VariableDensity, VariableDensity::Track>("variable " + m.name, [&] { return std::make_shared<VariableDensity>(m.x, m.rho, m.ye); }, k.cm);
  for (auto &m : sm) straight<Sun, Sun::Track>("sun " + m.name, [&] { return build<Sun>(m); }, 695980. * k.km);
  straight<Sun, Sun::Track>("sun", [] { return std::make_shared<Sun>(); }, 695980. * k.km);
  straight<Slab, Slab::Track>("user's", [] { return std::make_shared<Slab>(2.5); }, 1.);
  for (size_t mi = 0; mi <= em.size(); mi++) {
    auto &m = em[mi ? mi - 1 : 0]; std::string n = mi ? m.name : "default";
    std::shared_ptr<Earth> b;
    for (double L : {0.1, 3000., 12742.}) for (double x : {0., .3, 1.}) for (double i : {0., .25, 1.}) for (double e : {0., .5, 1.}) for (int rev = 0; rev < 2; rev++) if (vc::begin()) {
      if (!b) b = mi ? build<Earth>(m) : std::make_shared<Earth>();
      double l = L * k.km; Earth::Track t(x * l, i * l, e * l, l); if (rev) t.ReverseTrack();
      trip(vc::cat("earth ", n, " chord ", L, " path ", x, " ", i, " ", e, rev ? " reversed" : ""), *b, t, lin(0, l, 21));
    }
    for (double H : {-1., 22., 10., 60.}) for (double c : {-1., -.7, -.1, 0., .2, 1.}) for (double x : {0., .4, 1.}) for (int mk = 0; mk < 4; mk++) for (int rev = 0; rev < 2; rev++) if (vc::begin()) {
      auto b = mi ? build<EarthAtm>(m) : std::make_shared<EarthAtm>(); if (H > 0) b->SetAtmosphereHeight(H);
      double r = b->GetRadius() * k.km, h = b->GetAtmosphereHeight() * k.km;
      EarthAtm::Track t = mk == 0 ? b->MakeTrackWithCosine(c) : mk == 1 ? b->MakeTrack(acos(c)) : mk == 2 ? EarthAtm::Track(acos(c), r, h) : EarthAtm::Track::MakeWithCosine(c, r, h);
      t.SetX(x * t.GetFinalX()); double L = t.GetFinalX(); if (rev) t.ReverseTrack();
      trip(vc::cat("atmosphere ", n, " height ", H, " cos ", c, " position ", x, " maker ", mk, rev ? " reversed" : ""), *b, t, lin(0, L, 21));
    }
  }
  for (size_t mi = 0; mi <= sm.size(); mi++) {
    auto &m = sm[mi ? mi - 1 : 0]; std::string n = mi ? m.name : "default";
    for (double bf : {0., .1, .5, .9}) for (double x : {0., .4}) for (double i : {0., .2}) for (int rev = 0; rev < 2; rev++) if (vc::begin()) {
      auto b = mi ? build<SunASnu>(m) : std::make_shared<SunASnu>();
      double R0 = 694439. * k.km; SunASnu::Track t(x * R0, i * R0, bf * R0); double L = t.GetFinalX(); if (rev) t.ReverseTrack();
      trip(vc::cat("sun chord ", n, " impact ", bf, " position ", x, " start ", i, rev ? " reversed" : ""), *b, t, lin(0, L, 21));
    }
  }
  if (vc::begin()) for (auto s : {"", "Nothing", "earth", "Earth "}) {
    int e = 0; try { GetBodyDeserializer(s); } catch (std::runtime_error &) { e++; } try { GetTrackDeserializer(s); } catch (std::runtime_error &) { e++; }
    CK("unknown", e == 2, "'", s, "' accepted as the name of a medium or path"); }
  vc::sample("atmosphere of 60 km, cos -0.7, reversed path: stored, restored by name, compared at 21 points");
}
#endif
int main(int argc, char **argv) { vc::init(argc, argv); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); run(); return vc::finish(); }

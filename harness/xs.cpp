// Cross sections: PART 0, storing and reading tables; PART 1, what tables, averages, the resonance and libraries answer.
#define H5TRACK_FILES
#include "vc.hpp"
#include "h5track.hpp"
#include <hdf5_hl.h>
#include <memory>
#include <limits>
#include <iostream>
#include <csignal>
#include <dirent.h>
#include <sys/resource.h>
#include <nuSQuIDS/xsections.h>
#include <nuSQuIDS/resources.h>
using namespace nusquids;
typedef std::vector<double> V;
typedef NeutrinoCrossSections X;
typedef NeutrinoDISCrossSectionsFromTables D;
typedef NeutrinoDISCrossSectionsFromTables_V1 D1;
static const double GeV = 1e9;
static const X::NeutrinoFlavor F[4] = {X::electron, X::muon, X::tau, X::sterile};
static const X::NeutrinoType N[2] = {X::neutrino, X::antineutrino};
static const X::Current Q[2] = {X::CC, X::NC};
#define CK(key, cond, ...) do { vc::eval(); if (!(cond)) vc::fail(key, vc::cat(__VA_ARGS__)); } while (0)
static bool near(double a, double b, double tol) { return fabs(a - b) <= tol * std::max(fabs(a), fabs(b)) || a == b; }

// what one table set holds: base ten logarithms
struct Tab {
  V le, z; bool shared; int same;                   // same: which flavours have one table (bit 0 e=mu, 1 e=tau, 2 mu=tau)
  V s[3][2][2]; std::vector<V> d[3][2][2];          // [z][energy]
};
static Tab make(int ne, int nz, double l0, double l1, int pattern, bool rough, double shift = 0) {
  Tab t; t.shared = pattern == 7; t.same = pattern;
  for (int i = 0; i < ne; i++) { double u = double(i) / (ne - 1); t.le.push_back(i == 0 ? l0 : i == ne - 1 ? l1 : l0 + (l1 - l0) * (u + .11 * sin(3 * u) * (1 - u))); }
  for (int j = 0; j < nz; j++) t.z.push_back(j / double(nz - 1));
  for (int f = 0; f < 3; f++) for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) {
    int g = f; if (f == 1 && (pattern & 1)) g = 0; if (f == 2 && (pattern & 2)) g = 0; if (f == 2 && (pattern & 4)) g = 1; if (g == 1 && (pattern & 1)) g = 0;
    double o = -36 + shift + .3 * g - .11 * n - .5 * q; t.d[f][n][q].assign(nz, V(ne));
    for (int i = 0; i < ne; i++) { double u = t.le[i] - l0; t.s[f][n][q].push_back(o + .7 * u - .06 * u * u + (rough ? .2 * ((i * 7 + g) % 3) : 0));
      for (int j = 0; j < nz; j++) t.d[f][n][q][j][i] = o + .4 * u + (q ? -.8 : .5) * t.z[j] * (1 + .05 * u) - (rough ? .3 * ((i * 5 + j * 3 + g) % 4) : .02 * j * j / nz); }
  }
  return t;
}
static const char *fn[3] = {"electron", "muon", "tau"}, *nn[2] = {"nu", "nubar"}, *qn[2] = {"CC", "NC"};
static void put(std::string const &p, std::string const &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
static std::string text1(Tab const &t, int f, int n, int q) { std::string o; for (size_t i = 0; i < t.le.size(); i++) o += num(pow(10, t.le[i]) / GeV) + " " + num(pow(10, t.s[f][n][q][i])) + "\n"; return o; }
static std::string text2(Tab const &t, int f, int n, int q) { std::string o; for (size_t i = 0; i < t.le.size(); i++) for (size_t j = 0; j < t.z.size(); j++) o += num(pow(10, t.le[i]) / GeV) + " " + num(t.z[j]) + " " + num(pow(10, t.d[f][n][q][j][i])) + "\n"; return o; }
static std::string prefix(Tab const &t, std::string const &p, int f) { return t.shared ? p : p + fn[f] + "_"; }
static void write_text(Tab const &t, std::string const &p) {
  for (int f = 0; f < (t.shared ? 1 : 3); f++) for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) {
    put(prefix(t, p, f) + nn[n] + "_sigma_" + qn[q] + ".dat", text1(t, f, n, q)); put(prefix(t, p, f) + nn[n] + "_dsde_" + qn[q] + ".dat", text2(t, f, n, q)); }
}
static void h5set(hid_t l, std::string const &n, std::vector<hsize_t> dims, V const &v) { hid_t s = H5Screate_simple(dims.size(), dims.data(), nullptr), d = H5Dcreate2(l, n.c_str(), H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); H5Dclose(d); H5Sclose(s); }
static void write_hdf(Tab const &t, std::string const &p, std::string const &skip = "", std::string const &bad = "") {
  bool tr = track; track = false;
  hid_t f = H5Fcreate(p.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
  auto set = [&](hid_t l, std::string const &where, std::string const &n, std::vector<hsize_t> d, V v) { if (where + n == skip) return; if (where + n == bad) { hsize_t r = v.size() / d.back(); d.back()++; v.resize(r * d.back(), -36); } h5set(l, n, d, v); };
  set(f, "", "energies", {t.le.size()}, t.le); set(f, "", "zs", {t.z.size()}, t.z);
  for (int i = 0; i < 3; i++) {
    int al = i == 1 && (t.same & 1) ? 0 : i == 2 && (t.same & 2) ? 0 : i == 2 && (t.same & 4) ? 1 : -1;
    if (t.shared && i) break;
    std::string w = t.shared ? "" : std::string(fn[i]) + "/"; if (!t.shared && std::string(fn[i]) == skip) continue;
    if (!t.shared && al >= 0) { H5Lcreate_hard(f, fn[al], f, fn[i], H5P_DEFAULT, H5P_DEFAULT); continue; }
    hid_t g = t.shared ? f : H5Gcreate2(f, fn[i], H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) { set(g, w, std::string("s_") + qn[q] + "_" + nn[n], {t.le.size()}, t.s[i][n][q]);
      V a; for (auto &r : t.d[i][n][q]) a.insert(a.end(), r.begin(), r.end()); set(g, w, std::string("dsdy_") + qn[q] + "_" + nn[n], {t.z.size(), t.le.size()}, a); }
    if (!t.shared) H5Gclose(g);
  }
  H5Fclose(f); track = tr;
}
// independent evaluation
struct Ref {
  Tab t; std::vector<AkimaSpline> s; std::vector<BiCubicInterpolator> d; double e0, e1;
  Ref(Tab const &t) : t(t) {
    e0 = pow(10, t.le.front()); e1 = pow(10, t.le.back());
    for (int f = 0; f < 3; f++) for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) {
      s.emplace_back(t.le, t.s[f][n][q]); marray<double, 2> m({t.z.size(), t.le.size()}); marray<double, 1> x({t.le.size()}), y({t.z.size()});
      for (size_t i = 0; i < t.le.size(); i++) { x[i] = t.le[i]; for (size_t j = 0; j < t.z.size(); j++) m[j][i] = t.d[f][n][q][j][i]; }
      for (size_t j = 0; j < t.z.size(); j++) y[j] = t.z[j]; d.emplace_back(std::move(m), std::move(x), std::move(y)); } }
  double total(double e, int f, int n, int q) const { if (e < e0) return e < 10 * GeV && e0 > 10 * GeV ? std::numeric_limits<double>::min() : total(e0, f, n, q) * (e / e0); return pow(10, s[(f * 2 + n) * 2 + q](log10(e))); }
  double diff(double e, double o, int f, int n, int q) const { if (e <= e0) return std::numeric_limits<double>::min(); auto &b = d[(f * 2 + n) * 2 + q]; double v = b(log10(e), (o - e0) / (e - e0)); if (o <= e0) v = std::min(v, b(log10(e), 0)); return pow(10, v) / (e / GeV); }
};
static void compare(D const &x, Ref const &r, std::string const &what, double tol, bool full) {
  vc::trace();
  CK("range", near(x.GetEmin(), r.e0, tol) && near(x.GetEmax(), r.e1, tol), what, ": energies from ", x.GetEmin(), " to ", x.GetEmax(), ", tabulated ", r.e0, " to ", r.e1);
  V es; for (size_t i = 0; i < r.t.le.size(); i++) { es.push_back(r.t.le[i]); if (i + 1 < r.t.le.size()) for (double u : {.25, .8}) es.push_back(r.t.le[i] + u * (r.t.le[i + 1] - r.t.le[i])); }
  for (int f = 0; f < 3; f++) for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) {
    for (size_t i = 0; i < es.size(); i += full ? 1 : 2) { double e = pow(10, es[i]); if (i == 0) e = std::max(e, x.GetEmin()); if (i + 1 == es.size()) e = std::min(e, x.GetEmax());
      double g = x.TotalCrossSection(e, F[f], N[n], Q[q]); CK("total", near(g, r.total(e, f, n, q), 3 * tol), what, ": total ", fn[f], " ", nn[n], " ", qn[q], " at ", e, ": ", g, " expected ", r.total(e, f, n, q));
      if (es[i] < es[0] + .05) continue;
      for (size_t j = 0; j < r.t.z.size() * 2 - 1; j++) { double z = j % 2 ? .5 * (r.t.z[j / 2] + r.t.z[j / 2 + 1]) : r.t.z[j / 2], o = r.e0 + z * (e - r.e0);
        double h = x.SingleDifferentialCrossSection(e, o, F[f], N[n], Q[q]); CK("differential", near(h, r.diff(e, o, f, n, q), 10 * tol), what, ": differential ", fn[f], " ", nn[n], " ", qn[q], " at ", e, " ", o, ": ", h, " expected ", r.diff(e, o, f, n, q)); } }
  }
}
// the earlier class: [neutrino][flavour][e1][e2]
struct Tab1 { V e; V s[2][2][3]; std::vector<V> d[2][2][3]; };
static Tab1 make1(int ne, double l0, double l1, bool rough, bool full = false) { // full: values above the diagonal too, which count between nodes next to it
  Tab1 t; for (int i = 0; i < ne; i++) t.e.push_back(exp(log(l0) + (log(l1) - log(l0)) * i / (ne - 1)));
  for (int q = 0; q < 2; q++) for (int n = 0; n < 2; n++) for (int f = 0; f < 3; f++) { t.d[q][n][f].assign(ne, V(ne, 0.));
    for (int i = 0; i < ne; i++) { t.s[q][n][f].push_back(1e-38 * (1 + .3 * q + .2 * n + .1 * f) * t.e[i] * (rough ? 1 + (i * 3 + f) % 4 : 1));
      for (int j = 0; j < (full ? ne : i); j++) t.d[q][n][f][i][j] = 1e-38 * (1 + .3 * q + .2 * n + .1 * f) * (1 + .2 * i + .3 * j) * (rough ? 1 + (i * 2 + j + f) % 3 : 1); } }
  return t;
}
static void write1_text(Tab1 const &t, std::string const &p) {
  for (int q = 0; q < 2; q++) { std::string a, b;
    for (size_t i = 0; i < t.e.size(); i++) { a += num(t.e[i]); for (int f = 0; f < 3; f++) for (int n = 0; n < 2; n++) a += " " + num(t.s[q][n][f][i]); a += "\n";
      for (size_t j = 0; j < t.e.size(); j++) { b += num(t.e[i]) + " " + num(t.e[j]); for (int f = 0; f < 3; f++) for (int n = 0; n < 2; n++) b += " " + num(t.d[q][n][f][i][j]); b += "\n"; } }
    put(p + "sigma_" + qn[q] + ".dat", a); put(p + "dsde_" + qn[q] + ".dat", b); }
}
static void write1_hdf(Tab1 const &t, std::string const &p, std::string const &skip = "", std::string const &bad = "", int which = 0) {
  hid_t f = H5Fcreate(p.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); double a = t.e.front() * GeV, b = t.e.back() * GeV; hsize_t n = t.e.size();
  if (skip != "Emin") H5LTset_attribute_double(f, "/", "Emin", &a, 1); if (skip != "Emax") H5LTset_attribute_double(f, "/", "Emax", &b, 1);
  auto set = [&](std::string const &nm, std::vector<hsize_t> d, V v) { if (nm == skip) return; if (nm == bad) { d[which]++; hsize_t k = 1; for (auto x : d) k *= x; v.resize(k, 1e-38); } h5set(f, nm, d, v); };
  for (int q = 0; q < 2; q++) { V s, d; for (int k = 0; k < 2; k++) for (int fl = 0; fl < 3; fl++) { s.insert(s.end(), t.s[q][k][fl].begin(), t.s[q][k][fl].end()); for (auto &r : t.d[q][k][fl]) d.insert(d.end(), r.begin(), r.end()); }
    set(std::string("s_") + qn[q], {2, 3, n}, s); set(std::string("dsDE_") + qn[q], {2, 3, n, n}, d); }
  H5Fclose(f);
}
static double ref1_total(Tab1 const &t, double E, int f, int n, int q) { double e = E / GeV; size_t m = t.e.size(); if (e < t.e[0] * (1 - 1e-12)) return e < 10 && t.e[0] > 10 ? std::numeric_limits<double>::min() : t.s[q][n][f][0] * e / t.e[0];
  size_t i = 0; while (i + 2 < m && e >= t.e[i + 1]) i++; double u = (log(e) - log(t.e[i])) / (log(t.e[i + 1]) - log(t.e[i])); return t.s[q][n][f][i] * (1 - u) + u * t.s[q][n][f][i + 1]; }
static double cell1(Tab1 const &t, size_t i, size_t j, double e, double o, int f, int n, int q) { auto &d = t.d[q][n][f]; double u = (log(e) - log(t.e[i])) / (log(t.e[i + 1]) - log(t.e[i])), v = (log(o) - log(t.e[j])) / (log(t.e[j + 1]) - log(t.e[j]));
  if (i == j && d[i][j + 1] == 0) return d[i][j] * (1 - u) + d[i + 1][j] * (u - v) + d[i + 1][j + 1] * v; // the triangle below the diagonal
  return (1 - u) * ((1 - v) * d[i][j] + v * d[i][j + 1]) + u * ((1 - v) * d[i + 1][j] + v * d[i + 1][j + 1]); }
// nodes belong to the cells on both sides, and rounding may choose either
static bool ok1_diff(Tab1 const &t, double E, double O, int f, int n, int q, double got, double tol, std::string &want) {
  double e = E / GeV, o = O / GeV; size_t m = t.e.size(); if (o >= e) { want = "0"; return got == 0; }
  want = "";
  for (int a = -1; a < 2; a++) for (int b = -1; b < 2; b++) { double x = e * (1 + 1e-9 * a), y = o * (1 + 1e-9 * b); size_t i = 0, j = 0; while (i + 2 < m && x >= t.e[i + 1]) i++; while (j + 2 < m && y >= t.e[j + 1]) j++;
    if (j > i) continue; double w = cell1(t, i, j, e, o, f, n, q); want += num(w) + " "; if (fabs(got - w) <= tol * fabs(w) + 1e-12 * 1e-38) return true; }
  return false;
}
static void compare1(D1 const &x, Tab1 const &t, std::string const &what, double tol) {
  vc::trace(); size_t m = t.e.size();
  CK("v1:range", x.GetNumE() == m && near(x.GetEmin(), t.e[0] * GeV, tol) && near(x.GetEmax(), t.e[m - 1] * GeV, tol) && x.IsInit(), what, ": ", x.GetNumE(), " energies from ", x.GetEmin(), " to ", x.GetEmax());
  V es; for (size_t i = 0; i < m; i++) { es.push_back(t.e[i] * GeV); if (i + 1 < m) for (double u : {.25, .5, .9}) es.push_back(GeV * exp(log(t.e[i]) * (1 - u) + u * log(t.e[i + 1]))); }
  es.front() = std::max(es.front(), x.GetEmin()); es.back() = std::min(es.back(), x.GetEmax());
  for (int f = 0; f < 3; f++) for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) for (double e : es) {
    double g = x.TotalCrossSection(e, F[f], N[n], Q[q]); CK("v1:total", near(g, ref1_total(t, e, f, n, q), 5 * tol), what, ": total ", fn[f], " ", nn[n], " ", qn[q], " at ", e, ": ", g, " expected ", ref1_total(t, e, f, n, q));
    for (double o : es) { double h = x.SingleDifferentialCrossSection(e, o, F[f], N[n], Q[q]); std::string w; bool edge = tol > 1e-8 && fabs(e - o) < 10 * tol * e; CK("v1:differential", edge || ok1_diff(t, e, o, f, n, q, h, 20 * tol, w), what, ": differential ", fn[f], " ", nn[n], " ", qn[q], " at ", e, " ", o, ": ", num(h), " expected ", w); } }
}
static std::string dir() { return vc::C().tmp + "/"; }
static void clean() { std::string d = dir(); DIR *p = opendir(d.c_str()); while (dirent *e = readdir(p)) { std::string n = e->d_name; if (n.substr(0, 2) == "t_") unlink((d + n).c_str()); } closedir(p); }
template <class Fn> static bool throws(Fn f) { try { f(); return false; } catch (std::runtime_error &) { return true; } }

#if PART == 0
static void histories() {
  std::vector<Tab> tabs{make(3, 3, 11, 15, 7, true), make(4, 3, 10, 14, 0, true), make(3, 5, 9.7, 12, 1, false), make(5, 4, 11, 14.5, 2, true), make(4, 4, 11, 15, 4, true, .5), make(4, 6, 12, 14, 7, false, -.2)};
  std::vector<Ref> refs(tabs.begin(), tabs.end());
  int nt = tabs.size(), depth = vc::thorough() ? 4 : 3, base = 4; // operations: 0 store as text and read, 1,2 store as HDF5 (0,9) and read, 3 copy/move; then reading table k as text or HDF5
  int nop = base + 2 * nt;
  for (int first = 0; first < 2 * nt; first++) {
    std::vector<int> seq;
    std::function<void()> rec = [&]() {
      if (vc::begin()) {
        std::string w = vc::cat("read ", first / 2, first % 2 ? " hdf" : " text"); clean();
        int cur = first / 2; double tol = 1e-9;
        try {
          auto src = [&](int k, bool h) { std::string p = dir() + "t_" + (h ? "h" : "x") + std::to_string(k); if (h) write_hdf(tabs[k], p); else write_text(tabs[k], p); return p; };
          std::unique_ptr<D> x(new D(src(first / 2, first % 2))); int step = 0;
          for (int op : seq) { vc::transition(); std::string p = dir() + "t_o" + std::to_string(step++);
            if (op == 0) { w += ", store as text"; x->WriteText(p); x.reset(new D(p)); tol = std::max(tol, 3e-5); }
            else if (op < 3) { w += op == 1 ? ", store as hdf" : ", store as compressed hdf"; x->WriteHDF(p, op == 1 ? 0 : 9); x.reset(new D(p)); tol = std::max(tol, 3e-5); }
            else if (op == 3) { w += ", copy"; D y(*x); x.reset(); x.reset(new D(std::move(y))); }
            else { int k = (op - base) / 2; bool h = (op - base) % 2; w += vc::cat(", read ", k, h ? " hdf" : " text"); if (h) x->ReadHDF(src(k, h)); else x->ReadText(src(k, h)); cur = k; tol = 1e-9; } }
          compare(*x, refs[cur], w, tol, seq.size() < 2); vc::state(w); vc::outcome(vc::cat(cur, tol, seq.empty() ? -1 : seq.back()));
        } catch (std::exception &e) { vc::fail("refused", w + ": " + e.what()); }
      }
      if ((int)seq.size() + 1 >= depth) return;
      for (int o = 0; o < nop; o++) { seq.push_back(o); rec(); seq.pop_back(); }
    };
    rec();
  }
  // the earlier class
  std::vector<Tab1> ones{make1(2, 1, 1e3, false), make1(3, 5, 1e6, true), make1(5, 100, 1e5, true)};
  for (size_t k = 0; k < ones.size(); k++) for (int h = 0; h < 2; h++) for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < (vc::thorough() ? 4 : 1); c++) if (vc::begin()) {
    std::string w = vc::cat("earlier class: read ", k, h ? " hdf" : " text"); clean(); double tol = 1e-9;
    try { std::string p = dir() + "t_v"; if (h) write1_hdf(ones[k], p); else write1_text(ones[k], p);
      std::unique_ptr<D1> x(new D1(p)); int st = 0;
      for (int op : {a, b, c}) { std::string o = dir() + "t_w" + std::to_string(st++); vc::transition(); if (op == 1) { w += ", store as text"; x->WriteText(o); x.reset(new D1(o)); tol = 3e-5; } if (op == 2) { w += ", store as hdf"; x->WriteHDF(o); x.reset(new D1(o)); } if (op == 3) { w += ", copy"; x.reset(new D1(D1(*x))); } }
      compare1(*x, ones[k], w, tol); vc::state(w); vc::outcome(w);
    } catch (std::exception &e) { vc::fail("v1:refused", w + ": " + e.what()); } }
}
static void refusals() {
  // a file which only begins like HDF5 does not stand in the way of text tables of the same prefix
  for (int two = 0; two < 2; two++) for (int k = 0; k < 16; k++) if (vc::begin()) { clean(); Tab t = two ? make(4, 3, 11, 14, 0, true) : make(4, 3, 11, 14, 7, true); std::string p = dir() + "t_m", m("\x89HDF\r\n\x1a\n", 8), what = vc::cat("text tables beside a file which begins like HDF5 ", k); write_text(t, p);
    if (k < 8) { m[k] ^= 1; m += "more"; } else m.resize(k - 8); put(p, m); try { D x(p); compare(x, Ref(t), what, 1e-5, true); } catch (std::exception &e) { vc::fail("magic", what + ": " + e.what()); } vc::transition(); vc::state(vc::cat("magic", two, k)); vc::outcome("magic"); }
  Tab base = make(4, 3, 11, 14, 0, true), sh = make(4, 3, 11, 14, 7, true), longer = make(4, 3, 11, 15, 0, true), lower = make(4, 3, 10, 14, 0, true), more = make(5, 3, 11, 14, 0, true);
  for (int layout = 0; layout < 2; layout++) for (int f = 0; f < (layout ? 3 : 1); f++) for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) for (int two = 0; two < 2; two++) for (int bad = 0; bad < 7; bad++) if (vc::begin()) {
    clean(); Tab const &t = layout ? base : sh; std::string p = dir() + "t_r"; write_text(t, p); std::string file = prefix(t, p, f) + nn[n] + (two ? "_dsde_" : "_sigma_") + qn[q] + ".dat"; const char *what = "";
    CK("reject:control", !throws([&] { D x(p); }), "a complete set of tables is refused");
    auto tx = [&](Tab const &u) { return two ? text2(u, f, n, q) : text1(u, f, n, q); }; std::string good = tx(t), cut = good.substr(0, good.rfind('\n', good.size() - 2) + 1);
    if (bad == 0) { what = "missing"; unlink(file.c_str()); }
    if (bad == 1) { what = "of other energies at the top"; put(file, tx(longer)); }
    if (bad == 2) { what = "of other energies at the bottom"; put(file, tx(lower)); }
    if (bad == 3) { what = "of a different number of columns"; std::string o; for (char c : good) { if (c == '\n') o += " 1"; o += c; } put(file, o); }
    if (bad == 4) { what = "empty"; put(file, ""); }
    if (bad == 5) { what = "of two columns short rows"; std::string o; for (size_t i = 0; i < t.le.size(); i++) o += num(pow(10, t.le[i]) / GeV) + "\n"; put(file, o); }
    if (bad == 6) { what = "truncated"; put(file, cut); }
    vc::transition(); CK("reject:text", throws([&] { D x(p); }), "accepted with ", file.substr(dir().size()), " ", what); vc::outcome(what); vc::state(vc::cat(layout, f, n, q, two, bad)); }
  for (int layout = 0; layout < 2; layout++) { Tab const &t = layout ? base : sh; std::vector<std::string> names{"energies", "zs"}; if (layout) for (auto x : fn) names.push_back(x);
    for (int f = 0; f < (layout ? 3 : 1); f++) for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) for (auto x : {"s_", "dsdy_"}) names.push_back((layout ? std::string(fn[f]) + "/" : "") + x + qn[q] + "_" + nn[n]);
    for (auto &nm : names) for (int bad = 0; bad < 2; bad++) if (vc::begin()) { if (bad && (nm == "electron" || nm == "muon" || nm == "tau")) continue;
      clean(); std::string p = dir() + "t_h"; write_hdf(t, p); CK("reject:control", !throws([&] { D x(p); }), "a complete file is refused");
      write_hdf(t, p, bad ? "" : nm, bad ? nm : ""); vc::transition(); CK("reject:hdf", throws([&] { D x(p); }), "accepted with ", nm, bad ? " of the wrong extent" : " missing"); vc::outcome(vc::cat(nm, bad)); vc::state(vc::cat(layout, nm, bad)); } }
  if (vc::begin()) { clean(); std::string p = dir() + "t_n"; CK("reject:none", throws([&] { D x(p); }), "accepted a set which does not exist"); D x0([&] { write_text(base, dir() + "t_k"); return dir() + "t_k"; }()); CK("reject:none", throws([&] { x0.ReadHDF(p); }) && throws([&] { x0.ReadText(p); }), "accepted a set which does not exist");
    put(p, "not a table\n"); CK("reject:none", throws([&] { D x(p); }) && throws([&] { x0.ReadHDF(p); }), "accepted a file which is no table"); put(p, ""); CK("reject:none", throws([&] { D x(p); }), "accepted an empty file");
    put(p, std::string("\x89HDF\r\n\x1a\n", 8)); CK("reject:none", throws([&] { D x(p); }), "accepted a truncated HDF5 file"); 
    CK("reject:unwritable", throws([&] { x0.WriteText(dir() + "nowhere/x"); }) && throws([&] { x0.WriteHDF(dir() + "nowhere/x"); }), "writing into a directory which does not exist is not reported");
    std::string v = dir() + "t_v1"; write1_text(make1(3, 1, 100, true), v); D1 y(v); CK("v1:reject:unwritable", throws([&] { y.WriteText(dir() + "nowhere/x"); }) && throws([&] { y.WriteHDF(dir() + "nowhere/x"); }), "earlier class: writing into a directory which does not exist is not reported"); }
  // the earlier class
  Tab1 t = make1(3, 10, 1e4, true), o = make1(4, 10, 1e4, true), s = make1(2, 10, 1e4, true);
  for (int two = 0; two < 2; two++) for (int q = 0; q < 2; q++) for (int bad = 0; bad < 5; bad++) if (vc::begin()) {
    clean(); std::string p = dir() + "t_1", r = dir() + "t_2"; write1_text(t, p); CK("v1:reject:control", !throws([&] { D1 x(p); }), "a complete set of tables is refused"); std::string nm = std::string(two ? "dsde_" : "sigma_") + qn[q] + ".dat", all; const char *what;
    { FILE *g = fopen((p + nm).c_str(), "rb"); char b[65536]; size_t k = fread(b, 1, sizeof b, g); fclose(g); all.assign(b, k); }
    if (bad == 0) { what = "missing"; unlink((p + nm).c_str()); }
    if (bad == 1) { what = "of fewer energies"; write1_text(s, r); rename((r + nm).c_str(), (p + nm).c_str()); }
    if (bad == 2) { what = "of fewer columns"; std::string u; size_t i = 0; while (i < all.size()) { size_t e = all.find('\n', i); std::string l = all.substr(i, e - i); u += l.substr(0, l.rfind(' ')) + "\n"; i = e + 1; } put(p + nm, u); }
    if (bad == 3) { what = "empty"; put(p + nm, ""); }
    if (bad == 4) { what = "truncated"; put(p + nm, all.substr(0, all.rfind('\n', all.size() - 2) + 1)); }
    vc::transition(); CK("v1:reject:text", throws([&] { D1 x(p); }), "earlier class: accepted with ", nm, " ", what); vc::outcome(vc::cat("v1", nm, what)); vc::state(vc::cat("v1", nm, bad)); }
  for (auto nm : {"Emin", "Emax", "s_CC", "s_NC", "dsDE_CC", "dsDE_NC"}) for (int bad = -1; bad < 4; bad++) if (vc::begin()) { if (bad >= 0 && (nm[0] == 'E' || (nm[0] == 's' && bad == 3))) continue; clean(); std::string p = dir() + "t_3"; write1_hdf(t, p, bad < 0 ? nm : "", bad < 0 ? "" : nm, bad); vc::transition();
    CK("v1:reject:hdf", throws([&] { D1 x(p); }), "earlier class: accepted with ", nm, bad < 0 ? " missing" : " of the wrong extent"); vc::outcome(vc::cat("v1h", nm, bad)); vc::state(vc::cat("v1h", nm, bad)); }
}
static void faults() {
  Tab a = make(4, 3, 11, 14, 0, true), b = make(4, 3, 11, 14, 7, true), c = make(4, 3, 11, 14, 2, true); Ref ra(a), rb(b), rc(c); Tab1 t1 = make1(3, 10, 1e4, true);
  // every HDF5 call fails in turn
  for (int op = 0; op < 8; op++) {
    auto one = [&](long k) {
      clean(); std::string p = dir() + "t_f", q = dir() + "t_g", w; open_ids.clear(); failed_name = ""; Tab const &t = op % 3 == 0 ? a : op % 3 == 1 ? b : c; Ref const &r = op % 3 == 0 ? ra : op % 3 == 1 ? rb : rc;
      bool threw = false; auto on = [&] { ncall = 0; fail_at = k; track = true; };
      try {
        if (op < 3) { w = "store"; write_text(t, p); D x(p); on(); x.WriteHDF(q, op); track = false; D y(q); compare(y, r, "stored with a failing call", 3e-5, false); }
        else if (op < 6) { w = "read"; write_hdf(t, q); on(); D y(q); track = false; compare(y, r, "read with a failing call", 1e-9, false); }
        else if (op == 6) { w = "earlier class, store"; write1_text(t1, p); D1 x(p); on(); x.WriteHDF(q); track = false; D1 y(q); compare1(y, t1, "stored with a failing call", 1e-9); }
        else { w = "earlier class, read"; write1_hdf(t1, q); on(); D1 y(q); track = false; compare1(y, t1, "read with a failing call", 1e-9); }
      } catch (std::runtime_error &e) { threw = true; }
      track = false; fail_at = -1; long n = ncall;
      if (k < 0) return n;
      CK("fault:refused", !threw || !failed_name.empty(), w, ": refused without a fault");
      // success with a failed call is right if the data are (compare above), as with a compression which could not be had
      CK("fault:handles", open_ids.empty(), w, ": ", open_ids.size(), " handles left open after failure of ", failed_name, " (call ", k, ")");
      vc::transition(); vc::state(vc::cat(op, k, failed_name)); vc::outcome(vc::cat(w, failed_name, threw)); return n; };
    long n = one(-1);
    for (long k = 0; k <= n; k++) if (vc::begin()) one(k);
  }
  // a disk filling up
  for (int op = 0; op < 2; op++) for (long lim : {0l, 1l, 20l, 60l, 100l, 150l, 200l, 300l, 400l, 500l, 600l, 700l, 800l, 1000l, 1500l, 100000l}) if (vc::begin()) {
    clean(); std::string p = dir() + "t_f", q = dir() + "t_g"; if (op) write1_text(t1, p); else write_text(a, p); std::unique_ptr<D> x(op ? nullptr : new D(p)); std::unique_ptr<D1> y(op ? new D1(p) : nullptr); long largest = 0;
    if (op) y->WriteText(dir() + "t_z"); else x->WriteText(dir() + "t_z"); { DIR *dd = opendir(dir().c_str()); while (dirent *e = readdir(dd)) if (!strncmp(e->d_name, "t_z", 3)) { struct stat s; stat((dir() + e->d_name).c_str(), &s); largest = std::max(largest, (long)s.st_size); } closedir(dd); }
    int st; pid_t k = fork();
    if (!k) { signal(SIGXFSZ, SIG_IGN); struct rlimit r = {(rlim_t)lim, (rlim_t)lim}; setrlimit(RLIMIT_FSIZE, &r); int rc = 0; try { if (op) y->WriteText(q); else x->WriteText(q); } catch (std::exception &) { rc = 1; } _exit(rc); }
    waitpid(k, &st, 0); bool thrown = WIFEXITED(st) && WEXITSTATUS(st) == 1; vc::transition();
    CK("disk", WIFEXITED(st) && thrown == (lim < largest), op ? "earlier class: " : "", "writing text tables of up to ", largest, " bytes where ", lim, " fit: ", thrown ? "refused" : "not reported"); vc::outcome(vc::cat("disk", op, thrown)); vc::state(vc::cat("disk", op, lim)); }
}
static void run() { histories(); refusals(); faults(); vc::sample("read per-flavour text tables of 4 energies and 3 z, store as compressed HDF5, read back: every query within single precision"); }
#endif
#if PART == 1
struct User : X { // a user's cross section: polynomial in the energy, in GeV
  V c; User(V c) : c(c) {} double p(double e) const { double r = 0; for (size_t i = c.size(); i--;) r = r * (e / GeV) + c[i]; return r; }
  double TotalCrossSection(double e, NeutrinoFlavor f, NeutrinoType t, Current q) const override { return p(e) * (1 + f + 4 * t + 8 * q); }
  double SingleDifferentialCrossSection(double e, double o, NeutrinoFlavor f, NeutrinoType t, Current q) const override { return p(o) * (1 + f + 4 * t + 8 * q) * e; }
};
template <class Fn> static double mean(Fn f, double a, double b) { const int n = 2000; long double s = 0; for (int i = 0; i <= n; i++) s += f(a + (b - a) * i / n) * (i == 0 || i == n ? 1 : i % 2 ? 4 : 2); return s / (3 * n); }
static void tables() {
  std::vector<Tab> tabs; for (int p : {7, 0, 1, 2, 4}) for (int r = 0; r < 2; r++) { tabs.push_back(make(5, 4, 11, 15, p, r)); tabs.push_back(make(3, 7, 9.5, 13, p, r)); tabs.push_back(make(8, 3, 10, 12, p, r)); }
  const double tiny = std::numeric_limits<double>::min();
  for (size_t k = 0; k < tabs.size(); k++) for (int h = 0; h < 2; h++) {
    std::unique_ptr<D> x; std::unique_ptr<Ref> r; Tab const &t = tabs[k]; std::string what = vc::cat("table ", k, h ? " hdf" : " text");
    auto get = [&]() { if (!x) { clean(); std::string p = dir() + "t_q"; if (h) write_hdf(t, p); else write_text(t, p); x.reset(new D(p)); r.reset(new Ref(t)); } };
    if (vc::begin()) { get(); compare(*x, *r, what, 1e-9, true); vc::transition(); vc::state(what); }
    for (int f = 0; f < 4; f++) for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) if (vc::begin()) { get(); vc::transition(); vc::outcome(vc::cat(k, f, n, q)); vc::state(vc::cat(what, f, n, q));
      auto T = [&](double e) { return x->TotalCrossSection(e, F[f], N[n], Q[q]); }; auto S = [&](double e, double o) { return x->SingleDifferentialCrossSection(e, o, F[f], N[n], Q[q]); };
      auto A = [&](double e, double a, double b) { return x->AverageSingleDifferentialCrossSection(e, a, b, F[f], N[n], Q[q]); }; auto AT = [&](double a, double b) { return x->AverageTotalCrossSection(a, b, F[f], N[n], Q[q]); };
      double lo = x->GetEmin(), hi = x->GetEmax();
      if (f == 3) { for (double e : {0., lo / 2, lo, .5 * (lo + hi), hi, hi * 2}) CK("sterile", T(e) == 0 && S(e, e / 2) == 0 && A(e, e / 4, e / 2) == 0, what, ": sterile neutrinos interact at ", e); continue; }
      // nodes
      for (size_t i = 0; i < t.le.size(); i++) { double e = std::max(lo, std::min(hi, pow(10, t.le[i]))); CK("node:total", near(T(e), pow(10, t.s[f][n][q][i]), 1e-9), what, ": total at node ", i, ": ", T(e), " tabulated ", pow(10, t.s[f][n][q][i]));
        if (i) for (size_t j = 0; j < t.z.size(); j++) { double o = lo + t.z[j] * (e - lo); CK("node:differential", near(S(e, o), pow(10, t.d[f][n][q][j][i]) / (e / GeV), 1e-8), what, ": differential at node ", i, " ", j, ": ", S(e, o), " tabulated ", pow(10, t.d[f][n][q][j][i]) / (e / GeV)); } }
      // outside
      for (double u : {0., 1e-3, .05, .1, .5, .999}) { double e = lo * u, w = e < 10 * GeV && lo > 10 * GeV ? tiny : pow(10, t.s[f][n][q][0]) * u; CK("below", near(T(e), w, 1e-9), what, ": total at ", e, " below the table: ", T(e), " expected ", w); CK("below:differential", S(e, e / 2) == tiny && A(e, e / 4, e / 2) == tiny, what, ": differential at ", e, " below the table: ", S(e, e / 2)); }
      CK("below:differential", S(lo, lo / 2) == tiny, what, ": differential at the lowest energy: ", S(lo, lo / 2));
      for (double e : {hi * (1 + 1e-9), hi * 2, 1e30, double(INFINITY)}) CK("above", throws([&] { T(e); }) && throws([&] { S(e, lo); }) && throws([&] { A(e, lo, hi); }), what, ": energy ", e, " above the table is accepted");
      for (size_t i = 1; i < t.le.size(); i++) for (double e : {pow(10, t.le[i]) * .9999999, pow(10, .3 * t.le[i - 1] + .7 * t.le[i])}) { double top = S(e, lo); for (double u : {1., .9, .5, .1, 0.}) { double v = S(e, lo * u); CK("extrapolation", near(v, r->diff(e, lo * u, f, n, q), 1e-8) && v <= top * (1 + 1e-9) && v > 0, what, ": differential at ", e, " to ", lo * u, ": ", v, " at the edge of the table ", top); } }
      // averages, of smooth tables
      if (k % 6 >= 3) continue;
      V es; for (int i = 0; i <= 12; i++) es.push_back(std::min(hi, lo * pow(hi / lo, i / 12.)));
      es.front() = lo;
      for (size_t i = 0; i < es.size(); i++) for (size_t j = i + 1; j < es.size(); j += 3) { double w = mean([&](double e) { return r->total(std::min(e, r->e1), f, n, q); }, es[i], es[j]); double g = AT(es[i], es[j]); CK("average:total", near(g, w, 4e-3), what, ": total averaged over ", es[i], " to ", es[j], ": ", g, " expected ", w); }
      for (size_t m = 3; m < es.size(); m += 3) for (size_t i = 0; i < m; i++) for (size_t j = i + 1; j <= m; j += 2) { double w = mean([&](double o) { return r->diff(std::min(es[m], r->e1), o, f, n, q); }, es[i], es[j]), g = A(es[m], es[i], es[j]), b = A(es[m], es[j], es[i]);
        CK("average:differential", near(g, w, 4e-3), what, ": differential at ", es[m], " averaged over ", es[i], " to ", es[j], ": ", g, " expected ", w); CK("average:order", g == b, what, ": average over exchanged limits ", b, " is not ", g);
        CK("average:point", A(es[m], es[i], es[i]) == S(es[m], es[i]), what, ": average over an empty range at ", es[i]); }
    }
  }
  // the earlier class
  std::vector<Tab1> ones{make1(2, 1, 1e3, false), make1(3, 5, 1e6, true), make1(6, 100, 1e5, true), make1(5, 10, 1e5, false), make1(12, 20, 1e7, true), make1(2, 3, 2e3, true, true), make1(6, 10, 1e6, true, true)};
  for (size_t k = 0; k < ones.size(); k++) for (int h = 0; h < 2; h++) if (vc::begin()) { clean(); std::string p = dir() + "t_o", what = vc::cat("earlier class ", k, h ? " hdf" : " text"); if (h) write1_hdf(ones[k], p); else write1_text(ones[k], p); D1 x(p); Tab1 const &t = ones[k]; compare1(x, t, what, 1e-9); vc::transition(); vc::state(what);
    double lo = x.GetEmin(), hi = x.GetEmax();
    for (int n = 0; n < 2; n++) for (int q = 0; q < 2; q++) { for (double e : {lo / 2, lo, hi, 2 * hi}) CK("v1:sterile", x.TotalCrossSection(e, X::sterile, N[n], Q[q]) == 0 && x.SingleDifferentialCrossSection(e, e / 2, X::sterile, N[n], Q[q]) == 0, what, ": sterile neutrinos interact");
      for (int f = 0; f < 3; f++) { for (double u : {0., .05, .1, .5, .999}) { double e = lo * u; CK("v1:below", near(x.TotalCrossSection(e, F[f], N[n], Q[q]), ref1_total(t, e, f, n, q), 1e-8) && x.SingleDifferentialCrossSection(e, e / 2, F[f], N[n], Q[q]) == tiny, what, " below the table at ", e, ": ", x.TotalCrossSection(e, F[f], N[n], Q[q])); }
        for (double e : {hi * (1 + 1e-9), hi * 2}) CK("v1:above", throws([&] { x.TotalCrossSection(e, F[f], N[n], Q[q]); }) && throws([&] { x.SingleDifferentialCrossSection(e, lo, F[f], N[n], Q[q]); }), what, ": energy ", e, " above the table is accepted");
        for (double top : {hi, t.e.back() * GeV, std::nextafter(hi, 0)}) if (top <= hi) for (int u = 1; u < 40; u++) { double o = hi; for (int z = 0; z < u; z++) o = std::nextafter(o, 0); if (u > 20) o = hi * (1 - 1e-16 * pow(1.5, u)); if (o >= top) continue; double g = x.SingleDifferentialCrossSection(top, o, F[f], N[n], Q[q]), b = t.d[q][n][f].back().back(); // up to the last node
          CK("v1:edge", fabs(g - b) < 1e-6 * 1e-37 * (1 + fabs(b) * 1e37), what, ": differential just below the last node ", g, " and at it ", b); }
        CK("v1:null", x.SingleDifferentialCrossSection(hi, lo * 1e-3, F[f], N[n], Q[q]) == 0 && x.SingleDifferentialCrossSection(hi, hi, F[f], N[n], Q[q]) == 0, what, ": differential outside the table"); } } }
}
static void others() {
  // averages of the base class
  std::vector<V> cs{{1}, {0}, {2, .5}, {0, 3}, {1, 0, .1}, {1, .1, .02, .003}, {5, 0, 0, .01}}; V ends{1, 2, 2.0001, 5, 50};
  for (auto &c : cs) for (double a : ends) for (double b : ends) if (b > a && vc::begin()) { User u(c); vc::transition(); vc::state(vc::cat(vc::show(c), a, b)); vc::outcome(vc::show(c));
    for (int f = 0; f < 4; f++) for (int n = 0; n < 2; n++) for (X::Current q : {X::CC, X::NC, X::GR}) { double w = mean([&](double e) { return u.TotalCrossSection(e * GeV, F[f], N[n], q); }, a, b), g = u.AverageTotalCrossSection(a * GeV, b * GeV, F[f], N[n], q); CK("user:total", near(g, w, 3e-3), "average of ", vc::show(c), " over ", a, " to ", b, ": ", g, " expected ", w);
      double v = mean([&](double e) { return u.SingleDifferentialCrossSection(7, e * GeV, F[f], N[n], q); }, a, b), d = u.AverageSingleDifferentialCrossSection(7, a * GeV, b * GeV, F[f], N[n], q); CK("user:differential", near(d, v, 3e-3), "average of ", vc::show(c), " over ", a, " to ", b, ": ", d, " expected ", v);
      if (c.size() == 1) CK("user:constant", near(g, w, 1e-14), "average of a constant"); }
    CK("user:double", throws([&] { u.DoubleDifferentialCrossSection(1, .1, .1, X::muon, X::neutrino, X::CC); }), "a cross section which is not there is answered");
    NullCrossSections z; CK("null", z.TotalCrossSection(a, X::muon, X::neutrino, X::CC) == 0 && z.SingleDifferentialCrossSection(b, a, X::tau, X::neutrino, X::NC) == 0 && z.DoubleDifferentialCrossSection(a, b, b, X::electron, X::antineutrino, X::GR) == 0, "the null cross section is not zero"); }
  // the resonance
  squids::Const k; const long double GF = 1.16639e-5L, hc2 = 0.389379e-27L, me = 0.510998928e-3L, mm = 0.1056583715L, MW = 80.385L, G = 2.085L, Bm = .1063L, pi = 3.14159265358979323846L; // GeV, cm^2 GeV^2
  V es; for (double l = -1; l <= 9; l += vc::thorough() ? .01 : .05) es.push_back(pow(10, l)); double th = double((mm * mm - me * me) / (2 * me)); for (double u : {.5, .999, 1.001, 1.5}) es.push_back(th * u); for (double u : {.9, .99, 1., 1.01, 1.1}) es.push_back(6.3e6 * u);
  for (double E : es) if (vc::begin()) { GlashowResonanceCrossSection g, c(g), m(std::move(c)); vc::transition(); vc::state(vc::cat("gr", E)); vc::outcome(E < th ? "below" : "above");
    long double w = 2 * GF * GF * me * E / pi * hc2 * powl(1 - (mm * mm - me * me) / (2 * me * E), 2) / (powl(1 - 2 * me * E / (MW * MW), 2) + powl(G / MW, 2)) / Bm / 3; double e = E * k.GeV, t = g.TotalCrossSection(e, X::electron, X::antineutrino, X::GR);
    if (E < th) { CK(near(t, w, 1e-3) ? "glashow:below-threshold" : "glashow:total", t >= 0 && t <= 1e-45, "resonance at ", E, " GeV, below the threshold for the final state it is computed from: ", t, " cm^2"); } else CK("glashow:total", near(t, w, 1e-3), "resonance at ", E, " GeV: ", t, " cm^2, expected ", double(w));
    CK("glashow:copy", m.TotalCrossSection(e, X::electron, X::antineutrino, X::GR) == t, "a copy answers differently");
    for (int f = 0; f < 4; f++) for (int n = 0; n < 2; n++) for (X::Current q : {X::CC, X::NC, X::GR}) if (!(f == 0 && n == 1 && q == X::GR)) CK("glashow:others", g.TotalCrossSection(e, F[f], N[n], q) == 0 && g.SingleDifferentialCrossSection(e, e / 2, F[f], N[n], q) == 0 && g.DoubleDifferentialCrossSection(e, .1, .1, F[f], N[n], q) == 0, "resonance for flavour ", f, " type ", n, " current ", q);
    auto S = [&](double o) { return g.SingleDifferentialCrossSection(e, o, X::electron, X::antineutrino, X::GR); };
    for (double x : {0., .1, .25, .5, .75, 1.}) CK("glashow:differential", (E < th && S(x * e) >= 0 && S(x * e) < 1e-45) || near(S(x * e), 3 * double(Bm) * t * x * x / E, 1e-9), "resonance at ", E, " GeV to ", x, " of it: ", S(x * e), " cm^2/GeV, expected ", 3 * double(Bm) * t * x * x / E);
    CK("glashow:differential", S(e * 1.001) == 0 && S(2 * e) == 0, "resonance to more than the incoming energy");
    double I = mean(S, 0, e * (1 - 1e-13)) * E; CK("glashow:integral", E < th || near(I, t * GlashowResonanceCrossSection::WDecayBranchingFraction(X::muon), 1e-9), "resonance at ", E, " GeV: differential integrates to ", I, " cm^2 of ", t);
    if (E > th) for (double x : {.2, .6}) CK("glashow:average", near(g.AverageSingleDifferentialCrossSection(e, x * e, (x + .3) * e, X::electron, X::antineutrino, X::GR), mean(S, x * e, (x + .3) * e), 3e-3), "average of the resonance at ", E); }
  if (vc::begin()) { auto B = GlashowResonanceCrossSection::WDecayBranchingFraction; CK("glashow:branching", near(B(X::electron), .1071, .02) && near(B(X::muon), .1063, .02) && near(B(X::tau), .1138, .02) && B(X::sterile) == 0, "branching fractions ", B(X::electron), " ", B(X::muon), " ", B(X::tau), " ", B(X::sterile)); }
  // libraries: all sequences of additions
  PDGCode tg[4] = {proton, neutron, (PDGCode)electron, PDGCode(1000080160)};
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> seq) {
    if (vc::begin()) { CrossSectionLibrary l, copy; std::map<int, int> m, mc; std::string w = "library"; int id = 0; bool copied = false;
      for (int o : seq) { id++; vc::transition(); if (o == 8) { copy = l; mc = m; copied = true; w += " copied"; continue; } int t = o % 4; bool had = m.count(t); w += vc::cat(" +", t, o / 4 ? "p" : "v");
        bool th = o / 4 ? throws([&] { std::shared_ptr<X> p = std::make_shared<User>(V{double(id)}); l.addTarget(tg[t], p); }) : throws([&] { l.addTarget(tg[t], User({double(id)})); }); CK("library:redefine", th == had, w, ": ", th ? "refused" : "accepted"); if (!had) m[t] = id; }
      auto same = [&](CrossSectionLibrary const &q, std::map<int, int> const &mm) { for (int t = 0; t < 4; t++) { auto p = q.crossSectionForTarget(tg[t]); bool had = mm.count(t); CK("library:targets", q.hasTarget(tg[t]) == had && bool(p) == had, w, ": target ", t, had ? " is missing" : " is there"); if (p && had) CK("library:which", p->TotalCrossSection(1, X::electron, X::neutrino, X::CC) == mm.at(t), w, ": target ", t, " has another cross section"); } };
      same(l, m); if (copied) same(copy, mc); vc::state(w); vc::outcome(vc::cat("lib", m.size(), copied)); }
    if ((int)seq.size() < (vc::thorough() ? 5 : 4)) for (int o = 0; o < 9; o++) { auto s = seq; s.push_back(o); rec(s); } };
  rec({});
  if (vc::begin()) { CrossSectionLibrary::MapType mp; mp.emplace(neutron, std::make_shared<User>(V{3})); CrossSectionLibrary l(mp); CK("library:map", l.hasTarget(neutron) && !l.hasTarget(proton) && l.crossSectionForTarget(neutron)->TotalCrossSection(1, X::electron, X::neutrino, X::CC) == 3, "library made from a map"); }
  // default sets
  if (vc::begin()) { std::string d = dir() + "data"; mkdir(d.c_str(), 0755); mkdir((d + "/xsections").c_str(), 0755); Tab p = make(4, 3, 11, 14, 0, true), n = make(3, 3, 11, 14, 7, true), q = make(5, 3, 11, 14, 4, true); Tab1 o = make1(3, 10, 1e4, true);
    write_hdf(p, d + "/xsections/csms_proton.h5"); write_hdf(n, d + "/xsections/csms_neutron.h5"); write_hdf(q, d + "/xsections/csms_square.h5"); write1_hdf(o, d + "/xsections/csms.h5"); setenv("NUSQUIDS_DATA_PATH", d.c_str(), 1); vc::transition(3);
    try { auto l = loadDefaultCrossSections(); CK("default", l.hasTarget(proton) && l.hasTarget(neutron) && l.hasTarget((PDGCode)electron) && !l.hasTarget(isoscalar_nucleon), "targets of the default library");
      auto a = std::dynamic_pointer_cast<const D>(l.crossSectionForTarget(proton)), b = std::dynamic_pointer_cast<const D>(l.crossSectionForTarget(neutron)); CK("default", a && b && std::dynamic_pointer_cast<const GlashowResonanceCrossSection>(l.crossSectionForTarget((PDGCode)electron)), "kinds of the default library");
      if (a && b) { compare(*a, Ref(p), "default proton", 1e-9, false); compare(*b, Ref(n), "default neutron", 1e-9, false); } compare(D(), Ref(q), "default table", 1e-9, false); compare1(D1(), o, "default of the earlier class", 1e-9); } catch (std::exception &e) { vc::fail("default", e.what()); } unsetenv("NUSQUIDS_DATA_PATH"); }
}
static void run() { tables(); others(); vc::sample("rough table of 8 energies and 3 z, per-flavour HDF5: total and differential at nodes, between, below, above; averages over 13x5 ranges"); }
#endif
int main(int argc, char **argv) { vc::init(argc, argv); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); std::clog.setstate(std::ios::failbit); run(); return vc::finish(); }

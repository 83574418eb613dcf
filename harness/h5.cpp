// C09: arrays and attributes stored in HDF5 read back as they were (PART 0).
// C10: every HDF5 call of every operation failing in turn, and the handles each
// operation leaves open (PART 1).  The HDF5 entry points are interposed: each
// opened id is tracked, and the k-th call can be made to fail.
#include "vc.hpp"
#include "h5track.hpp"
#include <memory>
#include <dlfcn.h>
#include <hdf5.h>
#include <nuSQuIDS/tools.h>
#include <limits>
using namespace nusquids;

static std::string path(const char *n) { return vc::C().tmp + "/" + n; }
static void clean(std::string const &id) {
  if (!open_ids.empty()) { vc::fail("handles", vc::cat(id, ": ", open_ids.size(), " HDF5 handle(s) left open")); bool t = track; track = false; for (hid_t h : open_ids) { if (H5Iget_type(h) == H5I_DATASPACE) H5Sclose(h); else if (H5Iget_type(h) == H5I_DATATYPE) H5Tclose(h); else if (H5Iget_type(h) == H5I_DATASET) H5Dclose(h); else if (H5Iget_type(h) == H5I_ATTR) H5Aclose(h); else H5Pclose(h); } open_ids.clear(); track = t; }
}
struct Mem { hid_t f; Mem(const char *n = "m.h5") { hid_t p = H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(p, 1 << 20, 0); f = H5Fcreate(path(n).c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, p); H5Pclose(p); } ~Mem() { H5Fclose(f); } };
template <class F> static int run(std::string const &id, F f) {   // 0 done, 1 runtime_error, 2 anything else
  track = true; open_ids.clear(); ncall = 0;
  int r = 0; std::string w;
  try { f(); } catch (std::runtime_error &e) { r = 1; w = e.what(); } catch (std::exception &e) { r = 2; w = e.what(); }
  clean(id);
  track = false; fail_at = -1;
  return r;
}
template <class S> S value(size_t k) { return S((long)(k * 37 % 1001) - 500) / S(4); }
template <> int value<int>(size_t k) { return k == 3 ? std::numeric_limits<int>::max() : k == 4 ? std::numeric_limits<int>::min() : (int)(k * 7919) - 40000; }
template <> unsigned value<unsigned>(size_t k) { return k == 3 ? 0xffffffffu : (unsigned)(k * 104729); }
template <> double value<double>(size_t k) { static const double v[] = {0, -0.0, 1.0 / 3, -1e300, 4.9e-324, 2.2e-308, 1e17 + 2, -7.25}; return k < 8 ? v[k] : std::sin((double)k) * 1e5; }
template <> float value<float>(size_t k) { static const float v[] = {0, 0.1f, -3.4e38f, 1e-45f, 16777216.f}; return k < 5 ? v[k] : (float)std::sin((double)k) * 100; }
template <class A, class B> bool same(A a, B b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template <class S, unsigned R> marray<S, R> mk(std::array<size_t, R> e) { marray<S, R> a(e); size_t k = 0; for (auto &x : a) x = value<S>(k++); return a; }

template <class S, class Dt, unsigned R> void array_case(std::array<size_t, R> e, unsigned z, std::string const &ty) {
  Mem m;
  std::string id = vc::cat(ty, " extents ", vc::show(e), " compression ", z);
  vc::state(id); vc::transition(3); vc::trace(); vc::eval();
  marray<S, R> a = mk<S, R>(e);
  bool lossy = std::is_integral<Dt>::value && std::is_floating_point<S>::value;
  if (std::is_same<S, unsigned>::value && std::is_same<Dt, int>::value) for (auto &x : a) x = (S)((unsigned)x & 0x7fffffff);
  if (std::is_same<S, int>::value && std::is_same<Dt, unsigned>::value) for (auto &x : a) x = (S)((unsigned)x & 0x7fffffff);
  if (lossy || (std::is_same<S, double>::value && std::is_same<Dt, float>::value)) { size_t k = 0; for (auto &x : a) { x = (S)((k * 13 % 997)); k++; } }
  if (run(id, [&] { writeArrayH5<Dt>(m.f, "arr", a, z); })) { vc::fail("array:write", id + ": could not be written"); return; }
  // as HDF5 itself sees it
  hid_t d = H5Dopen2(m.f, "arr", H5P_DEFAULT), s = H5Dget_space(d), t = H5Dget_type(d);
  std::array<hsize_t, R + 1> ex; int nd = H5Sget_simple_extent_ndims(s); if (nd == (int)R) H5Sget_simple_extent_dims(s, &ex[0], nullptr);
  if (nd != (int)R || !std::equal(e.begin(), e.end(), ex.begin())) vc::fail("array:extents", id);
  else if (H5Tequal(t, h5Datatype<Dt>::type()) <= 0) vc::fail("array:type", id);
  else if (a.size()) {
    std::vector<Dt> raw(a.size()); H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, raw.data());
    for (size_t k = 0; k < raw.size(); k++) { Dt x = (Dt)a.get_data()[k]; if (!same(raw[k], x)) { vc::fail("array:stored", vc::cat(id, ": element ", k, " is ", raw[k], ", expected ", x)); break; } }
  }
  H5Tclose(t); H5Sclose(s); H5Dclose(d);
  // read back over targets which held something else
  for (int pre = 0; pre < 3; pre++) {
    marray<Dt, R> b; if (pre == 1) { std::array<size_t, R> q; q.fill(1); b = mk<Dt, R>(q); } if (pre == 2) { std::array<size_t, R> q; for (unsigned i = 0; i < R; i++) q[i] = e[R - 1 - i] + 1; b = mk<Dt, R>(q); }
    if (run(id, [&] { readArrayH5(m.f, "arr", b); })) { vc::fail("array:read", id + ": could not be read"); return; }
    if (b.get_extents() != a.get_extents()) { vc::fail("array:readshape", id); return; }
    for (size_t k = 0; k < a.size(); k++) if (!same(b.get_data()[k], (Dt)a.get_data()[k])) { vc::fail("array:roundtrip", vc::cat(id, ": element ", k)); return; }
  }
  { marray<double, R> b; if (run(id, [&] { readArrayH5(m.f, "arr", b); })) vc::fail("array:read", id); else for (size_t k = 0; k < a.size(); k++) if (b.get_data()[k] != (double)(Dt)a.get_data()[k]) { vc::fail("array:readdouble", vc::cat(id, ": element ", k)); break; } }
  { marray<double, R + 1> b; if (run(id, [&] { readArrayH5(m.f, "arr", b); }) != 1) vc::fail("array:rank", id + ": accepted by an array of higher rank"); }
  if (run(id, [&] { writeArrayH5<Dt>(m.f, "arr", a, z); }) != 1) vc::fail("array:exists", id + ": a second array of the same name was accepted");
  vc::outcome(id);
}
template <class S, class Dt> void arrays(const char *ty) {
  std::vector<unsigned> zs = vc::thorough() ? std::vector<unsigned>{0, 1, 5, 9} : std::vector<unsigned>{0, 1, 9};
  for (unsigned z : zs) {
    for (size_t a : {0, 1, 2, 3, 17}) if (vc::begin()) array_case<S, Dt, 1>({a}, z, ty);
    for (size_t a : {0, 1, 2, 5}) for (size_t b : {0, 1, 3, 4}) if (vc::begin()) array_case<S, Dt, 2>({a, b}, z, ty);
    for (size_t a : {1, 2}) for (size_t b : {1, 3, 0}) for (size_t c : {1, 2, 5}) if (vc::begin()) array_case<S, Dt, 3>({a, b, c}, z, ty);
    if (vc::begin()) array_case<S, Dt, 4>({2, 1, 3, 2}, z, ty);
    if (vc::begin()) array_case<S, Dt, 5>({2, 1, 3, 2, 2}, z, ty);
    // around the chunk size
    for (size_t n : {8191, 8192, 8193, 16383, 16384, 16385, 40000}) if (vc::begin()) array_case<S, Dt, 1>({n}, z, ty);
    if (!vc::thorough() && (z == 9 || !std::is_same<S, double>::value || !std::is_same<Dt, double>::value)) continue;
    for (auto e : std::vector<std::array<size_t, 2>>{{3, 9000}, {9000, 3}, {130, 130}, {2, 20000}, {20000, 2}, {5, 8192}, {5, 16384}, {7, 5461}}) if (vc::begin()) array_case<S, Dt, 2>(e, z, ty);
    for (auto e : std::vector<std::array<size_t, 3>>{{3, 3, 9000}, {30, 40, 20}, {2, 9000, 3}, {9000, 2, 2}}) if (vc::begin()) array_case<S, Dt, 3>(e, z, ty);
  }
}
template <class T> void attr_case(T v, const char *ty) {
  Mem m; std::string id = vc::cat(ty, " attribute ", v); vc::state(id); vc::transition(4); vc::trace(); vc::eval();
  if (run(id, [&] { addH5Attribute(m.f, "a", v); })) { vc::fail("attr:write", id); return; }
  T g = T(); if (run(id, [&] { readH5Attribute(m.f, "a", g); }) || !same(g, v)) vc::fail("attr:roundtrip", vc::cat(id, " read as ", g));
  if (run(id, [&] { addH5Attribute(m.f, "a", T(1)); }) != 1) vc::fail("attr:duplicate", id + ": a second attribute of the same name was silently dropped");
  g = T(); if (run(id, [&] { readH5Attribute(m.f, "a", g); }) || !same(g, v)) vc::fail("attr:duplicate", id);
  // reading as another type is refused
  int i; unsigned u; float f; double d; std::string s;
  int wrong = 0;
  wrong += !std::is_same<T, int>::value && run(id, [&] { readH5Attribute(m.f, "a", i); }) != 1;
  wrong += !std::is_same<T, unsigned>::value && run(id, [&] { readH5Attribute(m.f, "a", u); }) != 1;
  wrong += !std::is_same<T, float>::value && run(id, [&] { readH5Attribute(m.f, "a", f); }) != 1;
  wrong += !std::is_same<T, double>::value && run(id, [&] { readH5Attribute(m.f, "a", d); }) != 1;
  wrong += run(id, [&] { readH5Attribute(m.f, "a", s); }) != 1;
  if (wrong) vc::fail("attr:type", id + ": read as another type");
  if (run(id, [&] { readH5Attribute(m.f, "b", g); }) != 1) vc::fail("attr:missing", id);
  vc::outcome(id);
}
static void string_case(std::string const &v) {
  Mem m; std::string id = vc::cat("string attribute of ", v.size(), " bytes"); vc::state(id + v); vc::transition(4); vc::trace(); vc::eval();
  if (run(id, [&] { addH5Attribute<std::string>(m.f, "s", v); })) { vc::fail("string:write", id); return; }
  for (std::string pre : {std::string(), std::string("something longer which was there before, and is replaced ........................................................")}) {
    std::string g = pre; if (run(id, [&] { readH5Attribute(m.f, "s", g); }) || g != v) { vc::fail("string:roundtrip", vc::cat(id, ": '", v, "' read as '", g, "' (", g.size(), ")")); return; }
  }
  if (run(id, [&] { addH5Attribute<std::string>(m.f, "s", "other"); }) != 1) vc::fail("string:duplicate", id);
  int i; double d;
  if (run(id, [&] { readH5Attribute(m.f, "s", i); }) != 1 || run(id, [&] { readH5Attribute(m.f, "s", d); }) != 1) vc::fail("string:type", id);
  std::string g; if (run(id, [&] { readH5Attribute(m.f, "none", g); }) != 1) vc::fail("string:missing", id);
  vc::outcome(id);
}
static void attributes() {
  for (int v : {0, 1, -1, 7, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) if (vc::begin()) attr_case<int>(v, "int");
  for (unsigned v : {0u, 1u, 0x80000000u, 0xffffffffu}) if (vc::begin()) attr_case<unsigned>(v, "unsigned");
  for (float v : {0.f, -0.f, 0.1f, 3.4e38f, -1e-45f, std::numeric_limits<float>::infinity()}) if (vc::begin()) attr_case<float>(v, "float");
  for (double v : {0., -0., 0.1, 1e308, 4.9e-324, -2.5, 1e15 + 1, std::numeric_limits<double>::infinity()}) if (vc::begin()) attr_case<double>(v, "double");
  for (size_t n = 0; n <= (vc::thorough() ? 600u : 80u); n++) if (vc::begin()) { std::string s; for (size_t i = 0; i < n; i++) s += (char)(' ' + (i * 7 + n) % 95); string_case(s); }
  for (size_t n : {255u, 256u, 257u, 1000u, 4095u, 4096u, 30000u}) if (vc::begin()) string_case(std::string(n, 'q'));
  for (std::string s : {std::string("\0", 1), std::string("a\0b", 3), std::string("ab\0", 3), std::string("\0\0\0\0", 4), std::string(" "), std::string("  pad  "), std::string("\n\t"), std::string("\xc3\xa9\xff")}) if (vc::begin()) string_case(s);
  for (unsigned k = 0; k < 3; k++) if (vc::begin()) {   // several attributes side by side, on groups and datasets
    Mem m; hid_t g = H5Gcreate2(m.f, "g", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); marray<int, 1> arr{3u}; for (auto &x : arr) x = 4; writeArrayH5<int>(g, "d", arr); hid_t d = H5Dopen2(g, "d", H5P_DEFAULT); hid_t o = k == 0 ? m.f : k == 1 ? g : d;
    addH5Attribute(o, "x", 1.5); addH5Attribute(o, "y", 2); addH5Attribute<std::string>(o, "z", "zz"); addH5Attribute<std::string>(o, "e", ""); addH5Attribute(o, "u", 3u);
    double x; int y; unsigned u; std::string z, e = "?"; readH5Attribute(o, "u", u); readH5Attribute(o, "z", z); readH5Attribute(o, "y", y); readH5Attribute(o, "x", x); readH5Attribute(o, "e", e);
    vc::eval(); if (x != 1.5 || y != 2 || z != "zz" || u != 3 || e != "") vc::fail("attr:several", vc::cat("object kind ", k)); H5Dclose(d); H5Gclose(g);
  }
}
// attributes and data sets made by someone else: what does not fit a single value or the array asked for is refused, and the target keeps what it held
static void foreign() {
  struct Ty { const char *n; hid_t t; size_t size; };
  hid_t fix = H5Tcopy(H5T_C_S1); H5Tset_size(fix, 5); hid_t var = H5Tcopy(H5T_C_S1); H5Tset_size(var, H5T_VARIABLE); hid_t comp = H5Tcreate(H5T_COMPOUND, 16); H5Tinsert(comp, "r", 0, H5T_NATIVE_DOUBLE); H5Tinsert(comp, "i", 8, H5T_NATIVE_DOUBLE);
  hid_t pad = H5Tcopy(fix); H5Tset_strpad(pad, H5T_STR_SPACEPAD); hsize_t two = 2; hid_t arr = H5Tarray_create2(H5T_NATIVE_DOUBLE, 1, &two);
  std::vector<Ty> T{{"double", H5T_NATIVE_DOUBLE, 8}, {"float", H5T_NATIVE_FLOAT, 4}, {"int", H5T_NATIVE_INT, 4}, {"unsigned", H5T_NATIVE_UINT, 4}, {"big-endian double", H5T_IEEE_F64BE, 8}, {"int64", H5T_NATIVE_INT64, 8}, {"byte", H5T_NATIVE_SCHAR, 1}, {"fixed string", fix, 5}, {"padded string", pad, 5}, {"variable string", var, 8}, {"compound", comp, 16}, {"array", arr, 16}};
  struct Sp { const char *n; int rank; hsize_t d[3]; long np; };
  std::vector<Sp> P{{"scalar", 0, {}, 1}, {"null", -1, {}, 0}, {"[1]", 1, {1}, 1}, {"[0]", 1, {0}, 0}, {"[2]", 1, {2}, 2}, {"[7]", 1, {7}, 7}, {"[1][1]", 2, {1, 1}, 1}, {"[2][1]", 2, {2, 1}, 2}, {"[1][1][1]", 3, {1, 1, 1}, 1}, {"[2][3][2]", 3, {2, 3, 2}, 12}};
  static char strs[16][8]; static const char *vs[16]; static double raw[32]; for (int i = 0; i < 16; i++) { std::memcpy(strs[i], "abcdefg", 8); vs[i] = "variable"; } for (int i = 0; i < 32; i++) raw[i] = 1.5 + i;
  for (auto &t : T) for (auto &sp : P) {
    if (!vc::begin()) continue;
    Mem m; hid_t s = sp.rank < 0 ? H5Screate(H5S_NULL) : sp.rank == 0 ? H5Screate(H5S_SCALAR) : H5Screate_simple(sp.rank, sp.d, nullptr);
    const void *src = t.t == var ? (const void *)vs : t.t == fix || t.t == pad ? (const void *)strs : (const void *)raw;
    hid_t a = H5Acreate2(m.f, "a", t.t, s, H5P_DEFAULT, H5P_DEFAULT), d = H5Dcreate2(m.f, "d", t.t, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    if (sp.np) { H5Awrite(a, t.t, src); H5Dwrite(d, t.t, H5S_ALL, H5S_ALL, H5P_DEFAULT, src); }
    H5Aclose(a); H5Dclose(d); H5Sclose(s);
    std::string id = vc::cat(t.n, " ", sp.n); vc::state(id); vc::transition(8); vc::trace(); vc::outcome(id);
    // numbers
    struct { double d[3]; } gd; struct { float d[3]; } gf; struct { int d[3]; } gi; struct { unsigned d[3]; } gu;
    auto num = [&](const char *n, hid_t nt, std::function<void()> f, std::function<bool(bool)> good) {
      bool fits = H5Tequal(t.t, nt) > 0 && sp.np == 1; vc::eval();
      int r = run(id, f); if (r != (fits ? 0 : 1)) vc::fail("foreign:attr", vc::cat("attribute ", id, " read as ", n, fits ? " is refused" : " is accepted")); else if (!good(fits)) vc::fail("foreign:attr", vc::cat("attribute ", id, " read as ", n, fits ? " is not the value" : " changes the target")); };
    gd = {{-9, -9, -9}}; num("double", H5T_NATIVE_DOUBLE, [&] { readH5Attribute(m.f, "a", gd.d[1]); }, [&](bool r) { return gd.d[0] == -9 && gd.d[2] == -9 && (r ? gd.d[1] == 1.5 : gd.d[1] == -9); });
    gf = {{-9, -9, -9}}; num("float", H5T_NATIVE_FLOAT, [&] { readH5Attribute(m.f, "a", gf.d[1]); }, [&](bool r) { return gf.d[0] == -9 && gf.d[2] == -9 && (r || gf.d[1] == -9); });
    gi = {{-9, -9, -9}}; num("int", H5T_NATIVE_INT, [&] { readH5Attribute(m.f, "a", gi.d[1]); }, [&](bool r) { return gi.d[0] == -9 && gi.d[2] == -9 && (r || gi.d[1] == -9); });
    gu = {{9, 9, 9}}; num("unsigned", H5T_NATIVE_UINT, [&] { readH5Attribute(m.f, "a", gu.d[1]); }, [&](bool r) { return gu.d[0] == 9 && gu.d[2] == 9 && (r || gu.d[1] == 9); });
    // strings: a single one of fixed size, or an empty one
    { std::string g = "old"; vc::eval(); int r = run(id, [&] { readH5Attribute(m.f, "a", g); }); bool str = t.t == fix || t.t == pad;
      if (str && sp.np == 1 ? (r != 0 || g.substr(0, 5) != "abcde") : str && sp.rank < 0 ? (r != 0 || g != "") : (t.t == var && sp.rank < 0) ? (r == 0 ? g != "" : g != "old") : (r != 1 || g != "old")) vc::fail("foreign:string", vc::cat("attribute ", id, " read as a string gives ", r ? "an exception" : "'" + g + "'")); }
    // arrays of the rank 1 and 3
    bool number = t.t != fix && t.t != pad && t.t != var && t.t != comp && t.t != arr;
    auto ar = [&](unsigned rank, std::function<void()> f, std::function<bool()> good) { bool fits = number && sp.rank == (int)rank; vc::eval();
      int r = run(id, f); if (r != (fits ? 0 : 1)) { if (!fits && !number && sp.np == 0) return; vc::fail("foreign:array", vc::cat("data set ", id, " read to an array of rank ", rank, fits ? " is refused" : " is accepted")); } else if (fits && !good()) vc::fail("foreign:array", vc::cat("data set ", id, " is not what an array of rank ", rank, " holds")); };
    marray<double, 1> b1; ar(1, [&] { readArrayH5(m.f, "d", b1); }, [&] { if ((long)b1.size() != sp.np) return false; std::vector<double> w(32); std::memcpy(w.data(), raw, sizeof raw); H5Tconvert(t.t, H5T_NATIVE_DOUBLE, 16, w.data(), nullptr, H5P_DEFAULT); return sp.np == 0 || std::memcmp(w.data(), b1.get_data(), sp.np * 8) == 0; });
    marray<double, 3> b3; ar(3, [&] { readArrayH5(m.f, "d", b3); }, [&] { if ((long)b3.size() != sp.np || b3.extent(0) != sp.d[0] || b3.extent(2) != sp.d[2]) return false; std::vector<double> w(32); std::memcpy(w.data(), raw, sizeof raw); H5Tconvert(t.t, H5T_NATIVE_DOUBLE, 16, w.data(), nullptr, H5P_DEFAULT); return std::memcmp(w.data(), b3.get_data(), sp.np * 8) == 0; });
    vc::sample(id);
  }
  H5Tclose(fix); H5Tclose(var); H5Tclose(comp); H5Tclose(pad); H5Tclose(arr);
}
static void exists() {
  if (!vc::begin()) return;
  Mem m; hid_t g = H5Gcreate2(m.f, "g", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); marray<int, 1> a{2u}; writeArrayH5<int>(g, "d", a); H5Gclose(g);
  H5Lcreate_soft("/g/d", m.f, "soft", H5P_DEFAULT, H5P_DEFAULT); H5Lcreate_soft("/nowhere", m.f, "dangling", H5P_DEFAULT, H5P_DEFAULT); H5Lcreate_hard(m.f, "g", m.f, "hard", H5P_DEFAULT, H5P_DEFAULT);
  struct { const char *n; bool e; } c[] = {{"g", 1}, {"g/d", 1}, {"soft", 1}, {"hard", 1}, {"hard/d", 1}, {"/g/d", 1}, {"dangling", 0}, {"x", 0}, {"g/x", 0}, {"x/d", 0}, {"d", 0}, {"G", 0}, {"g/d2", 0}};
  for (auto &q : c) { vc::eval(); vc::transition(); vc::state(q.n); if (h5ObjectExists(m.f, q.n) != q.e) vc::fail("exists", vc::cat("'", q.n, "' reported ", !q.e)); }
  H5Ldelete(m.f, "g/d", H5P_DEFAULT); if (h5ObjectExists(m.f, "soft") || h5ObjectExists(m.f, "g/d")) vc::fail("exists", "a removed object");
}
// ---- handles and failures
struct Scen { const char *name; std::function<void(hid_t)> prepare, act; std::function<bool(hid_t)> good; };
static bool stored(hid_t f, const char *n, double first, size_t size) { bool r = false; try { marray<double, 2> b; readArrayH5(f, n, b); r = b.size() == size && b.get_data()[0] == first; } catch (...) {} return r; }
static void faults() {
  static marray<double, 2> src = mk<double, 2>({4, 3}), got; static marray<int, 3> si = mk<int, 3>({2, 2, 2}), gi; static double ad; static std::string as; static int ai;
  src[0][0] = 5.5;
  auto none = [](hid_t) {};
  auto prep = [](hid_t f) { writeArrayH5<double>(f, "arr", src, 3); writeArrayH5<int>(f, "int", si); addH5Attribute(f, "d", 2.5); addH5Attribute(f, "i", 7); addH5Attribute<std::string>(f, "s", "hello"); addH5Attribute<std::string>(f, "e", ""); got.resize(std::vector<size_t>{1, 1}); ad = 0; as = "old"; ai = 0; };
  std::vector<Scen> S{
    {"write array", none, [](hid_t f) { writeArrayH5<double>(f, "arr", src, 0); }, [](hid_t f) { return stored(f, "arr", 5.5, 12); }},
    {"write compressed array", none, [](hid_t f) { writeArrayH5<double>(f, "arr", src, 4); }, [](hid_t f) { return stored(f, "arr", 5.5, 12); }},
    {"write converted array", none, [](hid_t f) { writeArrayH5<float>(f, "arr", src, 1); }, [](hid_t f) { return stored(f, "arr", 5.5, 12); }},
    {"read array", prep, [](hid_t f) { readArrayH5(f, "arr", got); }, [](hid_t) { return got.size() == 12 && got.get_data()[0] == 5.5 && got.get_data()[2] == src.get_data()[2]; }},
    {"read integer array", prep, [](hid_t f) { readArrayH5(f, "int", gi); }, [](hid_t) { return gi.size() == 8 && gi.get_data()[3] == si.get_data()[3]; }},
    {"write double attribute", none, [](hid_t f) { addH5Attribute(f, "d", 2.5); }, [](hid_t f) { double x = 0; try { readH5Attribute(f, "d", x); } catch (...) {} return x == 2.5; }},
    {"write string attribute", none, [](hid_t f) { addH5Attribute<std::string>(f, "s", "hello"); }, [](hid_t f) { std::string x; try { readH5Attribute(f, "s", x); } catch (...) {} return x == "hello"; }},
    {"write empty string attribute", none, [](hid_t f) { addH5Attribute<std::string>(f, "s", ""); }, [](hid_t f) { std::string x = "?"; try { readH5Attribute(f, "s", x); } catch (...) {} return x == ""; }},
    {"read double attribute", prep, [](hid_t f) { readH5Attribute(f, "d", ad); }, [](hid_t) { return ad == 2.5; }},
    {"read int attribute", prep, [](hid_t f) { readH5Attribute(f, "i", ai); }, [](hid_t) { return ai == 7; }},
    {"read string attribute", prep, [](hid_t f) { readH5Attribute(f, "s", as); }, [](hid_t) { return as == "hello"; }},
    {"read empty string attribute", prep, [](hid_t f) { readH5Attribute(f, "e", as); }, [](hid_t) { return as == ""; }},
  };
  for (auto &s : S) {
    long n = 1;
    for (long k = -1; k < n; k++) {
      if (!vc::begin()) { if (k == -1) { Mem m; s.prepare(m.f); run("", [&] { s.act(m.f); }); n = ncall; } continue; }
      Mem m; s.prepare(m.f);
      failed_name = ""; fail_at = k;
      std::string id = vc::cat(s.name, k < 0 ? ", nothing failing" : ", failing call ", k);
      vc::state(id); vc::transition(); vc::trace(); vc::eval();
      int r = run(id, [&] { s.act(m.f); });
      if (k == -1) n = ncall;
      id += " " + failed_name;
      bool ok = s.good(m.f);
      if (k < 0 && (r || !ok)) vc::fail("fault:none", id);
      if (r == 2) vc::fail("fault:exception", id + ": wrong kind of exception");
      if (r == 0 && !ok) vc::fail("fault:silent", id + ": success reported, but the data is not there");
      vc::outcome(vc::cat(s.name, r, failed_name));
      vc::sample(id);
    }
  }
  // refusals do not leak either
  struct Ref { const char *n; std::function<void(hid_t)> f; };
  std::vector<Ref> R{{"missing array", [](hid_t f) { marray<double, 1> a; readArrayH5(f, "nope", a); }}, {"wrong rank", [](hid_t f) { marray<double, 1> a; readArrayH5(f, "arr", a); }}, {"wrong rank 3", [](hid_t f) { marray<double, 4> a; readArrayH5(f, "arr", a); }},
    {"existing array", [](hid_t f) { writeArrayH5<double>(f, "arr", src); }}, {"existing array compressed", [](hid_t f) { writeArrayH5<double>(f, "arr", src, 2); }}, {"array in a missing group", [](hid_t f) { writeArrayH5<double>(f, "no/arr", src); }},
    {"group as array", [](hid_t f) { marray<double, 1> a; readArrayH5(f, "/", a); }}, {"missing attribute", [](hid_t f) { double d; readH5Attribute(f, "nope", d); }}, {"missing string", [](hid_t f) { std::string d; readH5Attribute(f, "nope", d); }},
    {"wrong type", [](hid_t f) { int d; readH5Attribute(f, "d", d); }}, {"wrong type string", [](hid_t f) { std::string d; readH5Attribute(f, "d", d); }}, {"string as double", [](hid_t f) { double d; readH5Attribute(f, "s", d); }}, {"existing attribute", [](hid_t f) { addH5Attribute(f, "d", 1.0); }}, {"existing string", [](hid_t f) { addH5Attribute<std::string>(f, "s", "x"); }},
    {"invalid object", [](hid_t) { addH5Attribute(-1, "s", 1); }}, {"invalid object string", [](hid_t) { addH5Attribute<std::string>(-1, "s", "v"); }}, {"invalid container", [](hid_t) { writeArrayH5<double>(-1, "s", src); }}, {"invalid container read", [](hid_t) { marray<double, 2> a; readArrayH5(-1, "s", a); }}};
  for (auto &r : R) { if (!vc::begin()) continue; Mem m; prep(m.f); vc::eval(); vc::transition(); vc::state(r.n); for (int i = 0; i < 3; i++) if (run(r.n, [&] { r.f(m.f); }) != 1) { vc::fail("refuse", std::string(r.n) + ": not refused with runtime_error"); break; } if (!stored(m.f, "arr", 5.5, 12)) vc::fail("refuse:data", r.n); vc::outcome(r.n); }
  // read-only and full files
  if (vc::begin()) {
    std::string p = path("ro.h5"); { hid_t f = H5Fcreate(p.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); prep(f); H5Fclose(f); }
    hid_t f = H5Fopen(p.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); vc::eval(4);
    if (run("ro array", [&] { writeArrayH5<double>(f, "new", src); }) != 1) vc::fail("readonly", "array");
    if (run("ro attribute", [&] { addH5Attribute(f, "new", 1.0); }) != 1) vc::fail("readonly", "attribute");
    if (run("ro string", [&] { addH5Attribute<std::string>(f, "new", "v"); }) != 1) vc::fail("readonly", "string");
    if (!stored(f, "arr", 5.5, 12)) vc::fail("readonly", "reading"); H5Fclose(f);
  }
  // wrappers: every sequence of moves over three handles, each id closed exactly once
  {
    static std::map<hid_t, int> closed; static auto del = [](hid_t i) -> herr_t { closed[i]++; return 0; };
    herr_t (*fn)(hid_t) = del;
    for (unsigned depth = 0; depth <= 4; depth++) { unsigned tot = 1; for (unsigned i = 0; i < depth; i++) tot *= 12;
      for (unsigned c = 0; c < tot; c++) { if ((c & 63) == 0 ? !vc::begin() : false) { c |= 63; continue; }
        closed.clear(); unsigned q = c; vc::transition(depth); vc::eval(); vc::state(vc::cat("w", depth, ",", c));
        { std::unique_ptr<H5Handle> h[3]; for (int i = 0; i < 2; i++) h[i].reset(new H5Handle(100 + i, fn, "x")); h[2].reset(new H5Handle());
          hid_t val[3] = {100, 101, -1};
          for (unsigned i = 0; i < depth; i++, q /= 12) { unsigned o = q % 12;
            if (o < 9) { unsigned a = o / 3, b = o % 3; *h[a] = std::move(*h[b]); if (a != b) std::swap(val[a], val[b]); }
            else { unsigned a = o - 9; H5Handle t(std::move(*h[a])); if (h[a]->get() >= 0) vc::fail("wrapper:moved", "moved-from handle keeps its id"); *h[a] = std::move(t); }
            // an id is held by exactly one handle
            std::map<hid_t, int> n; for (auto &x : h) if (x->get() >= 0) n[x->get()]++; for (auto &x : n) if (x.second > 1) vc::fail("wrapper:shared", "");
          }
          for (auto &x : closed) if (x.second > 1) vc::fail("wrapper:double", vc::cat("id ", x.first));
        }
        for (hid_t i : {100, 101}) if (closed[i] != 1) vc::fail("wrapper:once", vc::cat("id ", i, " was closed ", closed[i], " times, sequence ", c, " of ", depth));
        if (closed.count(-1) || closed.count(0)) vc::fail("wrapper:invalid", "an invalid id was closed"); } }
  }
  if (vc::begin()) {
    vc::eval(4);
    bool t = false; try { H5Handle h(-1, H5Dclose, "open thing"); } catch (std::runtime_error &e) { t = std::string(e.what()).find("open thing") != std::string::npos; } if (!t) vc::fail("wrapper:invalid", "an invalid id was accepted, or the message lost its description");
    t = false; try { H5Handle h(-1, H5Dclose, nullptr); } catch (std::runtime_error &) { t = true; } if (!t) vc::fail("wrapper:invalid", "null description");
    std::string p = path("w.h5"), p2 = path("w2.h5");
    hid_t a = H5Fcreate(p.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), b = H5Fcreate(p2.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    { H5File f(a); H5File g(std::move(f)); H5File h(b); h = std::move(g); if ((hid_t)h != a) vc::fail("wrapper:file", "move"); if (H5Iis_valid(a) <= 0) vc::fail("wrapper:file", "closed early"); }
    if (H5Iis_valid(a) > 0 || H5Iis_valid(b) > 0) vc::fail("wrapper:file", "left open");
  }
}
int main(int argc, char **argv) {
  vc::init(argc, argv);
  H5open(); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
#if PART == 0
  arrays<double, double>("double"); arrays<double, float>("double as float"); arrays<int, int>("int"); arrays<unsigned, unsigned>("unsigned"); arrays<float, float>("float");
  arrays<float, double>("float as double"); arrays<int, double>("int as double"); arrays<double, int>("double as int"); arrays<unsigned, int>("unsigned as int");
  attributes(); foreign(); exists();
#else
  faults();
#endif
  return vc::finish();
}

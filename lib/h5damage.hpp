// The parts of an HDF5 file, and ways of damaging each.
#ifndef H5DAMAGE_HPP
#define H5DAMAGE_HPP
#include <fstream>
#include <hdf5.h>
#include <hdf5_hl.h>
static std::string slurp(std::string f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(std::string f, std::string s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
// Parts of a file.
struct Part { char type; std::string obj, attr; };
static herr_t one_attr(hid_t, const char *a, const H5A_info_t *, void *d) { auto &v = *(std::pair<std::vector<Part> *, std::string> *)d; v.first->push_back({'a', v.second, a}); return 0; }
static herr_t one_object(hid_t f, const char *nm, const H5O_info_t *i, void *d) {
  auto v = (std::vector<Part> *)d; if (std::string(nm) != ".") v->push_back({i->type == H5O_TYPE_GROUP ? 'g' : 'd', nm, ""});
  std::pair<std::vector<Part> *, std::string> arg{v, nm}; hid_t o = H5Oopen(f, nm, H5P_DEFAULT); hsize_t z = 0; H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, &z, one_attr, &arg); H5Oclose(o); return 0;
}
static std::vector<Part> parts(std::string f) { std::vector<Part> v; hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); H5Ovisit(h, H5_INDEX_NAME, H5_ITER_INC, one_object, &v); H5Fclose(h); return v; }
static const int DAMAGE = 9;
// Returns what was done, or nothing when that damage does not apply.
static std::string damage(std::string f, Part const &p, int what) {
  std::string r; hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
  if (what == 0) { r = "missing"; if (p.type == 'a') H5Adelete_by_name(h, p.obj.c_str(), p.attr.c_str(), H5P_DEFAULT); else H5Ldelete(h, p.obj.c_str(), H5P_DEFAULT); }
  else if (p.type == 'g') { if (what == 1) { r = "a single number"; H5Ldelete(h, p.obj.c_str(), H5P_DEFAULT); hsize_t d[1] = {1}; double v = 1; H5LTmake_dataset_double(h, p.obj.c_str(), 1, d, &v); } }
  else if (p.type == 'd') {
    int rank; H5LTget_dataset_ndims(h, p.obj.c_str(), &rank); std::vector<hsize_t> d(std::max(rank, 1)); H5T_class_t c; size_t sz; H5LTget_dataset_info(h, p.obj.c_str(), d.data(), &c, &sz); d.resize(rank); std::vector<hsize_t> e = d;
    if (what == 1) { r = "one longer"; e.back()++; } if (what == 2 && d.back() > 1) { r = "one shorter"; e.back()--; } if (what == 3 && rank > 1) { r = "one higher"; e[0]++; } if (what == 4 && rank > 1) { r = "flat"; hsize_t n = 1; for (auto x : d) n *= x; e = {n}; }
    if (what == 5) { r = "of rank one more"; e.insert(e.begin(), 1); } if (what == 6) { r = "much larger"; e.back() += 500; } if (what == 7) { r = "a scalar"; e.clear(); } if (what == 8 && rank > 1 && d[0] != d[1]) { r = "transposed"; std::swap(e[0], e[1]); }
    if (r != "") { // keeps its attributes
      hid_t o = H5Dopen2(h, p.obj.c_str(), H5P_DEFAULT), sp = H5Screate_simple(e.size(), e.data(), nullptr), ty = H5Dget_type(o); if (e.empty()) { H5Sclose(sp); sp = H5Screate(H5S_SCALAR); } H5Lmove(h, p.obj.c_str(), h, "old", H5P_DEFAULT, H5P_DEFAULT); hid_t w = H5Dcreate2(h, p.obj.c_str(), ty, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      for (int i = 0, n = H5Aget_num_attrs(o); i < n; i++) { hid_t a = H5Aopen_by_idx(o, ".", H5_INDEX_NAME, H5_ITER_INC, i, H5P_DEFAULT, H5P_DEFAULT), t = H5Aget_type(a), s = H5Aget_space(a); char nm[100]; H5Aget_name(a, 100, nm); std::vector<char> b(H5Aget_storage_size(a) + 8); H5Aread(a, t, b.data()); hid_t x = H5Acreate2(w, nm, t, s, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(x, t, b.data()); H5Aclose(x); H5Sclose(s); H5Tclose(t); H5Aclose(a); }
      H5Dclose(w); H5Tclose(ty); H5Sclose(sp); H5Dclose(o); H5Ldelete(h, "old", H5P_DEFAULT); }
  } else { hid_t a = H5Aopen_by_name(h, p.obj.c_str(), p.attr.c_str(), H5P_DEFAULT, H5P_DEFAULT), t = H5Aget_type(a); bool str = H5Tget_class(t) == H5T_STRING, in = H5Tget_class(t) == H5T_INTEGER; H5Tclose(t); H5Aclose(a); auto o = p.obj.c_str(), n = p.attr.c_str(); auto del = [&] { H5Adelete_by_name(h, o, n, H5P_DEFAULT); };
    int big[64]; double dbl[64]; for (int i = 0; i < 64; i++) { big[i] = 1; dbl[i] = 1; }
    if (what == 1) { r = "several values"; del(); if (in) H5LTset_attribute_int(h, o, n, big, 64); else if (!str) H5LTset_attribute_double(h, o, n, dbl, 64); else { hid_t ob = H5Oopen(h, o, H5P_DEFAULT), ty = H5Tcopy(H5T_C_S1); H5Tset_size(ty, 4); hsize_t d = 5; hid_t s = H5Screate_simple(1, &d, nullptr), x = H5Acreate2(ob, n, ty, s, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(x, ty, "TrueTrueTrueTrueTrue"); H5Aclose(x); H5Sclose(s); H5Tclose(ty); H5Oclose(ob); } }
    if (what == 2) { r = "another type"; del(); if (str) H5LTset_attribute_double(h, o, n, dbl, 1); else H5LTset_attribute_string(h, o, n, "text"); }
    if (what == 3 && in && p.obj.find("body") == std::string::npos) { r = "huge"; int v = 2000000000; H5LTset_attribute_int(h, o, n, &v, 1); } if (what == 4 && in) { r = "negative"; int v = -1; H5LTset_attribute_int(h, o, n, &v, 1); } if (what == 5 && (p.attr == "numneu" || p.attr == "arraysize")) { r = "one more"; unsigned v = 0; H5LTget_attribute_uint(h, o, n, &v); v++; H5LTset_attribute_uint(h, o, n, &v, 1); }
    if (what == 6 && (p.attr == "numneu" || p.attr == "arraysize")) { r = "one less"; unsigned v = 0; H5LTget_attribute_uint(h, o, n, &v); v--; H5LTset_attribute_uint(h, o, n, &v, 1); }
    if (what == 7 && str) { r = "a long text"; del(); H5LTset_attribute_string(h, o, n, std::string(300, 'x').c_str()); } if (what == 8 && str) { r = "a text of varying length"; del(); hid_t ob = H5Oopen(h, o, H5P_DEFAULT), ty = H5Tcopy(H5T_C_S1); H5Tset_size(ty, H5T_VARIABLE); hid_t s = H5Screate(H5S_SCALAR), x = H5Acreate2(ob, n, ty, s, H5P_DEFAULT, H5P_DEFAULT); const char *c = "True"; H5Awrite(x, ty, &c); H5Aclose(x); H5Sclose(s); H5Tclose(ty); H5Oclose(ob); } }
  H5Fclose(h); return r;
}
#endif

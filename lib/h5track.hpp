// The HDF5 entry points are interposed: each opened id is tracked, and the k-th
// call made while tracking can be made to fail.
#ifndef H5TRACK_HPP
#define H5TRACK_HPP
#include "vc.hpp"
#include <dlfcn.h>
#include <hdf5.h>

static std::set<hid_t> open_ids;
static bool track = false;
static long ncall = 0, fail_at = -1; static std::string failed_name;
static bool failing(const char *n) { if (!track) return false; if (ncall++ == fail_at) { failed_name = n; return true; } return false; }
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define OPENER(name, P, A) extern "C" hid_t name P { REAL(name); if (failing(#name)) return -1; hid_t rr_ = real A; if (track && rr_ >= 0) open_ids.insert(rr_); return rr_; }
#define CALL(type, bad, name, P, A) extern "C" type name P { REAL(name); if (failing(#name)) return bad; return real A; }
#define CLOSER(name) extern "C" herr_t name(hid_t id) { REAL(name); if (track) { if (id >= 0 && !open_ids.erase(id)) vc::fail("close", std::string(#name) + " of an id which is not open"); if (id < 0) return -1; } return real(id); }
OPENER(H5Screate_simple, (int r, const hsize_t *d, const hsize_t *m), (r, d, m))
OPENER(H5Screate, (H5S_class_t c), (c))
OPENER(H5Dcreate2, (hid_t l, const char *n, hid_t t, hid_t s, hid_t a, hid_t b, hid_t c), (l, n, t, s, a, b, c))
OPENER(H5Dopen2, (hid_t l, const char *n, hid_t a), (l, n, a))
OPENER(H5Dget_space, (hid_t d), (d))
OPENER(H5Dget_type, (hid_t d), (d))
OPENER(H5Pcreate, (hid_t c), (c))
OPENER(H5Acreate2, (hid_t l, const char *n, hid_t t, hid_t s, hid_t a, hid_t b), (l, n, t, s, a, b))
OPENER(H5Aopen, (hid_t l, const char *n, hid_t a), (l, n, a))
OPENER(H5Aget_type, (hid_t a), (a))
OPENER(H5Aget_space, (hid_t a), (a))
OPENER(H5Tcopy, (hid_t a), (a))
CALL(herr_t, -1, H5Dwrite, (hid_t d, hid_t t, hid_t m, hid_t f, hid_t p, const void *b), (d, t, m, f, p, b))
CALL(herr_t, -1, H5Dread, (hid_t d, hid_t t, hid_t m, hid_t f, hid_t p, void *b), (d, t, m, f, p, b))
CALL(herr_t, -1, H5Awrite, (hid_t a, hid_t t, const void *b), (a, t, b))
CALL(herr_t, -1, H5Aread, (hid_t a, hid_t t, void *b), (a, t, b))
CALL(herr_t, -1, H5Pset_chunk, (hid_t p, int n, const hsize_t *d), (p, n, d))
CALL(herr_t, -1, H5Pset_deflate, (hid_t p, unsigned n), (p, n))
CALL(herr_t, -1, H5Tset_size, (hid_t t, size_t n), (t, n))
CALL(int, -1, H5Sget_simple_extent_ndims, (hid_t s), (s))
CALL(int, -1, H5Sget_simple_extent_dims, (hid_t s, hsize_t *d, hsize_t *m), (s, d, m))
CALL(htri_t, -1, H5Tequal, (hid_t a, hid_t b), (a, b))
CALL(htri_t, -1, H5Lexists, (hid_t a, const char *n, hid_t p), (a, n, p))
CALL(htri_t, -1, H5Oexists_by_name, (hid_t a, const char *n, hid_t p), (a, n, p))
#ifdef H5TRACK_LT
#include <hdf5_hl.h>
// The high-level calls are one step each: what they do inside is their own.
struct Inner { bool was; Inner() : was(track) { track = false; } ~Inner() { track = was; } };
#define LT(name, P, A) extern "C" herr_t name P { REAL(name); if (failing(#name)) return -1; Inner in_; return real A; }
LT(H5LTmake_dataset, (hid_t l, const char *n, int r, const hsize_t *d, hid_t t, const void *b), (l, n, r, d, t, b))
LT(H5LTmake_dataset_double, (hid_t l, const char *n, int r, const hsize_t *d, const double *b), (l, n, r, d, b))
LT(H5LTset_attribute_int, (hid_t l, const char *o, const char *a, const int *v, size_t n), (l, o, a, v, n))
LT(H5LTset_attribute_uint, (hid_t l, const char *o, const char *a, const unsigned *v, size_t n), (l, o, a, v, n))
LT(H5LTset_attribute_double, (hid_t l, const char *o, const char *a, const double *v, size_t n), (l, o, a, v, n))
LT(H5LTset_attribute_string, (hid_t l, const char *o, const char *a, const char *v), (l, o, a, v))
LT(H5LTget_attribute_int, (hid_t l, const char *o, const char *a, int *v), (l, o, a, v))
LT(H5LTget_attribute_uint, (hid_t l, const char *o, const char *a, unsigned *v), (l, o, a, v))
LT(H5LTget_attribute_double, (hid_t l, const char *o, const char *a, double *v), (l, o, a, v))
LT(H5LTget_attribute_string, (hid_t l, const char *o, const char *a, char *v), (l, o, a, v))
LT(H5LTget_attribute_ndims, (hid_t l, const char *o, const char *a, int *v), (l, o, a, v))
LT(H5LTget_attribute_info, (hid_t l, const char *o, const char *a, hsize_t *d, H5T_class_t *c, size_t *s), (l, o, a, d, c, s))
LT(H5LTread_dataset_double, (hid_t l, const char *n, double *b), (l, n, b))
LT(H5LTget_dataset_info, (hid_t l, const char *n, hsize_t *d, H5T_class_t *c, size_t *s), (l, n, d, c, s))
LT(H5LTget_dataset_ndims, (hid_t l, const char *n, int *r), (l, n, r))
CALL(herr_t, -1, H5Sselect_hyperslab, (hid_t s, H5S_seloper_t o, const hsize_t *a, const hsize_t *b, const hsize_t *c, const hsize_t *d), (s, o, a, b, c, d))
OPENER(H5Aopen_by_name, (hid_t l, const char *o, const char *n, hid_t a, hid_t b), (l, o, n, a, b))
CALL(htri_t, -1, H5Aexists_by_name, (hid_t l, const char *o, const char *n, hid_t a), (l, o, n, a))
CALL(htri_t, -1, H5Aexists, (hid_t l, const char *n), (l, n))
CALL(hssize_t, -1, H5Sget_simple_extent_npoints, (hid_t s), (s))
CALL(herr_t, -1, H5Fflush, (hid_t f, H5F_scope_t s), (f, s))
#endif
#ifdef H5TRACK_FILES
OPENER(H5Fcreate, (const char *n, unsigned f, hid_t a, hid_t b), (n, f, a, b))
OPENER(H5Fopen, (const char *n, unsigned f, hid_t a), (n, f, a))
OPENER(H5Gcreate2, (hid_t l, const char *n, hid_t a, hid_t b, hid_t c), (l, n, a, b, c))
OPENER(H5Gopen2, (hid_t l, const char *n, hid_t a), (l, n, a))
CALL(herr_t, -1, H5Lcreate_hard, (hid_t a, const char *n, hid_t b, const char *m, hid_t c, hid_t d), (a, n, b, m, c, d))
CALL(herr_t, -1, H5Lget_info, (hid_t a, const char *n, H5L_info_t *i, hid_t p), (a, n, i, p))
CLOSER(H5Fclose) CLOSER(H5Gclose)
#endif
CLOSER(H5Sclose) CLOSER(H5Dclose) CLOSER(H5Pclose) CLOSER(H5Aclose) CLOSER(H5Tclose)

#endif

// The Python interface: every call made from Python and the same call in C++
// on objects of their own, which must stay alike; arrays and lists in both
// directions.
#include <Python.h>
#include <boost/python.hpp>
#include "objs.hpp"
#include <fstream>
namespace bp = boost::python;
extern "C" PyObject *PyInit_nuSQuIDS();

static bp::object ns; // the namespace the calls are made in
static std::string error() { // the Python error which is pending
  PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
  std::string s = t ? ((PyTypeObject *)t)->tp_name : "none"; if (v) { PyObject *x = PyObject_Str(v); if (x) { s += vc::cat(": ", PyUnicode_AsUTF8(x)); Py_DECREF(x); } }
  Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); PyErr_Clear(); return s;
}
static bp::object run(std::string const &s, bool expr = true) {
  PyObject *d = ns.ptr(); PyObject *r = PyRun_String(s.c_str(), expr ? Py_eval_input : Py_file_input, d, d);
  if (!r) throw std::runtime_error(error());
  return bp::object(bp::handle<>(r));
}
static void exec(std::string const &s) { run(s, false); }
static long refs(bp::object const &o) { return Py_REFCNT(o.ptr()); }

// ---- arrays
template <unsigned D> static void flat(marray<double, D> const &a, V &v, std::vector<long> &s) { for (unsigned i = 0; i < D; i++) s.push_back(a.extent(i)); for (double x : a) v.push_back(x); }
template <unsigned D> static bool take(bp::object const &o, V &v, std::vector<long> &s) { bp::extract<marray<double, D>> x(o); if (!x.check()) return false; flat<D>(x(), v, s); return true; }
static bool take(unsigned d, bp::object const &o, V &v, std::vector<long> &s) { switch (d) { case 1: return take<1>(o, v, s); case 2: return take<2>(o, v, s); case 3: return take<3>(o, v, s); default: return take<4>(o, v, s); } }
static V doubles(bp::object const &l) { V v; for (long i = 0, n = bp::len(l); i < n; i++) v.push_back(bp::extract<double>(l[i])); return v; }
static const char *TYPES[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "longlong", "ulonglong", "float16", "longdouble", "complex128", "object", "U5", "M8[s]", "f8,f8"};
static const int GOOD = 11, NTYPES = 20;
static void array(std::string const &expr, int type, std::string const &how) {
  if (!vc::begin()) return;
  std::string id = vc::cat("array of ", TYPES[type], " ", expr, " ", how);
  try {
    exec("a = make(" + expr + ", '" + TYPES[type] + "', " + how + ")");
    bp::object a = ns["a"]; long was = refs(a), tw = refs(bp::object(a.attr("dtype"))); int nd = bp::extract<int>(a.attr("ndim"));
    for (unsigned d = 1; d <= 4; d++) {
      V v; std::vector<long> s; bool ok = take(d, a, v, s); vc::transition();
      CK("py:error", !PyErr_Occurred(), id, ": a Python error is left pending: ", error());
      CK("py:references", refs(a) == was && std::labs(refs(bp::object(a.attr("dtype"))) - tw) < 1, id, ": ", refs(a), " references instead of ", was);
      if (type >= GOOD || (int)d != nd) { CK("py:refused", !ok || type >= GOOD, id, ": taken as an array of rank ", d); if (type < GOOD || !ok) continue; }
      CK("py:accepted", ok, id, ": not taken as an array of rank ", d); if (!ok) continue;
      V w = doubles(run("[float(x) for x in a.astype('f8').flatten(order='C')]")); std::vector<long> sh; for (int i = 0; i < nd; i++) sh.push_back(bp::extract<long>(a.attr("shape")[i]));
      CK("py:shape", s == sh && v.size() == w.size(), id, ": wrong shape");
      for (size_t i = 0; i < v.size() && i < w.size(); i++) CK("py:value", bits(v[i], w[i]), id, ": element ", i, " is ", v[i], " instead of ", w[i]);
    }
    bp::object same = run("np.array_equal(a, make(" + expr + ", '" + TYPES[type] + "', " + how + "))"); CK("py:untouched", bp::extract<bool>(same), id, ": the array was changed");
    vc::state(id); vc::outcome(vc::cat(nd, TYPES[type]));
  } catch (std::exception &e) { vc::fail("py:exception", id + ": " + e.what()); } catch (bp::error_already_set &) { vc::fail("py:exception", id + ": " + error()); }
}
template <unsigned D> static void back(std::vector<size_t> s) {
  if (!vc::begin()) return;
  std::string id = "array"; for (size_t x : s) id += vc::cat(" ", x); id += " to Python";
  try {
    marray<double, D> a; a.resize(s); double x = -3; for (double &y : a) y = x = x * 1.3 + .7; V v(a.begin(), a.end());
    ns["b"] = bp::object(a); vc::transition(); bp::object o = ns["b"]; CK("py:references", refs(o) == 2, id, ": ", refs(o), " references");
    CK("py:shape", bp::extract<bool>(run("type(b) is np.ndarray and b.dtype == np.dtype('f8') and b.flags.c_contiguous and b.flags.writeable and b.flags.owndata")), id, ": not a plain array of doubles");
    V w = doubles(run("b.flatten().tolist()")); std::vector<size_t> t; for (unsigned i = 0; i < (unsigned)bp::extract<int>(o.attr("ndim")); i++) t.push_back(bp::extract<size_t>(o.attr("shape")[i]));
    CK("py:shape", t == s && w.size() == v.size(), id, ": wrong shape"); for (size_t i = 0; i < v.size() && i < w.size(); i++) CK("py:value", bits(v[i], w[i]), id, ": element ", i, " is ", w[i], " instead of ", v[i]);
    exec("b += 1"); size_t i = 0; for (double y : a) CK("py:copied", bits(y, v[i++]), id, ": changed through the Python array");
    vc::state(id);
  } catch (std::exception &e) { vc::fail("py:exception", id + ": " + e.what()); } catch (bp::error_already_set &) { vc::fail("py:exception", id + ": " + error()); }
}
// ---- lists
static void list(std::string const &expr, int want) { // 0: refused, 1: numbers, 2: raises
  if (!vc::begin()) return;
  std::string id = "list " + expr;
  try {
    ns["a"] = run(expr); bp::object a = ns["a"]; long was = refs(a); bp::extract<V> x(a); bool ok = x.check(); vc::transition(); CK("py:error", !PyErr_Occurred(), id, ": a Python error is left pending: ", error());
    CK("py:list", ok == (want > 0), id, ok ? ": taken as numbers" : ": not taken as numbers");
    if (ok && want == 1) { V v = x(), w = doubles(run("[float(x) for x in " + expr + "]")); CK("py:list", v.size() == w.size(), id, ": ", v.size(), " numbers"); for (size_t i = 0; i < v.size() && i < w.size(); i++) CK("py:value", bits(v[i], w[i]), id, ": number ", i, " is ", v[i], " instead of ", w[i]);
      ns["b"] = bp::object(v); V z = doubles(ns["b"]); CK("py:list", bp::extract<bool>(run("type(b) is list")) && z == v && refs(ns["b"]) <= 3, id, ": back in Python ", refs(ns["b"]), " references"); }
    if (ok && want == 2) { bool th = false; try { x(); } catch (bp::error_already_set &) { th = true; error(); } CK("py:list", th, id, ": taken although its elements raise"); }
    CK("py:references", refs(a) == was, id, ": ", refs(a), " references instead of ", was); vc::state(id);
  } catch (std::exception &e) { vc::fail("py:exception", id + ": " + e.what()); } catch (bp::error_already_set &) { vc::fail("py:exception", id + ": " + error()); }
}
static void mask(std::string const &expr, int want) {
  if (!vc::begin()) return;
  std::string id = "mask " + expr;
  try {
    ns["a"] = run(expr); bp::object a = ns["a"]; long was = refs(a); typedef std::vector<bool> B; bp::extract<B> x(a); bool ok = x.check(); vc::transition(); CK("py:error", !PyErr_Occurred(), id, ": a Python error is left pending: ", error());
    CK("py:mask", ok == (want > 0), id, ok ? ": taken" : ": not taken");
    if (ok && want == 1) { B v = x(); CK("py:error", !PyErr_Occurred(), id, ": a Python error is left pending: ", error()); V w = doubles(run("[float(bool(x)) for x in " + expr + "]")); CK("py:mask", v.size() == w.size(), id, ": ", v.size(), " values"); for (size_t i = 0; i < v.size() && i < w.size(); i++) CK("py:mask", v[i] == (w[i] != 0), id, ": value ", i); }
    if (ok && want == 2) { bool th = false; try { x(); } catch (bp::error_already_set &) { th = true; error(); } CK("py:mask", th && !PyErr_Occurred(), id, ": taken although its elements raise ", error()); }
    CK("py:references", refs(a) == was, id, ": ", refs(a), " references instead of ", was); vc::state(id);
  } catch (std::exception &e) { vc::fail("py:exception", id + ": " + e.what()); } catch (bp::error_already_set &) { vc::fail("py:exception", id + ": " + error()); }
}
static std::string VERIF_EARTH() { return vc::cat(vc::C().tmp, "/py_earth.", getpid(), ".dat"); }
static const char VERIF_EARTH_TEXT[] = "0 13 .466\n.2 12 .466\n.5 10.9 .467\n.6 5 .49\n.9 3.5 .495\n1 2.6 .5\n";
static const char VERIF_SUN_TEXT[] = "0 0.002 0 150 0 0 0.36 0 0 0 0 0\n0 0.1 0 80 0 0 0.4 0 0 0 0 0\n0 0.25 0 20 0 0 0.6 0 0 0 0 0\n0 0.5 0 1.3 0 0 0.71 0 0 0 0 0\n0 0.8 0 0.1 0 0 0.73 0 0 0 0 0\n0 1 0 0.001 0 0 0.74 0 0 0 0 0\n";
#include "pycalls.hpp"
int main(int argc, char **argv) {
  vc::init(argc, argv);
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONMALLOC", "malloc", 0); setenv("OPENBLAS_NUM_THREADS", "1", 1);
  PyImport_AppendInittab("nuSQuIDS", PyInit_nuSQuIDS); Py_InitializeEx(0);
  try {
    ns = bp::import("__main__").attr("__dict__");
    exec("import sys\nsys.path.insert(0, '" PYSITE "')\nimport numpy as np\nimport nuSQuIDS as ns\nimport itertools\n");
    exec(R"(
def make(shape, t, how):
    n = int(np.prod(shape)); i = np.arange(n)
    v = (i % 3 == 1) if t == 'bool' else (i * 37 + 11) % 120 if t[0] in 'iul' and t != 'longdouble' else i * 1.37 + .1
    v = np.asarray(v)
    if t in ('int64', 'longlong'): v = v.astype('i8') * (2**55 + 12345677) * np.where(i % 2, 1, -1)
    elif t in ('uint64', 'ulonglong'): v = v.astype('u8') * np.uint64(2**57 - 987654321)
    elif t == 'uint32': v = v * 35000000
    elif t == 'int32': v = v * 17000000 * np.where(i % 2, 1, -1)
    elif t == 'int16': v = v * 270 * np.where(i % 2, 1, -1)
    elif t == 'uint16': v = v * 540
    elif t == 'uint8': v = v * 2
    elif t == 'int8': v = v * np.where(i % 2, 1, -1)
    elif t in ('float32', 'float64'): v = v * np.where(i % 2, 1, -1) * 10.0**(i % 7 - 3)
    a = (v * 1e9).astype('i8').astype(t) if t == 'M8[s]' else np.array([(x, x) for x in v], dtype=t) if ',' in t else v.astype(t)
    a = a.reshape(shape)
    perm, rev, step, swap, other = how
    if perm:  # memory in another order of the axes
        inv = np.argsort(perm); a = np.ascontiguousarray(a.transpose(perm)).transpose(inv)
    if step:  # every second element of a larger array
        b = np.zeros([s * 2 if step >> k & 1 else s for k, s in enumerate(shape)], dtype=a.dtype); b = b if not perm else np.ascontiguousarray(b.transpose(perm)).transpose(np.argsort(perm))
        sl = tuple(slice(None, None, 2) if step >> k & 1 else slice(None) for k in range(len(shape))); b[...] = 0 if t != 'f8,f8' and t[0] not in 'UM' else b; b[sl] = a; a = b[sl]
    if rev:  # backwards in memory
        sl = tuple(slice(None, None, -1) if rev >> k & 1 else slice(None) for k in range(len(shape))); a = np.array(a[sl], order='K')[sl]
    if swap: a = a.astype(a.dtype.newbyteorder('>'))
    if other == 1:  # not aligned
        raw = np.zeros(a.nbytes + 1, dtype='u1'); b = raw[1:].view(a.dtype).reshape(a.shape) if a.nbytes else a; b[...] = a; a = b
    if other == 2: a.setflags(write=False)
    if other == 3:
        class Sub(np.ndarray): pass
        a = a.view(Sub)
    if other == 4: a = np.broadcast_to(a[:1] if a.ndim else a, a.shape)
    return a
class Bad:
    def __init__(s, n, f): s.n = n; s.f = f
    def __len__(s): return s.n
    def __getitem__(s, i):
        if i >= s.n: raise IndexError(i)
        if i == s.f: raise ValueError('no element')
        return 1.5
class NoLen:
    def __len__(s): raise ValueError('no length')
    def __getitem__(s, i): return 1
class NoBool:
    def __bool__(s): raise ValueError('neither')
class Late:
    # readable once only
    def __init__(s): s.k = 0
    def __len__(s): return 2
    def __getitem__(s, i):
        s.k += 1
        if s.k > 3: raise ValueError('used up')
        if i >= 2: raise IndexError(i)
        return .5
)");
  } catch (std::exception &e) { fprintf(stderr, "setup: %s\n", e.what()); return 99; } catch (bp::error_already_set &) { fprintf(stderr, "setup: %s\n", error().c_str()); return 99; }
  bool th = vc::thorough();
  // every shape, type and layout
  for (int rank = 0; rank <= 5; rank++) {
    std::vector<std::vector<int>> shapes; int lim = rank <= 2 ? 4 : rank == 3 ? 3 : rank == 4 ? 2 : 1; long tot = 1; for (int i = 0; i < rank; i++) tot *= lim;
    for (long c = 0; c < tot; c++) { std::vector<int> s; long x = c; bool z = false; for (int i = 0; i < rank; i++) { s.push_back(rank == 5 ? 1 : x % lim + (rank == 4)); x /= lim; z = z || !s.back(); } shapes.push_back(s); (void)z; }
    if (rank == 3) { shapes.push_back({2, 3, 4}); shapes.push_back({0, 3, 2}); } if (rank == 4) { shapes.push_back({2, 3, 2, 3}); shapes.push_back({2, 0, 2, 3}); shapes.push_back({3, 1, 4, 2}); }
    for (auto &s : shapes) {
      std::string e = "("; for (int x : s) e += vc::cat(x, ","); e += ")"; std::vector<int> p; for (int i = 0; i < rank; i++) p.push_back(i);
      bool rich = rank && (th || rank < 3 || s[0] > 1 || s.back() > 1);
      for (int t = 0; t < NTYPES; t++) {
        auto go = [&](std::string perm, int rev, int step, int swap, int other) { array(e, t, vc::cat("(", perm, ", ", rev, ", ", step, ", ", swap, ", ", other, ")")); };
        go("None", 0, 0, 0, 0); if (t != 16) go("None", 0, 0, 1, 0); for (int o = 1; o <= 4; o++) if (o != 1 || t != 16) if (o != 4 || rank) go("None", 0, 0, 0, o);
        if (!rich || t == 16) continue;
        if (!th && t != 0 && t != 4 && t != 9 && t != 10 && rank > 1) continue;
        auto q = p; do { if (q == p) continue; std::string x = "("; for (int i : q) x += vc::cat(i, ","); go(x + ")", 0, 0, 0, 0); go(x + ")", 1, (1 << rank) - 1, t % 2, t == 10); } while (std::next_permutation(q.begin(), q.end()));
        for (int r = 0; r < 1 << rank; r++) for (int st = 0; st < 1 << rank; st++) if (r || st) { if (!th && rank > 2 && r && st && r != st) continue; go("None", r, st, 0, 0); if (th || r == st) go("None", r, st, 1, 0); }
      }
    }
  }
  for (size_t i = 0; i < 5; i++) { back<1>({i}); for (size_t j = 0; j < 4; j++) { back<2>({i, j}); for (size_t l = 0; l < 4; l++) { back<3>({i, j, l}); for (size_t m = 0; m < 3; m++) back<4>({i, j, l, m}); } } }
  // lists of numbers
  for (std::string s : {"[]", "()", "[1.5]", "(1.5,)", "[1, 2.5, True]", "range(0)", "range(5)", "range(7, -3, -2)", "[1e308, -1e-308, float('inf')]", "np.array([1.5, 2.5])", "np.array([])", "[np.float64(2.5), 3]", "[.1 * i for i in range(100)]", "(-0.0, 2**53 + 1)"}) list(s, 1);
  for (std::string s : {"[1, 'a']", "'12'", "b'12'", "[[1.5]]", "[None]", "5", "None", "iter([1.5])", "(x for x in [1.5])", "[1j]", "set()", "Bad(3, 1)", "NoLen()", "object()", "[object()]", "np.array([[1.5, 2.5]])", "np.array(['a'])"}) list(s, 0);
  list("Late()", 2); list("Bad(3, 5)", 1);
  for (std::string s : {"[]", "()", "[True]", "[True, False, False]", "(1, 0, 2.5, '', 'a', None)", "np.array([True, False])", "[[], [1]]", "range(3)", "Bad(3, 5)", "[False] * 70"}) mask(s, 1);
  for (std::string s : {"None", "5", "{}", "set()", "iter([True])", "object()"}) mask(s, 0);
  for (std::string s : {"Bad(3, 1)", "Bad(3, 0)", "NoLen()", "[True, NoBool()]", "(NoBool(),)", "[np.array([1, 2])]"}) mask(s, 2);
  calls();
  return vc::finish();
}

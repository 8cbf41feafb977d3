// The Python binding: interfaces/python/l1cPy.c inside an embedded interpreter.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include "scen.h"
#include "rt.h"
#include <algorithm>
#include <math.h>
#include <set>

extern "C" PyObject* PyInit__l1cPy_module(void);

namespace sim {
static int py_mode; // 0 nothing fails, 1 the nth request, 2 random
static u64 py_a, py_seen;
static double py_p;
static bool py_fault(const char* kind) {
  if (!rt_active) return false;
  u64 k = py_seen++;
  bool f = injected(S_PY, [&](Rng& r) -> u64 { return py_mode == 1 ? k == py_a : py_mode == 2 ? r.chance(py_p) : 0; }, nullptr);
  if (f) {
    fault_fired(kind);
    PyErr_NoMemory();
  }
  return f;
}
// ------------------------------------------------------------------ the interpreter's side of the seam
static void* table[320];
typedef PyObject* (*newfn)(PyTypeObject*, int, npy_intp const*, int, npy_intp const*, void*, int, int, PyObject*);
typedef PyObject* (*anyfn)(PyObject*, PyArray_Descr*, int, int, int, PyObject*);
static newfn real_new;
static anyfn real_any;
static PyObject* my_new(PyTypeObject* t, int nd, npy_intp const* d, int type, npy_intp const* st, void* data, int isz, int fl, PyObject* o) {
  if (py_fault("numpy-array-fails")) return nullptr;
  return real_new(t, nd, d, type, st, data, isz, fl, o);
}
static PyObject* my_any(PyObject* o, PyArray_Descr* d, int lo, int hi, int fl, PyObject* c) {
  if (py_fault("numpy-conversion-fails")) {
    Py_XDECREF(d); // FromAny steals it
    return nullptr;
  }
  return real_any(o, d, lo, hi, fl, c);
}
// numpy's array data lives in the simulated heap, with red zones
static std::set<void*>& np_live() { static std::set<void*> s; return s; }
static void* np_malloc(void*, size_t n) {
  if (py_fault("numpy-memory-fails")) {
    PyErr_Clear();
    return nullptr;
  }
  void* p = heap_alloc(n ? n : 1, 16, T_HARNESS, "numpy array");
  np_live().insert(p);
  return p;
}
static void* np_calloc(void* c, size_t n, size_t s) {
  void* p = np_malloc(c, n * s);
  if (p) memset(p, 0, n * s);
  return p;
}
static void np_free(void*, void* p, size_t) {
  if (!p) return;
  if (!np_live().erase(p)) violation("numpy-free", "the data of a numpy array was released twice");
  heap_free(p, "numpy", T_HARNESS);
}
static void* np_realloc(void* c, void* p, size_t n) {
  void* q = np_malloc(c, n);
  if (q && p) {
    memcpy(q, p, std::min(n, heap_size(p)));
    np_free(c, p, 0);
  }
  return q;
}
static PyDataMem_Handler handler = {"l1c-sim", 1, {nullptr, np_malloc, np_calloc, np_realloc, np_free}};
} // namespace sim
using namespace sim;
extern "C" {
void* sim_PyCapsule_GetPointer(PyObject* c, const char* name) {
  void* p = PyCapsule_GetPointer(c, name);
  if (!p || name) return p;
  memcpy(table, p, 300 * sizeof(void*));
  real_any = (anyfn)table[69];
  real_new = (newfn)table[93];
  table[69] = (void*)my_any;
  table[93] = (void*)my_new;
  return table;
}
PyObject* sim_Py_BuildValue(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  PyObject* o = Py_VaBuildValue(fmt, ap);
  va_end(ap);
  if (o && py_fault("build-value-fails")) {
    Py_DECREF(o); // as the real one: stolen references are gone
    PyErr_NoMemory();
    return nullptr;
  }
  return o;
}
}
namespace sim {
static PyObject* mod;
static void warm() {
  PyConfig cfg;
  PyConfig_InitIsolatedConfig(&cfg);
  cfg.install_signal_handlers = 0;
  cfg.use_hash_seed = 1;
  cfg.hash_seed = 0;
  cfg.site_import = 1;
  cfg.write_bytecode = 0;
  PyConfig_SetString(&cfg, &cfg.program_name, L"/usr/bin/python3");
  PyStatus st = Py_InitializeFromConfig(&cfg);
  PyConfig_Clear(&cfg);
  if (PyStatus_Exception(st) || _import_array() < 0) {
    fprintf(stderr, "cannot start the interpreter\n");
    exit(2);
  }
  mod = PyInit__l1cPy_module();
  if (!mod) {
    PyErr_Print();
    exit(2);
  }
  PyObject* gc = PyImport_ImportModule("gc");
  Py_XDECREF(PyObject_CallMethod(gc, "disable", nullptr));
}
static const char* fn_name[] = {"l1qc_dct", "nesta_dctTV", "breg_anistropic_TV"};
struct PCall {
  int f = 0, mrow = 3, mcol = 3, n = 1, bform = 0, iform = 0;
  u64 data = 0;
  Call c;
  bool bad = false;
  u32 omit = 0; // options left to their defaults
  int how = 0, pick = 0, val = 0;
  std::string str() const {
    char b[200];
    snprintf(b, sizeof b, "%s %dx%d n=%d forms %d,%d", fn_name[f], mrow, mcol, n, bform, iform);
    std::string s = b;
    if (omit) {
      snprintf(b, sizeof b, " default options (mask %x)", omit);
      s += b;
    }
    if (bad) {
      snprintf(b, sizeof b, " with invalid arguments (%d/%d/%d)", how, pick, val);
      s += b;
    }
    return s;
  }
};
static l1c_L1qcOpts l1_of(const PCall& k) {
  l1c_L1qcOpts o = k.c.l1;
  o.lbiter = 0;
  o.cg_verbose = 0;
  o.warm_start_cg = 0;
  o.tau = 0;
  o.verbose = 0;
  // what the binding lets the caller choose must be enough to end quickly
  o.mu = std::max(o.mu, 5.0);
  o.lbtol = std::max(o.lbtol, 1e-2);
  o.newton_max_iter = std::min(o.newton_max_iter, 12);
  o.cg_maxiter = std::min(o.cg_maxiter, 30);
  o.dct_mode = k.data & 64 ? dct2 : dct1;
  if (k.omit & 1) o.epsilon = 0.01;
  if (k.omit & 2) o.mu = 10;
  if (k.omit & 4) o.lbtol = 1e-3;
  if (k.omit & 8) o.newton_tol = 1e-3;
  if (k.omit & 16) o.newton_max_iter = 50;
  if (k.omit & 64) o.l1_tol = 1e-5;
  if (k.omit & 128) o.cg_tol = 1e-8;
  if (k.omit & 256) o.cg_maxiter = 200;
  if (k.omit & 512) o.dct_mode = dct1;
  return o;
}
static PCall gen_p() {
  PCall k;
  k.f = (int)workw({4, 4, 3});
  k.c = gen_call(k.f == 0 ? BIT(K_L1QC_DCT) : k.f == 1 ? BIT(K_NESTA_TV) : BIT(K_BREG));
  k.mrow = k.f == 0 ? (int)work(2, 6) : (int)work(3, 6);
  k.mcol = k.f == 0 ? (int)work(2, 6) : (int)work(3, 6);
  if (workp(0.01)) { // a large problem, stopped early
    k.mrow = (int)work(3, k.f == 1 ? 12 : 60);
    k.mcol = (int)work(3, k.f == 1 ? 12 : 60);
    k.c.l1.lbiter = 1;
    k.c.l1.newton_max_iter = (int)work(1, 3);
    k.c.l1.cg_maxiter = (int)work(1, 8);
    k.c.ne.mu = 0.1;
    k.c.ne.tol = 0.05;
    k.c.a = k.f == 2 ? (int)work(1, 4) : k.c.a;
    
  }
  if (k.f == 0 && workp(0.06)) k.c.l1.epsilon = workp(0.3) ? 0 : -0.5; // no start is feasible
  k.n = (int)work(1, k.mrow * k.mcol);
  k.bform = (int)workw({5, 1, 1, 1, 1});
  k.iform = (int)workw({5, 1, 1});
  k.data = work(1, 0xffffffff);
  k.c.ne.n_continue = std::min(k.c.ne.n_continue, 2);
  if (k.c.ne.tol < 1e-3) k.c.ne.tol = 1e-3;
  k.c.verbose = workp(0.15) ? (int)work(1, 2) : 0;
  k.bad = workp(0.3);
  if (workp(0.2)) {
    k.omit = workp(0.2) ? ~0u : (u32)work(1, 0x3ff) & (u32)work(1, 0x3ff);
    if (k.f == 1 && (k.mrow * k.mcol > 9 || workp(0.7))) k.omit &= ~0x18u; // their defaults mean many iterations
    if (k.mrow > 6 || k.mcol > 6) k.omit = 0;
  }
  if (k.f == 0) {
    k.c.l1 = l1_of(k);
  } else if (k.f == 1) {
    if (k.omit & 1) k.c.p = 0;
    if (k.omit & 2) k.c.q = 0;
    if (k.omit & 4) k.c.ne.sigma = 0.01;
    if (k.omit & 8) k.c.ne.mu = 1e-5;
    if (k.omit & 16) k.c.ne.tol = 1e-5;
    if (k.omit & 32) k.c.ne.n_continue = 5;
    if (k.omit & 128) k.c.b = dct1;
    if (k.omit & 256) k.c.a = analysis;
  } else {
    if (k.omit & 1) k.c.p = 10;
    if (k.omit & 2) k.c.q = 0.001;
    if (k.omit & 4) k.c.a = 1000;
    if (k.omit & 8) k.c.b = 1;
  }
  if (k.bad) {
    k.how = (int)work(0, 11);
    k.pick = (int)work(0, 99);
    k.val = (int)work(0, 9);
  }
  return k;
}
// values that survive every conversion
static std::vector<double> vals(const PCall& k, int n) {
  std::vector<double> v(n);
  Rng r(mix(k.data, 1));
  for (double& x : v) x = k.bform == 4 ? (double)r.below(19) - 9 : ((double)r.below(257) - 128) / 64;
  v[n / 2] += v[n / 2] < 0 ? -1 : 1;
  return v;
}
static void direct(const PCall& k, std::vector<double>& o) {
  int m = k.mrow * k.mcol;
  u64 a0 = lib_alloc_calls(), p0 = fft_plan_calls();
  double st = 0;
  std::vector<double> out;
  if (k.f == 2) {
    Buf f(m), u(m);
    auto v = vals(k, m);
    memcpy(f.p, v.data(), m * 8);
    st = l1c_breg_anistropic_TV(k.mrow, k.mcol, u.p, f.p, k.c.p, k.c.q, k.c.a, k.c.b);
    out = u.vec();
  } else {
    std::vector<int> idx = pick_idx(k.n, m, k.data);
    auto v = vals(k, k.n);
    Buf b(k.n), x(m);
    memcpy(b.p, v.data(), k.n * 8);
    if (k.f == 0) {
      l1c_LBResult lb;
      memset(&lb, 0, sizeof lb);
      lb.l1 = INFINITY;
      st = l1qc_dct(k.mrow, k.mcol, x.p, k.n, b.p, idx.data(), k.c.l1, &lb);
      out = x.vec();
      out.push_back(lb.l1);
      out.push_back(lb.total_newton_iter);
      out.push_back(lb.total_cg_iter);
      out.push_back(lb.status | (int)st);
    } else {
      l1c_AxFuns f;
      l1c_NestaOpts op = k.c.ne;
      op.verbose = 0;
      int s0 = l1c_setup_dctTV_transforms(k.n, k.mrow, k.mcol, k.c.p, k.c.q, (DctMode)k.c.b, (BpMode)k.c.a, idx.data(), &f);
      if (!s0) {
        st = l1c_nesta(m, x.p, k.n, b.p, f, op);
        f.destroy();
      } else
        st = s0;
      out = x.vec();
      out.push_back(st);
    }
  }
  o.push_back(st);
  o.push_back((double)(lib_alloc_calls() - a0));
  o.push_back((double)(fft_plan_calls() - p0));
  o.insert(o.end(), out.begin(), out.end());
}
struct Args {
  std::vector<PyObject*> pos; // owned
  PyObject* kw = nullptr;
  std::vector<std::pair<void*, size_t>> raw; // watched memory
  ~Args() {
    for (PyObject* o : pos) Py_XDECREF(o);
    Py_XDECREF(kw);
  }
};
static PyObject* np_array(int nd, npy_intp* d, int type) { return PyArray_SimpleNew(nd, d, type); }
static PyObject* darray(Args& a, const std::vector<double>& v, int nd, npy_intp* d, int form) {
  size_t n = v.size();
  PyObject* o = nullptr;
  if (form == 1) { // nested lists
    if (nd == 1) {
      o = PyList_New(n);
      for (size_t i = 0; i < n; i++) PyList_SetItem(o, i, PyFloat_FromDouble(v[i]));
    } else {
      o = PyList_New(d[0]);
      for (npy_intp i = 0; i < d[0]; i++) {
        PyObject* r = PyList_New(d[1]);
        for (npy_intp j = 0; j < d[1]; j++) PyList_SetItem(r, j, PyFloat_FromDouble(v[i * d[1] + j]));
        PyList_SetItem(o, i, r);
      }
    }
    return o;
  }
  if (form == 3) { // every second element / column of a larger array
    npy_intp d2[2] = {d[0], d[1]};
    d2[nd - 1] *= 2;
    PyObject* big = np_array(nd, d2, NPY_DOUBLE);
    double* p = (double*)PyArray_DATA((PyArrayObject*)big);
    for (size_t i = 0; i < 2 * n; i++) p[i] = i & 1 ? 1e300 : v[i / 2];
    npy_intp st[2] = {(npy_intp)(d2[nd - 1] * 8), 16};
    if (nd == 1) st[0] = 16;
    o = PyArray_New(&PyArray_Type, nd, d, NPY_DOUBLE, st, p, 0, NPY_ARRAY_WRITEABLE, nullptr);
    PyArray_SetBaseObject((PyArrayObject*)o, big);
    a.raw.push_back({p, 2 * n * 8});
    return o;
  }
  int type = form == 2 ? NPY_FLOAT : form == 4 ? NPY_INT : NPY_DOUBLE;
  o = np_array(nd, d, type);
  void* p = PyArray_DATA((PyArrayObject*)o);
  for (size_t i = 0; i < n; i++)
    if (type == NPY_FLOAT) ((float*)p)[i] = (float)v[i];
    else if (type == NPY_INT) ((int*)p)[i] = (int)v[i];
    else ((double*)p)[i] = v[i];
  a.raw.push_back({p, n * (type == NPY_DOUBLE ? 8 : 4)});
  return o;
}
static PyObject* iarray(Args& a, const std::vector<int>& v, int form) {
  npy_intp d[1] = {(npy_intp)v.size()};
  if (form == 1) {
    PyObject* o = PyList_New(v.size());
    for (size_t i = 0; i < v.size(); i++) PyList_SetItem(o, i, PyLong_FromLong(v[i]));
    return o;
  }
  int type = form == 2 ? NPY_SHORT : form == 3 ? NPY_LONG : NPY_INT;
  PyObject* o = np_array(1, d, type);
  void* p = PyArray_DATA((PyArrayObject*)o);
  for (size_t i = 0; i < v.size(); i++)
    if (type == NPY_SHORT) ((short*)p)[i] = (short)v[i];
    else if (type == NPY_LONG) ((long*)p)[i] = v[i];
    else ((int*)p)[i] = v[i];
  a.raw.push_back({p, v.size() * (type == NPY_SHORT ? 2 : type == NPY_LONG ? 8 : 4)});
  return o;
}
static void kwf(Args& a, const char* k, double v) { PyObject* o = PyFloat_FromDouble(v); PyDict_SetItemString(a.kw, k, o); Py_DECREF(o); }
static void kwi(Args& a, const char* k, long v) { PyObject* o = PyLong_FromLong(v); PyDict_SetItemString(a.kw, k, o); Py_DECREF(o); }
static void swap_arg(Args& a, size_t i, PyObject* o) {
  Py_DECREF(a.pos[i]);
  a.pos[i] = o;
}
static void build_args(const PCall& k, Args& a) {
  int m = k.mrow * k.mcol;
  a.kw = PyDict_New();
  if (k.f == 2) {
    npy_intp d[2] = {k.mrow, k.mcol};
    a.pos.push_back(darray(a, vals(k, m), 2, d, k.bform));
    {
      if (!(k.omit & 1)) kwf(a, "mu", k.c.p);
      if (!(k.omit & 2)) kwf(a, "tol", k.c.q);
      if (!(k.omit & 4)) kwi(a, "max_iter", k.c.a);
      if (!(k.omit & 8)) kwi(a, "max_jac_iter", k.c.b);
    }
    return;
  }
  npy_intp d[2] = {k.n, 0};
  a.pos.push_back(PyLong_FromLong(k.mrow));
  a.pos.push_back(PyLong_FromLong(k.mcol));
  a.pos.push_back(darray(a, vals(k, k.n), 1, d, k.bform));
  a.pos.push_back(iarray(a, pick_idx(k.n, m, k.data), k.iform));
  if (k.f == 0) {
    const l1c_L1qcOpts& o = k.c.l1;
    if (!(k.omit & 1)) kwf(a, "epsilon", o.epsilon);
    if (!(k.omit & 2)) kwf(a, "mu", o.mu);
    if (!(k.omit & 4)) kwf(a, "lbtol", o.lbtol);
    if (!(k.omit & 8)) kwf(a, "newton_tol", o.newton_tol);
    if (!(k.omit & 16)) kwi(a, "newton_max_iter", o.newton_max_iter);
    if (!(k.omit & 32)) kwi(a, "verbose", k.c.verbose);
    if (!(k.omit & 64)) kwf(a, "l1_tol", o.l1_tol);
    if (!(k.omit & 128)) kwf(a, "cgtol", o.cg_tol);
    if (!(k.omit & 256)) kwi(a, "cgmaxiter", o.cg_maxiter);
    if (!(k.omit & 512)) kwi(a, "dct_mode", o.dct_mode);
  } else {
    if (!(k.omit & 1)) kwf(a, "alpha_v", k.c.p);
    if (!(k.omit & 2)) kwf(a, "alpha_h", k.c.q);
    if (!(k.omit & 4)) kwf(a, "sigma", k.c.ne.sigma);
    if (!(k.omit & 8)) kwf(a, "mu", k.c.ne.mu);
    if (!(k.omit & 16)) kwf(a, "tol", k.c.ne.tol);
    if (!(k.omit & 32)) kwi(a, "n_continue", k.c.ne.n_continue);
    if (!(k.omit & 64)) kwi(a, "verbose", k.c.verbose);
    if (!(k.omit & 128)) kwi(a, "dct_mode", k.c.b);
    if (!(k.omit & 256)) kwi(a, "bp_mode", k.c.a);
  }
}
static bool spoil(const PCall& k, Args& a) {
  int m = k.mrow * k.mcol;
  switch (k.how) {
  case 0: { // too few
    size_t keep = k.pick % a.pos.size();
    while (a.pos.size() > keep) {
      Py_DECREF(a.pos.back());
      a.pos.pop_back();
    }
    return true;
  }
  case 1: // unknown or ill-typed option
    if (k.pick & 1) kwi(a, "no_such_option", 1);
    else {
      PyObject* o = PyUnicode_FromString("x");
      PyDict_SetItemString(a.kw, k.f == 2 ? "mu" : k.f == 1 ? "sigma" : "epsilon", o);
      Py_DECREF(o);
    }
    return true;
  case 2: { // something that is no array of numbers
    size_t i = k.f == 2 ? 0 : 2 + k.pick % 2;
    if (k.val % 3 == 0) swap_arg(a, i, PyUnicode_FromString("abc"));
    else if (k.val % 3 == 1) swap_arg(a, i, PyDict_New());
    else { Py_INCREF(Py_None); swap_arg(a, i, Py_None); if (k.f == 2 || i == 2) { /* None becomes NaN of no dimension */ } }
    return true;
  }
  case 3: { // wrong number of dimensions
    npy_intp d[2] = {2, 3};
    if (k.f == 2) {
      npy_intp d1[2] = {9, 0};
      swap_arg(a, 0, k.val & 1 ? darray(a, std::vector<double>(9, 1.0), 1, d1, 0) : PyFloat_FromDouble(2.0));
    } else if (k.pick & 1) swap_arg(a, 2, k.val & 1 ? darray(a, std::vector<double>(6, 1.0), 2, d, 0) : PyFloat_FromDouble(2.0));
    else swap_arg(a, 3, PyLong_FromLong(0));
    return true;
  }
  case 4: { // sizes
    if (k.f == 2) {
      npy_intp d[2] = {k.val & 1 ? 2 : 4, k.val & 1 ? 5 : 2};
      swap_arg(a, 0, darray(a, std::vector<double>(d[0] * d[1], 1.0), 2, d, 0));
      return true;
    }
    npy_intp d[2] = {k.n + 1 + k.val % 3, 0};
    if (k.pick & 1) swap_arg(a, 2, darray(a, std::vector<double>(d[0], 1.0), 1, d, 0));
    else swap_arg(a, 3, iarray(a, std::vector<int>(d[0], 0), 0));
    return true;
  }
  case 5: // modes
    if (k.f == 2) return false;
    kwi(a, k.f == 1 && (k.pick & 1) ? "bp_mode" : "dct_mode", k.val < 5 ? -k.val : k.val);
    return true;
  case 6: { // positions outside the image
    if (k.f == 2) return false;
    std::vector<int> v = pick_idx(k.n, m, k.data);
    static const int bad[] = {-1, -2, -1000, 0, 1, 2, 50, 1000, 1000000, 2000000000};
    v[k.pick % k.n] = k.val < 3 ? bad[k.val] : m + bad[k.val];
    if (k.val == 9) v[k.pick % k.n] = 2000000000;
    swap_arg(a, 3, iarray(a, v, k.iform == 2 ? 0 : k.iform));
    return true;
  }
  case 7: { // image size
    if (k.f == 2) return false;
    int r = k.mrow, c = k.mcol;
    switch (k.val % 4) {
    case 0: r = 0; break;
    case 1: c = -c; break;
    case 2: r = -r; c = -c; break;
    case 3: r = 1; c = k.n - 1; break;
    }
    swap_arg(a, 0, PyLong_FromLong(r));
    swap_arg(a, 1, PyLong_FromLong(c));
    return true;
  }
  case 8: // a size that is no number
    if (k.f == 2) return false;
    swap_arg(a, k.pick % 2, k.val & 1 ? PyUnicode_FromString("4") : PyFloat_FromDouble(4.5));
    return true;
  case 9: // no measurements at all
    if (k.f == 2) return false;
    { npy_intp d[2] = {0, 0};
      swap_arg(a, 2, np_array(1, d, NPY_DOUBLE));
      swap_arg(a, 3, np_array(1, d, NPY_INT)); }
    return true;
  case 10: { // positions that are no 32-bit whole numbers
    if (k.f == 2) return false;
    std::vector<int> v = pick_idx(k.n, m, k.data);
    npy_intp d[1] = {k.n};
    int type = k.val % 4 == 0 ? NPY_FLOAT : k.val % 4 == 1 ? NPY_DOUBLE : k.val % 4 == 2 ? NPY_LONG : NPY_CDOUBLE;
    if (k.val >= 8) { // the same as a list
      PyObject* l = PyList_New(k.n);
      for (int i = 0; i < k.n; i++)
        PyList_SetItem(l, i, i != k.pick % k.n ? PyLong_FromLong(v[i]) : k.val == 8 ? PyFloat_FromDouble(v[i] + 0.5) : PyLong_FromLongLong(v[i] + (1LL << 32)));
      swap_arg(a, 3, l);
      return true;
    }
    PyObject* o = np_array(1, d, type);
    void* p = PyArray_DATA((PyArrayObject*)o);
    for (int i = 0; i < k.n; i++) {
      bool odd = i == k.pick % k.n;
      if (type == NPY_FLOAT) ((float*)p)[i] = (float)v[i] + (odd ? 0.5f : 0);
      else if (type == NPY_DOUBLE) ((double*)p)[i] = v[i] + (odd ? 0.5 : 0);
      else if (type == NPY_LONG) ((long*)p)[i] = v[i] + (odd ? 1L << 32 : 0);
      else ((double*)p)[2 * i] = v[i], ((double*)p)[2 * i + 1] = odd ? 1 : 0;
    }
    a.raw.push_back({p, (size_t)k.n * (type == NPY_FLOAT ? 4 : type == NPY_CDOUBLE ? 16 : 8)});
    swap_arg(a, 3, o);
    return true;
  }
  case 11: { // measurements that are no real numbers
    int nd = k.f == 2 ? 2 : 1;
    npy_intp d[2] = {k.f == 2 ? k.mrow : k.n, k.mcol};
    size_t tot = nd == 2 ? (size_t)m : (size_t)k.n;
    PyObject* o = np_array(nd, d, NPY_CDOUBLE);
    double* p = (double*)PyArray_DATA((PyArrayObject*)o);
    for (size_t i = 0; i < tot; i++) p[2 * i] = 1, p[2 * i + 1] = (double)(i % 3) - 1;
    a.raw.push_back({p, tot * 16});
    swap_arg(a, k.f == 2 ? 0 : 2, o);
    return true;
  }
  }
  return false;
}
static u64 raw_hash(const Args& a) {
  u64 h = 7;
  for (auto& r : a.raw) h = mix(h, hash_bytes(r.first, r.second));
  return h;
}
static void c17() {
  // the data of every array of this run lives in the simulated heap
  PyObject* cap = PyCapsule_New(&handler, "mem_handler", nullptr);
  Py_XDECREF(PyDataMem_SetHandler(cap));
  int calls = workp(0.02) ? (int)work(6, 20) : (int)work(1, 3);
  std::vector<PCall> ks;
  std::vector<std::vector<double>> refs;
  u64 allocs = 0, plans = 0;
  for (int i = 0; i < calls; i++) {
    ks.push_back(gen_p());
    std::vector<double> o;
    std::string err;
    if (!fresh([&](std::vector<double>& v) { direct(ks[i], v); }, o, &err)) violation("reference-crash", "the C library itself failed: %s", err.c_str());
    allocs += (u64)o[1] + 2;
    plans += (u64)o[2];
    refs.push_back(o);
  }
  bool faulty = workp(0.65);
  policy_mem();
  if (faulty) {
    Rng& r = policy_rng();
    if (r.chance(0.5)) policy_alloc(allocs);
    if (plans && r.chance(0.25)) policy_fft(plans);
    py_mode = r.chance(0.6) ? 1 + (int)r.below(2) : 0;
    py_a = r.below(calls * 8);
    py_p = 0.1;
  }
  for (int i = 0; i < calls; i++) {
    const PCall& k = ks[i];
    const std::vector<double>& ref = refs[i];
    int m = k.mrow * k.mcol;
    size_t np0 = np_live().size();
    bool err;
    u64 ff;
    {
      bool old = set_faults(false);
      Args a;
      build_args(k, a);
      bool bad = k.bad && spoil(k, a);
      PyErr_Clear();
      PyObject* fn = PyObject_GetAttrString(mod, fn_name[k.f]);
      PyObject* args = PyTuple_New(a.pos.size());
      for (size_t j = 0; j < a.pos.size(); j++) {
        Py_INCREF(a.pos[j]);
        PyTuple_SetItem(args, j, a.pos[j]);
      }
      std::vector<Py_ssize_t> rc;
      for (PyObject* o : a.pos) rc.push_back(Py_REFCNT(o));
      Py_ssize_t rkw = Py_REFCNT(a.kw), rargs = Py_REFCNT(args);
      u64 h0 = raw_hash(a), b0 = resources(), f0 = faults_fired();
      size_t np1 = np_live().size();
      bool quiet = i == calls - 1 && workp(0.5);
      set_faults(faulty && !quiet);
      heap_call_begins();
      PyObject* res = PyObject_Call(fn, args, a.kw);
      set_faults(false);
      ff = faults_fired() - f0;
      err = !res;
      std::string what;
      if (PyErr_Occurred()) {
        PyObject* e = PyErr_GetRaisedException();
        what = Py_TYPE(e)->tp_name;
        Py_DECREF(e);
      }
      note("%s%s -> %s, %llu faults", k.str().c_str(), quiet ? " (no faults)" : "", err ? what.c_str() : "ok", (unsigned long long)ff);
      state(mix(k.f * 64 + (bad ? 1 + k.how : 0), err * 2 + (ff > 0)));
      heap_check_canaries();
      if (err && (what.empty() || what == "SystemError")) violation("no-exception", "%s failed without raising an exception", k.str().c_str());
      if (!err && !what.empty()) violation("stray-exception", "%s returned a result and left a %s set", k.str().c_str(), what.c_str());
      if (raw_hash(a) != h0) violation("input-changed", "%s changed its arguments", k.str().c_str());
      if (resources() != b0)
        violation("leak", "%s (%s) left %lld block(s), plan(s) or file(s) behind", k.str().c_str(), err ? "failed" : "succeeded", (long long)(resources() - b0));
      for (size_t j = 0; j < a.pos.size(); j++)
        if (Py_REFCNT(a.pos[j]) != rc[j])
          violation("reference-count", "%s (%s): the reference count of argument %zu went from %zd to %zd", k.str().c_str(), err ? "failed" : "succeeded", j + 1, rc[j], Py_REFCNT(a.pos[j]));
      if (Py_REFCNT(a.kw) != rkw || Py_REFCNT(args) != rargs) violation("reference-count", "%s kept a reference to its argument list", k.str().c_str());
      if (bad) {
        if (!err) violation("accepted", "%s returned without an exception", k.str().c_str());
      } else if (err) {
        if (!ff && (ref[0] == 0 || k.f == 1)) violation("spurious-error", "%s raised %s although nothing failed", k.str().c_str(), what.c_str());
      } else {
        PyObject *arr = res, *extra = nullptr;
        if (k.f != 2) {
          if (!PyTuple_Check(res) || PyTuple_Size(res) != 2) violation("wrong-result", "%s did not return a pair", k.str().c_str());
          if (Py_REFCNT(res) != 1) violation("reference-count", "%s returned a tuple with %zd references", k.str().c_str(), Py_REFCNT(res));
          arr = PyTuple_GetItem(res, 0);
          extra = PyTuple_GetItem(res, 1);
        }
        if (Py_REFCNT(arr) != 1) violation("reference-count", "%s returned an array with %zd references", k.str().c_str(), Py_REFCNT(arr));
        PyArrayObject* x = (PyArrayObject*)arr;
        if (!PyArray_Check(arr) || PyArray_NDIM(x) != 2 || PyArray_DIM(x, 0) != k.mrow || PyArray_DIM(x, 1) != k.mcol || PyArray_TYPE(x) != NPY_DOUBLE ||
            !PyArray_IS_C_CONTIGUOUS(x))
          violation("wrong-result", "%s did not return a %dx%d array of doubles", k.str().c_str(), k.mrow, k.mcol);
        const double* p = (const double*)PyArray_DATA(x);
        bool own = PyArray_CHKFLAGS(x, NPY_ARRAY_OWNDATA) || PyArray_BASE(x);
        if (!own) violation("wrong-result", "%s returned an array over memory nobody owns", k.str().c_str());
        double st = 0;
        if (k.f == 1) {
          if (!PyLong_Check(extra)) violation("wrong-result", "%s returned no status", k.str().c_str());
          st = (double)PyLong_AsLong(extra);
        } else if (k.f == 0) {
          if (!PyDict_Check(extra)) violation("wrong-result", "%s returned no result dictionary", k.str().c_str());
          if (Py_REFCNT(extra) != 1) violation("reference-count", "%s returned a dictionary with %zd references", k.str().c_str(), Py_REFCNT(extra));
          static const char* nm[] = {"l1", "total_newton_iter", "total_cg_iter", "status"};
          for (int q = 0; q < 4; q++) {
            PyObject* v = PyDict_GetItemString(extra, nm[q]);
            if (!v) violation("wrong-result", "%s returned no %s", k.str().c_str(), nm[q]);
            double d = PyFloat_Check(v) ? PyFloat_AsDouble(v) : (double)PyLong_AsLong(v), w = ref[3 + m + q];
            if (q == 3) st = d;
            if (!ff && ref[0] == 0 && memcmp(&d, &w, 8)) violation("wrong-result", "%s returned %s=%.17g, the library gives %.17g", k.str().c_str(), nm[q], d, w);
          }
        }
        bool judged = ff ? st == 0 && ref[0] == 0 : ref[0] == 0;
        if (!ff && st != ref[0]) violation("wrong-result", "%s reports status %g, the library %g", k.str().c_str(), st, ref[0]);
        if (judged && memcmp(p, &ref[3], m * 8)) {
          int q = 0;
          while (q < m && !memcmp(p + q, &ref[3 + q], 8)) q++;
          violation("wrong-result", "%s: entry %d is %.17g, the library gives %.17g", k.str().c_str(), q, p[q], ref[3 + q]);
        }
        digest_d(p, m);
      }
      Py_XDECREF(res);
      if (np_live().size() != np1) violation("leak", "%s (%s) left %lld numpy array(s) behind", k.str().c_str(), err ? "failed" : "succeeded", (long long)(np_live().size() - np1));
      Py_DECREF(args);
      Py_DECREF(fn);
      set_faults(old);
    }
    digest(err);
    if (np_live().size() != np0) violation("sim-error", "the harness itself kept arrays");
  }
}
static Reg r17("C17", c17, warm);
} // namespace sim

// The MATLAB/Octave binding: interfaces/mex against a simulated mx/mex API.
#include "scen.h"
#include "rt.h"
#include <algorithm>
#include <math.h>
#include <setjmp.h>

namespace sim {
enum Cls { X_STRUCT = 2, X_LOGICAL = 3, X_CHAR = 4, X_DOUBLE = 6, X_SINGLE = 7, X_INT32 = 12 };
struct Mx {
  int cls = X_DOUBLE;
  size_t M = 0, N = 0, K = 1; // K: third dimension
  void* data = nullptr;
  std::vector<std::string> fn;
  std::vector<Mx*> fv; // element-major
  bool given = false;  // an argument of the caller
  int64_t dims[3];
};
static std::vector<Mx*> g_all;
static std::vector<void*> g_mem; // mxMalloc blocks, released by the host when the call ends
static jmp_buf g_jmp;
static bool g_in;
static char g_err[256];
static u64 g_printed;
static size_t esize(int c) { return c == X_DOUBLE ? 8 : c == X_SINGLE || c == X_INT32 ? 4 : 1; }
static Mx* mk(int cls, size_t M, size_t N, size_t K = 1) {
  Mx* a = new Mx;
  a->cls = cls;
  a->M = M;
  a->N = N;
  a->K = K;
  if (cls != X_STRUCT) {
    size_t n = M * N * K * esize(cls);
    // the host aligns to its own taste, not to the library's
    a->data = heap_alloc(n ? n : 1, 16, T_HARNESS, "array of the host");
    memset(a->data, 0, n ? n : 1);
  }
  g_all.push_back(a);
  return a;
}
static Mx* scalar(double v) {
  Mx* a = mk(X_DOUBLE, 1, 1);
  *(double*)a->data = v;
  return a;
}
static Mx* text(const char* s) {
  Mx* a = mk(X_CHAR, 1, strlen(s));
  memcpy(a->data, s, strlen(s));
  return a;
}
static void drop(Mx* a) {
  if (a->data) heap_free(a->data, "host array", T_HARNESS);
  delete a;
}
static const Mx* chk(const void* p, const char* what) {
  for (Mx* a : g_all)
    if (a == p) return a;
  violation("host-api", "%s was given %s", what, p ? "something that is not an array" : "no array");
}
static double elem(const Mx* a, size_t i) {
  switch (a->cls) {
  case X_DOUBLE: return ((double*)a->data)[i];
  case X_SINGLE: return ((float*)a->data)[i];
  case X_INT32: return ((int*)a->data)[i];
  case X_STRUCT: return 0;
  }
  return ((unsigned char*)a->data)[i];
}
static void setf(Mx* s, const char* k, Mx* v) {
  for (size_t i = 0; i < s->fn.size(); i++)
    if (s->fn[i] == k) {
      s->fv[i] = v;
      return;
    }
  s->fn.push_back(k);
  s->fv.push_back(v);
}
static Mx* getf(const Mx* s, const char* k) {
  for (size_t i = 0; i < s->fn.size(); i++)
    if (s->fn[i] == k) return s->fv[i];
  return nullptr;
}
[[noreturn]] static void raise_err(const char* id, const char* fmt, va_list ap) {
  if (!g_in) violation("host-api", "an error was raised outside a call");
  vsnprintf(g_err, sizeof g_err, fmt, ap);
  if (!g_err[0]) snprintf(g_err, sizeof g_err, "%s", id);
  longjmp(g_jmp, 1);
}
} // namespace sim
using namespace sim;

#define X(p) chk(p, __func__)
extern "C" {
typedef int64_t mw;
int64_t mxGetM(const void* p) { return X(p)->M; }
int64_t mxGetN(const void* p) { return X(p)->N * X(p)->K; }
int64_t mxGetNumberOfElements(const void* p) { const Mx* a = X(p); return a->M * a->N * a->K; }
int64_t mxGetNumberOfDimensions(const void* p) { return X(p)->K > 1 ? 3 : 2; }
int64_t* mxGetDimensions(const void* p) {
  Mx* a = (Mx*)X(p);
  a->dims[0] = a->M;
  a->dims[1] = a->N;
  a->dims[2] = a->K;
  return a->dims;
}
int mxGetClassID(const void* p) { return X(p)->cls; }
const char* mxGetClassName(const void* p) {
  switch (X(p)->cls) {
  case X_DOUBLE: return "double";
  case X_SINGLE: return "single";
  case X_INT32: return "int32";
  case X_STRUCT: return "struct";
  case X_CHAR: return "char";
  }
  return "logical";
}
double* mxGetPr(const void* p) { return (double*)X(p)->data; }
double* mxGetPi(const void* p) { X(p); return nullptr; }
void* mxGetData(const void* p) { return X(p)->data; }
double* mxGetDoubles(const void* p) { return X(p)->cls == X_DOUBLE ? (double*)X(p)->data : nullptr; }
int* mxGetInt32s(const void* p) { return X(p)->cls == X_INT32 ? (int*)X(p)->data : nullptr; }
char* mxGetChars(const void* p) { return X(p)->cls == X_CHAR ? (char*)X(p)->data : nullptr; }
double mxGetScalar(const void* p) {
  const Mx* a = X(p);
  return a->cls == X_STRUCT || a->M * a->N * a->K == 0 ? NAN : elem(a, 0);
}
bool mxIsDouble(const void* p) { return X(p)->cls == X_DOUBLE; }
bool mxIsSingle(const void* p) { return X(p)->cls == X_SINGLE; }
bool mxIsInt32(const void* p) { return X(p)->cls == X_INT32; }
bool mxIsStruct(const void* p) { return X(p)->cls == X_STRUCT; }
bool mxIsChar(const void* p) { return X(p)->cls == X_CHAR; }
bool mxIsLogical(const void* p) { return X(p)->cls == X_LOGICAL; }
bool mxIsLogicalScalar(const void* p) { const Mx* a = X(p); return a->cls == X_LOGICAL && a->M * a->N * a->K == 1; }
bool mxIsNumeric(const void* p) { int c = X(p)->cls; return c == X_DOUBLE || c == X_SINGLE || c == X_INT32; }
bool mxIsComplex(const void* p) { X(p); return false; }
bool mxIsSparse(const void* p) { X(p); return false; }
bool mxIsCell(const void* p) { X(p); return false; }
bool mxIsEmpty(const void* p) { const Mx* a = X(p); return a->M * a->N * a->K == 0; }
bool mxIsScalar(const void* p) { const Mx* a = X(p); return a->M * a->N * a->K == 1; }
bool mxIsClass(const void* p, const char* n) { return !strcmp(mxGetClassName(p), n); }
bool mxIsNaN(double v) { return v != v; }
bool mxIsInf(double v) { return std::isinf(v); }
bool mxIsFinite(double v) { return std::isfinite(v); }
double mxGetNaN(void) { return NAN; }
double mxGetInf(void) { return INFINITY; }
double mxGetEps(void) { return 2.220446049250313e-16; }
void* mxGetField(const void* p, mw i, const char* k) {
  const Mx* a = X(p);
  if (a->cls != X_STRUCT || i != 0) return nullptr;
  return getf(a, k);
}
int mxGetFieldNumber(const void* p, const char* k) {
  const Mx* a = X(p);
  for (size_t i = 0; i < a->fn.size(); i++) if (a->fn[i] == k) return (int)i;
  return -1;
}
void* mxGetFieldByNumber(const void* p, mw i, int k) {
  const Mx* a = X(p);
  return i == 0 && k >= 0 && (size_t)k < a->fv.size() ? a->fv[k] : nullptr;
}
int mxGetNumberOfFields(const void* p) { return (int)X(p)->fn.size(); }
void mxSetField(void* p, mw i, const char* k, void* v) {
  Mx* a = (Mx*)X(p);
  X(v);
  if (i != 0 || mxGetFieldNumber(p, k) < 0) return; // as the real API: silently nothing
  setf(a, k, (Mx*)v);
}
void mxSetFieldByNumber(void* p, mw i, int k, void* v) {
  Mx* a = (Mx*)X(p);
  X(v);
  if (i == 0 && k >= 0 && (size_t)k < a->fv.size()) a->fv[k] = (Mx*)v;
}
int mxAddField(void* p, const char* k) {
  setf((Mx*)X(p), k, nullptr);
  return mxGetFieldNumber(p, k);
}
int mxGetString(const void* p, char* buf, mw n) {
  const Mx* a = X(p);
  if (a->cls != X_CHAR || n <= 0) return 1;
  size_t len = a->M * a->N, k = std::min<size_t>(len, n - 1);
  memcpy(buf, a->data, k);
  buf[k] = 0;
  return k < len;
}
static void* host_mem(size_t n) {
  void* q = heap_alloc(n ? n : 1, 16, T_HARNESS, "host memory");
  g_mem.push_back(q);
  return q;
}
void* mxMalloc(size_t n) { return host_mem(n); }
void* mxCalloc(size_t n, size_t s) { void* q = host_mem(n * s); memset(q, 0, n * s); return q; }
void mxFree(void* p) {
  if (!p) return;
  auto it = std::find(g_mem.begin(), g_mem.end(), p);
  if (it == g_mem.end()) violation("host-api", "mxFree of memory that does not come from the host");
  g_mem.erase(it);
  heap_free(p, "mxFree", T_HARNESS);
}
void* mxRealloc(void* p, size_t n) {
  void* q = host_mem(n);
  if (p) {
    memcpy(q, p, std::min(heap_size(p), n));
    mxFree(p);
  }
  return q;
}
char* mxArrayToString(const void* p) {
  const Mx* a = X(p);
  if (a->cls != X_CHAR) return nullptr;
  char* q = (char*)host_mem(a->M * a->N + 1);
  memcpy(q, a->data, a->M * a->N);
  q[a->M * a->N] = 0;
  return q;
}
void* mxCreateDoubleMatrix(mw m, mw n, int) { return mk(X_DOUBLE, m, n); }
void* mxCreateDoubleScalar(double v) { return scalar(v); }
void* mxCreateNumericMatrix(mw m, mw n, int cls, int) { return mk(cls, m, n); }
void* mxCreateNumericArray(mw nd, const mw* d, int cls, int) { return mk(cls, d[0], nd > 1 ? d[1] : 1, nd > 2 ? d[2] : 1); }
void* mxCreateString(const char* s) { return text(s); }
void* mxCreateLogicalScalar(bool v) { Mx* a = mk(X_LOGICAL, 1, 1); *(bool*)a->data = v; return a; }
void* mxCreateStructMatrix(mw m, mw n, int k, const char** names) {
  Mx* a = mk(X_STRUCT, m, n);
  for (int i = 0; i < k; i++) setf(a, names[i], nullptr);
  return a;
}
void* mxCreateStructArray(mw nd, const mw* d, int k, const char** names) { return mxCreateStructMatrix(d[0], nd > 1 ? d[1] : 1, k, names); }
void mxDestroyArray(void* p) {
  if (!p) return;
  Mx* a = (Mx*)X(p);
  if (a->given) violation("host-api", "an argument of the caller was destroyed");
  g_all.erase(std::find(g_all.begin(), g_all.end(), a));
  drop(a);
}
void* mxDuplicateArray(const void* p) {
  const Mx* a = X(p);
  Mx* b = mk(a->cls, a->M, a->N, a->K);
  if (a->data) memcpy(b->data, a->data, a->M * a->N * a->K * esize(a->cls));
  b->fn = a->fn;
  b->fv = a->fv;
  return b;
}
int mexPrintf(const char* fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  g_printed++;
  tick(5);
  return k;
}
void mexErrMsgIdAndTxt(const char* id, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  raise_err(id, fmt, ap);
}
void mexErrMsgTxt(const char* s) { mexErrMsgIdAndTxt("error", "%s", s); }
void mexWarnMsgTxt(const char*) { g_printed++; }
void mexWarnMsgIdAndTxt(const char*, const char*, ...) { g_printed++; }
const char* mexFunctionName(void) { return "mexFunction"; }
void mexLock(void) {}
void mexUnlock(void) {}
int mexIsLocked(void) { return 0; }
int mexAtExit(void (*)(void)) { return 0; }

void mexFunction_l1qc_dct_mex(int, void**, int, const void**);
void mexFunction_nesta_dctTV_mex(int, void**, int, const void**);
void mexFunction_breg_anistropic_TV_mex(int, void**, int, const void**);
}

namespace sim {
typedef void (*mexfn)(int, void**, int, const void**);
static const char* fn_name[] = {"l1qc_dct", "nesta_dctTV", "breg_anistropic_TV"};
static mexfn fn_ptr[] = {mexFunction_l1qc_dct_mex, mexFunction_nesta_dctTV_mex, mexFunction_breg_anistropic_TV_mex};
struct MCall {
  int f = 0, mrow = 1, mcol = 1, n = 1;
  u64 data = 0;
  Call c; // options
  int nlhs = 1;
  bool bad = false;
  int how = 0, pick = 0, val = 0;
  std::string str() const {
    char b[200];
    snprintf(b, sizeof b, "%s %dx%d n=%d nlhs=%d%s", fn_name[f], mrow, mcol, n, nlhs, "");
    std::string s = b;
    if (bad) {
      snprintf(b, sizeof b, " with invalid arguments (%d/%d/%d)", how, pick, val);
      s += b;
    }
    return s;
  }
};
static MCall gen_m() {
  MCall k;
  k.f = (int)workw({4, 4, 3});
  k.c = gen_call(k.f == 0 ? BIT(K_L1QC_DCT) : k.f == 1 ? BIT(K_NESTA_TV) : BIT(K_BREG));
  k.mrow = k.f == 0 ? (int)work(1, 6) : (int)work(3, 6);
  k.mcol = k.f == 0 ? (int)work(1, 6) : (int)work(3, 6);
  int m = k.mrow * k.mcol;
  if (k.f == 0 && m < 3) k.mrow = 3, m = k.mrow * k.mcol;
  if (workp(0.01)) { // a large problem, stopped early
    k.mrow = (int)work(3, k.f == 1 ? 12 : 60);
    k.mcol = (int)work(3, k.f == 1 ? 12 : 60);
    k.c.l1.lbiter = 1;
    k.c.l1.newton_max_iter = (int)work(1, 3);
    k.c.l1.cg_maxiter = (int)work(1, 8);
    k.c.ne.mu = 0.1;
    k.c.ne.tol = 0.05;
    k.c.a = k.f == 2 ? (int)work(1, 4) : k.c.a;
    m = k.mrow * k.mcol;
  }
  if (k.f == 0 && workp(0.06)) k.c.l1.epsilon = workp(0.3) ? 0 : -0.5; // no start is feasible
  k.n = (int)work(2, m - 1);
  k.data = work(1, 0xffffffff);
  k.nlhs = k.f == 1 ? 2 : k.f == 0 ? (int)work(1, 2) : 1;
  k.c.ne.n_continue = std::min(k.c.ne.n_continue, 2);
  if (k.c.ne.tol < 1e-3) k.c.ne.tol = 1e-3;
  k.c.verbose = workp(0.15) ? (int)work(1, 2) : 0;
  k.bad = workp(0.35);
  if (k.bad) {
    k.how = (int)work(0, 11);
    k.pick = (int)work(0, 99);
    k.val = (int)work(0, 9);
  }
  return k;
}
static std::vector<double> img(const MCall& k, int n) {
  std::vector<double> v = dvec(n, mix(k.data, 1));
  v[n / 2] += v[n / 2] < 0 ? -1 : 1;
  return v;
}
// what the C library gives for the same arguments: status, result, extras
static void direct(const MCall& k, std::vector<double>& o) {
  int m = k.mrow * k.mcol;
  u64 a0 = lib_alloc_calls(), p0 = fft_plan_calls();
  double st = 0;
  std::vector<double> out;
  if (k.f == 2) {
    Buf f(m), u(m);
    auto v = img(k, m);
    memcpy(f.p, v.data(), m * 8);
    st = l1c_breg_anistropic_TV(k.mcol, k.mrow, u.p, f.p, k.c.p, k.c.q, k.c.a, 1);
    out = u.vec();
  } else {
    std::vector<int> idx = pick_idx(k.n, m, k.data);
    auto v = img(k, k.n);
    Buf b(k.n), x(std::max(m, 3 * m)), z(m);
    memcpy(b.p, v.data(), k.n * 8);
    if (k.f == 0) {
      l1c_LBResult lb;
      memset(&lb, 0, sizeof lb);
      lb.l1 = INFINITY;
      l1c_L1qcOpts op = k.c.l1;
      op.dct_mode = dct1;
      op.verbose = 0;
      op.cg_verbose = 0;
      st = l1qc_dct(k.mrow, k.mcol, x.p, k.n, b.p, idx.data(), op, &lb);
      out.assign(x.p, x.p + m);
      out.push_back(lb.l1);
      out.push_back(lb.total_newton_iter);
      out.push_back(lb.total_cg_iter);
    } else {
      l1c_AxFuns f;
      l1c_NestaOpts op = k.c.ne;
      op.verbose = 0;
      st = l1c_setup_dctTV_transforms(k.n, k.mrow, k.mcol, k.c.p, k.c.q, (DctMode)k.c.b, (BpMode)k.c.a, idx.data(), &f);
      if (!st) {
        st = l1c_nesta(m, x.p, k.n, b.p, f, op);
        f.Mx(x.p, z.p);
        f.destroy();
      }
      out = z.vec();
    }
  }
  o.push_back(st);
  o.push_back((double)(lib_alloc_calls() - a0));
  o.push_back((double)(fft_plan_calls() - p0));
  o.insert(o.end(), out.begin(), out.end());
}
static Mx* vecarg(const std::vector<double>& v, bool col) {
  Mx* a = col ? mk(X_DOUBLE, v.size(), 1) : mk(X_DOUBLE, 1, v.size());
  for (size_t i = 0; i < v.size(); i++) ((double*)a->data)[i] = v[i];
  return a;
}
static std::vector<Mx*> args_of(const MCall& k) {
  int m = k.mrow * k.mcol;
  std::vector<Mx*> a;
  if (k.f == 2) {
    Mx* f = mk(X_DOUBLE, k.mrow, k.mcol);
    auto v = img(k, m);
    memcpy(f->data, v.data(), m * 8);
    a = {f, scalar(k.c.p), scalar(k.c.q), scalar(k.c.a)};
    return a;
  }
  std::vector<int> idx = pick_idx(k.n, m, k.data);
  std::vector<double> di;
  for (int i : idx) di.push_back(i + 1);
  Mx* o = mk(X_STRUCT, 1, 1);
  if (k.f == 0) {
    const l1c_L1qcOpts& p = k.c.l1;
    setf(o, "epsilon", scalar(p.epsilon));
    setf(o, "mu", scalar(p.mu));
    setf(o, "tau", scalar(p.tau));
    setf(o, "newton_tol", scalar(p.newton_tol));
    setf(o, "lbtol", scalar(p.lbtol));
    setf(o, "l1_tol", scalar(p.l1_tol));
    setf(o, "cgtol", scalar(p.cg_tol));
    setf(o, "warm_start_cg", scalar(p.warm_start_cg));
    setf(o, "verbose", scalar(k.c.verbose));
    setf(o, "newton_max_iter", scalar(p.newton_max_iter));
    setf(o, "cgmaxiter", scalar(p.cg_maxiter));
    setf(o, "lbiter", scalar(p.lbiter));
  } else {
    const l1c_NestaOpts& p = k.c.ne;
    setf(o, "sigma", scalar(p.sigma));
    setf(o, "verbose", scalar(k.c.verbose));
    setf(o, "mu", scalar(p.mu));
    setf(o, "tol", scalar(p.tol));
    setf(o, "n_continue", scalar(p.n_continue));
    setf(o, "alpha_v", scalar(k.c.p));
    setf(o, "alpha_h", scalar(k.c.q));
    setf(o, "dct_mode", scalar(k.c.b));
    setf(o, "bp_mode", text(k.c.a == (int)synthesis ? "synthesis" : "analysis"));
  }
  bool col = (k.data & 16) != 0;
  a = {scalar(k.mrow), scalar(k.mcol), vecarg(img(k, k.n), col), vecarg(di, col ^ ((k.data & 32) != 0)), o};
  return a;
}
static Mx* wrong_class(Mx* a, int v) {
  static const int cs[] = {X_INT32, X_SINGLE, X_LOGICAL, X_CHAR};
  if (v % 5 == 4) {
    Mx* b = mk(X_STRUCT, 1, 1);
    setf(b, "epsilon", scalar(1));
    return b;
  }
  int c = cs[v % 5 % 4];
  Mx* b = mk(c, a->M, a->N, a->K);
  for (size_t i = 0; i < a->M * a->N; i++) {
    double e = a->cls == X_STRUCT ? 1 : elem(a, i);
    if (c == X_INT32) ((int*)b->data)[i] = (int)e;
    else if (c == X_SINGLE) ((float*)b->data)[i] = (float)e;
    else ((char*)b->data)[i] = 1;
  }
  return b;
}
// make the arguments invalid; false when this kind does not apply here
static bool spoil(const MCall& k, std::vector<Mx*>& a, int* nlhs) {
  int m = k.mrow * k.mcol, ns = k.f == 2 ? 3 : 2, s0 = k.f == 2 ? 1 : 0; // scalars s0 .. s0+ns-1
  switch (k.how) {
  case 0: a.resize(k.pick % a.size()); return true;                               // too few inputs
  case 1: *nlhs = k.f == 1 ? k.pick % 2 : 0; return true;                         // too few outputs
  case 2: { size_t i = k.pick % (k.f == 2 ? 4 : 5);                               // wrong class
      if (a[i]->cls == X_STRUCT && k.val % 5 == 4) return false;
      a[i] = wrong_class(a[i], k.val);
      return true; }
  case 3: { int i = s0 + k.pick % ns;                                             // scalar expected
      a[i] = k.val & 1 ? mk(X_DOUBLE, 0, k.val & 2 ? 0 : 1) : mk(X_DOUBLE, 1 + (k.val & 2), 2);
      for (size_t j = 0; j < a[i]->M * a[i]->N; j++) ((double*)a[i]->data)[j] = 4;
      return true; }
  case 4: { // array expected
      int i = k.f == 2 ? 0 : 2 + k.pick % 2;
      switch (k.val % 5) {
      case 0: a[i] = mk(X_DOUBLE, 0, 0); break;
      case 1: a[i] = scalar(1); break;
      case 2: a[i] = k.f == 2 ? mk(X_DOUBLE, 2, 3 + k.pick % 4) : mk(X_DOUBLE, 2, 2); break;
      case 3: a[i] = k.f == 2 ? mk(X_DOUBLE, 3 + k.pick % 4, 2) : mk(X_DOUBLE, 3, 2); break;
      case 4: a[i] = mk(X_DOUBLE, 3, 4, 2); break;
      }
      for (size_t j = 0; j < a[i]->M * a[i]->N * a[i]->K; j++) ((double*)a[i]->data)[j] = 1;
      return true; }
  case 5: case 6: { // options: field missing or not a scalar double
      if (k.f == 2) return false;
      Mx* o = a[4];
      size_t i = k.pick % o->fn.size();
      bool str = o->fn[i] == "bp_mode";
      if (k.how == 5) {
        o->fn.erase(o->fn.begin() + i);
        o->fv.erase(o->fv.begin() + i);
        return true;
      }
      switch (k.val % 4) {
      case 0: o->fv[i] = wrong_class(scalar(1), 0); break;
      case 1: o->fv[i] = str ? scalar(1) : text("x"); break;
      case 2: o->fv[i] = mk(X_DOUBLE, 0, 0); break;
      case 3: o->fv[i] = mk(X_DOUBLE, 1, 2); break;
      }
      return true; }
  case 7: { // a sampling position outside the image
      if (k.f == 2) return false;
      static const double bad[] = {0, -1, -5, -100000, 1, 2, 17, 1000, 100000, 2000000000};
      double v = bad[k.val];
      if (v > 0) v += m;
      ((double*)a[3]->data)[k.pick % k.n] = v;
      return true; }
  case 8: { // lengths differ
      if (k.f == 2) return false;
      int len = k.val & 1 || k.n < 3 ? k.n + 1 + k.val / 2 : k.n - 1;
      std::vector<double> v(len, 1.0);
      a[2 + k.pick % 2] = vecarg(v, k.val & 4);
      return true; }
  case 9: { // image dimensions
      if (k.f == 2) return false;
      double v[] = {0, -1, -3, (double)-k.mrow};
      switch (k.val % 5) {
      case 4: // both negative: their product is not
        *(double*)a[0]->data = -k.mrow;
        *(double*)a[1]->data = -k.mcol;
        break;
      default: *(double*)a[k.pick % 2]->data = v[k.val % 5];
      }
      return true; }
  case 10: // mode
    if (k.f != 1) return false;
    { static const char* t[] = {"", "synth", "Analysis", "analysis ", "synthesis2", "analysis and more", "dct", "a", "synthesi", "0"};
      setf(a[4], "bp_mode", text(t[k.val]));
      return true; }
  case 11: // not one struct
    if (k.f == 2) return false;
    a[4]->M = 1 + k.val % 3;
    a[4]->N = a[4]->M == 1 ? 2 : 1;
    return true;
  }
  return false;
}
static u64 args_hash(const std::vector<Mx*>& a) {
  u64 h = 1;
  for (Mx* x : a) {
    h = mix(h, x->cls * 131 + x->M * 17 + x->N);
    if (x->data) h = mix(h, hash_bytes(x->data, x->M * x->N * x->K * esize(x->cls)));
    if (x->cls == X_STRUCT) h = mix(h, args_hash(x->fv) + x->fn.size());
  }
  return h;
}
static void mark_given(std::vector<Mx*>& a) {
  for (Mx* x : a) {
    x->given = true;
    if (x->cls == X_STRUCT) mark_given(x->fv);
  }
}
static bool call_mex(int f, int nlhs, void** plhs, int nrhs, const void** prhs) {
  g_err[0] = 0;
  g_in = true;
  bool err = setjmp(g_jmp) != 0;
  if (!err) heap_call_begins(), fn_ptr[f](nlhs, plhs, nrhs, prhs);
  g_in = false;
  return err;
}
static void c18() {
  int calls = workp(0.02) ? (int)work(6, 20) : (int)work(1, 3);
  std::vector<MCall> ks;
  std::vector<std::vector<double>> refs;
  u64 allocs = 0, plans = 0;
  for (int i = 0; i < calls; i++) {
    ks.push_back(gen_m());
    std::vector<double> o;
    std::string err;
    if (!fresh([&](std::vector<double>& v) { direct(ks[i], v); }, o, &err)) violation("reference-crash", "the C library itself failed: %s", err.c_str());
    allocs += (u64)o[1] + 3;
    plans += (u64)o[2];
    refs.push_back(o);
  }
  bool faulty = workp(0.6);
  policy_mem();
  if (faulty) {
    if (policy_rng().chance(0.75) || !plans) policy_alloc(allocs);
    if (plans && policy_rng().chance(0.4)) policy_fft(plans);
  }
  for (int i = 0; i < calls; i++) {
    const MCall& k = ks[i];
    const std::vector<double>& ref = refs[i];
    std::vector<Mx*> a = args_of(k);
    int nlhs = k.nlhs, m = k.mrow * k.mcol;
    bool bad = k.bad && spoil(k, a, &nlhs);
    mark_given(a);
    u64 h0 = args_hash(a), b0 = resources(), out0 = stdout_bytes(), f0 = fired("memory-request-fails") + fired("fft-plan-fails");
    void** plhs = (void**)heap_alloc(8 * std::max(nlhs, 1), 8, T_HARNESS, "plhs");
    const void** prhs = (const void**)heap_alloc(a.empty() ? 1 : 8 * a.size(), 8, T_HARNESS, "prhs");
    for (int j = 0; j < std::max(nlhs, 1); j++) plhs[j] = nullptr;
    for (size_t j = 0; j < a.size(); j++) prhs[j] = a[j];
    bool quiet = i == calls - 1 && workp(0.5);
    bool old = set_faults(faulty && !quiet);
    bool err = call_mex(k.f, nlhs, plhs, (int)a.size(), prhs);
    set_faults(old);
    u64 ff = fired("memory-request-fails") + fired("fft-plan-fails") - f0;
    note("%s%s -> %s%s, %llu faults", k.str().c_str(), quiet ? " (no faults)" : "", err ? "error: " : "ok", err ? g_err : "", (unsigned long long)ff);
    state(mix(k.f * 64 + (bad ? 1 + k.how : 0), err * 2 + (ff > 0)));
    heap_check_canaries();
    if (args_hash(a) != h0) violation("input-changed", "%s changed its arguments", k.str().c_str());
    if (resources() != b0)
      violation("leak", "%s (%s) left %lld block(s), plan(s) or file(s) behind", k.str().c_str(), err ? "raised an error" : "succeeded", (long long)(resources() - b0));
    if (stdout_bytes() != out0) violation("stdout", "%s wrote to standard output: \"%s\"", k.str().c_str(), last_stdout.c_str());
    if (bad) {
      if (!err) violation("accepted", "%s returned without an error", k.str().c_str());
    } else if (err) {
      if (!ff && ref[0] == 0) violation("spurious-error", "%s raised \"%s\" although nothing failed", k.str().c_str(), g_err);
    } else {
      std::vector<size_t> sz = k.f == 0 ? std::vector<size_t>{(size_t)m, 1} : std::vector<size_t>{(size_t)k.mrow, (size_t)k.mcol};
      for (int j = 0; j < nlhs; j++)
        if (!plhs[j]) violation("no-output", "%s returned without an error and without output %d", k.str().c_str(), j + 1);
      Mx* x = (Mx*)chk(plhs[0], "plhs[0]");
      if (x->given) violation("no-output", "%s returned one of its arguments", k.str().c_str());
      if (x->cls != X_DOUBLE || x->M != sz[0] || x->N != sz[1])
        violation("wrong-result", "%s returned a %zux%zu array instead of %zux%zu", k.str().c_str(), x->M, x->N, sz[0], sz[1]);
      // a failure of the solver must be visible
      double st = 0;
      bool has = false;
      if (k.f == 1) {
        Mx* s = (Mx*)chk(plhs[1], "plhs[1]");
        if (s->cls != X_DOUBLE || s->M * s->N != 1) violation("wrong-result", "%s returned no scalar status", k.str().c_str());
        st = elem(s, 0);
        has = true;
      } else if (k.f == 0 && nlhs == 2) {
        Mx* s = (Mx*)chk(plhs[1], "plhs[1]");
        if (s->cls != X_STRUCT) violation("wrong-result", "%s returned no result struct", k.str().c_str());
        static const char* names[] = {"l1", "total_newton_iter", "total_cg_iter"};
        for (int q = 0; q < 3; q++) {
          Mx* v = getf(s, names[q]);
          if (!v || v->cls != X_DOUBLE || v->M * v->N != 1) violation("wrong-result", "%s returned no %s", k.str().c_str(), names[q]);
          double d = elem(v, 0), w = ref[3 + m + q];
          if (!ff && ref[0] == 0 && memcmp(&d, &w, 8)) violation("wrong-result", "%s returned %s=%.17g, the library gives %.17g", k.str().c_str(), names[q], d, w);
        }
        Mx* v = getf(s, "status");
        if (!v || v->M * v->N != 1) violation("wrong-result", "%s returned no status", k.str().c_str());
        st = elem(v, 0);
        has = true;
      }
      if (ff) {
        if (has && st != 0) probe("mex.status-reported");
        else if (ref[0] == 0 && memcmp(x->data, &ref[3], m * 8))
          violation("wrong-result", "%s succeeded after a failed request with another result", k.str().c_str());
      } else {
        if (has && st != ref[0]) violation("wrong-result", "%s reports status %g, the library %g", k.str().c_str(), st, ref[0]);
        if (ref[0] == 0 && memcmp(x->data, &ref[3], m * 8)) {
          int q = 0;
          while (q < m && !memcmp((double*)x->data + q, &ref[3 + q], 8)) q++;
          violation("wrong-result", "%s: entry %d is %.17g, the library gives %.17g", k.str().c_str(), q, ((double*)x->data)[q], ref[3 + q]);
        }
      }
      digest_d((double*)x->data, m);
    }
    digest(err);
    for (void* q : g_mem) heap_free(q, "host", T_HARNESS);
    g_mem.clear();
    heap_free(plhs, "host", T_HARNESS);
    heap_free(prhs, "host", T_HARNESS);
    for (Mx* x : g_all) drop(x);
    g_all.clear();
  }
}
static Reg r18("C18", c18);
} // namespace sim

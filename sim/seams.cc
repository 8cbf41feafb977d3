// Seams between the library and its environment: FFT, BLAS, files, clock, output.
#include "rt.h"
#include <errno.h>
#include <fftw3.h>
#include <math.h>
#include <cjson/cJSON.h>
#include <set>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {
// ------------------------------------------------------------------ FFT plans
FftPolicy fft_policy;
struct Plan {
  int rank, n[2];
  double *in, *out;
  fftw_r2r_kind k[2];
  bool live;
  bool undefined = false; // FFTW was cleaned up while it existed
  bool destroys; // planned with permission to overwrite the input
};
static std::vector<Plan*>& plans() { static std::vector<Plan*> v; return v; }
static u64 live_plans, plan_seen;
u64 fft_plan_calls() { return plan_seen; }
u64 fft_live_plans() { return live_plans; }

// FFTW computes the factors for lengths with a large prime once and keeps them, so that later
// plans differ in the last bits according to what was planned before. Such lengths are
// transformed by definition, everything else by the real FFTW.
static bool awkward(int n) {
  for (int f = 2; f <= 31; f++)
    while (n % f == 0) n /= f;
  return n > 1;
}
static void plain_dct(const double* x, double* y, int n, size_t stride, fftw_r2r_kind k) {
  static std::map<int, std::vector<double>> tabs;
  std::vector<double>& c = tabs[n];
  if (c.empty()) {
    c.resize((size_t)4 * n);
    for (size_t i = 0; i < c.size(); i++) c[i] = cos(M_PI * (double)i / (2.0 * n));
  }
  std::vector<double> in(n);
  for (int j = 0; j < n; j++) in[j] = x[j * stride];
  const unsigned M = 4u * n;
  for (int i = 0; i < n; i++) {
    double s = 0;
    unsigned ph = 0, d;
    if (k == FFTW_REDFT10) { // 2 sum x_j cos(pi (2j+1) i / 2n)
      ph = (unsigned)i % M, d = 2u * i % M;
      for (int j = 0; j < n; j++, ph = ph + d >= M ? ph + d - M : ph + d) s += in[j] * c[ph];
      y[i * stride] = 2 * s;
    } else { // x_0 + 2 sum x_j cos(pi j (2i+1) / 2n)
      d = (2u * i + 1) % M, ph = d;
      for (int j = 1; j < n; j++, ph = ph + d >= M ? ph + d - M : ph + d) s += in[j] * c[ph];
      y[i * stride] = in[0] + 2 * s;
    }
  }
}
static bool plain(Plan* p, double* in, double* out) {
  int r = p->rank == 1 ? 1 : p->n[0], c = p->rank == 1 ? p->n[0] : p->n[1];
  if (!awkward(r) && !awkward(c)) return false;
  for (int i = 0; i < p->rank; i++)
    if (p->k[i] != FFTW_REDFT10 && p->k[i] != FFTW_REDFT01) return false;
  for (int i = 0; i < r; i++) plain_dct(in + (size_t)i * c, out + (size_t)i * c, c, 1, p->k[p->rank - 1]);
  if (p->rank == 2)
    for (int j = 0; j < c; j++) plain_dct(out + j, out + j, r, c, p->k[0]);
  return true;
}
static fftw_plan real_plan(Plan* p) {
  static std::map<std::vector<int>, fftw_plan> cache;
  std::vector<int> key = {p->rank, p->n[0], p->n[1], (int)p->k[0], (int)p->k[1], p->in == p->out};
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  size_t N = (size_t)p->n[0] * p->n[1];
  double* a = (double*)fftw_malloc(sizeof(double) * (N + 8));
  double* b = p->in == p->out ? a : (double*)fftw_malloc(sizeof(double) * (N + 8));
  unsigned fl = FFTW_ESTIMATE | FFTW_UNALIGNED | (a != b ? FFTW_PRESERVE_INPUT : 0);
  fftw_plan r = p->rank == 1 ? fftw_plan_r2r_1d(p->n[0], a, b, p->k[0], fl)
                             : fftw_plan_r2r_2d(p->n[0], p->n[1], a, b, p->k[0], p->k[1], fl);
  fftw_free(a);
  if (a != b) fftw_free(b);
  cache[key] = r;
  return r;
}
static Plan* find_plan(void* q, const char* what) {
  for (Plan* p : plans())
    if ((void*)p == q) {
      if (!p->live) violation("destroyed-plan", "%s on an FFT plan that was already destroyed", what);
      if (p->undefined) violation("undefined-plan", "%s on an FFT plan that fftw_cleanup made undefined", what);
      return p;
    }
  violation("bad-plan", "%s on %s", what, q ? "something that is not an FFT plan" : "a NULL FFT plan");
}
static void* make_plan(int rank, int n0, int n1, double* in, double* out, fftw_r2r_kind k0,
                       fftw_r2r_kind k1, unsigned flags) {
  if (n0 <= 0 || n1 <= 0) return nullptr;
  tick(50);
  if (n_alive > 1) yield_point();
  size_t N = (size_t)n0 * n1 * sizeof(double);
  bool overwrites = !(flags & (FFTW_ESTIMATE | FFTW_WISDOM_ONLY));
  range_access(in, N, overwrites, "fftw planner");
  range_access(out, N, overwrites, "fftw planner");
  u64 k = plan_seen++;
  bool f = injected(S_FFT, [&](Rng& r) -> u64 {
    switch (fft_policy.mode) {
    case 1: return k == fft_policy.a;
    case 2: return k >= fft_policy.a;
    case 3: return r.chance(fft_policy.p);
    }
    return 0;
  }, nullptr);
  if (f) {
    fault_fired("fft-plan-fails");
    return nullptr;
  }
  if (overwrites) {
    memset(in, 0, N);
    memset(out, 0, N);
  }
  Plan* p = new Plan();
  p->rank = rank;
  p->n[0] = n0;
  p->n[1] = n1;
  p->in = in;
  p->out = out;
  p->k[0] = k0;
  p->k[1] = k1;
  p->live = true;
  p->destroys = (flags & FFTW_DESTROY_INPUT) && !(flags & FFTW_PRESERVE_INPUT);
  plans().push_back(p);
  live_plans++;
  digest(0x77 + n0 * 31 + n1);
  return p;
}
static void exec_plan(Plan* p, double* in, double* out) {
  size_t N = (size_t)p->n[0] * p->n[1] * sizeof(double);
  tick(20);
  if (n_alive > 1) yield_point();
  range_access(in, N, in == out, "fftw execute");
  range_access(out, N, true, "fftw execute");
  if ((in == out) != (p->in == p->out) || (((uintptr_t)in ^ (uintptr_t)p->in) & 15) ||
      (((uintptr_t)out ^ (uintptr_t)p->out) & 15))
    violation("fft-contract", "FFT plan executed on arrays with another alignment or placement than it was planned for");
  if (!plain(p, in, out)) fftw_execute_r2r(real_plan(p), in, out);
  if (p->destroys && in != out) { // FFTW may leave anything there
    range_access(in, N, true, "fftw execute (input may be destroyed)");
    for (size_t i = 0; i < N / sizeof(double); i++) in[i] = -1.5 * in[i] + 0.25;
  }
}

// ------------------------------------------------------------------ output
std::string last_stdout;
std::string last_hook;
PrintPolicy print_policy;
static u64 n_out, n_err, n_hook;
static std::string* cap;
u64 stdout_bytes() { return n_out; }
u64 stderr_bytes() { return n_err; }
u64 hook_calls() { return n_hook; }
void hook_capture(std::string* to) { cap = to; }
static void out_text(FILE* f, const char* s, size_t n) {
  if (f == stderr) {
    n_err += n;
    return;
  }
  n_out += n;
  last_stdout.assign(s, n < 120 ? n : 120);
}
static int vout(FILE* f, const char* fmt, va_list ap) {
  char buf[2048];
  int k = vsnprintf(buf, sizeof buf, fmt, ap);
  if (!rt_active) { // start-up code of the library
    return k;
  }
  tick(5);
  if (n_alive > 1) yield_point();
  if (k > 0) out_text(f, buf, k < (int)sizeof buf ? k : sizeof buf - 1);
  return k;
}
extern "C" int sim_hook_printf(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  n_hook++;
  tick(5);
  if (n_alive > 1) yield_point();
  last_hook.assign(buf, k > 100 ? 100 : k > 0 ? k : 0);
  if (cap && cap->size() < (1 << 20)) cap->append(buf);
  u64 v = 0;
  if (injected(S_PRINT, [&](Rng& r) -> u64 {
        return print_policy.mode && r.chance(0.3) ? 1 + r.below(4) : 0;
      }, &v)) {
    fault_fired("print-hook");
    switch (v & 3) {
    case 0: return -1;
    case 1: errno = EIO; return -1;
    case 2: return 0;
    case 3: errno = EAGAIN; return 1 << 20;
    }
  }
  return k;
}

// ------------------------------------------------------------------ clock
ClockPolicy clock_policy;
static double now_s = 1.7e9;
static double elapsed;
static u64 n_clock;
u64 clock_reads() { return n_clock; }
double sim_seconds() { return elapsed + (double)steps() * 1e-9; }
static double clock_read() {
  n_clock++;
  u64 v = 0;
  double d = 1e-6;
  if (injected(S_CLOCK, [&](Rng& r) -> u64 {
        if (!clock_policy.mode) return 0;
        return r.chance(0.7) ? 1 + r.below(7) : 0;
      }, &v)) {
    fault_fired("clock-jump");
    static const double jump[8] = {0, 3600, -3600, 86400 * 400.0, -86400 * 400.0, 0.0, -1e-6, 1e8};
    d = jump[v & 7];
  }
  now_s += d;
  if (now_s < 0) now_s = 0;
  elapsed += fabs(d);
  return now_s;
}

// ------------------------------------------------------------------ files
IoPolicy io_policy;
static std::set<FILE*>& open_set() { static std::set<FILE*> s; return s; }
static std::set<FILE*>& err_set() { static std::set<FILE*> s; return s; }
static std::string io_target;
static bool io_mod;
u64 files_open() { return open_set().size(); }
void io_set_target(const char* p) { io_target = p; io_mod = false; }
bool io_target_modified() { return io_mod; }
enum IoOp { IO_OPEN = 0, IO_SEEK, IO_TELL, IO_READ, IO_CLOSE };
// 1: the operation fails; 2: short; 3: the file is truncated first; 4: grown first
static u64 io_fault(IoOp op) {
  u64 v = 0;
  tick(10);
  if (n_alive > 1) yield_point();
  injected(S_IO, [&](Rng& r) -> u64 {
    if (!io_policy.mode || !r.chance(io_policy.p)) return 0;
    switch (op) {
    case IO_OPEN: return 1;
    case IO_SEEK: return 1 + (r.chance(0.5) ? 2 + r.below(2) : 0);
    case IO_TELL: return 1 + (r.chance(0.5) ? 2 + r.below(2) : 0);
    case IO_READ: return 1 + r.below(4);
    default: return 1;
    }
  }, &v);
  if ((v == 3 || v == 4) && !io_target.empty()) {
    struct stat st;
    if (stat(io_target.c_str(), &st) == 0) {
      if (v == 3) {
        if (truncate(io_target.c_str(), st.st_size / 2) == 0) fault_fired("file-truncated");
      } else {
        FILE* f = fopen(io_target.c_str(), "a");
        if (f) {
          fputs("   \n", f);
          fclose(f);
          fault_fired("file-grown");
        }
      }
      io_mod = true;
    }
  }
  return v;
}
} // namespace sim

using namespace sim;
typedef int cint;
template <class T> static inline T* st(T* x, cint n, cint inc) {
  return inc < 0 ? x + (ptrdiff_t)(1 - n) * inc : x;
}
extern "C" {
// ---- fftw
void* sim_fftw_plan_r2r_1d(int n, double* in, double* out, fftw_r2r_kind k, unsigned fl) {
  return make_plan(1, n, 1, in, out, k, k, fl);
}
void* sim_fftw_plan_r2r_2d(int a, int b, double* in, double* out, fftw_r2r_kind k0, fftw_r2r_kind k1,
                           unsigned fl) {
  return make_plan(2, a, b, in, out, k0, k1, fl);
}
void* sim_fftw_plan_r2r(int rank, const int* n, double* in, double* out, const fftw_r2r_kind* k,
                        unsigned fl) {
  if (rank == 1) return make_plan(1, n[0], 1, in, out, k[0], k[0], fl);
  if (rank == 2) return make_plan(2, n[0], n[1], in, out, k[0], k[1], fl);
  violation("sim-error", "unsupported FFT rank");
}
void sim_fftw_execute(void* q) {
  Plan* p = find_plan(q, "fftw_execute");
  exec_plan(p, p->in, p->out);
}
void sim_fftw_execute_r2r(void* q, double* in, double* out) {
  exec_plan(find_plan(q, "fftw_execute_r2r"), in, out);
}
void sim_fftw_destroy_plan(void* q) {
  if (!q) return; // accepted by FFTW
  tick(5);
  if (n_alive > 1) yield_point();
  for (Plan* p : plans())
    if ((void*)p == q) {
      if (!p->live) violation("double-free", "an FFT plan was destroyed twice");
      if (p->undefined) violation("undefined-plan", "fftw_destroy_plan on an FFT plan that fftw_cleanup made undefined");
      p->live = false;
      live_plans--;
      return;
    }
  violation("bad-free", "fftw_destroy_plan on something that is not an FFT plan");
}
int sim_fftw_init_threads() { return 1; }
void sim_fftw_plan_with_nthreads(int) {}
void sim_fftw_cleanup() { // "All existing plans become undefined"
  for (Plan* p : plans()) p->undefined |= p->live;
}
void sim_fftw_cleanup_threads() { sim_fftw_cleanup(); }

// ---- BLAS
int sim_openblas_get_parallel() { return 2; } // an OpenMP build: no start-up warning
static inline void vec(const double* x, cint n, cint inc, bool w, const char* what) {
  if (n <= 0) return;
  size_t a = (size_t)(inc < 0 ? -inc : inc);
  if (a <= 1)
    range_access(x, (inc ? (size_t)n : 1) * sizeof(double), w, what);
  else
    for (cint i = 0; i < n; i++) range_access(x + i * a, sizeof(double), w, what);
}
static inline void by() { if (n_alive > 1) yield_point(); }
double sim_cblas_ddot(cint n, const double* x, cint ix, const double* y, cint iy) {
  by();
  if (n <= 0) return 0;
  vec(x, n, ix, false, "ddot");
  vec(y, n, iy, false, "ddot");
  x = st(x, n, ix);
  y = st(y, n, iy);
  double s = 0;
  for (cint i = 0; i < n; i++) s += x[(ptrdiff_t)i * ix] * y[(ptrdiff_t)i * iy];
  return s;
}
void sim_cblas_daxpy(cint n, double a, const double* x, cint ix, double* y, cint iy) {
  by();
  if (n <= 0) return;
  vec(x, n, ix, false, "daxpy");
  vec(y, n, iy, true, "daxpy");
  x = st(x, n, ix);
  y = st(y, n, iy);
  for (cint i = 0; i < n; i++) y[(ptrdiff_t)i * iy] += a * x[(ptrdiff_t)i * ix];
}
void sim_cblas_daxpby(cint n, double a, const double* x, cint ix, double b, double* y, cint iy) {
  by();
  if (n <= 0) return;
  vec(x, n, ix, false, "daxpby");
  vec(y, n, iy, true, "daxpby");
  x = st(x, n, ix);
  y = st(y, n, iy);
  for (cint i = 0; i < n; i++) {
    double& d = y[(ptrdiff_t)i * iy];
    d = a * x[(ptrdiff_t)i * ix] + (b == 0 ? 0 : b * d);
  }
}
void sim_catlas_daxpby(cint n, double a, const double* x, cint ix, double b, double* y, cint iy) {
  sim_cblas_daxpby(n, a, x, ix, b, y, iy);
}
void sim_cblas_dcopy(cint n, const double* x, cint ix, double* y, cint iy) {
  by();
  if (n <= 0) return;
  vec(x, n, ix, false, "dcopy");
  vec(y, n, iy, true, "dcopy");
  x = st(x, n, ix);
  y = st(y, n, iy);
  for (cint i = 0; i < n; i++) y[(ptrdiff_t)i * iy] = x[(ptrdiff_t)i * ix];
}
void sim_cblas_dswap(cint n, double* x, cint ix, double* y, cint iy) {
  by();
  if (n <= 0) return;
  vec(x, n, ix, true, "dswap");
  vec(y, n, iy, true, "dswap");
  x = st(x, n, ix);
  y = st(y, n, iy);
  for (cint i = 0; i < n; i++) std::swap(y[(ptrdiff_t)i * iy], x[(ptrdiff_t)i * ix]);
}
void sim_cblas_dscal(cint n, double a, double* x, cint ix) {
  by();
  if (n <= 0 || ix <= 0) return;
  vec(x, n, ix, true, "dscal");
  for (cint i = 0; i < n; i++) {
    double& d = x[(ptrdiff_t)i * ix];
    d = a == 0 ? 0 : a * d; // as the installed BLAS does
  }
}
void sim_cblas_dset(cint n, double a, double* x, cint ix) {
  by();
  vec(x, n, ix, true, "dset");
  for (cint i = 0; i < n; i++) x[(ptrdiff_t)i * ix] = a;
}
double sim_cblas_dasum(cint n, const double* x, cint ix) {
  by();
  if (n <= 0 || ix <= 0) return 0;
  vec(x, n, ix, false, "dasum");
  double s = 0;
  for (cint i = 0; i < n; i++) s += fabs(x[(ptrdiff_t)i * ix]);
  return s;
}
double sim_cblas_dnrm2(cint n, const double* x, cint ix) {
  by();
  if (n <= 0 || ix <= 0) return 0;
  vec(x, n, ix, false, "dnrm2");
  double scale = 0, ssq = 1;
  for (cint i = 0; i < n; i++) {
    double v = fabs(x[(ptrdiff_t)i * ix]);
    if (v != v) return v;
    if (v == 0) continue;
    if (std::isinf(v)) return v;
    if (scale < v) {
      ssq = 1 + ssq * (scale / v) * (scale / v);
      scale = v;
    } else
      ssq += (v / scale) * (v / scale);
  }
  return scale * sqrt(ssq);
}
size_t sim_cblas_idamax(cint n, const double* x, cint ix) {
  by();
  if (n <= 0 || ix <= 0) return 0;
  vec(x, n, ix, false, "idamax");
  size_t k = 0;
  for (cint i = 1; i < n; i++)
    if (fabs(x[(ptrdiff_t)i * ix]) > fabs(x[(ptrdiff_t)k * ix])) k = i;
  return k;
}
void sim_cblas_dgemv(int order, int trans, cint m, cint n, double alpha, const double* A, cint lda,
                     const double* x, cint ix, double beta, double* y, cint iy) {
  by();
  if (m <= 0 || n <= 0) return;
  bool row = order == 101, tr = trans != 111;
  if (lda < (row ? n : m)) violation("blas-contract", "dgemv called with a leading dimension that is too small");
  range_access(A, ((size_t)(row ? m - 1 : n - 1) * lda + (row ? n : m)) * sizeof(double), false, "dgemv");
  cint lx = tr ? m : n, ly = tr ? n : m;
  vec(x, lx, ix, false, "dgemv");
  vec(y, ly, iy, true, "dgemv");
  x = st(x, lx, ix);
  y = st(y, ly, iy);
  tick((u64)m * n / 8);
  for (cint i = 0; i < ly; i++) {
    double s = 0;
    for (cint j = 0; j < lx; j++) {
      cint r = tr ? j : i, c = tr ? i : j;
      s += A[row ? (size_t)r * lda + c : (size_t)c * lda + r] * x[(ptrdiff_t)j * ix];
    }
    double& d = y[(ptrdiff_t)i * iy];
    d = alpha * s + (beta == 0 ? 0 : beta * d);
  }
}

// ---- output
int sim_printf(const char* f, ...) { va_list a; va_start(a, f); int k = vout(stdout, f, a); va_end(a); return k; }
int sim_vprintf(const char* f, va_list a) { return vout(stdout, f, a); }
int sim_fprintf(FILE* s, const char* f, ...) { va_list a; va_start(a, f); int k = vout(s, f, a); va_end(a); return k; }
int sim_vfprintf(FILE* s, const char* f, va_list a) { return vout(s, f, a); }
int sim_puts(const char* s) { if (rt_active) { out_text(stdout, s, strlen(s) + 1); } return 1; }
int sim_fputs(const char* s, FILE* f) { if (rt_active) out_text(f, s, strlen(s)); return 1; }
int sim_putchar(int c) { char b = (char)c; if (rt_active) out_text(stdout, &b, 1); return c; }
int sim_fputc(int c, FILE* f) { char b = (char)c; if (rt_active) out_text(f, &b, 1); return c; }
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
size_t sim_fwrite(const void* p, size_t s, size_t n, FILE* f) { if (rt_active) out_text(f, (const char*)p, s * n); return n; }
void sim_perror(const char* s) { if (rt_active) out_text(stderr, s, strlen(s)); }
ssize_t sim_write(int fd, const void* p, size_t n) {
  if (!rt_active || (fd != 1 && fd != 2)) return write(fd, p, n);
  out_text(fd == 2 ? stderr : stdout, (const char*)p, n);
  return n;
}

// ---- clock
int sim_gettimeofday(struct timeval* tv, void*) {
  double t = clock_read();
  tv->tv_sec = (time_t)t;
  tv->tv_usec = (suseconds_t)((t - (double)tv->tv_sec) * 1e6);
  return 0;
}
time_t sim_time(time_t* t) { time_t v = (time_t)clock_read(); if (t) *t = v; return v; }
int sim_clock_gettime(int, struct timespec* ts) {
  double t = clock_read();
  ts->tv_sec = (time_t)t;
  ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9);
  return 0;
}
long sim_clock() { return (long)(clock_read() * 1e3); }
double sim_omp_get_wtime() { return clock_read(); }

// ---- files
FILE* sim_fopen(const char* path, const char* mode) {
  if (!rt_active) return fopen(path, mode);
  if (io_fault(IO_OPEN) == 1) {
    fault_fired("open-fails");
    errno = EMFILE;
    return nullptr;
  }
  FILE* f = fopen(path, mode);
  if (f) {
    setvbuf(f, nullptr, _IONBF, 0);
    open_set().insert(f);
  }
  return f;
}
static FILE* okf(FILE* f, const char* what) {
  if (rt_active && f != stdout && f != stderr && f != stdin && !open_set().count(f))
    violation("bad-file", "%s on a file that is %s", what, f ? "not open" : "NULL");
  return f;
}
int sim_fclose(FILE* f) {
  if (!rt_active) return fclose(f);
  okf(f, "fclose");
  u64 v = io_fault(IO_CLOSE);
  open_set().erase(f);
  err_set().erase(f);
  int r = fclose(f);
  if (v == 1) { fault_fired("close-fails"); errno = EIO; return EOF; }
  return r;
}
int sim_fseek(FILE* f, long off, int wh) {
  okf(f, "fseek");
  if (io_fault(IO_SEEK) == 1) { fault_fired("seek-fails"); errno = EIO; return -1; }
  return fseek(f, off, wh);
}
int sim_fseeko(FILE* f, off_t off, int wh) { return sim_fseek(f, off, wh); }
long sim_ftell(FILE* f) {
  okf(f, "ftell");
  if (io_fault(IO_TELL) == 1) { fault_fired("tell-fails"); errno = EOVERFLOW; return -1; }
  return ftell(f);
}
off_t sim_ftello(FILE* f) { return sim_ftell(f); }
void sim_rewind(FILE* f) { okf(f, "rewind"); rewind(f); }
size_t sim_fread(void* p, size_t s, size_t n, FILE* f) {
  okf(f, "fread");
  if (s * n > 0) range_access(p, s * n, true, "fread");
  u64 v = io_fault(IO_READ);
  if (v == 1) {
    fault_fired("read-fails");
    errno = EIO;
    err_set().insert(f);
    return 0;
  }
  if (v == 2 && s * n > 1) { // only part of it arrives, then an error
    fault_fired("read-short");
    size_t got = fread(p, 1, s * n / 2, f);
    errno = EIO;
    err_set().insert(f);
    return s ? got / s : 0;
  }
  return fread(p, s, n, f);
}
int sim_ferror(FILE* f) { return err_set().count(f) ? 1 : ferror(f); }
void sim_clearerr(FILE* f) { err_set().erase(f); clearerr(f); }
int sim_fgetc(FILE* f) {
  okf(f, "fgetc");
  if (io_fault(IO_READ) == 1) { fault_fired("read-fails"); errno = EIO; err_set().insert(f); return EOF; }
  return fgetc(f);
}
int sim_getc(FILE* f) { return sim_fgetc(f); }
void* sim_realloc(void*, size_t);
ssize_t sim_getline(char** l, size_t* cap, FILE* f) {
  size_t n = 0;
  for (;;) {
    int c = sim_fgetc(f);
    if (!*l || n + 2 > *cap) {
      char* q = (char*)sim_realloc(*l, n + 120);
      if (!q) return -1;
      *l = q, *cap = n + 120;
    }
    if (c == EOF) break;
    (*l)[n++] = (char)c;
    if (c == '\n') break;
  }
  (*l)[n] = 0;
  return n ? (ssize_t)n : -1;
}
char* sim_fgets(char* b, int n, FILE* f) {
  okf(f, "fgets");
  if (io_fault(IO_READ) == 1) { fault_fired("read-fails"); errno = EIO; err_set().insert(f); return nullptr; }
  return fgets(b, n, f);
}
void* sim_malloc(size_t);
void sim_free(void*);
void* cj_malloc(size_t n) { return sim_malloc(n); }
void cj_free(void* p) { sim_free(p); }
}
namespace sim {
void seams_init() {
  cJSON_Hooks h = {cj_malloc, cj_free};
  cJSON_InitHooks(&h);
}
}

#include "calls.h"
#include "rt.h"
#include <math.h>
#include <algorithm>
#include <unistd.h>

extern "C" void sim_free(void*);
namespace sim {
void lib_free(void* p) { sim_free(p); }
const char* call_name[NCALL] = {"cgsolve", "cgsolve_diag_precond", "linesearch", "linesearch_xu",
  "breg_anistropic_TV", "l1qc_dct", "l1qc_newton(own operators)", "nesta(dctTV)", "nesta(own operators)",
  "dct1 set", "dct2 set", "dctTV set", "matrix set", "json file", "2-D array", "vector kernels",
  "nesta(matrix set)", "l1qc_newton(dctTV)"};

void fill(double* x, size_t n, u64 seed, double scale) {
  Rng r(seed);
  for (size_t i = 0; i < n; i++) x[i] = r.sym() * scale;
}
std::vector<double> dvec(size_t n, u64 seed, double scale) {
  std::vector<double> v(n);
  fill(v.data(), n, seed, scale);
  return v;
}
int gen_size(int cap) {
  int k = (int)workw({70, 25, 5});
  int hi = k == 0 ? 40 : k == 1 ? 300 : 3000;
  if (hi > cap) hi = cap;
  return (int)work(1, hi);
}
std::vector<int> pick_idx(int n, int m, u64 seed) {
  std::vector<int> v(m);
  for (int i = 0; i < m; i++) v[i] = i;
  Rng r(seed ^ 0x5151);
  for (int i = 0; i < n; i++) std::swap(v[i], v[i + r.below(m - i)]);
  v.resize(n);
  if (!r.chance(0.2)) std::sort(v.begin(), v.end());
  return v;
}
std::string Call::str() const {
  char buf[240];
  snprintf(buf, sizeof buf, "%s n=%d m=%d %dx%d a=%d b=%d c=%d p=%g q=%g r=%g v=%d k=%d data=%llx", call_name[type], n, m, mrow,
           mcol, a, b, c, p, q, r, verbose, kind, (unsigned long long)data & 0xffffff);
  return buf;
}
// does the result jump when the measurements change in the last digits?
bool ill_conditioned(const Call& c, const Res& ref, double tol) {
  std::string why;
  for (double j : {1e-15, -3e-15, 1e-14, 7e-14}) {
    Res r = fresh_call(c, j);
    if (!r.same(ref, tol, &why)) return true;
  }
  return false;
}
bool Res::same(const Res& o, double tol, std::string* why) const {
  char b[200];
  if (status != o.status) {
    snprintf(b, sizeof b, "status %d instead of %d", status, o.status);
    *why = b;
    return false;
  }
  if (out.size() != o.out.size()) {
    *why = "different number of results";
    return false;
  }
  double scale = 0;
  if (tol > 0)
    for (double v : o.out)
      if (std::isfinite(v)) scale = std::max(scale, fabs(v));
  for (size_t i = 0; i < out.size(); i++) {
    if (!memcmp(&out[i], &o.out[i], 8) || (out[i] == o.out[i]) || (std::isnan(out[i]) && std::isnan(o.out[i]))) continue;
    if (tol > 0 && fabs(out[i] - o.out[i]) <= tol * (scale + 1e-300)) continue;
    snprintf(b, sizeof b, "result value %zu of %zu is %.17g instead of %.17g", i, out.size(), out[i], o.out[i]);
    *why = b;
    return false;
  }
  return true;
}

// ------------------------------------------------------------------ operators
UserOps uops[NSLOTS];
bool corrupt(double* y, int len, double p, int kinds) {
  u64 v = 0;
  if (!injected(S_OP, [&](Rng& r) -> u64 {
        if (!r.chance(p)) return 0;
        static const int tame[] = {3, 4, 6, 7, 8}; // finite, moderate answers
        u64 kind = kinds == K_TAME ? tame[r.below(5)] : r.below(kinds);
        return 1 + kind + (r.below(1 << 20) << 8);
      }, &v))
    return false;
  int k = (int)((v & 255) - 1);
  size_t pos = (v >> 8) % (len > 0 ? len : 1);
  static const char* nm[] = {"op.nan-entry", "op.inf-entry", "op.all-nan", "op.zero", "op.negated", "op.huge", "op.noise",
                             "op.tiny", "op.stuck"};
  fault_fired(nm[k % 9]);
  Rng r(v);
  switch (k % 9) {
  case 0: y[pos] = NAN; break;
  case 1: y[pos] = (v & (1ull << 12)) ? INFINITY : -INFINITY; break;
  case 2: for (int i = 0; i < len; i++) y[i] = NAN; break;
  case 3: for (int i = 0; i < len; i++) y[i] = 0; break;
  case 4: for (int i = 0; i < len; i++) y[i] = -y[i]; break;
  case 5: for (int i = 0; i < len; i++) y[i] *= 1e12; break;
  case 6: for (int i = 0; i < len; i++) y[i] += r.sym(); break;
  case 7: for (int i = 0; i < len; i++) y[i] *= 1e-12; break;
  case 8: for (int i = 0; i < len; i++) y[i] = 1; break;
  }
  return true;
}
void op_corrupt(UserOps& u, int which, double* y, int len) {
  u.calls[which]++;
  u.total++;
  if (!(u.fault_mask >> which & 1) || u.fault_p <= 0 || u.total <= u.skip) return;
  if (corrupt(y, len, u.fault_p, u.fault_kinds)) u.fired++;
}
static void house(const std::vector<double>& v, double* x) {
  double s = 0;
  for (size_t i = 0; i < v.size(); i++) s += v[i] * x[i];
  s *= 2;
  for (size_t i = 0; i < v.size(); i++) x[i] -= s * v[i];
}
void UserOps::setup(int n_, int m_, int pm, double al, u64 seed) {
  n = n_;
  m = m_;
  p = m * pm;
  alpha = al;
  largest = 0;
  norm_W = pm == 1 ? 1 : sqrt(1 + al * al);
  v1 = dvec(m, mix(seed, 1));
  v2 = dvec(m, mix(seed, 2));
  for (auto* v : {&v1, &v2}) {
    double s = 0;
    for (double x : *v) s += x * x;
    s = sqrt(s);
    if (s == 0) (*v)[0] = s = 1;
    for (double& x : *v) x /= s;
  }
  idx = pick_idx(n, m, seed);
  memset(calls, 0, sizeof calls);
  total = fired = skip = 0;
  fault_mask = 0;
  fault_p = 0;
  tmp.assign(m, 0);
}
void UserOps::A(const double* x, double* y) const {
  std::vector<double> t(x, x + m);
  house(v1, t.data());
  house(v2, t.data());
  for (int i = 0; i < n; i++) y[i] = t[idx[i]];
}
void UserOps::At(const double* y, double* x) const {
  std::vector<double> t(m, 0.0);
  for (int i = 0; i < n; i++) t[idx[i]] = y[i];
  house(v2, t.data());
  house(v1, t.data());
  for (int i = 0; i < m; i++) x[i] = t[i];
}
static void rd(const double* p, int n) { range_access(p, n * sizeof(double), false, "operator input"); }
static void wr(double* p, int n) { range_access(p, n * sizeof(double), true, "operator output"); }
static void yp() { if (n_alive > 1) yield_point(); }
template <int K> struct OpSet {
  static void Ax(double* x, double* y) {
    UserOps& u = uops[K];
    yp(); rd(x, u.m); wr(y, u.n);
    for (int i = 0; i < u.m; i++)
      if (fabs(x[i]) > u.largest) u.largest = fabs(x[i]);
    u.A(x, y);
    op_corrupt(u, 0, y, u.n);
  }
  static void Aty(double* y, double* x) {
    UserOps& u = uops[K];
    yp(); rd(y, u.n); wr(x, u.m);
    u.At(y, x);
    op_corrupt(u, 1, x, u.m);
  }
  static void AtAx(double* x, double* z) {
    UserOps& u = uops[K];
    yp(); rd(x, u.m); wr(z, u.m);
    std::vector<double> t(u.n);
    u.A(x, t.data());
    u.At(t.data(), z);
    op_corrupt(u, 2, z, u.m);
  }
  static void Id(double* x, double* z) {
    UserOps& u = uops[K];
    yp(); rd(x, u.m); wr(z, u.m);
    memmove(z, x, u.m * sizeof(double));
    op_corrupt(u, 3, z, u.m);
  }
  static void Wz(double* z, double* x) { // m by p: [I, alpha*H]
    UserOps& u = uops[K];
    yp(); rd(z, u.p); wr(x, u.m);
    std::vector<double> r(z, z + u.m);
    if (u.p > u.m) {
      std::vector<double> h(z + u.m, z + 2 * u.m);
      house(u.v2, h.data());
      for (int i = 0; i < u.m; i++) r[i] += u.alpha * h[i];
    }
    memcpy(x, r.data(), u.m * sizeof(double));
    op_corrupt(u, 5, x, u.m);
  }
  static void Wtx(double* x, double* z) {
    UserOps& u = uops[K];
    yp(); rd(x, u.m); wr(z, u.p);
    std::vector<double> t(x, x + u.m);
    memcpy(z, t.data(), u.m * sizeof(double));
    if (u.p > u.m) {
      house(u.v2, t.data());
      for (int i = 0; i < u.m; i++) z[u.m + i] = u.alpha * t[i];
    }
    op_corrupt(u, 6, z, u.p);
  }
  static void destroy() { uops[K].calls[9]++; }
  static l1c_AxFuns get() {
    UserOps& u = uops[K];
    l1c_AxFuns f;
    memset(&f, 0, sizeof f);
    f.n = u.n; f.m = u.m; f.q = u.m; f.p = u.p; f.norm_W = u.norm_W;
    f.Ax = Ax; f.Aty = Aty; f.AtAx = AtAx; f.Mx = Id; f.Mty = Id; f.Wz = Wz; f.Wtx = Wtx; f.Rx = Ax; f.Rty = Aty;
    f.destroy = destroy;
    return f;
  }
};
l1c_AxFuns user_funs(int s) {
  switch (s % NSLOTS) {
  case 0: return OpSet<0>::get();
  case 1: return OpSet<1>::get();
  case 2: return OpSet<2>::get();
  case 3: return OpSet<3>::get();
  case 4: return OpSet<4>::get();
  }
  return OpSet<5>::get();
}

// ------------------------------------------------------------------ generation
bool gen_odd = true;
static void gen_l1opts(Call& c) {
  l1c_L1qcOpts& o = c.l1;
  memset(&o, 0, sizeof o);
  static const double eps[] = {0.1, 0.01, 1e-3, 0.5};
  o.epsilon = eps[work(0, 3)];
  o.mu = work(0, 2) == 0 ? 10 : (double)work(2, 30);
  static const double t[] = {1e-3, 1e-2, 0.1, 1e-4};
  o.lbtol = t[work(0, 3)];
  o.newton_tol = t[work(0, 3)];
  o.newton_max_iter = (int)work(1, 14);
  o.l1_tol = t[work(0, 3)] * 1e-2;
  o.lbiter = workp(0.5) ? (int)work(1, 4) : 0;
  static const double ct[] = {1e-8, 1e-4, 1e-2};
  o.cg_tol = ct[work(0, 2)];
  o.cg_maxiter = (int)work(3, 50);
  o.cg_verbose = workp(0.1) ? (int)work(1, 3) : 0;
  o.warm_start_cg = (int)work(0, 2);
  o.dct_mode = workp(0.5) ? dct2 : dct1;
  if (gen_odd && workp(0.25)) {
    int k = (int)work(1, 3);
    for (int i = 0; i < k; i++)
      switch (work(0, 5)) {
      case 0: o.cg_maxiter = (int)work(0, 2); break;         // the linear solve of a step fails
      case 1: o.newton_tol = workp(0.5) ? 1e-10 : 10; break;
      case 2: o.epsilon = workp(0.5) ? 5 : 1e-8; break;
      case 3: o.l1_tol = workp(0.5) ? 0 : 1; break;
      case 4: o.cg_tol = workp(0.5) ? 0 : 0.9; break;
      case 5: o.lbiter = (int)work(1, 2); o.mu = workp(0.5) ? 1.2 : 1e4; break;
      }
  }
}
static void gen_kind(Call& c) {
  if (!gen_odd || !workp(0.15)) return;
  c.kind = (int)work(1, 5);
}
static void gen_neopts(Call& c) {
  l1c_NestaOpts& o = c.ne;
  memset(&o, 0, sizeof o);
  static const double mu[] = {1e-2, 1e-3, 1e-1};
  static const double tl[] = {1e-2, 1e-3, 5e-2};
  static const double sg[] = {0.01, 0.1, 0.001};
  o.mu = mu[work(0, 2)];
  o.tol = tl[work(0, 2)];
  o.sigma = sg[work(0, 2)];
  o.n_continue = (int)work(1, 4);
  o.verbose = 0;
  if (gen_odd && workp(0.2))
    switch (work(0, 3)) {
    case 0: o.tol = workp(0.5) ? 0.5 : 2; break;
    case 1: o.mu = workp(0.5) ? 1 : 10; break;
    case 2: o.sigma = workp(0.5) ? 5 : 1e-6; break;
    case 3: o.n_continue = (int)work(5, 9); break;
    }
}
// a call far larger or longer than the usual ones: what depends on a size threshold shows only here
static void grow_call(Call& c) {
  bool B = g_flavour[0] == 'B';
  large_run();
  bool longer = workp(0.4); // more iterations instead of more data
  auto img = [&](int lo, int area) {
    c.mrow = (int)work(lo, workp(0.5) ? 12 : workp(0.5) ? 70 : 300);
    int most = std::max(lo, area / c.mrow);
    c.mcol = (int)work(lo, most);
    if (workp(0.5)) std::swap(c.mrow, c.mcol);
    c.m = c.mrow * c.mcol;
  };
  switch (c.type) {
  case K_CG: case K_CGP:
    if (longer) c.a = (int)work(30, 400), c.p = 0, c.m = (int)work(1, 300);
    else c.m = (int)work(1000, B ? 40000 : 8000), c.a = (int)work(1, 6);
    break;
  case K_LS: case K_LSXU: c.m = (int)work(1000, B ? 40000 : 8000); break;
  case K_BREG:
    if (longer) {
      c.a = (int)work(8, 120);
      c.b = (int)work(1, 20);
      c.q = 1e-9;
    } else {
      img(3, B ? 20000 : 7000);
      c.a = (int)work(1, 3);
    }
    break;
  case K_L1QC_DCT: case K_L1QC_TV: case K_L1QC_OWN:
    if (longer) {
      c.l1.lbiter = (int)work(3, 14);
      c.l1.mu = (double)work(2, 6);
      c.l1.newton_max_iter = (int)work(10, 70);
      c.l1.cg_maxiter = (int)work(50, 250);
      c.l1.newton_tol = 1e-7;
      c.l1.l1_tol = 0;
    } else {
      if (c.type == K_L1QC_OWN) c.m = (int)work(40, B ? 3000 : 600);
      else img(3, B ? 3000 : 500);
      c.n = (int)work(1, c.m);
      c.l1.lbiter = (int)work(1, 2);
      c.l1.newton_max_iter = (int)work(2, 4);
      c.l1.cg_maxiter = (int)work(2, 10);
    }
    break;
  case K_NESTA_TV: case K_NESTA_OWN: case K_NESTA_MAT:
    if (longer) {
      c.ne.n_continue = (int)work(5, 24);
      c.ne.mu = 0.1;
      c.ne.tol = 1e-2;
    } else {
      if (c.type == K_NESTA_TV) img(3, B ? 1500 : 100);
      else c.m = (int)work(20, c.type == K_NESTA_MAT ? (B ? 100 : 30) : B ? 400 : 100);
      c.n = (int)work(1, c.m);
      c.ne.n_continue = (int)work(1, 2);
      c.ne.mu = 0.1;
      c.ne.tol = 5e-2;
    }
    break;
  case K_DCT1: c.m = c.mrow = (int)work(300, B ? 40000 : 9000); c.n = (int)work(1, c.m); break;
  case K_MAT: c.m = c.mrow = (int)work(40, 200); c.n = (int)work(1, c.m); break;
  case K_DCT2: img(2, B ? 20000 : 9000); c.n = (int)work(1, c.m); break;
  case K_DCTTV: img(3, B ? 20000 : 9000); c.n = (int)work(1, c.m); break;
  case K_JSON: c.m = (int)work(30, 3000); c.n = (int)work(30, 3000); break;
  case K_ALLOC2D: c.mrow = (int)work(12, 300); c.mcol = (int)work(1, 3000); break;
  case K_KERN:
    img(3, B ? 40000 : 20000);
    c.m = (int)work(3000, B ? 200000 : 40000);
    break;
  }
}

Call gen_call(u64 mask, int scale) {
  Call c;
  std::vector<int> w(NCALL, 0), base = {4, 3, 3, 3, 5, 6, 6, 6, 5, 5, 5, 6, 4, 3, 3, 4, 3, 4};
  for (int i = 0; i < NCALL; i++) w[i] = (mask >> i & 1) ? base[i] : 0;
  // weighted choice whose value 0 is the first allowed type
  std::vector<int> allowed, ww;
  for (int i = 0; i < NCALL; i++) if (w[i]) { allowed.push_back(i); ww.push_back(w[i]); }
  c.type = allowed[workw(ww)];
  c.data = work(1, 0xffffffff);
  c.verbose = workp(0.2) ? (int)work(1, 3) : 0;
  int cap = scale == 1 ? 40 : 3000;
  switch (c.type) {
  case K_CG: case K_CGP:
    c.m = gen_size(cap);
    c.a = (int)work(1, 30); // max iterations
    c.p = pow(10.0, -(double)work(1, 12));
    c.b = (int)work(0, 2);  // start: zero / random / exact
    c.c = (int)work(0, 1);  // conditioning
    if (gen_odd && workp(0.1)) c.a = 0;
    if (gen_odd && workp(0.1)) c.p = workp(0.5) ? 0 : 1;
    break;
  case K_LS: case K_LSXU:
    c.m = gen_size(cap);
    c.p = 0.01 + 0.1 * work(0, 4);   // alpha
    c.q = 0.2 + 0.1 * work(0, 6);    // beta
    c.r = pow(2.0, (double)work(0, 6) - 2); // first step
    c.a = (int)work(0, 2); // descent / ascent / huge step
    break;
  case K_BREG:
    if (scale == 0 && workp(0.15)) {
      c.mrow = (int)work(3, 30);
      c.mcol = (int)work(3, 30);
    } else {
      c.mrow = (int)work(3, 7);
      c.mcol = (int)work(3, 7);
    }
    c.a = (int)work(1, 8);
    c.b = (int)work(1, 3);
    c.p = 0.5 + work(0, 20);
    c.q = pow(10.0, -(double)work(1, 6));
    if (gen_odd && workp(0.15)) {
      int k = (int)work(0, 3);
      if (k == 0) c.a = 0;
      else if (k == 1) c.b = 0;
      else if (k == 2) c.q = workp(0.5) ? 0 : 3;
      else c.p = workp(0.5) ? 1e-3 : 1e4;
    }
    break;
  case K_L1QC_DCT: case K_L1QC_TV:
    if (workp(0.35) && c.type == K_L1QC_DCT) {
      c.mrow = (int)work(2, 30);
      c.mcol = 1;
      if (workp(0.3)) std::swap(c.mrow, c.mcol);
    } else {
      c.mrow = (int)work(3, 6);
      c.mcol = (int)work(3, 6);
    }
    c.m = c.mrow * c.mcol;
    c.n = (int)work(1, c.m);
    gen_l1opts(c);
    if (c.type == K_L1QC_TV) {
      c.a = (int)work(0, 1); // mode
      c.p = workp(0.5) ? 0.5 : 0;
      c.q = workp(0.5) ? 0.7 : 0;
    }
    break;
  case K_L1QC_OWN:
    c.m = (int)work(2, 30);
    c.n = (int)work(1, c.m);
    gen_l1opts(c);
    break;
  case K_NESTA_TV:
    c.mrow = (int)work(3, 5);
    c.mcol = (int)work(3, 5);
    c.m = c.mrow * c.mcol;
    c.n = (int)work(1, c.m);
    c.p = workp(0.6) ? 0.25 * work(1, 6) : 0;
    c.q = workp(0.6) ? 0.25 * work(1, 6) : 0;
    c.a = workp(0.4) ? (int)synthesis : (int)analysis;
    c.b = workp(0.5) ? (int)dct2 : (int)dct1;
    gen_neopts(c);
    break;
  case K_NESTA_OWN:
    c.m = (int)work(2, 20);
    c.n = (int)work(1, c.m);
    c.a = (int)work(1, 2);
    c.p = 0.25 * work(1, 6);
    gen_neopts(c);
    break;
  case K_NESTA_MAT:
    c.m = (int)work(2, 12);
    c.n = (int)work(1, c.m);
    gen_neopts(c);
    break;
  case K_DCT1: case K_DCT2: case K_DCTTV: case K_MAT: {
    if (c.type == K_DCT1 || c.type == K_MAT) {
      c.m = gen_size(c.type == K_MAT ? 40 : scale == 1 ? 40 : 400);
      c.mrow = c.m;
      c.mcol = 1;
    } else {
      int lo = c.type == K_DCTTV ? 3 : 2;
      int hi = scale == 0 && workp(0.2) ? 16 : 6;
      c.mrow = (int)work(lo, hi);
      c.mcol = (int)work(lo, hi);
      c.m = c.mrow * c.mcol;
    }
    c.n = (int)work(1, c.m);
    if (c.type == K_DCTTV) {
      c.p = workp(0.6) ? 0.25 * work(1, 6) : 0;
      c.q = workp(0.6) ? 0.25 * work(1, 6) : 0;
      c.a = workp(0.5) ? (int)synthesis : (int)analysis;
      c.b = workp(0.5) ? (int)dct2 : (int)dct1;
    }
    int k = (int)work(1, 6);
    for (int i = 0; i < k; i++) c.ops.push_back((int)work(0, 8));
    break;
  }
  case K_JSON:
    c.m = (int)work(0, 30);
    c.n = (int)work(0, 30);
    c.a = (int)work(0, 3);
    break;
  case K_ALLOC2D:
    c.mrow = (int)work(1, 12);
    c.mcol = (int)work(1, 60);
    c.a = (int)work(0, 1);
    break;
  case K_KERN:
    c.m = gen_size(cap);
    c.mrow = (int)work(3, 9);
    c.mcol = (int)work(3, 9);
    c.a = (int)work(0, 5);
    break;
  }
  if (scale == 0 && workp(c.type == K_KERN ? 0.15 : g_flavour[0] == 'B' ? 0.04 : 0.02)) grow_call(c);
  gen_kind(c);
  if (c.ne.mu != 0 && c.kind == 1) c.kind = 5; // all NaN: C11 looks at how that ends
  return c;
}

Call cut_call(const Call& c0) {
  Call c = c0;
  auto cut = [](int& v) { if (v > 1) v = workp(0.6) ? 1 : (int)work(1, v - 1); };
  if (c.type == K_CG || c.type == K_CGP || c.type == K_BREG) cut(c.a);
  if (c.l1.newton_max_iter) { int v = c.l1.newton_max_iter; cut(v); c.l1.newton_max_iter = v < 2 ? 2 : v; }
  if (c.ne.n_continue) { int v = c.ne.n_continue; cut(v); c.ne.n_continue = v; }
  return c;
}
Call vary_call(const Call& c0) {
  Call c = c0;
  int k = (int)work(1, 2);
  for (int i = 0; i < k; i++) {
    switch (workw({4, 3, 2, 2, 2, 1})) {
    case 0: c.data = work(1, 0xffffffff); break;
    case 1: // iteration limits
      if (c.type == K_CG || c.type == K_CGP || c.type == K_BREG) c.a = (int)work(1, c.type == K_BREG ? 8 : 30);
      c.l1.newton_max_iter = c.l1.newton_max_iter ? (int)work(1, 14) : 0;
      if (c.l1.cg_maxiter) c.l1.cg_maxiter = (int)work(3, 50);
      if (c.ne.n_continue) c.ne.n_continue = (int)work(1, 4);
      break;
    case 2:
      if (c.n > 1 && c.type != K_JSON) c.n = (int)work(1, c.n);
      break;
    case 3:
      if (c.m == c.mrow * c.mcol || c.type == K_BREG) std::swap(c.mrow, c.mcol);
      break;
    case 4:
      if (c.type == K_BREG) c.p = 0.5 + work(0, 20);
      if (c.l1.epsilon != 0) gen_l1opts(c);
      if (c.ne.mu != 0) gen_neopts(c);
      break;
    case 5:
      if (c.l1.dct_mode) c.l1.dct_mode = c.l1.dct_mode == dct1 ? dct2 : dct1;
      if ((c.type == K_DCTTV || c.type == K_NESTA_TV) && c.b) c.b = c.b == (int)dct1 ? (int)dct2 : (int)dct1;
      break;
    }
  }
  return c;
}

// ------------------------------------------------------------------ execution
struct Watch { // an input array that must come back bit for bit
  const void* p; size_t n; std::vector<u8> copy; const char* name;
  Watch(const void* p_, size_t n_, const char* nm) : p(p_), n(n_), copy((const u8*)p_, (const u8*)p_ + n_), name(nm) { stack_dirt(); }
  void check(Res& r) const {
    if (r.changed.empty() && memcmp(p, copy.data(), n)) r.changed = name;
  }
};
static double g_jitter = 0; // rounding-sized change of the measurements
void shake(const Call& c, double* x, size_t n) {
  for (size_t i = 0; c.kind && i < n; i++)
    x[i] = c.kind == 1 ? 0 : c.kind == 2 ? x[i] * 1e6 : c.kind == 3 ? x[i] * 1e-6 : c.kind == 4 ? 0.75 : i % 4 ? 0 : x[i];
  if (g_jitter != 0)
    for (size_t i = 0; i < n; i++) x[i] *= 1 + g_jitter * ((double)(i % 5) - 1.7);
}
static void prior_fill(double* x, size_t n, u64 prior) {
  if (!prior) memset(x, 0, n * sizeof(double));
  else fill(x, n, prior, 3.0);
}
static bool is_prior(const double* x, size_t n, u64 prior) {
  if (!prior) {
    for (size_t i = 0; i < n; i++) if (x[i] != 0) return false;
    return true;
  }
  auto v = dvec(n, prior, 3.0);
  return !memcmp(v.data(), x, n * sizeof(double));
}
static void push(Res& r, const double* x, size_t n) { r.out.insert(r.out.end(), x, x + n); }

void cg_op(l1c_int n, double* x, double* b, void* d) {
  CgData* g = (CgData*)d;
  yp();
  rd(x, n);
  wr(b, n);
  g->calls++;
  double s = 0;
  for (int i = 0; i < n; i++) s += g->v[i] * x[i];
  for (int i = 0; i < n; i++) b[i] = (1.0 + g->cond * (i % 7)) * x[i] + g->v[i] * s;
}
struct LsData { int n; std::vector<double> a, c; u64 calls; };
static double ls_f(void* d, double* x) {
  LsData* g = (LsData*)d;
  yp();
  rd(x, g->n);
  g->calls++;
  double s = 0;
  for (int i = 0; i < g->n; i++) s += 0.5 * g->a[i] * (x[i] - g->c[i]) * (x[i] - g->c[i]);
  return s > 1e6 ? NAN : s;
}
static double ls_fxu(void* d, double* x, double* u) {
  LsData* g = (LsData*)d;
  yp();
  rd(x, g->n);
  rd(u, g->n);
  g->calls++;
  double s = 0;
  for (int i = 0; i < g->n; i++)
    s += 0.5 * g->a[i] * (x[i] - g->c[i]) * (x[i] - g->c[i]) + 0.25 * (u[i] + 1) * (u[i] + 1);
  return s > 1e6 ? NAN : s;
}
opfn get_op(const l1c_AxFuns& f, int k, int* in, int* out) {
  // Ax Aty AtAx Mx Mty Rx Rty Wz Wtx
  int n = f.n, m = f.m, p = f.p, q = f.q;
  switch (k) {
  case 0: *in = m; *out = n; return f.Ax;
  case 1: *in = n; *out = m; return f.Aty;
  case 2: *in = m; *out = m; return f.AtAx;
  case 3: *in = m; *out = q; return f.Mx;
  case 4: *in = q; *out = m; return f.Mty;
  case 5: *in = q; *out = n; return f.Rx;
  case 6: *in = n; *out = q; return f.Rty;
  case 7: *in = p; *out = m; return f.Wz;
  default: *in = m; *out = p; return f.Wtx;
  }
}
static std::string json_path() { return g_scratch + "/in.json"; }

static l1c_AxFuns blank_funs() {
  l1c_AxFuns f;
  memset(&f, 0, sizeof f);
  return f;
}
static void exec_set(const Call& c, const Exec& e, Res& r) {
  l1c_AxFuns f = blank_funs();
  std::vector<int> idx = pick_idx(c.n, c.m, c.data);
  Buf mat(c.type == K_MAT ? (size_t)c.n * c.m : 1);
  fill(mat.p, mat.n, mix(c.data, 5));
  std::vector<int> idx0 = idx;
  Watch wm(mat.p, mat.n * 8, "matrix");
  if (c.type == K_DCT1) r.status = l1c_dct1_setup(c.n, c.m, idx.data(), &f);
  else if (c.type == K_DCT2) r.status = l1c_dct2_setup(c.n, c.mrow, c.mcol, idx.data(), &f);
  else if (c.type == K_DCTTV)
    r.status = l1c_setup_dctTV_transforms(c.n, c.mrow, c.mcol, c.p, c.q, (DctMode)c.b, (BpMode)c.a, idx.data(), &f);
  else r.status = l1c_setup_matrix_transforms(c.n, c.m, mat.p, &f);
  if (r.status) return;
  push(r, &f.norm_W, 1);
  for (double d : {(double)f.n, (double)f.m, (double)f.p, (double)f.q}) push(r, &d, 1);
  for (size_t i = 0; i < c.ops.size(); i++) {
    int in, out;
    opfn op = get_op(f, c.ops[i], &in, &out);
    // the identity operators of this set are square in its signal space
    int a = in, b = out;
    if (c.type == K_DCTTV) a = b = std::max(std::max(in, out), std::max(f.m, f.p));
    if (!op) {
      double nil = -1;
      push(r, &nil, 1);
      continue;
    }
    Buf x(a), y(b);
    fill(x.p, a, mix(c.data, 100 + i));
    prior_fill(y.p, b, e.prior);
    Watch wx(x.p, a * 8, "operator input");
    op(x.p, y.p);
    wx.check(r);
    // synthesis with TV terms: the identity is defined on the leading image-sized part only
    if (c.type == K_DCTTV && c.a == (int)synthesis && c.ops[i] >= 7) out = std::min(out, c.m);
    push(r, y.p, out);
  }
  if (f.destroy) f.destroy();
  wm.check(r);
  if (idx != idx0) r.changed = "pix_idx";
}
static void exec_json(const Call& c, Res& r) {
  // numeric content only; the file-fault scenario has its own, richer generator
  std::string t = "{\"N\": " + std::to_string(c.n) + ", \"x\": [";
  Rng g(c.data);
  for (int i = 0; i < c.m; i++) t += std::string(i ? ", " : "") + std::to_string((long)g.below(100000)) + ".25";
  t += "], \"k\": [";
  for (int i = 0; i < c.n; i++) t += std::string(i ? ", " : "") + std::to_string((long)g.below(1000));
  t += "], \"v\": 2.5}";
  FILE* f = fopen(json_path().c_str(), "w");
  if (!f) violation("sim-error", "cannot write the scratch file");
  fputs(t.c_str(), f);
  fclose(f);
  io_set_target(json_path().c_str());
  cJSON* j = nullptr;
  r.status = load_file_to_json((char*)json_path().c_str(), &j);
  if (r.status || !j) {
    if (!r.status) r.status = -77; // success without a document
    unlink(json_path().c_str());
    return;
  }
  double v = 0;
  l1c_int N = 0;
  int s1 = extract_json_int(j, (char*)"N", &N), s2 = extract_json_double(j, (char*)"v", &v);
  double dN = N;
  push(r, &dN, 1);
  push(r, &v, 1);
  double* x = nullptr;
  l1c_int nx = 0;
  int s3 = extract_json_double_array(j, (char*)"x", &x, &nx);
  if (!s3) push(r, x, nx);
  l1c_int* k = nullptr;
  l1c_int nk = 0;
  int s4 = extract_json_int_array(j, (char*)"k", &k, &nk);
  if (!s4)
    for (int i = 0; i < nk; i++) {
      double d = k[i];
      push(r, &d, 1);
    }
  r.status = s1 | s2 | s3 | s4;
  if (!s3) l1c_free_double(x);
  if (!s4) {
    lib_free(k);
  }
  cJSON_Delete(j);
  unlink(json_path().c_str());
}
static void exec_kern(const Call& c, const Exec& e, Res& r) {
  int n = c.m;
  Buf x(n), y(n), z(n), w(n);
  fill(x.p, n, mix(c.data, 1));
  fill(y.p, n, mix(c.data, 2));
  prior_fill(z.p, n, e.prior);
  memcpy(w.p, y.p, n * 8);
  Watch wx(x.p, n * 8, "x"), wy(y.p, n * 8, "y");
  switch (c.a) {
  case 0:
    l1c_daxpy_z(n, 1.5, x.p, y.p, z.p);
    push(r, z.p, n);
    l1c_dxmuly_z(n, x.p, y.p, z.p);
    push(r, z.p, n);
    break;
  case 1:
    l1c_daxpby_z(n, 1.5, x.p, -0.5, y.p, z.p);
    push(r, z.p, n);
    __l1c_daxpby(n, 2.0, x.p, 0.25, w.p);
    push(r, w.p, n);
    l1c_init_vec(n, z.p, 3.25);
    push(r, z.p, n);
    break;
  case 2: {
    for (int i = 0; i < n; i++) w[i] = 0.5 + fabs(y[i]);
    double v[6] = {l1c_dnorm1(n, x.p), l1c_dsum(n, x.p), l1c_dlogsum(n, 2.0, w.p), l1c_dnrm2_err(n, x.p, y.p),
                   l1c_dnrm2_rel_err(n, x.p, y.p), l1c_max_vec(n, x.p)};
    // parallel sums may be added up in another order: compared after rounding
    for (double& d : v) d = (double)(float)d;
    push(r, v, 6);
    break;
  }
  case 3: {
    for (int i = 0; i < n; i++) w[i] = 0.5 + fabs(y[i]);
    double v[2] = {(double)(float)vcl_logsum(n, 1.5, w.p), (double)(float)vcl_sum(n, x.p)};
    push(r, v, 2);
    memcpy(w.p, y.p, n * 8);
    vcl_dxMy_pz(n, x.p, y.p, w.p);
    push(r, w.p, n);
    l1c_abs_vec(n, x.p, z.p);
    push(r, z.p, n);
    break;
  }
  case 4: {
    BregFuncs bf = breg_get_functions();
    bf.breg_shrink1(n, x.p, z.p, 0.3);
    push(r, z.p, n);
    bf.breg_mxpy_z(n, x.p, y.p, z.p);
    push(r, z.p, n);
    break;
  }
  default: {
    int N = c.mrow * c.mcol;
    Buf A(N), B(N);
    fill(A.p, N, mix(c.data, 9));
    Watch wa(A.p, N * 8, "image");
    typedef void (*tvf)(l1c_int, l1c_int, double, double*, double*);
    for (tvf f : {(tvf)l1c_Dx, (tvf)l1c_DxT, (tvf)l1c_DxTDx, (tvf)l1c_Dy, (tvf)l1c_DyT, (tvf)l1c_DyTDy}) {
      prior_fill(B.p, N, e.prior);
      f(c.mrow, c.mcol, 1.25, A.p, B.p);
      push(r, B.p, N);
    }
    wa.check(r);
  }
  }
  wx.check(r);
  wy.check(r);
}
static double** rows(int k, int m, std::vector<Buf*>& own, std::vector<double*>& ptr, u64 prior) {
  for (int i = 0; i < k; i++) {
    own.push_back(new Buf(m));
    prior_fill(own.back()->p, m, prior ? prior + i : 0);
    ptr.push_back(own.back()->p);
  }
  return ptr.data();
}
Res run_call(const Call& c, const Exec& e) {
  Res r;
  heap_call_begins();
  switch (c.type) {
  case K_CG: case K_CGP: {
    Buf x(c.m), b(c.m), M(c.m);
    CgData g{c.m, dvec(c.m, mix(c.data, 1), 1.0 / sqrt((double)c.m)), c.c ? 20.0 : 0.5, 0};
    fill(b.p, c.m, mix(c.data, 2));
    if (c.b) fill(x.p, c.m, mix(c.data, 3));
    if (c.b == 2) cg_op(c.m, x.p, b.p, &g);
    for (int i = 0; i < c.m; i++) M[i] = 1.0 / (1.0 + g.cond * (i % 7));
    shake(c, b.p, c.m);
    Watch wb(b.p, c.m * 8, "b"), wM(M.p, c.m * 8, "M_inv_diag");
    std::vector<Buf*> own;
    std::vector<double*> ptr;
    double** D = rows(5, c.m, own, ptr, e.prior);
    l1c_CgResults cr = {0, 0};
    l1c_CgParams pr;
    pr.verbose = c.verbose;
    pr.max_iter = c.a;
    pr.tol = c.p;
    g.calls = 0;
    r.status = c.type == K_CG ? l1c_cgsolve(c.m, x.p, b.p, D, cg_op, &g, &cr, pr)
                              : l1c_cgsolve_diag_precond(c.m, x.p, b.p, M.p, D, cg_op, &g, &cr, pr);
    push(r, x.p, c.m);
    double it = cr.cgiter;
    push(r, &cr.cgres, 1);
    push(r, &it, 1);
    wb.check(r);
    wM.check(r);
    r.op_calls = g.calls;
    for (Buf* o : own) delete o;
    break;
  }
  case K_LS: case K_LSXU: {
    int m = c.m;
    Buf x(m), u(m), dx(m), du(m), wk1(m), wk2(m);
    LsData g{m, dvec(m, mix(c.data, 1)), dvec(m, mix(c.data, 2)), 0};
    for (double& v : g.a) v = 0.5 + fabs(v);
    fill(x.p, m, mix(c.data, 3), 2.0);
    fill(u.p, m, mix(c.data, 4), 2.0);
    shake(c, x.p, m);
    double sg = c.a == 1 ? -1 : c.a == 2 ? 40 : 1;
    double gd = 0;
    for (int i = 0; i < m; i++) {
      double gx = g.a[i] * (x[i] - g.c[i]), gu = 0.5 * (u[i] + 1);
      dx[i] = -gx * sg;
      du[i] = -gu * sg;
      gd += gx * dx[i] + (c.type == K_LSXU ? gu * du[i] : 0);
    }
    prior_fill(wk1.p, m, e.prior);
    prior_fill(wk2.p, m, e.prior);
    double* W[2] = {wk1.p, wk2.p};
    LSParams lp;
    lp.alpha = c.p;
    lp.beta = c.q;
    lp.s = c.r;
    Watch wdx(dx.p, m * 8, "dx"), wdu(du.p, m * 8, "du");
    double f0 = c.type == K_LS ? ls_f(&g, x.p) : ls_fxu(&g, x.p, u.p);
    g.calls = 0;
    LSStat st = c.type == K_LS ? l1c_linesearch(m, x.p, dx.p, &f0, gd, &g, ls_f, lp, wk1.p)
                               : l1c_linesearch_xu(m, x.p, u.p, dx.p, du.p, &f0, gd, &g, ls_fxu, lp, W);
    push(r, x.p, m);
    push(r, u.p, m);
    double v[5] = {f0, st.flin, st.step, (double)st.iter, (double)st.status};
    push(r, v, 5);
    wdx.check(r);
    wdu.check(r);
    r.op_calls = g.calls;
    break;
  }
  case K_BREG: {
    int N = c.mrow * c.mcol;
    Buf uk(N), f(N);
    prior_fill(uk.p, N, e.prior);
    fill(f.p, N, mix(c.data, 1));
    shake(c, f.p, N);
    Watch wf(f.p, N * 8, "f");
    r.status = l1c_breg_anistropic_TV(c.mrow, c.mcol, uk.p, f.p, c.p, c.q, c.a, c.b);
    if (!r.status) push(r, uk.p, N);
    else r.touched = !is_prior(uk.p, N, e.prior);
    wf.check(r);
    break;
  }
  case K_L1QC_DCT: {
    Buf x(c.m), b(c.n + 1, 16);
    std::vector<int> idx = pick_idx(c.n, c.m, c.data), idx0 = idx;
    double* bp = b.p + ((c.data >> 3) & 1); // "need not be aligned"
    fill(bp, c.n, mix(c.data, 1));
    shake(c, bp, c.n);
    prior_fill(x.p, c.m, e.prior);
    Watch wb(bp, c.n * 8, "b");
    l1c_LBResult lb;
    memset(&lb, 0, sizeof lb);
    l1c_L1qcOpts o = c.l1;
    o.verbose = c.verbose;
    r.status = l1qc_dct(c.mrow, c.mcol, x.p, c.n, bp, idx.data(), o, &lb);
    if (!r.status) {
      push(r, x.p, c.m);
      double v[4] = {lb.l1, (double)lb.total_newton_iter, (double)lb.total_cg_iter, (double)lb.status};
      push(r, v, 4);
    } else
      r.touched = !is_prior(x.p, c.m, e.prior);
    wb.check(r);
    if (idx != idx0) r.changed = "pix_idx";
    break;
  }
  case K_L1QC_OWN: case K_L1QC_TV: {
    bool own = c.type == K_L1QC_OWN;
    std::vector<int> idx = pick_idx(c.n, c.m, c.data);
    l1c_AxFuns f = blank_funs();
    int m = c.m;
    if (own) {
      uops[e.slot].setup(c.n, c.m, 1, 0, c.data);
      f = user_funs(e.slot);
    } else {
      // synthesis without TV terms is the plain DCT synthesis problem, analysis subsamples
      r.status = l1c_setup_dctTV_transforms(c.n, c.mrow, c.mcol, 0, 0, c.l1.dct_mode, c.a ? analysis : synthesis,
                                            idx.data(), &f);
      if (r.status) break;
      m = f.m;
    }
    Buf x(m), b(c.n);
    fill(b.p, c.n, mix(c.data, 1));
    shake(c, b.p, c.n);
    if (own) uops[e.slot].At(b.p, x.p);
    else f.Aty(b.p, x.p);
    std::vector<double> x0 = x.vec();
    Watch wb(b.p, c.n * 8, "b");
    l1c_L1qcOpts o = c.l1;
    o.verbose = c.verbose;
    if (f.AtAx) {
      l1c_LBResult lb = l1c_l1qc_newton(m, x.p, c.n, b.p, o, f);
      r.status = lb.status;
      if (!r.status) {
        push(r, x.p, m);
        double v[3] = {lb.l1, (double)lb.total_newton_iter, (double)lb.total_cg_iter};
        push(r, v, 3);
      } else
        r.touched = memcmp(x0.data(), x.p, m * 8) != 0;
    }
    wb.check(r);
    if (own) r.op_calls = uops[e.slot].total;
    else f.destroy();
    break;
  }
  case K_NESTA_TV: case K_NESTA_OWN: case K_NESTA_MAT: {
    l1c_AxFuns f = blank_funs();
    std::vector<int> idx = pick_idx(c.n, c.m, c.data), idx0 = idx;
    Buf mat(c.type == K_NESTA_MAT ? (size_t)c.n * c.m : 1);
    if (c.type == K_NESTA_TV) {
      r.status = l1c_setup_dctTV_transforms(c.n, c.mrow, c.mcol, c.p, c.q, (DctMode)c.b, (BpMode)c.a, idx.data(), &f);
    } else if (c.type == K_NESTA_MAT) { // rows of an orthonormal matrix
      UserOps u;
      u.setup(c.n, c.m, 1, 0, c.data);
      std::vector<double> eye(c.n, 0.0);
      for (int i = 0; i < c.n; i++) {
        eye[i] = 1;
        u.At(eye.data(), mat.p + (size_t)i * c.m);
        eye[i] = 0;
      }
      r.status = l1c_setup_matrix_transforms(c.n, c.m, mat.p, &f);
    } else {
      uops[e.slot].setup(c.n, c.m, c.a, c.p, c.data);
      f = user_funs(e.slot);
    }
    if (r.status) break;
    Buf x(f.m), b(c.n);
    prior_fill(x.p, f.m, e.prior);
    fill(b.p, c.n, mix(c.data, 1));
    b[c.n / 2] += b[c.n / 2] < 0 ? -1 : 1; // zero is never feasible
    shake(c, b.p, c.n);
    Watch wb(b.p, c.n * 8, "b");
    l1c_NestaOpts o = c.ne;
    o.verbose = c.verbose;
    r.status = l1c_nesta(f.m, x.p, c.n, b.p, f, o);
    if (!r.status) push(r, x.p, f.m);
    else r.touched = !is_prior(x.p, f.m, e.prior);
    wb.check(r);
    if (idx != idx0) r.changed = "pix_idx";
    if (c.type != K_NESTA_OWN) f.destroy();
    else r.op_calls = uops[e.slot].total;
    break;
  }
  case K_DCT1: case K_DCT2: case K_DCTTV: case K_MAT: exec_set(c, e, r); break;
  case K_JSON: exec_json(c, r); break;
  case K_ALLOC2D: {
    double** d = c.a ? l1c_calloc_double_2D(c.mrow, c.mcol) : l1c_malloc_double_2D(c.mrow, c.mcol);
    if (!d) {
      r.status = L1C_OUT_OF_MEMORY;
      break;
    }
    for (int i = 0; i < c.mrow; i++) {
      if (c.a) push(r, d[i], c.mcol);
      fill(d[i], c.mcol, c.data + i);
    }
    for (int i = 0; i < c.mrow; i++) push(r, d[i], c.mcol);
    l1c_free_double_2D(c.mrow, d);
    break;
  }
  case K_KERN: exec_kern(c, e, r); break;
  }
  digest(r.status);
  if (!r.out.empty()) digest_d(r.out.data(), r.out.size());
  return r;
}
Res fresh_call(const Call& c, double jitter) {
  std::vector<double> v;
  fresh([&](std::vector<double>& o) {
    g_jitter = jitter;
    u64 a0 = lib_alloc_calls(), p0 = fft_plan_calls();
    Res r = run_call(c);
    o.push_back(r.status);
    o.push_back((double)(lib_alloc_calls() - a0));
    o.push_back((double)(fft_plan_calls() - p0));
    o.push_back((double)r.op_calls);
    o.insert(o.end(), r.out.begin(), r.out.end());
  }, v, nullptr);
  Res r;
  r.status = (int)v[0];
  r.allocs = (u64)v[1];
  r.plans = (u64)v[2];
  r.op_calls = (u64)v[3];
  r.out.assign(v.begin() + 4, v.end());
  return r;
}
} // namespace sim

namespace sim {
static std::vector<Scenario>& table() { static std::vector<Scenario> t; return t; }
Reg::Reg(const char* id, void (*run)(), void (*warm)()) { table().push_back(Scenario{id, run, warm}); }
const Scenario* find_scenario(const char* id) {
  for (auto& s : table())
    if (!strcmp(s.id, id)) return &s;
  return nullptr;
}
__attribute__((weak)) void arch_warm() {}
} // namespace sim

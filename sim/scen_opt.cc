// Kernels against their definition, solvers against every competitor we can find.
#include "scen.h"
#include "rt.h"
#include <algorithm>
#include <math.h>

namespace sim {
typedef std::vector<double> V;

// ------------------------------------------------------------------ C20
static const char* kern_name[] = {
    "daxpy_z", "daxpby_z", "daxpby", "dxmuly_z", "init_vec", "abs_vec", "dsum", "dnorm1", "dlogsum", "dnrm2_err", "dnrm2_rel_err", "max_vec",
    "vcl_logsum", "vcl_sum", "vcl_dxMy_pz", "shrink1", "mxpy_z", "Dx", "DxT", "DxTDx", "Dy", "DyT", "DyTDy", "gauss_seidel", "jacobi", "rhs", "inverse diagonal"};
enum { Q_VEC = 17, Q_TV = 23, Q_N = 27 };
// forward differences of a rows x cols image, or their transpose
static V diff(const V& x, int rows, int cols, bool vert, bool tr) {
  V y(x.size(), 0.0);
  for (int r = 0; r < rows; r++)
    for (int c = 0; c < cols; c++) {
      if (vert ? r + 1 >= rows : c + 1 >= cols) continue;
      size_t i = (size_t)r * cols + c, j = vert ? i + cols : i + 1;
      if (!tr) y[i] += x[j] - x[i];
      else {
        y[i] -= x[i];
        y[j] += x[i];
      }
    }
  return y;
}
static V scaled(V x, double a) {
  for (double& v : x) v *= a;
  return x;
}
static double amax(const V& x) {
  double s = 0;
  for (double v : x) s = std::max(s, fabs(v));
  return s;
}
struct KRun {
  int k, n, rows, cols;
  double al, be;
  u64 data;
  bool off;
  std::string str() const {
    char b[120];
    snprintf(b, sizeof b, "%s n=%d %dx%d alpha=%g beta=%g", kern_name[k], n, rows, cols, al, be);
    return b;
  }
};
static V values(size_t n, u64 seed) {
  V v(n);
  Rng r(seed);
  int kind = (int)r.below(6);
  for (double& x : v) {
    x = r.sym();
    if (kind == 1) x *= 1e6;
    if (kind == 2) x = r.chance(0.3) ? 0.0 : x;
    if (kind == 3) x = -fabs(x) - 0.1;
    if (kind == 4) x = floor(4 * x);
    if (kind == 5) x *= pow(10.0, (double)r.below(12) - 6);
  }
  return v;
}
static bool near(double a, double b, double tol) {
  if (!std::isfinite(b)) return std::isnan(b) ? std::isnan(a) : a == b;
  return std::isnan(tol) || fabs(a - b) <= tol;
}
static void c20_one(const KRun& k) {
  size_t n = k.n, N = (size_t)k.rows * k.cols;
  bool vec = k.k < Q_VEC, tv = !vec && k.k < Q_TV;
  size_t L = vec ? n : N;
  size_t o = tv && k.off ? 1 : 0; // the difference operators need no alignment
  Buf bx(L + o), by(L + o), bz(L + o);
  double *x = bx.p + o, *y = by.p + o, *z = bz.p + o;
  V vx = values(L, mix(k.data, 1)), vy = values(L, mix(k.data, 2)), vz = values(L, mix(k.data, 3));
  Rng sr(mix(k.data, 11));
  double lsign = sr.chance(0.5) ? -1 : 1; // both factors of the logarithm's argument may be negative
  if (k.k == 8 || k.k == 12) {
    for (double& v : vx) v = lsign * (fabs(v) + 1e-3);
    if (sr.chance(0.1)) vx[sr.below(L)] *= -1; // outside the domain: NaN
  }
  static const bool may_nan[] = {1, 1, 1, 1, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1, 1, 0, 1};
  if (vec && may_nan[k.k] && sr.chance(0.03)) { // no numbers and infinities pass through
    static const double bad[] = {NAN, INFINITY, -INFINITY};
    (sr.chance(0.5) ? vx : vy)[sr.below(L)] = bad[sr.below(3)];
  }
  memcpy(x, vx.data(), L * 8);
  memcpy(y, vy.data(), L * 8);
  memcpy(z, vz.data(), L * 8);
  double a = k.al, b = k.be;
  V want;
  double tol = 0;     // absolute, per entry
  double got1 = 0, want1 = 0, tol1 = -1;
  double* out = z;
  const double U = 1e-14;
  double ax = amax(vx), ay = amax(vy), az = amax(vz);
  long double s = 0, sa = 0, s2 = 0;
  switch (k.k) {
  case 0: l1c_daxpy_z(n, a, x, y, z); for (size_t i = 0; i < n; i++) want.push_back(a * vx[i] + vy[i]); tol = U * (fabs(a) * ax + ay); break;
  case 1: l1c_daxpby_z(n, a, x, b, y, z); for (size_t i = 0; i < n; i++) want.push_back(a * vx[i] + b * vy[i]); tol = U * (fabs(a) * ax + fabs(b) * ay); break;
  case 2: __l1c_daxpby(n, a, x, b, z); for (size_t i = 0; i < n; i++) want.push_back(a * vx[i] + b * vz[i]); tol = U * (fabs(a) * ax + fabs(b) * az); break;
  case 3: l1c_dxmuly_z(n, x, y, z); for (size_t i = 0; i < n; i++) want.push_back(vx[i] * vy[i]); tol = U * ax * ay; break;
  case 4: l1c_init_vec(n, z, a); want.assign(n, a); break;
  case 5: l1c_abs_vec(n, x, z); for (double v : vx) want.push_back(fabs(v)); break;
  case 6: case 13:
    got1 = k.k == 6 ? l1c_dsum(n, x) : vcl_sum(n, x);
    for (double v : vx) s += v, sa += fabs(v);
    want1 = s; tol1 = U * n * sa; break;
  case 7: got1 = l1c_dnorm1(n, x); for (double v : vx) sa += fabs(v); want1 = sa; tol1 = U * n * sa; break;
  case 8: case 12:
    a = lsign * (fabs(a) + 0.5);
    got1 = k.k == 8 ? l1c_dlogsum(n, a, x) : vcl_logsum(n, a, x);
    for (double v : vx) s += logl((long double)a * v), sa += fabsl(logl((long double)a * v)) + 1;
    want1 = s; tol1 = 1e-13 * n * sa; break;
  case 9: case 10:
    got1 = k.k == 9 ? l1c_dnrm2_err(n, x, y) : l1c_dnrm2_rel_err(n, x, y);
    for (size_t i = 0; i < n; i++) s += ((long double)vx[i] - vy[i]) * ((long double)vx[i] - vy[i]), s2 += (long double)vy[i] * vy[i];
    if (k.k == 10 && s2 == 0) return;
    want1 = k.k == 9 ? sqrtl(s) : sqrtl(s / s2);
    tol1 = 1e-12 * want1 + 1e-13 * (k.k == 9 ? ax + ay : (double)((ax + ay) / sqrtl(s2)));
    break;
  case 11: got1 = l1c_max_vec(n, x); want1 = *std::max_element(vx.begin(), vx.end()); tol1 = 0; break;
  case 14: vcl_dxMy_pz(n, x, y, z); for (size_t i = 0; i < n; i++) want.push_back(vx[i] * vy[i] + vz[i]); tol = U * (ax * ay + az); break;
  case 15: b = fabs(b); breg_get_functions().breg_shrink1(n, x, z, b);
    for (double v : vx) want.push_back(fabs(v) <= b ? 0.0 : v > 0 ? v - b : v + b);
    tol = U * (ax + b); break;
  case 16: breg_get_functions().breg_mxpy_z(n, x, y, z); for (size_t i = 0; i < n; i++) want.push_back(vy[i] - vx[i]); tol = U * (ax + ay); break;
  case 17: l1c_Dx(k.rows, k.cols, a, x, z); want = scaled(diff(vx, k.rows, k.cols, false, false), a); tol = 4 * U * fabs(a) * ax; break;
  case 18: l1c_DxT(k.rows, k.cols, a, x, z); want = scaled(diff(vx, k.rows, k.cols, false, true), a); tol = 4 * U * fabs(a) * ax; break;
  case 19: l1c_DxTDx(k.rows, k.cols, a, x, z); want = scaled(diff(diff(vx, k.rows, k.cols, false, false), k.rows, k.cols, false, true), a * a); tol = 8 * U * a * a * ax; break;
  case 20: l1c_Dy(k.rows, k.cols, a, x, z); want = scaled(diff(vx, k.rows, k.cols, true, false), a); tol = 4 * U * fabs(a) * ax; break;
  case 21: l1c_DyT(k.rows, k.cols, a, x, z); want = scaled(diff(vx, k.rows, k.cols, true, true), a); tol = 4 * U * fabs(a) * ax; break;
  case 22: l1c_DyTDy(k.rows, k.cols, a, x, z); want = scaled(diff(diff(vx, k.rows, k.cols, true, false), k.rows, k.cols, true, true), a * a); tol = 8 * U * a * a * ax; break;
  case 23: case 24: case 26: { // sweeps of H u = rhs, H = mu I + lambda (Dx'Dx + Dy'Dy)
    double mu = 0.1 + fabs(a), la = 0.1 + fabs(b);
    int R = k.rows, C = k.cols;
    V D(N, 0.0), u = vz;
    for (int r = 0; r < R; r++)
      for (int c = 0; c < C; c++) D[r * C + c] = mu + la * ((r > 0) + (r + 1 < R) + (c > 0) + (c + 1 < C));
    if (k.k == 26) {
      breg_get_functions().hess_inv_diag(R, C, mu, la, z);
      for (double d : D) want.push_back(1 / d);
      tol = U / mu;
      break;
    }
    auto nb = [&](const V& w, int r, int c) {
      double q = 0;
      if (r > 0) q += w[(r - 1) * C + c];
      if (r + 1 < R) q += w[(r + 1) * C + c];
      if (c > 0) q += w[r * C + c - 1];
      if (c + 1 < C) q += w[r * C + c + 1];
      return q;
    };
    V old = u;
    for (int r = 0; r < R; r++)
      for (int c = 0; c < C; c++) u[r * C + c] = (vx[r * C + c] + la * nb(k.k == 23 ? u : old, r, c)) / D[r * C + c];
    if (k.k == 23) breg_get_functions().breg_anis_guass_seidel(R, C, z, x, mu, la);
    else {
      Buf Di(N), wk(N);
      for (size_t i = 0; i < N; i++) Di[i] = 1 / D[i];
      breg_get_functions().breg_anis_jacobi(R, C, z, wk.p, x, Di.p, la);
    }
    want = u;
    tol = 100 * U * (ax / mu + az);
    break;
  }
  case 25: {
    V f = values(N, mix(k.data, 7)), w4 = values(N, mix(k.data, 8));
    Buf bf(N), b4(N), w1(N), w2(N);
    memcpy(bf.p, f.data(), N * 8);
    memcpy(b4.p, w4.data(), N * 8);
    double mu = 0.1 + fabs(a), la = 0.1 + fabs(b);
    // rhs = mu f + la Dx'(dx - bx) + la Dy'(dy - by)
    Buf rh(N);
    breg_get_functions().breg_anis_rhs(k.rows, k.cols, bf.p, x, y, b4.p, z, rh.p, mu, la, w1.p, w2.p);
    V p(N), q(N);
    for (size_t i = 0; i < N; i++) p[i] = vx[i] - vy[i], q[i] = w4[i] - vz[i];
    p = diff(p, k.rows, k.cols, false, true);
    q = diff(q, k.rows, k.cols, true, true);
    double t = 20 * U * (mu * amax(f) + la * (ax + ay + az + amax(w4)));
    for (size_t i = 0; i < N; i++) {
      double w = mu * f[i] + la * p[i] + la * q[i];
      if (!(fabs(rh[i] - w) <= t)) violation("wrong-kernel", "%s: entry %zu is %.17g, the definition gives %.17g", k.str().c_str(), i, rh[i], w);
    }
    if (memcmp(bf.p, f.data(), N * 8) || memcmp(b4.p, w4.data(), N * 8) || memcmp(z, vz.data(), N * 8)) violation("input-changed", "%s changed an input", k.str().c_str());
    digest_d(rh.p, N);
    break;
  }
  }
  heap_check_canaries();
  if (memcmp(x, vx.data(), L * 8) || memcmp(y, vy.data(), L * 8)) violation("input-changed", "%s changed an input", k.str().c_str());
  for (size_t i = 0; i < want.size(); i++)
    if (!near(out[i], want[i], tol)) violation("wrong-kernel", "%s: entry %zu is %.17g, the definition gives %.17g", k.str().c_str(), i, out[i], want[i]);
  if (!(tol1 < 0)) {
    if (!near(got1, want1, tol1)) violation("wrong-kernel", "%s is %.17g, the definition gives %.17g", k.str().c_str(), got1, want1);
    digest_d(&got1, 1);
  } else digest_d(out, want.size());
}
static void c20() {
  int calls = (int)work(1, 3);
  policy_threads(8);
  policy_mem();
  for (int i = 0; i < calls; i++) {
    KRun k;
    k.k = (int)work(0, Q_N - 1);
    k.n = gen_size(3000);
    k.rows = (int)work(2, workp(0.2) ? 20 : 7);
    k.cols = (int)work(2, workp(0.2) ? 20 : 7);
    if (workp(0.01)) { // sizes no threshold should separate from the small ones
      k.n = (int)work(3000, g_flavour[0] == 'B' ? 300000 : 30000);
      k.rows = (int)work(2, workp(0.5) ? 40 : 400);
      k.cols = (int)work(2, (g_flavour[0] == 'B' ? 40000 : 6000) / k.rows);
      if (workp(0.5)) std::swap(k.rows, k.cols);
    }
    static const double cs[] = {1, -1, 0, 0.5, 2.5, -3.25, 1e3, 1e-3};
    k.al = cs[work(0, 7)];
    k.be = cs[work(0, 7)];
    k.data = work(1, 0xffffffff);
    k.off = workp(0.4);
    note("%s on up to %d threads", k.str().c_str(), sched_policy.threads);
    state(mix(k.k, sched_policy.threads * 100 + (k.k < Q_VEC ? k.n % 17 : k.rows)));
    c20_one(k);
  }
}

// ------------------------------------------------------------------ C21
// One convex problem: min ||W^T x||_1 subject to ||A x - b|| <= eps, A with orthonormal rows.
struct Prob {
  int n, m, p;
  V A, W; // row major: A n by m, Wt p by m
  V b;
  double eps, nW;
  V Ax(const V& x) const {
    V y(n, 0.0);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) y[i] += A[(size_t)i * m + j] * x[j];
    return y;
  }
  V Wt(const V& x) const {
    V y(p, 0.0);
    for (int i = 0; i < p; i++)
      for (int j = 0; j < m; j++) y[i] += W[(size_t)i * m + j] * x[j];
    return y;
  }
  double f(const V& x) const {
    double s = 0;
    for (double v : Wt(x)) s += fabs(v);
    return s;
  }
  double res(const V& x) const {
    V y = Ax(x);
    double s = 0;
    for (int i = 0; i < n; i++) s += (y[i] - b[i]) * (y[i] - b[i]);
    return sqrt(s);
  }
  void project(V& x) const { // onto the constraint set; A A^T = I
    V y = Ax(x);
    double s = 0;
    for (int i = 0; i < n; i++) y[i] -= b[i], s += y[i] * y[i];
    s = sqrt(s);
    if (s <= eps) return;
    double k = 1 - eps / s;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) x[j] -= k * A[(size_t)i * m + j] * y[i];
  }
  // smallest objective over the feasible points a primal-dual iteration visits
  double best(int iters) const {
    V x(m, 0.0), y(p, 0.0), xb, xn;
    project(x);
    xb = x;
    double t = 0.95 / nW, s = 0.95 / nW, bf = f(x);
    for (int k = 0; k < iters; k++) {
      V w = Wt(xb);
      for (int i = 0; i < p; i++) y[i] = std::max(-1.0, std::min(1.0, y[i] + s * w[i]));
      xn = x;
      for (int i = 0; i < p; i++)
        for (int j = 0; j < m; j++) xn[j] -= t * W[(size_t)i * m + j] * y[i];
      project(xn);
      for (int j = 0; j < m; j++) xb[j] = 2 * xn[j] - x[j];
      x = xn;
      if (k % 10 == 9) bf = std::min(bf, f(x));
    }
    return bf;
  }
};
// columns of a linear map, one at a time
static V dense(int rows, int cols, const std::function<void(const V&, V&)>& op) {
  V M((size_t)rows * cols);
  for (int j = 0; j < cols; j++) {
    V e(cols, 0.0), y(rows, 0.0);
    e[j] = 1;
    op(e, y);
    for (int i = 0; i < rows; i++) M[(size_t)i * cols + j] = y[i];
  }
  return M;
}
static V dct_table(int N) {
  V t((size_t)N * N); // t[k*N+j]: coefficient k of sample j
  for (int j = 0; j < N; j++)
    for (int k = 0; k < N; k++) t[(size_t)k * N + j] = (k ? sqrt(2.0 / N) : sqrt(1.0 / N)) * cos(M_PI * (2.0 * j + 1) * k / (2.0 * N));
  return t;
}
// analysis matrix of an image: coefficients from pixels
static V dct_dense(int rows, int cols, bool two) {
  int m = rows * cols;
  if (!two) return dct_table(m);
  V r = dct_table(rows), c = dct_table(cols), M((size_t)m * m);
  for (int a = 0; a < rows; a++)
    for (int q = 0; q < cols; q++)
      for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++) M[(size_t)(a * cols + q) * m + i * cols + j] = r[a * rows + i] * c[q * cols + j];
  return M;
}
static double tv_obj(const V& u, const V& f, int rows, int cols, double mu) {
  double s = 0;
  for (size_t i = 0; i < u.size(); i++) s += 0.5 * mu * (u[i] - f[i]) * (u[i] - f[i]);
  for (double v : diff(u, rows, cols, false, false)) s += fabs(v);
  for (double v : diff(u, rows, cols, true, false)) s += fabs(v);
  return s;
}
// smallest TV objective over the points of a projected gradient iteration on the dual
static double tv_best(const V& f, int rows, int cols, double mu, int iters) {
  size_t N = f.size();
  V px(N, 0.0), py(N, 0.0), qx = px, qy = py, u;
  double bf = INFINITY, tk = 1;
  for (int k = 0; k < iters; k++) {
    V a = diff(qx, rows, cols, false, true), c = diff(qy, rows, cols, true, true);
    u = f;
    for (size_t i = 0; i < N; i++) u[i] -= (a[i] + c[i]) / mu;
    V gx = diff(u, rows, cols, false, false), gy = diff(u, rows, cols, true, false);
    V ox = px, oy = py;
    for (size_t i = 0; i < N; i++) {
      px[i] = std::max(-1.0, std::min(1.0, qx[i] + mu / 8 * gx[i]));
      py[i] = std::max(-1.0, std::min(1.0, qy[i] + mu / 8 * gy[i]));
    }
    double tn = 0.5 * (1 + sqrt(1 + 4 * tk * tk)), w = (tk - 1) / tn;
    tk = tn;
    for (size_t i = 0; i < N; i++) {
      qx[i] = px[i] + w * (px[i] - ox[i]);
      qy[i] = py[i] + w * (py[i] - oy[i]);
    }
    if (k % 10 == 9) bf = std::min(bf, tv_obj(u, f, rows, cols, mu));
  }
  return bf;
}
static void c21() {
  enum { TVD, L1OWN, L1DCT, NOWN, NTV, NMAT };
  int kind = (int)workw({3, 3, 3, 3, 4, 2});
  u64 data = work(1, 0xffffffff);
  int rows = (int)work(kind == NTV ? 3 : 2, 5), cols = (int)work(kind == NTV ? 3 : 2, 5);
  if (kind == TVD && workp(0.3)) rows = (int)work(2, 9), cols = (int)work(2, 9);
  int m = kind == L1OWN || kind == NOWN || kind == NMAT ? (int)work(4, 24) : rows * cols;
  int n = std::max(1, (int)work((m + 3) / 4, m));
  int sparse = 1 + (int)work(0, std::max(1, n / 3));
  double noise = work(0, 3) * 0.02;
  bool two = workp(0.5);
  int av = (int)work(0, 2), ah = (int)work(0, 2), over = (int)work(1, 2);
  int acc = (int)work(0, 2);
  bool earlier = workp(0.5);
  Call before = gen_call(M_ALL & ~BIT(K_JSON), 1);
  if (earlier) {
    Res rb = fresh_call(before);
    policy_alloc(rb.allocs);
    if (rb.plans && policy_rng().chance(0.4)) policy_fft(rb.plans);
  }
  policy_threads(workp(0.5) ? 4 : 1);
  policy_mem();
  if (earlier) { // something failed before; it must not matter
    set_faults(true);
    Res rb = run_call(before);
    note("before: %s -> %d", before.str().c_str(), rb.status);
  }
  set_faults(false);
  std::vector<int> idx = pick_idx(n, m, data);
  Rng r(data);
  double got, bound, slack;
  char what[200];
  if (kind == TVD) {
    static const double mus[] = {1, 4, 12};
    double mu = mus[acc];
    Buf f(m), u(m);
    V vf(m);
    for (int i = 0; i < rows; i++)
      for (int j = 0; j < cols; j++) vf[i * cols + j] = (i < rows / 2) + 0.5 * (j > cols / 2) + (0.05 + noise) * r.sym();
    memcpy(f.p, vf.data(), m * 8);
    fill(u.p, m, data, 5.0);
    int jac = 1 + ah;
    int st = l1c_breg_anistropic_TV(rows, cols, u.p, f.p, mu, 1e-9, 800, jac);
    snprintf(what, sizeof what, "breg_anistropic_TV %dx%d mu=%g data=%llx", rows, cols, mu, (unsigned long long)data);
    if (st) violation("not-solved", "%s returned %d", what, st);
    got = tv_obj(u.vec(), vf, rows, cols, mu);
    bound = tv_best(vf, rows, cols, mu, 600);
    slack = 1e-6 * bound + 1e-9;
  } else {
    Prob P;
    P.n = n;
    P.m = m;
    UserOps& U = uops[0];
    U.setup(n, m, kind == NOWN ? over : 1, 0.75, data);
    l1c_AxFuns F;
    memset(&F, 0, sizeof F);
    std::vector<double> coef; // pixels -> coefficients
    Buf mat((size_t)n * m);
    double alv = 0.5 * av, alh = 0.5 * ah;
    V TV; // unscaled analysis rows
    if (kind == L1OWN || kind == NOWN || kind == NMAT) {
      P.A = dense(n, m, [&](const V& x, V& y) { U.A(x.data(), y.data()); });
      P.W.assign((size_t)m * m, 0.0);
      for (int i = 0; i < m; i++) P.W[(size_t)i * m + i] = 1;
      P.p = m;
      P.nW = 1;
      if (kind == NOWN && over == 2) {
        // second half: alpha * H, H the reflection in U.v2
        P.W.resize((size_t)2 * m * m);
        for (int i = 0; i < m; i++)
          for (int j = 0; j < m; j++) P.W[(size_t)(m + i) * m + j] = U.alpha * ((i == j) - 2 * U.v2[i] * U.v2[j]);
        P.p = 2 * m;
        P.nW = sqrt(1 + U.alpha * U.alpha);
      }
    } else {
      coef = dct_dense(rows, cols, two);
      P.A.assign((size_t)n * m, 0.0);
      for (int i = 0; i < n; i++) P.A[(size_t)i * m + idx[i]] = 1;
      P.W = coef;
      P.p = m;
      P.nW = 1;
      if (kind == NTV) {
        for (int d = 0; d < 2; d++) {
          double a = d == 0 ? alv : alh;
          if (!(a > 0)) continue;
          V D = dense(m, m, [&](const V& x, V& y) { y = scaled(diff(x, rows, cols, d == 0, true), a); });
          P.W.insert(P.W.end(), D.begin(), D.end());
          P.p += m;
        }
        P.nW = sqrt(1 + 4 * alv * alv + 4 * alh * alh);
      }
    }
    // a planted signal that is sparse where the problem looks for sparsity
    V s(m, 0.0), xs(m, 0.0);
    for (int i = 0; i < sparse; i++) s[r.below(m)] = r.sym() * 2 + (r.chance(0.5) ? 1 : -1);
    if (coef.empty()) xs = s;
    else
      for (int j = 0; j < m; j++)
        for (int k = 0; k < m; k++) xs[j] += coef[(size_t)k * m + j] * s[k];
    P.b = P.Ax(xs);
    double nn = 0;
    V e(n);
    for (double& v : e) v = r.sym(), nn += v * v;
    nn = sqrt(nn);
    static const double epss[] = {0.1, 0.02, 0.3};
    P.eps = epss[work(0, 2)];
    double level = std::min(noise, 0.9 * P.eps);
    for (int i = 0; i < n; i++) P.b[i] += level * e[i] / (nn + 1e-300);
    double bn = 0;
    for (double v : P.b) bn += v * v;
    if (sqrt(bn) < 2 * P.eps) { // zero would be feasible
      P.b[0] += P.b[0] < 0 ? -3 * P.eps : 3 * P.eps;
    }
    double r0 = std::min(P.best(800), level <= P.eps && P.res(xs) <= P.eps ? P.f(xs) : INFINITY);
    Buf x(m), b(n);
    memcpy(b.p, P.b.data(), n * 8);
    int st;
    if (kind == L1OWN || kind == L1DCT) {
      l1c_L1qcOpts o;
      memset(&o, 0, sizeof o);
      static const double lb[] = {1e-2, 1e-3, 1e-4};
      o.epsilon = P.eps;
      o.mu = 10;
      o.lbtol = lb[acc];
      o.newton_tol = lb[acc];
      o.newton_max_iter = 60;
      o.l1_tol = 0;
      o.cg_tol = 1e-9;
      o.cg_maxiter = 400;
      o.warm_start_cg = (int)work(0, 2);
      o.dct_mode = two ? dct2 : dct1;
      if (kind == L1OWN) {
        U.At(b.p, x.p);
        st = l1c_l1qc_newton(m, x.p, n, b.p, o, user_funs(0)).status;
      } else {
        l1c_LBResult lbr;
        st = l1qc_dct(rows, cols, x.p, n, b.p, idx.data(), o, &lbr);
      }
      slack = 20 * o.lbtol + 2e-3 * r0;
      snprintf(what, sizeof what, "%s n=%d m=%d %dx%d %s eps=%g lbtol=%g data=%llx", kind == L1OWN ? "l1qc_newton" : "l1qc_dct", n, m, rows, cols, two ? "dct2" : "dct1",
               P.eps, o.lbtol, (unsigned long long)data);
    } else {
      l1c_NestaOpts o;
      memset(&o, 0, sizeof o);
      static const double mu[] = {1e-2, 1e-3, 1e-4}, tl[] = {1e-5, 1e-6, 1e-7};
      o.mu = mu[acc];
      o.tol = tl[acc];
      o.sigma = P.eps;
      o.n_continue = workp(0.5) ? 5 : (int)work(3, 9);
      if (kind == NOWN) F = user_funs(0), st = 0;
      else if (kind == NMAT) {
        memcpy(mat.p, P.A.data(), P.A.size() * 8);
        st = l1c_setup_matrix_transforms(n, m, mat.p, &F);
      } else
        st = l1c_setup_dctTV_transforms(n, rows, cols, alv, alh, two ? dct2 : dct1, analysis, idx.data(), &F);
      if (!st) {
        st = l1c_nesta(m, x.p, n, b.p, F, o);
        F.destroy();
      }
      snprintf(what, sizeof what, "nesta %s n=%d m=%d %dx%d %s alpha=%g,%g sigma=%g mu=%g tol=%g n_continue=%d data=%llx", kind == NOWN ? "own" : kind == NMAT ? "matrix" : "dctTV", n, m,
               rows, cols, two ? "dct2" : "dct1", alv, alh, P.eps, o.mu, o.tol, o.n_continue, (unsigned long long)data);
      slack = 0.5 * o.mu * P.p + 0.1 * r0;
    }
    if (st) violation("not-solved", "%s returned %d", what, st);
    V xv = x.vec();
    got = P.f(xv);
    bound = r0;
    double rs = P.res(xv);
    if (!(rs <= P.eps * (1 + 1e-6) + 1e-9)) violation("infeasible", "%s returned a point with residual %g", what, rs);
  }
  note("%s: objective %.9g, best competitor %.9g, gap/slack %.3g", what, got, bound, (got - bound) / slack);
  state(mix(kind * 8 + acc, (u64)n * 64 + m));
  heap_check_canaries();
  if (!(got - bound <= slack)) violation("not-minimal", "%s: its objective is %.9g, but %.9g is feasible", what, got, bound);
  digest_d(&got, 1);
}
static Reg r20("C20", c20), r21("C21", c21);
} // namespace sim

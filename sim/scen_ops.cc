// Operators and algorithms under misbehaving surroundings.
#include "scen.h"
#include "rt.h"
#include <algorithm>
#include <memory>
#include <math.h>

namespace sim {
static double nrm2(const double* x, size_t n) {
  double s = 0;
  for (size_t i = 0; i < n; i++) s += x[i] * x[i];
  return sqrt(s);
}
static double amax(const double* x, size_t n) {
  double s = 0;
  for (size_t i = 0; i < n; i++) s = std::max(s, fabs(x[i]));
  return s;
}
typedef std::vector<double> V;

// ------------------------------------------------------------------ dense reference of the transform sets
struct Model {
  enum { DCT1, DCT2, TV, MAT } kind = DCT1;
  int n = 0, m = 0, mrow = 0, mcol = 0;
  double av = 0, ah = 0;
  bool dct1 = true, synth = true;
  std::vector<int> idx;
  V mat; // row major n by m
  V c1, c2; // 1-D cosine tables

  static V table(int N) {
    V t((size_t)N * N); // t[j*N+k]: sample j of basis function k
    for (int j = 0; j < N; j++)
      for (int k = 0; k < N; k++)
        t[(size_t)j * N + k] = (k ? sqrt(2.0 / N) : sqrt(1.0 / N)) * cos(M_PI * (2.0 * j + 1) * k / (2.0 * N));
    return t;
  }
  void prepare() {
    if (kind == MAT) return;
    if (dct1) c1 = table(m);
    else {
      c1 = table(mrow);
      c2 = table(mcol);
    }
  }
  // one dimension of a matrix laid out as rows by cols
  static V apply(const V& t, int N, const V& x, int rows, int cols, bool along_rows, bool tr) {
    V y(x.size(), 0.0);
    for (int r = 0; r < rows; r++)
      for (int c = 0; c < cols; c++) {
        double s = 0;
        for (int k = 0; k < N; k++) {
          int j = along_rows ? r : c;
          double w = tr ? t[(size_t)k * N + j] : t[(size_t)j * N + k];
          s += w * (along_rows ? x[(size_t)k * cols + c] : x[(size_t)r * cols + k]);
        }
        y[(size_t)r * cols + c] = s;
      }
    return y;
  }
  V M(const V& x, bool tr) const {
    if (dct1) return apply(c1, m, x, m, 1, true, tr);
    return apply(c2, mcol, apply(c1, mrow, x, mrow, mcol, true, tr), mrow, mcol, false, tr);
  }
  V E(const V& x) const {
    V y(n);
    for (int i = 0; i < n; i++) y[i] = x[idx[i]];
    return y;
  }
  V Et(const V& y) const {
    V x(m, 0.0);
    for (int i = 0; i < n; i++) x[idx[i]] = y[i];
    return x;
  }
  V D(const V& x, bool vert, bool tr, double a) const {
    V y(m, 0.0);
    for (int r = 0; r < mrow; r++)
      for (int c = 0; c < mcol; c++) {
        int i = r * mcol + c, j = vert ? i + mcol : i + 1;
        if (vert ? r + 1 >= mrow : c + 1 >= mcol) continue;
        if (!tr) y[i] += a * (x[j] - x[i]);
        else {
          y[j] += a * x[i];
          y[i] -= a * x[i];
        }
      }
    return y;
  }
  int pp() const { return m * (1 + (av > 0) + (ah > 0)); }
  V W(const V& z) const {
    V y = M(V(z.begin(), z.begin() + m), false);
    size_t o = m;
    auto add = [&](bool vert, double a) {
      V d = D(V(z.begin() + o, z.begin() + o + m), vert, false, a);
      for (int i = 0; i < m; i++) y[i] += d[i];
      o += m;
    };
    if (av > 0) add(true, av);
    if (ah > 0) add(false, ah);
    return y;
  }
  V Wt(const V& x) const {
    V z = M(x, true);
    if (av > 0) { V d = D(x, true, true, av); z.insert(z.end(), d.begin(), d.end()); }
    if (ah > 0) { V d = D(x, false, true, ah); z.insert(z.end(), d.begin(), d.end()); }
    return z;
  }
  V mv(const V& x, bool tr) const {
    V y(tr ? m : n, 0.0);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++)
        if (tr) y[j] += mat[(size_t)i * m + j] * x[i];
        else y[i] += mat[(size_t)i * m + j] * x[j];
    return y;
  }
  int sm() const { return kind == TV && synth ? pp() : m; } // columns of A
  // sizes of operator k, in the order of get_op
  bool dims(int k, int* in, int* out) const {
    int M_ = sm(), p = kind == TV && !synth ? pp() : m;
    static const char I[] = "mnmmqqnpm", O[] = "nmmqmnqmp";
    auto f = [&](char c) { return c == 'm' ? M_ : c == 'n' ? n : c == 'q' ? m : p; };
    *in = f(I[k]);
    *out = f(O[k]);
    if (kind == TV && synth && k >= 7) {
      if (pp() != m) return false; // not defined by the documentation
    }
    return true;
  }
  V op(int k, const V& x) const {
    if (kind == MAT) {
      switch (k) {
      case 0: case 5: return mv(x, false);
      case 1: case 6: return mv(x, true);
      case 2: return mv(mv(x, false), true);
      default: return x;
      }
    }
    bool ana = kind == TV && !synth;
    switch (k) {
    case 0: return ana ? E(x) : E(kind == TV ? W(x) : M(x, false));
    case 1: return ana ? Et(x) : kind == TV ? Wt(Et(x)) : M(Et(x), true);
    case 2: return op(1, op(0, x));
    case 3: return ana ? x : kind == TV ? W(x) : M(x, false);
    case 4: return ana ? x : kind == TV ? Wt(x) : M(x, true);
    case 5: return E(x);
    case 6: return Et(x);
    case 7: return ana ? W(x) : x;
    default: return ana ? Wt(x) : x;
    }
  }
  double norm() const {
    if (kind != MAT) return sqrt(1 + 4 * av * av + 4 * ah * ah);
    return std::max(1.0, nrm2(mat.data(), mat.size()));
  }
};
static const char* op_name[] = {"Ax", "Aty", "AtAx", "Mx", "Mty", "Rx", "Rty", "Wz", "Wtx"};
static const char* set_name[] = {"dct1", "dct2", "dctTV", "matrix"};

struct LiveSet {
  Model md;
  l1c_AxFuns f;
  std::unique_ptr<Buf> mat;
  std::unique_ptr<Buf> x, y; // reused operand arrays
  std::vector<int> idx, idx0;
  u64 ops = 0;
};
static void gen_model(Model& md, int kind, bool over_dct1, const Model* like = nullptr) {
  md.kind = (decltype(md.kind))kind;
  if (like) { // the shape of an earlier set of this kind, something else changed
    md.m = like->m;
    md.mrow = like->mrow;
    md.mcol = like->mcol;
    md.dct1 = kind == Model::TV ? over_dct1 : like->dct1;
    md.synth = like->synth;
    md.av = like->av;
    md.ah = like->ah;
    switch (work(0, 4)) {
    case 1:
      if (kind == Model::DCT2 || kind == Model::TV) {
        md.mcol = (int)work(3, 9);
        md.m = md.mrow * md.mcol;
      }
      break;
    case 2: std::swap(md.mrow, md.mcol); break;
    case 3:
      if (kind == Model::TV && md.mrow > 2 && md.mcol > 2) {
        md.av = workp(0.6) ? 0.25 * work(1, 6) : 0;
        md.ah = workp(0.6) ? 0.25 * work(1, 6) : 0;
      }
      break;
    case 4:
      if (kind == Model::TV) md.synth = !md.synth;
      break;
    }
  } else if (kind == Model::DCT1) {
    md.m = (int)(workp(0.15) ? work(20, 120) : work(1, 20));
    md.mrow = md.m;
    md.mcol = 1;
    if (workp(0.3) && md.m > 1) std::swap(md.mrow, md.mcol);
    else if (workp(0.3)) { // an image treated as a vector
      md.mrow = (int)work(1, 6);
      md.mcol = (int)work(1, 6);
      md.m = md.mrow * md.mcol;
    }
    md.dct1 = true;
  } else if (kind == Model::DCT2) {
    md.mrow = (int)work(2, workp(0.2) ? 14 : 6);
    md.mcol = (int)work(2, workp(0.2) ? 14 : 6);
    md.m = md.mrow * md.mcol;
    md.dct1 = false;
  } else if (kind == Model::TV) {
    md.mrow = (int)work(3, workp(0.2) ? 12 : 5);
    md.mcol = (int)work(3, workp(0.2) ? 12 : 5);
    md.av = workp(0.6) ? 0.25 * work(1, 6) : 0;
    md.ah = workp(0.6) ? 0.25 * work(1, 6) : 0;
    if (md.av == 0 && md.ah == 0 && workp(0.3)) { // no differences: thin images are fine
      md.mrow = over_dct1 ? 1 : 2;
      md.mcol = (int)work(2, 9);
    }
    md.m = md.mrow * md.mcol;
    md.dct1 = over_dct1;
    md.synth = workp(0.5);
  } else {
    md.m = (int)work(1, 14);
  }
  if (!like && workp(0.01)) { // a large one now and then
    md.m = (int)work(120, 700);
    md.mrow = md.m;
    md.mcol = 1;
    if (kind == Model::DCT2 || kind == Model::TV) {
      md.mrow = (int)work(3, 60);
      md.mcol = (int)work(3, 900 / md.mrow);
      if (workp(0.5)) std::swap(md.mrow, md.mcol);
      md.m = md.mrow * md.mcol;
    } else if (kind == Model::MAT) md.m = md.mrow = (int)work(20, 150);
  }
  md.n = kind == Model::MAT ? (int)work(1, md.m > 14 ? 100 : 14) : (int)work(1, md.m);
  if (like && like->n <= md.m && workp(0.6)) md.n = like->n;
  u64 seed = work(1, 0xffffffff);
  if (kind == Model::MAT) md.mat = dvec((size_t)md.n * md.m, seed);
  else md.idx = pick_idx(md.n, md.m, seed);
  md.prepare();
}
static int do_setup(LiveSet& s, int entry) {
  Model& md = s.md;
  memset(&s.f, 0, sizeof s.f);
  s.idx = s.idx0 = md.idx;
  if (md.kind == Model::MAT) {
    s.mat.reset(new Buf(md.mat.size()));
    memcpy(s.mat->p, md.mat.data(), md.mat.size() * 8);
    return l1c_setup_matrix_transforms(md.n, md.m, s.mat->p, &s.f);
  }
  if (md.kind == Model::TV)
    return l1c_setup_dctTV_transforms(md.n, md.mrow, md.mcol, md.av, md.ah, md.dct1 ? dct1 : dct2,
                                      md.synth ? synthesis : analysis, s.idx.data(), &s.f);
  if (entry)
    return l1c_setup_dct_transforms(md.n, md.mrow, md.mcol, md.dct1 ? dct1 : dct2, s.idx.data(), &s.f);
  if (md.kind == Model::DCT1) return l1c_dct1_setup(md.n, md.m, s.idx.data(), &s.f);
  return l1c_dct2_setup(md.n, md.mrow, md.mcol, s.idx.data(), &s.f);
}
static void gen_vec(double* x, int n, u64 seed) {
  Rng r(seed);
  int k = (int)r.below(8);
  double sc = k == 0 ? 1e8 : k == 1 ? 1e-8 : 1;
  fill(x, n, seed, sc);
  if (k == 2)
    for (int i = 0; i < n; i++) if (!r.chance(0.2)) x[i] = 0;
  if (k == 3) {
    for (int i = 0; i < n; i++) x[i] = 0;
    x[r.below(n)] = 1;
  }
  if (k == 4) for (int i = 0; i < n; i++) x[i] = 3.5;
}
static void use_op(LiveSet& s, int k, u64 seed, bool reuse) {
  int in, out, fi, fo;
  if (!s.md.dims(k, &in, &out)) return;
  opfn op = get_op(s.f, k, &fi, &fo);
  if (!op) violation("missing-operator", "the %s set has no %s", set_name[s.md.kind], op_name[k]);
  if (fi != in || fo != out)
    violation("wrong-size", "the %s set reports sizes n=%d m=%d p=%d q=%d for n=%d, m=%d", set_name[s.md.kind], (int)s.f.n,
              (int)s.f.m, (int)s.f.p, (int)s.f.q, s.md.n, s.md.m);
  int cap = std::max(std::max(in, out), s.md.pp());
  cap = std::max(cap, s.md.n);
  if (!reuse || !s.x) {
    s.x.reset(new Buf(cap));
    s.y.reset(new Buf(cap));
  }
  // exactly sized operands half of the time, so that any access beyond them is seen
  Buf xe(in), ye(out);
  double* x = reuse ? s.x->p : xe.p;
  double* y = reuse ? s.y->p : ye.p;
  gen_vec(x, in, seed);
  fill(y, out, mix(seed, 3), 2.0);
  V x0(x, x + in);
  op(x, y);
  s.ops++;
  if (memcmp(x0.data(), x, in * 8))
    violation("input-changed", "%s of the %s set changed its input", op_name[k], set_name[s.md.kind]);
  if (s.idx != s.idx0) violation("input-changed", "%s of the %s set changed the sampling positions", op_name[k], set_name[s.md.kind]);
  V want = s.md.op(k, x0);
  double tol = 1e-9 * (amax(x0.data(), in) * sqrt((double)s.md.m + 1) * s.md.norm() * s.md.norm() + 1e-300);
  for (int i = 0; i < out; i++)
    if (!(fabs(y[i] - want[i]) <= tol))
      violation("wrong-operator", "%s of the %s set (n=%d %dx%d av=%g ah=%g %s): entry %d is %.12g, the matrix gives %.12g",
                op_name[k], set_name[s.md.kind], s.md.n, s.md.mrow, s.md.mcol, s.md.av, s.md.ah,
                s.md.synth ? "synthesis" : "analysis", i, y[i], want[i]);
  if (k == 8 && nrm2(y, out) > s.f.norm_W * nrm2(x0.data(), in) * (1 + 1e-9) + 1e-290)
    violation("norm-bound", "norm_W=%g of the %s set is no bound: W^T stretched a vector by %g", s.f.norm_W,
              set_name[s.md.kind], nrm2(y, out) / nrm2(x0.data(), in));
  digest_d(y, out);
}

// several live sets, operators interleaved with set-up, destruction, failed set-ups and other calls
static void c06() {
  std::unique_ptr<LiveSet> live[4];
  std::unique_ptr<Model> last[4];
  auto busy = [&](int k) { // the module behind set kind k
    if (live[k]) return true;
    if (k == Model::DCT1 && live[Model::TV] && live[Model::TV]->md.dct1) return true;
    if (k == Model::DCT2 && live[Model::TV] && !live[Model::TV]->md.dct1) return true;
    return false;
  };
  int steps = workp(0.03) ? (int)work(40, 120) : (int)work(4, 22);
  policy_mem();
  bool team = workp(0.25);
  if (team) policy_threads(4);
  mem_policy.fail_mode = policy_rng().chance(0.6) ? 3 : 0;
  mem_policy.p = 0.05;
  fft_policy.mode = policy_rng().chance(0.5) ? 3 : 0;
  fft_policy.p = 0.1;
  int n_ops = 0;
  for (int st = 0; st < steps; st++) {
    std::vector<int> up;
    for (int k = 0; k < 4; k++) if (live[k]) up.push_back(k);
    int act = up.empty() ? 0 : (int)workw({4, 14, 3, 2});
    if (act == 0) {
      int kind = (int)workw({3, 3, 4, 2});
      bool over1 = workp(0.5);
      if (kind == Model::TV) {
        bool f1 = !busy(Model::DCT1), f2 = !busy(Model::DCT2);
        if (live[Model::TV] || (!f1 && !f2)) continue;
        if (!f1) over1 = false;
        if (!f2) over1 = true;
      } else if (busy(kind))
        continue;
      std::unique_ptr<LiveSet> s(new LiveSet);
      gen_model(s->md, kind, over1, last[kind] && workp(0.6) ? last[kind].get() : nullptr);
      last[kind].reset(new Model(s->md));
      if (kind == Model::TV && !s->md.dct1 && (s->md.mrow == 1 || s->md.mcol == 1)) continue;
      int entry = (int)work(0, 1);
      u64 f0 = faults_fired();
      int r = do_setup(*s, entry);
      note("set up %s n=%d %dx%d av=%g ah=%g -> %d", set_name[kind], s->md.n, s->md.mrow, s->md.mcol, s->md.av, s->md.ah, r);
      state(mix(1, kind * 8 + (r != 0) * 4 + up.size()));
      if (r) {
        if (faults_fired() == f0) violation("setup-failed", "setting up the %s set failed with %d although nothing failed", set_name[kind], r);
        continue;
      }
      live[kind] = std::move(s);
    } else if (act == 1) {
      LiveSet& s = *live[up[work(0, up.size() - 1)]];
      int k = (int)work(0, 8);
      state(mix(2, (u64)s.md.kind * 64 + k * 4 + up.size()));
      use_op(s, k, work(1, 0xffffffff), workp(0.5));
      n_ops++;
    } else if (act == 2) {
      int k = up[work(0, up.size() - 1)];
      note("destroy %s after %llu operator calls", set_name[k], (unsigned long long)live[k]->ops);
      live[k]->f.destroy();
      live[k].reset();
    } else {
      Call c = gen_call(M_REENTRANT & ~BIT(K_NESTA_OWN), 1);
      run_call(c);
    }
  }
  for (int k = 0; k < 4; k++)
    if (live[k]) {
      { FaultsOff off; use_op(*live[k], (int)(live[k]->ops % 9), 77 + k, false); }
      live[k]->f.destroy();
    }
  heap_check_canaries();
  if (resources()) violation("leak", "%llu resource(s) left after every set was destroyed", (unsigned long long)resources());
  probe("operator-calls", n_ops);
}

// ------------------------------------------------------------------ C07
static void c07() {
  std::unique_ptr<LiveSet> live[4];
  int nl = (int)work(0, 3);
  for (int i = 0; i < nl; i++) {
    int kind = (int)workw({2, 2, 4, 2});
    bool over1 = workp(0.5);
    if (live[kind]) continue;
    if (kind == Model::TV && live[over1 ? Model::DCT1 : Model::DCT2]) continue;
    if (live[Model::TV] && ((kind == Model::DCT1 && live[Model::TV]->md.dct1) || (kind == Model::DCT2 && !live[Model::TV]->md.dct1))) continue;
    std::unique_ptr<LiveSet> s(new LiveSet);
    gen_model(s->md, kind, over1);
    if (do_setup(*s, 1)) violation("setup-failed", "a set-up with valid arguments failed");
    live[kind] = std::move(s);
  }
  policy_mem();
  mem_policy.fail_mode = policy_rng().chance(0.4) ? 3 : 0;
  mem_policy.p = 0.3;
  int k = (int)work(1, 5);
  for (int i = 0; i < k; i++) {
    int what = (int)workw({5, 7, 2, 3, 3, 3});
    u64 b0 = resources(), m0 = fired("memory-request-fails"), ops0 = uops[0].total;
    int want = L1C_INVALID_ARGUMENT, got = 0;
    bool any_nonzero = false;
    char desc[200] = "";
    l1c_AxFuns f, g;
    memset(&f, 0x5a, sizeof f);
    g = f;
    bool big = workp(0.04); // many positions, one of them wrong
    int mrow = big ? (int)work(10, 60) : (int)work(3, 6), mcol = big ? (int)work(10, 60) : (int)work(3, 6), n = (int)work(big ? mrow * mcol / 2 : 1, mrow * mcol);
    std::vector<int> idx = pick_idx(n, mrow * mcol, work(1, 1 << 30));
    auto bad_index = [&] {
      static const int off[] = {0, 1, 1000, -1, -2, -100000};
      int o = off[work(0, 5)];
      idx[work(0, n - 1)] = o < 0 ? o : mrow * mcol + o;
    };
    auto bad_dim = [&](int which) {
      int v = -(int)work(0, 3);
      if (workp(0.1)) { // more pixels than an int can count
        mrow = 65536 + (int)work(1, 4), mcol = 65536 + (int)work(1, 4);
        n = 1;
        idx.assign(1, 0);
        return;
      }
      (which == 0 ? n : which == 1 ? mrow : mcol) = v;
    };
    bool x_touched = false;
    if (what == 0) {
      int w = (int)work(0, 3);
      if (w == 3) bad_index();
      else bad_dim(w);
      snprintf(desc, sizeof desc, "l1c_setup_dct_transforms(n=%d, %d, %d)%s", n, mrow, mcol, w == 3 ? " with a position outside the image" : "");
      got = l1c_setup_dct_transforms(n, mrow, mcol, workp(0.5) ? dct1 : dct2, idx.data(), &f);
    } else if (what == 1) {
      int w = (int)work(0, 6);
      double av = workp(0.6) ? 0.5 : 0, ah = workp(0.6) ? 0.5 : 0;
      if (w == 3) bad_index();
      else if (w == 4) av = -0.25 * (double)work(1, 4);
      else if (w == 5) ah = -0.25 * (double)work(1, 4);
      else if (w == 6) {
        if (av == 0 && ah == 0) av = 1;
        if (workp(0.5)) mrow = (int)work(1, 2);
        else mcol = (int)work(1, 2);
        n = 1;
        idx.assign(1, 0);
      } else
        bad_dim(w);
      snprintf(desc, sizeof desc, "l1c_setup_dctTV_transforms(n=%d, %d, %d, %g, %g)%s", n, mrow, mcol, av, ah, w == 3 ? " with a position outside the image" : "");
      got = l1c_setup_dctTV_transforms(n, mrow, mcol, av, ah, workp(0.5) ? dct1 : dct2, workp(0.5) ? synthesis : analysis, idx.data(), &f);
    } else if (what == 2) {
      Buf A(16);
      int nn = (int)work(1, 4), mm = (int)work(1, 4);
      if (workp(0.5)) nn = -(int)work(0, 3);
      else mm = -(int)work(0, 3);
      snprintf(desc, sizeof desc, "l1c_setup_matrix_transforms(%d, %d)", nn, mm);
      got = l1c_setup_matrix_transforms(nn, mm, A.p, &f);
    } else if (what == 3 || what == 4) { // nesta
      int m = (int)work(2, 8), nn = (int)work(1, m);
      uops[0].setup(nn, m, 1, 0, work(1, 1 << 30));
      ops0 = 0;
      l1c_AxFuns u = user_funs(0);
      Buf x(m + 4), b(nn + 4);
      fill(x.p, x.n, 5);
      fill(b.p, b.n, 6);
      V x0 = x.vec(), bb = b.vec();
      l1c_NestaOpts o;
      memset(&o, 0, sizeof o);
      o.mu = 1e-2; o.tol = 1e-2; o.sigma = 0.1; o.n_continue = 2;
      int am = m, an = nn;
      if (what == 3) {
        if (workp(0.5)) am += workp(0.5) || m < 2 ? 1 : -1;
        else an += workp(0.5) || nn < 2 ? 1 : -1;
      } else {
        switch (work(0, 3)) {
        case 0: u.Wz = nullptr; break;
        case 1: u.Wtx = nullptr; break;
        case 2: u.Rx = nullptr; break;
        case 3: u.Rty = nullptr; break;
        }
        want = L1C_INCONSISTENT_ARGUMENTS;
      }
      snprintf(desc, sizeof desc, "l1c_nesta(m=%d, n=%d) %s", am, an, what == 3 ? "with operators of another size" : "with a missing operator");
      got = l1c_nesta(am, x.p, an, b.p, u, o);
      x_touched = x.vec() != x0 || b.vec() != bb;
      if (uops[0].total) violation("rejected-call-worked", "%s called the operators before it was rejected", desc);
    } else {
      int w = (int)work(0, 3);
      int mm = mrow * mcol;
      if (w == 3) bad_index();
      else bad_dim(w);
      Buf x(mm), b(std::max(n, 1));
      fill(x.p, mm, 8);
      fill(b.p, b.n, 9);
      V x0 = x.vec();
      l1c_L1qcOpts o;
      memset(&o, 0, sizeof o);
      o.epsilon = 0.1; o.mu = 10; o.lbtol = 1e-2; o.newton_tol = 1e-2; o.newton_max_iter = 5; o.lbiter = 1;
      o.cg_tol = 1e-3; o.cg_maxiter = 10; o.l1_tol = 1e-4; o.dct_mode = workp(0.5) ? dct1 : dct2;
      l1c_LBResult lb;
      memset(&lb, 0, sizeof lb);
      snprintf(desc, sizeof desc, "l1qc_dct(%d, %d, n=%d)%s", mrow, mcol, n, w == 3 ? " with a position outside the image" : "");
      got = l1qc_dct(mrow, mcol, x.p, n, b.p, idx.data(), o, &lb);
      any_nonzero = true;
      x_touched = x.vec() != x0;
    }
    u64 mf = fired("memory-request-fails") - m0;
    note("%s -> %d", desc, got);
    state(mix(what * 16 + (mf > 0), (u64)got));
    if (any_nonzero ? got == 0 : got != want && !(mf && got == L1C_OUT_OF_MEMORY))
      violation("not-rejected", "%s returned %d instead of %s", desc, got, any_nonzero ? "an error" : want == L1C_INVALID_ARGUMENT ? "L1C_INVALID_ARGUMENT" : "L1C_INCONSISTENT_ARGUMENTS");
    if (memcmp(&f, &g, sizeof f)) violation("rejected-call-wrote", "%s was rejected but changed the operator struct", desc);
    if (x_touched) violation("rejected-call-wrote", "%s was rejected but changed its arrays", desc);
    if (resources() != b0) violation("leak", "%s was rejected but left or released %lld resource(s)", desc, (long long)(resources() - b0));
    (void)ops0;
    bool old = set_faults(false);
    for (auto& s : live)
      if (s)
        for (int q = 0; q < 2; q++) use_op(*s, (int)work(0, 8), work(1, 1 << 30), workp(0.5));
    set_faults(old);
  }
  set_faults(false);
  for (auto& s : live) if (s) s->f.destroy();
  heap_check_canaries();
  if (resources()) violation("leak", "%llu resource(s) left at the end", (unsigned long long)resources());
}

// ------------------------------------------------------------------ conjugate gradients with a recorded transcript
struct Transcript {
  int n; CgData g; double p; int kinds; u64 skip;
  std::vector<V> in, out;
  u64 cap;
};
static Transcript* g_tr;
static void tr_op(l1c_int n, double* x, double* b, void* d) {
  Transcript* t = (Transcript*)d;
  if (n != t->n) violation("operator-size", "the operator of a system of size %d was called with %d", t->n, (int)n);
  if (t->in.size() > t->cap)
    violation("unbounded-work", "conjugate gradients called the operator %zu times although max_iter allows %llu", t->in.size() + 1,
              (unsigned long long)t->cap);
  cg_op(n, x, b, &t->g);
  if (t->in.size() >= t->skip && t->p > 0) corrupt(b, n, t->p, t->kinds);
  t->in.push_back(V(x, x + n));
  t->out.push_back(V(b, b + n));
}
static double dot(const V& a, const V& b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i];
  return s;
}
static void run_cg(bool model) {
  int n = gen_size(workp(0.9) ? 40 : 600);
  bool big = workp(0.004);
  if (big) n = (int)work(600, 12000);
  u64 data = work(1, 0xffffffff);
  bool pre = workp(0.5);
  Transcript t;
  t.n = n;
  t.g = CgData{n, dvec(n, mix(data, 1), 1.0 / sqrt((double)n)), workp(0.5) ? 20.0 : 0.5, 0};
  bool faulty = workp(0.65);
  Rng& r = policy_rng();
  static const double ps[] = {0.03, 0.1, 0.3, 0.7};
  t.p = faulty ? ps[r.below(4)] : 0;
  t.kinds = model ? (r.chance(0.7) ? (int)K_TAME : 9) : 9;
  t.skip = model ? 1 : r.below(2);
  int max_iter = (int)(workp(0.3) ? work(0, 3) : work(1, 60));
  if (workp(0.01)) max_iter = big ? (int)work(60, 80) : (int)work(60, 600);
  double tol = pow(10.0, -(double)work(0, 12));
  if (workp(0.05)) tol = 0;
  int start = (int)work(0, 3); // zero, random, exact, far away
  t.cap = max_iter + 1;
  Buf x(n), b(n), Mi(n);
  fill(b.p, n, mix(data, 2), workp(0.2) ? 1e6 : 1);
  if (b[0] == 0) b[0] = 1;
  if (start) fill(x.p, n, mix(data, 3), start == 3 ? 1e4 : 1);
  if (start == 2) {
    V save = x.vec();
    cg_op(n, x.p, b.p, &t.g);
  }
  for (int i = 0; i < n; i++) Mi[i] = 1.0 / (1.0 + t.g.cond * (i % 7));
  V x0 = x.vec(), b0 = b.vec(), M0 = Mi.vec();
  std::vector<std::unique_ptr<Buf>> own;
  double* W[5];
  for (int i = 0; i < 5; i++) {
    own.emplace_back(new Buf(n));
    W[i] = own.back()->p;
    fill(W[i], n, mix(data, 50 + i), 3);
  }
  l1c_CgResults cr = {0, 0};
  l1c_CgParams pr;
  pr.verbose = workp(0.1) ? 3 : 0;
  pr.max_iter = max_iter;
  pr.tol = tol;
  g_tr = &t;
  int st = pre ? l1c_cgsolve_diag_precond(n, x.p, b.p, Mi.p, W, tr_op, &t, &cr, pr) : l1c_cgsolve(n, x.p, b.p, W, tr_op, &t, &cr, pr);
  heap_check_canaries();
  u64 fc = faults_fired();
  const char* nm = pre ? "cgsolve_diag_precond" : "cgsolve";
  note("%s n=%d max_iter=%d tol=%g start=%d -> status %d, %d iterations, residual %g, %llu faults", nm, n, max_iter, tol, start, st,
       (int)cr.cgiter, cr.cgres, (unsigned long long)fc);
  state(mix(pre * 2 + (fc > 0), (u64)(cr.cgiter == max_iter) * 8 + start));
  if (t.in.size() > t.cap) violation("unbounded-work", "%s called the operator %zu times with max_iter=%d", nm, t.in.size(), max_iter);
  if (cr.cgiter > max_iter || cr.cgiter < 0) violation("unbounded-work", "%s reports %d iterations with max_iter=%d", nm, (int)cr.cgiter, max_iter);
  if (!model) return;
  if (st) violation("wrong-status", "%s returned %d", nm, st);
  if (memcmp(b0.data(), b.p, n * 8) || memcmp(M0.data(), Mi.p, n * 8)) violation("input-changed", "%s changed its right hand side or preconditioner", nm);
  if (t.in.empty() || t.in[0] != x0) violation("start-ignored", "%s did not start from the x it was given", nm);
  // shadow computation from the recorded operator calls
  V rr(n), z(n), xx = x0;
  for (int i = 0; i < n; i++) rr[i] = b0[i] - t.out[0][i];
  auto prec = [&] { for (int i = 0; i < n; i++) z[i] = pre ? rr[i] * M0[i] : rr[i]; };
  double bb = dot(b0, b0), peak_x = amax(x0.data(), n), peak_r;
  prec();
  double delta = dot(rr, z), res = sqrt(dot(rr, rr) / bb), best = res;
  peak_r = res;
  std::vector<std::pair<double, V>> its;
  its.push_back({res, xx});
  int iters = (int)t.in.size() - 1, first_ok = -1;
  bool sharp = true; // false once rounding decides
  for (int k = 1; k <= iters; k++) {
    const V &p = t.in[k], &q = t.out[k];
    double pq = dot(p, q), alpha = delta / pq;
    double pa = 0;
    for (int i = 0; i < n; i++) pa += fabs(p[i] * q[i]);
    if (!(fabs(pq) > 1e-6 * pa) || !(fabs(delta) > 1e-280)) {
      sharp = false;
      break;
    }
    for (int i = 0; i < n; i++) xx[i] += alpha * p[i];
    for (int i = 0; i < n; i++) rr[i] -= alpha * q[i];
    prec();
    delta = dot(rr, z);
    res = sqrt(dot(rr, rr) / bb);
    if (res < best) best = res;
    if (std::isfinite(res)) peak_r = std::max(peak_r, res);
    double ax = amax(xx.data(), n);
    if (std::isfinite(ax)) peak_x = std::max(peak_x, ax);
    its.push_back({res, xx});
    if (first_ok < 0 && res < tol) first_ok = k;
  }
  if (!sharp) probe("cg.rounding-decides");
  double rt = 1e-7 * peak_r;
  if ((int)cr.cgiter != iters)
    violation("iterations", "%s reports %d iterations after %d products with the matrix", nm, (int)cr.cgiter, iters);
  if (!sharp && !(cr.cgres <= best * (1 + 1e-6) + rt))
    violation("residual", "%s reports the relative residual %.12g, an earlier iterate already had %.12g", nm, cr.cgres, best);
  if (sharp) {
    if (!(fabs(cr.cgres - best) <= rt + 1e-7 * best))
      violation("residual", "%s reports the relative residual %.12g, the best of its %d iterates has %.12g", nm, cr.cgres, iters, best);
    bool match = false;
    for (auto& it : its) {
      if (!(it.first <= best + 2 * rt + 1e-6 * best)) continue;
      bool same = true;
      for (int i = 0; i < n && same; i++) same = fabs(it.second[i] - x[i]) <= 1e-7 * peak_x + 1e-12;
      if (same) { match = true; break; }
    }
    if (!match) violation("not-the-best", "%s did not return the iterate with the smallest residual (%.6g of %d iterates)", nm, best, iters);
    // stopping rule
    for (int k = 1; k < iters; k++)
      if (its[k].first + rt < tol) violation("late-stop", "%s went on after iteration %d although the residual %.6g was below tol %.6g", nm, k, its[k].first, tol);
    if (iters < max_iter && !(its[iters].first < tol + rt))
      violation("early-stop", "%s stopped after %d of %d iterations with residual %.6g, tol %.6g", nm, iters, max_iter, its[iters].first, tol);
  }
  if (!fc) {
    V ax(n);
    CgData g2 = t.g;
    { FaultsOff off; cg_op(n, x.p, ax.data(), &g2); }
    for (int i = 0; i < n; i++) ax[i] = b0[i] - ax[i];
    double tr = sqrt(dot(ax, ax) / bb);
    if (!(fabs(tr - cr.cgres) <= 1e-6 * (peak_r + 1)))
      violation("residual", "%s reports the relative residual %.9g, the true one is %.9g", nm, cr.cgres, tr);
    if (max_iter >= 50 && tol >= 1e-7 && peak_r < 1e3 && !(cr.cgres < tol))
      violation("no-convergence", "%s did not reach tol=%g in %d iterations on a well conditioned system (residual %g)", nm, tol, max_iter, cr.cgres);
  }
}
static void c12() { run_cg(true); }

// ------------------------------------------------------------------ line search
struct Probe {
  int n; std::vector<V> xs, us; V fs; int kinds; double p; V c; bool xu;
};
static double pr_f(Probe* P, const double* x, const double* u) {
  if (P->fs.size() >= 400) violation("unbounded-work", "the line search evaluated the objective %zu times", P->fs.size() + 1);
  double s = 0;
  for (int i = 0; i < P->n; i++) s += (x[i] - P->c[i]) * (x[i] - P->c[i]) + (u ? 0.3 * u[i] * u[i] : 0);
  if (P->p > 0) {
    u64 v = 0;
    if (injected(S_OP, [&](Rng& r) -> u64 { return r.chance(P->p) ? 1 + r.below(6) : 0; }, &v)) {
      static const char* nm[] = {"objective.nan", "objective.inf", "objective.minus-inf", "objective.larger", "objective.smaller", "objective.tie"};
      fault_fired(nm[(v - 1) % 6]);
      switch ((v - 1) % 6) {
      case 0: s = NAN; break;
      case 1: s = INFINITY; break;
      case 2: s = -INFINITY; break;
      case 3: s = fabs(s) * 8 + 1; break;
      case 4: s = s - 1; break;
      case 5: s = 1; break;
      }
    }
  }
  P->xs.push_back(V(x, x + P->n));
  if (u) P->us.push_back(V(u, u + P->n));
  P->fs.push_back(s);
  return s;
}
static double ls_cb(void* d, double* x) { return pr_f((Probe*)d, x, nullptr); }
static double ls_cbxu(void* d, double* x, double* u) { return pr_f((Probe*)d, x, u); }
static void c14() {
  int n = (int)work(1, workp(0.9) ? 24 : 300);
  if (workp(0.005)) n = (int)work(300, 20000);
  u64 data = work(1, 0xffffffff);
  bool xu = workp(0.5);
  Probe P{n, {}, {}, {}, 0, 0, dvec(n, mix(data, 1)), xu};
  Buf x(n), u(n), dx(n), du(n), w1(n), w2(n);
  fill(x.p, n, mix(data, 2), 2);
  fill(u.p, n, mix(data, 3), 2);
  fill(w1.p, n, 4);
  fill(w2.p, n, 5);
  int dir = (int)work(0, 3);
  double sc = dir == 0 ? 1 : dir == 1 ? -1 : dir == 2 ? 50 : 1e9, gd = 0;
  for (int i = 0; i < n; i++) {
    double gx = 2 * (x[i] - P.c[i]), gu = 0.6 * u[i];
    dx[i] = -sc * gx;
    du[i] = -sc * gu;
    gd += gx * dx[i] + (xu ? gu * du[i] : 0);
  }
  double f0 = xu ? pr_f(&P, x.p, u.p) : pr_f(&P, x.p, nullptr);
  P.xs.clear(); P.us.clear(); P.fs.clear();
  static const double ps[] = {0.1, 0.4, 0.8, 0.97};
  P.p = workp(0.75) ? ps[policy_rng().below(4)] : 0;
  if (workp(0.1)) gd = workp(0.5) ? NAN : 0;
  if (workp(0.05)) f0 = workp(0.5) ? NAN : INFINITY;
  LSParams lp;
  lp.alpha = workp(0.5) ? 0.01 : 0.05 * (double)work(1, 9);
  lp.beta = workp(0.5) ? 0.5 : 0.1 * (double)work(1, 9);
  lp.s = pow(2.0, (double)work(0, 8) - 4) * (workp(0.3) ? 0.99 : 1);
  V x0 = x.vec(), u0 = u.vec(), dx0 = dx.vec(), du0 = du.vec();
  double fin = f0;
  double* W[2] = {w1.p, w2.p};
  LSStat ls = xu ? l1c_linesearch_xu(n, x.p, u.p, dx.p, du.p, &fin, gd, &P, ls_cbxu, lp, W)
                 : l1c_linesearch(n, x.p, dx.p, &fin, gd, &P, ls_cb, lp, w1.p);
  heap_check_canaries();
  const char* nm = xu ? "linesearch_xu" : "linesearch";
  note("%s n=%d s=%g beta=%g alpha=%g dir=%d -> status %d after %zu evaluations", nm, n, lp.s, lp.beta, lp.alpha, dir, ls.status, P.fs.size());
  state(mix(xu * 2 + (ls.status != 0), P.fs.size() * 4 + dir));
  if (dx.vec() != dx0 || du.vec() != du0) violation("input-changed", "%s changed its direction", nm);
  if (P.fs.size() > 32) violation("unbounded-work", "%s evaluated the objective %zu times, 32 are allowed", nm, P.fs.size());
  auto fine = [&](double a, double b) { return a == b || fabs(a - b) <= 1e-12 * std::max(fabs(a), fabs(b)); };
  // replay of the rule on the recorded evaluations
  double step = lp.s;
  int acc = -1;
  bool tie = false;
  for (size_t k = 0; k < P.fs.size(); k++) {
    for (int i = 0; i < n; i++) {
      double want = x0[i] + step * dx0[i];
      if (!(fabs(P.xs[k][i] - want) <= 1e-9 * (fabs(x0[i]) + fabs(step * dx0[i]))))
        violation("wrong-trial", "%s: trial %zu looked at %.12g instead of x + step*dx = %.12g", nm, k + 1, P.xs[k][i], want);
      if (xu) {
        want = u0[i] + step * du0[i];
        if (!(fabs(P.us[k][i] - want) <= 1e-9 * (fabs(u0[i]) + fabs(step * du0[i]))))
          violation("wrong-trial", "%s: trial %zu looked at u=%.12g instead of u + step*du = %.12g", nm, k + 1, P.us[k][i], want);
      }
    }
    double flin = f0 + lp.alpha * step * gd;
    // the threshold however its products are grouped, contracted or not
    double q[4] = {f0 + lp.alpha * (step * gd), f0 + lp.alpha * gd * step, fma(lp.alpha * step, gd, f0), fma(lp.alpha, step * gd, f0)};
    bool exact = true;
    for (double v : q) exact &= v == flin;
    if (std::isfinite(flin) && std::isfinite(P.fs[k]) && fabs(P.fs[k] - flin) <= 1e-12 * (fabs(f0) + fabs(lp.alpha * step * gd)) && !(P.fs[k] == flin && exact)) tie = true;
    if (P.fs[k] <= flin) {
      acc = (int)k;
      if (k + 1 != P.fs.size() && !tie) violation("late-stop", "%s went on after trial %zu, which decreases the objective enough", nm, k + 1);
      break;
    }
    step *= lp.beta;
  }
  if (tie) { probe("ls.rounding-decides"); return; }
  if (acc >= 0) {
    if (ls.status != 0) violation("wrong-status", "%s failed with status %d although trial %d decreases the objective enough", nm, ls.status, acc + 1);
    if (memcmp(x.p, P.xs[acc].data(), n * 8) || (xu && memcmp(u.p, P.us[acc].data(), n * 8)))
      violation("wrong-point", "%s succeeded but did not return the accepted trial point", nm);
    if (!(fin == P.fs[acc])) violation("wrong-value", "%s returned the objective value %.12g, the accepted trial has %.12g", nm, fin, P.fs[acc]);
    if (!fine(ls.step, step)) violation("wrong-value", "%s reports step %.12g, the accepted trial used %.12g", nm, ls.step, step);
    if (ls.iter != acc + 1) violation("wrong-value", "%s reports %d trials, there were %d", nm, ls.iter, acc + 1);
    if (!xu && u.vec() != u0) violation("input-changed", "%s changed u", nm);
  } else {
    if (ls.status == 0) violation("accepted-increase", "%s reports success, but no trial met the decrease condition (f0=%.9g, slope %.9g)", nm, f0, gd);
    if (ls.iter != (int)P.fs.size()) violation("wrong-value", "%s failed and reports %d trials, there were %zu", nm, ls.iter, P.fs.size());
    if (P.fs.size() < 32) violation("early-stop", "%s gave up after %zu of 32 trials", nm, P.fs.size());
    if (memcmp(x.p, x0.data(), n * 8) || memcmp(u.p, u0.data(), n * 8)) violation("wrong-point", "%s failed but moved the iterate", nm);
    if (!(memcmp(&fin, &f0, 8) == 0)) violation("wrong-value", "%s failed but changed the objective value to %.9g", nm, fin);
  }
}

// ------------------------------------------------------------------ C13 feasibility
static void c13() {
  int what = (int)workw({6, 3, 5, 3, 3});
  Rng& r = policy_rng();
  static const double ps[] = {0.01, 0.05, 0.2, 0.6};
  double fp = workp(0.75) ? ps[r.below(4)] : 0;
  policy_mem();
  if (workp(0.3)) policy_threads(4);
  if (what <= 1) { // l1qc_newton with own operators; 1: infeasible start
    int m = (int)work(2, 24), n = (int)work(1, m);
    u64 data = work(1, 0xffffffff);
    UserOps& U = uops[0];
    U.setup(n, m, 1, 0, data);
    Call c;
    c = gen_call(BIT(K_L1QC_OWN));
    l1c_L1qcOpts o = c.l1;
    o.verbose = workp(0.1) ? 2 : 0;
    Buf x(m), b(n);
    fill(b.p, n, mix(data, 1), workp(0.2) ? 100 : 1);
    U.At(b.p, x.p);
    V d(n), ax(n);
    if (what == 1 || workp(0.5)) { // start away from the centre of the feasible set
      fill(d.data(), n, mix(data, 2));
      double s = nrm2(d.data(), n), far = what == 1 ? 1.001 + 0.1 * (double)work(0, 50) : 0.01 * (double)work(0, 98);
      if (workp(0.25)) far = 1 + (what == 1 ? 1 : -1) * pow(10.0, -(double)work(3, 12)); // only just
      if (s == 0) return;
      V back(m);
      for (double& v : d) v *= far * o.epsilon / s;
      U.At(d.data(), back.data());
      for (int i = 0; i < m; i++) x[i] += back[i];
    }
    bool nan = what == 1 && workp(0.1); // no number is no feasible point
    if (nan) (workp(0.5) ? x[work(0, m - 1)] : b[work(0, n - 1)]) = NAN;
    V x0 = x.vec(), b0 = b.vec();
    U.fault_mask = (1 << 1) | (1 << 2); // A^T and A^T A lie, A tells the truth
    U.fault_p = fp;
    U.fault_kinds = 9;
    U.A(x0.data(), ax.data());
    for (int i = 0; i < n; i++) ax[i] -= b0[i];
    double r0 = nrm2(ax.data(), n);
    l1c_LBResult lb = l1c_l1qc_newton(m, x.p, n, b.p, o, user_funs(0));
    heap_check_canaries();
    U.A(x.p, ax.data());
    for (int i = 0; i < n; i++) ax[i] -= b0[i];
    double r1 = nrm2(ax.data(), n), l1 = 0;
    for (int i = 0; i < m; i++) l1 += fabs(x[i]);
    note("l1qc_newton m=%d n=%d eps=%g start residual %g -> status %d, residual %g, %llu operator faults", m, n, o.epsilon, r0, lb.status, r1,
         (unsigned long long)U.fired);
    state(mix(what, (u64)(U.fired > 0) * 64 + (u64)lb.status * 2 + (x.vec() != x0)));
    if (memcmp(b.p, b0.data(), n * 8)) violation("input-changed", "l1qc_newton changed b");
    double margin = 1e-15 * (m + n) * (1 + (nrm2(x0.data(), m) + nrm2(b0.data(), n)) / o.epsilon); // what rounding can do to the residual
    if (nan || r0 > o.epsilon * (1 + margin)) {
      if (lb.status != L1C_INFEASIBLE_START) violation("infeasible-accepted", "l1qc_newton returned %d for a start with residual %.9g and epsilon %.9g", lb.status, r0, o.epsilon);
      if (memcmp(x.p, x0.data(), m * 8)) violation("infeasible-accepted", "l1qc_newton rejected an infeasible start but changed x");
      return;
    }
    if (r0 > o.epsilon * (1 - margin)) return;
    if (lb.status) violation("wrong-status", "l1qc_newton returned %d from a feasible start", lb.status);
    if (!(r1 <= o.epsilon * (1 + 1e-9))) violation("infeasible", "l1qc_newton returned a point with |Ax-b| = %.12g, epsilon = %.12g", r1, o.epsilon);
    if (!(fabs(lb.l1 - l1) <= 1e-9 * l1)) violation("wrong-l1", "l1qc_newton reports |x|_1 = %.12g, it is %.12g", lb.l1, l1);
    if (lb.total_newton_iter < 0 || lb.total_cg_iter < 0) violation("wrong-l1", "l1qc_newton reports negative iteration counts");
  } else if (what == 2) { // NESTA with own operators
    int m = (int)work(2, 14), n = (int)work(1, m);
    u64 data = work(1, 0xffffffff);
    UserOps& U = uops[0];
    U.setup(n, m, (int)work(1, 2), 0.25 * (double)work(1, 6), data);
    Call c = gen_call(BIT(K_NESTA_OWN));
    l1c_NestaOpts o = c.ne;
    if (o.n_continue > 2) o.n_continue = 2;
    if (workp(0.3)) { // a tight noise bound against the size of the steps
      o.sigma = pow(10.0, -(double)work(4, 10));
      if (workp(0.5)) o.mu = (double)work(1, 10), o.tol = pow(10.0, -(double)work(3, 8));
    }
    Buf x(m), b(n);
    fill(b.p, n, mix(data, 1), workp(0.2) ? (workp(0.5) ? 30 : 1000) : 1);
    b[n / 2] += b[n / 2] < 0 ? -1 : 1;
    if (workp(0.03)) { // nothing measured
      for (int i = 0; i < n; i++) b[i] = 0;
      o.n_continue = 1;
    }
    fill(x.p, m, 9);
    V b0 = b.vec();
    U.fault_mask = (1 << 5) | (1 << 6);
    U.fault_p = fp;
    U.fault_kinds = K_TAME;
    U.skip = 2; // the first products choose the smoothing parameter
    int st = l1c_nesta(m, x.p, n, b.p, user_funs(0), o);
    heap_check_canaries();
    V ax(n);
    U.A(x.p, ax.data());
    for (int i = 0; i < n; i++) ax[i] -= b0[i];
    double r1 = nrm2(ax.data(), n);
    note("nesta m=%d n=%d sigma=%g -> status %d, residual %g, largest %g, %llu operator faults", m, n, o.sigma, st, r1, U.largest, (unsigned long long)U.fired);
    state(mix(2, (u64)(U.fired > 0) * 64 + (u64)o.n_continue));
    if (st) violation("wrong-status", "nesta returned %d", st);
    if (b.vec() != b0) violation("input-changed", "nesta changed b");
    // wrong gradients can pile up: projecting a large vector rounds in proportion to it
    if (!(r1 <= o.sigma * (1 + 1e-6) + 1e-13 * m * (U.largest + nrm2(b0.data(), n))))
      violation("infeasible", "nesta returned a point with |Ax-b| = %.12g, sigma = %.12g", r1, o.sigma);
  } else { // the packaged problems
    Call c = gen_call(what == 3 ? BIT(K_L1QC_DCT) : BIT(K_NESTA_TV));
    Model md;
    md.kind = what == 3 ? Model::DCT1 : Model::TV;
    md.n = c.n; md.m = c.m; md.mrow = c.mrow; md.mcol = c.mcol;
    if (c.type == K_NESTA_TV && c.a == (int)synthesis) c.p = c.q = 0; // A A^T = I
    md.idx = pick_idx(c.n, c.m, c.data);
    V b;
    { // the measurements run_call uses
      Buf t(c.n);
      fill(t.p, c.n, mix(c.data, 1));
      if (what == 4) t[c.n / 2] += t[c.n / 2] < 0 ? -1 : 1;
      shake(c, t.p, c.n);
      b = t.vec();
    }
    Res res = run_call(c);
    if (res.status) violation("wrong-status", "%s returned %d", c.str().c_str(), res.status);
    md.av = c.p; md.ah = c.q;
    md.synth = c.a == (int)synthesis;
    md.dct1 = what == 3 ? true : c.b == (int)dct1;
    md.prepare();
    V x(res.out.begin(), res.out.begin() + c.m), ax;
    ax = what == 3 ? md.E(x) : md.op(0, x);
    for (int i = 0; i < c.n; i++) ax[i] -= b[i];
    double r1 = nrm2(ax.data(), c.n), eps = what == 3 ? c.l1.epsilon : c.ne.sigma;
    note("%s -> |Ax-b| = %g, bound %g", c.str().c_str(), r1, eps);
    state(mix(what, c.a * 4 + c.b));
    if (!(r1 <= eps * (1 + 1e-6) + 1e-9 * nrm2(b.data(), c.n)))
      violation("infeasible", "%s returned a point with |Ax-b| = %.12g, the bound is %.12g", c.str().c_str(), r1, eps);
  }
}

// ------------------------------------------------------------------ C11 bounded work
static void c11() {
  int what = (int)workw({4, 3, 6, 2, 3});
  Rng& r = policy_rng();
  static const double ps[] = {0.01, 0.1, 0.4, 1.0};
  double fp = ps[r.below(4)];
  if (what == 0) {
    run_cg(false);
  } else if (what == 1) {
    c14();
  } else if (what == 2) {
    int m = (int)work(2, 20), n = (int)work(1, m);
    u64 data = work(1, 0xffffffff);
    UserOps& U = uops[0];
    U.setup(n, m, 1, 0, data);
    Call c = gen_call(BIT(K_L1QC_OWN));
    l1c_L1qcOpts o = c.l1;
    Buf x(m), b(n);
    fill(b.p, n, mix(data, 1));
    U.At(b.p, x.p);
    if (workp(0.1)) b[0] = NAN;
    U.fault_mask = 7;
    U.fault_p = fp;
    U.fault_kinds = 9;
    U.skip = workp(0.5) ? 1 : 0;
    u64 s0 = steps();
    l1c_LBResult lb = l1c_l1qc_newton(m, x.p, n, b.p, o, user_funs(0));
    heap_check_canaries();
    double lbi = o.lbiter ? o.lbiter : ceil((log(2.0 * m + 1) - log(o.lbtol)) / log(o.mu)) + 1;
    if (lbi < 0) lbi = 0;
    double nm = o.newton_max_iter, ax = 1 + lbi * (1 + nm * 34), at = lbi * nm, aa = lbi * nm * (o.cg_maxiter + 1);
    note("l1qc_newton m=%d n=%d: status %d, Ax %llu of %g, Aty %llu of %g, AtAx %llu of %g, %llu faults", m, n, lb.status,
         (unsigned long long)U.calls[0], ax, (unsigned long long)U.calls[1], at, (unsigned long long)U.calls[2], aa, (unsigned long long)U.fired);
    state(mix(what, (u64)lb.status + 64 * (U.calls[2] / 20)));
    if (U.calls[0] > ax || U.calls[1] > at || U.calls[2] > aa)
      violation("unbounded-work", "l1qc_newton applied A %llu, A^T %llu and A^T A %llu times; its options allow %g, %g and %g",
                (unsigned long long)U.calls[0], (unsigned long long)U.calls[1], (unsigned long long)U.calls[2], ax, at, aa);
    if (lb.total_newton_iter > lbi * (nm + 1)) violation("unbounded-work", "l1qc_newton reports %d Newton iterations, %g are allowed", lb.total_newton_iter, lbi * (nm + 1));
    // the reported totals are the work done: one product with A^T per Newton system, one with A^T A per CG iteration and start
    u64 sys = U.calls[1];
    if ((u64)lb.total_cg_iter != U.calls[2] - sys && (u64)lb.total_cg_iter != U.calls[2]) // (a start at zero needs no product)
      violation("wrong-count", "l1qc_newton reports %d conjugate gradient iterations; it did %llu", lb.total_cg_iter, (unsigned long long)(U.calls[2] - sys));
    if ((u64)lb.total_newton_iter < sys || lb.total_newton_iter > sys + lbi)
      violation("wrong-count", "l1qc_newton reports %d Newton iterations; it solved %llu Newton systems", lb.total_newton_iter, (unsigned long long)sys);
    (void)s0;
  } else if (what == 3) {
    int m = (int)work(2, 5), n = (int)work(1, m);
    u64 data = work(1, 0xffffffff);
    UserOps& U = uops[0];
    U.setup(n, m, (int)work(1, 2), 0.5, data);
    Call c = gen_call(BIT(K_NESTA_OWN));
    l1c_NestaOpts o = c.ne;
    o.n_continue = (int)work(1, 2);
    Buf x(m), b(n);
    fill(b.p, n, mix(data, 1));
    U.fault_mask = 0x1ff;
    U.fault_p = fp * (workp(0.5) ? 0.01 : 1);
    U.fault_kinds = 9;
    int st = l1c_nesta(m, x.p, n, b.p, user_funs(0), o);
    heap_check_canaries();
    double in = 10000.0 * o.n_continue;
    note("nesta m=%d n=%d: status %d, Wtx %llu, Ax %llu, %llu faults", m, n, st, (unsigned long long)U.calls[6], (unsigned long long)U.calls[0], (unsigned long long)U.fired);
    state(mix(what, U.calls[6] / 100));
    if (U.calls[6] > in + 1 || U.calls[5] > in || U.calls[0] > 2 * in || U.calls[1] > 2 * in + 1)
      violation("unbounded-work", "nesta applied W^T %llu, W %llu, A %llu and A^T %llu times in %d continuation steps of at most 10000 iterations",
                (unsigned long long)U.calls[6], (unsigned long long)U.calls[5], (unsigned long long)U.calls[0], (unsigned long long)U.calls[1], o.n_continue);
  } else { // total variation: images with anything in them
    int mr = (int)work(3, 9), mc = (int)work(3, 9), N = mr * mc, it = (int)work(1, 12), ji = (int)work(1, 4);
    u64 data = work(1, 0xffffffff);
    Buf f(N), u(N);
    if (workp(0.3)) { // well-behaved image: it stops at the first small relative change, and only there
      fill(f.p, N, data, workp(0.2) ? 1e6 : 1);
      double mu = 0.5 + (double)work(0, 10);
      std::vector<V> it_k(1, V(N, 0.0));
      V ch(1, INFINITY);
      for (int k = 1; k <= it; k++) { // no tolerance: exactly k iterations
        l1c_breg_anistropic_TV(mr, mc, u.p, f.p, mu, 0, k, ji);
        it_k.push_back(u.vec());
        double d = 0, y = 0;
        for (int i = 0; i < N; i++) d += (it_k[k][i] - it_k[k - 1][i]) * (it_k[k][i] - it_k[k - 1][i]), y += it_k[k - 1][i] * it_k[k - 1][i];
        ch.push_back(sqrt(d / y));
      }
      double tol = pow(10.0, -(double)work(0, 6));
      if (workp(0.7)) { // right beside one of the changes
        double c = ch[work(1, it)];
        if (std::isfinite(c) && c > 0) tol = c * (workp(0.5) ? 1.001 : 0.999);
      }
      int st = l1c_breg_anistropic_TV(mr, mc, u.p, f.p, mu, tol, it, ji);
      heap_check_canaries();
      int stop = it;
      bool near = false;
      for (int k = it; k >= 1; k--) {
        if (ch[k] < tol) stop = k;
        near |= fabs(ch[k] - tol) < 1e-7 * tol;
      }
      double d = 0, y = 0;
      for (int i = 0; i < N; i++) d = std::max(d, fabs(u[i] - it_k[stop][i])), y = std::max(y, fabs(f[i]));
      note("breg %dx%d max_iter=%d max_jac_iter=%d mu=%g tol=%g -> %d, stop expected after %d", mr, mc, it, ji, mu, tol, st, stop);
      state(mix(what + 16, stop * 16 + it));
      if (!near && !(d <= 1e-12 * y))
        violation("wrong-stop", "the TV solver with tol=%.12g did not return iterate %d of %d, the first that changed by less (%g away)", tol, stop, it, d);
      return;
    }
    fill(f.p, N, data, workp(0.3) ? 1e150 : 1);
    V keep = f.vec();
    corrupt(f.p, N, 0.8, 9);
    keep = f.vec();
    u64 s0 = steps();
    int st = l1c_breg_anistropic_TV(mr, mc, u.p, f.p, 0.5 + (double)work(0, 10), pow(10.0, -(double)work(0, 9)), it, ji);
    heap_check_canaries();
    u64 used = steps() - s0;
    note("breg %dx%d max_iter=%d max_jac_iter=%d -> %d in %llu steps", mr, mc, it, ji, st, (unsigned long long)used);
    state(mix(what, it * 8 + ji));
    if (used > 20000 + (u64)N * 400 * it * (ji + 4))
      violation("unbounded-work", "the TV solver took %llu steps on a %dx%d image with max_iter=%d, max_jac_iter=%d", (unsigned long long)used, mr, mc, it, ji);
    if (memcmp(keep.data(), f.p, N * 8)) violation("input-changed", "the TV solver changed its image");
  }
}

static Reg r06("C06", c06), r07("C07", c07), r11("C11", c11), r12("C12", c12), r13("C13", c13), r14("C14", c14);
} // namespace sim

// Memory faults, resource balance, history independence, inputs, allocation API.
#include "scen.h"
#include <algorithm>
#include <math.h>

namespace sim {
void policy_alloc(u64 total) {
  Rng& r = policy_rng();
  MemPolicy& P = mem_policy;
  u64 k = total ? r.below(total) : 0;
  P.a = k;
  switch (r.below(12)) {
  default: P.fail_mode = 1; break;
  case 6: P.fail_mode = 2; break;
  case 7: P.fail_mode = 3; P.p = total > 1 ? 1.5 / (double)total : 0.5; break;
  case 8: P.fail_mode = 3; P.p = 0.25; break;
  case 9: P.fail_mode = 6; P.b = 1 + r.below(4); break;
  case 10: P.fail_mode = 7; P.b = total ? r.below(total) : 0; break;
  case 11: P.fail_mode = 4; P.a = 8u << r.below(10); break;
  }
}
void policy_fft(u64 total) {
  Rng& r = policy_rng();
  fft_policy.mode = r.chance(0.7) ? 1 : r.chance(0.5) ? 2 : 3;
  fft_policy.a = total ? r.below(total) : 0;
  fft_policy.p = 0.4;
}
void policy_mem() {
  Rng& r = policy_rng();
  mem_policy.fill = (int)r.below(5);
  mem_policy.skew = r.chance(0.5);
  mem_policy.reuse = r.chance(0.5) ? 0.8 : 0;
  mem_policy.reuse_ord = r.chance(0.3);
}
void policy_threads(int maxn) {
  sched_policy.threads = (int)work(1, maxn);
  if (maxn >= 8 && workp(0.06)) { // big machines
    sched_policy.threads = (int)work(9, workp(0.3) ? 130 : 34);
    if (sched_policy.threads > 16) large_run();
  }
  Rng& r = policy_rng();
  static const double gaps[] = {2, 8, 40, 300, 3000};
  sched_policy.mean_gap = gaps[r.below(5)];
  sched_policy.mode = r.chance(0.3);
  sched_policy.shuffle = r.chance(0.7);
  sched_policy.fewer = r.chance(0.3) ? 0.3 : 0;
  sched_apply();
}
u64 resources() { return lib_live_blocks() + fft_live_plans() + files_open(); }
bool is_setup(int t) { return t == K_DCT1 || t == K_DCT2 || t == K_DCTTV || t == K_MAT; }
static bool uses_dct(int t) {
  return t == K_DCT1 || t == K_DCT2 || t == K_DCTTV || t == K_L1QC_DCT || t == K_L1QC_TV || t == K_NESTA_TV;
}

enum { CHK_STATUS = 1, CHK_LEAK = 2, CHK_PROBE = 4, CHK_INPUT = 8, CHK_ATOMIC = 16, CHK_VALUE = 32 };

// a history of calls under failing memory and plan requests, then fault-free calls
static void history(int chk, u64 mask, int max_calls) {
  int k = (int)work(1, max_calls);
  std::vector<Call> cs;
  std::vector<Res> refs;
  for (int i = 0; i < k; i++) cs.push_back(gen_call(mask));
  int np = chk & CHK_PROBE ? (int)work(1, 2) : 0;
  for (int i = 0; i < np; i++) {
    // biased: the same call again, or the same kind of call with other arguments
    int how = (int)workw({3, 4, 2, 6});
    if (how == 0) cs.push_back(cs[work(0, k - 1)]);
    else if (how == 1) cs.push_back(gen_call(BIT(cs[work(0, k - 1)].type)));
    else if (how == 2) cs.push_back(gen_call(mask));
    else { Call v = vary_call(cs[work(0, k - 1)]); cs.push_back(v); }
  }
  u64 allocs = 0, plans = 0;
  std::vector<size_t> same_as;
  if ((chk & (CHK_PROBE | CHK_LEAK)) && workp(0.03)) { // a long history of few different small calls
    size_t kinds = (size_t)work(1, 3);
    cs.clear();
    for (size_t i = 0; i < kinds; i++) cs.push_back(i && workp(0.5) ? vary_call(cs[0]) : gen_call(mask, 1)), same_as.push_back(i);
    for (int i = (int)work(8, 40); i > 0; i--) {
      size_t j = (size_t)work(0, kinds - 1);
      Call c = cs[j];
      cs.push_back(c);
      same_as.push_back(j);
    }
    k = (int)cs.size() - np;
    probe("history.long");
  }
  for (size_t i = 0; i < cs.size(); i++) {
    if (!same_as.empty() && same_as[i] != i) { Res again = refs[same_as[i]]; refs.push_back(again); }
    else refs.push_back(fresh_call(cs[i]));
    if ((int)i < k) {
      allocs += refs[i].allocs;
      plans += refs[i].plans;
    }
  }
  Rng& r = policy_rng();
  if (allocs && (!plans || r.chance(0.7))) policy_alloc(allocs);
  if (plans && (!mem_policy.fail_mode || r.chance(0.3))) policy_fft(plans);
  policy_mem();
  for (size_t i = 0; i < cs.size(); i++) {
    const Call& c = cs[i];
    if (!same_as.empty() && (int)i < k && steps() > 150000000) continue; // long enough: on to the fault-free calls
    bool faulty = (int)i < k;
    bool old = set_faults(faulty);
    u64 mark = heap_mark(), p0 = fft_live_plans(), b0 = lib_live_blocks(), f0 = files_open();
    u64 m0 = fired("memory-request-fails"), q0 = fired("fft-plan-fails");
    Exec e;
    e.prior = c.data | 1;
    Res res = run_call(c, e);
    set_faults(old);
    u64 mf = fired("memory-request-fails") - m0, qf = fired("fft-plan-fails") - q0;
    note("%s%s -> status %d, %llu failed memory requests, %llu failed plans", faulty ? "" : "afterwards, no faults: ",
         c.str().c_str(), res.status, (unsigned long long)mf, (unsigned long long)qf);
    state(mix(c.type * 64 + (mf > 0) * 2 + (qf > 0), (u64)res.status * 8 + (faulty ? mf : 0)));
    heap_check_canaries();
    std::string why;
    if (chk & CHK_STATUS) {
      if (mf + qf == 0) {
        if (!res.same(refs[i], 0, &why))
          violation("wrong-result", "%s: no request failed, yet %s", c.str().c_str(), why.c_str());
      } else if (res.status == 0) {
        if (!res.same(refs[i], 0, &why))
          violation("wrong-result", "%s reported success after a failed request, but %s", c.str().c_str(), why.c_str());
      } else if (c.type != K_JSON) {
        int want1 = 0, want2 = 0;
        if (mf) want1 = L1C_OUT_OF_MEMORY;
        if (qf) want2 = L1C_DCT_INIT_FAILURE;
        if (c.type == K_L1QC_DCT) want2 = L1C_DCT_INIT_FAILURE; // also when its transform setup runs out of memory
        if (res.status != want1 && res.status != want2)
          violation("wrong-status", "%s returned %d after %llu failed memory and %llu failed plan requests", c.str().c_str(),
                    res.status, (unsigned long long)mf, (unsigned long long)qf);
      }
    }
    if ((chk & CHK_PROBE) && !faulty && !res.same(refs[i], 0, &why))
      violation("history", "%s after %d earlier calls differs from a fresh process: %s", c.str().c_str(), (int)i, why.c_str());
    if ((chk & CHK_PROBE) && faulty && mf + qf == 0 && !res.same(refs[i], 0, &why))
      violation("history", "%s after %d earlier calls differs from a fresh process: %s", c.str().c_str(), (int)i, why.c_str());
    if (chk & CHK_LEAK) {
      if (lib_live_blocks() > b0) {
        auto v = lib_live_since(mark);
        violation("leak", "%s (status %d) left %zu block(s) allocated, one of %zu bytes", c.str().c_str(), res.status, v.size(),
                  v.empty() ? 0 : heap_size(v[0]));
      }
      if (fft_live_plans() > p0)
        violation("plan-leak", "%s (status %d) left %llu FFT plan(s)", c.str().c_str(), res.status,
                  (unsigned long long)(fft_live_plans() - p0));
      if (files_open() > f0) violation("file-leak", "%s (status %d) left a file open", c.str().c_str(), res.status);
      if (lib_live_blocks() < b0 || fft_live_plans() < p0)
        violation("over-free", "%s released something that was not its own", c.str().c_str());
    }
    if ((chk & CHK_INPUT) && !res.changed.empty())
      violation("input-changed", "%s (status %d) changed its input %s", c.str().c_str(), res.status, res.changed.c_str());
    if ((chk & CHK_ATOMIC) && res.touched)
      violation("partial-output", "%s failed with status %d but changed its output array", c.str().c_str(), res.status);
    if (mf + qf && res.status) probe("call.failed-cleanly");
    if (mf + qf && !res.status) probe("call.succeeded-despite-fault");
  }
}
static void c01() { history(CHK_STATUS, M_ALL & ~BIT(K_KERN) & ~BIT(K_LS) & ~BIT(K_LSXU) & ~BIT(K_CG) & ~BIT(K_CGP), 2); }
static void c02() { history(CHK_LEAK, M_ALL, 3); }
static void c03() { history(CHK_PROBE, M_ALL, 4); }
static void c16() { history(CHK_INPUT | CHK_ATOMIC, M_ALL, 2); }

// ------------------------------------------------------------------ C15
static void c15() {
  Call c = gen_call(M_ALL);
  Res ref = fresh_call(c);
  mem_policy.fill = 1 + (int)policy_rng().below(4);
  mem_policy.skew = policy_rng().chance(0.5);
  mem_policy.reuse = policy_rng().chance(0.5) ? 0.95 : 0;
  mem_policy.reuse_ord = policy_rng().chance(0.4);
  int before = workp(0.5) ? (int)work(1, 3) : 0; // leave something behind for reuse
  for (int i = 0; i < before; i++) {
    int how = (int)workw({2, 2, 4, 3});
    run_call(how == 0 ? c : how == 1 ? gen_call(M_ALL) : how == 2 ? vary_call(c) : cut_call(c));
  }
  Exec e;
  e.prior = work(1, 1000000);
  Res res = run_call(c, e);
  heap_check_canaries();
  note("%s, memory filled with %d", c.str().c_str(), mem_policy.fill);
  state(mix(c.type, hash_bytes(&c.l1, sizeof c.l1)));
  std::string why;
  if (!res.same(ref, 0, &why))
    violation("memory-dependent", "%s depends on memory it was handed or on what its output array held: %s", c.str().c_str(),
              why.c_str());
}

// ------------------------------------------------------------------ C19
static void c19() {
  struct A { double** d; double* p; int nrow, n; u64 tag; bool twod; };
  std::vector<A> live;
  int steps = workp(0.03) ? (int)work(60, 300) : (int)work(4, 24);
  mem_policy.fill = (int)policy_rng().below(5);
  mem_policy.skew = true;
  mem_policy.reuse = policy_rng().chance(0.5) ? 0.8 : 0;
  mem_policy.fail_mode = policy_rng().chance(0.7) ? 3 : 0;
  mem_policy.p = 0.12;
  sched_policy.threads = (int)work(1, 4);
  auto row_ok = [&](double* q, int n, bool zeroed) {
    if ((uintptr_t)q % 64) violation("misaligned", "an array of %d doubles is not on a 64-byte boundary", n);
    range_access(q, (size_t)n * 8, true, "new array"); // all of it is there
    if (zeroed)
      for (int i = 0; i < n; i++)
        if (q[i] != 0 || signbit(q[i])) violation("not-zeroed", "element %d of %d of a zeroed array is %g", i, n, q[i]);
  };
  auto verify = [&](A& a) {
    for (int r = 0; r < a.nrow; r++) {
      auto v = dvec(a.n, a.tag + r);
      double* q = a.twod ? a.d[r] : a.p;
      if (a.n && memcmp(v.data(), q, (size_t)a.n * 8)) violation("array-clobbered", "an allocated array changed while others were allocated or freed");
    }
  };
  for (int s = 0; s < steps; s++) {
    int op = (int)workw({4, 4, 3, 3, 5, 1});
    u64 b0 = lib_live_blocks(), m0 = fired("memory-request-fails");
    if (op < 4) {
      A a = {nullptr, nullptr, 1, 0, work(1, 1 << 30), op >= 2};
      a.n = op < 2 ? (int)workw({6, 2, 1}) : 0;
      int cls = a.n;
      a.n = op < 2 ? (int)(cls == 0 ? work(1, 50) : cls == 1 ? work(50, 5000) : work(0, 3)) : (int)work(1, 70);
      if (workp(0.02)) a.n = (int)work(5000, op < 2 ? 300000 : 20000);
      a.nrow = op < 2 ? 1 : (int)work(1, a.n <= 70 && workp(0.05) ? 200 : 9);
      if (op == 0 && workp(0.02)) a.n = (1 << (28 + (int)work(0, 2))) + (int)work(0, 300); // as bytes it does not fit an int
      bool null, huge = a.n >= 1 << 28;
      if (op == 0) null = !(a.p = l1c_malloc_double(a.n));
      else if (op == 1) null = !(a.p = l1c_calloc_double(a.n));
      else if (op == 2) null = !(a.d = l1c_malloc_double_2D(a.nrow, a.n));
      else null = !(a.d = l1c_calloc_double_2D(a.nrow, a.n));
      bool f = fired("memory-request-fails") > m0;
      note("op %d nrow=%d n=%d -> %s", op, a.nrow, a.n, null ? "NULL" : "ok");
      state(op * 8 + null * 2 + f);
      if (null && !f && !huge) violation("spurious-null", "an allocation of %dx%d returned NULL although memory was available", a.nrow, a.n);
      if (null && lib_live_blocks() != b0) violation("leak", "a failed allocation of %dx%d kept %lld block(s)", a.nrow, a.n, (long long)(lib_live_blocks() - b0));
      if (null) continue;
      for (int r = 0; r < a.nrow; r++) {
        if (a.twod && !a.d[r]) violation("missing-row", "row %d of a %dx%d array is NULL", r, a.nrow, a.n);
        row_ok(a.twod ? a.d[r] : a.p, a.n, op == 1 || op == 3);
      }
      for (int r = 0; r < a.nrow; r++) fill(a.twod ? a.d[r] : a.p, a.n, a.tag + r);
      live.push_back(a);
      for (auto& x : live) verify(x);
    } else if (op == 4 && !live.empty()) {
      size_t i = work(0, live.size() - 1);
      A a = live[i];
      live.erase(live.begin() + i);
      verify(a);
      if (a.twod) l1c_free_double_2D(a.nrow, a.d);
      else l1c_free_double(a.p);
      for (auto& x : live) verify(x);
    } else if (op == 5) {
      l1c_free_double(nullptr);
      l1c_free_double_2D(3, nullptr);
      if (lib_live_blocks() != b0) violation("over-free", "freeing NULL changed something");
    }
  }
  for (auto& a : live) {
    verify(a);
    if (a.twod) l1c_free_double_2D(a.nrow, a.d);
    else l1c_free_double(a.p);
  }
  if (lib_live_blocks()) violation("leak", "%llu block(s) left after every array was freed", (unsigned long long)lib_live_blocks());
}

static Reg r01("C01", c01), r02("C02", c02), r03("C03", c03), r16("C16", c16), r15("C15", c15), r19("C19", c19);
} // namespace sim

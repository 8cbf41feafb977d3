// Threads: results do not depend on team size or interleaving; concurrent callers do not interfere.
#include "scen.h"
#include <algorithm>
#include <math.h>

namespace sim {
static const double TOL = 1e-6;

// ------------------------------------------------------------------ C04
static void c04() {
  gen_odd = false; // rounding must not decide what is compared
  Call c = gen_call(M_ALL & ~BIT(K_JSON) & ~BIT(K_ALLOC2D));
  if (c.type == K_KERN && workp(0.3)) c.m = (int)work(1, 2000);
  Res ref = fresh_call(c);
  bool ill = ill_conditioned(c, ref, TOL * 1e-3);
  policy_threads(8);
  mem_policy.fill = (int)policy_rng().below(3);
  Res res = run_call(c);
  heap_check_canaries();
  note("%s with up to %d threads, %llu preemptions%s", c.str().c_str(), sched_policy.threads, (unsigned long long)preemptions(),
       ill ? " (ill-conditioned)" : "");
  state(mix(c.type, sched_policy.threads * 1000 + (c.m % 17)));
  std::string why;
  if (ill) {
    probe("ill-conditioned");
    if (res.status != ref.status) violation("schedule-dependent", "%s: status %d instead of %d", c.str().c_str(), res.status, ref.status);
  } else if (!res.same(ref, TOL, &why))
    violation("schedule-dependent", "%s on a team of %d: %s", c.str().c_str(), sched_policy.threads, why.c_str());
  if (!res.changed.empty()) violation("input-changed", "%s changed %s", c.str().c_str(), res.changed.c_str());
}

// ------------------------------------------------------------------ C05
static void c05() {
  int k = workp(0.08) ? (int)work(5, 6) : (int)work(2, 4);
  std::vector<std::vector<Call>> plan(k);
  std::vector<std::vector<Res>> refs(k), got(k);
  std::vector<std::vector<bool>> ill(k);
  // one thread may own the module that keeps a DCT, another the matrix module
  int dct_owner = workp(0.5) ? (int)work(0, k - 1) : -1;
  int mat_owner = workp(0.4) ? (int)work(0, k - 1) : -1;
  if (mat_owner == dct_owner) mat_owner = -1;
  u64 allocs = 0;
  bool team = workp(0.3);
  gen_odd = !team;
  for (int t = 0; t < k; t++) {
    int calls = (int)work(1, 2);
    u64 mask = M_REENTRANT;
    if (t == dct_owner) mask |= BIT(K_DCT1) | BIT(K_DCT2) | BIT(K_DCTTV) | BIT(K_L1QC_DCT) | BIT(K_NESTA_TV);
    if (t == mat_owner) mask |= BIT(K_MAT) | BIT(K_NESTA_MAT);
    for (int i = 0; i < calls; i++) {
      // often a relative of another thread's call, so that anything they share has the same shape
      Call c;
      bool rel = t > 0 && workp(0.4);
      if (rel && (mask >> plan[0][0].type & 1)) c = vary_call(plan[0][0]);
      else c = gen_call(mask, workp(0.1) ? 0 : 1);
      if (c.type == K_NESTA_OWN || c.type == K_NESTA_TV || c.type == K_NESTA_MAT) c.ne.tol = 5e-2, c.ne.n_continue = 1;
      plan[t].push_back(c);
      refs[t].push_back(fresh_call(c));
      ill[t].push_back(team ? ill_conditioned(c, refs[t].back(), TOL * 1e-3) : false);
      allocs += refs[t].back().allocs;
    }
    got[t].resize(calls);
  }
  policy_threads(team ? 4 : 1);
  if (!team) sched_policy.threads = 1;
  policy_mem();
  u64 m0 = fired("memory-request-fails");
  if (policy_rng().chance(0.3)) policy_alloc(allocs);
  std::vector<std::function<void()>> fns;
  for (int t = 0; t < k; t++)
    fns.push_back([&, t] {
      for (size_t i = 0; i < plan[t].size(); i++) {
        Exec e;
        e.slot = t;
        e.prior = t % 2 ? 7 : 0;
        got[t][i] = run_call(plan[t][i], e);
      }
    });
  u64 r0 = resources();
  run_threads(fns);
  bool faulted = fired("memory-request-fails") > m0;
  heap_check_canaries();
  std::string why;
  for (int t = 0; t < k; t++)
    for (size_t i = 0; i < plan[t].size(); i++) {
      const Call& c = plan[t][i];
      note("thread %d: %s -> %d", t, c.str().c_str(), got[t][i].status);
      state(mix(c.type, k * 4 + team * 2 + faulted));
      if (faulted && got[t][i].status && refs[t][i].status == 0) {
        bool dct = c.type == K_L1QC_DCT;
        if (got[t][i].status != L1C_OUT_OF_MEMORY && !(dct && got[t][i].status == L1C_DCT_INIT_FAILURE))
          violation("wrong-status", "%s failed with %d while memory requests of concurrent calls failed", c.str().c_str(), got[t][i].status);
        continue;
      }
      if (ill[t][i]) continue;
      if (!got[t][i].same(refs[t][i], team ? TOL : 0, &why))
        violation("interference", "%s while %d other caller(s) ran: %s", c.str().c_str(), k - 1, why.c_str());
      if (!got[t][i].changed.empty()) violation("input-changed", "%s changed %s", c.str().c_str(), got[t][i].changed.c_str());
    }
  if (resources() != r0) violation("leak", "concurrent calls left %lld resource(s) behind", (long long)(resources() - r0));
}
static Reg r04("C04", c04), r05("C05", c05);
} // namespace sim

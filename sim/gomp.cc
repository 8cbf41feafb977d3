// OpenMP runtime: teams are simulated threads, every construct a scheduling point.
#include "rt.h"
#include <math.h>

namespace sim {
struct Work {
  int kind = 0; // 1 loop 2 sections 3 single
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool guided = false, is_static = false;
  bool taken = false;
  void* copy = nullptr;
  long ordered_next = 0;
  std::map<int, long> sidx;
};
struct Team {
  int n = 1;
  Team* parent = nullptr;
  int level = 0;
  int arrived = 0;
  u64 phase = 0;
  VC bar_vc;
  std::vector<Thr*> waiting;
  std::vector<Work*> works;
  Team() { memset(&bar_vc, 0, sizeof bar_vc); }
};
static int icv_threads = 0;
int omp_threads() { return icv_threads > 0 ? icv_threads : sched_policy.threads > 0 ? sched_policy.threads : 1; }
void omp_reset() { icv_threads = 0; }

static void team_barrier(Team* t) {
  if (!t || t->n == 1) return;
  tick(3);
  yield_point();
  vc_join(t->bar_vc, cur->vc);
  vc_tick(cur);
  u64 ph = t->phase;
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->phase++;
    VC all = t->bar_vc;
    memset(&t->bar_vc, 0, sizeof(VC));
    for (Thr* w : t->waiting) {
      vc_join(w->vc, all);
      make_runnable(w);
    }
    t->waiting.clear();
    vc_join(cur->vc, all);
    yield_point();
  } else {
    t->waiting.push_back(cur);
    while (t->phase == ph) block_current();
  }
}
static int team_size(unsigned req) {
  int n = req ? (int)req : omp_threads();
  if (cur->team && cur->team->n > 1) return 1; // nested parallelism is off
  if (!rt_active) return 1;
  if (n > 1) {
    u64 v = decide(S_TEAM, [&](Rng& r) -> u64 {
      return sched_policy.fewer > 0 && r.chance(sched_policy.fewer) ? 1 + r.below(n) : 0;
    });
    if (v) {
      probe("team.fewer-threads");
      n = 1 + (int)((v - 1) % n);
    }
  }
  return n < 1 ? 1 : n;
}
static unsigned run_team(void (*fn)(void*), void* data, unsigned req, const std::function<void(Team*)>& init) {
  Team tm;
  tm.n = team_size(req);
  tm.parent = cur->team;
  tm.level = cur->team ? cur->team->level + 1 : 1;
  if (init) init(&tm);
  Team* ot = cur->team;
  int on = cur->tnum;
  u32 ows = cur->ws_count;
  cur->team = &tm;
  cur->tnum = 0;
  cur->ws_count = init ? 1 : 0;
  std::vector<Thr*> ts;
  if (tm.n > 1) probe("team.parallel-regions");
  for (int i = 1; i < tm.n; i++) {
    Thr* t = spawn([fn, data] { fn(data); }, &tm, i);
    t->ws_count = init ? 1 : 0;
    ts.push_back(t);
  }
  if (tm.n > 1) {
    sched_apply();
    yield_point();
  }
  fn(data);
  for (Thr* t : ts)
    while (t->state != 2) {
      t->joiner = cur;
      block_current();
    }
  for (Thr* t : ts) reap(t);
  for (Work* w : tm.works) delete w;
  cur->team = ot;
  cur->tnum = on;
  cur->ws_count = ows;
  return tm.n;
}
// a thread outside any team works alone
static Team* my_team() {
  if (!cur->team) {
    static Team* solo[4096];
    Team*& t = solo[cur->id & 4095];
    if (!t) t = new Team();
    return t;
  }
  return cur->team;
}
static Work* next_work(bool* first) {
  Team* t = my_team();
  u32 k = cur->ws_count++;
  if (t->works.size() <= k) {
    t->works.resize(k + 1, nullptr);
  }
  *first = !t->works[k];
  if (*first) t->works[k] = new Work();
  return t->works[k];
}
static Work* cur_work() { return my_team()->works[cur->ws_count - 1]; }

static void loop_init(Work* w, long s, long e, long inc, long chunk, int sched) {
  w->kind = 1;
  w->next = s;
  w->end = e;
  w->incr = inc;
  w->chunk = chunk > 0 ? chunk : 1;
  w->is_static = sched == 1;
  w->guided = sched == 3;
  if (sched == 1 && chunk <= 0) w->chunk = 0;
}
static bool loop_next(Work* w, long* a, long* b) {
  tick(3);
  if (n_alive > 1) yield_point();
  long inc = w->incr;
  int n = my_team()->n, me = cur->tnum;
  if (w->is_static) {
    long total = inc > 0 ? (w->end - w->next + inc - 1) / inc : (w->next - w->end - inc - 1) / -inc;
    if (total < 0) total = 0;
    long& k = w->sidx[me];
    long s, e;
    if (w->chunk == 0) {
      if (k) return false;
      long q = total / n, r = total % n;
      s = me * q + (me < r ? me : r);
      e = s + q + (me < r ? 1 : 0);
    } else {
      s = (k * n + me) * w->chunk;
      e = s + w->chunk;
    }
    k++;
    if (e > total) e = total;
    if (s >= e) return false;
    *a = w->next + s * inc;
    *b = w->next + e * inc;
    return true;
  }
  long left = inc > 0 ? (w->end - w->next + inc - 1) / inc : (w->next - w->end - inc - 1) / -inc;
  if (left <= 0) return false;
  long c = w->chunk;
  if (w->guided) {
    c = (left + n - 1) / n;
    if (c < w->chunk) c = w->chunk;
  }
  if (c > left) c = left;
  *a = w->next;
  *b = w->next + c * inc;
  w->next = *b;
  return true;
}
static bool loop_start(long s, long e, long inc, long chunk, int sched, long* a, long* b) {
  bool first;
  Work* w = next_work(&first);
  if (first) loop_init(w, s, e, inc, chunk, sched);
  return loop_next(w, a, b);
}
} // namespace sim
using namespace sim;

extern "C" {
int sim_omp_get_num_threads() { return cur && cur->team ? cur->team->n : 1; }
int sim_omp_get_thread_num() { return cur && cur->team ? cur->tnum : 0; }
int sim_omp_get_max_threads() { return omp_threads(); }
int sim_omp_get_num_procs() { return omp_threads(); }
int sim_omp_in_parallel() { return cur && cur->team && cur->team->n > 1; }
int sim_omp_get_thread_limit() { return 64; }
int sim_omp_get_dynamic() { return 0; }
void sim_omp_set_dynamic(int) {}
int sim_omp_get_nested() { return 0; }
void sim_omp_set_nested(int) {}
int sim_omp_get_max_active_levels() { return 1; }
void sim_omp_set_max_active_levels(int) {}
int sim_omp_get_level() { return cur && cur->team ? cur->team->level : 0; }
void sim_omp_set_num_threads(int n) { icv_threads = n > 16 ? 16 : n; }
double sim_omp_get_wtick() { return 1e-6; }

unsigned sim_GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { return run_team(fn, d, n, nullptr); }
unsigned sim_GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { return run_team(fn, d, n, nullptr); }
void sim_GOMP_barrier() { team_barrier(cur->team); }
#define PLOOP(name, sched)                                                                        \
  void sim_GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { \
    run_team(fn, d, n, [=](Team* t) { t->works.push_back(new Work()); loop_init(t->works[0], s, e, inc, ch, sched); }); \
  }
PLOOP(static, 1) PLOOP(dynamic, 2) PLOOP(guided, 3) PLOOP(nonmonotonic_dynamic, 2) PLOOP(nonmonotonic_guided, 3)
#define PLOOPR(name)                                                                              \
  void sim_GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { \
    run_team(fn, d, n, [=](Team* t) { t->works.push_back(new Work()); loop_init(t->works[0], s, e, inc, 1, 2); }); \
  }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name, sched)                                                                         \
  bool sim_GOMP_loop_##name##_start(long s, long e, long inc, long ch, long* a, long* b) { return loop_start(s, e, inc, ch, sched, a, b); } \
  bool sim_GOMP_loop_##name##_next(long* a, long* b) { return loop_next(cur_work(), a, b); }
LOOP(static, 1) LOOP(dynamic, 2) LOOP(guided, 3) LOOP(nonmonotonic_dynamic, 2) LOOP(nonmonotonic_guided, 3)
#define LOOPR(name)                                                                               \
  bool sim_GOMP_loop_##name##_start(long s, long e, long inc, long* a, long* b) { return loop_start(s, e, inc, 1, 2, a, b); } \
  bool sim_GOMP_loop_##name##_next(long* a, long* b) { return loop_next(cur_work(), a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void sim_GOMP_loop_end() { team_barrier(cur->team); }
void sim_GOMP_loop_end_nowait() {}

bool sim_GOMP_single_start() {
  bool first;
  Work* w = next_work(&first);
  if (n_alive > 1) yield_point();
  if (w->taken) return false;
  w->taken = true;
  return true;
}
void* sim_GOMP_single_copy_start() {
  bool first;
  Work* w = next_work(&first);
  if (!w->taken) {
    w->taken = true;
    return nullptr;
  }
  team_barrier(cur->team);
  return w->copy;
}
void sim_GOMP_single_copy_end(void* p) {
  cur_work()->copy = p;
  team_barrier(cur->team);
}
static unsigned sec_next() {
  long a, b;
  if (!loop_next(cur_work(), &a, &b)) return 0;
  return (unsigned)a;
}
unsigned sim_GOMP_sections_start(unsigned n) {
  bool first;
  Work* w = next_work(&first);
  if (first) loop_init(w, 1, n + 1, 1, 1, 2);
  return sec_next();
}
unsigned sim_GOMP_sections_next() { return sec_next(); }
void sim_GOMP_sections_end() { team_barrier(cur->team); }
void sim_GOMP_sections_end_nowait() {}
void sim_GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) {
  run_team(fn, d, n, [=](Team* t) { t->works.push_back(new Work()); loop_init(t->works[0], 1, cnt + 1, 1, 1, 2); });
}

struct SimLock { bool held = false; std::vector<Thr*> q; };
static std::map<u64, SimLock>& locks() { static std::map<u64, SimLock> m; return m; }
static void lock(u64 k) {
  tick(3);
  if (n_alive > 1) yield_point();
  SimLock& l = locks()[k];
  while (l.held) {
    l.q.push_back(cur);
    block_current();
  }
  l.held = true;
  sync_acquire(k);
}
static void unlock(u64 k) {
  SimLock& l = locks()[k];
  sync_release(k);
  l.held = false;
  for (Thr* t : l.q) make_runnable(t);
  l.q.clear();
  if (n_alive > 1) yield_point();
}
void sim_GOMP_critical_start() { lock(1); }
void sim_GOMP_critical_end() { unlock(1); }
void sim_GOMP_critical_name_start(void** p) { lock((u64)p); }
void sim_GOMP_critical_name_end(void** p) { unlock((u64)p); }
void sim_GOMP_atomic_start() { lock(2); }
void sim_GOMP_atomic_end() { unlock(2); }
void sim_omp_init_lock(void* p) { *(int*)p = 0; }
void sim_omp_destroy_lock(void*) {}
void sim_omp_set_lock(void* p) { lock((u64)p); }
void sim_omp_unset_lock(void* p) { unlock((u64)p); }
void sim_GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if (cpy) {
    std::vector<char> b(sz + al);
    char* p = (char*)(((uintptr_t)b.data() + al - 1) / al * al);
    cpy(p, data);
    fn(p);
  } else
    fn(data);
}
void sim_GOMP_taskwait() {}
void sim_GOMP_taskyield() { if (n_alive > 1) yield_point(); }
void sim_GOMP_taskgroup_start() {}
void sim_GOMP_taskgroup_end() {}
bool sim_GOMP_cancel(int, bool) { return false; }
bool sim_GOMP_cancellation_point(int) { return false; }
}

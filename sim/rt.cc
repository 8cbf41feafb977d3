#include "rt.h"
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>
#include <errno.h>

extern "C" char __data_start, _end;

namespace sim {

const char* stream_name[NSTREAM] = {"work", "sched", "pick", "alloc", "mem", "fft",
                                    "op",   "io",    "clock", "print", "team", "py"};
Shared* sh = nullptr;
bool rt_active = false;
bool faults_on = true;
MemPolicy mem_policy;
SchedPolicy sched_policy;
bool detect_races = true;
std::string g_scratch;
bool g_thorough = false;

// ------------------------------------------------------------------ rng, hash
double Rng::gauss() {
  double s = 0;
  for (int i = 0; i < 6; i++) s += unit();
  return (s - 3.0) * 1.4142135623730951;
}
u64 mix(u64 a, u64 b) {
  Rng r(a ^ (b * 0xd6e8feb86659fd93ull + 0x2545f4914f6cdd1dull));
  r.next();
  return r.next();
}
u64 hash_bytes(const void* p, size_t n) {
  const u8* b = (const u8*)p;
  u64 h = 1469598103934665603ull;
  while (n >= 8) {
    u64 v;
    memcpy(&v, b, 8);
    h = (h ^ v) * 1099511628211ull;
    h ^= h >> 29;
    b += 8;
    n -= 8;
  }
  while (n--) h = (h ^ *b++) * 1099511628211ull;
  return h;
}

// ------------------------------------------------------------------ decisions
static Rng stream_rng[NSTREAM];
static Rng pol_rng;
static u64 stream_cnt[NSTREAM];
static bool replay_mode = false;
static std::unordered_map<u64, u64> replay_map[NSTREAM];
static std::vector<u64> replay_sched;
static size_t replay_sched_pos;
static u64 n_faults;

bool replaying() { return replay_mode; }
Rng& policy_rng() { return pol_rng; }
u64 stream_count(Stream s) { return stream_cnt[s]; }

void decisions_seed(u64 seed, u64 run, const char* scen) {
  u64 base = mix(mix(seed, run), hash_bytes(scen, strlen(scen)));
  for (int i = 0; i < NSTREAM; i++) stream_rng[i] = Rng(mix(base, 1000 + i));
  pol_rng = Rng(mix(base, 77));
  memset(stream_cnt, 0, sizeof stream_cnt);
}
void decisions_replay(const std::vector<Entry>& es) {
  replay_mode = true;
  replay_sched.clear();
  for (auto& m : replay_map) m.clear();
  for (auto& e : es) {
    if (e.stream >= NSTREAM || !e.val) continue;
    replay_map[e.stream][e.idx] = e.val;
    if (e.stream == S_SCHED) replay_sched.push_back(e.idx);
  }
  std::sort(replay_sched.begin(), replay_sched.end());
  replay_sched_pos = 0;
}
static void log_entry(Stream s, u64 idx, u64 v) {
  digest(mix(s * 131 + idx, v));
  if (sh->nlog < LOG_CAP) {
    Entry& e = sh->log[sh->nlog++];
    e.stream = s;
    e.pad = 0;
    e.idx = idx;
    e.val = v;
  } else
    sh->log_over = 1;
}
u64 decide(Stream s, const std::function<u64(Rng&)>& gen) {
  u64 idx = stream_cnt[s]++, v = 0;
  if (replay_mode) {
    auto it = replay_map[s].find(idx);
    if (it != replay_map[s].end()) v = it->second;
  } else
    v = gen(stream_rng[s]);
  if (v) log_entry(s, idx, v);
  return v;
}
u64 work(u64 lo, u64 hi) {
  u64 span = hi - lo + 1;
  u64 v = decide(S_WORK, [&](Rng& r) { return span ? r.below(span) : r.next(); });
  if (span) v %= span;
  return lo + v;
}
u64 workw(const std::vector<int>& w) {
  u64 v = decide(S_WORK, [&](Rng& r) {
    u64 tot = 0;
    for (int x : w) tot += x;
    u64 k = r.below(tot);
    for (size_t i = 0; i < w.size(); i++) {
      if (k < (u64)w[i]) return (u64)i;
      k -= w[i];
    }
    return (u64)0;
  });
  return v % w.size();
}
bool workp(double p) {
  return decide(S_WORK, [&](Rng& r) { return (u64)r.chance(p); }) != 0;
}
bool set_faults(bool on) { bool o = faults_on; faults_on = on; return o; }
u64 faults_fired() { return n_faults; }
void fault_fired(const char* kind) {
  n_faults++;
  sh->faults = n_faults;
  char nm[48];
  snprintf(nm, sizeof nm, "fault.%s", kind);
  probe(nm);
}
u64 fired(const char* kind) {
  char nm[48];
  snprintf(nm, sizeof nm, "fault.%s", kind);
  for (u32 i = 0; i < sh->nprobe; i++)
    if (!strcmp(sh->probes[i].name, nm)) return sh->probes[i].n;
  return 0;
}
// one possible fault: consumes an index of the stream only while faults are on
bool injected(Stream s, const std::function<u64(Rng&)>& gen, u64* val) {
  if (!rt_active || !faults_on) return false;
  u64 v = decide(s, gen);
  if (val) *val = v;
  return v != 0;
}

// ------------------------------------------------------------------ reporting
void digest(u64 v) { sh->digest = (sh->digest ^ v) * 1099511628211ull + (sh->digest >> 31); }
void digest_d(const double* x, size_t n) { digest(hash_bytes(x, n * sizeof(double))); }
void note(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  u32 room = sizeof(sh->hist) - sh->hist_len;
  if (room > 200) {
    int k = vsnprintf(sh->hist + sh->hist_len, room - 2, fmt, ap);
    if (k > (int)room - 2) k = room - 2;
    sh->hist_len += k;
    sh->hist[sh->hist_len++] = '\n';
  }
  va_end(ap);
}
void probe(const char* name, u64 n) {
  for (u32 i = 0; i < sh->nprobe; i++)
    if (!strcmp(sh->probes[i].name, name)) {
      sh->probes[i].n += n;
      return;
    }
  if (sh->nprobe < 160) {
    snprintf(sh->probes[sh->nprobe].name, 48, "%s", name);
    sh->probes[sh->nprobe++].n = n;
  }
}
void state(u64 h) {
  for (u32 i = 0; i < sh->nstate; i++)
    if (sh->states[i] == h) return;
  if (sh->nstate < 256) sh->states[sh->nstate++] = h;
}
static u64 n_steps, step_cap = 600000000, n_preempt, n_yield, s_hash = 7;
u64 steps() { return n_steps; }
u64 preemptions() { return n_preempt; }
u64 sched_hash() { return s_hash; }
void set_step_cap(u64 n) { step_cap = n; }

static void finish_shared() {
  sh->steps = n_steps;
  sh->preempt = n_preempt;
  sh->sched_hash = s_hash;
  sh->yields = n_yield;
  sh->sim_seconds = sim_seconds();
}
void violation(const char* kind, const char* fmt, ...) {
  rt_active = false;
  if (!sh->viol) {
    va_list ap;
    va_start(ap, fmt);
    sh->viol = 1;
    snprintf(sh->kind, sizeof sh->kind, "%s", kind);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    finish_shared();
  }
  _exit(3);
}
static bool g_large;
static void cpu_limit(time_t s) {
  struct itimerval it = {{0, 0}, {s, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
void large_run() {
  if (!g_large) cpu_limit(12);
  g_large = true;
}
static time_t cpu_budget = 60;
void new_budget() { // each call has the whole budget
  step_cap = n_steps + 600000000;
  if (sh && !g_large) cpu_limit(cpu_budget);
}
[[noreturn]] static void cut_short() {
  rt_active = false;
  sh->cut = 1;
  finish_shared();
  sh->done = 1;
  _exit(0);
}
void tick(u64 n) {
  n_steps += n;
  if (n_steps > step_cap) {
    if (g_large) cut_short();
    violation("no-progress", "a call did not finish within 600000000 simulated steps");
  }
}

// ------------------------------------------------------------------ heap
struct Block {
  uintptr_t p;
  size_t size;
  u64 serial;
  u8 live, tag;
  char what[14];
  u32 ord; // how many-th request of its call
};
static std::vector<Block>& blocks() { static std::vector<Block> b; return b; }
static uintptr_t bump = HEAP;
static u64 serial_no, live_lib, live_lib_bytes, lib_calls;
static u64 alloc_bytes_seen, alloc_seen;
static std::unordered_map<size_t, std::vector<u32>>& freed() {
  static std::unordered_map<size_t, std::vector<u32>> f;
  return f;
}
static u32 call_ord;
static u64 dirt;
// what the next frames find on the stack: zeros, or leftovers chosen for this call
__attribute__((noinline)) void stack_dirt() {
  volatile u64 b[2500];
  if (!dirt) {
    for (int i = 0; i < 2500; i++) b[i] = 0;
    return;
  }
  Rng r(dirt);
  u64 p = dirt & 1 ? ~0ull : 0x3ff8000000000001ull; // NaN or doubles near 1.5
  for (int i = 0; i < 2500; i++) b[i] = dirt & 2 ? r.next() : p;
}
void heap_call_begins() {
  new_budget();
  call_ord = 0;
  dirt = 0;
  if (rt_active && faults_on)
    dirt = decide(S_MEM, [&](Rng& r) -> u64 { return mem_policy.fill ? 1 + r.below(0xffff) : 0; });
  static const int left[8] = {0, ENOMEM, ENOENT, EINTR, EDOM, ERANGE, ENOTTY, EINVAL};
  errno = dirt ? left[(dirt >> 4) & 7] : 0; // what earlier calls of anything left
  stack_dirt();
}
static const u8 CANARY = 0xC5;
static const size_t RZ = 64;

static void map_fixed(void* a, size_t n) {
  void* r = mmap(a, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != a) {
    fprintf(stderr, "sim: cannot map region %p\n", a);
    _exit(70);
  }
}
static void shadow_set(uintptr_t p, size_t n, bool on) {
  uintptr_t g = (p - ARENA) >> 3;
  while (n >= 8) {
    SHADOW[g++] = on ? 8 : 0;
    n -= 8;
  }
  if (n) SHADOW[g] = on ? (u8)n : 0;
}
static Block* find_block(uintptr_t a) { // block containing or nearest below a
  auto& bs = blocks();
  Block* best = nullptr;
  for (auto& b : bs)
    if (b.p <= a && (!best || b.p > best->p || (b.p == best->p && b.serial > best->serial))) best = &b;
  return best;
}
static std::string where(uintptr_t a) {
  char buf[200];
  if (a >= ARENA && a < HEAP) return "a thread stack";
  if (a < ARENA || a >= ARENA_END) {
    snprintf(buf, sizeof buf, "address %#llx", (unsigned long long)a);
    return buf;
  }
  Block* b = find_block(a);
  if (!b) return "unallocated heap memory";
  snprintf(buf, sizeof buf, "%s%lld bytes into a %zu-byte block (%s, %s%s)",
           a >= b->p + b->size ? "past the end: " : "", (long long)(a - b->p), b->size, b->what,
           b->tag == T_LIB ? "library" : "caller", b->live ? "" : ", freed");
  return buf;
}
static std::string pcs(void* pc) {
  char b[40];
  snprintf(b, sizeof b, " pc=%p", pc);
  return b;
}

static void forget_races(uintptr_t p, size_t n);
void* heap_alloc(size_t size, size_t align, Tag tag, const char* what) {
  if (align < 16) align = 16;
  u64 memv = 0;
  if (tag == T_LIB && rt_active && faults_on) {
    auto& P = mem_policy;
    memv = decide(S_MEM, [&](Rng& r) -> u64 {
      int fill = P.fill == 4 ? (int)r.below(4) : P.fill;
      u64 v = fill & 7;
      if (P.skew && r.chance(0.8)) v |= 8;
      if (P.reuse > 0 && r.chance(P.reuse)) v |= 16;
      if (fill == 2) v |= (r.next() & 0xffff) << 8;
      if (v & 16) { // which freed block: the newest, the oldest, any
        u64 w = P.reuse_ord ? 4 : r.below(4);
        v |= (w == 4 ? 64 : w == 0 ? 0 : w == 1 ? 1 : 2 + r.below(62)) << 24;
      }
      return v;
    });
  }
  bool skew = memv & 8, reuse = memv & 16;
  u32 ord = tag == T_LIB ? ++call_ord : 0;
  int fill = memv & 7;
  Block* blk = nullptr;
  u32 bi = 0;
  if (reuse) {
    auto it = freed().find(size * 4096 + align);
    if (it != freed().end() && !it->second.empty()) {
      auto& fl = it->second;
      u64 w = memv >> 24;
      size_t at = w == 0 || w == 64 ? fl.size() - 1 : w == 1 ? 0 : (size_t)(w - 2) % fl.size();
      if (w == 64) // the block the same request of an earlier call had
        for (size_t i = fl.size(); i-- > 0;)
          if (blocks()[fl[i]].ord == ord) { at = i; break; }
      bi = fl[at];
      fl.erase(fl.begin() + at);
      blk = &blocks()[bi];
      forget_races(blk->p, blk->size);
      probe("heap.reused-block");
    }
  }
  if (!blk) {
    uintptr_t p = bump + RZ;
    uintptr_t A = align < 64 ? 64 : align;
    p = (p + A - 1) / A * A;
    if (skew) p += align; // not aligned beyond what was asked for
    if (align >= 64 && skew && (p & (2 * align - 1)) == 0) p += align;
    if (size > ARENA_SZ || p + size + RZ + 128 > ARENA_END) return nullptr;
    memset((void*)bump, CANARY, p - bump);
    bump = (p + size + RZ + 15) & ~15ull;
    memset((void*)(p + size), CANARY, bump - (p + size));
    blocks().push_back(Block());
    bi = (u32)blocks().size() - 1;
    blk = &blocks()[bi];
    blk->p = p;
    blk->size = size;
    BLKIDX[(p - ARENA) >> 4] = bi + 1;
    if (fill == 1)
      memset((void*)p, 0xFF, size);
    else if (fill == 2) {
      Rng r(memv);
      double* d = (double*)p;
      for (size_t i = 0; i + 8 <= size; i += 8) *d++ = r.sym() * 1e3;
      memset(d, 0x5A, size & 7);
    } else if (fill == 3)
      memset((void*)p, 0x11, size);
    else
      memset((void*)p, 0, size);
    if (fill) probe("heap.garbage-fill");
  }
  blk->serial = ++serial_no;
  blk->live = 1;
  blk->ord = ord;
  blk->tag = tag;
  snprintf(blk->what, sizeof blk->what, "%s", what);
  shadow_set(blk->p, size, true);
  if (tag == T_LIB) {
    live_lib++;
    live_lib_bytes += size;
  }
  digest(blk->p * 31 + size);
  return (void*)blk->p;
}
static void canary_check(Block& b) {
  const u8* e = (const u8*)(b.p + b.size);
  const u8* s = (const u8*)(b.p - 16);
  for (int i = 0; i < 16; i++) {
    if (e[i] != CANARY)
      violation("heap-overflow", "memory past the end of a %zu-byte block (%s) was overwritten",
                b.size, b.what);
    if (s[i] != CANARY)
      violation("heap-underflow", "memory before a %zu-byte block (%s) was overwritten", b.size,
                b.what);
  }
}
void heap_check_canaries() {
  for (auto& b : blocks())
    if (b.live) canary_check(b);
}
void heap_free(void* p, const char* what, Tag tag) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  u32 bi = 0;
  if (a >= HEAP && a < ARENA_END && !(a & 15)) bi = BLKIDX[(a - ARENA) >> 4];
  if (!bi) violation("bad-free", "%s of a pointer that is not an allocation: %s", what, where(a).c_str());
  Block& b = blocks()[bi - 1];
  if (!b.live) violation("double-free", "%s of a block already freed (%zu bytes, %s)", what, b.size, b.what);
  if (tag == T_LIB && b.tag == T_HARNESS)
    violation("bad-free", "the library freed memory it does not own (%zu bytes, %s)", b.size, b.what);
  canary_check(b);
  b.live = 0;
  shadow_set(b.p, b.size, false);
  if (b.tag == T_LIB) {
    live_lib--;
    live_lib_bytes -= b.size;
    // freed memory keeps its contents: a stale read in the native flavour sees old data
    size_t al = (b.p & 63) ? 16 : 64;
    freed()[b.size * 4096 + al].push_back(bi - 1);
  }
}
size_t heap_size(const void* p) {
  uintptr_t a = (uintptr_t)p;
  if (a < HEAP || a >= ARENA_END || (a & 15)) return 0;
  u32 bi = BLKIDX[(a - ARENA) >> 4];
  if (!bi || !blocks()[bi - 1].live) return 0;
  return blocks()[bi - 1].size ? blocks()[bi - 1].size : 1;
}
bool heap_live_lib(const void* p) {
  if (!heap_size(p)) return false;
  return blocks()[BLKIDX[((uintptr_t)p - ARENA) >> 4] - 1].tag == T_LIB;
}
u64 lib_live_blocks() { return live_lib; }
u64 lib_live_bytes() { return live_lib_bytes; }
u64 lib_alloc_calls() { return lib_calls; }
u64 heap_mark() { return serial_no; }
std::vector<void*> lib_live_since(u64 mark) {
  std::vector<void*> v;
  for (auto& b : blocks())
    if (b.live && b.tag == T_LIB && b.serial > mark) v.push_back((void*)b.p);
  return v;
}
Buf::Buf(size_t n_, size_t align) : n(n_) {
  p = (double*)heap_alloc(n_ * sizeof(double), align, T_HARNESS, "array");
  if (!p) violation("sim-error", "arena exhausted");
  memset(p, 0, n_ * sizeof(double));
}
Buf::~Buf() {
  if (rt_active) heap_free(p, "free", T_HARNESS);
}

// may the library's memory request fail?
static bool alloc_fails(size_t size) {
  lib_calls++;
  if (!rt_active || !faults_on) return false;
  auto& P = mem_policy;
  u64 k = alloc_seen++;
  alloc_bytes_seen += size;
  u64 v = 0;
  bool f = injected(S_ALLOC, [&](Rng& r) -> u64 {
    switch (P.fail_mode) {
    case 1: return k == P.a;
    case 2: return k >= P.a;
    case 3: return r.chance(P.p);
    case 4: return size > P.a;
    case 5: return alloc_bytes_seen > P.a;
    case 6: return k >= P.a && k < P.a + P.b;
    case 7: return k == P.a || k == P.b;
    }
    return 0;
  }, &v);
  if (f) fault_fired("memory-request-fails");
  return f;
}

// ------------------------------------------------------------------ access checks
static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }

[[gnu::noinline]] static void bad_access(uintptr_t a, size_t n, bool w, const char* what, void* pc) {
  const char* k = "bad-access";
  if (in_arena(a)) {
    Block* b = find_block(a);
    if (b && !b->live && a < b->p + b->size)
      k = "use-after-free";
    else
      k = w ? "out-of-bounds-write" : "out-of-bounds-read";
  } else if (a < 65536)
    k = "null-dereference";
  violation(k, "%s%s of %zu bytes at %s%s", what ? what : "", w ? " write" : " read", n,
            where(a).c_str(), pcs(pc).c_str());
}
static inline void check_mem(uintptr_t a, size_t n, bool w, void* pc) {
  if (!in_arena(a)) {
    if (__builtin_expect(a < 65536, 0)) bad_access(a, n, w, "", pc);
    return;
  }
  if (a < HEAP) return;
  uintptr_t g = (a - ARENA) >> 3;
  size_t off = a & 7;
  if (__builtin_expect(n <= 8 - off, 1)) {
    if (__builtin_expect(SHADOW[g] < off + n, 0)) bad_access(a, n, w, "", pc);
    return;
  }
  size_t end = off + n; // spans granules
  for (; end > 8; end -= 8, g++)
    if (SHADOW[g] < 8) bad_access(a, n, w, "", pc);
  if (SHADOW[g] < end) bad_access(a, n, w, "", pc);
}

// ------------------------------------------------------------------ races
struct Cell {
  u32 gen;
  u8 wslot, wmask, r0slot, r0mask;
  u32 wclk, r0clk, r1clk;
  u8 r1slot, r1mask, pad[2];
};
static Cell* const CELLS = (Cell*)0x40000000000ull;
static Cell* const GCELLS = (Cell*)0x60000000000ull;
static u32 race_gen = 1;
Thr* cur = nullptr;
std::vector<Thr*> all_thr;
int n_alive = 1;
static u32 slot_clk[NSLOT];

void vc_join(VC& a, const VC& b) {
  for (int i = 0; i < NSLOT; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
void vc_tick(Thr* t) { t->vc.c[t->slot] = ++slot_clk[t->slot]; }

static std::unordered_map<u64, VC>& sync_vc() { static std::unordered_map<u64, VC> m; return m; }
void sync_release(u64 key) {
  vc_join(sync_vc()[key], cur->vc);
  vc_tick(cur);
}
void sync_acquire(u64 key) {
  auto it = sync_vc().find(key);
  if (it != sync_vc().end()) vc_join(cur->vc, it->second);
}

[[gnu::noinline]] static void race_found(uintptr_t a, const char* k, int other, void* pc) {
  violation("data-race", "%s: two threads access %s without synchronisation (threads %d and %d)%s", k,
            where(a).c_str(), cur->slot, other, pcs(pc).c_str());
}
static inline Cell* cell_of(uintptr_t a) {
  if (in_arena(a)) return CELLS + ((a - ARENA) >> 2);
  uintptr_t ds = (uintptr_t)&__data_start & ~3ull;
  if (a >= ds && a < (uintptr_t)&_end) return GCELLS + ((a - ds) >> 2);
  return nullptr;
}
static inline void race_cell(Cell* c, u8 m, bool w, uintptr_t a, void* pc) {
  int me = cur->slot;
  VC& v = cur->vc;
  if (c->gen != race_gen) {
    memset(c, 0, sizeof *c);
    c->gen = race_gen;
  }
  if ((c->wmask & m) && c->wslot != me && c->wclk > v.c[c->wslot])
    race_found(a, w ? "write/write" : "write/read", c->wslot, pc);
  if (w) {
    if ((c->r0mask & m) && c->r0slot != me && c->r0clk > v.c[c->r0slot])
      race_found(a, "read/write", c->r0slot, pc);
    if ((c->r1mask & m) && c->r1slot != me && c->r1clk > v.c[c->r1slot])
      race_found(a, "read/write", c->r1slot, pc);
    c->wslot = me;
    c->wmask = m;
    c->wclk = v.c[me];
  } else {
    if (c->r0mask && c->r0slot == me) {
      c->r0mask = m;
      c->r0clk = v.c[me];
    } else if (c->r1mask && c->r1slot == me) {
      c->r1mask = m;
      c->r1clk = v.c[me];
    } else if (!c->r0mask) {
      c->r0slot = me;
      c->r0mask = m;
      c->r0clk = v.c[me];
    } else {
      c->r1slot = me;
      c->r1mask = m;
      c->r1clk = v.c[me];
    }
  }
}
static void race(uintptr_t a, size_t n, bool w, void* pc) {
  Cell* c = cell_of(a);
  if (!c) return;
  size_t off = a & 3;
  while (n) {
    size_t k = 4 - off < n ? 4 - off : n;
    u8 m = (u8)(((1u << k) - 1) << off);
    race_cell(c, m, w, a, pc);
    a += k;
    n -= k;
    off = 0;
    c++;
  }
}
static void forget_races(uintptr_t p, size_t n) {
  if (n_alive <= 1) return;
  Cell* c = cell_of(p);
  for (size_t i = 0; i < (n + 3) / 4; i++) c[i].gen = 0;
}
static bool no_preempt = false;
void atomic_region(bool on) { no_preempt = on; }

static inline void acc(uintptr_t a, size_t n, bool w, void* pc) {
  if (__builtin_expect(!rt_active, 0)) return;
  if (__builtin_expect(++n_steps > step_cap, 0)) tick(0);
  if (n_alive > 1) {
    yield_point();
    if (detect_races) race(a, n, w, pc);
  }
  check_mem(a, n, w, pc);
}
// whole-range access by a seam (BLAS, FFT, memcpy, ...)
void range_access(const void* p, size_t n, bool w, const char* what) {
  if (!rt_active || !n) return;
  uintptr_t a = (uintptr_t)p;
  tick(1 + n / 64);
  if (n_alive > 1 && detect_races) race(a, n, w, __builtin_return_address(0));
  if (!in_arena(a)) {
    if (a < 65536) bad_access(a, n, w, what, __builtin_return_address(0));
    return;
  }
  if (a < HEAP) return;
  uintptr_t g = (a - ARENA) >> 3, off = a & 7, end = off + n;
  for (; end > 8; end -= 8, g++)
    if (SHADOW[g] < 8) {
      uintptr_t bad = ARENA + (g << 3);
      bad_access(bad < a ? a : bad + SHADOW[g], 8, w, what, __builtin_return_address(0));
    }
  if (SHADOW[g] < end) bad_access(ARENA + (g << 3), end, w, what, __builtin_return_address(0));
}

// ------------------------------------------------------------------ scheduler
extern "C" void sim_ctx_switch(void** save, void* to);
asm(R"(
.text
.globl sim_ctx_switch
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

static u64 next_switch = ~0ull;
static int n_runnable = 1;
static std::vector<u8*> free_stacks;
static std::vector<Thr*> thr_pool;
static int next_id = 1, slot_rr = 1;
static u8 slot_used[NSLOT];

static u64 draw_gap() {
  Rng& r = stream_rng[S_SCHED];
  double g = sched_policy.mean_gap;
  if (g <= 0) return ~0ull >> 1;
  if (sched_policy.mode == 1) g = r.chance(0.5) ? 1.5 : g * 20;
  double u = r.unit();
  u64 k = (u64)(-log(1 - u) * g);
  return k;
}
void sched_apply() {
  if (replay_mode) {
    while (replay_sched_pos < replay_sched.size() && replay_sched[replay_sched_pos] <= n_yield)
      replay_sched_pos++;
    next_switch = replay_sched_pos < replay_sched.size() ? replay_sched[replay_sched_pos] : ~0ull;
  } else {
    next_switch = n_yield + 1 + draw_gap();
  }
}
static void switch_to(Thr* t) {
  if (t == cur) return;
  Thr* o = cur;
  cur = t;
  s_hash = mix(s_hash, t->id * 1000003ull + n_yield);
  sim_ctx_switch(&o->sp, t->sp);
}
static void preempt_now() {
  u64 idx = n_yield;
  std::vector<Thr*> cand;
  for (Thr* t : all_thr)
    if (t->state == 0 && t != cur) cand.push_back(t);
  u64 v = 0;
  if (replay_mode) {
    auto it = replay_map[S_SCHED].find(idx);
    if (it != replay_map[S_SCHED].end()) v = it->second;
  } else if (!cand.empty())
    v = 1 + stream_rng[S_SCHED].below(cand.size());
  sched_apply();
  if (v && !cand.empty()) {
    log_entry(S_SCHED, idx, v);
    n_preempt++;
    switch_to(cand[(v - 1) % cand.size()]);
  }
}
void yield_point() {
  if (n_runnable > 1 && !no_preempt) {
    if (++n_yield >= next_switch) preempt_now();
  }
}
static Thr* pick_next() {
  std::vector<Thr*> cand;
  for (Thr* t : all_thr)
    if (t->state == 0) cand.push_back(t);
  if (cand.empty()) return nullptr;
  u64 k = 0;
  if (cand.size() > 1) {
    k = decide(S_PICK, [&](Rng& r) { return sched_policy.shuffle ? r.below(cand.size()) : 0; });
    k %= cand.size();
  }
  return cand[k];
}
void make_runnable(Thr* t) {
  if (t->state == 1) {
    t->state = 0;
    n_runnable++;
  }
}
void block_current() {
  cur->state = 1;
  n_runnable--;
  Thr* t = pick_next();
  if (!t) violation("deadlock", "every thread is blocked");
  switch_to(t);
}
static void thread_main() {
  Thr* me = cur;
  me->body();
  me->state = 2;
  n_runnable--;
  if (me->joiner) make_runnable(me->joiner);
  Thr* t = pick_next();
  if (!t) violation("deadlock", "every thread is blocked");
  switch_to(t);
  abort();
}
static void init_stack(Thr* t) {
  uintptr_t top = (uintptr_t)t->stack + t->stack_sz - 64;
  top &= ~63ull;
  void** s = (void**)top;
  *--s = nullptr; // return address of thread_main: keeps the ABI alignment
  *--s = (void*)thread_main;
  for (int i = 0; i < 6; i++) *--s = nullptr;
  t->sp = s;
}
Thr* spawn(std::function<void()> body, Team* team, int tnum) {
  Thr* t;
  if (n_alive >= MAX_THR) violation("sim-error", "too many threads");
  if (n_alive == 1) { // going concurrent: earlier accesses are all ordered before
    race_gen++;
    sync_vc().clear();
  }
  bool pooled = !thr_pool.empty();
  if (pooled) {
    t = thr_pool.back();
    thr_pool.pop_back();
  } else {
    t = new Thr();
    static int nst = 0;
    t->stack = (u8*)(ARENA + MAIN_STACK + (size_t)nst * THR_STACK);
    t->stack_sz = THR_STACK;
    nst++;
  }
  t->id = next_id++;
  for (int i = 0; i < NSLOT; i++) {
    int s = (slot_rr + i) % NSLOT;
    if (!slot_used[s]) {
      t->slot = s;
      slot_used[s] = 1;
      slot_rr = s + 1;
      break;
    }
  }
  if (pooled) { // its stack is reused: ordered after the thread that had it
    VC old = t->vc;
    t->vc = cur->vc;
    vc_join(t->vc, old);
  } else
    t->vc = cur->vc;
  vc_tick(t);
  vc_tick(cur);
  t->state = 0;
  t->team = team;
  t->tnum = tnum;
  t->ws_count = t->single_count = 0;
  t->joiner = nullptr;
  t->body = std::move(body);
  init_stack(t);
  all_thr.push_back(t);
  n_alive++;
  n_runnable++;
  return t;
}
void reap(Thr* t) { // joined: t is done
  vc_join(cur->vc, t->vc);
  slot_used[t->slot] = 0;
  for (size_t i = 0; i < all_thr.size(); i++)
    if (all_thr[i] == t) {
      all_thr.erase(all_thr.begin() + i);
      break;
    }
  n_alive--;
  thr_pool.push_back(t);
}
int cur_thread() { return cur ? cur->id : 0; }

void run_threads(const std::vector<std::function<void()>>& fns) {
  std::vector<Thr*> ts;
  for (auto& f : fns) ts.push_back(spawn(f, nullptr, 0));
  sched_apply();
  for (Thr* t : ts) {
    while (t->state != 2) {
      t->joiner = cur;
      block_current();
    }
  }
  for (Thr* t : ts) reap(t);
}

// ------------------------------------------------------------------ life cycle
static stack_t altst;
static void on_signal(int sig, siginfo_t* si, void*) {
  const char* k = sig == SIGSEGV || sig == SIGBUS ? "crash" : sig == SIGFPE ? "crash-fpe"
                : sig == SIGILL ? "crash-ill" : sig == SIGABRT ? "abort" : "no-progress";
  if (sh && sh->viol) _exit(3);
  if (sh && g_large && sig == SIGVTALRM) cut_short();
  uintptr_t a = (sig == SIGSEGV || sig == SIGBUS) ? (uintptr_t)si->si_addr : 0;
  if (sig == SIGSEGV && a < 65536) k = "null-dereference";
  violation(k, "signal %d (%s) while the library was running, address %s", sig, strsignal(sig),
            a < 65536 ? "near NULL" : in_arena(a) ? where(a).c_str() : "wild");
}
void rt_map() {
  map_fixed((void*)ARENA, ARENA_SZ);
  map_fixed(SHADOW, ARENA_SZ / 8);
  map_fixed(BLKIDX, ARENA_SZ / 4);
  map_fixed(CELLS, ARENA_SZ / 4 * sizeof(Cell));
  map_fixed(GCELLS, ((&_end - &__data_start) / 4 + 16) * sizeof(Cell));
  sh = (Shared*)mmap(nullptr, sizeof(Shared) + LOG_CAP * sizeof(Entry), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cur = new Thr();
  cur->slot = 0;
  slot_used[0] = 1;
  memset(&cur->vc, 0, sizeof(VC));
  cur->stack = (u8*)ARENA;
  cur->stack_sz = MAIN_STACK;
  all_thr.push_back(cur);
}
void shared_reset() {
  memset(sh, 0, offsetof(Shared, log));
  sh->digest = 1469598103934665603ull;
}
static void (*main_body)();
static void* outer_sp;
static void main_entry() {
  rt_active = true;
  main_body();
  rt_active = false;
  finish_shared();
  sh->done = 1;
  fflush(stdout);
  _exit(0);
}
// in the child: run body as simulated thread 0, never returns
void rt_run(void (*body)(), unsigned cpu_s) {
  altst.ss_sp = malloc(1 << 16);
  altst.ss_size = 1 << 16;
  sigaltstack(&altst, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
  cpu_budget = (time_t)cpu_s;
  cpu_limit(cpu_budget);
  main_body = body;
  vc_tick(cur);
  volatile uintptr_t top = ARENA + MAIN_STACK - 128;
  void** s = (void**)(top & ~63ull);
  *--s = nullptr;
  *--s = (void*)main_entry;
  for (int i = 0; i < 6; i++) *--s = nullptr;
  cur->sp = s;
  sim_ctx_switch(&outer_sp, cur->sp);
  abort();
}

bool fresh(const std::function<void(std::vector<double>&)>& fn, std::vector<double>& out,
           std::string* err) {
  static const size_t CAP = 1 << 23;
  double* m = (double*)mmap(nullptr, CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    set_faults(false);
    cpu_limit(g_large ? 12 : cpu_budget);
    SchedPolicy one;
    sched_policy = one;
    next_switch = ~0ull;
    n_steps = 0;
    step_cap = 600000000;
    std::vector<double> v;
    fn(v);
    rt_active = false;
    if (v.size() + 1 > CAP) _exit(4);
    m[0] = (double)v.size();
    for (size_t i = 0; i < v.size(); i++) m[i + 1] = v[i];
    m[CAP - 1] = 1;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (sh->cut) cut_short();
  if (sh->viol) _exit(3); // the fresh process itself violated something
  bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  if (ok) {
    out.assign(m + 1, m + 1 + (size_t)m[0]);
  } else if (err)
    *err = "fresh process did not finish";
  munmap(m, CAP * 8);
  if (!ok) violation("crash", "the same call in a fresh process did not finish normally");
  return ok;
}
} // namespace sim

// ------------------------------------------------------------------ tsan hooks
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                  \
  void __tsan_read##n(void* p) { acc((uintptr_t)p, n, false, PC); }            \
  void __tsan_write##n(void* p) { acc((uintptr_t)p, n, true, PC); }            \
  void __tsan_unaligned_read##n(void* p) { acc((uintptr_t)p, n, false, PC); }  \
  void __tsan_unaligned_write##n(void* p) { acc((uintptr_t)p, n, true, PC); }  \
  void __tsan_volatile_read##n(void* p) { acc((uintptr_t)p, n, false, PC); }   \
  void __tsan_volatile_write##n(void* p) { acc((uintptr_t)p, n, true, PC); }   \
  void __tsan_unaligned_volatile_read##n(void* p) { acc((uintptr_t)p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { acc((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) acc((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) acc((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}

// atomics: sequentially consistent, every one a yield point and a sync edge
static inline void at(volatile void* p, size_t n, bool w, void* pc) {
  if (!rt_active) return;
  tick(1);
  if (n_alive > 1) yield_point();
  check_mem((uintptr_t)p, n, w, pc);
  if (n_alive > 1) {
    sync_acquire((u64)p);
    if (w) sync_release((u64)p);
  }
}
#define ATOM(bits, T)                                                          \
  T __tsan_atomic##bits##_load(const volatile T* p, int) { at((volatile void*)p, sizeof(T), false, PC); return *p; } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) { at(p, sizeof(T), true, PC); *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { at(p, sizeof(T), true, PC); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { \
    at(p, sizeof(T), true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { \
    at(p, sizeof(T), true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { \
    at(p, sizeof(T), true, PC); T o = *p; if (o == c) *p = v; return o; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ malloc seam
static void* lib_alloc(size_t n, size_t al, const char* w) {
  if (!rt_active) { // start-up code of the library: not part of a run
    void* p = nullptr;
    return posix_memalign(&p, al < 16 ? 16 : al, n) ? nullptr : p;
  }
  tick(1);
  if (n_alive > 1) yield_point();
  if (alloc_fails(n)) return nullptr;
  if (n > (size_t)1 << 30) { // more than the machine has
    fault_fired("memory-request-too-large");
    return nullptr;
  }
  return heap_alloc(n, al, T_LIB, w);
}
void* sim_malloc(size_t n) {
  void* p = lib_alloc(n, 16, "malloc");
  if (!p) errno = ENOMEM;
  return p;
}
void* sim_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = lib_alloc(n, 16, "calloc");
  if (!p) { errno = ENOMEM; return nullptr; }
  memset(p, 0, n);
  return p;
}
void sim_free(void* p) {
  if (!p) return;
  if (!rt_active) { if (!in_arena((uintptr_t)p)) free(p); return; }
  tick(1);
  if (n_alive > 1) yield_point();
  size_t n = heap_size(p);
  if (n && n_alive > 1 && detect_races) race((uintptr_t)p, n < 8 ? n : 8, true, PC);
  heap_free(p, "free", T_LIB);
}
void* sim_realloc(void* p, size_t n) {
  if (!p) return sim_malloc(n);
  size_t o = heap_size(p);
  if (!o) violation("bad-free", "realloc of a pointer that is not a live allocation");
  void* q = sim_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  sim_free(p);
  return q;
}
int sim_posix_memalign(void** out, size_t al, size_t n) {
  if (al < sizeof(void*) || (al & (al - 1))) return EINVAL;
  void* p = lib_alloc(n, al, "memalign");
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* sim_aligned_alloc(size_t al, size_t n) { return lib_alloc(n, al, "aligned_alloc"); }
void* sim_memalign(size_t al, size_t n) { return lib_alloc(n, al, "memalign"); }
void* sim_valloc(size_t n) { return lib_alloc(n, 4096, "valloc"); }
char* sim_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
char* sim_strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  char* p = (char*)sim_malloc(n + 1);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
void* sim_reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return sim_realloc(p, n);
}
int sim_vasprintf(char** out, const char* fmt, va_list ap) {
  va_list c;
  va_copy(c, ap);
  int n = vsnprintf(nullptr, 0, fmt, c);
  va_end(c);
  *out = n < 0 ? nullptr : (char*)sim_malloc((size_t)n + 1);
  if (!*out) return -1;
  return vsnprintf(*out, (size_t)n + 1, fmt, ap);
}
int sim_asprintf(char** out, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int n = sim_vasprintf(out, fmt, ap);
  va_end(ap);
  return n;
}
void* sim_fftw_malloc(size_t n) { return lib_alloc(n, 16, "fftw_malloc"); }
double* sim_fftw_alloc_real(size_t n) { return (double*)lib_alloc(n * 8, 16, "fftw_malloc"); }
void sim_fftw_free(void* p) { sim_free(p); }
void* sim_memcpy(void* d, const void* s, size_t n) {
  range_access(s, n, false, "memcpy");
  range_access(d, n, true, "memcpy");
  if (rt_active && n && (const char*)s < (char*)d + n && (char*)d < (const char*)s + n && d != s)
    violation("overlap", "memcpy between overlapping ranges");
  return memmove(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
  range_access(s, n, false, "memmove");
  range_access(d, n, true, "memmove");
  return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
  range_access(d, n, true, "memset");
  return memset(d, c, n);
}
size_t sim_strlen(const char* s) {
  size_t n = strlen(s);
  range_access(s, n + 1, false, "strlen");
  return n;
}
}

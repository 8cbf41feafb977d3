// Simulator core: decisions, heap, scheduler, seams.  See DESIGN.md.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

namespace sim {

// ---------------------------------------------------------------- decisions
// Every nondeterministic choice of a run is one entry (stream, index, value).
// An entry that is absent means value 0, the benign default.
enum Stream {
  S_WORK = 0, // workload: operations, sizes, options, data seeds
  S_SCHED,    // preemption at an instrumented memory access: index = yield point
  S_PICK,     // who runs next when the running thread blocks or ends
  S_ALLOC,    // memory request k fails
  S_MEM,      // contents / placement / reuse of memory request k
  S_FFT,      // plan request k fails
  S_OP,       // caller supplied operator/objective call k misbehaves
  S_IO,       // file operation k fails
  S_CLOCK,    // clock reading k
  S_PRINT,    // print hook call k misbehaves
  S_TEAM,     // team size delivered for parallel region k
  S_PY,       // interpreter (Python / mx) request k fails
  NSTREAM
};
extern const char* stream_name[NSTREAM];

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  double sym() { return 2 * unit() - 1; }
  double gauss(); // approximately normal, portable
};
u64 mix(u64 a, u64 b);

struct Entry { u32 stream; u32 pad; u64 idx; u64 val; };

// search mode generator for a stream, called when no replay map is loaded
u64 decide(Stream s, const std::function<u64(Rng&)>& gen);
u64 work(u64 lo, u64 hi);               // uniform in [lo,hi]
u64 workw(const std::vector<int>& w);   // weighted index
bool workp(double p);                   // recorded coin
bool replaying();
Rng& policy_rng();                      // unrecorded: only picks search policies
u64 stream_count(Stream s);

// ---------------------------------------------------------------- violations
[[noreturn]] void violation(const char* kind, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // history line
void probe(const char* name, u64 n = 1); // coverage / fired-fault counter
void state(u64 h);                       // distinct state reached (hash)
void digest(u64 v);                      // feeds the determinism digest
void digest_d(const double* x, size_t n);

// ---------------------------------------------------------------- memory
enum Tag { T_LIB = 0, T_HARNESS = 1 };
void* heap_alloc(size_t size, size_t align, Tag tag, const char* what);
void heap_free(void* p, const char* what, Tag tag);
size_t heap_size(const void* p); // 0 when p is not the start of a live block
bool heap_live_lib(const void* p);
u64 lib_live_blocks();
u64 lib_live_bytes();
u64 lib_alloc_calls();
// highest allocation serial so far: blocks newer than a mark that are live
u64 heap_mark();
void heap_call_begins();
void stack_dirt(); // overwrites the stack below the caller with this call's leftovers
std::vector<void*> lib_live_since(u64 mark);
void heap_check_canaries();
void range_access(const void* p, size_t n, bool write, const char* what);

// per-run memory behaviour in search mode (policies; decisions are recorded)
struct MemPolicy {
  int fail_mode = 0;     // 0 none 1 nth 2 from nth on 3 random 4 size limit 5 byte budget 6 burst
  u64 a = 0, b = 0;
  double p = 0;
  int fill = 0;          // 0 zero 1 NaN bytes 2 garbage doubles 3 stale reuse 4 mixture
  bool skew = false;     // only minimal alignment
  double reuse = 0;
  bool reuse_ord = false; // reuse the block the same request of an earlier call had
};
extern MemPolicy mem_policy;
extern bool faults_on;      // master switch for injected faults
bool set_faults(bool on);   // returns the old value
u64 faults_fired();         // injected faults since the start of the run
struct FaultsOff { bool o; FaultsOff() : o(set_faults(false)) {} ~FaultsOff() { set_faults(o); } };
void fault_fired(const char* kind);
u64 fired(const char* kind); // how often this fault kind was injected so far

struct Buf { // 64-byte aligned harness array with red zones
  double* p; size_t n;
  explicit Buf(size_t n_, size_t align = 64);
  ~Buf();
  Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
  double& operator[](size_t i) { return p[i]; }
  std::vector<double> vec() const { return std::vector<double>(p, p + n); }
};

// ---------------------------------------------------------------- FFT, files
struct FftPolicy { int mode = 0; u64 a = 0; double p = 0; };
extern FftPolicy fft_policy;
u64 fft_live_plans();
u64 fft_plan_calls();
struct IoPolicy { int mode = 0; double p = 0; };
extern IoPolicy io_policy;
u64 files_open();
void io_set_target(const char* path); // file the truncate/grow faults act on
bool io_target_modified();

// ---------------------------------------------------------------- clock, print
struct ClockPolicy { int mode = 0; };
extern ClockPolicy clock_policy;
u64 clock_reads();
double sim_seconds();
u64 stdout_bytes();
u64 stderr_bytes();
extern std::string last_stdout;
struct PrintPolicy { int mode = 0; };
extern PrintPolicy print_policy;
extern "C" int sim_hook_printf(const char* fmt, ...); // harness print hook
u64 hook_calls();
extern std::string last_hook;
void hook_capture(std::string* to);

// ---------------------------------------------------------------- scheduler
struct SchedPolicy {
  int threads = 1;       // team size the runtime offers
  double mean_gap = 0;   // 0: never preempt; otherwise mean accesses between switches
  bool shuffle = false;  // random pick when a thread blocks
  double fewer = 0;      // probability that a team gets fewer threads than asked
  int mode = 0;          // 0 uniform 1 bursty
};
extern SchedPolicy sched_policy;
void sched_apply();       // (re)arm after changing sched_policy
// run several application threads to completion under the simulated scheduler
void run_threads(const std::vector<std::function<void()>>& fns);
int cur_thread();
u64 steps();
u64 preemptions();
u64 sched_hash();
void set_step_cap(u64 n);
void new_budget(); // a call starts: renews the step and CPU limits
void large_run(); // a large call was drawn: running out of budget ends the run without a verdict
extern bool detect_races;
void atomic_region(bool on); // harness code that must not be preempted

// ---------------------------------------------------------------- fresh process
// Evaluate fn in a forked process in which nothing of this run has happened:
// no faults, one thread, zeroed memory.  Result: fn's vector.
bool fresh(const std::function<void(std::vector<double>&)>& fn, std::vector<double>& out,
           std::string* err);

// ---------------------------------------------------------------- scenarios
struct Scenario {
  const char* id;
  void (*run)();
  void (*warm)(); // once per worker, before any fork
};
const Scenario* find_scenario(const char* id);
extern const char* g_flavour;
extern std::string g_scratch; // scratch directory of this worker
extern bool g_thorough;

// internals shared by runtime files
void rt_begin();
void rt_end();
extern bool rt_active;
void raise_crash(int sig, void* addr);
u64 hash_bytes(const void* p, size_t n);
} // namespace sim

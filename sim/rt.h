// Internals shared by the runtime files (not for scenarios).
#pragma once
#include "sim.h"

namespace sim {

static const uintptr_t ARENA = 0x10000000000ull;
static const size_t ARENA_SZ = 320ull << 20;
static const size_t MAIN_STACK = 8ull << 20;
static const size_t THR_STACK = 512ull << 10;
static const int MAX_THR = 136;
static const uintptr_t HEAP = ARENA + MAIN_STACK + MAX_THR * THR_STACK;
static const uintptr_t ARENA_END = ARENA + ARENA_SZ;
static u8* const SHADOW = (u8*)0x20000000000ull;   // per 8 bytes: addressable bytes
static u32* const BLKIDX = (u32*)0x30000000000ull; // per 16 bytes: block index + 1
static const int NSLOT = 160;

struct VC { u32 c[NSLOT]; };

struct Team;
struct Thr {
  int id = 0, slot = 0;
  void* sp = nullptr;
  u8* stack = nullptr;
  size_t stack_sz = 0;
  int state = 0; // 0 runnable 1 blocked 2 done
  Team* team = nullptr;
  int tnum = 0;
  u32 ws_count = 0, single_count = 0;
  VC vc;
  std::function<void()> body;
  Thr* joiner = nullptr;
};
extern Thr* cur;
extern std::vector<Thr*> all_thr; // live threads, by id
extern int n_alive;

void yield_point();             // maybe preempt
void block_current();           // state already set to 1
void make_runnable(Thr* t);
Thr* spawn(std::function<void()> body, Team* team, int tnum);
void reap(Thr* t);
void vc_join(VC& a, const VC& b);
void vc_tick(Thr* t);
void sync_release(u64 key);
void sync_acquire(u64 key);

struct Shared {
  int cut; // a large call used the budget up: the run says nothing
  u32 done;
  u32 viol;
  char kind[64];
  char msg[1600];
  char hist[4096];
  u32 hist_len;
  u64 digest, steps, preempt, sched_hash, faults, yields;
  double sim_seconds;
  u32 nprobe;
  struct { char name[48]; u64 n; } probes[160];
  u32 nstate;
  u64 states[256];
  u32 nlog, log_over;
  Entry log[1]; // LOG_CAP
};
static const u32 LOG_CAP = 400000;
extern Shared* sh;

void tick(u64 n = 1); // counts simulated steps, enforces the cap
bool injected(Stream s, const std::function<u64(Rng&)>& gen, u64* val);
} // namespace sim

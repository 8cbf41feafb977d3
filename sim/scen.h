// Shared by the scenario files.
#pragma once
#include "calls.h"
namespace sim {
// search policies (unrecorded); a recorded run carries the resulting decisions
void policy_alloc(u64 total);       // failing memory requests, spread over `total` of them
void policy_fft(u64 total);
void policy_mem();                  // contents, placement and reuse of memory
void policy_threads(int maxn);      // team size (recorded) and preemption density
u64 resources();                    // library blocks + plans + open files alive
std::string leaked(u64 mark);
bool is_setup(int type);
} // namespace sim

// Public-API calls as data: generated from decisions, executed, compared.
#pragma once
#include "lib.h"
#include <string>
#include <vector>

namespace sim {
enum CallType {
  K_CG, K_CGP, K_LS, K_LSXU, K_BREG, K_L1QC_DCT, K_L1QC_OWN, K_NESTA_TV, K_NESTA_OWN,
  K_DCT1, K_DCT2, K_DCTTV, K_MAT, K_JSON, K_ALLOC2D, K_KERN, K_NESTA_MAT, K_L1QC_TV, NCALL
};
extern const char* call_name[NCALL];
static const u64 M_ALL = ~0ull;
#define BIT(k) (1ull << (k))
// calls that keep all their state on the caller's side
static const u64 M_REENTRANT =
    BIT(K_CG) | BIT(K_CGP) | BIT(K_LS) | BIT(K_LSXU) | BIT(K_BREG) | BIT(K_L1QC_OWN) | BIT(K_NESTA_OWN) | BIT(K_KERN);

struct Call {
  int type = 0, n = 1, m = 1, mrow = 1, mcol = 1;
  u64 data = 0;
  int a = 0, b = 0, c = 0;      // small integer options
  double p = 0, q = 0, r = 0;   // real options
  int verbose = 0;
  int kind = 0;                 // data: 0 ordinary, 1 zero, 2 large, 3 small, 4 constant, 5 mostly zero
  l1c_L1qcOpts l1 = {};
  l1c_NestaOpts ne = {};
  std::vector<int> ops;
  std::string str() const;
};
struct Res {
  int status = 0;
  std::vector<double> out;
  std::string changed;   // input that was modified, "" when none
  bool touched = false;  // an output array differs from its prior contents
  u64 op_calls = 0, allocs = 0, plans = 0; // counts of the fault-free execution
  bool same(const Res& o, double tol, std::string* why) const;
};
struct Exec {
  int slot = 0;
  u64 prior = 0;  // contents of output arrays before the call: 0 zeros, else finite garbage
};
struct Reg { Reg(const char* id, void (*run)(), void (*warm)() = nullptr); };
extern bool gen_odd; // also generate unusual options and data
Call gen_call(u64 mask, int scale = 0); // scale 0 mixed, 1 small only
void scale_small(Call&);
Call vary_call(const Call& c); // a related call: same kind, some arguments equal, some not
Call cut_call(const Call& c);  // the same call stopped after fewer iterations
void shake(const Call& c, double* x, size_t n); // gives data the shape c.kind asks for
Res run_call(const Call& c, const Exec& e = Exec());
// reference result: same call, fresh process, no faults
Res fresh_call(const Call& c, double jitter = 0);
bool ill_conditioned(const Call& c, const Res& ref, double tol);
int gen_size(int cap);
std::vector<int> pick_idx(int n, int m, u64 seed);

// caller supplied operators for the solvers, one set per slot
struct UserOps {
  int n = 0, m = 0, p = 0;
  std::vector<double> v1, v2;   // Householder vectors
  std::vector<int> idx;
  double alpha = 0, norm_W = 1;
  u64 calls[10] = {0};          // Ax Aty AtAx Mx Mty Wz Wtx Rx Rty destroy
  u64 total = 0;
  u64 fault_mask = 0;           // which operators may misbehave
  double fault_p = 0;
  int fault_kinds = 7;          // first this many kinds, or K_TAME
  u64 skip = 0;                 // calls before faults start
  u64 fired = 0;
  double largest = 0; // largest entry the library ever passed to Ax
  std::vector<double> tmp;
  void setup(int n, int m, int pm, double alpha, u64 seed);
  void A(const double* x, double* y) const;   // exact, no faults, no counting
  void At(const double* y, double* x) const;
};
static const int NSLOTS = 6;
extern UserOps uops[NSLOTS];
l1c_AxFuns user_funs(int slot);
typedef void (*opfn)(double*, double*);
opfn get_op(const l1c_AxFuns& f, int k, int* in, int* out);
struct CgData { int n; std::vector<double> v; double cond; u64 calls; };
void cg_op(l1c_int n, double* x, double* b, void* d);
void op_corrupt(UserOps& u, int which, double* y, int len);
enum { K_TAME = 100 };
bool corrupt(double* y, int len, double p, int kinds); // one S_OP decision
void fill(double* x, size_t n, u64 seed, double scale = 1.0);
std::vector<double> dvec(size_t n, u64 seed, double scale = 1.0);
} // namespace sim

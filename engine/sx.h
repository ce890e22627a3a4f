// Harness API of the SX engine.  The same harness source is compiled twice:
// instrumented (symbolic exploration) and natively (replay).
#pragma once
#include <stddef.h>
#include <stdint.h>

extern "C" {
// fresh symbolic integer in [lo, hi]
uint64_t sx_int(const char* name, int64_t lo, int64_t hi);
bool sx_bool(const char* name);
void sx_assume(bool c);
// property: decided by the solver for every input that reaches this point
void sx_assert(bool c, const char* msg);
// reachability witness: every label listed by the check must be hit
void sx_cover(const char* label);
// forces a value to be concrete by exploring all of its feasible values
uint64_t sx_concrete(uint64_t v);
// ite without forking
uint64_t sx_ite(bool c, uint64_t a, uint64_t b);
// first n draws of every std::mt19937 become symbolic (n < 0: all);
// span > 0: a draw is restricted to [0, span)
void sx_symbolic_random(int n, uint64_t span);
uint64_t sx_model_random(uint64_t conc);
// select instructions fork instead of merging
void sx_fork_selects(bool on);
// maximum number of seconds one execution may take
void sx_timeout(int seconds);
// the property being harness-checked tolerates exit()/throw at this point
void sx_note(const char* s, uint64_t v);
bool sx_replaying();
// file contents with symbolic bytes (see getline model)
void sx_file_bytes(const char* path, const unsigned char* data, size_t n);
// cooperative threads: runs fn(arg, 0..n-1) as n threads under a symbolic
// scheduler with at most `preempt` preemptions
void sx_threads(int n, int preempt, void (*fn)(void*, int), void* arg);
void sx_omp(int threads, int preempt);
// preemptions still allowed between threads started by std::thread
void sx_preempt(int n);
// 1: omp_get_num_threads() in the bound of a parallel loop is the team size, as with gcc
void sx_omp_bounds(int on);
// marks a scheduling point by hand
void sx_sched();
// 1: following accesses form one atomic step; 0: ends it (for modelled libraries)
void sx_atomic(int on);
}

typedef void (*sx_harness_fn)();
struct sx_reg {
    sx_reg(const char* name, sx_harness_fn f);
};
#define SX_HARNESS(n)                              \
    static void sxh_##n();                         \
    static sx_reg sxr_##n(#n, sxh_##n);            \
    static void sxh_##n()

static inline uint64_t sx_min(uint64_t a, uint64_t b) { return sx_ite(a < b, a, b); }
static inline uint64_t sx_max(uint64_t a, uint64_t b) { return sx_ite(a < b, b, a); }

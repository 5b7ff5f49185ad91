// Harness interface of the symbolic executor (engine/) and of its native replay runtime (rt/native.cc).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sym_bits(const char *name, int bits);
uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi);   // inclusive
uint64_t sym_pick(const char *name, uint64_t n);                  // concrete choice 0..n-1 (forks)
void sym_mem(void *p, size_t n, const char *name);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
[[noreturn]] void sym_fail(const char *msg);
void sym_reach(const char *label);
void sym_observe(const char *name, uint64_t v);
uint64_t sym_concrete(uint64_t v);
int sym_is_symbolic(void);
uint64_t sym_param(const char *name, uint64_t def);
[[noreturn]] void sym_stop(void);
void sym_trace(const char *msg);
void sym_print(const char *name, uint64_t v);
[[noreturn]] void sym_unsupported(const char *msg);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
// threads (rt/sched.cc)
void sym_yield(void);          // possible context switch
void sym_sched(int preemptions);   // allow this many preemptions from here on
}

// Harness API: symbolic under the executor, replayed values natively.
#pragma once
#include <cstdint>
extern "C" {
double vf_double(const char* name, double lo, double hi);  // any real in [lo,hi]
double vf_real(const char* name);                          // any real
int64_t vf_int(const char* name, int64_t lo, int64_t hi);
uint64_t vf_bits(const char* name);
uint8_t vf_byte(const char* name);
bool vf_bool(const char* name);
int vf_choose(const char* name, int n);  // forks: 0..n-1
void vf_assume(bool c);
void vf_check(bool c, const char* msg);
void vf_reach(const char* tag);
bool vf_close(double a, double b, double tol);  // NaN == NaN
bool vf_close_mod(double a, double b, double period, double tol);
void vf_generalize(void* p, uint64_t n, const char* name);
int vf_symbolic();
bool vf_isnan(double a);
bool vf_and(bool a, bool b);
int64_t vf_concrete(int64_t v);  // forks over every feasible value
}
#define HARNESS(name) extern "C" __attribute__((noinline, used)) void name()

// Native side of the harness API: replays one assignment from a file.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <dlfcn.h>
#include <exception>

#include "vf.h"
static std::map<std::string, std::string> g_vals;
static std::map<std::string, int> g_names;
static int g_fail = 0;
static std::string nm(const char* n) {
  std::string s(n);
  for (auto& c : s)
    if (c == ' ') c = '_';
  return s + "#" + std::to_string(g_names[n]++);
}
static bool vf_get(const std::string& n, std::string& v) {
  auto it = g_vals.find(n);
  if (it == g_vals.end()) return false;
  v = it->second;
  return true;
}
extern "C" {
double vf_double(const char* n, double lo, double hi) {
  std::string v;
  double x = vf_get(nm(n), v) ? strtod(v.c_str(), nullptr) : lo;
  return x < lo ? lo : x > hi ? hi : x;
}
double vf_real(const char* n) {
  std::string v;
  return vf_get(nm(n), v) ? strtod(v.c_str(), nullptr) : 0.0;
}
int64_t vf_int(const char* n, int64_t lo, int64_t) {
  std::string v;
  return vf_get(nm(n), v) ? strtoll(v.c_str(), nullptr, 10) : lo;
}
uint64_t vf_bits(const char* n) {
  std::string v;
  return vf_get(nm(n), v) ? strtoull(v.c_str(), nullptr, 10) : 0;
}
uint8_t vf_byte(const char* n) { return static_cast<uint8_t>(vf_bits(n)); }
bool vf_bool(const char* n) { return vf_bits(n) != 0; }
int vf_choose(const char* n, int) { return static_cast<int>(vf_bits(n)); }
void vf_assume(bool c) {
  if (!c) {
    printf("VF_ASSUME\n");
    fflush(stdout);
    _Exit(g_fail ? 1 : 77);
  }
}
void vf_check(bool c, const char* m) {
  if (!c) {
    g_fail = 1;
    printf("VF_FAIL %s\n", m);
    fflush(stdout);
  }
}
void vf_reach(const char* t) { printf("VF_REACH %s\n", t); }
bool vf_close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  // rounding allowance of the real-arithmetic claim
  return a == b || std::fabs(a - b) <= tol + 1e-12 * (std::fabs(a) + std::fabs(b)) + 1e-12;
}
bool vf_close_mod(double a, double b, double p, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(std::remainder(a - b, p)) <= tol + 1e-9;
}
void vf_generalize(void* p, uint64_t n, const char* name) {
  std::string base = nm(name) + "@";
  for (uint64_t k = 0; k + 8 <= n; k += 8) {
    std::string v;
    if (vf_get(base + std::to_string(k), v)) {
      double x = strtod(v.c_str(), nullptr);
      std::memcpy(static_cast<char*>(p) + k, &x, 8);
    }
  }
}
int vf_symbolic() { return 0; }
bool vf_isnan(double a) { return std::isnan(a); }
bool vf_and(bool a, bool b) { return a && b; }
int64_t vf_concrete(int64_t v) { return v; }
}
// hardware_concurrency is an input of the model when the replay names it
#ifdef VF_HWC
#include <thread>
unsigned int std::thread::hardware_concurrency() noexcept {
  std::string v;
  return vf_get("hwc", v) ? static_cast<unsigned>(strtoul(v.c_str(), nullptr, 10)) : 4;
}
#endif
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r");
  char a[256], b[256];
  while (f && fscanf(f, "%255s %255s", a, b) == 2) g_vals[a] = b;
  auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
  if (!fn) {
    printf("no harness %s\n", argv[1]);
    return 2;
  }
  try {
    fn();
  } catch (const std::exception& e) {
    printf("VF_FAIL uncaught exception %s\n", e.what());
    return 1;
  }
  printf("VF_END\n");
  return g_fail ? 1 : 0;
}

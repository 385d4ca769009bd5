// parallel_for: partition of the range, exceptions, absence of races.
#include <stdexcept>
#include <exception>
#include <atomic>
#include <chrono>
#include <thread>
#include <memory>

#include "fes/detail/thread.hpp"
#include "vf.h"
using namespace fes;

// Every index of [0,size) is handed to exactly one call, whatever the size,
// the number of threads and the number of CPUs.
HARNESS(h_par_partition) {
  int64_t n = vf_int("size", 0, 12);
  int64_t nt = vf_int("num_threads", 0, 6);
  int64_t x = vf_int("index", 0, 12);
  vf_assume(x < n || n == 0);
  std::atomic<int64_t> hits{0}, total{0};
  detail::parallel_for(
      [&](const int64_t start, const int64_t end) {
        vf_check(vf_and(start >= 0, vf_and(start <= end, end <= n)), "sub-range inside the range");
        hits += (start <= x && x < end);
        total += end - start;
      },
      static_cast<size_t>(n), static_cast<size_t>(nt));
  vf_reach("done");
  if (n > 0) {
    vf_check(hits == 1, "every index processed exactly once");
  }
  vf_check(total == n, "the sub-ranges add up to the range");
}
// the same with sizes taken over the whole 31-bit range, few threads
HARNESS(h_par_partition_large) {
  int64_t n = vf_int("size", 1, 2000000000);
  int64_t nt = vf_int("num_threads", 0, 5);
  int64_t x = vf_int("index", 0, 2000000000);
  vf_assume(x < n);
  std::atomic<int64_t> hits{0}, total{0};
  detail::parallel_for(
      [&](const int64_t start, const int64_t end) {
        vf_check(vf_and(start >= 0, vf_and(start <= end, end <= n)), "sub-range inside the range");
        hits += (start <= x && x < end);
        total += end - start;
      },
      static_cast<size_t>(n), static_cast<size_t>(nt));
  vf_reach("done");
  vf_check(hits == 1, "every index processed exactly once");
  vf_check(total == n, "the sub-ranges add up to the range");
}
// An explicit number of threads is an upper bound on the concurrency.
HARNESS(h_par_serial) {
  int64_t n = vf_int("size", 1, 1000);
  int64_t calls = 0;
  detail::parallel_for([&](const int64_t start, const int64_t end) { calls += (start == 0 && end == n) ? 1 : 100; },
                       static_cast<size_t>(n), 1);
  vf_reach("done");
  vf_check(calls == 1, "one thread: one call over the whole range");
}

struct Failure : std::runtime_error {
  int64_t at;
  explicit Failure(int64_t k) : std::runtime_error("worker"), at(k) {}
};
// Natively, the workers are slow: one that is not waited for is still running.
static void pause() {
  if (!vf_symbolic()) std::this_thread::sleep_for(std::chrono::milliseconds(30));
}
// Any subset of the workers fails: the failure reaches the caller, after every
// worker is done.
HARNESS(h_par_exception) {
  int64_t n = vf_int("size", 1, 4);
  int64_t nt = vf_int("num_threads", 0, 4);
  bool fail[4];
  for (auto& b : fail) b = vf_bool("fails");
  int done[4] = {0, 0, 0, 0};
  std::atomic<int64_t> finished{0};
  bool expected = false;
  int64_t nn = vf_concrete(n);
  for (int64_t k = 0; k < nn; ++k) expected = expected || fail[k];
  bool caught = false;
  int64_t at = -1;
  try {
    detail::parallel_for(
        [&](const int64_t start, const int64_t end) {
          struct Done {
            std::atomic<int64_t>& c;
            int64_t n;
            ~Done() { c += n; }
          } on_exit{finished, end - start};
          (void)on_exit;
          for (int64_t k = start; k < end; ++k) {
            if (fail[k]) throw Failure(k);
            pause();
            ++done[k];
          }
        },
        static_cast<size_t>(nn), static_cast<size_t>(nt));
  } catch (const Failure& e) {
    caught = true;
    at = e.at;
  }
  vf_reach(expected ? "failure" : "success");
  vf_check(finished == nn, "the caller is answered once every worker is done");
  vf_check(caught == expected, "the caller sees a failure exactly when a worker failed");
  if (caught) {
    vf_check(at >= 0 && at < nn && fail[at], "the exception is one thrown by a worker");
  } else {
    for (int64_t k = 0; k < nn; ++k) vf_check(done[k] == 1, "all the items are processed once");
  }
}

// Small property-based testing runtime used by every harness in /verif/harness.
//
// A *case* is a sequence of bounded integer choices.  The generator of a harness draws choices from a Ctx; the
// sequence is recorded (in memory shared with the parent), so a failing case - also one that crashed or hung - can be
// replayed and shrunk by editing the sequence.  Cases run in forked worker processes; a crash, a sanitizer report, a
// CPU-time runaway or a failed CHECK of a worker becomes a candidate failure, which is replayed in fresh processes
// before it is reported.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

struct Shared;  // per worker, in shared memory

class Ctx {
 public:
  // uniform in [0, n); 0 is the simplest value
  uint64_t draw(uint64_t n);
  // uniform in [lo, hi]; lo is the simplest value
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
  // true with probability num/den; false is the simplest value
  bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
  bool coin() { return draw(2) == 1; }
  // index chosen by weight; index 0 is the simplest value
  size_t weighted(std::initializer_list<unsigned> w);
  size_t pick(size_t n) { return static_cast<size_t>(draw(n)); }
  template <class C>
  auto &one_of(C &c) {
    return c[pick(c.size())];
  }
  // loop control: continue with probability avg/(avg+1); the iteration's choices form a span the shrinker can delete
  bool more(unsigned avg, size_t max_iter, size_t *counter);
  void span_begin();
  void span_end();

  bool verbose() const { return verbose_; }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void label(const char *name);
  void label_n(const char *name, uint64_t n);
  void nontrivial() { nontrivial_ = true; }
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // marks the rest of the case as belonging to a recorded finding (never used unless known_findings lists it)

  // ---- runtime internals
  Shared *sh_ = nullptr;
  bool replay_ = false;        // exhausted choices read as 0
  bool verbose_ = false;
  bool nontrivial_ = false;
  int log_fd_ = -1;
  uint64_t rng_[2] = {0, 0};
  std::vector<uint64_t> feed_;  // choices to replay first
  size_t feed_pos_ = 0;
  uint64_t next_rand();
  void seed(uint64_t s);
};

struct Loop {
  Ctx &c;
  unsigned avg;
  size_t max;
  size_t n = 0;
  bool open = false;
  Loop(Ctx &c_, unsigned avg_, size_t max_) : c(c_), avg(avg_), max(max_) {}
  bool next() {
    if (open) {
      c.span_end();
      open = false;
    }
    if (n >= max) return false;
    c.span_begin();
    open = true;
    if (c.draw(avg + 1) == 0) {
      c.span_end();
      open = false;
      return false;
    }
    ++n;
    return true;
  }
  ~Loop() {
    if (open) c.span_end();
  }
};

struct HarnessInfo {
  const char *name;
  const char *rule;             // what a case is and what makes it non-trivial
  bool nondeterministic;        // real threads: one sound observation is enough
  unsigned case_cpu_limit_s;    // CPU seconds one case may use before it is treated as a runaway
};

// provided by the harness
extern const HarnessInfo info;
void run_case(Ctx &c);
void setup_process();  // called once in every worker before the first case

// heap accounting (operator new/delete, replaced by pbt.cpp)
long live_allocs();
long total_allocs();
// make the n-th next operator new throw std::bad_alloc (0: off) - only used by fault-injecting harnesses
void fail_alloc_after(long n);

Ctx &cur();  // the running case

}  // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond, ...)                                                                   \
  do {                                                                                     \
    if (!(cond)) ::pbt::cur().fail("CHECK(" #cond ") at " __FILE__ ":" PBT_STR(__LINE__) " " __VA_ARGS__); \
  } while (0)
#define CHECK_EQ(a, b, ...)                                                                                   \
  do {                                                                                                        \
    auto pbt_a_ = (a);                                                                                        \
    auto pbt_b_ = (b);                                                                                        \
    if (!(pbt_a_ == pbt_b_)) {                                                                                \
      char pbt_buf_[512];                                                                                     \
      snprintf(pbt_buf_, sizeof(pbt_buf_), " " __VA_ARGS__);                                                  \
      ::pbt::cur().fail("%s == %s failed: got %lld, expected %lld at %s:%d%s", #a, #b,                        \
                        static_cast<long long>(pbt_a_), static_cast<long long>(pbt_b_), __FILE__, __LINE__,   \
                        pbt_buf_);                                                                            \
    }                                                                                                         \
  } while (0)

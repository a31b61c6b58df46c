// Running the threads of a case.
// In the "sched" build (VP_SCHED) exactly one of them runs at a time and every basic block edge, load and store of the
// library and of the harness is a point where it may be preempted: the case carries a generated list of preemptions, so an
// interleaving is replayed exactly and shrunk like any other input.  After the list threads take turns in long slices.
// In the other builds they are plain threads started together; points are places where they may pause a little.
#pragma once
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <vector>

#include "pbt.h"

#define SCHED_RAW __attribute__((no_sanitize("coverage"), no_sanitize("address"), noinline))

namespace sched {
struct Switch {
  unsigned after, to;
};
struct Plan {
  std::vector<Switch> v;
};
constexpr unsigned kMaxThreads = 6;

inline Plan gen_plan(pbt::Ctx &c, unsigned threads, unsigned avg = 8, unsigned max = 24) {
  Plan p;
  pbt::Loop l(c, avg, max);
  while (l.next()) {
    Switch s;
    switch (c.weighted({4, 4, 3, 1})) {
      case 0: s.after = 1 + static_cast<unsigned>(c.draw(40)); break;
      case 1: s.after = 1 + static_cast<unsigned>(c.draw(250)); break;
      case 2: s.after = 1 + static_cast<unsigned>(c.draw(900)); break;
      default: s.after = 1 + static_cast<unsigned>(c.draw(4000)); break;
    }
    s.to = static_cast<unsigned>(c.draw(threads));
    p.v.push_back(s);
  }
  return p;
}

#ifdef VP_SCHED
struct State {
  bool on = false;
  unsigned off = 0;     // preemption is off (the harness keeps its books)
  long left = 0;        // points until the next preemption
  unsigned cur = 0, n = 0;
  bool alive[kMaxThreads] = {};
  const Switch *sw = nullptr;
  size_t nsw = 0, pos = 0;
  unsigned next_to = 0;
  uint64_t points = 0, switches = 0, seq = 0;
  uint32_t gate[kMaxThreads + 1] = {};  // the last one is the caller of run()
  std::function<void()> *job[kMaxThreads] = {};
  bool made[kMaxThreads] = {};
};
inline State S;
constexpr uint64_t kMaxPoints = 4000000;

SCHED_RAW inline void open_gate(unsigned t) {
  __atomic_store_n(&S.gate[t], 1u, __ATOMIC_RELEASE);
  syscall(SYS_futex, &S.gate[t], FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
SCHED_RAW inline void wait_gate(unsigned t) {
  while (__atomic_load_n(&S.gate[t], __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, &S.gate[t], FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(&S.gate[t], 0u, __ATOMIC_RELAXED);
}
SCHED_RAW inline void arm() {
  if (S.pos < S.nsw) {
    S.left = S.sw[S.pos].after;
    S.next_to = S.sw[S.pos].to;
    ++S.pos;
  } else {
    S.left = 1500;
    S.next_to = S.cur + 1;
  }
}
SCHED_RAW inline unsigned alive_from(unsigned t) {
  for (unsigned k = 0; k < S.n; ++k)
    if (S.alive[(t + k) % S.n]) return (t + k) % S.n;
  return S.n;
}
SCHED_RAW inline void preempt() {
  if (S.points > kMaxPoints) pbt::cur().fail("the threads make no progress (deadlock or endless loop)");
  unsigned me = S.cur, to = alive_from(S.next_to % S.n);
  S.cur = to;
  arm();
  if (to == me) return;
  ++S.switches;
  open_gate(to);
  wait_gate(me);
}
SCHED_RAW inline void point() {
  if (!S.on || S.off) return;
  ++S.points;
  if (--S.left > 0) return;
  preempt();
}
// the running thread cannot go on by itself
SCHED_RAW inline void give_way() {
  S.points += 20;
  S.next_to = S.cur + 1;
  preempt();
}
SCHED_RAW inline void *thread_main(void *arg) {
  unsigned me = static_cast<unsigned>(reinterpret_cast<uintptr_t>(arg));
  for (;;) {
    wait_gate(me);
    (*S.job[me])();
    S.alive[me] = false;
    unsigned to = alive_from(S.next_to % S.n);
    if (to == S.n) {
      S.on = false;
      open_gate(kMaxThreads);
    } else {
      S.cur = to;
      arm();
      open_gate(to);
    }
  }
  return nullptr;
}
inline void run(std::vector<std::function<void()>> &bodies, const Plan &plan) {
  S.n = static_cast<unsigned>(bodies.size());
  for (unsigned t = 0; t < S.n; ++t) {
    S.job[t] = &bodies[t];
    S.alive[t] = true;
    if (!S.made[t]) {
      pthread_t th;
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
      if (pthread_create(&th, &at, thread_main, reinterpret_cast<void *>(static_cast<uintptr_t>(t))) != 0) abort();
      S.made[t] = true;
    }
  }
  S.sw = plan.v.data();
  S.nsw = plan.v.size();
  S.pos = 0;
  S.points = S.switches = 0;
  S.cur = 0;
  S.off = 0;
  arm();
  S.on = true;
  open_gate(0);
  wait_gate(kMaxThreads);
}
inline uint64_t switches() { return S.switches; }
// no preemption while one of these exists
struct Books {
  SCHED_RAW Books() { ++S.off; }
  SCHED_RAW ~Books() { --S.off; }
};
SCHED_RAW inline uint64_t tick() { return ++S.seq; }
#else
inline std::atomic<unsigned> g_ready{0};
inline unsigned g_pause = 0;
inline void point() {
  for (volatile unsigned k = 0; k < g_pause; ++k) {
  }
}
inline void give_way() { sched_yield(); }
inline void run(std::vector<std::function<void()>> &bodies, const Plan &plan) {
  g_ready.store(0);
  g_pause = plan.v.empty() ? 0 : plan.v[0].after % 300;
  struct Arg {
    std::function<void()> *f;
    unsigned n;
    unsigned pause;
  };
  std::vector<Arg> args;
  std::vector<pthread_t> th(bodies.size());
  for (size_t t = 0; t < bodies.size(); ++t)
    args.push_back(Arg{&bodies[t], static_cast<unsigned>(bodies.size()),
                       t + 1 < plan.v.size() ? plan.v[t + 1].after : 0});
  for (size_t t = 0; t < bodies.size(); ++t)
    if (pthread_create(
            &th[t], nullptr,
            [](void *p) -> void * {
              Arg *a = static_cast<Arg *>(p);
              g_ready.fetch_add(1, std::memory_order_relaxed);
              while (g_ready.load(std::memory_order_relaxed) < a->n) {
              }
              for (volatile unsigned k = 0; k < a->pause; ++k) {
              }
              (*a->f)();
              return nullptr;
            },
            &args[t]) != 0)
      abort();
  for (auto &t : th) pthread_join(t, nullptr);
}
inline uint64_t switches() { return 1; }
struct Books {
  Books() {}
  ~Books() {}
};
// in real time order for operations that do not overlap; establishes no order for the race detector
inline std::atomic<uint64_t> g_seq{0};
inline uint64_t tick() { return g_seq.fetch_add(1, std::memory_order_relaxed) + 1; }
#endif
}  // namespace sched

#ifdef VP_SCHED
extern "C" {
SCHED_RAW void __sanitizer_cov_trace_pc_guard(uint32_t *) { sched::point(); }
SCHED_RAW void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
#define SCHED_MEM(n)                                                       \
  SCHED_RAW void __sanitizer_cov_load##n(const void *) { sched::point(); } \
  SCHED_RAW void __sanitizer_cov_store##n(const void *) { sched::point(); }
SCHED_MEM(1)
SCHED_MEM(2)
SCHED_MEM(4)
SCHED_MEM(8)
SCHED_MEM(16)
#undef SCHED_MEM
// the waits of the runtime itself: static locals and pthread_once
SCHED_RAW int __cxa_guard_acquire(uint64_t *g) {
  char *b = reinterpret_cast<char *>(g);
  for (;;) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    char no = 0;
    if (__atomic_compare_exchange_n(b + 1, &no, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return 1;
    if (sched::S.on) sched::give_way();
  }
}
SCHED_RAW void __cxa_guard_release(uint64_t *g) noexcept {
  char *b = reinterpret_cast<char *>(g);
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
}
SCHED_RAW void __cxa_guard_abort(uint64_t *g) noexcept { __atomic_store_n(reinterpret_cast<char *>(g) + 1, 0, __ATOMIC_RELEASE); }
SCHED_RAW int pthread_once(pthread_once_t *o, void (*f)(void)) {
  for (;;) {
    int s = __atomic_load_n(o, __ATOMIC_ACQUIRE);
    if (s == 2) return 0;
    if (s == 0 && __atomic_compare_exchange_n(o, &s, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
      f();
      __atomic_store_n(o, 2, __ATOMIC_RELEASE);
      return 0;
    }
    if (s == 1 && sched::S.on) sched::give_way();
  }
}
SCHED_RAW int sched_yield(void) noexcept {
  if (sched::S.on) {
    sched::give_way();
    return 0;
  }
  return static_cast<int>(syscall(SYS_sched_yield));
}
SCHED_RAW int nanosleep(const struct timespec *a, struct timespec *b) {
  if (sched::S.on) {
    sched::give_way();
    return 0;
  }
  return static_cast<int>(syscall(SYS_nanosleep, a, b));
}
}
#endif

// C12: identifiers are non-zero and unique, for any number of threads and any clock.
// The allocator's state is per process, so every case runs in a forked child with a virtual clock (time() is replaced).
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <libcopp/utils/uint64_id_allocator.h>
#include <libcotask/task.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <atomic>
#include <functional>

#include "common.h"
#include "preempt.h"

const pbt::HarnessInfo pbt::info = {
    "ids",
    "a case is a sequence of phases: ids taken by one thread (some or, to exhaust the sequence of one clock second, half "
    "a billion), by several threads at once, tasks created, and the clock running on, standing still or stepping either "
    "way between 1970 and 2100; all ids of a case must be non-zero and pairwise different; non-trivial when several "
    "threads took ids, or the clock stepped, or the sequence was exhausted",
    false, 120};

namespace {
std::atomic<long> g_now{1700000000};
std::atomic<long> g_calls{0};
std::atomic<long> g_stall{50};  // the virtual second passes after this many clock readings
std::atomic<bool> g_virtual{false};
}  // namespace
extern "C" time_t time(time_t *out) noexcept {
  time_t r;
  if (g_virtual.load(std::memory_order_relaxed)) {
    long n = g_calls.fetch_add(1) + 1;
    if (n % g_stall.load() == 0) g_now.fetch_add(1);
    r = g_now.load();
  } else {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  }
  if (out) *out = r;
  return r;
}
void pbt::setup_process() {}

namespace {
using Alloc = copp::util::uint64_id_allocator;
using Task = cotask::task<>;
using TF = cotask::task_future<int, void>;
TF one_future() { co_return 0; }

struct Runs {  // ids as closed intervals
  std::vector<std::pair<uint64_t, uint64_t>> v;
  bool zero = false;
  void add(uint64_t id) {
    if (id == 0) zero = true;
    if (!v.empty() && v.back().second + 1 == id)
      ++v.back().second;
    else
      v.emplace_back(id, id);
  }
};
struct Phase {
  int kind;
  uint64_t n;
  long arg;
  std::vector<uint64_t> per_thread;
  sched::Plan plan;
};

[[noreturn]] void child(const std::vector<Phase> &ps, int fd) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  auto die = [&](const char *msg) {
    (void)!write(fd, msg, strlen(msg));
    _exit(1);
  };
  char buf[256];
  g_virtual.store(true);
  std::vector<Runs> all;
  auto take = [](uint64_t n, Runs &r) {
    Alloc a;
    uint64_t i = 0;
    if (n == 0) return;
    uint64_t first = a.allocate(), prev = first;
    if (first == 0) r.zero = true;
    for (i = 1; i < n; ++i) {
      uint64_t id = a.allocate();
      if (__builtin_expect(id != prev + 1 || id == 0, 0)) {
        r.v.emplace_back(first, prev);
        first = id;
        if (id == 0) r.zero = true;
      }
      prev = id;
    }
    r.v.emplace_back(first, prev);
  };
  for (auto &p : ps) {
    switch (p.kind) {
      case 0:
      case 1: {
        all.emplace_back();
        take(p.n, all.back());
        break;
      }
      case 2: {
        size_t base = all.size();
        all.resize(base + p.per_thread.size());
        std::vector<std::function<void()>> jobs;
        for (size_t t = 0; t < p.per_thread.size(); ++t)
          jobs.push_back([&, t] { take(p.per_thread[t], all[base + t]); });
        sched::run(jobs, p.plan);
        break;
      }
      case 3:
        g_now.store(p.arg);
        break;
      case 4:
        g_stall.store(p.arg);
        break;
      default: {
        all.emplace_back();
        Runs &r = all.back();
        std::vector<Task::ptr_type> keep;
        for (uint64_t i = 0; i < p.n; ++i) {
          auto t = Task::create([]() { return 0; }, 16 * 1024);
          if (!t) die("a task could not be created");
          r.add(t->get_id());
          if (t->get_id() != t->get_id()) die("the id of a task changed");
          keep.push_back(t);
          TF f = one_future();
          r.add(static_cast<uint64_t>(f.get_id()));
        }
        break;
      }
    }
  }
  std::vector<std::pair<uint64_t, uint64_t>> iv;
  for (auto &r : all) {
    if (r.zero) die("an id is zero");
    iv.insert(iv.end(), r.v.begin(), r.v.end());
  }
  std::sort(iv.begin(), iv.end());
  for (size_t i = 1; i < iv.size(); ++i)
    if (iv[i].first <= iv[i - 1].second) {
      snprintf(buf, sizeof(buf), "id %llu was handed out twice", static_cast<unsigned long long>(iv[i].first));
      die(buf);
    }
  _exit(0);
}
}  // namespace

void pbt::run_case(pbt::Ctx &c) {
  std::vector<Phase> ps;
  auto clock_value = [&]() -> long {
    switch (c.weighted({5, 2, 2, 2})) {
      case 0: return 1700000000 + static_cast<long>(c.draw(100000000));
      case 1: return 1577836800 - 3 + static_cast<long>(c.draw(7));
      case 2: return static_cast<long>(c.draw(1577836800));
      default: return 1577836800 + static_cast<long>(c.draw(2500000000ull));
    }
  };
#ifdef VP_SCHED
  bool big = false, interesting = false;
#else
  bool big = c.chance(1, 90), interesting = false;
#endif
  ps.push_back(Phase{3, 0, clock_value(), {}, {}});
  ps.push_back(Phase{4, 0, static_cast<long>(1 + c.draw(60)), {}, {}});
  size_t exhaust = 0;
  long last = ps[0].arg;
  pbt::Loop loop(c, 6, 24);
  while (loop.next()) {
    Phase p{0, 0, 0, {}, {}};
    switch (c.weighted({5, 4, 3, 2, big ? 6u : 0u})) {
      case 0:
        p.kind = 0;
        p.n = 1 + c.draw(200);
        c.log("take %llu ids", static_cast<unsigned long long>(p.n));
        break;
      case 1: {
        p.kind = 2;
        size_t nt = 2 + c.draw(4);
#ifdef VP_SCHED
        for (size_t t = 0; t < nt; ++t) p.per_thread.push_back(c.coin() ? 1 + c.draw(40) : 1 + c.draw(120));
        p.plan = sched::gen_plan(c, static_cast<unsigned>(nt));
#else
        for (size_t t = 0; t < nt; ++t) p.per_thread.push_back(c.coin() ? 1 + c.draw(100) : 1 + c.draw(20000));
#endif
        c.log("%zu threads take ids", nt);
        interesting = true;
        break;
      }
      case 2:
        p.kind = 3;
        switch (c.pick(3)) {
          case 0: p.arg = clock_value(); break;
          case 1: p.arg = last - static_cast<long>(c.draw(10)); break;
          default: p.arg = last + static_cast<long>(c.draw(10)); break;
        }
        if (p.arg < 1) p.arg = 1;
        last = p.arg;
        c.log("clock steps to %ld", p.arg);
        interesting = true;
        break;
      case 3:
        p.kind = 5;
        p.n = 1 + c.draw(5);
        c.log("create %llu tasks", static_cast<unsigned long long>(p.n));
        break;
      default:
        if (exhaust >= 3) break;
        ++exhaust;
        p.kind = 1;
        p.n = (static_cast<uint64_t>(1) << 29) - c.draw(3) * 40000;
        c.log("take %llu ids", static_cast<unsigned long long>(p.n));
        c.label("exhausted");
        interesting = true;
        break;
    }
    ps.push_back(p);
  }
  int fd[2];
  if (pipe(fd) != 0) abort();
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    child(ps, fd[1]);
  }
  close(fd[1]);
  char buf[300];
  ssize_t n = 0, k;
  while ((k = read(fd[0], buf + n, sizeof(buf) - 1 - static_cast<size_t>(n))) > 0) n += k;
  buf[n > 0 ? n : 0] = 0;
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) c.fail("the process died with signal %d", WTERMSIG(st));
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) c.fail("%s", n > 0 ? buf : "the process failed");
  if (interesting) c.nontrivial();
}

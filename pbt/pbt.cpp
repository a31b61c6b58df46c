#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>

// ------------------------------------------------------------------------------------------------ heap accounting
namespace {
std::atomic<long> g_live{0};
std::atomic<long> g_total{0};
std::atomic<long> g_fail_after{0};
void *counted_alloc(size_t n) {
  if (g_fail_after.load(std::memory_order_relaxed) > 0 && g_fail_after.fetch_sub(1) == 1) return nullptr;
  void *p = malloc(n ? n : 1);
  if (p) {
    g_live.fetch_add(1, std::memory_order_relaxed);
    g_total.fetch_add(1, std::memory_order_relaxed);
  }
  return p;
}
void *counted_aligned(size_t n, size_t al) {
  if (g_fail_after.load(std::memory_order_relaxed) > 0 && g_fail_after.fetch_sub(1) == 1) return nullptr;
  void *p = nullptr;
  if (posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n ? n : 1) != 0) return nullptr;
  g_live.fetch_add(1, std::memory_order_relaxed);
  g_total.fetch_add(1, std::memory_order_relaxed);
  return p;
}
void counted_free(void *p) {
  if (!p) return;
  g_live.fetch_sub(1, std::memory_order_relaxed);
  free(p);
}
}  // namespace
#if !defined(__has_feature)
#  define __has_feature(x) 0
#endif
#if !__has_feature(thread_sanitizer)
void *operator new(size_t n) {
  void *p = counted_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  void *p = counted_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return counted_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return counted_alloc(n); }
void *operator new(size_t n, std::align_val_t a) {
  void *p = counted_aligned(n, static_cast<size_t>(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) {
  void *p = counted_aligned(n, static_cast<size_t>(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept {
  return counted_aligned(n, static_cast<size_t>(a));
}
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept {
  return counted_aligned(n, static_cast<size_t>(a));
}
void operator delete(void *p) noexcept { counted_free(p); }
void operator delete[](void *p) noexcept { counted_free(p); }
void operator delete(void *p, size_t) noexcept { counted_free(p); }
void operator delete[](void *p, size_t) noexcept { counted_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { counted_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { counted_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { counted_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { counted_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { counted_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { counted_free(p); }
#endif

// -------------------------------------------------------------------------------------------------- coverage (clang)
namespace {
std::vector<std::pair<uint8_t *, uint8_t *>> *g_cov_regions = nullptr;
}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e) {
  if (!g_cov_regions) g_cov_regions = new std::vector<std::pair<uint8_t *, uint8_t *>>();
  for (auto &r : *g_cov_regions)
    if (r.first == b) return;
  g_cov_regions->emplace_back(b, e);
}

namespace pbt {

long live_allocs() { return g_live.load(); }
long total_allocs() { return g_total.load(); }
void fail_alloc_after(long n) { g_fail_after.store(n); }

constexpr size_t kMaxChoices = 1 << 16;
constexpr size_t kMaxSpans = 1 << 14;

enum Outcome : int { kRunning = 0, kPass = 1, kFail = 77, kHang = 78, kThrough = 79 };
// kThrough: the process came to its end. Status 0 does not say so: leaving a context through its last frame calls _exit(0).

struct Span {
  uint32_t b, e;
};

struct Shared {
  std::atomic<uint64_t> case_no;    // 1-based, number of the case being run
  std::atomic<int> in_case;
  std::atomic<uint32_t> nchoices;
  std::atomic<uint32_t> nspans;
  char msg[2048];
  uint64_t choices[kMaxChoices];
  Span spans[kMaxSpans];
};

static Ctx *g_cur = nullptr;
static std::atomic<Shared *> g_sh(nullptr);  // of this process, for the signal handler
Ctx &cur() { return *g_cur; }

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void Ctx::seed(uint64_t s) {
  rng_[0] = splitmix(s);
  rng_[1] = splitmix(s);
  if (!rng_[0] && !rng_[1]) rng_[1] = 1;
}
uint64_t Ctx::next_rand() {
  uint64_t s1 = rng_[0], s0 = rng_[1];
  uint64_t r = s0 + s1;
  rng_[0] = s0;
  s1 ^= s1 << 23;
  rng_[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}

uint64_t Ctx::draw(uint64_t n) {
  if (n == 0) n = 1;
  uint64_t v;
  if (feed_pos_ < feed_.size()) {
    v = feed_[feed_pos_++];
    if (v >= n) v = replay_ ? n - 1 : v % n;
  } else if (replay_) {
    v = 0;
  } else {
    v = next_rand();
    v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
  }
  uint32_t k = sh_->nchoices.load(std::memory_order_relaxed);
  if (k < kMaxChoices) {
    sh_->choices[k] = v;
    sh_->nchoices.store(k + 1, std::memory_order_relaxed);
  } else {
    v = 0;  // exhausted: simplest values only
  }
  return v;
}

size_t Ctx::weighted(std::initializer_list<unsigned> w) {
  uint64_t total = 0;
  for (unsigned x : w) total += x;
  uint64_t v = draw(total);
  size_t i = 0;
  for (unsigned x : w) {
    if (v < x) return i;
    v -= x;
    ++i;
  }
  return w.size() - 1;
}

void Ctx::span_begin() {
  uint32_t k = sh_->nspans.load(std::memory_order_relaxed);
  if (k < kMaxSpans) {
    sh_->spans[k].b = sh_->nchoices.load();
    sh_->spans[k].e = 0;
    sh_->nspans.store(k + 1);
  }
}
void Ctx::span_end() {
  uint32_t k = sh_->nspans.load(std::memory_order_relaxed);
  while (k > 0) {
    --k;
    if (sh_->spans[k].e == 0) {
      sh_->spans[k].e = sh_->nchoices.load();
      return;
    }
  }
}

void Ctx::log(const char *fmt, ...) {
  if (!verbose_) return;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > static_cast<int>(sizeof(buf)) - 2) n = sizeof(buf) - 2;
  buf[n] = '\n';
  ssize_t r = write(log_fd_, buf, static_cast<size_t>(n) + 1);
  (void)r;
}

static std::map<std::string, uint64_t> *g_labels = nullptr;
static pthread_mutex_t g_label_lock = PTHREAD_MUTEX_INITIALIZER;
void Ctx::label_n(const char *name, uint64_t n) {
  pthread_mutex_lock(&g_label_lock);
  long live = g_live.load();
  (*g_labels)[name] += n;
  g_live.store(live);  // label storage is not part of the case's heap
  pthread_mutex_unlock(&g_label_lock);
}
void Ctx::label(const char *name) { label_n(name, 1); }

void Ctx::fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh_->msg, sizeof(sh_->msg), fmt, ap);
  va_end(ap);
  if (verbose_) log("FAIL: %s", sh_->msg);
  _exit(kFail);
}

// ------------------------------------------------------------------------------------------------------- worker side
// the signal comes to whichever thread runs
static std::atomic<uint64_t> g_last_case(0);
static std::atomic<unsigned> g_ticks(0);
static void on_cpu_tick(int) {
  Shared *sh = g_sh.load();
  if (!sh) return;
  uint64_t c = sh->case_no.load();
  if (c != g_last_case.load() || !sh->in_case.load()) {
    g_last_case.store(c);
    g_ticks.store(0);
    return;
  }
  if (g_ticks.fetch_add(1) + 1 >= info.case_cpu_limit_s) {
    snprintf(sh->msg, sizeof(sh->msg), "case used more than %u s of CPU time (it does not terminate)",
             info.case_cpu_limit_s);
    _exit(kHang);
  }
}

static void install_timer() {
  mallopt(M_MMAP_THRESHOLD, 32 << 20);  // stacks of a case come from the heap, not from one mmap each
  mallopt(M_TRIM_THRESHOLD, 256 << 20);
  static char stack[64 * 1024];
  stack_t ss;
  memset(&ss, 0, sizeof(ss));
  if (sigaltstack(nullptr, &ss) != 0 || (ss.ss_flags & SS_DISABLE)) {
    memset(&ss, 0, sizeof(ss));
    ss.ss_sp = stack;
    ss.ss_size = sizeof(stack);
    sigaltstack(&ss, nullptr);
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = on_cpu_tick;
  sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it;
  it.it_interval.tv_sec = it.it_value.tv_sec = 1;
  it.it_interval.tv_usec = it.it_value.tv_usec = 0;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static void begin_case(Ctx &c) {
  c.sh_->nchoices.store(0);
  c.sh_->nspans.store(0);
  c.feed_pos_ = 0;
  g_sh = c.sh_;
  c.nontrivial_ = false;
  c.sh_->case_no.fetch_add(1);
  c.sh_->in_case.store(1);
}

static uint64_t hash_choices(const Shared *sh) {
  uint64_t h = 0xcbf29ce484222325ull;
  uint32_t n = sh->nchoices.load();
  for (uint32_t i = 0; i < n; ++i) {
    h ^= sh->choices[i] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0x100000001b3ull;
  }
  return h ^ n;
}

struct WorkerOut {
  std::vector<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::vector<uint64_t>> samples;
  uint64_t evals = 0;
  uint64_t corpus = 0;
  uint64_t cov = 0;
};

// mutation of a corpus entry (choice sequences with their spans)
struct Entry {
  std::vector<uint64_t> ch;
  std::vector<Span> sp;
};

static std::vector<uint64_t> mutate(Ctx &c, const std::vector<Entry> &corpus) {
  const Entry &e = corpus[c.next_rand() % corpus.size()];
  std::vector<uint64_t> r = e.ch;
  unsigned rounds = 1 + c.next_rand() % 3;
  std::vector<Span> sp = e.sp;
  for (unsigned k = 0; k < rounds; ++k) {
    switch (c.next_rand() % 6) {
      case 0:
        if (!r.empty()) r.resize(c.next_rand() % r.size());
        sp.clear();
        break;
      case 1:
      case 2:
        if (!r.empty()) {
          unsigned m = 1 + c.next_rand() % 4;
          for (unsigned i = 0; i < m; ++i) {
            size_t p = c.next_rand() % r.size();
            switch (c.next_rand() % 4) {
              case 0: r[p] = c.next_rand() >> 16; break;
              case 1: r[p] += 1; break;
              case 2: r[p] = r[p] ? r[p] - 1 : 0; break;
              default: r[p] = c.next_rand() % 16; break;
            }
          }
        }
        break;
      case 3:
        if (!sp.empty()) {
          Span s = sp[c.next_rand() % sp.size()];
          if (s.e > s.b && s.e <= r.size()) r.erase(r.begin() + s.b, r.begin() + s.e);
          sp.clear();
        }
        break;
      case 4:
        if (!sp.empty()) {
          Span s = sp[c.next_rand() % sp.size()];
          if (s.e > s.b && s.e <= r.size()) {
            std::vector<uint64_t> piece(r.begin() + s.b, r.begin() + s.e);
            r.insert(r.begin() + s.e, piece.begin(), piece.end());
          }
          sp.clear();
        }
        break;
      default: {
        const Entry &o = corpus[c.next_rand() % corpus.size()];
        if (!o.sp.empty() && !sp.empty()) {
          Span s = o.sp[c.next_rand() % o.sp.size()];
          Span d = sp[c.next_rand() % sp.size()];
          if (s.e > s.b && s.e <= o.ch.size() && d.b <= r.size())
            r.insert(r.begin() + d.b, o.ch.begin() + s.b, o.ch.begin() + s.e);
          sp.clear();
        }
        break;
      }
    }
  }
  if (r.size() > 6000) r.resize(6000);
  return r;
}

__attribute__((no_sanitize("coverage"))) static bool take_coverage(std::vector<uint8_t> &global, uint64_t &bits) {
  bool fresh = false;
  size_t off = 0;
  if (!g_cov_regions) return false;
  for (auto &r : *g_cov_regions) {
    size_t n = static_cast<size_t>(r.second - r.first);
    if (global.size() < off + n) global.resize(off + n, 0);
    for (size_t i = 0; i < n; ++i) {
      uint8_t v = r.first[i];
      if (!v) continue;
      uint8_t bucket = v < 2 ? 1 : v < 3 ? 2 : v < 4 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
      if (!(global[off + i] & bucket)) {
        if (!global[off + i]) ++bits;
        global[off + i] |= bucket;
        fresh = true;
      }
      r.first[i] = 0;
    }
    off += n;
  }
  return fresh;
}

static void put(FILE *f, uint64_t v) { fwrite(&v, sizeof(v), 1, f); }
static uint64_t get(FILE *f) {
  uint64_t v = 0;
  if (fread(&v, sizeof(v), 1, f) != 1) v = 0;
  return v;
}

static void worker_main(Shared *sh, uint64_t seed, unsigned widx, uint64_t ncases, const std::string &out,
                        double wall_limit) {
  g_labels = new std::map<std::string, uint64_t>();
  install_timer();
  setup_process();
  WorkerOut wo;
  std::vector<Entry> corpus;
  std::vector<uint8_t> gcov;
  uint64_t covbits = 0;
  bool have_cov = g_cov_regions != nullptr;
  struct timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (uint64_t i = 0; i < ncases; ++i) {
    if ((i & 63) == 0) {
      struct timespec t1;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (static_cast<double>(t1.tv_sec - t0.tv_sec) > wall_limit) break;
    }
    Ctx *c = new Ctx();
    c->sh_ = sh;
    uint64_t s = seed * 0x100000001b3ull + widx * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull;
    c->seed(s);
    if (have_cov && corpus.size() > 8 && i > ncases / 8 && (c->next_rand() & 1)) c->feed_ = mutate(*c, corpus);
    g_cur = c;
    begin_case(*c);
    run_case(*c);
    sh->in_case.store(0);
    ++wo.evals;
    if (c->nontrivial_) {
      wo.hashes.push_back(hash_choices(sh));
      if (wo.samples.size() < 2 && i >= 5)
        wo.samples.emplace_back(sh->choices, sh->choices + sh->nchoices.load());
    }
    if (have_cov && take_coverage(gcov, covbits)) {
      Entry e;
      uint32_t n = sh->nchoices.load();
      if (n <= 4000) {
        e.ch.assign(sh->choices, sh->choices + n);
        e.sp.assign(sh->spans, sh->spans + sh->nspans.load());
        if (corpus.size() < 3000) corpus.push_back(std::move(e));
        else corpus[c->next_rand() % corpus.size()] = std::move(e);
      }
    }
    delete c;
  }
  FILE *f = fopen(out.c_str(), "wb");
  put(f, wo.evals);
  put(f, corpus.size());
  put(f, covbits);
  put(f, wo.hashes.size());
  if (!wo.hashes.empty()) fwrite(wo.hashes.data(), 8, wo.hashes.size(), f);
  put(f, wo.samples.size());
  for (auto &s : wo.samples) {
    put(f, s.size());
    fwrite(s.data(), 8, s.size(), f);
  }
  put(f, g_labels->size());
  for (auto &kv : *g_labels) {
    put(f, kv.first.size());
    fwrite(kv.first.data(), 1, kv.first.size(), f);
    put(f, kv.second);
  }
  fclose(f);
  _exit(kThrough);
}

// ------------------------------------------------------------------------------------------------------- parent side
static Shared *map_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Shared *>(p);
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

static std::string g_tmp;

static std::string describe_status(int st, Shared *sh, const std::string &errfile, std::string *cls) {
  std::string m;
  *cls = "";
  if (WIFEXITED(st) && (WEXITSTATUS(st) == kFail || WEXITSTATUS(st) == kHang)) {
    m = sh->msg;
    // class = source location of the CHECK, so that shrinking stays on the same failure
    size_t p = m.rfind(" at ");
    *cls = WEXITSTATUS(st) == kHang ? "hang" : "check";
    (void)p;
    return m;
  }
  if (WIFEXITED(st)) m = "process ended with status " + std::to_string(WEXITSTATUS(st));
  if (WIFSIGNALED(st)) m = std::string("process killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  *cls = "crash";
  FILE *f = fopen(errfile.c_str(), "r");
  if (f) {
    char line[1024];
    int kept = 0;
    while (fgets(line, sizeof(line), f) && kept < 14) {
      if (strstr(line, "ERROR") || strstr(line, "WARNING: Thread") || strstr(line, "runtime error") || strstr(line, "#") ||
          strstr(line, "terminate") || strstr(line, "what()") || strstr(line, "Assertion") || strstr(line, "SUMMARY")) {
        m += "\n  ";
        m += line;
        if (!m.empty() && m.back() == '\n') m.pop_back();
        ++kept;
      }
    }
    fclose(f);
  }
  return m;
}

// the tail end of a signalled wall-clock watchdog kill is reported as a hang
static int wait_with_watchdog(pid_t pid, double limit, bool *timed_out) {
  *timed_out = false;
  double t0 = now();
  int st = 0;
  useconds_t nap = 200;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (now() - t0 > limit) {
      *timed_out = true;
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return st;
    }
    usleep(nap);
    if (nap < 5000) nap += nap / 4 + 1;
  }
}

struct RunResult {
  bool failed;
  std::string msg, cls;
};

// run one choice sequence in a fresh process
static RunResult run_one(Shared *sh, const std::vector<uint64_t> &choices, const char *logfile, unsigned repeat = 1) {
  std::string err = g_tmp + "/one.err";
  sh->msg[0] = 0;
  sh->case_no.store(0);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) dup2(fd, 2);
    g_labels = new std::map<std::string, uint64_t>();
    install_timer();
    setup_process();
    for (unsigned k = 0; k < repeat; ++k) {
      Ctx *c = new Ctx();
      c->sh_ = sh;
      c->replay_ = true;
      c->feed_ = choices;
      if (logfile && k == 0) {
        c->verbose_ = true;
        c->log_fd_ = open(logfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      }
      g_cur = c;
      begin_case(*c);
      run_case(*c);
      sh->in_case.store(0);
      delete c;
    }
    _exit(kThrough);
  }
  bool to = false;
  int st = wait_with_watchdog(pid, 60 + 4.0 * info.case_cpu_limit_s, &to);
  RunResult r;
  if (to) {
    r.failed = true;
    r.msg = "case made no progress (deadlock)";
    r.cls = "hang";
    return r;
  }
  r.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == kThrough);
  if (r.failed) r.msg = describe_status(st, sh, err, &r.cls);
  return r;
}

static std::vector<uint64_t> shrink(Shared *sh, std::vector<uint64_t> best, const std::string &cls, unsigned budget) {
  double t0 = now();
  unsigned used = 0;
  double wall = cls == "hang" ? 60 : 120;
  auto try_it = [&](const std::vector<uint64_t> &cand) {
    if (used >= budget || now() - t0 > wall) return false;
    ++used;
    RunResult r = run_one(sh, cand, nullptr, info.nondeterministic ? 20 : 1);
    return r.failed && r.cls == cls;
  };
  // learn the spans of the best sequence by running it
  auto spans_of = [&](std::vector<uint64_t> &b) {
    run_one(sh, b, nullptr);
    uint32_t n = sh->nchoices.load();
    if (n < b.size()) {
      std::vector<uint64_t> cut(sh->choices, sh->choices + n);
      b = cut;
    }
    std::vector<Span> sp(sh->spans, sh->spans + sh->nspans.load());
    for (auto &s : sp)
      if (s.e == 0) s.e = n;
    return sp;
  };
  bool improved = true;
  while (improved && used < budget && now() - t0 < wall) {
    improved = false;
    // 1. delete spans, from the back
    std::vector<Span> sp = spans_of(best);
    for (size_t i = sp.size(); i-- > 0;) {
      Span s = sp[i];
      if (s.e <= s.b || s.e > best.size()) continue;
      std::vector<uint64_t> cand(best.begin(), best.begin() + s.b);
      cand.insert(cand.end(), best.begin() + s.e, best.end());
      if (try_it(cand)) {
        best = cand;
        improved = true;
        sp = spans_of(best);
        i = std::min(i, sp.size());
      }
    }
    // 2. delete blocks
    for (size_t w : {32u, 8u, 4u, 2u, 1u}) {
      for (size_t i = best.size(); i >= w && i > 0;) {
        size_t b = i - w;
        std::vector<uint64_t> cand(best.begin(), best.begin() + b);
        cand.insert(cand.end(), best.begin() + i, best.end());
        if (try_it(cand)) {
          best = cand;
          improved = true;
          i = b;
        } else {
          i = w > 4 ? (i > w ? i - w : 0) : i - 1;
        }
        if (i > best.size()) i = best.size();
      }
    }
    // 3. lower values
    for (size_t i = 0; i < best.size(); ++i) {
      if (!best[i]) continue;
      std::vector<uint64_t> cand = best;
      cand[i] = 0;
      if (try_it(cand)) {
        best = cand;
        improved = true;
        continue;
      }
      uint64_t lo = 0, hi = best[i];
      while (hi - lo > 1) {
        uint64_t mid = lo + (hi - lo) / 2;
        cand = best;
        cand[i] = mid;
        if (try_it(cand)) {
          best = cand;
          hi = mid;
          improved = true;
        } else {
          lo = mid;
        }
        if (used >= budget || now() - t0 > wall) break;
      }
    }
  }
  return best;
}

static std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o;
}

static std::string slurp(const std::string &p) {
  std::string s;
  FILE *f = fopen(p.c_str(), "r");
  if (!f) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}

static bool read_replay(const char *path, std::vector<uint64_t> *ch, uint64_t *repeat) {
  std::string s = slurp(path);
  size_t p = s.find("choices:");
  if (p == std::string::npos) return false;
  p += 8;
  size_t e = s.find('\n', p);
  std::string line = s.substr(p, e - p);
  const char *q = line.c_str();
  char *end = nullptr;
  for (;;) {
    uint64_t v = strtoull(q, &end, 10);
    if (end == q) break;
    ch->push_back(v);
    q = end;
  }
  p = s.find("repeat:");
  *repeat = p == std::string::npos ? 1 : strtoull(s.c_str() + p + 7, nullptr, 10);
  return true;
}

struct Opt {
  uint64_t seed = 1, cases = 1000, workers = 8;
  double wall = 500;
  std::string out, replay_out, replay, property, variant;
};

static int main_impl(const Opt &o) {
  Shared *one = map_shared();
  if (!o.replay.empty()) {
    std::vector<uint64_t> ch;
    uint64_t rep = 1;
    if (!read_replay(o.replay.c_str(), &ch, &rep)) {
      fprintf(stderr, "cannot read replay %s\n", o.replay.c_str());
      return 3;
    }
    std::string lg = g_tmp + "/replay.log";
    RunResult r = run_one(one, ch, lg.c_str(), static_cast<unsigned>(rep));
    printf("%s", slurp(lg).c_str());
    if (r.failed) {
      printf("REPLAY FAILED: %s\n", r.msg.c_str());
      return 1;
    }
    printf("REPLAY PASSED\n");
    return 0;
  }

  double t0 = now();
  std::vector<Shared *> shs;
  std::vector<pid_t> pids;
  std::vector<uint64_t> last(o.workers, 0);
  std::vector<double> last_t(o.workers, t0);
  std::vector<bool> done(o.workers, false);
  for (unsigned w = 0; w < o.workers; ++w) {
    shs.push_back(map_shared());
    std::string outf = g_tmp + "/w" + std::to_string(w) + ".bin";
    std::string err = g_tmp + "/w" + std::to_string(w) + ".err";
    uint64_t n = o.cases / o.workers + (w < o.cases % o.workers ? 1 : 0);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) dup2(fd, 2);
      worker_main(shs[w], o.seed, w, n, outf, o.wall);
      _exit(kThrough);
    }
    pids.push_back(pid);
  }
  int failed_w = -1, failed_st = 0;
  bool failed_to = false;
  size_t left = o.workers;
  while (left && failed_w < 0) {
    for (unsigned w = 0; w < o.workers; ++w) {
      if (done[w]) continue;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        done[w] = true;
        --left;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == kThrough)) {
          failed_w = static_cast<int>(w);
          failed_st = st;
          break;
        }
        continue;
      }
      uint64_t cn = shs[w]->case_no.load();
      if (cn != last[w]) {
        last[w] = cn;
        last_t[w] = now();
      } else if (now() - last_t[w] > 120 + 4.0 * info.case_cpu_limit_s) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        done[w] = true;
        --left;
        failed_w = static_cast<int>(w);
        failed_to = true;
        break;
      }
    }
    usleep(3000);
  }
  std::string fail_msg, fail_replay;
  bool violation = false;
  uint64_t evals = 0, corpus = 0, cov = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::vector<uint64_t>> samples;
  if (failed_w >= 0) {
    for (unsigned w = 0; w < o.workers; ++w)
      if (!done[w]) {
        kill(pids[w], SIGKILL);
        int st;
        waitpid(pids[w], &st, 0);
      }
    Shared *sh = shs[static_cast<size_t>(failed_w)];
    std::string cls;
    std::string msg = failed_to ? (cls = "hang", std::string("case made no progress (deadlock)"))
                                : describe_status(failed_st, sh, g_tmp + "/w" + std::to_string(failed_w) + ".err", &cls);
    if (!sh->in_case.load() && !failed_to) {
      // outside of a case: the runner itself broke
      fprintf(stderr, "worker failed outside of a case: %s\n", msg.c_str());
      return 3;
    }
    std::vector<uint64_t> ch(sh->choices, sh->choices + sh->nchoices.load());
    unsigned rep = info.nondeterministic ? 200 : 1;
    int again = 0;
    std::string rcls = cls;
    for (int k = 0; k < 3; ++k) {
      RunResult r = run_one(one, ch, nullptr, rep);
      if (r.failed) {
        ++again;
        rcls = r.cls;
        msg = r.msg;
      }
    }
    if (again == 3) {
      ch = shrink(one, ch, rcls, 3000);
      violation = true;
    } else if (again > 0 || info.nondeterministic) {
      violation = true;
    } else {
      // depends on what ran before it in the same process: rerun the worker from its seed up to this case
      uint64_t upto = sh->case_no.load();
      int hits = 0;
      for (int k = 0; k < 2; ++k) {
        std::string outf = g_tmp + "/again.bin", err = g_tmp + "/again.err";
        one->case_no.store(0);
        one->in_case.store(0);
        pid_t pid = fork();
        if (pid == 0) {
          int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
          if (fd >= 0) dup2(fd, 2);
          worker_main(one, o.seed, static_cast<unsigned>(failed_w), std::max<uint64_t>(upto, o.cases / o.workers + (static_cast<uint64_t>(failed_w) < o.cases % o.workers ? 1 : 0)), outf, 600);
          _exit(kThrough);
        }
        bool to;
        int st = wait_with_watchdog(pid, 400, &to);
        if (to || !(WIFEXITED(st) && WEXITSTATUS(st) == kThrough)) ++hits;
      }
      if (hits == 2) {
        violation = true;
        msg += "\n  (needs the cases run before it: worker " + std::to_string(failed_w) + " of seed " +
               std::to_string(o.seed) + ", case " + std::to_string(upto) + ")";
      } else {
        fprintf(stderr, "NOT REPRODUCED (ignored): %s\n", msg.c_str());
      }
    }
    if (violation) {
      std::string lg = g_tmp + "/fail.log";
      RunResult r = run_one(one, ch, lg.c_str(), rep);
      if (r.failed) msg = r.msg;
      FILE *f = fopen(o.replay_out.c_str(), "w");
      if (f) {
        fprintf(f, "property: %s\nharness: %s\nvariant: %s\nseed: %llu\nrepeat: %u\nchoices:", o.property.c_str(),
                info.name, o.variant.c_str(), static_cast<unsigned long long>(o.seed), rep);
        for (uint64_t v : ch) fprintf(f, " %llu", static_cast<unsigned long long>(v));
        fprintf(f, "\n\n# what failed\n%s\n\n# the case, step by step\n%s\n", msg.c_str(), slurp(lg).c_str());
        fclose(f);
      }
      fail_msg = msg;
      evals = 0;
      for (auto *s : shs) evals += s->case_no.load();
    }
  }
  for (unsigned w = 0; w < o.workers; ++w) {
    FILE *f = fopen((g_tmp + "/w" + std::to_string(w) + ".bin").c_str(), "rb");
    if (!f) continue;
    uint64_t ev = get(f);
    if (!violation) evals += ev;
    corpus += get(f);
    cov = std::max(cov, get(f));
    uint64_t n = get(f);
    for (uint64_t i = 0; i < n; ++i) hashes.insert(get(f));
    n = get(f);
    for (uint64_t i = 0; i < n; ++i) {
      uint64_t m = get(f);
      std::vector<uint64_t> s(m);
      if (fread(s.data(), 8, m, f) != m) break;
      samples.push_back(std::move(s));
    }
    n = get(f);
    for (uint64_t i = 0; i < n; ++i) {
      uint64_t m = get(f);
      std::string k(m, 0);
      if (fread(&k[0], 1, m, f) != m) break;
      labels[k] += get(f);
    }
    fclose(f);
  }
  double wall = now() - t0;
  std::vector<std::string> texts;
  std::sort(samples.begin(), samples.end(), [](const auto &a, const auto &b) { return a.size() < b.size(); });
  for (size_t i = 0; i < samples.size() && texts.size() < 3; ++i) {
    if (samples.size() > 3 && i != 0 && i != samples.size() / 2 && i != samples.size() - 1) continue;
    std::string lg = g_tmp + "/sample.log";
    run_one(one, samples[i], lg.c_str());
    std::string t = slurp(lg);
    if (t.size() > 1800) t = t.substr(0, 1800) + "...";
    texts.push_back(t);
  }
  FILE *f = fopen(o.out.c_str(), "w");
  if (!f) {
    perror("open out");
    return 3;
  }
  fprintf(f, "{\"harness\":\"%s\",\"variant\":\"%s\",\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"rule\":\"%s\",",
          info.name, o.variant.c_str(), static_cast<unsigned long long>(evals),
          static_cast<unsigned long long>(hashes.size()), json_escape(info.rule).c_str());
  fprintf(f, "\"wall_s\":%.2f,\"requested\":%llu,\"corpus\":%llu,\"edges\":%llu,\"labels\":{", wall,
          static_cast<unsigned long long>(o.cases), static_cast<unsigned long long>(corpus),
          static_cast<unsigned long long>(cov));
  bool first = true;
  for (auto &kv : labels) {
    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(kv.first).c_str(),
            static_cast<unsigned long long>(kv.second));
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < texts.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(texts[i]).c_str());
  fprintf(f, "],\"violation\":%s,\"message\":\"%s\"}\n", violation ? "true" : "false", json_escape(fail_msg).c_str());
  fclose(f);
  return violation ? 1 : 0;
}

}  // namespace pbt

int main(int argc, char **argv) {
  using namespace pbt;
  // fixed addresses make pointer-ordered containers behave the same in every replay
  if (!getenv("PBT_NOASLR")) {
    setenv("PBT_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  Opt o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") o.cases = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--workers") o.workers = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--wall") o.wall = atof(v.c_str());
    else if (k == "--out") o.out = v;
    else if (k == "--replay-out") o.replay_out = v;
    else if (k == "--replay") o.replay = v;
    else if (k == "--property") o.property = v;
    else if (k == "--variant") o.variant = v;
    else {
      fprintf(stderr, "unknown option %s\n", k.c_str());
      return 3;
    }
  }
  char tmpl[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 3;
  }
  g_tmp = tmpl;
  if (o.out.empty()) o.out = g_tmp + "/out.json";
  if (o.replay_out.empty()) o.replay_out = g_tmp + "/replay.txt";
  if (!freopen("/dev/null", "r", stdin)) {}
  int rc = main_impl(o);
  std::string cmd = g_tmp;
  // remove the scratch directory this process created
  for (unsigned w = 0; w < o.workers; ++w) {
    unlink((g_tmp + "/w" + std::to_string(w) + ".bin").c_str());
    unlink((g_tmp + "/w" + std::to_string(w) + ".err").c_str());
  }
  for (const char *n : {"/one.err", "/fail.log", "/sample.log", "/replay.log", "/again.bin", "/again.err"})
    unlink((g_tmp + n).c_str());
  if (rc == 0 || o.out.compare(0, g_tmp.size(), g_tmp) != 0) {
    unlink((g_tmp + "/out.json").c_str());
    rmdir(g_tmp.c_str());
  }
  return rc;
}

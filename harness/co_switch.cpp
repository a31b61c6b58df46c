// C02: what a switch preserves: locals at any call depth, callee-saved registers, stack placement, (optionally) the
// floating point environment, on one thread and when coroutines migrate between threads.
#include <libcopp/coroutine/coroutine_context.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/fcontext/fcontext.hpp>
#include <libcopp/utils/errno.h>
#include <pthread.h>
#include <xmmintrin.h>

#include "common.h"

using namespace copp;
using co_t = coroutine_context_container<TrackAlloc>;

extern "C" uint64_t vp_call_with_regs(void (*fn)(void *), void *arg, uint64_t seed);
asm(R"(
.text
.globl vp_call_with_regs
.type vp_call_with_regs,@function
vp_call_with_regs:
  pushq %rbx
  pushq %rbp
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $24, %rsp
  movq %rdx, 8(%rsp)
  movq %rdi, %rax
  movq %rsi, %rdi
  leaq 0x1111(%rdx), %rbx
  leaq 0x2222(%rdx), %rbp
  leaq 0x3333(%rdx), %r12
  leaq 0x4444(%rdx), %r13
  leaq 0x5555(%rdx), %r14
  leaq 0x6666(%rdx), %r15
  call *%rax
  movq 8(%rsp), %rdx
  xorl %eax, %eax
  leaq 0x1111(%rdx), %rcx
  cmpq %rcx, %rbx
  je 1f
  orl $1, %eax
1:leaq 0x2222(%rdx), %rcx
  cmpq %rcx, %rbp
  je 1f
  orl $2, %eax
1:leaq 0x3333(%rdx), %rcx
  cmpq %rcx, %r12
  je 1f
  orl $4, %eax
1:leaq 0x4444(%rdx), %rcx
  cmpq %rcx, %r13
  je 1f
  orl $8, %eax
1:leaq 0x5555(%rdx), %rcx
  cmpq %rcx, %r14
  je 1f
  orl $16, %eax
1:leaq 0x6666(%rdx), %rcx
  cmpq %rcx, %r15
  je 1f
  orl $32, %eax
1:addq $24, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbp
  popq %rbx
  ret
.size vp_call_with_regs,.-vp_call_with_regs
)");

namespace {

struct Co {
  co_t::ptr_type ptr;
  int id = 0;
  bool started = false, finished = false, running = false;
  char *lo = nullptr, *hi = nullptr;
  int last_thread = -1;
  size_t max_depth_bytes = 0;
  int yields = 0;
};

struct World {
  pbt::Ctx &c;
  std::vector<std::unique_ptr<Co>> cos;
  std::vector<Co *> chain;
  size_t budget = 50;
  int migrations = 0, regs = 0, deep = 0, switches = 0;
  explicit World(pbt::Ctx &c_) : c(c_) {}
};
World *W = nullptr;
uint64_t g_seq = 0;

// ---- threads that take turns: exactly one runs at any time
constexpr int kThreads = 3;
struct Turn {
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  int job_for = 0;  // 0: main
  void (*fn)(void *) = nullptr;
  void *arg = nullptr;
} T;
int g_thread = 0;  // the thread whose turn it is
void *helper(void *a) {
  int me = static_cast<int>(reinterpret_cast<intptr_t>(a));
  pthread_mutex_lock(&T.m);
  for (;;) {
    while (T.job_for != me) pthread_cond_wait(&T.cv, &T.m);
    pthread_mutex_unlock(&T.m);
    T.fn(T.arg);
    pthread_mutex_lock(&T.m);
    T.job_for = 0;
    pthread_cond_broadcast(&T.cv);
  }
}
void on_thread(int t, void (*fn)(void *), void *arg) {
  g_thread = t;
  if (t == 0) {
    fn(arg);
    return;
  }
  pthread_mutex_lock(&T.m);
  T.fn = fn;
  T.arg = arg;
  T.job_for = t;
  pthread_cond_broadcast(&T.cv);
  while (T.job_for != 0) pthread_cond_wait(&T.cv, &T.m);
  pthread_mutex_unlock(&T.m);
  g_thread = 0;
}

void body(Co *self, int depth);

struct FpEnv {
  unsigned mxcsr;
  unsigned short cw;
};
__attribute__((unused)) FpEnv fp_get() {
  FpEnv e;
  e.mxcsr = _mm_getcsr() & ~0x3fu;
  asm volatile("fnstcw %0" : "=m"(e.cw));
  return e;
}
__attribute__((unused)) void fp_set(const FpEnv &e) {
  _mm_setcsr(e.mxcsr);
  asm volatile("fldcw %0" : : "m"(e.cw));
}
__attribute__((unused)) FpEnv fp_draw() {
  FpEnv e;
  e.mxcsr = 0x1f80u | (static_cast<unsigned>(W->c.draw(4)) << 13) | (W->c.coin() ? 0x8000u : 0u);
  e.cw = static_cast<unsigned short>(0x037f | (W->c.draw(4) << 10));
  if (W->c.coin()) e.cw = static_cast<unsigned short>(e.cw & ~0x0100);
  return e;
}

void where_am_i(Co *self, void *addr) {
  char *p = static_cast<char *>(addr);
  if (self) {
    CHECK(p >= self->lo && p < self->hi, "a frame of coroutine %d is outside its stack", self->id);
  } else {
    for (auto &o : W->cos) CHECK(!(p >= o->lo && p < o->hi), "the driving thread runs on a coroutine stack");
  }
}

__attribute__((noinline)) void aligned_probe() {
  // relies on the stack alignment the ABI promises at function entry
  alignas(16) char buf[32];
  asm volatile("pxor %%xmm0, %%xmm0\n\tmovaps %%xmm0, %0" : "=m"(*reinterpret_cast<char(*)[16]>(buf)) : : "xmm0");
  asm volatile("" : : "r"(buf) : "memory");
  CHECK((reinterpret_cast<uintptr_t>(buf) & 15) == 0, "the stack is misaligned");
}

struct SwitchArg {
  Co *self;
  Co *to;
};
void raw_yield(void *a) {
  SwitchArg *s = static_cast<SwitchArg *>(a);
  int rc = s->self->ptr->yield();
  CHECK_EQ(rc, 0);
}
void raw_enter(void *a) {
  SwitchArg *s = static_cast<SwitchArg *>(a);
  int rc = s->to->ptr->start();
  CHECK_EQ(rc, 0);
}

// performs one switch with known values in registers, locals and on the stack
__attribute__((noinline)) void do_switch(Co *self, Co *to) {
  ++W->switches;
  uint64_t seed = 0x1122334400000000ull + (++g_seq) * 0x10001;
  bool with_regs = W->c.coin();
  W->c.log("%s%d %s%d%s", self ? "co" : "driver", self ? self->id : g_thread, to ? "enters co" : "yields ",
           to ? to->id : 0, with_regs ? " (registers loaded)" : "");
#ifdef VP_FP_ENV
  FpEnv env = fp_draw();
  fp_set(env);
#endif
  uint64_t a = seed + 1, b = seed + 2, c = seed + 3, d = seed + 4, e = seed + 5, f = seed + 6, g = seed + 7;
  asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e), "+r"(f), "+r"(g));
  volatile double dv[4] = {1.5 * static_cast<double>(g_seq), 2.5, -0.0, 1e300};
  SwitchArg arg{self, to};
  if (to) {
    to->running = true;
    to->started = true;
    W->chain.push_back(to);
  } else {
    self->running = false;
    ++self->yields;
    W->chain.pop_back();
  }
  size_t depth = W->chain.size();
  if (with_regs) {
    ++W->regs;
    uint64_t bad = vp_call_with_regs(to ? raw_enter : raw_yield, &arg, seed);
    CHECK_EQ(bad, 0u, "callee-saved registers changed across a switch (mask of rbx rbp r12 r13 r14 r15)");
  } else if (to) {
    raw_enter(&arg);
  } else {
    raw_yield(&arg);
  }
  (void)depth;
#ifdef VP_FP_ENV
  FpEnv now = fp_get();
  CHECK_EQ(now.mxcsr, env.mxcsr, "SSE control word changed across a switch");
  CHECK_EQ(now.cw, env.cw, "x87 control word changed across a switch");
#endif
  asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e), "+r"(f), "+r"(g));
  CHECK(a == seed + 1 && b == seed + 2 && c == seed + 3 && d == seed + 4 && e == seed + 5 && f == seed + 6 && g == seed + 7,
        "a local variable changed across a switch");
  CHECK(dv[1] == 2.5 && dv[3] == 1e300);
  CHECK(arg.self == self && arg.to == to);
  coroutine_context *cur = this_coroutine::get_coroutine();
  CHECK(cur == (self ? self->ptr.get() : nullptr), "the current coroutine changed");
  char probe;
  where_am_i(self, &probe);
  if (to) {
    if (to->running) {
      // it neither yielded nor marked itself finished
      CHECK(to->finished, "control came back although the coroutine is still running");
      to->running = false;
      CHECK(to->ptr->is_finished());
      W->chain.pop_back();
    }
  } else if (self->last_thread != g_thread) {
    ++W->migrations;
    self->last_thread = g_thread;
  }
}

template <size_t N>
__attribute__((noinline)) void frame(Co *self, int depth) {
  volatile unsigned char pad[N];
  unsigned char v = static_cast<unsigned char>(depth * 7 + (self ? self->id : 0));
  for (size_t i = 0; i < N; ++i) pad[i] = static_cast<unsigned char>(v + i);
  where_am_i(self, const_cast<unsigned char *>(&pad[0]));
  where_am_i(self, const_cast<unsigned char *>(&pad[N - 1]));
  aligned_probe();
  body(self, depth + 1);
  for (size_t i = 0; i < N; ++i)
    CHECK(pad[i] == static_cast<unsigned char>(v + i), "stack content of %s %d changed at depth %d", self ? "coroutine" : "driver",
          self ? self->id : 0, depth);
}

void call_frame(Co *self, int depth) {
  char here;
  if (self) {
    size_t left = static_cast<size_t>(&here - self->lo);
    if (left < 40 * 1024) return;
    self->max_depth_bytes = std::max(self->max_depth_bytes, static_cast<size_t>(self->hi - &here));
    if (self->max_depth_bytes > 48 * 1024) ++W->deep;
  } else if (depth > 30) {
    return;
  }
  switch (W->c.draw(5)) {
    case 0:
      frame<1>(self, depth);
      break;
    case 1:
      frame<24>(self, depth);
      break;
    case 2:
      frame<333>(self, depth);
      break;
    case 3:
      frame<4096>(self, depth);
      break;
    default:
      frame<17001>(self, depth);
      break;
  }
}

__attribute__((noinline)) void body(Co *self, int depth) {
  pbt::Loop loop(W->c, 3, 10);
  while (W->budget > 0 && loop.next()) {
    --W->budget;
    switch (W->c.weighted({3, 3, self ? 4u : 0u})) {
      case 0: {
        std::vector<Co *> v;
        for (auto &p : W->cos)
          if (!p->running && !p->finished) v.push_back(p.get());
        if (v.empty() || W->chain.size() > 5) break;
        Co *to = W->c.one_of(v);
        do_switch(self, to);
        break;
      }
      case 1:
        call_frame(self, depth);
        break;
      default:
        do_switch(self, nullptr);
        break;
    }
  }
}

int co_main(Co *self) {
  char probe;
  where_am_i(self, &probe);
  aligned_probe();
  self->last_thread = g_thread;
  call_frame(self, 1);
  body(self, 1);
  self->finished = true;
#ifdef VP_FP_ENV
  fp_set(FpEnv{0x1f80u, 0x037f});
#endif
  return self->id;
}

struct Drive {
  Co *to;
};
void drive(void *a) {
  Drive *d = static_cast<Drive *>(a);
  char probe;
  where_am_i(nullptr, &probe);
  do_switch(nullptr, d->to);
#ifdef VP_FP_ENV
  fp_set(FpEnv{0x1f80u, 0x037f});
#endif
}

// ---- the context switch by itself, without coroutine objects
namespace raw {
using fcontext::fcontext_t;
using fcontext::transfer_t;
constexpr int kMax = 5;
constexpr size_t kSize = 96 * 1024;
struct State {
  pbt::Ctx *c;
  int n = 0;                 // contexts 1..n; 0 is the code that drives them
  fcontext_t at[kMax + 1];   // where each one is suspended
  char *lo[kMax + 1], *sp[kMax + 1];
  bool entered[kMax + 1];
  int cur = 0, from = 0;
  void *data = nullptr;      // what the one that continues next has to receive
  size_t budget = 40;
  int hops = 0, regs = 0, ontops = 0, moved = 0;
  int thread[kMax + 1];
  uint64_t seq = 0;
  FpEnv made[kMax + 1];  // control words of the code that made it
};
State *R = nullptr;

void on_stack_of(int who, const void *addr, const char *what) {
  const char *p = static_cast<const char *>(addr);
  for (int i = 1; i <= R->n; ++i)
    CHECK((p >= R->lo[i] && p < R->sp[i]) == (i == who), "%s of context %d is on the wrong stack", what, who);
}
// called first by whoever continues
void arrived(int me, transfer_t t) {
  char probe;
  on_stack_of(me, &probe, "a frame");
  CHECK_EQ(R->cur, me, "another context continues");
  CHECK(t.data == R->data, "context %d received other data", me);
  on_stack_of(R->from, t.fctx, "the suspended state");
  R->at[R->from] = t.fctx;
}
transfer_t on_top(transfer_t t) {
  char probe;
  on_stack_of(R->cur, &probe, "a frame of the function on top");
  aligned_probe();
  CHECK(t.data == R->data, "the function on top received other data");
  on_stack_of(R->from, t.fctx, "the suspended state");
  R->data = reinterpret_cast<void *>(++R->seq * 64);
  return transfer_t{t.fctx, R->data};
}
struct Hop {
  int to;
  bool top;
  transfer_t t;
};
void jump(void *a) {
  Hop *h = static_cast<Hop *>(a);
  h->t = h->top ? fcontext::copp_ontop_fcontext_v2(R->at[h->to], R->data, on_top)
                : fcontext::copp_jump_fcontext_v2(R->at[h->to], R->data);
}
__attribute__((noinline)) void hop(int me, int to) {
  Hop h{to, false, {nullptr, nullptr}};
  h.top = R->entered[to] && R->c->chance(1, 3);
  bool with_regs = R->c->coin();
  R->c->log("context %d jumps to %d%s%s", me, to, h.top ? " with a function on top" : "", with_regs ? " (registers loaded)" : "");
  uint64_t seed = 0x5522334400000000ull + (++R->seq) * 0x10001;
#ifdef VP_FP_ENV
  FpEnv env;
  env.mxcsr = 0x1f80u | (static_cast<unsigned>(R->c->draw(4)) << 13) | (R->c->coin() ? 0x8000u : 0u);
  env.cw = static_cast<unsigned short>(0x037f | (R->c->draw(4) << 10));
  fp_set(env);
#endif
  R->cur = to;
  R->from = me;
  R->data = R->c->chance(1, 6) ? nullptr : reinterpret_cast<void *>(R->seq * 64);
  R->entered[to] = true;
  ++R->hops;
  if (h.top) ++R->ontops;
  if (with_regs) {
    ++R->regs;
    uint64_t bad = vp_call_with_regs(jump, &h, seed);
    CHECK_EQ(bad, 0u, "callee-saved registers changed across a jump (mask of rbx rbp r12 r13 r14 r15)");
  } else {
    jump(&h);
  }
#ifdef VP_FP_ENV
  FpEnv now = fp_get();
  CHECK_EQ(now.mxcsr, env.mxcsr, "SSE control word changed across a jump");
  CHECK_EQ(now.cw, env.cw, "x87 control word changed across a jump");
#endif
  CHECK(h.to == to, "a local variable changed across a jump");
  arrived(me, h.t);
  if (me && R->thread[me] != g_thread) ++R->moved;
  if (me) R->thread[me] = g_thread;
}
void work(int me, int depth);
template <size_t N>
__attribute__((noinline)) void level(int me, int depth) {
  volatile unsigned char pad[N];
  for (size_t i = 0; i < N; ++i) pad[i] = static_cast<unsigned char>(me * 31 + depth + static_cast<int>(i));
  aligned_probe();
  work(me, depth + 1);
  for (size_t i = 0; i < N; ++i)
    CHECK(pad[i] == static_cast<unsigned char>(me * 31 + depth + static_cast<int>(i)), "the stack of context %d changed", me);
}
__attribute__((noinline)) void work(int me, int depth) {
  for (int k = 0; k < 12 && R->budget > 0; ++k) {
    --R->budget;
    size_t what = R->c->weighted({1, 4, 1, 1});
    if (what == 0) return;
    if (what == 1) {
      int to = static_cast<int>(R->c->draw(static_cast<uint64_t>(R->n) + 1));
      if (to != me) hop(me, to);
    } else if (depth < 8) {
      if (what == 2) level<40>(me, depth);
      else level<3001>(me, depth);
    }
  }
}
void entry(transfer_t t) {
  int me = R->cur;
#ifdef VP_FP_ENV
  FpEnv now = fp_get();
  CHECK_EQ(now.mxcsr, R->made[me].mxcsr, "a context begins with another SSE control word than that of its maker");
  CHECK_EQ(now.cw, R->made[me].cw, "a context begins with another x87 control word than that of its maker");
#endif
  aligned_probe();
  arrived(me, t);
  R->thread[me] = g_thread;
  for (;;) {
    work(me, 0);
    hop(me, 0);
  }
}
void drive_raw(void *) {
  work(0, 0);
#ifdef VP_FP_ENV
  fp_set(FpEnv{0x1f80u, 0x037f});
#endif
}
void run(pbt::Ctx &c) {
  static char *mem = nullptr;
  const size_t one = kSize + 8192;
  if (!mem && posix_memalign(reinterpret_cast<void **>(&mem), 4096, one * kMax)) abort();
  State st;
  R = &st;
  st.c = &c;
  st.n = static_cast<int>(c.range(1, kMax));
  st.at[0] = nullptr;
  st.entered[0] = true;
  for (int i = 1; i <= st.n; ++i) {
    char *base = mem + one * static_cast<size_t>(i - 1);
    memset(base, 0x3d, 4096);
    memset(base + 4096 + kSize, 0x3d, 4096);
    st.lo[i] = base + 4096;
    size_t cut = c.coin() ? static_cast<size_t>(c.draw(64)) : 0;  // any alignment
    st.sp[i] = base + 4096 + kSize - cut;
    memset(st.sp[i], 0x3d, cut);
    st.entered[i] = false;
    st.thread[i] = 0;
  }
  for (int i = 1; i <= st.n; ++i) {
#ifdef VP_FP_ENV
    st.made[i].mxcsr = 0x1f80u | (static_cast<unsigned>(c.draw(4)) << 13);
    st.made[i].cw = static_cast<unsigned short>(0x037f | (c.draw(4) << 10));
    fp_set(st.made[i]);
#endif
    st.at[i] = fcontext::copp_make_fcontext_v2(st.sp[i], static_cast<size_t>(st.sp[i] - st.lo[i]), entry);
    on_stack_of(i, st.at[i], "the initial state");
  }
#ifdef VP_FP_ENV
  fp_set(FpEnv{0x1f80u, 0x037f});
#endif
  c.log("%d bare contexts", st.n);
  for (size_t k = 0; k < 6 && st.budget > 0; ++k) {
    int t = static_cast<int>(c.draw(kThreads));
    c.log("on thread %d:", t);
    on_thread(t, drive_raw, nullptr);
  }
  for (int i = 1; i <= st.n; ++i) {
    char *base = mem + one * static_cast<size_t>(i - 1);
    for (size_t k = 0; k < 4096; ++k) CHECK(base[k] == 0x3d, "memory below a stack was written");
    for (char *p = st.sp[i]; p < base + one; ++p) CHECK(*p == 0x3d, "memory above a stack was written");
  }
  if (st.hops >= 4 && st.regs) c.nontrivial();
  c.label("bare contexts");
  if (st.ontops) c.label("function run on top of a suspended context");
  if (st.moved) c.label("bare context continued on another thread");
  R = nullptr;
}
}  // namespace raw
}  // namespace

namespace pbt {
const HarnessInfo info = {
    "co_switch",
    "a program of switches between up to 6 coroutines and 3 driving threads (taking turns), from call chains with frames "
    "of 1 to 17001 bytes, with known values in locals, stack frames and callee-saved registers at every switch; "
    "non-trivial: at least 4 switches, one with loaded registers, and either a deep call chain or a migration between "
    "threads; one case in eight switches between bare contexts (jump and ontop) on user memory instead",
    false, 10};

void setup_process() {
  for (intptr_t i = 1; i < kThreads; ++i) {
    pthread_t t;
    pthread_create(&t, nullptr, helper, reinterpret_cast<void *>(i));
    pthread_detach(t);
  }
}

void run_case(Ctx &c) {
  if (c.chance(1, 8)) {
    raw::run(c);
    return;
  }
  World w(c);
  W = &w;
  track().reset();
  g_seq = 0;
  size_t n = static_cast<size_t>(c.range(1, 6));
  for (size_t i = 0; i < n; ++i) {
    auto co = std::make_unique<Co>();
    Co *raw = co.get();
    co->id = static_cast<int>(i) + 1;
    size_t sz = 64 * 1024 + static_cast<size_t>(c.draw(3)) * 50 * 1024 + static_cast<size_t>(c.draw(64)) * 16;
    size_t priv = c.coin() ? static_cast<size_t>(c.draw(200)) : 0;
    size_t ext = c.chance(1, 3) ? static_cast<size_t>(c.draw(200)) : 0;
    TrackAlloc al;
    // coroutine objects own the low part of the top of the stack; extra size shifts the first frame
    co->ptr = co_t::create([raw](void *) { return co_main(raw); }, al, sz, priv, ext);
    CHECK(co->ptr);
    c.log("create co%d stack %zu private %zu extra %zu", co->id, sz, priv, ext);
    for (auto &kv : track().live)
      if (kv.second.id == track().allocated) {
        co->hi = static_cast<char *>(kv.first);
        co->lo = co->hi - kv.second.size;
      }
    // frames must lie below the object and the private buffer
    co->hi = std::min(co->hi, reinterpret_cast<char *>(co->ptr.get()));
    w.cos.push_back(std::move(co));
  }
  Loop loop(c, 10, 30);
  while (w.budget > 0 && loop.next()) {
    --w.budget;
    std::vector<Co *> v;
    for (auto &p : w.cos)
      if (!p->running && !p->finished) v.push_back(p.get());
    if (v.empty()) break;
    Drive d{c.one_of(v)};
    int t = static_cast<int>(c.draw(kThreads));
    if (c.chance(1, 3)) t = 0;
    c.log("on thread %d:", t);
    on_thread(t, drive, &d);
  }
  if (w.switches >= 4 && w.regs && (w.deep || w.migrations)) c.nontrivial();
  if (w.migrations) c.label("coroutine continued on another thread");
  if (w.deep) c.label("call chain deeper than 48 KiB");
  if (w.regs) c.label("switch with loaded callee-saved registers");
  c.label_n("switches", static_cast<uint64_t>(w.switches));
  w.cos.clear();
  CHECK_EQ(track().live.size(), 0u);
  W = nullptr;
  track().reset();
}
}  // namespace pbt

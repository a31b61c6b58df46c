// Scenarios with many objects, deep nesting and long histories for C01-C04 and C06-C10: what the stateful harnesses
// do with a handful of objects, here with up to a few hundred coroutines, tasks, followers, timers and stacks, nesting
// up to 60 levels and up to 70000 steps of one coroutine.  The including file defines BULK to the number of its property.
#include <libcopp/coroutine/coroutine_context.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/stack_pool.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>

#include <algorithm>
#include <functional>
#include <numeric>

#include "bulk.h"
#include "common.h"

using pbt::cur;

namespace {
using co_t = copp::coroutine_context_container<TrackAlloc>;
struct Macro {
  using stack_allocator_type = TrackAlloc;
  using coroutine_type = co_t;
  using value_type = int;
};
using task_t = cotask::task<Macro>;
using mgr_t = cotask::task_manager<task_t>;
constexpr size_t kStack = 64 * 1024;

void *tok(uint64_t x) { return reinterpret_cast<void *>(static_cast<uintptr_t>(0x1000 + 16 * x)); }

// ------------------------------------------------------------------ coroutines
struct Co {
  co_t::ptr_type p;
  size_t id = 0;
  size_t rounds = 1, done = 0;
  uint64_t seq = 0;
  void *arg = nullptr;
  bool fin = false;
  size_t depth = 0;
  int locals = 0;
};
struct World {
  pbt::Ctx &c;
  std::vector<std::unique_ptr<Co>> v;
  std::vector<Co *> chain;
};
World *W = nullptr;

void state_of(Co *k) {
  CHECK_EQ(k->p->is_finished(), k->fin, "(coroutine %zu)", k->id);
  if (k->fin) CHECK_EQ(k->p->get_ret_code(), static_cast<int>(k->id * 3 + 1), "(coroutine %zu)", k->id);
}
void enter(Co *k) {
  void *a = tok(++k->seq * 1000 + k->id);
  k->arg = a;
  size_t before = k->done;
  W->chain.push_back(k);
  int rc = k->done == 0 && k->id % 2 ? k->p->start(a) : k->p->resume(a);
  W->chain.pop_back();
  CHECK_EQ(rc, 0, "(entering coroutine %zu)", k->id);
  CHECK_EQ(k->done, before + 1, "(coroutine %zu did not take exactly one step)", k->id);
  CHECK(copp::this_coroutine::get_coroutine() == (W->chain.empty() ? nullptr : W->chain.back()->p.get()),
        "(the current coroutine after coroutine %zu)", k->id);
  state_of(k);
}
void got(Co *k, void *p) {
  CHECK(!W->chain.empty() && W->chain.back() == k, "(coroutine %zu runs, another one was entered)", k->id);
  CHECK(p == k->arg, "(coroutine %zu got another argument)", k->id);
  CHECK(copp::this_coroutine::get_coroutine() == k->p.get(), "(the current coroutine in coroutine %zu)", k->id);
  ++k->done;
}
void steps(Co *k, bool nested);
// canaries in every frame between the runner and the yield
uint64_t frames(Co *k, size_t depth, bool nested) {
  volatile uint64_t a[7];
  uint64_t base = (k->id << 20) + depth * 64;
  for (uint64_t i = 0; i < 7; ++i) a[i] = base + i;
  double d = static_cast<double>(base) * 0.5;
  uint64_t r = 0;
  if (depth < k->depth)
    r = frames(k, depth + 1, nested);
  else
    steps(k, nested);
  for (uint64_t i = 0; i < 7; ++i)
    CHECK_EQ(static_cast<uint64_t>(a[i]), base + i, "(a local of coroutine %zu at depth %zu)", k->id, depth);
  CHECK(d == static_cast<double>(base) * 0.5, "(a local of coroutine %zu)", k->id);
  return r + depth + 1;
}
void steps(Co *k, bool nested) {
  for (size_t r = 0;; ++r) {
    if (nested && k->id + 1 < W->v.size()) {
      Co *n = W->v[k->id + 1].get();
      if (!n->fin) enter(n);
    }
    if (r + 1 == k->rounds) return;
    void *p = nullptr;
    if (k->id % 3 == 0) {
      CHECK_EQ(copp::this_coroutine::yield(&p), 0);
    } else {
      CHECK_EQ(k->p->yield(&p), 0);
    }
    got(k, p);
  }
}
Co *make(size_t rounds, size_t depth, bool nested) {
  W->v.emplace_back(new Co());
  Co *k = W->v.back().get();
  k->id = W->v.size() - 1;
  k->rounds = rounds;
  k->depth = depth;
  static TrackAlloc al;
  k->p = co_t::create(
      co_t::callback_type([k, nested](void *p) {
        got(k, p);
        uint64_t want = 0;
        for (size_t i = 0; i <= k->depth; ++i) want += i + 1;
        CHECK_EQ(frames(k, 0, nested), want, "(sum over the frames of coroutine %zu)", k->id);
        k->fin = true;
        return static_cast<int>(k->id * 3 + 1);
      }),
      al, kStack, k->id % 4 ? 0 : 100, 0);
  CHECK(k->p, "(creation of coroutine %zu failed)", k->id);
  return k;
}
// coroutine i starts and resumes coroutine i+1
void co_nest(pbt::Ctx &c, size_t maxdepth) {
  size_t n = amount(c, 60);
  for (size_t i = 0; i < n; ++i) make(1 + c.draw(3), c.draw(maxdepth), true);
  c.log("%zu nested coroutines", n);
  while (!W->v[0]->fin) enter(W->v[0].get());
  for (auto &k : W->v)
    while (!k->fin) enter(k.get());
  c.label_n("nested coroutines", n);
}
// many suspended coroutines, entered in a generated order, created and dropped in between
void co_flat(pbt::Ctx &c, size_t maxdepth) {
  size_t n = amount(c), alive = 0;
  for (size_t i = 0; i < n; ++i, ++alive) make(1 + c.draw(4), c.draw(maxdepth), false);
  c.log("%zu coroutines side by side", n);
  size_t how = c.pick(4);
  for (size_t k = 0; k < 6 * n && alive; ++k) {
    size_t i = how == 0 ? k % n : how == 1 ? n - 1 - k % n : how == 2 ? (k * 7 + k / n) % n : c.draw(n);
    Co *x = W->v[i].get();
    if (x->p && !x->fin) enter(x);
    if (x->p && c.chance(1, 64)) x->p.reset(), --alive;
  }
  for (auto &k : W->v)
    if (k->p) state_of(k.get());
  for (auto &k : W->v)
    while (k->p && !k->fin) enter(k.get());
  c.label_n("coroutines side by side", n);
}
// one coroutine, many steps
void co_long(pbt::Ctx &c) {
  size_t n = c.chance(1, 12) ? 65000 + c.draw(5000) : 200 + c.draw(3000);
  Co *k = make(n, c.draw(6), false);
  c.log("one coroutine with %zu steps", n);
  Co *o = c.coin() ? make(n / 3 + 1, c.draw(6), false) : nullptr;
  size_t refs = c.draw(n);
  std::vector<co_t::ptr_type> h;
  for (size_t i = 0; i < refs; ++i) h.push_back(k->p);
  CHECK_EQ(k->p->use_count(), refs + 1);
  for (size_t i = 0; i < n; ++i) {
    enter(k);
    if (o && i % 3 == 0) enter(o);
  }
  CHECK(k->fin, "(a coroutine with %zu steps did not end)", n);
  CHECK(k->p->start(nullptr) < 0, "(an ended coroutine was entered)");
  h.clear();
  CHECK_EQ(k->p->use_count(), 1u);
  c.label("long life");
}

// ------------------------------------------------------------------ exceptions
struct Boom {
  static long live;
  size_t from;
  std::string text;
  explicit Boom(size_t f) : from(f), text(32 + f % 9, 'b') { ++live; }
  Boom(const Boom &o) : from(o.from), text(o.text) { ++live; }
  ~Boom() { --live; }
  void verify() const {
    std::string want(32 + from % 9, 'b');
    CHECK(text == want, "(a thrown object changed)");
  }
};
long Boom::live = 0;
size_t origin(const std::exception_ptr &p) {
  if (!p) return static_cast<size_t>(-1);
  try {
    std::rethrow_exception(p);
  } catch (const Boom &b) {
    b.verify();
    return b.from;
  } catch (...) {
  }
  return static_cast<size_t>(-2);
}
// the innermost of n nested coroutines throws; every level lets it pass, stores it, catches it or throws another one
void exc_nest(pbt::Ctx &c) {
  size_t n = amount(c, 60);
  struct Level {
    co_t::ptr_type p;
    size_t how = 0, in = 0;  // in: what came out of the level below, 0 nothing
    bool stored = false, yields = false;
  };
  std::vector<Level> l(n + 1);
  std::vector<size_t> out(n + 2, 0);  // 0: nothing, otherwise 1 + the level that threw it
  for (size_t i = 0; i < n; ++i) {
    l[i].how = i + 1 == n ? 1 : c.weighted({6, 1, 2});  // pass on, throw an own one instead, swallow
    if (i + 1 < n && c.chance(1, 8)) l[i].how = 1;
    l[i].stored = c.chance(1, 3);
  }
  for (size_t i = n; i-- > 0;) out[i] = l[i].how == 1 ? i + 1 : l[i].how == 0 ? out[i + 1] : 0;
  c.log("%zu nested coroutines, the innermost throws", n);
  std::function<size_t(size_t)> call = [&](size_t i) -> size_t {  // enter level i, return what came out
    CHECK_EQ(l[i].p->is_finished(), false);
    size_t r = 0;
    if (l[i].stored) {
      std::exception_ptr e;
      CHECK_EQ(l[i].p->start(e, tok(i)), 0);
      if (e) r = origin(e) + 1;
    } else {
      try {
        CHECK_EQ(l[i].p->start(tok(i)), 0);
      } catch (const Boom &b) {
        r = b.from + 1;
        b.verify();
      }
    }
    CHECK_EQ(r, out[i], "(what came out of level %zu)", i);
    CHECK(l[i].p->is_finished(), "(level %zu is not finished)", i);
    return r;
  };
  static TrackAlloc al;
  for (size_t i = 0; i < n; ++i)
    l[i].p = co_t::create(co_t::callback_type([&, i](void *p) -> int {
                            CHECK(p == tok(i));
                            size_t got = i + 1 < n ? call(i + 1) : 0;
                            if (l[i].how == 1) throw Boom(i);
                            if (l[i].how == 0 && got) throw Boom(got - 1);
                            return 0;
                          }),
                          al, kStack, 0, 0);
  call(0);
  l.clear();
  CHECK_EQ(Boom::live, 0, "(thrown objects left)");
  c.label_n("levels", n);
}
// an exception crosses the frames of many coroutines by itself: start() rethrows it on every level
void exc_pass(pbt::Ctx &c) {
  size_t n = amount(c, 60), unwound = 0;
  std::vector<co_t::ptr_type> p(n);
  struct Guard {
    size_t *x;
    ~Guard() { ++*x; }
  };
  static TrackAlloc al;
  size_t cut = c.draw(n);
  bool use_cut = c.coin();
  bool seen = false;
  for (size_t i = 0; i < n; ++i)
    p[i] = co_t::create(co_t::callback_type([&, i](void *) -> int {
                          Guard g{&unwound};
                          if (i + 1 == n) throw Boom(i);
                          if (use_cut && i == cut) {
                            try {
                              p[i + 1]->start();
                            } catch (const Boom &b) {
                              CHECK_EQ(b.from, n - 1);
                              CHECK_EQ(unwound, n - 1 - i, "(frames unwound)");
                              seen = true;
                            }
                            return 0;
                          }
                          p[i + 1]->start();
                          CHECK(seen, "(an exception did not leave the coroutine at level %zu)", i + 1);
                          return 0;
                        }),
                        al, kStack, 0, 0);
  bool out = false;
  try {
    p[0]->start();
  } catch (const Boom &b) {
    CHECK_EQ(b.from, n - 1);
    out = true;
  }
  CHECK_EQ(unwound, n, "(frames unwound)");
  CHECK_EQ(seen, use_cut && cut + 1 < n);
  CHECK_EQ(out, !seen);
  p.clear();
  CHECK_EQ(Boom::live, 0, "(thrown objects left)");
  c.label_n("levels", n);
}
// a task with many followers; any of them throws: all of them run, and the entering call reports every exception once
void exc_fan(pbt::Ctx &c) {
  size_t n = amount(c);
  std::vector<task_t::ptr_type> t;
  std::vector<int> runs(n, 0);
  std::vector<size_t> thrown;
  size_t den = 1 + c.draw(4);
  static TrackAlloc al;
  for (size_t i = 0; i < n; ++i) {
    bool boom = c.chance(1, den);
    t.push_back(task_t::create([&, i, boom](void *p) -> int {
      CHECK(p == tok(i));
      ++runs[i];
      if (boom) {
        thrown.push_back(i);
        throw Boom(i);
      }
      return static_cast<int>(i);
    }, al, kStack));
    CHECK(t.back(), "(creation failed)");
    if (i) {
      size_t to = c.chance(1, 3) ? i - 1 : c.chance(1, 2) ? 0 : c.draw(i);
      t[to]->next(t[i], tok(i));
    }
  }
  c.log("%zu tasks that follow each other, every %zu. throws", n, den);
  int way = static_cast<int>(c.pick(3));
  if (way < 2) {
    std::list<std::exception_ptr> ex;
    int rc = way == 0 ? t[0]->start(ex, tok(0)) : t[0]->resume(ex, tok(0), cotask::EN_TS_CREATED);
    CHECK_EQ(rc, 0);
    CHECK_EQ(ex.size(), thrown.size(), "(exceptions reported)");
    std::vector<size_t> got;
    for (auto &e : ex) got.push_back(origin(e));
    std::sort(got.begin(), got.end());
    std::vector<size_t> want = thrown;
    std::sort(want.begin(), want.end());
    CHECK(got == want, "(other exceptions were reported than were thrown)");
  } else {
    bool any = false;
    try {
      CHECK_EQ(t[0]->start(tok(0)), 0);
    } catch (const Boom &) {
      any = true;
    }
    CHECK_EQ(any, !thrown.empty(), "(exceptions of %zu tasks)", thrown.size());
  }
  for (size_t i = 0; i < n; ++i) {
    CHECK_EQ(runs[i], 1, "(runs of task %zu)", i);
    CHECK(t[i]->is_exiting() && t[i]->is_completed(), "(task %zu)", i);
  }
  t.clear();
  CHECK_EQ(Boom::live, 0, "(thrown objects left)");
  c.label_n("followers", n);
}

// ------------------------------------------------------------------ memory (C04)
struct Big {
  static long live;
  size_t id;
  std::vector<int> own;
  explicit Big(size_t i) : id(i), own(5 + i % 50, static_cast<int>(i)) { ++live; }
  Big(const Big &o) : id(o.id), own(o.own) { ++live; }
  Big(Big &&o) noexcept : id(o.id), own(std::move(o.own)) { ++live; }
  ~Big() { --live; }
  int operator()(void *) {
    for (int x : own) CHECK_EQ(x, static_cast<int>(id), "(state of the callable of %zu)", id);
    copp::this_coroutine::yield();
    for (int x : own) CHECK_EQ(x, static_cast<int>(id), "(state of the callable of %zu)", id);
    return static_cast<int>(id);
  }
};
long Big::live = 0;
void mem_many(pbt::Ctx &c) {
  size_t n = amount(c);
  struct E {
    co_t::ptr_type co;
    task_t::ptr_type task;
    size_t priv = 0;
    int steps = 0;
    bool live() const { return co || task; }
    unsigned char *buf() const { return static_cast<unsigned char *>(co ? co->get_private_buffer() : task->get_private_buffer()); }
  };
  std::vector<E> v(n);
  static TrackAlloc al;
  size_t live = 0, made = 0;
  auto verify = [&](size_t i) {
    E &e = v[i];
    if (!e.live()) return;
    for (size_t k = 0; k < e.priv; ++k)
      CHECK_EQ(e.buf()[k], static_cast<unsigned char>(i * 7 + k), "(private buffer of object %zu)", i);
  };
  auto drop = [&](size_t i) {
    E &e = v[i];
    if (!e.live()) return;
    verify(i);
    e.co.reset();
    e.task.reset();
    --live;
    CHECK_EQ(track().live.size(), live, "(stacks)");
    CHECK_EQ(Big::live, static_cast<long>(live), "(callables)");
  };
  for (size_t k = 0; k < 3 * n; ++k) {
    size_t i = k < n ? k : c.draw(n);
    E &e = v[i];
    if (!e.live()) {
      e = E();
      e.priv = c.chance(1, 3) ? 0 : c.draw(400);
      if (c.coin())
        e.co = co_t::create(Big(i), al, kStack, e.priv, 0);
      else
        e.task = task_t::create(Big(i), al, kStack, e.priv);
      CHECK(e.live(), "(creation of object %zu failed with %zu alive)", i, live);
      ++live;
      ++made;
      for (size_t b = 0; b < e.priv; ++b) e.buf()[b] = static_cast<unsigned char>(i * 7 + b);
      CHECK_EQ(track().live.size(), live, "(stacks)");
      CHECK_EQ(Big::live, static_cast<long>(live), "(callables)");
      continue;
    }
    if (e.steps < 2 && c.chance(2, 3)) {
      ++e.steps;
      CHECK_EQ(e.co ? e.co->resume() : (e.steps == 1 ? e.task->start() : e.task->resume()), 0);
      if (e.steps == 2) CHECK_EQ(e.co ? e.co->get_ret_code() : e.task->get_ret_code(), static_cast<int>(i));
      verify(i);
    } else {
      drop(i);
    }
  }
  c.log("%zu objects made, at most %zu side by side", made, n);
  if (c.coin())
    for (size_t i = 0; i < n; ++i) drop(i);
  else
    for (size_t i = n; i-- > 0;) drop(i);
  CHECK_EQ(track().live.size(), 0u);
  CHECK_EQ(Big::live, 0);
  c.label_n("objects", n);
}

// ------------------------------------------------------------------ pool (C06)
void pool_many(pbt::Ctx &c) {
  using Pool = copp::stack_pool<TrackAlloc>;
  size_t n = amount(c);
  auto pool = Pool::create();
  if (c.coin()) pool->set_stack_size(kStack);
  bool auto_gc = c.coin();
  pool->set_auto_gc(auto_gc);
  size_t max_n = c.chance(1, 3) ? 1 + c.draw(n) : 0;
  pool->set_max_stack_number(max_n);
  size_t min_n = c.chance(1, 3) ? c.draw(n) : 0;
  pool->set_min_stack_number(min_n);
  size_t gc_n = c.chance(1, 3) ? 1 + c.draw(20) : 0;
  pool->set_gc_once_number(gc_n);
  track().extra = c.chance(1, 3) ? 4096 * c.draw(4) : 0;
  std::vector<copp::stack_context> held;
  size_t bytes = 0, refused = 0, reused = 0;
  auto verify = [&] {
    const auto &l = pool->get_limit();
    CHECK_EQ(l.used_stack_number, held.size(), "(stacks in use)");
    CHECK_EQ(l.used_stack_size, bytes, "(bytes in use)");
    CHECK_EQ(l.used_stack_number + l.free_stack_number, track().live.size(), "(stacks outstanding at the allocator)");
    size_t all = 0;
    for (auto &b : track().live) all += b.second.size;
    CHECK_EQ(l.used_stack_size + l.free_stack_size, all, "(bytes outstanding at the allocator)");
  };
  size_t total = 4 * n, phase = 0;
  for (size_t k = 0; k < total; ++k) {
    if (k % n == 0) phase = c.pick(3);  // mostly taking, mostly giving back, mixed
    if (c.chance(phase == 0 ? 7 : phase == 1 ? 1 : 4, 8)) {
      copp::stack_context x;
      size_t free_before = pool->get_limit().free_stack_number, alloc = track().allocated;
      pool->allocate(x);
      bool must_refuse = max_n && held.size() >= max_n;
      CHECK_EQ(x.sp == nullptr, must_refuse, "(%zu of at most %zu in use)", held.size(), max_n);
      if (must_refuse) {
        ++refused;
      } else {
        CHECK_EQ(track().allocated, alloc + (free_before ? 0 : 1), "(a cached stack was there: %zu)", free_before);
        if (free_before) ++reused;
        for (auto &h : held) CHECK(h.sp != x.sp, "(a stack was handed out twice)");
        CHECK(track().live.count(x.sp) && track().live[x.sp].size == x.size, "(a stack that is not outstanding was handed out)");
        size_t mark = k + 1;
        memcpy(static_cast<char *>(x.sp) - x.size, &mark, sizeof(mark));
        memcpy(static_cast<char *>(x.sp) - sizeof(mark), &mark, sizeof(mark));
        held.push_back(x);
        bytes += x.size;
      }
    } else if (!held.empty()) {
      size_t i = c.coin() ? c.draw(held.size()) : held.size() - 1;
      copp::stack_context x = held[i];
      size_t a, b;
      memcpy(&a, static_cast<char *>(x.sp) - x.size, sizeof(a));
      memcpy(&b, static_cast<char *>(x.sp) - sizeof(b), sizeof(b));
      CHECK(a == b && a, "(the memory of a stack that was in use changed)");
      held.erase(held.begin() + static_cast<long>(i));
      bytes -= x.size;
      size_t freed = track().released;
      pool->deallocate(x);
      CHECK(auto_gc || track().released == freed, "(a stack was given back without being told to)");
    }
    if (c.chance(1, 32)) {
      size_t freed = track().released;
      size_t m = pool->gc();
      CHECK_EQ(track().released - freed, m, "(stacks given back by gc)");
      if (gc_n) CHECK(m <= gc_n, "(%zu given back at once, at most %zu allowed)", m, gc_n);
    }
    if (k % 8 == 0 || n < 40) verify();
  }
  verify();
  if (c.coin()) {
    pool->clear();
    CHECK_EQ(pool->get_limit().free_stack_number, 0u, "(cached after clear)");
    CHECK_EQ(track().live.size(), held.size(), "(outstanding after clear)");
  }
  while (!held.empty()) {
    copp::stack_context x = held.back();
    held.pop_back();
    bytes -= x.size;
    pool->deallocate(x);
  }
  verify();
  pool.reset();
  CHECK_EQ(track().live.size(), 0u, "(stacks were not given back)");
  if (reused > 8) c.label("reused");
  if (refused) c.label("refused");
  c.label_n("stacks", n);
}

// ------------------------------------------------------------------ tasks
enum { CREATED = 1, RUNNING = 2, WAITING = 3, DONE = 4, CANCELED = 5, KILLED = 6, TIMEOUT = 7 };
struct T {
  task_t::ptr_type p;
  size_t id = 0;
  int runs = 0, st = CREATED, onfin = 0;
  size_t yields = 0, left = 0, steps = 0;
  size_t out = 0;  // yields on the way out
  uint64_t tid = 0;
  int64_t deadline = -1;
  bool member = false, gone = false, fin = false;
};
long g_live = 0;
struct Body : public cotask::impl::task_action_impl {
  T *t;
  explicit Body(T *x) : t(x) { ++g_live; }
  Body(const Body &o) : cotask::impl::task_action_impl(), t(o.t) { ++g_live; }
  ~Body() { --g_live; }
  int operator()(void *) override {
    ++t->runs;
    ++t->steps;
    CHECK(task_t::this_task() == t->p.get() || t->gone || !t->p, "(current task in %zu)", t->id);
    while (t->left && !task_t::this_task()->is_exiting()) {
      --t->left;
      copp::this_coroutine::yield();
      ++t->steps;
    }
    while (t->out) {
      --t->out;
      copp::this_coroutine::yield();
      ++t->steps;
    }
    t->fin = true;
    return static_cast<int>(t->id) + 5;
  }
  int on_finished(cotask::impl::task_impl &x) override {
    CHECK_EQ(x.get_id(), t->tid, "(completion callback of task %zu)", t->id);
    ++t->onfin;
    return 0;
  }
};
T *mk(std::vector<std::unique_ptr<T>> &v, size_t yields, size_t out) {
  v.emplace_back(new T());
  T *t = v.back().get();
  t->id = v.size() - 1;
  t->yields = t->left = yields;
  t->out = out;
  static TrackAlloc al;
  t->p = task_t::create(Body(t), al, kStack);
  CHECK(t->p, "(creation failed)");
  t->tid = t->p->get_id();
  return t;
}
void ended(T *t, int st) {
  CHECK(t->p->is_exiting(), "(task %zu)", t->id);
  CHECK_EQ(static_cast<int>(t->p->get_status()), st, "(task %zu)", t->id);
  CHECK_EQ(t->runs, 1, "(task %zu)", t->id);
  CHECK_EQ(t->onfin, 1, "(completion callback of task %zu)", t->id);
  CHECK(t->fin && t->p->is_completed(), "(task %zu did not reach its end)", t->id);
  CHECK_EQ(t->p->get_ret_code(), static_cast<int>(t->id) + 5, "(task %zu)", t->id);
}
// C07: many tasks, many yields on the way out of a kill, many handles
void life_many(pbt::Ctx &c) {
  std::vector<std::unique_ptr<T>> v;
  size_t n = amount(c);
  for (size_t i = 0; i < n; ++i) mk(v, c.draw(4), c.chance(1, 8) ? c.draw(300) : c.draw(3));
  std::vector<task_t::ptr_type> extra;
  T *many = v[c.draw(n)].get();
  size_t copies = c.chance(1, 4) ? 65530 + c.draw(20) : c.draw(400);
  for (size_t i = 0; i < copies; ++i) extra.push_back(many->p);
  CHECK_EQ(many->p->use_count(), copies + 1, "(references)");
  c.log("%zu tasks, %zu handles of one", n, copies + 1);
  size_t killed = 0;
  for (size_t k = 0; k < 5 * n; ++k) {
    T *t = v[c.draw(n)].get();
    if (!t->p) continue;
    int st = static_cast<int>(t->p->get_status());
    CHECK_EQ(st, t->st, "(status of task %zu)", t->id);
    size_t what = c.weighted({12, 2, 2, 1});
    if (what == 3 && t != many) {  // drop: a suspended task runs to its end first, an unstarted one never runs
      bool wait = st == WAITING;
      int runs = t->runs;
      t->gone = true;
      t->p.reset();
      CHECK_EQ(t->runs, runs, "(task %zu)", t->id);
      if (wait) CHECK(t->fin && t->onfin == 1, "(task %zu was dropped while suspended and did not reach its end)", t->id);
      continue;
    }
    if (st >= DONE) continue;
    if (what == 0 || what == 3) {
      size_t before = t->steps;
      CHECK_EQ(st == CREATED ? t->p->start() : t->p->resume(), 0);
      CHECK_EQ(t->steps, before + 1, "(task %zu did not take exactly one step)", t->id);
      t->st = t->fin ? DONE : WAITING;
      if (t->fin) ended(t, DONE);
    } else {
      int to = what == 1 ? KILLED : CANCELED;
      CHECK_EQ(what == 1 ? t->p->kill() : t->p->cancel(), 0);
      t->st = to;
      ended(t, to);
      ++killed;
    }
  }
  for (auto &t : v) {
    if (!t->p) continue;
    while (t->st < DONE) {
      CHECK_EQ(t->st == CREATED ? t->p->start() : t->p->resume(), 0);
      t->st = t->fin ? DONE : WAITING;
    }
  }
  CHECK_EQ(many->p->use_count(), copies + 1, "(references)");
  while (!extra.empty()) extra.pop_back();
  CHECK_EQ(many->p->use_count(), 1u, "(references)");
  for (auto &t : v) {
    if (t->p) ended(t.get(), t->st);
    t->p.reset();
  }
  CHECK_EQ(g_live, 0, "(actions left)");
  if (killed) c.label("ended early");
  c.label_n("tasks", n);
}
// C08: many followers of one task, long chains, many tasks that await one
void chain_many(pbt::Ctx &c) {
  size_t n = amount(c), kind = c.pick(4);
  static TrackAlloc al;
  std::vector<task_t::ptr_type> t(n + 1);
  std::vector<size_t> order;
  std::vector<int> runs(n + 1, 0);
  bool yields = c.coin();
  t[0] = task_t::create([&](void *p) -> int {
    CHECK(p == tok(0));
    ++runs[0];
    if (yields) copp::this_coroutine::yield();
    order.push_back(0);
    return 1;
  }, al, kStack);
  std::vector<size_t> want{0};
  for (size_t i = 1; i <= n; ++i) {
    if (kind == 2) {  // awaits task 0 from its body
      t[i] = task_t::create([&, i](void *p) -> int {
        CHECK(p == tok(i));
        ++runs[i];
        CHECK_EQ(task_t::this_task()->await_task(t[0]), 0);
        CHECK(t[0]->is_exiting(), "(await_task returned before the task ended)");
        order.push_back(i);
        return static_cast<int>(i);
      }, al, kStack);
    } else {
      t[i] = task_t::create([&, i](void *p) -> int {
        CHECK(p == tok(i), "(follower %zu got another argument)", i);
        ++runs[i];
        order.push_back(i);
        return static_cast<int>(i);
      }, al, kStack);
    }
    CHECK(t[i], "(creation failed)");
    want.push_back(i);
  }
  c.log("%zu tasks %s", n, kind == 1 ? "in a chain" : kind == 2 ? "that await one" : "that follow one");
  switch (kind) {
    case 1:
      for (size_t i = 1; i <= n; ++i) t[i - 1]->next(t[i], tok(i));
      break;
    case 2:
      for (size_t i = 1; i <= n; ++i) CHECK_EQ(t[i]->start(tok(i)), 0);
      break;
    default:
      for (size_t i = 1; i <= n; ++i) t[0]->next(t[i], tok(i));
      break;
  }
  if (kind != 2 && c.coin()) {  // handles are let go: the list keeps the followers alive
    for (size_t i = 1; i <= n; ++i)
      if (kind == 3 || c.coin()) t[i].reset();
  }
  for (size_t i = 1; i <= n; ++i)
    if (kind == 2)
      CHECK_EQ(runs[i], 1);
    else
      CHECK_EQ(runs[i], 0, "(follower %zu started early)", i);
  int end = static_cast<int>(c.pick(3));
  if (end == 1) {
    if (yields) CHECK_EQ(t[0]->start(tok(0)), 0);
    if (yields) {
      // killed while suspended: its followers run with the argument of their own
      CHECK_EQ(t[0]->kill(cotask::EN_TS_KILLED, nullptr), 0);
    } else {
      CHECK_EQ(t[0]->start(tok(0)), 0);
    }
  } else {
    CHECK_EQ(t[0]->start(tok(0)), 0);
    if (yields) CHECK_EQ(t[0]->resume(nullptr), 0);
  }
  CHECK_EQ(order.size(), n + 1, "(tasks that ran)");
  if (kind == 2) {
    std::vector<size_t> a = order;
    std::sort(a.begin(), a.end());
    CHECK(a == want, "(waiters that went on)");
  } else {
    CHECK(order == want, "(followers ran in another order)");
  }
  for (size_t i = 0; i <= n; ++i) {
    CHECK_EQ(runs[i], 1, "(task %zu)", i);
    if (t[i]) {
      CHECK(t[i]->is_completed(), "(task %zu)", i);
      CHECK_EQ(t[i]->use_count(), 1u, "(references of task %zu)", i);
    }
  }
  // late followers start at once
  size_t late = c.draw(20), ran = 0;
  for (size_t i = 0; i < late; ++i) {
    auto x = task_t::create([&](void *) -> int { return static_cast<int>(++ran); }, al, kStack);
    t[0]->next(x, nullptr);
    CHECK_EQ(ran, i + 1, "(a follower of an ended task did not start)");
  }
  t.clear();
  CHECK_EQ(track().live.size(), 0u, "(stacks left)");
  c.label_n("chained tasks", n);
}
// C09 / C10: a manager with many tasks, some with deadlines
void mgr_many(pbt::Ctx &c, bool timers) {
  std::vector<std::unique_ptr<T>> v;
  size_t n = amount(c), expired = 0, by_id = 0, members = 0;
  auto m = mgr_t::create();
  int64_t now = 1000000000000;
  auto sec = [](int64_t x) { return static_cast<time_t>(x / 1000000000); };
  auto nsec = [](int64_t x) { return static_cast<int>(x % 1000000000); };
  bool ticked = timers && c.coin();
  int64_t step = c.coin() ? 1 : 100000000 + static_cast<int64_t>(c.draw(900000000));
  if (ticked) CHECK_EQ(m->tick(sec(now), nsec(now)), 0);
  size_t spread = 1 + c.draw(2 * n);
  auto add = [&](T *t) {
    int rc;
    if (timers && c.chance(3, 4)) {
      int64_t d = step * static_cast<int64_t>(1 + c.draw(spread));
      rc = m->add_task(t->p, sec(d), nsec(d));
      t->deadline = d + (ticked ? now : 0);
    } else {
      rc = m->add_task(t->p);
    }
    CHECK_EQ(rc, 0, "(adding task %zu)", t->id);
    t->member = true;
    ++members;
  };
  for (size_t i = 0; i < n; ++i) add(mk(v, c.draw(4), c.draw(2)));
  c.log("%zu tasks in a manager%s", n, timers ? ", with deadlines" : "");
  for (auto &t : v)
    if (c.chance(1, 3)) t->p.reset();  // the manager keeps it
  auto verify = [&](bool all) {
    CHECK_EQ(m->get_task_size(), members, "(size of the manager)");
    size_t timed = 0;
    for (auto &t : v) {
      if (t->member && t->deadline >= 0) ++timed;
      if (!all) continue;
      auto f = m->find_task(t->tid);
      CHECK_EQ(!!f, t->member, "(task %zu)", t->id);
      if (f) {
        CHECK(f->get_id() == t->tid, "(another task was found)");
        CHECK_EQ(static_cast<int>(f->get_status()), t->st, "(task %zu)", t->id);
      }
    }
    CHECK_EQ(m->get_tick_checkpoint_size(), timed, "(timers)");
  };
  verify(true);
  auto leave = [&](T *t, int st) {
    t->st = st;
    t->member = false;
    t->deadline = -1;
    --members;
    CHECK(t->fin && t->onfin == 1 && t->runs == 1, "(task %zu did not reach its end once)", t->id);
    if (t->p) ended(t, st);
  };
  for (size_t k = 0; k < 4 * n; ++k) {
    T *t = v[c.draw(v.size())].get();
    size_t what = c.weighted({12, 2, 2, 2, timers ? 8u : 0u, 1});
    if (what < 4) {
      if (!t->member) {
        CHECK_EQ(m->start(t->tid), copp::COPP_EC_NOT_FOUND, "(task %zu is not there)", t->id);
        continue;
      }
      ++by_id;
    }
    if (what == 0) {
      CHECK_EQ(t->st == CREATED ? m->start(t->tid) : m->resume(t->tid), 0, "(task %zu)", t->id);
      if (t->fin)
        leave(t, DONE);
      else
        t->st = WAITING;
    } else if (what == 1) {
      CHECK_EQ(m->kill(t->tid), 0);
      leave(t, KILLED);
    } else if (what == 2) {
      CHECK_EQ(m->cancel(t->tid), 0);
      leave(t, CANCELED);
    } else if (what == 3) {
      bool unstarted = t->st == CREATED;
      if (unstarted && !t->p) continue;  // would be dropped unstarted
      CHECK_EQ(m->remove_task(t->tid), 0);
      if (unstarted) {
        t->member = false;
        t->deadline = -1;
        --members;
        CHECK_EQ(t->runs, 0);
        CHECK_EQ(static_cast<int>(t->p->get_status()), static_cast<int>(CREATED));
        if (c.coin()) add(t);
      } else {
        leave(t, KILLED);
      }
    } else if (what == 4) {
      int64_t to = now + step * static_cast<int64_t>(c.draw(spread / 4 + 2)) + (c.coin() ? 1 : 0);
      if (to == now && ticked) ++to;
      std::vector<T *> due;
      for (auto &x : v) {
        if (!x->member || x->deadline < 0) continue;
        if (!ticked)
          x->deadline += to;
        else if (x->deadline < to)
          due.push_back(x.get());
      }
      CHECK_EQ(m->tick(sec(to), nsec(to)), 0);
      ticked = true;
      now = to;
      for (T *x : due) {
        ++expired;
        leave(x, TIMEOUT);
      }
    } else if (c.chance(1, 8)) {
      add(mk(v, c.draw(4), c.draw(2)));
    }
    verify(k % 32 == 0);
  }
  verify(true);
  std::vector<T *> rest;
  for (auto &t : v)
    if (t->member) rest.push_back(t.get());
  if (c.coin())
    m->reset();
  else
    m.reset();
  for (T *t : rest) {
    CHECK(t->runs == 1 && t->fin && t->onfin == 1, "(task %zu survived its manager)", t->id);
    if (t->p) ended(t, KILLED);
  }
  for (auto &t : v) t->p.reset();
  m.reset();
  CHECK_EQ(g_live, 0, "(actions left)");
  CHECK_EQ(track().live.size(), 0u, "(stacks left)");
  if (expired) c.label("expired");
  if (by_id > 9) c.label("by id");
  c.label_n("members", n);
}
}  // namespace

void pbt::setup_process() {}
void pbt::run_case(Ctx &c) {
  track().reset();
  World w{c, {}, {}};
  W = &w;
#if BULK == 1
  switch (c.weighted({4, 4, 1})) {
    case 0: co_nest(c, 1); break;
    case 1: co_flat(c, 1); break;
    default: co_long(c); break;
  }
#elif BULK == 2
  if (c.coin())
    co_nest(c, 30);
  else
    co_flat(c, 60);
#elif BULK == 3
  switch (c.pick(3)) {
    case 0: exc_nest(c); break;
    case 1: exc_pass(c); break;
    default: exc_fan(c); break;
  }
#elif BULK == 4
  mem_many(c);
#elif BULK == 6
  pool_many(c);
#elif BULK == 7
  life_many(c);
#elif BULK == 8
  chain_many(c);
#elif BULK == 9
  mgr_many(c, false);
#elif BULK == 10
  mgr_many(c, true);
#endif
  w.v.clear();
  CHECK_EQ(track().live.size(), 0u, "(stacks left)");
  if (g_amount >= 10) c.nontrivial();
}

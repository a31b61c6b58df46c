// C04: memory layout and exactly-once release of coroutines and tasks.
#include <alloca.h>

#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/allocator/stack_allocator_memory.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/stack_pool.h>
#include <libcopp/utils/errno.h>
#include <libcotask/task.h>

#include <limits>
#include <map>
#include <set>

#include "common.h"

using pbt::cur;

const pbt::HarnessInfo pbt::info = {
    "co_mem",
    "a case creates up to 6 coroutines and tasks from generated stack, private buffer, extension and callable sizes over "
    "plain, oversizing, fixed-size, failing, pool and user-memory allocators, then starts, suspends, kills and drops them "
    "in any order; addresses are compared pairwise, every byte of buffers and frames is written, releases are counted; "
    "non-trivial when one was created with odd sizes and dropped while others lived, or a creation failed cleanly",
    false, 20};

namespace {
template <class A>
struct Macro {
  using stack_allocator_type = A;
  using coroutine_type = copp::coroutine_context_container<A>;
  using value_type = int;
};
using pool_t = copp::stack_pool<TrackAlloc>;
using PoolAlloc = copp::allocator::stack_allocator_pool<pool_t>;
using MemAlloc = copp::allocator::stack_allocator_memory;

struct Range {
  uintptr_t lo = 0, hi = 0;  // [lo, hi)
  const char *what = "";
};

struct Ent;
struct Probe {  // the stored callable, counted per entity
  Ent *e;
  explicit Probe(Ent *x) : e(x) { reg(); }
  Probe(const Probe &o) : e(o.e) { reg(); }
  ~Probe();
  void reg();
};

struct Ent {
  int id = 0;
  size_t priv = 0;
  size_t refs = 0;
  std::set<const Probe *> probes;
  uintptr_t base = 0, top = 0, low = 0;  // stack [base, top), objects start at low
  Range parts[5];
  int nparts = 0;
  unsigned char *pb = nullptr;
  unsigned char *ext = nullptr;
  size_t ext_size = 0;
  bool runnable = false;
  int st = 0;  // 0 created 1 suspended 2 running 3 finished
  bool ending = false;
  bool gone = false;
  bool is_task = false;
  bool dropped_live = false;
  int on_fin = 0;

  virtual ~Ent() {}
  virtual void enter() = 0;
  virtual void end(bool kill) = 0;
  virtual void add_ref() = 0;
  virtual void drop_ref() = 0;
  virtual size_t use_count() = 0;
  virtual void yield() = 0;
  virtual bool finished() = 0;

  unsigned char pat(size_t i) const { return static_cast<unsigned char>(id * 37 + i * 7 + (i >> 8)); }
  void fill() {
    for (size_t i = 0; i < priv; ++i) pb[i] = pat(i);
    for (size_t i = 0; i < ext_size; ++i) ext[i] = pat(i + 99);
  }
  void verify() const {
    for (size_t i = 0; i < priv; ++i) CHECK(pb[i] == pat(i), "(private buffer of %d changed at %zu of %zu)", id, i, priv);
    for (size_t i = 0; i < ext_size; ++i) CHECK(ext[i] == pat(i + 99), "(extension of %d changed at %zu)", id, i);
  }
};
void Probe::reg() {
  if (!e->probes.insert(this).second) cur().fail("a callable was constructed over a live one");
}
Probe::~Probe() {
  if (!e->probes.erase(this)) cur().fail("the callable of %d was destroyed twice", e->id);
}

struct World {
  pbt::Ctx &c;
  std::vector<std::unique_ptr<Ent>> ents;
  std::vector<Ent *> chain;
  std::shared_ptr<pool_t> pool;
  struct Mem {
    char *raw;
    MemAlloc alloc;
    size_t size;
    bool in_use = false;
  };
  std::vector<std::unique_ptr<Mem>> mems;
  int budget = 50;
  int failed = 0, created = 0, odd = 0, dropped = 0, drop_live = 0, ran = 0;
  explicit World(pbt::Ctx &cc) : c(cc) {}
};
World *W = nullptr;

void verify_all() {
  for (auto &p : W->ents) {
    if (p->gone) {
      CHECK_EQ(p->probes.size(), 0u, "(callable of %d outlived it)", p->id);
      continue;
    }
    p->verify();
    CHECK_EQ(p->probes.size(), 1u, "(callables of %d)", p->id);
    CHECK_EQ(p->use_count(), p->refs, "(references of %d)", p->id);
    CHECK_EQ(p->finished(), p->st == 3, "(%d)", p->id);
  }
}

void program(Ent *self, int depth);

__attribute__((noinline)) void fill_stack(Ent *self, size_t keep) {
  uintptr_t here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  if (here - self->base <= keep + 4096) return;
  size_t n = here - self->base - keep;
  volatile unsigned char *p = static_cast<volatile unsigned char *>(alloca(n));
  unsigned char v = static_cast<unsigned char>(self->id + 1);
  for (size_t i = 0; i < n; i += 8) p[i] = v;
  for (auto &q : W->ents)
    if (!q->gone) q->verify();
  for (size_t i = 0; i < n; i += 8) CHECK(p[i] == v, "(stack of %d changed)", self->id);
}

int body(const Probe *probe) {
  Ent *self = probe->e;
  volatile char local = 1;
  uintptr_t a = reinterpret_cast<uintptr_t>(&local);
  CHECK(a >= self->base && a < self->low, "(frame of %d at -%zu of its stack)", self->id,
        static_cast<size_t>(self->top - a));
  self->st = 2;
  ++W->ran;
  W->chain.push_back(self);
  for (;;) {
    CHECK(self->probes.count(probe), "(the running callable of %d was destroyed)", self->id);
    self->verify();
    if (self->ending) break;
    size_t k = W->budget > 0 ? W->c.weighted({2, 5, 3, 2}) : 0;
    if (k == 0) break;
    if (k == 1) {
      W->c.log("%d yields", self->id);
      W->chain.pop_back();
      self->st = 1;
      self->yield();
      self->st = 2;
      W->chain.push_back(self);
      CHECK(local == 1, "(local changed)");
    } else if (k == 2) {
      --W->budget;
      program(self, 1);
    } else {
      fill_stack(self, 40 * 1024);
    }
  }
  W->chain.pop_back();
  self->st = 3;
  W->c.log("%d finishes", self->id);
  return self->id;
}

template <size_t N>
struct Fn {
  Probe p;
  char pad[N];
  explicit Fn(Ent *e) : p(e) { memset(pad, 0x61, N); }
  Fn(const Fn &o) : p(o.p) { memcpy(pad, o.pad, N); }
  int operator()(void *) const { return body(&p); }
};
template <size_t N>
struct Act : public cotask::impl::task_action_impl {
  Probe p;
  char pad[N];
  explicit Act(Ent *e) : p(e) { memset(pad, 0x62, N); }
  Act(const Act &o) : cotask::impl::task_action_impl(), p(o.p) { memcpy(pad, o.pad, N); }
  int operator()(void *) override {
    int r = body(&p);
    for (size_t i = 0; i < N; ++i) CHECK(pad[i] == 0x62, "(action object changed)");
    return r;
  }
  int on_finished(cotask::impl::task_impl &) override {
    CHECK(p.e->probes.count(&p), "(completion callback of a destroyed action)");
    ++p.e->on_fin;
    CHECK_EQ(p.e->on_fin, 1, "(completion callback)");
    return 0;
  }
};

template <class P>
struct EntT : public Ent {
  std::vector<P> ptrs;
  void add_ref() override {
    ptrs.push_back(ptrs.back());
    ++refs;
  }
  void drop_ref() override {
    --refs;
    ptrs.pop_back();
  }
  size_t use_count() override { return ptrs.back()->use_count(); }
};
template <class A>
struct CoEnt : public EntT<typename copp::coroutine_context_container<A>::ptr_type> {
  void enter() override { CHECK_EQ(this->ptrs.back()->resume(), 0, "(resume)"); }
  void end(bool) override {}
  void yield() override { CHECK_EQ(this->ptrs.back()->yield(), 0, "(yield)"); }
  bool finished() override { return this->ptrs.back()->is_finished(); }
};
template <class A>
struct TaskEnt : public EntT<typename cotask::task<Macro<A>>::ptr_type> {
  void enter() override { CHECK_EQ(this->ptrs.back()->resume(), 0, "(resume)"); }
  void end(bool kill) override {
    int rc = kill ? this->ptrs.back()->kill() : this->ptrs.back()->cancel();
    CHECK_EQ(rc, 0, "(kill or cancel)");
  }
  void yield() override { CHECK_EQ(copp::this_coroutine::yield(), 0, "(yield)"); }
  bool finished() override { return this->ptrs.back()->is_completed(); }
};

bool overlap(const Range &a, const Range &b) { return a.lo < b.hi && b.lo < a.hi; }

void check_layout(Ent *e, size_t actual, const char *what) {
  for (int i = 0; i < e->nparts; ++i) {
    const Range &r = e->parts[i];
    CHECK(r.lo >= e->base && r.hi <= e->top, "(%s of a %s lies outside its stack: [-%zd, -%zd) of %zu)", r.what, what,
          static_cast<ssize_t>(e->top - r.lo), static_cast<ssize_t>(e->top - r.hi), actual);
    for (int j = 0; j < i; ++j)
      CHECK(!overlap(r, e->parts[j]), "(%s and %s of a %s overlap)", r.what, e->parts[j].what, what);
  }
  for (auto &q : W->ents) {
    if (q->gone) continue;
    CHECK(e->top <= q->base || q->top <= e->base, "(two live stacks overlap)");
  }
  e->low = e->top;
  for (int i = 0; i < e->nparts; ++i) e->low = std::min(e->low, e->parts[i].lo);
}
void add_part(Ent *e, const char *what, const void *p, size_t n, size_t align) {
  CHECK(reinterpret_cast<uintptr_t>(p) % align == 0, "(%s is not aligned)", what);
  e->parts[e->nparts].lo = reinterpret_cast<uintptr_t>(p);
  e->parts[e->nparts].hi = reinterpret_cast<uintptr_t>(p) + n;
  e->parts[e->nparts].what = what;
  ++e->nparts;
}

size_t aU(size_t n) {  // the unit the library rounds object sizes to
  size_t u = copp::coroutine_context::align_address_size(1);
  return (n + u - 1) / u * u;
}
size_t a64(size_t n) { return (n + 63) & ~static_cast<size_t>(63); }

struct Req {
  size_t stack = 0, priv = 0, ext = 0;
  size_t cls = 0;  // callable size class
  bool huge = false;
};
size_t gen_size(pbt::Ctx &c, size_t around) {
  switch (c.weighted({4, 3, 2, 2})) {
    case 0:
      return static_cast<size_t>(c.range(0, 64));
    case 1:
      return static_cast<size_t>(c.range(0, 3000));
    case 2:
      return static_cast<size_t>(c.range(0, 120000));
    default:
      return around > 400 ? around - 400 + static_cast<size_t>(c.range(0, 600)) : 0;
  }
}

// what the allocator will answer for a request: 0 = refuse
template <class A, class F>
void do_create(A &alloc, size_t actual_if_ok, bool will_fail, Req rq, bool task, F on_stack) {
  using co = copp::coroutine_context_container<A>;
  using tk = cotask::task<Macro<A>>;
  size_t requested = rq.stack ? rq.stack : copp::stack_traits::default_size();
  auto in_use = []() { return track().live.size() - W->pool->get_limit().free_stack_number; };
  size_t live0 = in_use();
  // recorded finding: with at most 71 bytes left for the frames the initial context does not fit either
  auto no_room_for_a_context = [&](size_t sum) {
    return !rq.huge && !will_fail && actual_if_ok > a64(sum) && actual_if_ok - a64(sum) < 128;
  };
  auto expect = [&](size_t sum, bool got, const char *what) {
    // sum: bytes needed beside the frames
    bool must_fail = rq.huge || will_fail || actual_if_ok <= a64(sum);
    bool must_work = !must_fail && requested > sum + 64;
    W->c.log("create %s: stack %zu (gets %zu%s), private %zu, ext %zu, class %zu -> %s", what, rq.stack, actual_if_ok,
             will_fail ? ", fails" : "", rq.priv, rq.ext, rq.cls, got ? "created" : "refused");
    if (must_fail) CHECK(!got, "(a %s was created although its stack is too small or its allocation failed)", what);
    if (must_work) CHECK(got, "(a %s was refused although everything fits)", what);
    if (!got) {
      ++W->failed;
      CHECK_EQ(in_use(), live0, "(stacks kept by a failed creation)");
    }
  };
  auto finish = [&](std::unique_ptr<Ent> e, size_t sum, const char *what, const copp::stack_context *) {
    e->id = static_cast<int>(W->ents.size()) + 1;
    e->refs = 1;
    on_stack(*e);
    check_layout(e.get(), e->top - e->base, what);
    e->runnable = e->low - e->base >= 96 * 1024;
    if (e->low - e->base < 256) e->runnable = false;
    e->fill();
    (void)sum;
    ++W->created;
    if (rq.priv % 16 || rq.ext % 16 || rq.stack % 64) ++W->odd;
    W->ents.push_back(std::move(e));
  };
  if (!task) {
    std::unique_ptr<CoEnt<A>> e(new CoEnt<A>());
    Ent *raw = e.get();
    typename co::callback_type cb;
    switch (rq.cls) {
      case 0: cb = Fn<8>(raw); break;
      case 1: cb = Fn<200>(raw); break;
      default: cb = Fn<3000>(raw); break;
    }
    size_t sum = aU(rq.priv) + aU(sizeof(co)) + aU(rq.ext);
    if (no_room_for_a_context(sum)) return;
    auto p = co::create(std::move(cb), alloc, rq.stack, rq.priv, rq.ext);
    expect(sum, !!p, "coroutine");
    if (!p) {
      cb = nullptr;
      CHECK_EQ(raw->probes.size(), 0u, "(callable leaked by a failed creation)");
      return;
    }
    raw->priv = rq.priv;
    raw->pb = static_cast<unsigned char *>(p->get_private_buffer());
    CHECK(p->get_private_buffer_size() >= rq.priv, "(private buffer of %zu bytes for a request of %zu)",
          p->get_private_buffer_size(), rq.priv);
    add_part(raw, "object", p.get(), sizeof(co), 16);
    add_part(raw, "private buffer", raw->pb, p->get_private_buffer_size(), 16);
    raw->ext_size = rq.ext;
    raw->ext = reinterpret_cast<unsigned char *>(p.get()) - aU(rq.ext);
    add_part(raw, "extension", raw->ext, rq.ext, 16);
    raw->top = reinterpret_cast<uintptr_t>(raw->pb) + p->get_private_buffer_size();
    e->ptrs.push_back(std::move(p));
    finish(std::move(e), sum, "coroutine", nullptr);
  } else {
    std::unique_ptr<TaskEnt<A>> e(new TaskEnt<A>());
    Ent *raw = e.get();
    raw->is_task = true;
    typename tk::ptr_type p;
    size_t asz = rq.cls == 0 ? sizeof(Act<8>) : rq.cls == 1 ? sizeof(Act<200>) : sizeof(Act<3000>);
    size_t sum = aU(rq.priv + sizeof(void *)) + aU(sizeof(co)) + aU(sizeof(tk)) + aU(asz);
    if (no_room_for_a_context(sum)) return;
    switch (rq.cls) {
      case 0: p = tk::create(Act<8>(raw), alloc, rq.stack, rq.priv); break;
      case 1: p = tk::create(Act<200>(raw), alloc, rq.stack, rq.priv); break;
      default: p = tk::create(Act<3000>(raw), alloc, rq.stack, rq.priv); break;
    }
    expect(sum, !!p, "task");
    if (!p) {
      CHECK_EQ(raw->probes.size(), 0u, "(action leaked by a failed creation)");
      return;
    }
    raw->priv = rq.priv;
    raw->pb = static_cast<unsigned char *>(p->get_private_buffer());
    CHECK(p->get_private_buffer_size() >= rq.priv, "(private buffer of %zu bytes for a request of %zu)",
          p->get_private_buffer_size(), rq.priv);
    auto &c0 = p->get_coroutine_context();
    add_part(raw, "coroutine", c0.get(), sizeof(co), 16);
    add_part(raw, "task", p.get(), sizeof(tk), 16);
    add_part(raw, "private buffer", raw->pb, p->get_private_buffer_size(), 8);
    add_part(raw, "action", p->get_raw_action(), asz, 16);
    add_part(raw, "task pointer", c0->get_private_buffer(), sizeof(void *), 16);
    raw->top = reinterpret_cast<uintptr_t>(raw->pb) + p->get_private_buffer_size();
    e->ptrs.push_back(std::move(p));
    finish(std::move(e), sum, "task", nullptr);
  }
}

void create(pbt::Ctx &c) {
  if (W->ents.size() >= 6) return;
  Req rq;
  bool task = c.coin();
  rq.cls = c.pick(3);
  static const size_t stacks[] = {160 * 1024, 0, 256 * 1024 + 8};
  switch (c.weighted({5, 3, 1})) {
    case 0: rq.stack = stacks[c.pick(3)]; break;
    case 1: rq.stack = static_cast<size_t>(c.range(1, 200000)); break;
    default: rq.stack = std::numeric_limits<size_t>::max() - static_cast<size_t>(c.range(0, 9000)); break;
  }
  rq.priv = gen_size(c, rq.stack);
  if (!task) rq.ext = c.coin() ? gen_size(c, 0) : 0;
  if (c.chance(1, 16)) {
    rq.huge = true;  // more than can exist
    rq.priv = std::numeric_limits<size_t>::max() - static_cast<size_t>(c.range(0, 700));
  }
  if (rq.priv > (static_cast<size_t>(1) << 40)) rq.huge = true;
  size_t req = rq.stack ? rq.stack : copp::stack_traits::default_size();
  auto &t = track();
  switch (c.weighted({4, 3, 3, 2})) {
    case 0: {  // asked size, or a little more, or failing
      TrackAlloc al;
      t.extra = c.chance(1, 3) ? static_cast<size_t>(c.range(0, 5000)) : 0;
      bool fail = c.chance(1, 6);
      t.fail_in = fail ? 1 : 0;
      bool too_big = req > (static_cast<size_t>(1) << 40);
      size_t got = too_big ? 0 : (req + t.extra + 63) & ~static_cast<size_t>(63);
      do_create(al, got, fail || too_big, rq, task, [&](Ent &e) {
        auto it = t.live.find(reinterpret_cast<void *>(e.top));
        CHECK(it != t.live.end(), "(the private buffer does not end at the stack's end)");
        e.base = e.top - it->second.size;
      });
      t.extra = 0;
      t.fail_in = 0;
      // the allocator still works
      if (c.chance(1, 4)) {
        copp::stack_context ctx;
        al.allocate(ctx, 4096);
        CHECK(ctx.sp, "(allocator unusable)");
        al.deallocate(ctx);
      }
      break;
    }
    case 1: {  // one size whatever was asked
      TrackAlloc al;
      t.fixed = (c.coin() ? 160 * 1024 : static_cast<size_t>(c.range(16, 3000)) * 64) & ~static_cast<size_t>(63);
      size_t got = t.fixed;
      do_create(al, got, false, rq, task, [&](Ent &e) {
        auto it = t.live.find(reinterpret_cast<void *>(e.top));
        CHECK(it != t.live.end(), "(the private buffer does not end at the stack's end)");
        e.base = e.top - it->second.size;
      });
      t.fixed = 0;
      break;
    }
    case 2: {
      PoolAlloc al(W->pool);
      bool fail = c.chance(1, 6) && W->pool->get_limit().free_stack_number == 0;
      t.fail_in = fail ? 1 : 0;
      size_t got = W->pool->get_stack_size();
      size_t used0 = W->pool->get_limit().used_stack_number;
      do_create(al, got, fail, rq, task, [&](Ent &e) { e.base = e.top - got; });
      t.fail_in = 0;
      size_t used1 = W->pool->get_limit().used_stack_number;
      CHECK(used1 == used0 || used1 == used0 + 1, "(pool)");
      break;
    }
    default: {
      std::vector<World::Mem *> v;
      for (auto &m : W->mems)
        if (!m->in_use) v.push_back(m.get());
      if (v.empty()) break;
      World::Mem *m = c.one_of(v);
      size_t page = copp::stack_traits::page_size();
      size_t got = std::max(req, copp::stack_traits::minimum_size());
      got = std::min(got, m->size);
      got = (got + page - 1) / page * page;
      if (got > m->size) got = m->size / page * page;
      size_t before = W->ents.size();
      do_create(m->alloc, got, false, rq, task, [&](Ent &e) {
        e.base = reinterpret_cast<uintptr_t>(m->raw);
        CHECK(e.top > e.base && e.top <= e.base + m->size, "(stack outside the attached memory)");
      });
      if (W->ents.size() > before) {
        m->in_use = true;
      } else {
        // the buffer is free again
        copp::stack_context ctx;
        m->alloc.allocate(ctx, 65536);
        CHECK(ctx.sp, "(the user memory is still taken after a failed creation)");
        m->alloc.deallocate(ctx);
      }
      break;
    }
  }
}

void drop(Ent *e) {
  W->c.log("drop a reference of %d (%zu, state %d)", e->id, e->refs, e->st);
  if (e->refs > 1) {
    e->drop_ref();
    return;
  }
  if (e->st == 1 && e->is_task) e->ending = true;
  bool others = false;
  for (auto &q : W->ents) others = others || (!q->gone && q.get() != e);
  if (others) ++W->drop_live;
  ++W->dropped;
  bool pend = e->is_task && e->st == 1;
  e->gone = !pend;  // a suspended task runs to its end inside the release
  int st = e->st;
  e->drop_ref();
  e->gone = true;
  if (pend) CHECK_EQ(e->st, 3, "(a suspended task was dropped without running to its end)");
  if (!pend) CHECK_EQ(e->st, st, "(dropping ran the body)");
  CHECK_EQ(e->probes.size(), 0u, "(the callable of %d was not destroyed with it)", e->id);
  if (e->is_task) CHECK_EQ(e->on_fin, e->st == 3 ? 1 : 0, "(completion callback)");
}

void program(Ent *self, int depth) {
  auto &c = W->c;
  verify_all();
  std::vector<Ent *> live;
  for (auto &p : W->ents)
    if (!p->gone) live.push_back(p.get());
  switch (c.weighted({5, 5, 2, 4, 2})) {
    case 0:
      if (!self) create(c);
      break;
    case 1: {
      std::vector<Ent *> v;
      for (Ent *e : live)
        if (e->runnable && (e->st == 0 || e->st == 1) && !e->ending) v.push_back(e);
      if (v.empty() || W->chain.size() > 3) break;
      Ent *e = c.one_of(v);
      c.log("enter %d", e->id);
      e->enter();
      break;
    }
    case 2: {
      if (live.empty()) break;
      c.one_of(live)->add_ref();
      break;
    }
    case 3: {
      if (live.empty()) break;
      Ent *e = c.one_of(live);
      if (e->refs == 1 && e->st == 2) break;  // never the last reference of somebody who runs
      if (e->refs == 1 && e->is_task && e->st == 1 && W->chain.size() > 3) break;
      drop(e);
      break;
    }
    default: {
      std::vector<Ent *> v;
      for (Ent *e : live)
        if (e->runnable && e->is_task && (e->st == 0 || e->st == 1) && !e->ending) v.push_back(e);
      if (v.empty() || W->chain.size() > 3) break;
      Ent *e = c.one_of(v);
      e->ending = true;
      bool kill = c.coin();
      c.log("%s %d", kill ? "kill" : "cancel", e->id);
      e->end(kill);
      CHECK_EQ(e->st, 3, "(killed task is not finished)");
      break;
    }
  }
  (void)depth;
  verify_all();
}
}  // namespace

void pbt::setup_process() {}

// coroutine_context::create() over memory of the caller: it is refused exactly when the parts do not fit into it
struct Bare : public copp::coroutine_context {
  Bare() {}
};
static void direct(pbt::Ctx &c) {
  constexpr size_t S = sizeof(Bare);
  const size_t total = 192 * 1024;
  static char *raw = nullptr;
  if (!raw && posix_memalign(reinterpret_cast<void **>(&raw), 4096, total + 8192)) abort();
  memset(raw, 0x6b, total + 8192);
  char *lo = raw + 4096, *sp = lo + total;
  size_t csize = (S + 63) / 64 * 64 + 64 * c.draw(40), priv = 64 * c.draw(60);
  bool bad_priv = c.chance(1, 8), bad_csize = c.chance(1, 8);
  if (bad_priv) priv += 1 + c.draw(7);
  if (bad_csize) csize += 1 + c.draw(7);
  bool small = c.chance(1, 8);
  if (small) csize = c.coin() ? S - 8 * (1 + c.draw(S / 8)) : 0;
  copp::stack_context st;
  st.sp = sp;
  st.size = total;
  bool no_sp = c.chance(1, 10), no_room = c.chance(1, 6), no_obj = c.chance(1, 12);
  if (no_sp) st.sp = nullptr;
  if (no_room) st.size = c.draw(priv + csize + 1);
  // where the object is: between the private buffer and the frames, or wrong
  size_t off = (priv + 7) / 8 * 8 + S;
  int where = static_cast<int>(c.weighted({6, 2, 2, 1}));
  size_t slack = csize >= S + 8 ? csize - S - (bad_priv ? 8 : 0) : 0;
  bool bad_off = false;
  if (where == 0) {
    off += c.coin() ? 0 : slack / 8 * 8;
  } else if (where == 1) {  // reaches into the private buffer
    off -= 8 * (1 + c.draw((off - 8) / 8));
    bad_off = true;
  } else if (where == 2) {  // below its part
    off = (priv + csize + 7) / 8 * 8 + 64 + 8 * c.draw(64);
    bad_off = true;
  }
  bool above = where == 3;
  alignas(64) static unsigned char elsewhere[S + 64];
  char *at = above ? (c.coin() ? sp : sp + 64) : sp - off;
  if (small) at = reinterpret_cast<char *>(elsewhere);  // refused before the place matters
  bool must_fail = bad_priv || bad_csize || small || no_sp || no_room || no_obj || bad_off || above;
  Bare *b = new (static_cast<void *>(at)) Bare();
  std::vector<char> before(raw, raw + total + 8192);
  int ran = 0;
  char *seen = nullptr;
  int rc = Bare::create(no_obj ? nullptr : b, Bare::callback_type([&](void *) {
                          volatile char frame[3000];
                          seen = const_cast<char *>(&frame[0]);
                          for (size_t i = 0; i < sizeof(frame); ++i) frame[i] = 1;
                          ++ran;
                          copp::this_coroutine::yield();
                          ++ran;
                          return 9;
                        }),
                        st, csize, priv);
  c.log("create in place: object %zu (at %zu) private %zu stack %zu%s -> %d", csize, off, priv, st.size,
        no_sp ? " without memory" : no_obj ? " without an object" : "", rc);
  if (must_fail) {
    CHECK(rc < 0, "(a coroutine was created although its parts do not fit)");
    CHECK(memcmp(before.data(), raw, before.size()) == 0, "(a refused creation wrote into the memory)");
    c.label("direct-refused");
  } else {
    CHECK_EQ(rc, 0);
    CHECK_EQ(b->get_private_buffer_size(), priv);
    char *pb = static_cast<char *>(b->get_private_buffer());
    CHECK(pb + priv <= sp && pb >= at + S, "(the private buffer is not above the object)");
    memset(pb, 0x77, priv);
    CHECK_EQ(b->start(), 0);
    CHECK_EQ(ran, 1);
    CHECK(seen >= lo && seen + 3000 <= sp - priv - csize, "(the frames reach into the object's part)");
    for (size_t i = 0; i < priv; ++i) CHECK(pb[i] == 0x77, "(the private buffer changed)");
    CHECK_EQ(b->resume(), 0);
    CHECK_EQ(ran, 2);
    CHECK(b->is_finished() && b->get_ret_code() == 9);
    for (size_t i = 0; i < 4096; ++i)
      CHECK(raw[i] == 0x6b && sp[i] == 0x6b, "(memory outside of the stack was written)");
    c.label("direct-created");
  }
  b->~Bare();
  c.nontrivial();
}

// then(callable) creates the follower with the allocator, stack size and private buffer size of the task it follows
namespace {
struct ChainStep {
  static std::vector<int> *order;
  static int live;
  int id;
  explicit ChainStep(int i) : id(i) { ++live; }
  ChainStep(const ChainStep &o) : id(o.id) { ++live; }
  ~ChainStep() { --live; }
  int operator()(void *priv) {
    CHECK(priv == reinterpret_cast<void *>(static_cast<uintptr_t>(id * 8)), "(follower %d got another argument)", id);
    order->push_back(id);
    return id;
  }
};
std::vector<int> *ChainStep::order = nullptr;
int ChainStep::live = 0;
int chain_plain(void *priv) {
  ChainStep::order->push_back(static_cast<int>(reinterpret_cast<uintptr_t>(priv) / 8));
  return 0;
}
void chained(pbt::Ctx &c) {
  using tk = cotask::task<Macro<PoolAlloc>>;
  track().reset();
  std::vector<int> order, want;
  ChainStep::order = &order;
  ChainStep::live = 0;
  auto pool = pool_t::create();
  size_t stack = (80 + 16 * static_cast<size_t>(c.pick(4))) * 1024;
  pool->set_stack_size(stack);
  size_t priv = static_cast<size_t>(c.range(0, 700));
  {
    PoolAlloc al(pool);
    std::vector<tk::ptr_type> all;
    std::vector<std::vector<int>> next;
    std::vector<bool> done;
    all.push_back(tk::create(ChainStep(0), al, stack, priv));
    CHECK(all[0], "(creation failed)");
    next.emplace_back();
    done.push_back(false);
    int n = static_cast<int>(c.range(1, 6));
    auto run = [&](auto &self, int i) -> void {  // the order in which they have to run
      want.push_back(i);
      done[static_cast<size_t>(i)] = true;
      for (int k : next[static_cast<size_t>(i)])
        if (!done[static_cast<size_t>(k)]) self(self, k);
    };
    for (int i = 1; i <= n; ++i) {
      size_t p = static_cast<size_t>(c.draw(static_cast<uint64_t>(i)));
      if (c.chance(1, 6) && !done[0]) {
        c.log("start 0");
        run(run, 0);
        CHECK_EQ(all[0]->start(nullptr), 0);
        CHECK(order == want, "(followers ran in another order)");
      }
      if (done[p] && c.coin()) p = 0;
      bool fin = done[p];
      size_t used = pool->get_limit().used_stack_number;
      void *arg = reinterpret_cast<void *>(static_cast<uintptr_t>(i * 8));
      bool plain = c.chance(1, 3);
      c.log("%d runs after %zu%s%s", i, p, plain ? ", a function" : "", fin ? ", which has ended" : "");
      tk::ptr_type t = plain ? all[p]->then(chain_plain, arg) : all[p]->then(ChainStep(i), arg);
      CHECK(t && t != all[p], "(the follower was not created)");
      CHECK_EQ(pool->get_limit().used_stack_number, used + 1, "(stacks of the pool after a follower was created)");
      CHECK(t->get_private_buffer_size() >= priv, "(private buffer of %zu bytes, the task it follows has %zu)",
            t->get_private_buffer_size(), priv);
      all.push_back(t);
      next.emplace_back();
      done.push_back(false);
      next[p].push_back(i);
      if (fin) run(run, i);
      CHECK(order == want, "(followers ran in another order)");
    }
    if (!done[0]) {
      run(run, 0);
      CHECK_EQ(all[0]->start(nullptr), 0);
    }
    CHECK(order == want, "(followers ran in another order)");
    for (auto &t : all) CHECK(t->is_completed(), "(a follower did not run)");
    c.nontrivial();
    c.label("followers created by then()");
  }
  CHECK_EQ(ChainStep::live, 0, "(callables of followers left)");
  CHECK_EQ(pool->get_limit().used_stack_number, 0u, "(pool stacks in use)");
  pool.reset();
  CHECK_EQ(track().live.size(), 0u, "(stacks left)");
  ChainStep::order = nullptr;
}
}  // namespace

void pbt::run_case(Ctx &c) {
  switch (c.weighted({76, 2, 2})) {
    case 1:
      direct(c);
      return;
    case 2:
      chained(c);
      return;
    default:
      break;
  }
  track().reset();
  {
    World w(c);
    W = &w;
    w.pool = pool_t::create();
    static const size_t psz[] = {160 * 1024, 64 * 1024, 256 * 1024};
    w.pool->set_stack_size(psz[c.pick(3)]);
    for (int i = 0; i < 2; ++i) {
      std::unique_ptr<World::Mem> m(new World::Mem{nullptr, MemAlloc(), 0});
      m->size = c.coin() ? 192 * 1024 : static_cast<size_t>(c.range(13 * 4096, 60 * 4096));
      void *p = nullptr;
      if (posix_memalign(&p, 64, m->size)) abort();
      m->raw = static_cast<char *>(p);
      m->alloc.attach(p, m->size);
      w.mems.push_back(std::move(m));
    }
    create(c);
    Loop loop(c, 14, 50);
    while (w.budget > 0 && loop.next()) {
      --w.budget;
      program(nullptr, 0);
    }
    w.budget = 0;
    for (auto &p : w.ents)
      while (!p->gone) drop(p.get());
    CHECK_EQ(w.pool->get_limit().used_stack_number, 0u, "(pool stacks in use)");
    w.pool.reset();
    CHECK_EQ(track().live.size(), 0u, "(stacks left)");
    CHECK_EQ(track().allocated, track().released, "(stacks)");
    for (auto &m : w.mems) free(m->raw);
    if ((w.odd && w.drop_live) || w.failed) c.nontrivial();
    if (w.failed) c.label("creation failed");
    if (w.drop_live) c.label("dropped beside others");
    if (w.ran) c.label("ran");
    W = nullptr;
  }
}

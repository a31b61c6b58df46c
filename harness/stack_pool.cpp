// C06: the stack pool against a reference model.
// Single-threaded cases: a generated history of configuration changes, allocations, releases, collections, size changes
// and origin-allocator failures, compared after every step with a model of the pool.  Threaded cases (also built with
// ThreadSanitizer): several threads allocate, write, check and release stacks of one pool.
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/stack_pool.h>

#include <atomic>
#include <deque>
#include <functional>
#include <mutex>

#include "common.h"
#include "preempt.h"

const pbt::HarnessInfo pbt::info = {
    "stack_pool",
    "a case is a history of pool operations (allocate, release in any order, collect, reconfigure, change stack size, "
    "origin allocator failures, drop pool handles, coroutines on pooled stacks) checked step by step against a model; "
    "non-trivial when a cached stack was reused and something was given back to the origin allocator, or a maximum "
    "refused a request, or threads shared the pool",
#ifdef VP_TSAN
    true,
#else
    false,
#endif
    20};
void pbt::setup_process() {}

namespace {
struct Origin {
  struct Blk {
    char *base;
    size_t size;
  };
  std::mutex mu;
  std::map<void *, Blk> live;
  size_t allocs = 0, frees = 0, calls = 0;
  long fail_in = 0;
  size_t round = 64, extra = 0;
  size_t last_request = 0;
  void reset() {
    for (auto &kv : live) free(kv.second.base);
    live.clear();
    allocs = frees = calls = 0;
    fail_in = 0;
    round = 64;
    extra = 0;
  }
  size_t real(size_t s) const { return (s + round - 1) / round * round + extra; }
};
Origin &og() {
  static Origin o;
  return o;
}
struct OriginAlloc {
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    sched::Books books;
    Origin &o = og();
    std::lock_guard<std::mutex> g(o.mu);
    ++o.calls;
    o.last_request = size;
    if (o.fail_in > 0 && --o.fail_in == 0) {
      ctx.sp = nullptr;  // as the allocators of the library: a failure is a null stack pointer, whatever the size says
      return;
    }
    size_t n = o.real(size);
    char *p = nullptr;
    if (posix_memalign(reinterpret_cast<void **>(&p), 64, n) != 0) abort();
    ctx.size = n;
    ctx.sp = p + n;
    ++o.allocs;
    o.live[ctx.sp] = Origin::Blk{p, n};
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    sched::Books books;
    Origin &o = og();
    std::lock_guard<std::mutex> g(o.mu);
    auto it = o.live.find(ctx.sp);
    if (it == o.live.end()) pbt::cur().fail("the pool released a stack that is not outstanding at its allocator");
    if (it->second.size != ctx.size) pbt::cur().fail("the pool released a stack with a changed size");
    ++o.frees;
    free(it->second.base);
    o.live.erase(it);
  }
};
using Pool = copp::stack_pool<OriginAlloc>;
using PoolAlloc = copp::allocator::stack_allocator_pool<Pool>;
using Co = copp::coroutine_context_container<PoolAlloc>;

constexpr uint64_t kTag = 0x51ac6b00beef0000ull;

struct Held {
  copp::stack_context ctx;
  uint64_t tag = 0;
  typename Co::ptr_type co;  // the stack is owned by a coroutine
  size_t size = 0;
};

void stamp(Held &h, uint64_t tag) {
  h.tag = kTag + tag;
  char *lo = static_cast<char *>(h.ctx.sp) - h.ctx.size;
  memcpy(lo, &h.tag, 8);
  memcpy(lo + h.ctx.size / 2 / 8 * 8, &h.tag, 8);
  memcpy(static_cast<char *>(h.ctx.sp) - 8, &h.tag, 8);
}
bool intact(Held &h) {
  char *lo = static_cast<char *>(h.ctx.sp) - h.ctx.size;
  return memcmp(lo, &h.tag, 8) == 0 && memcmp(lo + h.ctx.size / 2 / 8 * 8, &h.tag, 8) == 0 &&
         memcmp(static_cast<char *>(h.ctx.sp) - 8, &h.tag, 8) == 0;
}

struct Model {
  size_t used_n = 0, used_b = 0, free_n = 0, free_b = 0;
  std::deque<copp::stack_context> cached;  // back is the most recent
  size_t max_n = 0, max_b = 0, min_n = 0, min_b = 0, gc_n = 0;
  bool auto_gc = true;
  size_t stack_size = 0;
  size_t off = 0;  // of the latest allocation
};

void single(pbt::Ctx &c) {
  Origin &o = og();
  o.reset();
  switch (c.weighted({4, 2, 2, 1})) {
    case 1: o.round = 4096; break;
    case 2: o.round = 4096; o.extra = 4096; break;
    case 3: o.extra = 64; break;
    default: break;
  }
  Pool::ptr_type pool = Pool::create();
  Pool *raw = pool.get();
  Model m;
  m.stack_size = copp::stack_traits::default_size();
  CHECK_EQ(pool->get_stack_size(), m.stack_size);
  const size_t page = copp::stack_traits::page_size();
  std::vector<Held> held;
  uint64_t next_tag = 1;
  bool reused = false, gave_back = false, refused = false;
  auto verify = [&](const char *where) {
    const auto &l = raw->get_limit();
    if (l.used_stack_number != m.used_n || l.used_stack_size != m.used_b || l.free_stack_number != m.free_n ||
        l.free_stack_size != m.free_b)
      c.fail("after %s: used %zu/%zu free %zu/%zu, but %zu/%zu handed out and %zu/%zu cached", where,
             l.used_stack_number, l.used_stack_size, l.free_stack_number, l.free_stack_size, m.used_n, m.used_b,
             m.free_n, m.free_b);
    if (o.live.size() != m.used_n + m.free_n)
      c.fail("after %s: %zu stacks are outstanding at the allocator, %zu expected", where, o.live.size(),
             m.used_n + m.free_n);
  };
  auto drop_cached_front = [&] {
    copp::stack_context x = m.cached.front();
    m.cached.pop_front();
    --m.free_n;
    m.free_b -= x.size;
    gave_back = true;
    CHECK(o.live.find(x.sp) == o.live.end(), "(a cached stack was not given back)");
  };
  auto model_gc = [&]() -> size_t {
    size_t n = 0;
    if (m.used_b >= m.free_b && m.used_n >= m.free_n) return 0;
    if (m.min_b || m.min_n) {
      bool a = m.min_b == 0 || m.used_b + m.free_b <= m.min_b;
      bool b = m.min_n == 0 || m.used_n + m.free_n <= m.min_n;
      if (a && b) return 0;
    }
    size_t kb = m.free_b / 2, kn = m.free_n / 2;
    while (m.free_b > kb || m.free_n > kn) {
      drop_cached_front();
      ++n;
      if (m.gc_n && n == m.gc_n) break;
    }
    return n;
  };
  auto model_release = [&](const copp::stack_context &x) {
    --m.used_n;
    m.used_b -= x.size;
    if (x.size == m.stack_size + m.off) {
      m.cached.push_back(x);
      ++m.free_n;
      m.free_b += x.size;
    } else {
      gave_back = true;
      CHECK(o.live.find(x.sp) == o.live.end(), "(a stack of another size must be given back)");
    }
    if (m.auto_gc) model_gc();
    for (auto &k : m.cached) CHECK(o.live.find(k.sp) != o.live.end(), "(a cached stack was given back)");
  };
  // what an allocation must do: true if it must succeed
  // tolerant between stack_size and stack_size+off against the byte limit
  auto predict = [&](bool *may, bool *must) {
    bool nfull = m.max_n && m.used_n >= m.max_n;
    bool bfull_min = m.max_b && m.used_b + m.stack_size > m.max_b;
    size_t will = m.cached.empty() ? o.real(m.stack_size) : m.cached.back().size;
    bool bfull_max = m.max_b && m.used_b + will > m.max_b;
    *may = !nfull && !bfull_min;
    *must = !nfull && !bfull_max;
  };
  auto model_alloc_ok = [&](const copp::stack_context &x, size_t calls_before) {
    if (!m.cached.empty()) {
      CHECK(o.calls == calls_before, "(a cached stack must be reused before the allocator is asked)");
      CHECK(x.sp == m.cached.back().sp || [&] {
        for (auto &k : m.cached)
          if (k.sp == x.sp) return true;
        return false;
      }(), "(the stack handed out is not a cached one)");
      for (auto it = m.cached.begin(); it != m.cached.end(); ++it)
        if (it->sp == x.sp) {
          CHECK_EQ(it->size, x.size);
          m.cached.erase(it);
          break;
        }
      --m.free_n;
      m.free_b -= x.size;
      reused = true;
    } else {
      CHECK_EQ(o.calls, calls_before + 1);
      CHECK_EQ(o.last_request, m.stack_size);
      m.off = x.size - m.stack_size;
    }
    ++m.used_n;
    m.used_b += x.size;
    CHECK(x.size >= m.stack_size, "(smaller than the configured stack size)");
    CHECK(o.live.find(x.sp) != o.live.end(), "(a stack that is not allocated was handed out)");
  };
  auto set_size = [&](size_t sz) {
    size_t want = sz <= copp::stack_traits::minimum_size() ? copp::stack_traits::minimum_size()
                                                            : (sz + page - 1) / page * page;
    c.log("set_stack_size(%zu)", sz);
    size_t got = raw->set_stack_size(sz);
    CHECK_EQ(got, want);
    CHECK_EQ(raw->get_stack_size(), want);
    if (want != m.stack_size)
      while (!m.cached.empty()) drop_cached_front();
    m.stack_size = want;
  };
  const size_t mn = copp::stack_traits::minimum_size();
  const size_t kSizes[] = {4096, mn + 1, mn + page, mn, mn - 1, 2 * mn, mn + 3 * page, 65536, 65537};
  if (c.chance(7, 8)) set_size(kSizes[c.pick(9)]);
  pbt::Loop loop(c, 22, 90);
  while (loop.next()) {
    switch (c.weighted({8, 8, 2, 1, 1, 2, 1, 0, 3, 1})) {
      case 0: {  // allocate
        size_t calls = o.calls;
        bool inject = c.chance(1, 12);
        if (inject) o.fail_in = 1;
        bool may, must;
        predict(&may, &must);
        Held h;
        h.ctx.size = 77;
        h.ctx.sp = &h;  // left over from an earlier use
        if (c.coin() && pool) {
          PoolAlloc pa(pool);
          pa.allocate(h.ctx, c.draw(100000));
        } else {
          raw->allocate(h.ctx);
        }
        bool used_injection = inject && o.fail_in == 0;
        o.fail_in = 0;
        c.log("allocate -> %s size %zu%s", h.ctx.sp ? "ok" : "null", h.ctx.size, used_injection ? " (injected)" : "");
        if (!h.ctx.sp) {
          if (used_injection) {
            CHECK(m.cached.empty(), "(the allocator was asked although a stack was cached)");
            CHECK(may, "(the allocator was asked although a maximum was reached)");
          } else {
            refused = true;
            CHECK(!must, "(allocation refused although no maximum would be exceeded)");
            CHECK_EQ(o.calls, calls);
          }
        } else {
          CHECK(may, "(allocation must be refused: a maximum would be exceeded)");
          for (auto &k : held) CHECK(k.ctx.sp != h.ctx.sp, "(the same stack is handed out twice)");
          model_alloc_ok(h.ctx, calls);
          h.size = h.ctx.size;
          stamp(h, next_tag++);
          held.push_back(h);
        }
        break;
      }
      case 1: {  // release
        if (held.empty()) break;
        size_t i = c.coin() ? held.size() - 1 : c.pick(held.size());
        Held h = held[i];
        if (h.co && !pool) {
          size_t cos = 0;
          for (auto &k : held) cos += k.co ? 1 : 0;
          if (cos == 1) break;  // the last owner of the pool: left to the end of the case
        }
        held.erase(held.begin() + static_cast<long>(i));
        c.log("release #%zu (size %zu)%s", i, h.size, h.co ? " owned by a coroutine" : "");
        if (h.co) {
          copp::stack_context x = h.ctx;
          h.co.reset();
          model_release(x);
        } else {
          CHECK(intact(h), "(a stack in use was written by someone else)");
          copp::stack_context x = h.ctx;
          raw->deallocate(h.ctx);
          model_release(x);
        }
        break;
      }
      case 2: {
        size_t before = o.frees;
        size_t r = raw->gc();
        size_t want = model_gc();
        c.log("gc() -> %zu", r);
        CHECK_EQ(r, want);
        CHECK_EQ(o.frees - before, want);
        break;
      }
      case 3: {
        c.log("clear()");
        raw->clear();
        while (!m.cached.empty()) drop_cached_front();
        break;
      }
      case 4: set_size(kSizes[c.pick(9)]); break;
      case 5: {
        switch (c.pick(6)) {
          case 0:
            m.max_n = c.draw(6);
            raw->set_max_stack_number(m.max_n);
            CHECK_EQ(raw->get_max_stack_number(), m.max_n);
            c.log("max number %zu", m.max_n);
            break;
          case 1:
            m.max_b = c.coin() ? 0 : c.draw(8) * m.stack_size + (c.coin() ? 0 : c.draw(m.stack_size));
            raw->set_max_stack_size(m.max_b);
            CHECK_EQ(raw->get_max_stack_size(), m.max_b);
            c.log("max size %zu", m.max_b);
            break;
          case 2:
            m.min_n = c.draw(8);
            raw->set_min_stack_number(m.min_n);
            c.log("min number %zu", m.min_n);
            break;
          case 3:
            m.min_b = c.coin() ? 0 : c.draw(8) * m.stack_size;
            raw->set_min_stack_size(m.min_b);
            c.log("min size %zu", m.min_b);
            break;
          case 4:
            m.gc_n = c.draw(4);
            raw->set_gc_once_number(m.gc_n);
            c.log("gc once %zu", m.gc_n);
            break;
          default:
            m.auto_gc = c.coin();
            raw->set_auto_gc(m.auto_gc);
            CHECK(raw->is_auto_gc() == m.auto_gc);
            c.log("auto gc %d", m.auto_gc);
            break;
        }
        break;
      }
      case 6: {  // the user's handle of the pool goes away while coroutines keep it alive
        bool any = false;
        for (auto &h : held) any = any || h.co;
        if (!any || !pool) break;
        c.log("drop the pool handle");
        pool.reset();
        break;
      }
      case 8: {  // a coroutine on a pooled stack
        if (!pool) break;
        PoolAlloc pa(pool);
        size_t calls = o.calls;
        bool may, must;
        predict(&may, &must);
        std::map<void *, int> before;
        for (auto &kv : o.live) before[kv.first] = 1;
        for (auto &k : m.cached) before.erase(k.sp);
        uint64_t entered = 0;
        Held h;
        h.co = Co::create([&entered](void *) { return static_cast<int>(++entered); }, pa, 0, 64);
        c.log("coroutine on a pooled stack -> %s", h.co ? "ok" : "null");
        if (!h.co) {
          refused = true;
          CHECK(!must, "(a coroutine was refused a stack although no maximum would be exceeded)");
          break;
        }
        CHECK(may, "(allocation must be refused: a maximum would be exceeded)");
        // find its stack: the block that contains the object
        char *obj = reinterpret_cast<char *>(h.co.get());
        bool found = false;
        for (auto &kv : o.live)
          if (obj >= kv.second.base && obj < kv.second.base + kv.second.size) {
            h.ctx.sp = kv.first;
            h.ctx.size = kv.second.size;
            found = true;
          }
        CHECK(found, "(the coroutine does not lie in a stack of the pool)");
        for (auto &k : held) CHECK(k.ctx.sp != h.ctx.sp, "(the same stack is handed out twice)");
        model_alloc_ok(h.ctx, calls);
        h.size = h.ctx.size;
        if (c.coin()) {
          CHECK_EQ(h.co->start(), 0);
          CHECK_EQ(entered, 1u);
        }
        held.push_back(h);
        break;
      }
      default: {
        for (auto &h : held)
          if (!h.co) {
            CHECK(intact(h), "(a stack in use was written by someone else)");
            stamp(h, next_tag++);
          }
        break;
      }
    }
    verify("the step");
  }
  // the end: release some, then destroy the pool, which gives back every cached stack
  while (!held.empty()) {
    Held h = held.back();
    held.pop_back();
    bool last_co = false;
    if (h.co) {
      size_t cos = 0;
      for (auto &k : held) cos += k.co ? 1 : 0;
      last_co = cos == 0 && !pool;
      if (last_co) {
        // the coroutine is the last owner of the pool: hand back the plain stacks first
        for (auto &k : held) {
          CHECK(intact(k), "(a stack in use was written by someone else)");
          copp::stack_context x = k.ctx;
          raw->deallocate(k.ctx);
          model_release(x);
        }
        held.clear();
      }
      copp::stack_context x = h.ctx;
      h.co.reset();
      if (last_co) {
        raw = nullptr;
        CHECK(o.live.empty(), "(the pool was destroyed but %zu stacks were not given back)", o.live.size());
        break;
      }
      model_release(x);
    } else {
      CHECK(intact(h), "(a stack in use was written by someone else)");
      copp::stack_context x = h.ctx;
      raw->deallocate(h.ctx);
      model_release(x);
    }
    verify("a final release");
  }
  if (raw) {
    CHECK(pool.use_count() == 1, "(someone keeps the pool alive)");
    pool.reset();
    CHECK(o.live.empty(), "(the pool was destroyed but %zu stacks were not given back)", o.live.size());
  }
  CHECK_EQ(o.allocs, o.frees);
  if (reused) c.label("reused");
  if (gave_back) c.label("gave_back");
  if (refused) c.label("refused");
  if ((reused && gave_back) || refused) c.nontrivial();
}

void threaded(pbt::Ctx &c) {
  Origin &o = og();
  o.reset();
  Pool::ptr_type pool = Pool::create();
  const size_t ss = pool->set_stack_size(4096);
  const size_t real = o.real(ss);
  size_t max_n = c.coin() ? 0 : 1 + c.draw(6);
  pool->set_max_stack_number(max_n);
  pool->set_auto_gc(c.coin());
  pool->set_gc_once_number(c.draw(3));
  pool->set_min_stack_number(c.draw(4));
  struct Op {
    int kind;
    size_t a;
  };
  size_t nt = 2 + c.draw(3);
  std::vector<std::vector<Op>> progs(nt);
  for (auto &p : progs) {
    pbt::Loop loop(c, 30, 120);
    while (loop.next()) {
      Op op;
      op.kind = static_cast<int>(c.weighted({6, 6, 1, 1}));
      op.a = c.draw(8);
      p.push_back(op);
    }
  }
  c.log("%zu threads, max %zu", nt, max_n);
  sched::Plan plan = sched::gen_plan(c, static_cast<unsigned>(nt));
  std::atomic<size_t> outstanding{0};
  std::atomic<int> bad{0};
  std::vector<std::vector<Held>> left(nt);
  std::vector<std::function<void()>> ts;
  for (size_t t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      std::vector<Held> &mine = left[t];
      uint64_t tag = t << 32;
      for (auto &op : progs[t]) {
        if (op.kind == 0) {
          Held h;
          h.ctx.sp = &h;
          h.ctx.size = 77;
          pool->allocate(h.ctx);
          if (h.ctx.sp) {
            if (h.ctx.size < ss) bad.store(1);
            size_t now = outstanding.fetch_add(1) + 1;
            if (max_n && now > max_n) bad.store(2);
            stamp(h, ++tag);
            mine.push_back(h);
          }
        } else if (op.kind == 1) {
          if (mine.empty()) continue;
          size_t i = op.a % mine.size();
          if (!intact(mine[i])) bad.store(3);
          outstanding.fetch_sub(1);
          pool->deallocate(mine[i].ctx);
          mine.erase(mine.begin() + static_cast<long>(i));
        } else if (op.kind == 2) {
          pool->gc();
        } else {
          if (op.a == 0) pool->clear();
          for (auto &h : mine)
            if (!intact(h)) bad.store(3);
        }
      }
    });
  sched::run(ts, plan);
  CHECK(bad.load() != 1, "(a stack smaller than configured)");
  CHECK(bad.load() != 2, "(more stacks handed out than the maximum)");
  CHECK(bad.load() != 3, "(a stack in use was written by another user)");
  size_t n = 0, b = 0;
  std::map<void *, int> seen;
  for (auto &v : left)
    for (auto &h : v) {
      CHECK(intact(h), "(a stack in use was written by another user)");
      CHECK(!seen[h.ctx.sp]++, "(one stack handed out twice)");
      CHECK(o.live.find(h.ctx.sp) != o.live.end(), "(a stack in use was given back)");
      ++n;
      b += h.ctx.size;
    }
  CHECK_EQ(pool->get_limit().used_stack_number, n);
  CHECK_EQ(pool->get_limit().used_stack_size, b);
  CHECK_EQ(pool->get_limit().free_stack_number, o.live.size() - n);
  CHECK_EQ(pool->get_limit().free_stack_size, (o.live.size() - n) * real);
  for (auto &v : left)
    for (auto &h : v) pool->deallocate(h.ctx);
  pool.reset();
  CHECK(o.live.empty(), "(the pool was destroyed but %zu stacks were not given back)", o.live.size());
  c.label("threaded");
  if (n + o.frees > 2) c.nontrivial();
}
}  // namespace

void pbt::run_case(pbt::Ctx &c) {
#if defined(VP_TSAN) || defined(VP_SCHED)
  threaded(c);
#elif LIBCOPP_DISABLE_ATOMIC_LOCK
  single(c);
#else
  if (c.chance(1, 40))
    threaded(c);
  else
    single(c);
#endif
}

// C05: stack allocators (mmap, malloc, user memory) and stack_context.
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_memory.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>

#include <deque>
#include <limits>

#include "common.h"

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VP_ASAN 1
#    include <sanitizer/allocator_interface.h>
#    include <sanitizer/asan_interface.h>
#  endif
#endif

const pbt::HarnessInfo pbt::info = {
    "stack_alloc",
    "a case is a history of allocations and releases (any order, any allocator copy) over the mmap, malloc and "
    "user-memory allocators with sizes from 0 to the largest size_t, plus copies, moves and re-attachments of the "
    "user-memory allocator; every handed out range is probed, filled and compared; non-trivial when at least two stacks "
    "were outstanding together or a request was refused",
    false, 20};

// calls of the library (and of this file) for memory come here (-Wl,--wrap): failures are injected, mappings counted
static bool g_in_alloc, g_refuse, g_refuse_protect;
static unsigned g_refused;
static long g_mapped;
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
void *__real_malloc(size_t);
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (g_in_alloc && g_refuse) {
    ++g_refused;
    errno = ENOMEM;
    return MAP_FAILED;
  }
  void *r = __real_mmap(a, n, prot, flags, fd, off);
  if (g_in_alloc && r != MAP_FAILED) g_mapped += static_cast<long>(n);
  return r;
}
int __real_mprotect(void *, size_t, int);
int __wrap_mprotect(void *p, size_t n, int prot) {
  if (g_in_alloc && g_refuse_protect) {
    ++g_refused;
    errno = ENOMEM;
    return -1;
  }
  return __real_mprotect(p, n, prot);
}
int __wrap_munmap(void *p, size_t n) {
  int r = __real_munmap(p, n);
  if (g_in_alloc && r == 0) g_mapped -= static_cast<long>(n);
  return r;
}
void *__wrap_malloc(size_t n) {
  if (g_in_alloc && g_refuse) {
    ++g_refused;
    errno = ENOMEM;
    return nullptr;
  }
  return __real_malloc(n);
}
}

namespace {
using copp::allocator::stack_allocator_malloc;
using copp::allocator::stack_allocator_memory;
using copp::allocator::stack_allocator_posix;
using copp::stack_context;
using copp::stack_traits;

int g_pipe[2];
size_t g_page, g_min, g_max;

// can the kernel read / write this byte on our behalf?
bool readable(const char *p) {
  ssize_t r = write(g_pipe[1], p, 1);
  if (r != 1) return false;
  char x;
  if (read(g_pipe[0], &x, 1) != 1) abort();
  return true;
}
bool writable(char *p) {
  char x = 0x33;
  if (write(g_pipe[1], &x, 1) != 1) abort();
  ssize_t r = read(g_pipe[0], p, 1);
  if (r == 1) return true;
  if (read(g_pipe[0], &x, 1) != 1) abort();
  return false;
}

size_t rnd(size_t s) {  // to pages, saturating
  size_t r = (s + g_page - 1) / g_page * g_page;
  return s > std::numeric_limits<size_t>::max() - g_page ? std::numeric_limits<size_t>::max() / g_page * g_page : r;
}

struct Out {
  int kind;  // 0 posix 1 malloc
  stack_context ctx;
  unsigned char fill;
  size_t usable;  // bytes below sp that belong to the user
};

size_t pick_size(pbt::Ctx &c) {
  switch (c.weighted({4, 4, 3, 3, 2, 1})) {
    case 0: return g_min + c.draw(4) * g_page;
    case 1: return c.draw(2 * g_min);
    case 2: return rnd(g_min) + c.draw(5) * g_page + c.draw(3) - 1;
    case 3: return c.draw(400000);
    case 4: return 1000000 + c.draw(2000000);
    default: {
      static const size_t big[] = {std::numeric_limits<size_t>::max(), std::numeric_limits<size_t>::max() - 4095,
                                   std::numeric_limits<size_t>::max() - 4096, std::numeric_limits<size_t>::max() - 8192,
                                   static_cast<size_t>(1) << 60, static_cast<size_t>(1) << 50,
                                   std::numeric_limits<size_t>::max() / 2};
      return big[c.pick(7)];
    }
  }
}

void fill_some(Out &o, bool all) {
  char *sp = static_cast<char *>(o.ctx.sp);
  if (all) {
    memset(sp - o.usable, o.fill, o.usable);
    return;
  }
  for (size_t off = 1; off <= o.usable; off += g_page) sp[-static_cast<long>(off)] = static_cast<char>(o.fill);
  sp[-static_cast<long>(o.usable)] = static_cast<char>(o.fill);
}
bool same(const Out &o) {
  const char *sp = static_cast<const char *>(o.ctx.sp);
  for (size_t off = 1; off <= o.usable; off += g_page)
    if (sp[-static_cast<long>(off)] != static_cast<char>(o.fill)) return false;
  return sp[-static_cast<long>(o.usable)] == static_cast<char>(o.fill);
}

void mapped_and_malloc(pbt::Ctx &c) {
  std::deque<Out> outs;
  bool refused = false, pair = false;
  g_in_alloc = g_refuse = g_refuse_protect = false;
  g_mapped = 0;
  stack_allocator_posix pa;
  stack_allocator_malloc ma;
  unsigned char next_fill = 1;
  auto release = [&](size_t i) {
    Out o = outs[i];
    outs.erase(outs.begin() + static_cast<long>(i));
    CHECK(same(o), "(the contents of an outstanding stack changed)");
    char *base = static_cast<char *>(o.ctx.sp) - o.ctx.size;
    if (o.kind == 0) {
      stack_allocator_posix other(pa);
      stack_allocator_posix moved(std::move(other));
      g_in_alloc = true;
      if (c.coin())
        moved.deallocate(o.ctx);
      else
        pa.deallocate(o.ctx);
      g_in_alloc = false;
      unsigned char v[1];
      for (size_t k = 0; k < o.ctx.size; k += g_page)
        if (mincore(base + k, g_page, v) == 0) c.fail("page %zu of a released stack of %zu bytes is still mapped", k / g_page, o.ctx.size);
    } else {
      stack_allocator_malloc other;
      other = ma;
      if (c.coin())
        other.deallocate(o.ctx);
      else
        ma.deallocate(o.ctx);
#ifdef VP_ASAN
      CHECK(__sanitizer_get_ownership(base) == 0, "(a released stack is still allocated)");
#endif
    }
    for (auto &x : outs) {
      CHECK(readable(static_cast<char *>(x.ctx.sp) - 1) && readable(static_cast<char *>(x.ctx.sp) - x.usable),
            "(releasing one stack took memory of another)");
      CHECK(same(x), "(releasing one stack changed another)");
    }
  };
  pbt::Loop loop(c, 8, 40);
  while (loop.next()) {
    size_t op = c.weighted({5, 3});
    if (op == 0) {
      Out o;
      o.kind = static_cast<int>(c.draw(2));
      size_t req = pick_size(c);
      o.ctx.size = 12345;
      o.ctx.sp = &o;
      g_in_alloc = true;
      g_refuse = c.chance(1, 12);
      g_refuse_protect = c.chance(1, 12);
      g_refused = 0;
      if (o.kind == 0)
        pa.allocate(o.ctx, req);
      else
        ma.allocate(o.ctx, req);
      g_in_alloc = g_refuse = g_refuse_protect = false;
      c.log("%s allocate %zu -> %s size %zu", o.kind ? "malloc" : "mmap", req, o.ctx.sp ? "ok" : "null", o.ctx.size);
      size_t want = req < g_min ? g_min : req;
      if (want > g_max) want = g_max;
      if (!o.ctx.sp) {
        refused = true;
        CHECK(g_refused > 0 || want > (static_cast<size_t>(1) << 32), "(a request for %zu bytes was refused)", req);
        continue;
      }
      size_t guard = o.kind == 0 ? g_page : 0;
      CHECK(o.ctx.size >= guard, "(stack of size %zu)", o.ctx.size);
      o.usable = o.ctx.size - guard;
      CHECK(o.usable >= want, "(%zu usable bytes for a request of %zu)", o.usable, req);
      CHECK(o.usable >= rnd(want) && o.usable <= rnd(want) + g_page, "(%zu usable bytes for a request of %zu)",
            o.usable, req);
      CHECK(o.ctx.size % g_page == 0);
      CHECK(reinterpret_cast<uintptr_t>(o.ctx.sp) % 16 == 0);
      char *base = static_cast<char *>(o.ctx.sp) - o.ctx.size;
      for (auto &x : outs) {
        char *xb = static_cast<char *>(x.ctx.sp) - x.ctx.size;
        CHECK(static_cast<char *>(o.ctx.sp) <= xb || static_cast<char *>(x.ctx.sp) <= base,
              "(two outstanding stacks overlap)");
      }
      if (o.kind == 0) {
        CHECK(reinterpret_cast<uintptr_t>(base) % g_page == 0);
        CHECK(!readable(base) && !writable(base) && !readable(base + g_page - 1) && !writable(base + g_page - 1),
              "(no inaccessible guard page at the low end of a mapped stack)");
      } else {
#ifdef VP_ASAN
        CHECK(__sanitizer_get_ownership(base) == 1, "(the stack does not begin where size and sp say)");
        CHECK(__sanitizer_get_allocated_size(base) >= o.ctx.size, "(the stack reaches beyond its allocation)");
#endif
      }
      CHECK(readable(static_cast<char *>(o.ctx.sp) - 1) && writable(static_cast<char *>(o.ctx.sp) - 1) &&
                readable(static_cast<char *>(o.ctx.sp) - o.usable) &&
                writable(static_cast<char *>(o.ctx.sp) - o.usable),
            "(a part of the stack is not usable)");
      o.fill = ++next_fill;
      fill_some(o, o.usable < 200000 && c.chance(1, 4));
      outs.push_back(o);
      if (outs.size() > 1) pair = true;
    } else if (!outs.empty()) {
      size_t i = c.pick(outs.size());
      c.log("release #%zu of %zu", i, outs.size());
      release(i);
    }
    size_t total = 0;
    for (auto &o : outs) total += o.ctx.size;
    if (total > (64u << 20)) release(0);
  }
  while (!outs.empty()) release(c.pick(outs.size()));
  if (g_mapped) c.fail("%ld mapped bytes are left after every stack was released", g_mapped);
  if (pair || refused) c.nontrivial();
}

// the allocator over user memory
struct Buf {
  char *raw = nullptr;
  size_t size = 0;
  static constexpr size_t kZone = 8192;
  char *begin() const { return raw + kZone; }
  explicit Buf(size_t n) : size(n) {
    if (posix_memalign(reinterpret_cast<void **>(&raw), 4096, n + 2 * kZone)) abort();
    memset(raw, 0x5a, kZone);
    memset(raw + kZone + n, 0x5a, kZone);
  }
  void check() const {
    for (size_t i = 0; i < kZone; ++i)
      if (raw[i] != 0x5a || raw[kZone + size + i] != 0x5a) pbt::cur().fail("memory outside the attached buffer was written");
  }
  ~Buf() { free(raw); }
  Buf(const Buf &) = delete;
};
using MemCo = copp::coroutine_context_container<stack_allocator_memory>;

void user_memory(pbt::Ctx &c) {
  struct Model {
    int buf = -1;
    size_t msize = 0;  // attached size
    bool used = false;
    stack_context ctx;
  };
  std::deque<Buf> bufs;
  std::vector<int> free_bufs;  // attached nowhere
  size_t nb = 1 + c.draw(3);
  for (size_t i = 0; i < nb; ++i) {
    size_t n;
    switch (c.weighted({4, 2, 2, 1})) {
      case 0: n = g_page * (2 + c.draw(30)); break;
      case 1: n = g_page * (1 + c.draw(20)) + 16 * c.draw(256); break;
      case 2: n = g_min + c.draw(g_min); break;
      default: n = 64 + c.draw(g_page); break;
    }
    bufs.emplace_back(n);
    free_bufs.push_back(static_cast<int>(i));
  }
  std::vector<std::unique_ptr<stack_allocator_memory>> as;
  std::vector<Model> ms;
  bool refused = false, handed = false;
  size_t live_co = 0;
  std::vector<typename MemCo::ptr_type> cos;
  pbt::Loop loop(c, 14, 60);
  while (loop.next()) {
    size_t op = as.empty() ? 0 : c.weighted({2, 6, 4, 2, 2, 2});
    switch (op) {
      case 0: {
        if (as.size() >= 5) break;
        Model m;
        if (!free_bufs.empty() && c.chance(3, 4)) {
          m.buf = free_bufs.back();
          free_bufs.pop_back();
          m.msize = bufs[static_cast<size_t>(m.buf)].size;
          if (c.coin()) {
            as.emplace_back(new stack_allocator_memory(bufs[static_cast<size_t>(m.buf)].begin(), m.msize));
          } else {
            as.emplace_back(new stack_allocator_memory());
            as.back()->attach(bufs[static_cast<size_t>(m.buf)].begin(), m.msize);
          }
        } else if (c.coin()) {
          as.emplace_back(new stack_allocator_memory());
        } else {  // no buffer, whatever its size
          as.emplace_back(new stack_allocator_memory(nullptr, c.draw(300000)));
        }
        c.log("allocator %zu over buffer %d of %zu bytes", as.size() - 1, m.buf, m.msize);
        ms.push_back(m);
        break;
      }
      case 1: {
        size_t i = c.pick(as.size());
        Model &m = ms[i];
        size_t req = c.coin() ? pick_size(c) : c.draw(m.msize + 5000);
        stack_context ctx;
        ctx.size = 999;
        ctx.sp = &m;
        as[i]->allocate(ctx, req);
        c.log("allocator %zu: allocate %zu -> %s size %zu", i, req, ctx.sp ? "ok" : "null", ctx.size);
        size_t want = req < g_min ? g_min : req;
        if (want > g_max) want = g_max;
        if (want > m.msize) want = m.msize;
        want = m.msize && want ? want / g_page * g_page : 0;  // whole pages that fit
        if (m.buf < 0 || m.used) {
          CHECK(!ctx.sp, "(a buffer in use, or no buffer, was handed out)");
          refused = true;
        } else if (want == 0) {
          if (ctx.sp) {
            Buf &b = bufs[static_cast<size_t>(m.buf)];
            CHECK(static_cast<char *>(ctx.sp) <= b.begin() + b.size && ctx.size > 0 &&
                      static_cast<char *>(ctx.sp) - ctx.size >= b.begin(),
                  "(the stack reaches outside the attached buffer)");
            m.used = true;
            m.ctx = ctx;
          }
        } else {
          CHECK(ctx.sp != nullptr, "(an idle buffer of %zu bytes was refused for %zu)", m.msize, req);
          Buf &b = bufs[static_cast<size_t>(m.buf)];
          CHECK(static_cast<char *>(ctx.sp) - ctx.size >= b.begin() &&
                    static_cast<char *>(ctx.sp) <= b.begin() + b.size,
                "(a stack of %zu bytes reaches outside the attached %zu bytes)", ctx.size, b.size);
          CHECK(ctx.size >= want, "(%zu bytes handed out of %zu for a request of %zu)", ctx.size, m.msize, req);
          m.used = true;
          m.ctx = ctx;
          handed = true;
          memset(static_cast<char *>(ctx.sp) - ctx.size, 0x11, ctx.size);
          b.check();
        }
        break;
      }
      case 2: {
        size_t i = c.pick(as.size());
        if (!ms[i].used) break;
        c.log("allocator %zu: release", i);
        as[i]->deallocate(ms[i].ctx);
        ms[i].used = false;
        break;
      }
      case 3: {  // copy / move construction, from an idle or a used one
        if (as.size() >= 5) break;
        size_t i = c.pick(as.size());
        bool mv = c.coin();
        c.log("%s construct allocator %zu from %zu (%s)", mv ? "move" : "copy", as.size(), i, ms[i].used ? "used" : "idle");
        if (mv)
          as.emplace_back(new stack_allocator_memory(std::move(*as[i])));
        else
          as.emplace_back(new stack_allocator_memory(*as[i]));
        Model m;
        if (!ms[i].used) std::swap(m, ms[i]);
        ms.push_back(m);
        break;
      }
      case 4: {
        size_t i = c.pick(as.size()), j = c.pick(as.size());
        if (i == j) break;
        bool mv = c.coin();
        c.log("%s assign allocator %zu from %zu (%s)", mv ? "move" : "copy", i, j, ms[j].used ? "used" : "idle");
        if (mv)
          *as[i] = std::move(*as[j]);
        else
          *as[i] = *as[j];
        if (!ms[j].used) std::swap(ms[i], ms[j]);
        break;
      }
      default: {  // a coroutine whose stack is the buffer
        size_t i = c.pick(as.size());
        Model &m = ms[i];
        if (m.buf < 0 || m.used || m.msize < 65536 || live_co) break;
        int entered = 0;
        auto co = MemCo::create([&entered](void *) { return ++entered; }, *as[i], 32768, c.draw(2048));
        c.log("coroutine on allocator %zu", i);
        CHECK(!!co, "(a coroutine was refused an idle buffer)");
        char *obj = reinterpret_cast<char *>(co.get());
        Buf &b = bufs[static_cast<size_t>(m.buf)];
        CHECK(obj >= b.begin() && obj < b.begin() + b.size, "(the coroutine lies outside its buffer)");
        {
          stack_context again;
          as[i]->allocate(again, g_min);
          CHECK(!again.sp, "(a buffer that carries a coroutine was handed out again)");
        }
        co->start();
        CHECK_EQ(entered, 1);
        b.check();
        co.reset();
        handed = true;
        // whoever held the buffer before attaches it again
        as[i]->attach(b.begin(), b.size);
        break;
      }
    }
  }
  for (auto &b : bufs) b.check();
  if (refused && handed) c.nontrivial();
}

void contexts(pbt::Ctx &c) {
  stack_context v[4];
  size_t sz[4] = {0, 0, 0, 0};
  void *sp[4] = {nullptr, nullptr, nullptr, nullptr};
  pbt::Loop loop(c, 10, 40);
  size_t n = 0;
  while (loop.next()) {
    size_t i = c.pick(4), j = c.pick(4);
    switch (c.pick(6)) {
      case 0:
        v[i].size = sz[i] = c.draw(100000);
        v[i].sp = sp[i] = reinterpret_cast<void *>(c.draw(1u << 30));
        break;
      case 1:
        v[i].reset();
        sz[i] = 0;
        sp[i] = nullptr;
        break;
      case 2:
        v[i] = v[j];
        sz[i] = sz[j];
        sp[i] = sp[j];
        break;
      case 3:
        if (i == j) break;
        v[i] = std::move(v[j]);
        sz[i] = sz[j];
        sp[i] = sp[j];
        sz[j] = 0;
        sp[j] = nullptr;
        break;
      case 4: {
        stack_context x(v[i]);
        CHECK(x.sp == sp[i] && x.size == sz[i]);
        break;
      }
      default: {
        stack_context x(std::move(v[i]));
        CHECK(x.sp == sp[i] && x.size == sz[i]);
        sz[i] = 0;
        sp[i] = nullptr;
        break;
      }
    }
    ++n;
    for (size_t k = 0; k < 4; ++k) CHECK(v[k].sp == sp[k] && v[k].size == sz[k], "(stack context %zu)", k);
  }
  if (n > 4) c.nontrivial();
}

void traits(pbt::Ctx &c) {
  CHECK_EQ(stack_traits::page_size(), static_cast<size_t>(sysconf(_SC_PAGESIZE)));
  CHECK_EQ(stack_traits::maximum_size(), g_max);
  CHECK_EQ(stack_traits::is_unbounded(), g_max == std::numeric_limits<size_t>::max());
  CHECK(stack_traits::minimum_size() >= static_cast<size_t>(sysconf(_SC_MINSIGSTKSZ)), "(%zu)", stack_traits::minimum_size());
  CHECK(stack_traits::minimum_size() > 0 && stack_traits::minimum_size() <= stack_traits::maximum_size());
  CHECK(stack_traits::default_size() >= stack_traits::minimum_size() &&
        stack_traits::default_size() <= stack_traits::maximum_size());
  size_t x = c.coin() ? c.draw(100000) : c.draw(static_cast<uint64_t>(1) << 62);
  size_t r = stack_traits::round_to_page_size(x);
  CHECK(r >= x && r - x < g_page && r % g_page == 0, "(round_to_page_size(%zu) = %zu)", x, r);
}
}  // namespace

void pbt::setup_process() {
  if (pipe(g_pipe) != 0) abort();
#if !defined(VP_ASAN)
  struct rlimit rl;  // a bounded maximum in this build
  getrlimit(RLIMIT_STACK, &rl);
  rl.rlim_max = (16u << 20) + 1234;
  if (rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max;
  setrlimit(RLIMIT_STACK, &rl);
#endif
  g_page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
  g_min = stack_traits::minimum_size();
  struct rlimit lim;
  getrlimit(RLIMIT_STACK, &lim);
  g_max = lim.rlim_max == RLIM_INFINITY ? std::numeric_limits<size_t>::max() : static_cast<size_t>(lim.rlim_max);
}

void pbt::run_case(pbt::Ctx &c) {
  switch (c.weighted({5, 4, 1, 1})) {
    case 0: mapped_and_malloc(c); break;
    case 1: user_memory(c); break;
    case 2: contexts(c); break;
    default: traits(c); break;
  }
}

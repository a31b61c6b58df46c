// C01: programs of start / resume / yield / finish over several stackful coroutines, against a reference state machine.
#include <libcopp/coroutine/coroutine_context.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/utils/errno.h>

#include <stdexcept>

#include "common.h"

using namespace copp;
using co_t = coroutine_context_container<TrackAlloc>;

namespace {

enum St { kNoRunner, kReady, kSuspended, kRunning, kFinished };

struct Co {
  co_t::ptr_type ptr;
  St st = kNoRunner;
  int id = 0;
  int retcode = 0;
  bool returned = false;
  void *expect_payload = nullptr;  // what the next resumption delivers
  size_t priv_size = 0;
  int user_flags = 0;
  size_t extra_refs = 0;
  std::vector<co_t::ptr_type> refs;
  int resumes = 0, yields = 0;
  bool via_struct = false;
};

struct World {
  pbt::Ctx &c;
  std::vector<std::unique_ptr<Co>> cos;
  std::vector<Co *> chain;  // running, innermost last
  size_t budget = 60;
  int nested = 0, cross = 0, rejected = 0, finished = 0;
  explicit World(pbt::Ctx &c_) : c(c_) {}
};
World *W = nullptr;
uint64_t g_payload_seq = 0;

const char *st_name(St s) {
  static const char *n[] = {"no-runner", "ready", "suspended", "running", "finished"};
  return n[s];
}

int expected_entry_code(const Co &co) {
  switch (co.st) {
    case kNoRunner:
      return COPP_EC_NOT_INITED;
    case kReady:
    case kSuspended:
      return COPP_EC_SUCCESS;
    case kRunning:
      return COPP_EC_IS_RUNNING;
    default:
      return COPP_EC_NOT_READY;
  }
}

void check_static() {
  coroutine_context *cur = this_coroutine::get_coroutine();
  coroutine_context *want = W->chain.empty() ? nullptr : W->chain.back()->ptr.get();
  CHECK(cur == want, "the current coroutine is not the one that is executing");
  CHECK(this_coroutine::get<co_t>() == static_cast<co_t *>(want));
  CHECK(coroutine_context_base::get_this_coroutine_base() == want);
  for (auto &p : W->cos) {
    Co &co = *p;
    CHECK_EQ(co.ptr->is_finished(), co.st == kFinished, "coroutine %d is %s", co.id, st_name(co.st));
    if (co.st == kFinished) CHECK_EQ(co.ptr->get_ret_code(), co.retcode, "coroutine %d", co.id);
    if (co.st != kFinished) CHECK_EQ(co.ptr->get_ret_code(), 0, "coroutine %d has not returned yet", co.id);
    CHECK_EQ(co.ptr->use_count(), 1 + co.refs.size());
    CHECK_EQ(co.ptr->get_private_buffer_size(), co_t::align_private_data_size(co.priv_size));
    for (int bit = 8; bit < 31; ++bit)
      CHECK_EQ(co.ptr->check_flags(1 << bit), (co.user_flags & (1 << bit)) != 0, "flag %d of coroutine %d", bit, co.id);
    for (int mask : {0x300, 0x500, 0xe00, 0xf00})  // any of them
      CHECK_EQ(co.ptr->check_flags(mask), (co.user_flags & mask) != 0, "flags %x of coroutine %d", static_cast<unsigned>(mask), co.id);
    const unsigned char *b = static_cast<const unsigned char *>(co.ptr->get_private_buffer());
    for (size_t i = 0; i < co.priv_size; ++i)
      CHECK(b[i] == static_cast<unsigned char>(co.id * 31 + i), "private buffer of a coroutine changed");
  }
}

void body_loop(Co *self, int depth);

struct Functor {
  Co *co;
  int operator()(void *p) const;
};

void *fresh_payload() {
  ++g_payload_seq;
  switch (W->c.draw(4)) {
    case 0:
      return nullptr;
    case 1:
      return reinterpret_cast<void *>(static_cast<uintptr_t>(-1));
    default:
      return reinterpret_cast<void *>(static_cast<uintptr_t>(0x1000 + g_payload_seq * 16));
  }
}

int co_main(Co *self, void *p) {
  CHECK(p == self->expect_payload, "the runner received another pointer than start() was given");
  body_loop(self, 0);
  int rc = static_cast<int>(W->c.range(-3, 1000));
  if (W->c.chance(1, 10)) rc = static_cast<int>(0x80000000u);
  W->c.log("co%d returns %d", self->id, rc);
  self->retcode = rc;
  self->returned = true;
  return rc;
}
int Functor::operator()(void *p) const { return co_main(co, p); }

void do_yield(Co *self) {
  volatile uint64_t canary[6];
  uint64_t base = 0xabcd0000u + g_payload_seq;
  for (int i = 0; i < 6; ++i) canary[i] = base + static_cast<uint64_t>(i);
  int how = static_cast<int>(W->c.draw(4));
  W->c.log("co%d yields (form %d)", self->id, how);
  CHECK(!W->chain.empty() && W->chain.back() == self);
  W->chain.pop_back();
  self->st = kSuspended;
  ++self->yields;
  void *got = reinterpret_cast<void *>(0x77);
  int rc = 0;
  switch (how) {
    case 0:
      rc = this_coroutine::yield(&got);
      break;
    case 1:
      rc = self->ptr->yield(&got);
      break;
    case 2:
      rc = this_coroutine::yield();
      break;
    default:
      rc = self->ptr->yield();
      break;
  }
  CHECK_EQ(rc, COPP_EC_SUCCESS, "yield of the running coroutine");
  CHECK(W->chain.size() && W->chain.back() == self, "control came back to a coroutine that was not resumed");
  if (how < 2) CHECK(got == self->expect_payload, "yield() returned another pointer than resume() was given");
  for (int i = 0; i < 6; ++i) CHECK(canary[i] == base + static_cast<uint64_t>(i), "a local changed across yield");
}

void enter(Co *from, Co *to) {
  int want = expected_entry_code(*to);
  void *payload = fresh_payload();
  int how = static_cast<int>(W->c.draw(4));
  W->c.log("%s%d %s co%d (%s) form %d", from ? "co" : "main", from ? from->id : 0, how & 1 ? "resumes" : "starts", to->id,
           st_name(to->st), how);
  St before = to->st;
  if (want == COPP_EC_SUCCESS) {
    if (from) ++W->nested;
    if (before == kSuspended && from) ++W->cross;
    to->expect_payload = payload;
    to->st = kRunning;
    ++to->resumes;
    W->chain.push_back(to);
  } else {
    ++W->rejected;
  }
  size_t depth = W->chain.size();
  int rc = 12345;
  std::exception_ptr ep;
  switch (how) {
    case 0:
      rc = to->ptr->start(payload);
      break;
    case 1:
      rc = to->ptr->resume(payload);
      break;
    case 2:
#if LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
      rc = to->ptr->start(ep, payload);
#else
      rc = to->ptr->start(payload);
#endif
      break;
    default:
#if LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
      rc = to->ptr->resume(ep, payload);
#else
      rc = to->ptr->resume(payload);
#endif
      break;
  }
  CHECK(!ep, "an exception surfaced that nothing threw");
  CHECK_EQ(rc, want, "entering a coroutine that is %s", st_name(before));
  if (want == COPP_EC_SUCCESS) {
    if (to->returned && to->st == kRunning) {
      to->st = kFinished;
      CHECK(W->chain.size() == depth && W->chain.back() == to);
      W->chain.pop_back();
      ++W->finished;
    }
    CHECK(to->st == kSuspended || to->st == kFinished, "start/resume returned while the coroutine still runs");
    CHECK_EQ(W->chain.size() + 1, depth, "control returned to the wrong frame");
    if (from) CHECK(W->chain.back() == from);
  } else {
    CHECK(to->st == before);
  }
}

void create_co() {
  auto co = std::make_unique<Co>();
  co->id = static_cast<int>(W->cos.size()) + 1;
  co->priv_size = W->c.chance(1, 2) ? static_cast<size_t>(W->c.range(0, 300)) : 0;
  static const size_t sizes[] = {128 * 1024, 160 * 1024 + 64, 256 * 1024};
  size_t sz = sizes[W->c.draw(3)];
  TrackAlloc al;
  Co *raw = co.get();
  int how = static_cast<int>(W->c.draw(4));
  co_t::callback_type cb;
  switch (how) {
    case 0:
      co->ptr = co_t::create([raw](void *p) { return co_main(raw, p); }, al, sz, co->priv_size);
      co->st = kReady;
      break;
    case 1: {
      static std::vector<std::unique_ptr<Functor>> keep;
      if (W->cos.empty()) keep.clear();
      keep.emplace_back(new Functor{raw});
      co->ptr = co_t::create(keep.back().get(), al, sz, co->priv_size);
      co->st = kReady;
      break;
    }
    case 2:
      co->ptr = co_t::create(co_t::callback_type(), al, sz, co->priv_size);
      co->st = kNoRunner;
      break;
    default:
      co->ptr = co_t::create([raw](void *p) { return co_main(raw, p); }, sz, co->priv_size);
      co->st = kReady;
      break;
  }
  CHECK(co->ptr, "creation with enough memory failed");
  W->c.log("create co%d (form %d, private %zu)", co->id, how, co->priv_size);
  unsigned char *b = static_cast<unsigned char *>(co->ptr->get_private_buffer());
  for (size_t i = 0; i < co->priv_size; ++i) b[i] = static_cast<unsigned char>(co->id * 31 + i);
  W->cos.push_back(std::move(co));
}

void misc(Co *self) {
  switch (W->c.draw(6)) {
    case 0: {  // yield outside / on a coroutine that does not run
      if (!self) {
        void *p = reinterpret_cast<void *>(0x99);
        W->c.log("main yields");
        CHECK_EQ(this_coroutine::yield(&p), COPP_EC_NOT_RUNNING);
        CHECK_EQ(this_coroutine::yield(), COPP_EC_NOT_RUNNING);
        ++W->rejected;
      }
      break;
    }
    case 1: {
      Co &co = *W->c.one_of(W->cos);
      if (co.st == kRunning) break;
      W->c.log("yield on co%d which is %s", co.id, st_name(co.st));
      int rc = co.ptr->yield();
      if (co.st == kNoRunner) {
        CHECK_EQ(rc, COPP_EC_NOT_INITED);
      } else if (co.st == kFinished) {
        CHECK(rc < 0, "yield on a finished coroutine succeeded");
      } else {
        CHECK_EQ(rc, COPP_EC_NOT_RUNNING);
      }
      ++W->rejected;
      break;
    }
    case 2: {
      Co &co = *W->c.one_of(W->cos);
      bool empty = W->c.chance(1, 4);
      W->c.log("set_runner on co%d (%s)%s", co.id, st_name(co.st), empty ? " with an empty function" : "");
      Co *raw = &co;
      if (empty) {
        CHECK_EQ(co.ptr->set_runner(co_t::callback_type()), COPP_EC_ARGS_ERROR);
      } else {
        int rc = co.ptr->set_runner([raw](void *p) { return co_main(raw, p); });
        CHECK_EQ(rc, co.st == kNoRunner ? COPP_EC_SUCCESS : COPP_EC_ALREADY_INITED);
        if (co.st == kNoRunner) co.st = kReady;
      }
      break;
    }
    case 3: {
      Co &co = *W->c.one_of(W->cos);
      int f = 1 << (W->c.chance(1, 8) ? W->c.range(12, 30) : W->c.range(0, 11));
      if (W->c.chance(1, 3)) f |= 1 << W->c.range(0, 11);  // several at once, also user flags mixed with reserved ones
      if (W->c.chance(1, 40)) f = 0;
      bool set = W->c.coin();
      W->c.log("%s flag %#x of co%d", set ? "set" : "unset", f, co.id);
      bool ok = set ? co.ptr->set_flags(f) : co.ptr->unset_flags(f);
      CHECK_EQ(ok, (f & 0xff) == 0, "only flags above the reserved byte may be changed");
      if (ok) {
        if (set)
          co.user_flags |= f;
        else
          co.user_flags &= ~f;
      }
      break;
    }
    case 4: {
      Co &co = *W->c.one_of(W->cos);
      co.refs.push_back(co.ptr);
      break;
    }
    default: {
      Co &co = *W->c.one_of(W->cos);
      if (!co.refs.empty()) co.refs.pop_back();
      break;
    }
  }
}

void step(Co *self, int depth) {
  check_static();
  switch (W->c.weighted({4, 6, 2, self ? 5u : 0u, self && depth < 6 ? 2u : 0u})) {
    case 0: {
      // prefer coroutines that can be entered
      std::vector<Co *> v;
      for (auto &p : W->cos)
        if (p->st == kReady || p->st == kSuspended) v.push_back(p.get());
      if (v.empty() || W->chain.size() > 6) break;
      enter(self, W->c.one_of(v));
      break;
    }
    case 1: {
      if (W->chain.size() > 6) break;
      enter(self, W->c.one_of(W->cos).get());
      break;
    }
    case 2:
      if (W->cos.size() < 7 && W->c.chance(1, 2))
        create_co();
      else
        misc(self);
      break;
    case 3:
      do_yield(self);
      break;
    default: {
      volatile char pad[512];
      memset(const_cast<char *>(pad), depth + 1, sizeof(pad));
      body_loop(self, depth + 1);
      for (size_t i = 0; i < sizeof(pad); ++i) CHECK(pad[i] == static_cast<char>(depth + 1), "stack content changed");
      break;
    }
  }
  check_static();
}

__attribute__((noinline)) void body_loop(Co *self, int depth) {
  pbt::Loop loop(W->c, depth ? 2 : 4, 12);
  while (W->budget > 0 && loop.next()) {
    --W->budget;
    step(self, depth);
  }
}

}  // namespace

namespace pbt {
const HarnessInfo info = {
    "co_state",
    "a program of start/resume/yield/return/set_runner/flag operations over up to 7 stackful coroutines (nested, crossed "
    "and rejected entries included), compared step by step with a reference state machine; non-trivial: at least one "
    "nested entry, one yield and one rejected operation",
    false, 10};

void setup_process() {}

void run_case(Ctx &c) {
  long live0 = live_allocs();
  {
    World w(c);
    W = &w;
    track().reset();
    g_payload_seq = 0;
    create_co();
    size_t n = static_cast<size_t>(c.range(0, 3));
    for (size_t i = 0; i < n; ++i) create_co();
    Loop loop(c, 12, 40);
    while (w.budget > 0 && loop.next()) {
      --w.budget;
      step(nullptr, 0);
    }
    check_static();
    int yields = 0;
    size_t maxr = 0;
    for (auto &p : w.cos) {
      yields += p->yields;
      maxr = std::max(maxr, static_cast<size_t>(p->resumes));
    }
    if (w.nested && yields && w.rejected) c.nontrivial();
    if (w.nested) c.label("nested entry");
    if (w.cross) c.label("suspended coroutine resumed from another coroutine");
    if (w.rejected) c.label("rejected operation");
    if (w.finished) c.label("coroutine finished");
    if (maxr >= 3) c.label("coroutine entered 3+ times");
    w.cos.clear();
    CHECK_EQ(track().live.size(), 0u, "stacks left after the last reference was dropped");
    CHECK_EQ(track().allocated, track().released);
    W = nullptr;
  }
  track().reset();
  (void)live0;
}
}  // namespace pbt

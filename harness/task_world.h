// C07 / C08: generated histories of stackful tasks against a model of their life cycle and chaining.
// Also C09 / C10: the same tasks inside managers, whose membership and timers are modelled too.
// The including file defines CHAIN, MGR and TIMER (0 or 1).
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/utils/errno.h>
#include <libcotask/task.h>
#if MGR
#  include <libcotask/task_manager.h>
#endif

#include <functional>
#include <map>
#include <set>

#include "common.h"

using pbt::cur;

#if LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
#  define VP_EX ex,
#  define VP_EX_LAST , ex
#else  // built without std::exception_ptr: these overloads do not exist
#  define VP_EX
#  define VP_EX_LAST
#endif

namespace {
struct Macro {
  using stack_allocator_type = TrackAlloc;
  using coroutine_type = copp::coroutine_context_container<TrackAlloc>;
  using value_type = int;
};
using task_t = cotask::task<Macro>;
using co_t = Macro::coroutine_type;
#if MGR
using mgr_t = cotask::task_manager<task_t>;
#endif

enum { CREATED = 1, RUNNING = 2, WAITING = 3, DONE = 4, CANCELED = 5, KILLED = 6, TIMEOUT = 7 };

struct Ent;
struct Mgr;
struct Probe {
  Ent *e;
  explicit Probe(Ent *x) : e(x) { reg(); }
  Probe(const Probe &o) : e(o.e) { reg(); }
  ~Probe();
  void reg();
};

struct Ent {
  int id = 0;
  int kind = 0;
  int form = 0;
  std::vector<task_t::ptr_type> h;  // handles the harness keeps
  task_t *raw = nullptr;
  uint64_t tid = 0;
  size_t refs = 0;  // model: handles, list entries, waiters
  int st = CREATED;
  bool started = false, fin = false, gone = false, armed = false;
  int runs = 0, onfin = 0;
  int ret = 0;
  int busy = 0;      // operations in progress on it, or running
  void *fpriv = nullptr;
  bool forced = false;
  Ent *awaiting = nullptr;
  Mgr *mgr = nullptr;  // the manager that contains it
  bool timer = false;
  int64_t deadline = 0;
  std::vector<std::pair<Ent *, void *>> nexts;
  std::set<const Probe *> probes;
  bool exiting() const { return st >= DONE; }
  int run_member(void *priv);
  void run_member_void(void *priv);
};
void Probe::reg() {
  if (e && !e->probes.insert(this).second) cur().fail("an action was constructed over a live one");
}

// something in the library that enters tasks on its own
struct Frame {
  enum Kind { FOLLOW, TICK, RESET } kind = FOLLOW;
  // FOLLOW: the activation of one ended task's followers
  Ent *owner = nullptr;
  bool need_onfin = false;
  std::vector<std::pair<Ent *, void *>> todo;
  size_t pos = 0;
  size_t released = 0;
  bool left_manager = false;
  // TICK and RESET
  Mgr *m = nullptr;
  int64_t now = 0;
  Ent *held = nullptr;
  std::vector<Ent *> set;
};

#if MGR
struct Mgr {
  int id;
  mgr_t::ptr_type p;
  std::vector<Ent *> members;
  int64_t last = 0;  // 0: never ticked
  bool in_tick = false, in_reset = false, reset_in_tick = false;
  int busy = 0;
};
#endif

struct World {
  pbt::Ctx &c;
  std::vector<std::unique_ptr<Ent>> ents;
  std::map<uint64_t, Ent *> by_id;
  std::vector<Ent *> chain;
  std::vector<Frame> frames;
  std::vector<size_t> bases;
#if MGR
  std::vector<std::unique_ptr<Mgr>> mgrs;
  int n_added = 0, n_add_refused = 0, n_notfound = 0, n_reset = 0, n_reset_busy = 0, n_expired = 0, n_ticks = 0,
      n_by_id = 0, n_timer_changed = 0, n_left = 0, n_destroyed = 0, n_in_reset = 0, n_untouched = 0;
#endif
  Ent *expect = nullptr;
  void *expect_priv = nullptr;
  int budget = 60;
  int n_refused = 0, n_follow = 0, n_await = 0, n_forced = 0, n_dropped = 0, n_killed_running = 0, n_nest = 0, n_onfin = 0;
  int n_misuse = 0, n_spurious = 0, n_immediate = 0, n_multi = 0;
  int privs = 0;
  explicit World(pbt::Ctx &cc) : c(cc) {}
};
World *W = nullptr;

void *mkpriv() { return W->c.chance(1, 5) ? nullptr : reinterpret_cast<void *>(static_cast<uintptr_t>(0x1000 + 16 * ++W->privs)); }
Ent *top() { return W->chain.empty() ? nullptr : W->chain.back(); }
bool absorbed(const Ent *e) { return e->st == WAITING && e->awaiting && !e->awaiting->exiting() && !e->exiting(); }
bool eligible(const Ent *e) { return e->st == CREATED || (e->st == WAITING && !absorbed(e)); }

void check_state(Ent *e) {
  task_t &t = *e->raw;
  CHECK_EQ(static_cast<int>(t.get_status()), e->st, "(status of task %d)", e->id);
  CHECK_EQ(t.is_exiting(), e->st >= DONE, "(is_exiting of %d)", e->id);
  CHECK_EQ(t.is_completed(), e->fin, "(is_completed of %d)", e->id);
  CHECK_EQ(t.is_canceled(), e->st == CANCELED, "(is_canceled of %d)", e->id);
  CHECK_EQ(t.is_faulted(), e->st >= KILLED, "(is_faulted of %d)", e->id);
  CHECK_EQ(t.is_timeout(), e->st == TIMEOUT, "(is_timeout of %d)", e->id);
  CHECK_EQ(t.get_id(), e->tid, "(id of %d)", e->id);
  // the result of a member function is not kept (the test suite of the repository asserts that)
  if (e->fin && e->kind != 4) CHECK_EQ(t.get_ret_code(), e->ret, "(result code of %d)", e->id);
}
#if MGR
void leave(Ent *e) {
  Mgr *m = e->mgr;
  if (!m) return;
  for (size_t i = 0; i < m->members.size(); ++i)
    if (m->members[i] == e) {
      m->members.erase(m->members.begin() + static_cast<long>(i));
      break;
    }
  e->mgr = nullptr;
  e->timer = false;
}
void check_mgrs(bool quiet) {
  for (auto &m : W->mgrs) {
    if (!m->p) continue;
    size_t timers = 0;
    for (auto &e : W->ents) {
      task_t::ptr_type f = m->p->find_task(e->tid);
      if (m->in_reset) {
        CHECK(!f, "(a task was found in a manager that is being reset)");
      } else if (e->mgr == m.get()) {
        if (e->fin) continue;  // about to leave
        CHECK(f.get() == e->raw, "(task %d is not in manager %d, status %d)", e->id, m->id, e->st);
      } else {
        CHECK(!f, "(task %d is still in manager %d)", e->id, m->id);
      }
      if (e->mgr == m.get() && e->timer) ++timers;
    }
    if (!quiet) continue;
    CHECK_EQ(m->p->get_task_size(), m->members.size(), "(size of manager %d)", m->id);
    CHECK_EQ(m->p->get_container().size(), m->members.size(), "(size of manager %d)", m->id);
    CHECK_EQ(m->p->get_tick_checkpoint_size(), timers, "(timers of manager %d)", m->id);
    CHECK_EQ(m->p->get_checkpoints().size(), timers, "(timers of manager %d)", m->id);
    auto t = m->p->get_last_tick_time();
    CHECK_EQ(static_cast<int64_t>(t.tv_sec) * 1000000000 + t.tv_nsec, m->last, "(time of manager %d)", m->id);
  }
}
#endif
void check_all(bool refs) {
#if MGR
  check_mgrs(W->bases.empty());
#endif
  CHECK(cotask::this_task::get_task() == (top() ? static_cast<cotask::impl::task_impl *>(top()->raw) : nullptr),
        "(current task)");
  CHECK(task_t::this_task() == (top() ? top()->raw : nullptr), "(current task)");
  for (auto &p : W->ents) {
    if (p->gone) {
      CHECK_EQ(p->probes.size(), 0u, "(the action of %d outlived it)", p->id);
      continue;
    }
    check_state(p.get());
    if (p->kind < 3) CHECK_EQ(p->probes.size(), 1u, "(actions of %d)", p->id);
    if (refs) CHECK_EQ(p->raw->use_count(), p->refs, "(references of %d)", p->id);
  }
}

// one reference of e went away inside the library or through us; true when it was the last
void mark_gone(Ent *e) {
  e->gone = true;
  ++W->n_dropped;
}

// pops what the frame's owner still has to release; returns the task that has to be run to its end because its last
// reference went away, or nothing
Ent *release_rest(Frame &f) {
  while (f.released < f.todo.size()) {
    Ent *e = f.todo[f.released].first;
    if (e->refs == 1 && !e->gone && e->st == WAITING) return e;  // dies: runs to its end first
    if (e->refs == 1 && !e->gone && e->st == CREATED)
      cur().fail("model: a follower was left unstarted");
    ++f.released;
    --e->refs;
    if (e->refs == 0) mark_gone(e);
  }
  return nullptr;
}

#if MGR
// the next task a tick has to end
Ent *tick_next(Frame &f) {
  Mgr *m = f.m;
  if (f.held) {
    --f.held->refs;
    if (f.held->refs == 0) mark_gone(f.held);
    f.held = nullptr;
  }
  for (;;) {
    Ent *best = nullptr;
    for (Ent *e : m->members)
      if (e->timer && e->deadline < f.now &&
          (!best || e->deadline < best->deadline || (e->deadline == best->deadline && e->tid < best->tid)))
        best = e;
    if (!best) return nullptr;
    if (best->exiting() || best->st == RUNNING) {  // ended already, or ends when it gives control back
      if (best->st == RUNNING) {
        best->st = TIMEOUT;
        best->fpriv = nullptr;
        ++W->n_expired;
      }
      leave(best);
      --best->refs;
      if (best->refs == 0) mark_gone(best);
      continue;
    }
    return best;
  }
}
void sync_reset(Frame &f) {
  for (Ent *e : f.set)
    if (e->st == RUNNING && !e->gone && static_cast<int>(e->raw->get_status()) == KILLED) {
      e->st = KILLED;
      e->fpriv = nullptr;
    }
}
#endif

// the first thing the frame still has to run (skipping what is not runnable), or null when it has nothing left
Ent *frame_next(Frame &f, bool *dying) {
  *dying = false;
  CHECK(!f.need_onfin, "(the completion callback of %d did not run)", f.owner->id);
  while (f.pos < f.todo.size()) {
    Ent *e = f.todo[f.pos].first;
    if (eligible(e)) return e;
    if (absorbed(e)) ++W->n_spurious;
    ++f.pos;
  }
#if MGR
  if (!f.left_manager) {
    f.left_manager = true;
    if (f.owner->mgr) {
      ++W->n_left;
      leave(f.owner);
      --f.owner->refs;
      if (f.owner->refs == 0) mark_gone(f.owner);
    }
  }
#endif
  Ent *e = release_rest(f);
  if (e) *dying = true;
  return e;
}
// frames above base must have nothing left to do
void settle(size_t base) {
  while (W->frames.size() > base) {
    bool dying;
#if MGR
    Frame &f = W->frames.back();
    if (f.kind == Frame::TICK) {
      Ent *n = tick_next(f);
      if (n) cur().fail("task %d is past its deadline and was not ended by the tick", n->id);
      W->frames.pop_back();
      continue;
    }
    if (f.kind == Frame::RESET) {
      sync_reset(f);
      for (Ent *n : f.set) {
        CHECK(n->exiting(), "(task %d survived the reset of its manager, status %d)", n->id, n->st);
        --n->refs;
        if (n->refs == 0) mark_gone(n);
      }
      W->frames.pop_back();
      continue;
    }
#endif
    Ent *e = frame_next(W->frames.back(), &dying);
    if (e)
      cur().fail("task %d, which follows %d, was not %s", e->id, W->frames.back().owner->id,
                 dying ? "run to its end when its last reference went away" : "started after it ended");
    W->frames.pop_back();
  }
}

struct Op {
  size_t base;
  Op() : base(W->frames.size()) { W->bases.push_back(base); }
  void done() {
    settle(base);
    CHECK(!W->expect, "(task %d was not entered)", W->expect->id);
    W->bases.pop_back();
  }
};

// the body of e got control (first entry, or a return from a yield)
void entered(Ent *e, void *priv, bool check_priv) {
  auto &c = W->c;
  CHECK(!e->gone, "(the body of destroyed task %d runs)", e->id);
  if (e->forced) {
    if (check_priv) CHECK(priv == e->fpriv, "(task %d was ended with another argument)", e->id);
    ++W->n_forced;
  } else if (W->expect == e && (W->bases.empty() || W->frames.size() == W->bases.back())) {
    if (check_priv) CHECK(priv == W->expect_priv, "(task %d got another argument)", e->id);
    W->expect = nullptr;
    e->st = e->st >= DONE ? e->st : RUNNING;
  } else {
    if (W->expect) c.fail("task %d was entered instead of %d", e->id, W->expect->id);
    size_t base = W->bases.empty() ? 0 : W->bases.back();
    for (;;) {
      if (W->frames.size() <= base) c.fail("task %d was entered although nobody entered it", e->id);
      Frame &f = W->frames.back();
      bool dying;
#if MGR
      if (f.kind == Frame::TICK) {
        Ent *n = tick_next(f);
        if (n != e) c.fail("task %d was entered by a tick that should %s %d", e->id, n ? "end" : "not touch it:", n ? n->id : 0);
        leave(e);
        f.held = e;
        e->st = TIMEOUT;
        e->forced = true;
        e->fpriv = nullptr;
        if (check_priv) CHECK(priv == nullptr, "(argument)");
        ++W->n_expired;
        break;
      }
      if (f.kind == Frame::RESET) {
        sync_reset(f);
        bool in = false;
        for (Ent *n : f.set) in = in || n == e;
        if (!in || e->exiting()) c.fail("task %d was entered by the reset of a manager", e->id);
        e->st = KILLED;
        e->forced = true;
        e->fpriv = nullptr;
        if (check_priv) CHECK(priv == nullptr, "(argument)");
        break;
      }
#endif
      Ent *n = frame_next(f, &dying);
      if (!n) {
        W->frames.pop_back();
        continue;
      }
      if (n != e) c.fail("task %d was entered although task %d is the next follower of %d", e->id, n->id, f.owner->id);
      if (dying) {
        e->st = TIMEOUT;
        e->forced = true;
        e->fpriv = nullptr;
        if (check_priv) CHECK(priv == nullptr, "(argument)");
      } else {
        if (check_priv) CHECK(priv == f.todo[f.pos].second, "(follower %d got another argument)", e->id);
        ++f.pos;
        ++W->n_follow;
        e->st = RUNNING;
      }
      break;
    }
  }
  ++e->busy;
  W->chain.push_back(e);
  check_all(false);
}
void left(Ent *e) {  // it suspends or ends
  CHECK(top() == e, "(model)");
  W->chain.pop_back();
  --e->busy;
}

void begin_frame(Ent *e, bool need) {
  Frame f;
  f.owner = e;
  f.need_onfin = need;
  f.todo.swap(e->nexts);
  if (f.todo.size() > 1) ++W->n_multi;
  W->frames.push_back(std::move(f));
}

void program(Ent *self);

int body(Ent *self, void *priv, bool has_priv = true) {
  auto &c = W->c;
  ++self->runs;
  CHECK_EQ(self->runs, 1, "(task %d started again)", self->id);
  self->started = true;
  entered(self, priv, has_priv);
  c.log("  %d starts", self->id);
  volatile int local = self->id * 77;
  for (;;) {
    size_t k = W->budget > 0 ? c.weighted({3, 5, 5}) : 0;
    if (k == 0) break;
    --W->budget;
    if (k == 1) {
      c.log("  %d yields", self->id);
      left(self);
      if (self->exiting()) {
        self->forced = true;
      } else {
        self->st = WAITING;
      }
      void *got = nullptr;
      int rc = c.coin() ? self->raw->yield(&got) : copp::this_coroutine::yield(&got);
      CHECK_EQ(rc, 0, "(yield of %d)", self->id);
      entered(self, got, true);
      c.log("  %d goes on", self->id);
    } else {
      program(self);
    }
  }
  CHECK_EQ(local, self->id * 77, "(local variable)");
  CHECK(!self->fin, "(ended twice)");
  self->ret = static_cast<int>(c.range(0, 9)) - 3;
  if (self->kind == 2 || (self->kind == 3 && self->form == 1)) self->ret = 0;  // a callable without result
  c.log("  %d ends with %d", self->id, self->ret);
  left(self);
  self->fin = true;
  self->forced = false;
  if (!self->exiting()) self->st = DONE;
  begin_frame(self, self->kind == 0);
  return self->ret;
}
int Ent::run_member(void *priv) { return body(this, priv); }
void Ent::run_member_void(void *priv) { body(this, priv); }

Probe::~Probe() {
  if (!e) return;
  if (!e->probes.erase(this)) cur().fail("the action of %d was destroyed twice", e->id);
  if (!e->armed) return;
  if (!e->probes.empty()) return;
  // the task is being destroyed
  if (e->st == CREATED) {
    begin_frame(e, false);  // its followers are not left behind
    e->gone = true;
  } else {
    CHECK(e->fin, "(the action of %d was destroyed before its body ended)", e->id);
    CHECK(e->nexts.empty(), "(the action of %d was destroyed before its followers ran)", e->id);
  }
}

struct Act : public cotask::impl::task_action_impl {
  Probe p;
  explicit Act(Ent *e) : p(e) {}
  Act(const Act &o) : cotask::impl::task_action_impl(), p(o.p) {}
  int operator()(void *priv) override { return body(p.e, priv); }
  int on_finished(cotask::impl::task_impl &t) override {
    Ent *e = p.e;
    auto &c = W->c;
    CHECK(&t == static_cast<cotask::impl::task_impl *>(e->raw), "(completion callback of another task)");
    ++e->onfin;
    CHECK_EQ(e->onfin, 1, "(completion callback of %d)", e->id);
    CHECK(e->fin, "(completion callback before the end of %d)", e->id);
    CHECK(!W->frames.empty(), "(completion callback)");
    CHECK(!W->frames.empty() && W->frames.back().owner == e && W->frames.back().need_onfin, "(completion callback)");
    W->frames.back().need_onfin = false;
    ++W->n_onfin;
    c.log("  %d completes", e->id);
    check_all(false);
    if (W->budget > 0 && c.chance(1, 4)) {
      --W->budget;
      ++e->busy;
      program(nullptr);
      --e->busy;
    }
    return static_cast<int>(c.range(0, 3));
  }
};
// callables of every shape that a task accepts
struct FnInt {
  Probe p;
  int operator()(void *priv) { return body(p.e, priv); }
};
struct FnIntC {
  Probe p;
  int operator()(void *priv) const { return body(p.e, priv); }
};
struct FnInt0 {
  Probe p;
  int operator()() { return body(p.e, nullptr, false); }
};
struct FnInt0C {
  Probe p;
  int operator()() const { return body(p.e, nullptr, false); }
};
struct FnVoid {
  Probe p;
  void operator()(void *priv) { body(p.e, priv); }
};
struct FnVoidC {
  Probe p;
  void operator()(void *priv) const { body(p.e, priv); }
};
struct FnVoid0 {
  Probe p;
  void operator()() { body(p.e, nullptr, false); }
};
struct FnVoid0C {
  Probe p;
  void operator()() const { body(p.e, nullptr, false); }
};
Ent *g_by_task() {
  auto *t = cotask::this_task::get_task();
  CHECK(t, "(no current task inside a task)");
  auto it = W->by_id.find(t->get_id());
  CHECK(it != W->by_id.end(), "(unknown task)");
  return it->second;
}
int fn_plain(void *priv) { return body(g_by_task(), priv); }
void fn_void(void *priv) { body(g_by_task(), priv); }
signed char fn_char(void *priv) { return static_cast<signed char>(body(g_by_task(), priv)); }

// calls f with the callable of e
template <class F>
void with_callable(Ent *e, F f) {
  switch (e->kind) {
    case 0: f(Act(e)); break;
    case 1:
      switch (e->form) {
        case 0: f(FnInt{Probe(e)}); break;
        case 1: f(FnIntC{Probe(e)}); break;
        case 2: f(FnInt0{Probe(e)}); break;
        case 3: f(FnInt0C{Probe(e)}); break;
        case 4: f(std::function<int(void *)>(FnIntC{Probe(e)})); break;
        default: {
          FnInt0C keep{Probe(e)};
          f(keep);  // copied
          break;
        }
      }
      break;
    case 2:
      switch (e->form) {
        case 0: f(FnVoid{Probe(e)}); break;
        case 1: f(FnVoidC{Probe(e)}); break;
        case 2: f(FnVoid0{Probe(e)}); break;
        default: f(FnVoid0C{Probe(e)}); break;
      }
      break;
    default:
      switch (e->form) {
        case 0: f(fn_plain); break;
        case 1: f(fn_void); break;
        default: f(fn_char); break;
      }
      break;
  }
}

Ent *new_ent(int kind) {
  std::unique_ptr<Ent> e(new Ent());
  e->id = static_cast<int>(W->ents.size()) + 1;
  e->kind = kind;
  e->form = static_cast<int>(W->c.pick(kind == 1 ? 6 : kind == 2 ? 4 : kind == 3 ? 3 : 2));
  W->ents.push_back(std::move(e));
  return W->ents.back().get();
}
void bind(Ent *e, const task_t::ptr_type &p) {
  e->raw = p.get();
  e->tid = p->get_id();
  CHECK(e->tid != 0, "(task id 0)");
  CHECK(W->by_id.emplace(e->tid, e).second, "(a task id was handed out twice)");
  e->armed = true;
}
const size_t kStack = 128 * 1024;

void create(pbt::Ctx &c) {
  if (W->ents.size() >= 8) return;
  int kind = static_cast<int>(c.weighted({8, 2, 1, 2, 2}));
  Ent *e = new_ent(kind);
  TrackAlloc al;
  task_t::ptr_type p;
  // with and without an allocator argument
  bool def = kind && c.chance(1, 6);
  if (kind == 0) {
    if (c.coin())
      p = task_t::create(Act(e), al, kStack);
    else
      p = task_t::create_with<Act>(al, kStack, 0, e);
  } else if (kind < 4) {
    with_callable(e, [&](auto &&f) {
      p = def ? task_t::create(std::forward<decltype(f)>(f), kStack) : task_t::create(std::forward<decltype(f)>(f), al, kStack);
    });
  } else if (e->form) {
    p = def ? task_t::create(&Ent::run_member_void, e, kStack) : task_t::create(&Ent::run_member_void, e, al, kStack);
  } else {
    p = def ? task_t::create(&Ent::run_member, e, kStack) : task_t::create(&Ent::run_member, e, al, kStack);
  }
  CHECK(!!p, "(task creation failed)");
  bind(e, p);
  e->h.push_back(std::move(p));
  e->refs = 1;
  c.log("create %d kind %d form %d%s", e->id, kind, e->form, def ? ", default allocator" : "");
  CHECK_EQ(e->raw->get_ret_code(), 0, "(result of a task that did not run)");
}

// start or resume
void enter_op(Ent *e, Mgr *m = nullptr) {
  auto &c = W->c;
  void *priv = mkpriv();
  size_t how = c.pick(5);
  if (m) c.log("through its manager:");
  c.log("%s %d (status %d)%s", how & 1 ? "resume" : "start", e->id, e->st, absorbed(e) ? " while it awaits" : "");
  int want = 0;
  bool spurious = absorbed(e);
  if (e->exiting())
    want = copp::COPP_EC_ALREADY_FINISHED;
  else if (e->st == RUNNING)
    want = copp::COPP_EC_IS_RUNNING;
  Op op;
  if (want == 0 && !spurious) {
    W->expect = e;
    W->expect_priv = priv;
  }
  if (want == 0 && spurious) ++W->n_spurious;
  if (want) ++W->n_refused;
  ++e->busy;
  int rc;
  std::list<std::exception_ptr> ex;
  task_t *t = e->raw;
  bool was_exiting = e->exiting();
  (void)was_exiting;
#if MGR
  if (m) {
    ++m->busy;
    ++e->refs;
    switch (how) {
      case 0: rc = m->p->start(e->tid, priv); break;
      case 1: rc = m->p->resume(e->tid, priv); break;
      case 2: rc = m->p->start(e->tid, VP_EX priv); break;
      default: rc = m->p->resume(e->tid, VP_EX priv); break;
    }
    --m->busy;
    --e->busy;
    CHECK_EQ(rc, want, "(entering task %d through its manager)", e->id);
    CHECK_EQ(ex.size(), 0u, "(exceptions)");
    settle(op.base);
    --e->refs;
    if (e->mgr == m && was_exiting) {  // killed while it runs: it leaves now, or when it ends
      if (!m->p->find_task(e->tid)) {
        leave(e);
        --e->refs;
      }
    } else if (e->mgr == m && e->exiting() && !e->fin && !m->p->find_task(e->tid)) {
      leave(e);
      --e->refs;
    }
    if (e->refs == 0) mark_gone(e);
    op.done();
    if (!e->gone) check_state(e);
    return;
  }
#endif
  auto *base = static_cast<cotask::impl::task_impl *>(t);
  bool shrt = !priv && c.coin();  // the overloads without an argument
  switch (how) {
    case 0: rc = shrt ? t->start() : t->start(priv); break;
    case 1: rc = shrt ? t->resume() : t->resume(priv); break;
    case 2: rc = t->start(VP_EX priv); break;
    case 3: rc = t->resume(VP_EX priv); break;
    default: rc = shrt ? base->start() : base->start(priv); break;
  }
  --e->busy;
  CHECK_EQ(rc, want, "(entering task %d)", e->id);
  CHECK_EQ(ex.size(), 0u, "(exceptions)");
  op.done();
  check_state(e);
}

void end_op(Ent *e, Mgr *m = nullptr) {
  auto &c = W->c;
  if (m) c.log("through its manager:");
  void *priv = mkpriv();
  bool cancel = c.chance(1, 3);
  int to = cancel ? CANCELED : static_cast<int>(c.weighted({4, 2, 1, 1}));
  if (!cancel) to = to == 0 ? KILLED : to == 1 ? TIMEOUT : to == 2 ? CANCELED : DONE;
  c.log("%s %d (status %d) to %d", cancel ? "cancel" : "kill", e->id, e->st, to);
  int want = 0;
  if (e->exiting())
    want = copp::COPP_EC_ALREADY_FINISHED;
  else if (cancel && e->st == RUNNING)
    want = copp::COPP_EC_IS_RUNNING;
  Op op;
  bool force = false;
  if (want == 0) {
    if (e->st != RUNNING) {
      force = true;
      e->forced = true;
    } else {
      ++W->n_killed_running;
    }
    e->fpriv = priv;
    e->st = to;
  } else {
    ++W->n_refused;
  }
  int rc;
  ++e->busy;
  std::list<std::exception_ptr> ex;
  task_t *t = e->raw;
  size_t how = c.pick(2);
#if MGR
  if (m) {
    auto ts = static_cast<cotask::EN_TASK_STATUS>(to);
    ++m->busy;
    if (want == 0) leave(e);
    if (cancel)
      rc = how ? m->p->cancel(e->tid, priv) : m->p->cancel(e->tid, VP_EX priv);
    else if (to == KILLED && c.coin())
      rc = m->p->kill(e->tid, priv);
    else
      rc = how ? m->p->kill(e->tid, ts, priv) : m->p->kill(e->tid, VP_EX ts, priv);
    --m->busy;
    --e->busy;
    CHECK_EQ(rc, want, "(%s of task %d through its manager)", cancel ? "cancel" : "kill", e->id);
    CHECK_EQ(ex.size(), 0u, "(exceptions)");
    if (force) CHECK(e->fin, "(task %d was ended but its body did not reach its end)", e->id);
    settle(op.base);
    if (want == 0) {
      --e->refs;
    } else if (want == copp::COPP_EC_ALREADY_FINISHED && e->mgr == m && !m->p->find_task(e->tid)) {
      leave(e);
      --e->refs;
    }
    if (e->refs == 0) mark_gone(e);
    op.done();
    if (!e->gone) check_state(e);
    return;
  }
#endif
  auto *base = static_cast<cotask::impl::task_impl *>(t);
  bool shrt = !priv && c.coin();  // the overloads without an argument
  if (cancel)
    rc = shrt ? (how ? t->cancel() : base->cancel()) : how ? t->cancel(priv) : t->cancel(VP_EX priv);
  else if (to == KILLED && how && c.coin())
    rc = shrt ? (c.coin() ? t->kill() : base->kill()) : c.coin() ? t->kill(priv) : base->kill(priv);
  else if (shrt)
    rc = how ? t->kill(static_cast<cotask::EN_TASK_STATUS>(to)) : base->kill(static_cast<cotask::EN_TASK_STATUS>(to));
  else
    rc = how ? t->kill(static_cast<cotask::EN_TASK_STATUS>(to), priv)
             : t->kill(VP_EX static_cast<cotask::EN_TASK_STATUS>(to), priv);
  --e->busy;
  CHECK_EQ(rc, want, "(%s of task %d)", cancel ? "cancel" : "kill", e->id);
  CHECK_EQ(ex.size(), 0u, "(exceptions)");
  if (force) CHECK(e->fin, "(task %d was ended but its body did not reach its end)", e->id);
  op.done();
  check_state(e);
}

bool awaited(Ent *e) {
  if (e->awaiting) return true;
  for (auto &p : W->ents)
    if (p->awaiting == e) return true;
  return false;
}
void drop_op(Ent *e) {
  auto &c = W->c;
  if (e->h.size() == 1 && (e->busy || awaited(e) || !W->bases.empty())) {
    // the last handle of somebody who runs, or is in use further up, stays
    bool safe = !e->busy && !awaited(e);
    for (auto &f : W->frames) safe = safe && f.owner != e;
    for (Ent *x : W->chain) safe = safe && x != e;
    if (!safe) return;
  }
  c.log("drop a handle of %d (%zu references, status %d)", e->id, e->refs, e->st);
  Op op;
  bool dies = e->refs == 1;
  if (dies && e->st == WAITING) {
    e->st = TIMEOUT;
    e->forced = true;
    e->fpriv = nullptr;
  }
  bool created = e->st == CREATED;
  if (dies && created && e->kind >= 3) {
    begin_frame(e, false);
    e->gone = true;
  }
  {
    task_t::ptr_type p = std::move(e->h.back());
    e->h.pop_back();
    if (!dies) --e->refs;
    p.reset();
  }
  if (dies) {
    CHECK(created || e->fin, "(task %d was destroyed before its end)", e->id);
    CHECK(!created || !e->started, "(an unstarted task %d ran when it was dropped)", e->id);
    CHECK_EQ(e->onfin, e->kind == 0 && !created ? 1 : 0, "(completion callback of %d)", e->id);
    e->refs = 0;
    mark_gone(e);
    CHECK_EQ(e->probes.size(), 0u, "(the action of %d was not destroyed)", e->id);
  }
  op.done();
}

#if CHAIN
void next_op(Ent *a, Ent *b) {  // b may be null or a: refused
  auto &c = W->c;
  void *priv = mkpriv();
  bool then = c.coin();
  bool bad = !b || a == b;
  c.log("%d runs after %d (status %d, %d)%s", b ? b->id : 0, a->id, b ? b->st : 0, a->st, bad ? " (misuse)" : "");
  Op op;
  ++a->busy;
  if (b) ++b->busy;
  if (bad) {
    ++W->n_misuse;
  } else if (a->exiting()) {
    ++W->n_immediate;
    if (eligible(b)) {
      W->expect = b;
      W->expect_priv = priv;
    }
  } else {
    a->nexts.emplace_back(b, priv);
    ++b->refs;
  }
  task_t::ptr_type bp = b ? task_t::ptr_type(b->raw) : task_t::ptr_type();
  task_t::ptr_type r = then ? a->raw->then(bp, priv) : a->raw->next(bp, priv);
  CHECK(r.get() == (bad ? a->raw : b->raw), "(chaining returned another task)");
  --a->busy;
  if (b) --b->busy;
  op.done();
}
// create the follower through next()/then()
void next_new(Ent *a) {
  auto &c = W->c;
  if (W->ents.size() >= 8) return;
  int kind = static_cast<int>(c.weighted({6, 2, 1, 2}));
  // the id map is filled in only after the call: a plain function cannot be run at once
  if (kind == 3 && a->exiting()) kind = 0;
  Ent *b = new_ent(kind);
  void *priv = mkpriv();
  bool then = c.coin();
  bool keep = c.coin();
  c.log("new %d kind %d runs after %d (status %d)%s", b->id, kind, a->id, a->st, keep ? "" : ", no handle kept");
  TrackAlloc al;
  // the model does not know the object yet: build it first in half of the cases
  if (c.coin() || a->exiting()) {
    task_t::ptr_type p;
    with_callable(b, [&](auto &&f) { p = task_t::create(std::forward<decltype(f)>(f), al, kStack); });
    bind(b, p);
    b->h.push_back(p);
    b->refs = 1;
    p.reset();
    next_op(a, b);
  } else {
    Op op;
    ++a->busy;
    task_t::ptr_type p;
    bool def = c.chance(1, 6);
    with_callable(b, [&](auto &&f) {
      p = then  ? a->raw->then(std::forward<decltype(f)>(f), priv)
          : def ? a->raw->next(std::forward<decltype(f)>(f), priv, kStack)
                : a->raw->next(std::forward<decltype(f)>(f), al, priv, kStack);
    });
    --a->busy;
    CHECK(p && p.get() != a->raw, "(chaining a new task failed)");
    bind(b, p);
    b->h.push_back(p);
    p.reset();
    a->nexts.emplace_back(b, priv);
    b->refs = 2;
    op.done();
  }
  if (!keep && b->h.size() == 1) drop_op(b);
}

void await_op(Ent *self) {  // self: the task whose body runs; somebody awaits somebody
  auto &c = W->c;
  std::vector<Ent *> v;
  for (auto &p : W->ents)
    if (!p->gone && !p->h.empty()) v.push_back(p.get());
  if (v.empty()) return;
  Ent *who = self;
  if (!self || c.chance(1, 5)) who = c.one_of(v);
  size_t k = c.weighted({8, 1, 1});
  Ent *target = k == 0 ? c.one_of(v) : k == 1 ? who : nullptr;
  bool foreign = who != top();
  // inside a plain coroutine that runs in the task, it is not the task that would wait
  bool in_raw = !foreign && self && c.chance(1, 8);
  int want = 0;
  if (!target)
    want = copp::COPP_EC_ARGS_ERROR;
  else if (target == who)
    want = copp::COPP_EC_TASK_CAN_NOT_WAIT_SELF;
  else if (target->exiting())
    want = copp::COPP_EC_TASK_IS_EXITING;
  else if (who->exiting())
    want = copp::COPP_EC_TASK_IS_EXITING;
  else if (foreign || in_raw)
    want = copp::COPP_EC_TASK_NOT_IN_ACTION;
  if (want == 0 && who != self) return;  // inside a completion callback of another task
  if (want == 0) {
    // waiting in a circle, or for somebody who can only go on when we do, is a dead end the test does not build
    for (Ent *x = target; x; x = x->awaiting)
      if (x == who) return;
    if (who->h.empty()) return;
  }
  c.log("%d awaits %d (%d)%s", who->id, target ? target->id : 0, target ? target->st : 0,
        want ? " (refused)" : "");
  if (want) {
    ++W->n_misuse;
    task_t::ptr_type tp = target ? task_t::ptr_type(target->raw) : task_t::ptr_type();
    if (in_raw) {
      TrackAlloc al;
      int rc = 0;
      task_t *wraw = who->raw;
      co_t::callback_type cb([&](void *) {
        CHECK(cotask::this_task::get_task() == nullptr, "(a plain coroutine is no task)");
        rc = wraw->await_task(tp);
        return 0;
      });
      auto co = co_t::create(std::move(cb), al, kStack);
      CHECK_EQ(co->start(), 0, "(plain coroutine)");
      CHECK(co->is_finished(), "(plain coroutine)");
      CHECK_EQ(rc, want, "(awaiting from a plain coroutine)");
    } else {
      int rc = c.coin() ? who->raw->await_task(tp) : who->raw->await_task(tp.get());
      CHECK_EQ(rc, want, "(misused await)");
    }
    check_all(false);
    return;
  }
  ++W->n_await;
  who->awaiting = target;
  target->nexts.emplace_back(who, nullptr);
  ++who->refs;
  ++target->refs;
  left(who);
  who->st = WAITING;
  int rc = c.coin() ? who->raw->await_task(target->h.back()) : who->raw->await_task(target->raw);
  entered(who, nullptr, false);
  if (target->exiting()) {
    CHECK_EQ(rc, 0, "(await of %d by %d)", target->id, who->id);
  } else {
    CHECK(who->exiting(), "(%d went on although %d has not ended)", who->id, target->id);
    CHECK_EQ(rc, copp::COPP_EC_TASK_IS_EXITING, "(await ended by the waiter's end)");
  }
  c.log("  %d goes on after %d", who->id, target->id);
  who->awaiting = nullptr;
  --target->refs;
}
#endif

#if MGR
// Seconds that do not fit into 31 or 32 bits, as a clock of the far future or one in small units has them. Sums of two of
// them fit into the 64-bit nanoseconds of the model.
int64_t far_seconds(pbt::Ctx &c) {
  static const int64_t far[] = {1000000000, 2147483646, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296, 4300000000};
  return far[c.pick(8)] + c.range(0, 2);
}
int64_t mktime_(pbt::Ctx &c, Mgr *m) {
  static const int ns[] = {0, 1, 500000000, 999999999};
#if TIMER
  if (m->last < 4000000000000000000 && c.chance(1, 12)) return far_seconds(c) * 1000000000 + (c.coin() ? ns[c.pick(4)] : 0);
#endif
  switch (c.weighted({4, 3, 1})) {
    case 0:
      return m->last + c.range(0, 3) * 1000000000LL + (c.coin() ? ns[c.pick(4)] : 0);
    case 1: {  // around a deadline
      std::vector<int64_t> v;
      for (Ent *e : m->members)
        if (e->timer) v.push_back(e->deadline);
      if (v.empty() || m->last == 0) return m->last + 1 + c.range(0, 2000000000);
      return c.one_of(v) + c.range(-1, 1);
    }
    default:
      return m->last - c.range(0, 2) * 700000000LL;
  }
}
void gen_timeout(pbt::Ctx &c, Mgr *m, int64_t *sec, int *nsec) {
  static const int ns[] = {0, 1, 500000000, 999999999};
  *sec = c.chance(1, 4) ? 0 : c.range(0, 4);
  if (TIMER && m->last < 4700000000000000000 && c.chance(1, 12)) *sec = far_seconds(c);
  *nsec = c.coin() ? ns[c.pick(4)] : 0;
}
void model_timer(Ent *e, int64_t sec, int nsec) {
  e->timer = sec > 0 || nsec > 0;
  if (e->timer) e->deadline = e->mgr->last + sec * 1000000000 + nsec;
}

void add_op(Mgr *m, Ent *e) {
  auto &c = W->c;
  int64_t sec = 0;
  int nsec = 0;
  bool timed = !m->reset_in_tick && (TIMER ? !c.chance(1, 5) : c.chance(1, 3));
  if (timed) gen_timeout(c, m, &sec, &nsec);
  int want = 0;
  if (!e)
    want = copp::COPP_EC_ARGS_ERROR;
  else if (m->in_reset)
    want = copp::COPP_EC_IN_RESET;
  else if (e->exiting())
    want = copp::COPP_EC_TASK_IS_EXITING;
  else if (e->mgr == m)
    want = copp::COPP_EC_ALREADY_EXIST;
  else if (e->mgr)
    want = copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
  c.log("add %d (status %d) to manager %d, timeout %lld.%09d%s", e ? e->id : 0, e ? e->st : 0, m->id, (long long)sec, nsec,
        want ? " (refused)" : "");
  task_t::ptr_type p = e ? e->h.back() : task_t::ptr_type();
  int rc = timed ? m->p->add_task(p, sec, nsec) : m->p->add_task(p);
  CHECK_EQ(rc, want, "(adding task %d)", e ? e->id : 0);
  if (want == 0) {
    ++W->n_added;
    e->mgr = m;
    m->members.push_back(e);
    ++e->refs;
    model_timer(e, sec, nsec);
  } else {
    ++W->n_add_refused;
    if (want == copp::COPP_EC_IN_RESET) ++W->n_in_reset;
  }
}

void tick_op(Mgr *m) {
  auto &c = W->c;
  int64_t now = mktime_(c, m);
  if (now < 0) now = 0;
  c.log("tick manager %d at %lld.%09lld", m->id, (long long)(now / 1000000000), (long long)(now % 1000000000));
  ++W->n_ticks;
  Op op;
  bool idle = now <= m->last || m->in_tick;
  int want = 0;
  if (!idle && m->in_reset) {
    want = copp::COPP_EC_IN_RESET;
    idle = true;
  }
  ++m->busy;
  bool first = !idle && m->last == 0;
  if (!idle) {
    if (first) {
      for (Ent *e : m->members)
        if (e->timer) e->deadline += now;
      m->last = now;
    } else {
      m->in_tick = true;
      Frame f;
      f.kind = Frame::TICK;
      f.m = m;
      f.now = now;
      for (Ent *e : m->members)
        if (e->timer && e->deadline >= now) ++W->n_untouched;
      W->frames.push_back(std::move(f));
    }
  }
  int rc = m->p->tick(static_cast<time_t>(now / 1000000000), static_cast<int>(now % 1000000000));
  --m->busy;
  CHECK_EQ(rc, want, "(tick)");
  settle(op.base);
  if (!idle && !first) {
    m->in_tick = false;
    m->reset_in_tick = false;
    m->last = now;
  }
  op.done();
}

void reset_op(Mgr *m, bool destroy) {
  auto &c = W->c;
  c.log("%s manager %d", destroy ? "destroy" : "reset", m->id);
  Op op;
  bool nested = m->in_reset;
  if (!nested) {
    ++W->n_reset;
    Frame f;
    f.kind = Frame::RESET;
    f.m = m;
    f.set = m->members;
    for (Ent *e : f.set) {
      if (e->st == RUNNING || e->exiting()) ++W->n_reset_busy;
      // leaves at once; the reset keeps a reference until it is done
      e->mgr = nullptr;
      e->timer = false;
    }
    m->members.clear();
    m->last = 0;
    if (m->in_tick) m->reset_in_tick = true;
    m->in_reset = true;
    W->frames.push_back(std::move(f));
  }
  ++m->busy;
  if (destroy)
    m->p.reset();
  else
    m->p->reset();
  --m->busy;
  settle(op.base);
  if (!nested) m->in_reset = false;
  op.done();
}

void mgr_op(Ent *self) {
  auto &c = W->c;
  (void)self;
  Mgr *m = W->mgrs[TIMER ? (c.chance(1, 5) ? 1 : 0) : c.pick(W->mgrs.size())].get();
  if (!m->p) return;
  std::vector<Ent *> v;  // anybody whose id is known
  for (auto &p : W->ents)
    if (!p->gone || c.chance(1, 4)) v.push_back(p.get());
  Ent *e = v.empty() ? nullptr : c.one_of(v);
  if (!m->members.empty() && c.chance(2, 3)) e = c.one_of(m->members);
#if TIMER
  size_t k = c.weighted({18, 6, 3, 4, 9, 36, 1, 1, 4});
#else
  size_t k = c.weighted({8, 6, 5, 4, 2, 2, 2, 1, 3});
#endif
  bool member = e && e->mgr == m && !m->in_reset;
  if (member && e->fin) return;  // about to leave
  if (!e && k != 0 && k < 5) return;
  int nf = m->in_reset ? copp::COPP_EC_IN_RESET : copp::COPP_EC_NOT_FOUND;
  switch (k) {
    case 0: {
      std::vector<Ent *> h;
      for (auto &p : W->ents)
        if (!p->gone && !p->h.empty()) h.push_back(p.get());
      if (h.empty()) return;
      add_op(m, c.chance(1, 20) ? nullptr : c.one_of(h));
      break;
    }
    case 1:
      if (W->chain.size() > 4) return;
      if (member) {
        ++W->n_by_id;
        enter_op(e, m);
      } else {
        c.log("start %d through manager %d (not there)", e->id, m->id);
        ++W->n_notfound;
        std::list<std::exception_ptr> ex;
        CHECK_EQ(c.coin() ? m->p->start(e->tid) : m->p->resume(e->tid VP_EX_LAST), nf, "(starting an unknown task)");
      }
      break;
    case 2:
      if (W->chain.size() > 4) return;
      if (member) {
        ++W->n_by_id;
        end_op(e, m);
      } else {
        c.log("kill %d through manager %d (not there)", e->id, m->id);
        ++W->n_notfound;
        CHECK_EQ(c.coin() ? m->p->kill(e->tid) : m->p->cancel(e->tid), nf, "(ending an unknown task)");
      }
      break;
    case 3: {
      if (W->chain.size() > 4) return;
      size_t how = c.pick(3);
      bool match = how != 2 || !member;
      c.log("remove %d (status %d) from manager %d%s", e->id, e->st, m->id,
            !member ? " (not there)" : match ? "" : " (wrong pointer)");
      if (!member || !match) {
        ++W->n_notfound;
        int rc;
        if (member) {  // another object with that id
          task_t::ptr_type other;
          for (auto &p : W->ents)
            if (!p->gone && p.get() != e && !p->h.empty()) other = p->h.back();
          if (!other) return;
          rc = m->p->remove_task(e->tid, other);
        } else {
          rc = m->p->remove_task(e->tid);
        }
        CHECK_EQ(rc, nf, "(removing an unknown task)");
        break;
      }
      ++W->n_by_id;
      Op op;
      bool force = e->st == WAITING, unstarted = e->st == CREATED;
      if (e->st == RUNNING) ++W->n_killed_running;
      if (e->st == RUNNING || e->st == WAITING) {
        e->st = KILLED;
        e->fpriv = nullptr;
        e->forced = force;
      }
      bool dies = e->refs == 1 && unstarted;
      leave(e);
      if (dies && e->kind >= 3) {
        begin_frame(e, false);
        e->gone = true;
      }
      ++e->busy;
      ++m->busy;
      int rc = how == 0 ? m->p->remove_task(e->tid) : m->p->remove_task(e->tid, e->raw);
      --m->busy;
      --e->busy;
      CHECK_EQ(rc, 0, "(removing task %d)", e->id);
      if (force) CHECK(e->fin, "(task %d was removed but its body did not reach its end)", e->id);
      settle(op.base);
      if (unstarted) CHECK(!e->started || e->refs > 1 || e->exiting() || e->st == RUNNING || e->st == WAITING, "(removed)");
      --e->refs;
      if (e->refs == 0) mark_gone(e);
      op.done();
      if (!e->gone) check_state(e);
      break;
    }
    case 4: {
      if (m->reset_in_tick) return;
      int64_t sec;
      int nsec;
      gen_timeout(c, m, &sec, &nsec);
      c.log("timeout of %d in manager %d: %lld.%09d", e->id, m->id, (long long)sec, nsec);
      int rc = m->p->set_timeout(e->tid, sec, nsec);
      CHECK_EQ(rc, member ? 0 : nf, "(setting a timeout)");
      if (member) {
        if (e->timer) ++W->n_timer_changed;
        model_timer(e, sec, nsec);
      } else {
        ++W->n_notfound;
      }
      break;
    }
    case 5:
      if (W->chain.size() > 4) return;
      tick_op(m);
      break;
    case 6:
      if (W->chain.size() > 4) return;
      reset_op(m, false);
      break;
    case 7: {
      if (m->busy || W->chain.size() > 4) return;
      bool inuse = m->in_tick || m->in_reset;
      if (inuse) return;
      ++W->n_destroyed;
      ++m->busy;
      reset_op(m, true);
      --m->busy;
      m->p = mgr_t::create();
      break;
    }
    default: {
      bool has = member;
      task_t::ptr_type f = m->p->find_task(e ? e->tid : 0);
      if (e && e->fin && e->mgr == m) return;
      CHECK((f.get() != nullptr) == has, "(lookup of task %d)", e ? e->id : 0);
      if (has) CHECK(f.get() == e->raw, "(lookup found another task)");
      break;
    }
  }
}
#endif

// self: the running task, or null at the top or inside a completion callback
void program(Ent *self) {
  auto &c = W->c;
  check_all(W->bases.empty());
  if (W->chain.size() >= 2) ++W->n_nest;
  std::vector<Ent *> v;
  for (auto &p : W->ents)
    if (!p->gone && !p->h.empty()) v.push_back(p.get());
#if MGR
  if (c.chance(TIMER ? 5 : 3, TIMER ? 6 : 5)) {
    mgr_op(self);
    check_all(W->bases.empty());
    return;
  }
  size_t k = c.weighted({6, 6, 2, 2, 4, 2, 1, 1});
#elif CHAIN
  size_t k = c.weighted({4, 8, 3, 2, 2, 7, 4, 6});
#else
  size_t k = c.weighted({4, 8, 5, 2, 3});
#endif
  if (v.empty()) k = 0;
  switch (k) {
    case 0:
      create(c);
      break;
    case 1: {
      Ent *e = c.one_of(v);
      if (W->chain.size() > 4) break;
      enter_op(e);
      break;
    }
    case 2: {
      Ent *e = c.one_of(v);
      if (W->chain.size() > 4) break;
      end_op(e);
      break;
    }
    case 3: {
      Ent *e = c.one_of(v);
      e->h.push_back(e->h.back());
      ++e->refs;
      break;
    }
    case 4: {
      Ent *e = c.one_of(v);
      if (W->chain.size() > 4) break;
      drop_op(e);
      break;
    }
#if CHAIN
    case 5: {
      Ent *a = c.one_of(v), *b = nullptr;
      if (!c.chance(1, 12)) b = c.one_of(v);
      // older tasks precede younger ones: no circles (which the library documents as leaks)
      if (b && b->id < a->id) std::swap(a, b);
      if (W->chain.size() > 4) break;
      next_op(a, b);
      break;
    }
    case 6:
      if (W->chain.size() > 4) break;
      next_new(c.one_of(v));
      break;
    case 7:
      await_op(self);
      break;
#endif
    default:
      break;
  }
  check_all(W->bases.empty());
}
}  // namespace

void pbt::setup_process() {}

void pbt::run_case(Ctx &c) {
  track().reset();
  {
    World w(c);
    W = &w;
#if MGR
    for (int i = 0; i < 2; ++i) {
      w.mgrs.emplace_back(new Mgr{i + 1, mgr_t::create()});
    }
#endif
    create(c);
    create(c);
#if TIMER
    w.budget = 90;
    create(c);
    create(c);
#endif
    Loop loop(c, TIMER ? 24 : 12, TIMER ? 80 : 50);
    while (w.budget > 0 && loop.next()) {
      --w.budget;
      program(nullptr);
    }
    w.budget = 0;
    c.log("-- end of the history");
#if MGR
    for (auto &m : w.mgrs) reset_op(m.get(), true);
#endif
    for (auto &p : w.ents) {
      if (p->gone || p->h.empty() || p->exiting()) continue;
      // a created task without followers may be dropped unstarted
      if (p->st == CREATED && p->nexts.empty() && c.coin()) continue;
      end_op(p.get());
    }
    for (auto &p : w.ents)
      while (!p->gone && !p->h.empty()) drop_op(p.get());
    for (auto &p : w.ents) {
      CHECK(p->gone, "(task %d is still alive)", p->id);
      CHECK_EQ(p->probes.size(), 0u, "(action of %d)", p->id);
      CHECK_EQ(p->runs, p->started ? 1 : 0, "(runs)");
      CHECK_EQ(p->fin, p->started, "(task %d was started and never ended)", p->id);
    }
    CHECK_EQ(track().live.size(), 0u, "(stacks left)");
    CHECK_EQ(track().allocated, track().released, "(stacks)");
#if MGR && TIMER
    if (w.n_expired && w.n_untouched) c.nontrivial();
#elif MGR
    if (w.n_added > 1 && (w.n_by_id || w.n_left) && (w.n_notfound || w.n_add_refused)) c.nontrivial();
#elif CHAIN
    if (w.n_follow && (w.n_await || w.n_multi || w.n_immediate)) c.nontrivial();
#else
    if (w.n_refused && (w.n_nest || w.n_forced)) c.nontrivial();
#endif
    if (w.n_follow) c.label("followers ran");
    if (w.n_await) c.label("awaited");
    if (w.n_forced) c.label("forced to the end");
    if (w.n_killed_running) c.label("killed while running");
    if (w.n_nest) c.label("nested");
    if (w.n_spurious) c.label("spurious resume while awaiting");
    if (w.n_misuse) c.label("misuse refused");
    if (w.n_immediate) c.label("chained onto an ended task");
    if (w.n_refused) c.label("operation refused");
#if MGR
    if (w.n_expired) c.label("expired");
    if (w.n_untouched) c.label("survived a tick with a timer");
    if (w.n_timer_changed) c.label("timer changed");
    if (w.n_left) c.label("left the manager by itself");
    if (w.n_by_id) c.label("operated by id");
    if (w.n_reset > 2) c.label("reset");
    if (w.n_reset_busy) c.label("reset with running tasks");
    if (w.n_in_reset) c.label("refused during a reset");
    if (w.n_destroyed) c.label("destroyed with tasks around");
#endif
    W = nullptr;
  }
}

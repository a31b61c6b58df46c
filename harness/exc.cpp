// C03: exceptions leaving coroutine and task bodies.  Generated programs of entering, yielding, throwing, catching,
// rethrowing and unwinding over several coroutines and tasks; every throw is recorded where it happens, and every call
// that enters somebody is compared with what was thrown while it ran.
#include <libcopp/coroutine/coroutine_context.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/utils/errno.h>
#include <libcotask/task.h>

#include <exception>
#include <list>
#include <set>
#include <stdexcept>

#include "common.h"

using pbt::cur;

const pbt::HarnessInfo pbt::info = {
    "exc",
    "a program of enter / yield / throw / catch / rethrow / unwind / kill / chain operations over up to 7 coroutines and "
    "tasks, entered through the throwing and the storing calls; every call is compared with the exceptions that left the "
    "bodies it ran; non-trivial: an exception left a body and another one was caught inside a body or crossed two bodies",
    false, 10};

namespace {
struct Macro {
  using stack_allocator_type = TrackAlloc;
  using coroutine_type = copp::coroutine_context_container<TrackAlloc>;
  using value_type = int;
};
using co_t = Macro::coroutine_type;
using task_t = cotask::task<Macro>;

// ------------------------------------------------------------------ thrown objects
std::set<const void *> &live() {
  static std::set<const void *> s;
  return s;
}
struct Tagged {
  int id;
  explicit Tagged(int i) : id(i) { live().insert(this); }
  Tagged(const Tagged &o) : id(o.id) { live().insert(this); }
  virtual ~Tagged() {
    if (!live().erase(this)) cur().fail("a thrown object was destroyed twice");
    id = -1;
  }
};
struct TaggedD : public Tagged {
  std::string payload;
  explicit TaggedD(int i) : Tagged(i), payload(static_cast<size_t>(40 + i % 7), 'x') {}
};
struct Exc {
  int kind = -1;
  int id = 0;
  bool operator==(const Exc &o) const { return kind == o.kind && id == o.id; }
};
constexpr int kKinds = 6;
const char *kind_name[] = {"int", "Tagged", "TaggedD", "string", "runtime_error", "shared_ptr"};
[[noreturn]] void raise(Exc e) {
  switch (e.kind) {
    case 0:
      throw e.id;
    case 1:
      throw Tagged(e.id);
    case 2:
      throw TaggedD(e.id);
    case 3:
      throw std::string(30, 'y') + std::to_string(e.id);
    case 4:
      throw std::runtime_error(std::to_string(e.id));
    default:
      throw std::make_shared<Tagged>(e.id);
  }
}
Exc identify(const std::exception_ptr &p) {
  if (!p) return Exc();
  try {
    std::rethrow_exception(p);
  } catch (int i) {
    return Exc{0, i};
  } catch (const TaggedD &d) {
    CHECK(d.payload == std::string(static_cast<size_t>(40 + d.id % 7), 'x'), "(payload of a thrown object)");
    return Exc{2, d.id};
  } catch (const Tagged &t) {
    return Exc{1, t.id};
  } catch (const std::string &s) {
    return Exc{3, std::stoi(s.substr(30))};
  } catch (const std::runtime_error &e) {
    return Exc{4, std::stoi(e.what())};
  } catch (const std::shared_ptr<Tagged> &s) {
    return Exc{5, s->id};
  } catch (...) {
  }
  return Exc{99, 0};
}

// ------------------------------------------------------------------ model
enum St { kReady, kSuspended, kRunning, kFinished };
struct Ent {
  int id = 0;
  bool is_task = false;
  co_t::ptr_type co;
  task_t::ptr_type task;
  St st = kReady;
  int try_depth = 0;
  int handlers = 0;
  int floor = 0;  // handlers open outside the destructor that is running: nothing may pass it
  bool ending = false;  // killed or cancelled: must not yield any more
  bool fin_throws = false;
  int finished_calls = 0;
  int thrown_out = 0;
};
struct Frame {
  std::vector<Exc> expected;
};
struct World {
  pbt::Ctx &c;
  std::vector<std::unique_ptr<Ent>> ents;
  std::vector<Ent *> chain;
  std::vector<Frame *> frames;
  Exc in_flight;
  int next_id = 0;
  int budget = 80;
  int depth_calls = 0;
  bool draining = false;
  int escaped = 0, caught_inside = 0, crossed = 0, unwinds = 0, stored = 0, multi = 0;
  explicit World(pbt::Ctx &cc) : c(cc) {}
};
World *W = nullptr;
Ent g_main;

Exc fresh() {
  Exc e;
  e.kind = static_cast<int>(W->c.draw(kKinds));
  e.id = ++W->next_id;
  return e;
}
// self lets e leave: its own handlers get it, or the call that entered it
void leaves(Ent *self, Exc e) {
  W->in_flight = e;
  if (self->try_depth == 0) {
    if (self == &g_main) cur().fail("internal: uncaught in main");
    W->c.log("  %s%d is left by %s#%d", self->is_task ? "task" : "co", self->id, kind_name[e.kind], e.id);
    W->frames.back()->expected.push_back(e);
    ++self->thrown_out;
    ++W->escaped;
  }
}
[[noreturn]] void do_throw(Ent *self, Exc e) {
  W->c.log("%d throws %s#%d", self->id, kind_name[e.kind], e.id);
  leaves(self, e);
  raise(e);
}

bool can_raise(Ent *self) {
  if (self->floor > 0) return self->try_depth > self->floor;
  return self != &g_main || self->try_depth > 0;
}

void body_loop(Ent *self, int depth);

struct BodyEnd {  // keeps the model in step however the body ends
  Ent *self;
  ~BodyEnd() {
    CHECK(W->chain.size() && W->chain.back() == self, "(control flow)");
    self->st = kFinished;
    W->chain.pop_back();
  }
};
int body(Ent *self) {
  CHECK(self->st == kReady, "(a body ran twice)");
  self->st = kRunning;
  W->chain.push_back(self);
  BodyEnd end{self};
  body_loop(self, 0);
  return self->id;
}

struct Act : public cotask::impl::task_action_impl {
  Ent *e;
  explicit Act(Ent *x) : e(x) {}
  int operator()(void *) override { return body(e); }
  int on_finished(cotask::impl::task_impl &) override {
    ++e->finished_calls;
    CHECK_EQ(e->finished_calls, 1, "(completion callback ran twice)");
    if (e->fin_throws) {
      Exc x = fresh();
      W->c.log("completion callback of task%d throws %s#%d", e->id, kind_name[x.kind], x.id);
      W->frames.back()->expected.push_back(x);
      ++W->escaped;
      raise(x);
    }
    return 0;
  }
};

void create_ent() {
  std::unique_ptr<Ent> e(new Ent());
  e->id = static_cast<int>(W->ents.size()) + 1;
  e->is_task = W->c.coin();
  Ent *raw = e.get();
  TrackAlloc al;
  if (e->is_task) {
    e->fin_throws = W->c.chance(1, 4);
    e->task = task_t::create(Act(raw), al, 128 * 1024);
    CHECK(e->task, "(task creation)");
  } else {
    e->co = co_t::create([raw](void *) { return body(raw); }, al, 128 * 1024);
    CHECK(e->co, "(coroutine creation)");
  }
  W->c.log("create %s%d", e->is_task ? "task" : "co", e->id);
  W->ents.push_back(std::move(e));
}

bool enterable(Ent *e) { return e->st == kReady || e->st == kSuspended; }

// popped however the call ends; when an exception passes, hands it on in the model
struct FrameGuard {
  Frame f;
  Ent *from;
  int uncaught;
  Exc saved;
  bool done = false;
  explicit FrameGuard(Ent *fr) : from(fr), uncaught(std::uncaught_exceptions()) { W->frames.push_back(&f); }
  void pop() {
    CHECK(W->frames.back() == &f, "(control flow)");
    W->frames.pop_back();
    done = true;
  }
  ~FrameGuard() {
    if (done) return;
    pop();
    if (std::uncaught_exceptions() > uncaught) {
      if (f.expected.empty()) cur().fail("an exception surfaced that no body let out");
      ++W->crossed;
      leaves(from, f.expected.front());
    }
  }
};

enum Call { kEnterStart, kEnterResume, kKill, kCancel, kNext };

int invoke(Call call, Ent *to, Ent *other) {
  switch (call) {
    case kEnterStart:
      return to->is_task ? to->task->start(static_cast<void *>(nullptr)) : to->co->start();
    case kEnterResume:
      return to->is_task ? to->task->resume(static_cast<void *>(nullptr)) : to->co->resume();
    case kKill:
      return to->task->kill(cotask::EN_TS_KILLED, nullptr);
    case kCancel:
      return to->task->cancel(static_cast<void *>(nullptr));
    default:
      to->task->next(other->task);
      return 0;
  }
}
int invoke_slot(Call call, Ent *to, std::exception_ptr &ep, std::list<std::exception_ptr> &l) {
  switch (call) {
    case kEnterStart:
      return to->is_task ? to->task->start(l, nullptr) : to->co->start(ep);
    case kEnterResume:
      return to->is_task ? to->task->resume(l, nullptr) : to->co->resume(ep);
    case kKill:
      return to->task->kill(l, cotask::EN_TS_KILLED, nullptr);
    default:
      return to->task->cancel(l, nullptr);
  }
}

void handler_ops(Ent *self, Exc e, int depth);

void perform(Ent *self, Call call, Ent *to, Ent *other, int depth, bool may_propagate) {
  // what the call may do
  bool runs = true;
  if (call == kEnterStart || call == kEnterResume) runs = enterable(to);
  if (call == kKill || call == kCancel) {
    if (to->st == kRunning) {
      runs = false;
    } else {
      to->ending = true;
    }
  }
  bool was_running = to->st == kRunning;
  if (call == kKill && was_running) to->ending = true;
  // 0 stored, 1 thrown and caught here, 2 thrown and let through
  size_t how = W->c.weighted({call == kNext ? 0u : 4u, 4, may_propagate ? 3u : 0u});
  W->c.log("%d: %s %s%d (%s) [%s]", self->id,
           call == kEnterStart ? "start" : call == kEnterResume ? "resume" : call == kKill ? "kill" : call == kCancel ? "cancel" : "next",
           to->is_task ? "task" : "co", to->id,
           to->st == kReady ? "ready" : to->st == kSuspended ? "suspended" : to->st == kRunning ? "running" : "finished",
           how == 0 ? "stored" : how == 1 ? "caught" : "let through");
  size_t chain0 = W->chain.size();
  int rc = -9999;
  if (how == 0) {
    FrameGuard g(self);
    std::exception_ptr ep;
    std::list<std::exception_ptr> l;
    Exc sentinel;
    if (W->c.chance(1, 4)) {
      sentinel = Exc{1, 1000000 + ++W->next_id};
      ep = std::make_exception_ptr(Tagged(sentinel.id));
      l.push_back(ep);
    }
    rc = invoke_slot(call, to, ep, l);
    g.pop();
    auto &x = g.f.expected;
    if (to->is_task) {
      std::vector<Exc> got;
      for (auto &p : l) got.push_back(identify(p));
      std::vector<Exc> want;
      if (sentinel.kind >= 0) want.push_back(sentinel);
      want.insert(want.end(), x.begin(), x.end());
      CHECK(got == want, "(%zu exceptions stored, %zu expected)", got.size(), want.size());
      if (x.size() > 1) ++W->multi;
    } else {
      CHECK(x.size() <= 1, "(internal)");
      Exc want = x.empty() ? sentinel : x[0];
      CHECK(identify(ep) == want, "(the stored exception is %s)", ep ? "another one" : "missing");
    }
    if (!x.empty()) ++W->stored;
  } else if (how == 1) {
    bool thrown = false;
    Exc e;
    {
      FrameGuard g(self);
      try {
        rc = invoke(call, to, other);
        g.pop();
        CHECK(g.f.expected.empty(), "(an exception that left a body did not surface)");
      } catch (...) {
        g.pop();
        CHECK(!g.f.expected.empty(), "(an exception surfaced that no body let out)");
        e = g.f.expected.front();
        CHECK(identify(std::current_exception()) == e, "(another exception surfaced)");
        thrown = true;
        W->c.log("%d catches %s#%d", self->id, kind_name[e.kind], e.id);
        handler_ops(self, e, depth);
      }
    }
    if (thrown) rc = 0;
  } else {
    FrameGuard g(self);
    rc = invoke(call, to, other);
    g.pop();
    CHECK(g.f.expected.empty(), "(an exception that left a body did not surface)");
  }
  CHECK(W->chain.size() == chain0, "(control flow)");
  if (call == kEnterStart || call == kEnterResume) {
    if (runs)
      CHECK(rc == 0, "(entering failed: %d)", rc);
    else
      CHECK(rc < 0, "(entering somebody %s succeeded)", was_running ? "running" : "finished");
    if (runs && !(to->st == kSuspended || to->st == kFinished)) cur().fail("internal: state after entering");
  }
  if (runs && to->thrown_out) {
    CHECK(to->is_task ? to->task->is_completed() : to->co->is_finished(), "(not finished after an exception left it)");
  }
}

void steps(Ent *self, int depth, unsigned avg);

struct Unwinder {  // enters somebody while an exception is in flight
  Ent *self;
  int depth;
  bool armed = true;
  ~Unwinder() {
    if (!armed || W->chain.size() > 4 || W->ents.empty()) return;
    Exc keep = W->in_flight;
    int n = std::uncaught_exceptions();
    Ent *to = W->c.one_of(W->ents).get();
    ++self->try_depth;  // nothing may leave a destructor
    ++self->handlers;   // and nothing may be left half unwound: no yield here
    int floor = self->floor;
    self->floor = self->try_depth;
    if (to->is_task && to->fin_throws == false && to->st != kRunning && W->c.chance(1, 4)) {
      perform(self, W->c.coin() ? kKill : kEnterStart, to, nullptr, depth + 1, false);
    } else {
      perform(self, W->c.coin() ? kEnterResume : kEnterStart, to, nullptr, depth + 1, false);
    }
    self->floor = floor;
    --self->handlers;
    --self->try_depth;
    CHECK_EQ(std::uncaught_exceptions(), n, "(exceptions in flight)");
    W->in_flight = keep;
    ++W->unwinds;
  }
};

// inside a handler of self for e: the handler may enter others, throw something else, or let e go on - but not yield
void handler_ops(Ent *self, Exc e, int depth) {
  if (self != &g_main) ++W->caught_inside;
  ++self->handlers;
  struct Out {
    Ent *s;
    ~Out() { --s->handlers; }
  } out{self};
  if (!W->draining && depth < 5 && W->c.chance(1, 2)) {
    steps(self, depth + 1, 1);
    CHECK(identify(std::current_exception()) == e, "(the handled exception changed while others ran)");
  }
  if (!W->draining && can_raise(self) && W->c.chance(1, 4)) {
    W->c.log("%d rethrows %s#%d", self->id, kind_name[e.kind], e.id);
    leaves(self, e);
    throw;
  }
  if (!W->draining && can_raise(self) && W->c.chance(1, 8)) do_throw(self, fresh());
}

__attribute__((noinline)) void try_block(Ent *self, int depth) {
  ++self->try_depth;
  struct Dec {
    Ent *s;
    bool on = true;
    void off() {
      if (on) --s->try_depth;
      on = false;
    }
    ~Dec() { off(); }
  };
  Dec dec{self};
  int tag = W->c.weighted({3, 2, 2}) == 0 ? 0 : 1;
  try {
    if (W->c.chance(1, 3)) {
      Unwinder u{self, depth};
      steps(self, depth + 1, 2);
      if (can_raise(self) && W->c.coin()) do_throw(self, fresh());
      u.armed = false;
    } else {
      steps(self, depth + 1, 2);
      if (can_raise(self) && W->c.coin()) do_throw(self, fresh());
    }
  } catch (const Tagged &t) {  // by type, the rest below
    dec.off();
    Exc e = W->in_flight;
    CHECK((e.kind == 1 || e.kind == 2) && t.id == e.id, "(a handler got #%d instead of #%d)", t.id, e.id);
    handler_ops(self, e, depth);
  } catch (...) {
    dec.off();
    Exc e = W->in_flight;
    CHECK(identify(std::current_exception()) == e, "(a handler got another exception)");
    handler_ops(self, e, depth);
  }
  (void)tag;
}

void do_yield(Ent *self) {
  W->c.log("%s%d yields", self->is_task ? "task" : "co", self->id);
  CHECK(W->chain.back() == self, "(control flow)");
  W->chain.pop_back();
  self->st = kSuspended;
  int rc = self->is_task && W->c.coin() ? self->task->yield(nullptr) : copp::this_coroutine::yield();
  CHECK_EQ(rc, 0, "(yield)");
  self->st = kRunning;
  W->chain.push_back(self);
}

void step(Ent *self, int depth) {
  auto &c = W->c;
  bool in_body = self != &g_main;
  switch (c.weighted({5, 3, in_body && self->handlers == 0 && !self->ending ? 5u : 0u, depth < 5 ? 3u : 0u,
                      can_raise(self) ? 2u : 0u, 2, 2})) {
    case 0: {
      std::vector<Ent *> v;
      for (auto &p : W->ents)
        if (enterable(p.get())) v.push_back(p.get());
      if (v.empty() || W->chain.size() > 4) break;
      Ent *to = c.one_of(v);
      perform(self, c.coin() ? kEnterResume : kEnterStart, to, nullptr, depth, can_raise(self));
      break;
    }
    case 1: {
      if (W->chain.size() > 4) break;
      perform(self, c.coin() ? kEnterResume : kEnterStart, c.one_of(W->ents).get(), nullptr, depth, can_raise(self));
      break;
    }
    case 2:
      do_yield(self);
      break;
    case 3:
      try_block(self, depth);
      break;
    case 4:
      do_throw(self, fresh());
    case 5:
      if (W->ents.size() < 7) create_ent();
      break;
    case 6: {
      std::vector<Ent *> v;
      for (auto &p : W->ents)
        if (p->is_task) v.push_back(p.get());
      if (v.empty() || W->chain.size() > 4) break;
      Ent *t = c.one_of(v);
      bool prop = can_raise(self);
      size_t k = c.pick(3);
      if (k == 0) {
        if (t->st == kFinished || t->ending) break;
        perform(self, kKill, t, nullptr, depth, prop);
      } else if (k == 1) {
        if (t->st == kFinished || t->ending) break;
        perform(self, kCancel, t, nullptr, depth, prop);
      } else {
        Ent *n = c.one_of(v);
        if (n == t) break;
        perform(self, kNext, t, n, depth, prop);
      }
      break;
    }
  }
}

void steps(Ent *self, int depth, unsigned avg) {
  pbt::Loop loop(W->c, avg, 10);
  while (!W->draining && W->budget > 0 && loop.next()) {
    --W->budget;
    step(self, depth);
  }
}
void body_loop(Ent *self, int depth) { steps(self, depth, 4); }
}  // namespace

void pbt::setup_process() {}

void pbt::run_case(Ctx &c) {
  track().reset();
  live().clear();
  {
    World w(c);
    W = &w;
    g_main = Ent();
    create_ent();
    size_t n = static_cast<size_t>(c.range(1, 3));
    for (size_t i = 0; i < n; ++i) create_ent();
    Loop loop(c, 10, 40);
    while (w.budget > 0 && loop.next()) {
      --w.budget;
      ++g_main.try_depth;
      try {
        step(&g_main, 0);
        --g_main.try_depth;
      } catch (...) {
        --g_main.try_depth;
        Exc e = w.in_flight;
        CHECK(identify(std::current_exception()) == e, "(main caught another exception)");
      }
      CHECK(!std::current_exception(), "(an exception is still being handled)");
      CHECK_EQ(std::uncaught_exceptions(), 0, "(exceptions in flight)");
      CHECK(w.frames.empty() && w.chain.empty() && g_main.handlers == 0, "(internal)");
    }
    // finish everybody so that all locals go away, then drop all
    w.draining = true;
    for (int round = 0; round < 200; ++round) {
      bool any = false;
      for (auto &p : w.ents) {
        if (!enterable(p.get())) continue;
        any = true;
        perform(&g_main, kEnterResume, p.get(), nullptr, 9, false);
      }
      if (!any) break;
    }
    for (auto &p : w.ents) {
      CHECK(p->st == kFinished, "(internal: %d not finished)", p->id);
      CHECK(p->is_task ? p->task->is_completed() : p->co->is_finished(), "(%d)", p->id);
      // entering again delivers nothing
      FrameGuard g(&g_main);
      std::exception_ptr ep;
      std::list<std::exception_ptr> l;
      int rc = invoke_slot(kEnterResume, p.get(), ep, l);
      CHECK(rc < 0 && !ep && l.empty(), "(a finished one was entered or delivered again: %d)", rc);
      g.pop();
      if (p->is_task) CHECK_EQ(p->finished_calls, 1, "(completion callbacks)");
    }
    if (w.escaped && (w.caught_inside || w.crossed)) c.nontrivial();
    if (w.escaped) c.label("left a body");
    if (w.crossed) c.label("crossed a body");
    if (w.caught_inside) c.label("caught inside a body");
    if (w.unwinds) c.label("entered while unwinding");
    if (w.stored) c.label("stored");
    if (w.multi) c.label("several stored in one call");
    w.ents.clear();
    CHECK_EQ(live().size(), 0u, "(thrown objects left)");
    CHECK_EQ(track().live.size(), 0u, "(stacks left)");
    W = nullptr;
  }
}

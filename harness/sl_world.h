// C10 / C11 / C14 / C15 / C16 / C18: generated histories of stackless coroutines (callables, tasks, generators,
// some/any/all and, with P_MGR, task managers) against an online model.
//
// Every coroutine body runs a script drawn when it was created, so what is drawn does not depend on the order in which
// several waiters of one future are woken.  The model keeps, for every coroutine, its status, what it is suspended on
// and whether something entitles it to run.  Every resumption of a body is checked against that (suspended there, entitled,
// right value or status); whenever control is back at the top, no entitled coroutine may still be suspended.
//
// The including file defines the weights: P_GEN, P_CALL, P_TASK, P_SOME, P_MGR (0: no managers), P_TICK, P_SF (0: no
// stackful tasks).
#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <utility>
#include <vector>

#include "pbt.h"

#ifndef P_MGR
#  define P_MGR 0
#endif
#ifndef P_TICK
#  define P_TICK 1
#endif
#ifndef P_SF
#  define P_SF 0
#endif
#if P_MGR || P_SF
#  include <libcotask/task_manager.h>
#endif
#if P_SF
#  include <libcopp/coroutine/coroutine_context_container.h>
#  include <libcotask/task.h>
#  include "common.h"
#endif

using pbt::cur;

namespace {
using ST = copp::promise_status;
enum VT { INT, VAL, NIL };
enum Kind { CALL, TASK, SOME, SFK };
constexpr int kMoved = -1000;

struct World;
World *W = nullptr;

struct Val {
  int tag;
  std::unique_ptr<int> heap;  // owned memory: a leak or a double release of a value is a leak or double release here
  static long live;
  static std::map<int, int> *copies;
  Val() : tag(0), heap(new int(0)) { ++live; }
  explicit Val(int t) : tag(t), heap(new int(t)) { ++live; }
  explicit Val(ST s) : tag(-static_cast<int>(s)), heap(new int(-static_cast<int>(s))) { ++live; }
  Val(const Val &o) : tag(o.tag), heap(o.heap ? new int(*o.heap) : nullptr) {
    ++live;
    if (copies) ++(*copies)[tag];
  }
  Val(Val &&o) noexcept : tag(o.tag), heap(std::move(o.heap)) {
    ++live;
    o.tag = kMoved;
  }
  Val &operator=(const Val &o) {
    tag = o.tag;
    heap.reset(o.heap ? new int(*o.heap) : nullptr);
    if (copies) ++(*copies)[tag];
    return *this;
  }
  Val &operator=(Val &&o) noexcept {
    if (this != &o) {
      tag = o.tag;
      heap = std::move(o.heap);
      o.tag = kMoved;
    }
    return *this;
  }
  ~Val() { --live; }
};
long Val::live = 0;
std::map<int, int> *Val::copies = nullptr;

struct Priv {
  int v = 77;
};

template <class T>
struct VtOf;
template <>
struct VtOf<int> {
  static constexpr VT v = INT;
};
template <>
struct VtOf<Val> {
  static constexpr VT v = VAL;
};
template <>
struct VtOf<void> {
  static constexpr VT v = NIL;
};

template <class T>
using GenF = copp::generator_future<T>;
template <class T>
using CallF = copp::callable_future<T>;
template <class T>
struct TaskOf {
  using type = cotask::task_future<T, Priv>;
};
template <>
struct TaskOf<Val> {
  using type = cotask::task_future<Val, void>;
};
template <class T>
using TaskF = typename TaskOf<T>::type;
using SomeF = CallF<ST>;

int err(VT vt, ST s) {
  if (vt == INT) return s <= ST::kCreated ? -1 : -static_cast<int>(s);
  return -static_cast<int>(s);
}
int tag_of(int v) { return v; }
int tag_of(const Val &v) {
  if (v.heap && *v.heap != v.tag) cur().fail("a value does not match the memory it owns");
  return v.tag;
}
template <class T>
T mk(int tag) {
  return T(tag);
}

struct Actor;
struct GenObj;

struct HandleB {
  virtual ~HandleB() {}
};
template <class F>
struct HandleT : HandleB {
  F f;
  explicit HandleT(F &&x) : f(std::move(x)) {}
};

struct GenObj {
  int id = 0;
  VT vt = INT;
  int mode = 0;  // 0: callbacks record, 1: the suspend callback sets the value at once, 2: no callbacks,
                 // 3: the suspend callback sets the value of another generator
  std::vector<std::unique_ptr<HandleB>> hs;  // handles the harness keeps
  int handles = 0;                           // all of them
  int setting = 0;
  void *ctx = nullptr;
  bool ready = false, dead = false, consumed = false, multi = false;
  int tag = 0;
  std::vector<Actor *> waiters;
  int some_refs = 0;   // lists of pending some() calls it is in
  bool in_some = false;  // has ever been in one
  long cb_suspend = 0, cb_resume = 0, want_suspend = 0, want_resume = 0;
};

struct Step {
  int kind = 0;
  unsigned a = 0, b = 0, c = 0;
  std::unique_ptr<struct Script> sub;
};
struct Script {
  std::vector<Step> steps;
  VT vt = INT;
  int kind = CALL;
};

struct SomeBox;
struct Actor;

#if P_SF
// a stackful task
struct SfMacro {
  using stack_allocator_type = TrackAlloc;
  using coroutine_type = copp::coroutine_context_container<TrackAlloc>;
  using value_type = int;
};
using sf_task = cotask::task<SfMacro>;
enum { SF_CREATED = 1, SF_RUNNING = 2, SF_WAITING = 3, SF_DONE = 4, SF_CANCELED = 5, SF_KILLED = 6, SF_TIMEOUT = 7 };
struct Sf {
  int id = 0;
  std::vector<sf_task::ptr_type> h;  // handles the harness keeps
  int refs = 0;                      // all of them
  int st = SF_CREATED;
  bool started = false, in_body = false, finished = false, gone = false, pinned = false;
  int ret = 0, toks = 0, entries = 0;
  std::vector<Sf *> follow;
  std::vector<Actor *> waiters;
  std::unique_ptr<Script> script;
  bool ended() const { return finished || gone; }
};
struct SfFn {
  Sf *t;
  explicit SfFn(Sf *x) : t(x) { ++t->toks; }
  SfFn(const SfFn &o) : t(o.t) { ++t->toks; }
  ~SfFn() { --t->toks; }
  int operator()(void *);
};
#else
struct Sf {
  bool ended() const { return false; }
};
#endif

#if P_MGR
struct Mgr {
  using type = cotask::task_manager<TaskF<int>>;
  int id = 0;
  std::unique_ptr<type> p;
  std::vector<Actor *> in;
  int64_t last = 0;  // nanoseconds; 0: never ticked
  bool in_tick = false, in_reset = false, reset_in_tick = false;
  int ops = 0;  // operations of it under way
};
#else
struct Mgr {};
#endif
// an operation of a manager under way: what it still has to do besides running the bodies that tell us themselves
struct Frame {
  enum Kind { DROPS, TICK, RESET } kind = DROPS;
  Mgr *m = nullptr;
  int64_t now = 0;
  std::vector<Actor *> kill, drop;
};

struct Actor {
  int id = 0;
  Kind kind = CALL;
  VT vt = INT;
  ST st = ST::kCreated;
  bool started = false, returned = false;
  bool running = false;  // its body (or the await_resume it is woken through) is on the stack
  bool detached = false;
  bool consumed = false, multi = false;
  bool kill_only = false;  // killed before it was started
  Actor *on = nullptr;
  GenObj *on_gen = nullptr;
  bool on_some = false;
  Sf *on_sf = nullptr;
  Actor *owner = nullptr;
  bool forced = false;  // killed by force before it was started
  Actor *reading = nullptr;  // the future it is taking a result from without having been suspended
  Actor *child = nullptr;  // the local callable or some() it is working with
  std::vector<Actor *> waiters;
  int handles = 0;
  int ret = 0;
  int toks = 0, locals = 0;
  std::unique_ptr<Script> script;
  uint64_t tid = 0;
  void *priv = nullptr;
  cotask::task_context_base<int> *ctx = nullptr;
  int privv = 77;
  ST final_st = ST::kInvalid;
  // SOME
  SomeBox *box = nullptr;
  SomeF *fut = nullptr;
  size_t bound = 0;
  Mgr *mgr = nullptr;
  int64_t deadline = 0;  // 0: none; relative while the manager has not ticked yet
  bool killed = false, was_enough = false;
  std::vector<std::pair<GenObj *, Actor *>> members;
  bool suspended() const { return (on || on_gen || on_some || on_sf) && !running; }
};

// the list a some() call works on: owns copies of handles, refers to callables kept elsewhere
struct SomeBox {
  virtual ~SomeBox() {}
  virtual void check_ready(Actor *s) = 0;
  virtual void bury() = 0;
};

struct Slot {
  Actor *a = nullptr;
  std::unique_ptr<HandleB> h;
  std::unique_ptr<SomeBox> box;
  bool reserved = false;
};

struct Tok {
  Actor *a;
  explicit Tok(Actor *x) : a(x) { ++a->toks; }
  Tok(const Tok &o) : a(o.a) { ++a->toks; }
  Tok &operator=(const Tok &) = delete;
  ~Tok() { --a->toks; }
};

// copyable state of a callback which shows when it has been destroyed
struct CbOwned {
  int id;
  long pad[3] = {0, 0, 0};
  explicit CbOwned(int i) : id(i) {}
  CbOwned(const CbOwned &) = default;
  ~CbOwned() { *const_cast<volatile int *>(&id) = -1; }
};

struct World {
  pbt::Ctx &c;
  std::vector<std::unique_ptr<GenObj>> gens;
  std::vector<std::unique_ptr<Actor>> actors;
  std::vector<Slot> slots;
  std::vector<std::pair<Actor *, std::unique_ptr<HandleB>>> grave;
  std::vector<std::pair<GenObj *, std::unique_ptr<HandleB>>> gen_grave;
  std::vector<std::unique_ptr<SomeBox>> box_grave;
  std::vector<std::unique_ptr<Mgr>> mgrs;
  std::vector<Frame *> frames;
  std::vector<std::unique_ptr<Sf>> sfs;
  bool closing = false, sf_final = false;
  int next_tag = 1;
  int depth = 0;
  int n_killed = 0, n_forced = 0, n_multi = 0, n_detached = 0, n_some = 0, n_some_wait = 0, n_late = 0, n_dropped_wait = 0, n_nested = 0,
      n_value = 0, n_error = 0, n_gen_dropped = 0, n_inbody_kill = 0, n_child = 0, n_refused = 0, n_copy = 0, n_unstarted = 0,
      n_sync = 0, n_silent = 0, n_expired = 0, n_left = 0, n_added = 0, n_add_refused = 0, n_mgr_reset = 0, n_untouched = 0, n_notfound = 0,
      n_mgr_nested = 0, n_reset = 0, n_null = 0, n_moved = 0, n_over = 0, n_flight = 0, n_sf_woken = 0, n_sf_killed = 0, n_sf_late = 0, n_sf_gone = 0, n_sf_nested = 0, n_sf_multi = 0, n_sf_next = 0, n_sf_left = 0;
  explicit World(pbt::Ctx &cc) : c(cc) { slots.resize(6); }

  // ---------------------------------------------------------------- model
  static bool member(const std::vector<Actor *> &v, const Actor *a) { return std::find(v.begin(), v.end(), a) != v.end(); }
  static void erase(std::vector<Actor *> &v, const Actor *a) {
    auto it = std::find(v.begin(), v.end(), a);
    if (it != v.end()) v.erase(it);
  }

  size_t some_ended(Actor *s, bool surely) {
    size_t n = 0;
    for (auto &m : s->members) {
      if (m.first) n += m.first->ready;
      else n += surely ? m.second->returned : m.second->st >= ST::kDone;
    }
    return n;
  }
  // a some() has no body of its own to tell us: look, and check that it was right to end
  bool ret(Actor *x) {
    if (x->kind != SOME || x->returned) return x->returned;
    if (!x->fut || !x->fut->is_ready()) return false;
    x->returned = true;
    x->on_some = false;
    x->running = false;
    if (!x->killed && x->st < ST::kDone) {
      if (some_ended(x, false) < x->bound)
        c.fail("some#%d ended although only %zu of %zu members have", x->id, some_ended(x, false), x->bound);
      x->st = ST::kDone;
    }
    x->box->check_ready(x);
    for (auto &m : x->members)
      if (m.first) --m.first->some_refs;
    return true;
  }

  // is a coroutine that is on the stack reached through callables x waits for? (the library cannot resume that one again)
  bool strict(Actor *y) {
    if (y->running) return true;
    if (y->kind != CALL || !y->on || y->on->kind != CALL || y->on->returned) return false;
    return strict(y->on);
  }
  bool hazard(Actor *x) {
    if (x->running) return true;
    Actor *y = x->on;
    if (!y || y->kind != CALL || y->returned) return false;
    if (y->running) return y->owner == x || x->detached;
    return strict(y);
  }
  bool reaches(Actor *x, Actor *a, int lim = 40) {
    if (x == a) return true;
    if (lim == 0) return true;
    if (x->kind == SOME) {
      if (ret(x)) return false;
      for (auto &m : x->members)
        if (m.second && reaches(m.second, a, lim - 1)) return true;
      return false;
    }
    if (x->child && reaches(x->child, a, lim - 1)) return true;
    return x->on && reaches(x->on, a, lim - 1);
  }
  bool pinned(Actor *a) {
    for (auto &p : actors) {
      if (p->kind == SOME && p->fut && !ret(p.get()))
        for (auto &m : p->members)
          if (m.second == a) return true;
      if (p->detached && p->on == a) return true;
      if (p->reading == a) return true;
    }
    return false;
  }

  // c was killed (or inherited a kill): what the library does to the one it waits for, and to itself
  void resume_waiting(Actor *x) {
    if (!x->suspended()) return;
    Actor *w = x->on;
    if (w && w->kind != TASK && !ret(w) && !x->detached) {
      x->detached = true;
      ++n_detached;
      erase(w->waiters, x);
      if (w->st < ST::kDone) {
        w->st = x->st;
        w->killed = true;
      }
      if (w->suspended()) force(w);
    } else {
      force(x);
    }
  }
  // x has a terminal status and the library resumes it now
  void force(Actor *x) {
    if (!x->suspended()) return;
    ++n_forced;
    if (x->kind == SOME) {
      x->killed = true;
      if (some_ended(x, false) >= x->bound) x->was_enough = true;
      return;
    }
    x->running = true;
    Actor *w = x->on;
    if (w && w->kind != TASK && !ret(w)) {
      if (w->st < ST::kDone) {
        w->st = x->st;
        w->killed = true;
      }
      resume_waiting(w);
    }
  }

  // ---------------------------------------------------------------- operations of managers under way
  // the coroutine whose body is entered first when x is resumed / ended as resume_waiting does it
  Actor *first(Actor *x) {
    if (!x->suspended() || x->kind == SOME) return nullptr;
    Actor *w = x->on;
    if (w && w->kind == CALL && !ret(w)) {
      if (!w->suspended()) return x;
      Actor *w2 = w->on;
      if (w2 && w2->kind != TASK && !ret(w2) && !w->detached) return w2->suspended() && w2->kind == CALL ? first(w2) : x;
      return first(w);
    }
    return x;
  }
  bool entitled(Actor *a) {
    if (!a->started) return a->kind != TASK || a->st == ST::kRunning || a->handles == 0 || a->forced;
    return a->st >= ST::kDone || (a->on_gen && (a->on_gen->ready || a->on_gen->handles == 0)) || (a->on && ret(a->on)) ||
           (a->on_sf && a->on_sf->ended());
  }
  // handles that neither a manager nor one of its operations holds
  int owned(Actor *a) {
    int n = a->handles - (a->mgr ? 1 : 0);
    for (Frame *f : frames) {
      n -= static_cast<int>(std::count(f->kill.begin(), f->kill.end(), a));
      n -= static_cast<int>(std::count(f->drop.begin(), f->drop.end(), a));
    }
    return n;
  }
  // about to be resumed anyway: whether the manager comes first is not specified
  bool in_flight(Actor *a) {
    Actor *f = first(a);
    return f && entitled(f);
  }
  void end_in_manager(Actor *a, ST st) {
    if (a->st >= ST::kDone) return;
    a->st = st;
    a->killed = true;
    ++n_killed;
    if (!a->started) {
      a->kill_only = true;
      ++n_silent;
    }
    if (a->suspended()) force(a);
  }
#if P_MGR
  // several members may be suspended at the same place: which of them is ended first is not specified
  bool really_ended(Actor *a) { return !a->ctx || a->ctx->get_status() >= ST::kDone; }
  Actor *tick_next(Frame &f, Actor *prefer) {
    Actor *best = nullptr;
    if (f.m->reset_in_tick || f.m->last == 0) return nullptr;
    for (Actor *a : f.m->in)
      if (a->deadline && a->deadline < f.now) {
        if (!best || a->deadline < best->deadline || (a->deadline == best->deadline && a->tid < best->tid)) best = a;
      }
    if (best && prefer)
      for (Actor *a : f.m->in)
        if (a->deadline == best->deadline && first(a) == prefer && really_ended(a)) return a;
    return best;
  }
  void leave(Actor *a) {
    if (!a->mgr) return;
    erase(a->mgr->in, a);
    a->mgr = nullptr;
    a->deadline = 0;
  }
  // the frame goes on; returns whether d is entitled to run by that (d == nullptr: to its end)
  bool advance(Frame &f, Actor *d) {
    for (int lim = 0; lim < 1000; ++lim) {
      if (f.kind == Frame::TICK) {
        while (!f.drop.empty()) {
          Actor *x = f.drop.back();
          f.drop.pop_back();
          pre_drop(x);
          if (d && entitled(d)) return true;
          if (!d && x->handles == 0 && !x->returned) c.fail("#%d lost its last handle in a tick but did not run to its end", x->id);
        }
        Actor *n = tick_next(f, d);
        if (!n) return false;
        if (!d && n->suspended()) c.fail("#%d is past its deadline and was not ended by the tick", n->id);
        c.log("#%d expires", n->id);
        ++n_expired;
        leave(n);
        f.drop.push_back(n);
        end_in_manager(n, ST::kTimeout);
        if (d && entitled(d)) return true;
        continue;
      }
      if (!f.kill.empty()) {
        Actor *n = nullptr;
        if (d)
          for (Actor *x : f.kill)
            if (x->st < ST::kDone && first(x) == d && really_ended(x)) n = x;
        if (n) {
          c.log("#%d is ended by the reset", n->id);
          erase(f.kill, n);
          f.drop.push_back(n);
          end_in_manager(n, ST::kKilled);
          return entitled(d);
        }
        for (Actor *x : f.kill)
          if (x->suspended() && x->st < ST::kDone) {
            if (!d) c.fail("#%d was not ended by the reset of its manager", x->id);
            return false;
          }
        for (Actor *x : f.kill) {
          end_in_manager(x, ST::kKilled);
          f.drop.push_back(x);
        }
        f.kill.clear();
        continue;
      }
      if (f.drop.empty()) return false;
      Actor *x = f.drop.front();
      if (d && member(f.drop, d)) x = d;
      erase(f.drop, x);
      pre_drop(x);
      if (d && entitled(d)) return true;
      if (!d && x->handles == 0 && !x->returned) c.fail("#%d lost its last handle but did not run to its end", x->id);
    }
    return false;
  }
#else
  bool advance(Frame &, Actor *) { return false; }
  void leave(Actor *) {}
#endif
  void catch_up(Actor *a) {
    if (frames.empty()) return;
    if (!entitled(a)) {
      advance(*frames.back(), a);
      return;
    }
#if P_MGR
    // it may go on anyway, but does so because a member that waits for it is being ended
    auto ending = [&](Actor *x) { return x->suspended() && x->st < ST::kDone && x->ctx && really_ended(x) && first(x) == a; };
    auto behind = [&](Frame &f) {
      const std::vector<Actor *> &v = f.kind == Frame::TICK ? f.m->in : f.kill;
      return std::any_of(v.begin(), v.end(), ending);
    };
    for (int lim = 0; lim < 100 && behind(*frames.back()); ++lim) advance(*frames.back(), a);
#endif
  }
  // a manager is about to end it, at a moment that is not specified exactly
  bool limbo(Actor *a) {
    for (Frame *f : frames) {
      if (f->kind == Frame::RESET && member(f->kill, a)) return true;
#if P_MGR
      if (f->kind == Frame::TICK && a->mgr == f->m && a->deadline && a->deadline < f->now) return true;
#endif
    }
    return false;
  }

  // ---------------------------------------------------------------- events of the bodies
  void on_start(Actor *a) {
    if (a->started) c.fail("the body of #%d was started twice", a->id);
    catch_up(a);
    if (!entitled(a)) c.fail("the body of task #%d ran before it was started", a->id);
    a->started = true;
    a->running = true;
    if (a->st == ST::kCreated) a->st = ST::kRunning;
    if (a->kill_only) ++n_unstarted;
    c.log("#%d starts", a->id);
  }
  void on_return(Actor *a) {
    if (a->returned) c.fail("the body of #%d returned twice", a->id);
    if (!a->running) c.fail("the body of #%d ran while it was suspended", a->id);
    a->returned = true;
    a->running = false;
    if (a->st < ST::kDone) a->st = ST::kDone;
    if (a->waiters.size() > 1) {
      ++n_multi;
      a->multi = true;
    }
    c.log("#%d returns %d", a->id, a->ret);
    if (a->mgr) {
      leave(a);
      --a->handles;
      ++n_left;
    }
  }
  void suspend(Actor *a) {
    a->running = false;
    if (a->st >= ST::kDone) c.fail("model: a killed coroutine suspends");
  }
  bool before_gen(Actor *a, GenObj *g) {
    c.log("#%d awaits gen%d%s", a->id, g->id, g->ready ? " (ready)" : "");
    if (g->ready) {
      if (!g->waiters.empty()) ++n_flight;
      return true;
    }
    if (a->st < ST::kDone) {
      a->on_gen = g;
      g->waiters.push_back(a);
      if (g->mode != 2) ++g->want_suspend;
      suspend(a);
    }
    return true;
  }
  bool resumed(Actor *a) {  // was it suspended?
    bool s = a->on || a->on_gen || a->on_some || a->on_sf;
    if (s) catch_up(a);
    if (!s && !a->running) c.fail("#%d was resumed although it had ended or was not suspended there", a->id);
    return s;
  }
  void value(Actor *a, const char *what, int id, int got, int want, bool loose) {
    c.log("#%d got %d from %s%d", a->id, got, what, id);
    if (loose && got == kMoved) return;
    if (got != want) c.fail("#%d received %d from %s%d, expected %d", a->id, got, what, id, want);
    if (want >= 0) ++n_value;
    else ++n_error;
  }
  void after_gen(Actor *a, GenObj *g, int got) {
    bool s = resumed(a);
    if (s) {
      if (a->on_gen != g) c.fail("#%d was resumed at another await than it was suspended at", a->id);
      if (g->handles == 0 && a->st < ST::kDone) gen_dies(g);
      if (!g->ready && !g->dead && a->st < ST::kDone) c.fail("#%d was resumed although gen%d has no value", a->id, g->id);
      erase(g->waiters, a);
      a->on_gen = nullptr;
      if (g->mode != 2) ++g->want_resume;
      if (g->dead) ++n_gen_dropped;
    }
    a->running = true;
    if (g->vt == NIL) {
      c.log("#%d continues from gen%d", a->id, g->id);
      ++n_value;
      return;
    }
    value(a, "gen", g->id, got, g->ready ? g->tag : err(g->vt, s ? a->st : ST::kKilled), g->consumed);
    if (g->ready && g->vt == VAL) {
      if (!g->consumed && !g->multi && !g->in_some && g->waiters.empty() && got > 0 && got == g->tag && Val::copies->count(got))
        c.fail("the only consumer of gen%d received a copy", g->id);
      if (g->waiters.empty()) g->consumed = true;
    }
  }
#if P_SF
  void before_sf(Actor *a, Sf *t) {
    c.log("#%d awaits T%d%s", a->id, t->id, t->st >= SF_DONE ? " (ending)" : "");
    if (t->st >= SF_DONE) {
      ++n_sf_late;
      return;
    }
    if (a->st < ST::kDone) {
      a->on_sf = t;
      t->waiters.push_back(a);
      suspend(a);
    }
  }
  void after_sf(Actor *a, Sf *t, int got, bool temp = false) {
    bool s = resumed(a);
    if (s) {
      if (a->on_sf != t) c.fail("#%d was resumed at another await than it was suspended at", a->id);
      if (!entitled(a)) c.fail("#%d was resumed although T%d has not ended", a->id, t->id);
      if (t->ended()) {
        ++n_sf_woken;
        if (t->gone) ++n_sf_gone;
        if (t->waiters.size() > 1) ++n_sf_multi;
      } else {
        ++n_sf_left;
      }
      erase(t->waiters, a);
      a->on_sf = nullptr;
    }
    a->running = true;
    int want = t->st > SF_DONE ? -3002 : t->st == SF_DONE ? t->ret : -3006;
    c.log("#%d got %d from T%d", a->id, got, t->id);
    if (got != want) c.fail("#%d received %d from T%d, expected %d", a->id, got, t->id, want);
    if (temp) sf_pre_drop(t);
  }
  void sf_started(Sf *t) {
    if (t->started) c.fail("the body of T%d was started twice", t->id);
    t->started = true;
    sf_enter(t);
    c.log("T%d starts", t->id);
  }
  void sf_enter(Sf *t) {
    if (t->finished || t->in_body) c.fail("T%d was entered although it %s", t->id, t->finished ? "has ended" : "is running");
    if (t->st == SF_CREATED || t->st == SF_WAITING) {
      for (auto &p : sfs)
        if (p->ended()) {
          auto it = std::find(p->follow.begin(), p->follow.end(), t);
          if (it != p->follow.end()) {
            p->follow.erase(it);
            t->st = SF_RUNNING;
            ++n_sf_next;
            break;
          }
        }
    }
    if (t->st == SF_CREATED || t->st == SF_WAITING) c.fail("T%d was entered although nobody resumed it", t->id);
    t->in_body = true;
    ++t->entries;
  }
  void sf_yields(Sf *t) {
    t->in_body = false;
    if (t->st < SF_DONE) t->st = SF_WAITING;
  }
  void sf_returns(Sf *t) {
    t->in_body = false;
    t->finished = true;
    if (t->st < SF_DONE) t->st = SF_DONE;
    c.log("T%d ends", t->id);
  }
  // a handle of t goes away right after this
  void sf_pre_drop(Sf *t) {
    if (--t->refs > 0) return;
    c.log("last handle of T%d goes away", t->id);
    if (t->st == SF_CREATED) t->gone = true;
    else if (t->st == SF_WAITING) t->st = SF_TIMEOUT;
    else if (t->st == SF_RUNNING) c.fail("model: the last handle of a running task goes away");
  }
  Sf *pick_sf(unsigned k) {
    std::vector<Sf *> v;
    for (auto &t : sfs)
      if (!t->h.empty()) v.push_back(t.get());
    return v.empty() ? nullptr : v[k % v.size()];
  }
  void sf_create(std::unique_ptr<Script> s);
  void sf_op(Sf *t, unsigned op, unsigned how);
  void sf_drop(Sf *t);
  void probe_sf();
  void sf_close(unsigned style);
#endif

  // false: not possible here
  bool before_act(Actor *a, Actor *x) {
    if (reaches(x, a)) return false;
    bool done = ret(x);
    if (limbo(x) || (!frames.empty() && x->kind != TASK && !done && (x->running || strict(x)))) return false;
    if (done || x->st >= ST::kDone) {
      if (x->kind != TASK && !done && x->suspended() && hazard(x)) return false;
      if (x->kind != TASK) a->reading = x;
      if (x->kind != TASK && !done) resume_waiting(x);
      if (done) ++n_late;
      c.log("#%d awaits #%d (ended)", a->id, x->id);
      return true;
    }
    if (a->st < ST::kDone) {
      c.log("#%d awaits #%d", a->id, x->id);
      a->on = x;
      x->waiters.push_back(a);
      suspend(a);
      return true;
    }
    if (x->kind != TASK) {
      if (x->suspended() && hazard(x)) return false;
      a->reading = x;
      if (x->suspended()) {
        x->st = a->st;
        x->killed = true;
        c.log("#%d (killed) awaits #%d", a->id, x->id);
        force(x);
      } else {
        x->st = ST::kKilled;
        x->killed = true;
        c.log("#%d (killed) awaits the running #%d", a->id, x->id);
      }
    }
    return true;
  }
  void after_act(Actor *a, Actor *x, int got, bool has) {
    bool s = resumed(a);
    bool done = ret(x);
    if (s) {
      if (a->on != x) c.fail("#%d was resumed at another await than it was suspended at", a->id);
      if (!done && a->st < ST::kDone) c.fail("#%d was resumed although #%d has not ended", a->id, x->id);
      erase(x->waiters, a);
      a->on = nullptr;
      a->detached = false;
    }
    a->reading = nullptr;
    a->running = true;
    if (!has) {
      c.log("#%d continues from #%d", a->id, x->id);
      ++n_value;
      return;
    }
    int want;
    if (x->kind == TASK) want = done ? x->ret : err(x->vt, s ? a->st : ST::kKilled);
    else if (x->kind == SOME) {
      // killed while it was ending: either is right
      c.log("#%d got %d from some#%d", a->id, got, x->id);
      if (!(got == static_cast<int>(x->st) || (x->killed && x->was_enough && got == static_cast<int>(ST::kDone))))
        c.fail("#%d received status %d from some#%d, expected %d", a->id, got, x->id, static_cast<int>(x->st));
      return;
    } else
      want = done ? x->ret : err(x->vt, x->st);
    value(a, "#", x->id, got, want, x->consumed);
    if (done && x->vt == VAL) {
      if (x->kind == TASK) {
        if (!x->consumed && !x->multi && x->waiters.empty() && got == x->ret && Val::copies->count(got) && !pinned_some(x))
          c.fail("the only consumer of task #%d received a copy", x->id);
        if (x->waiters.empty()) x->consumed = true;
      } else {
        x->consumed = true;
      }
    }
  }
  bool pinned_some(Actor *x) {
    for (auto &p : actors)
      if (p->kind == SOME)
        for (auto &m : p->members)
          if (m.second == x) return true;
    return false;
  }

  // ---------------------------------------------------------------- operations
  GenObj *pick_gen(unsigned k) {
    std::vector<GenObj *> v;
    for (auto &g : gens)
      if (!g->hs.empty()) v.push_back(g.get());
    return v.empty() ? nullptr : v[k % v.size()];
  }
  Slot *pick_slot(unsigned k) {
    std::vector<Slot *> v;
    for (auto &s : slots)
      if (s.a && s.h) v.push_back(&s);
    return v.empty() ? nullptr : v[k % v.size()];
  }
  Slot *free_slot() {
    for (auto &s : slots)
      if (!s.a && !s.reserved) return &s;
    return nullptr;
  }

  template <class T>
  GenF<T> *gf(HandleB *h) {
    return &static_cast<HandleT<GenF<T>> *>(h)->f;
  }
  template <class R>
  static R *as(HandleB *h) {
    return &static_cast<HandleT<R> *>(h)->f;
  }

  void cb_suspend(GenObj *g, void *ctx);
  void cb_resume(GenObj *g, const void *ctx);
  template <class T>
  void new_gen_t(GenObj *g) {
    std::unique_ptr<HandleB> h;
    using ctx_t = typename GenF<T>::context_type;
    using ptr_t = typename GenF<T>::context_pointer_type;
    // each callback owns something, which must stay alive until it returns
    auto s = [this, g, own = CbOwned(g->id)](ptr_t p) {
      cb_suspend(g, p.get());
      if (own.id != g->id) c.fail("the suspend callback of gen%d went away while it was executing", g->id);
    };
    auto r = [this, g, own = CbOwned(g->id)](const ctx_t &p) {
      cb_resume(g, &p);
      if (own.id != g->id) c.fail("the resume callback of gen%d went away while it was executing", g->id);
    };
    if (g->mode == 2) h.reset(new HandleT<GenF<T>>(GenF<T>(nullptr)));
    else h.reset(new HandleT<GenF<T>>(GenF<T>(s, r)));
    g->ctx = gf<T>(h.get())->get_context().get();
    g->hs.push_back(std::move(h));
    g->handles = 1;
  }
  void new_gen(VT vt, int mode) {
    gens.emplace_back(new GenObj);
    GenObj *g = gens.back().get();
    g->id = static_cast<int>(gens.size());
    g->vt = vt;
    g->mode = mode;
    c.log("gen%d: type %d mode %d", g->id, vt, mode);
    if (vt == INT) new_gen_t<int>(g);
    else if (vt == VAL) new_gen_t<Val>(g);
    else new_gen_t<void>(g);
  }
  void set_gen(GenObj *g) {
    if (g->hs.empty()) return;
    if (g->ready && g->some_refs) return;
    g->tag = next_tag++;
    if (!g->ready) {
      g->multi = g->waiters.size() > 1;
      if (g->multi) ++n_multi;
    } else if (!g->waiters.empty()) {
      g->multi = true;
    }
    g->ready = true;
    g->consumed = false;
    c.log("gen%d := %d (%zu waiters)", g->id, g->tag, g->waiters.size());
    ++depth;
    ++g->setting;
    if (depth > 1) ++n_nested;
    int t = g->tag;
    HandleB *h = g->hs[0].get();
    if (g->vt == INT) gf<int>(h)->get_context()->set_value(t);
    else if (g->vt == VAL) gf<Val>(h)->get_context()->set_value(Val(t));
    else gf<void>(h)->get_context()->set_value();
    if (--g->setting == 0 && g->handles == 0) gen_dies(g);
    --depth;
  }
  void reset_gen(GenObj *g) {
    if (g->hs.empty() || g->some_refs || (g->ready && !g->waiters.empty())) return;
    c.log("gen%d reset", g->id);
    if (g->ready) ++n_reset;
    g->ready = false;
    g->consumed = false;
    HandleB *h = g->hs[0].get();
    if (g->vt == INT) gf<int>(h)->get_context()->reset_value();
    else if (g->vt == VAL) gf<Val>(h)->get_context()->reset_value();
    else gf<void>(h)->get_context()->reset_value();
  }
  // call before a handle goes away
  void gen_handle_gone(GenObj *g) {
    if (--g->handles == 0) {
      c.log("gen%d dropped (%zu waiters)", g->id, g->waiters.size());
      if (!g->setting) gen_dies(g);  // setting its value keeps it alive until all waiters have been woken
    }
  }
  void gen_dies(GenObj *g) {
    if (!g->dead) {
      if (!g->ready) {
        g->multi = g->waiters.size() > 1;
        if (!g->waiters.empty()) ++n_dropped_wait;
        if (g->vt != NIL) {
          g->ready = true;
          g->tag = err(g->vt, ST::kKilled);
          g->consumed = false;
        }
      }
      g->dead = true;
    }
  }
  void drop_gen(GenObj *g, unsigned k) {
    if (g->hs.empty()) return;
    k %= g->hs.size();
    std::unique_ptr<HandleB> h = std::move(g->hs[k]);
    g->hs.erase(g->hs.begin() + k);
    gen_handle_gone(g);
    ++depth;
    h.reset();
    --depth;
  }
  template <class T>
  void copy_gen_t(GenObj *g, unsigned k, int how) {
    GenF<T> *src = gf<T>(g->hs[k % g->hs.size()].get());
    if (how == 0) {  // copy construction
      g->hs.emplace_back(new HandleT<GenF<T>>(GenF<T>(std::as_const(*src))));
      ++g->handles;
    } else if (how == 1) {  // move construction
      size_t i = k % g->hs.size();
      std::unique_ptr<HandleB> n(new HandleT<GenF<T>>(std::move(*src)));
      if (src->get_context()) c.fail("a moved-from generator kept its context");
      if (src->is_ready() || src->is_pending() || src->get_status() != ST::kInvalid) c.fail("a moved-from generator claims to have a state");
      g->hs[i] = std::move(n);
    } else {  // copy assignment over another handle of the same object
      GenF<T> *dst = gf<T>(g->hs[(k + 1) % g->hs.size()].get());
      *dst = std::as_const(*src);
    }
  }
  void copy_gen(GenObj *g, unsigned k, int how) {
    if (g->hs.empty() || (how == 0 && g->hs.size() >= 3)) return;
    if (g->vt == INT) copy_gen_t<int>(g, k, how);
    else if (g->vt == VAL) copy_gen_t<Val>(g, k, how);
    else copy_gen_t<void>(g, k, how);
    ++n_copy;
  }

  // dispatch on the static type behind a handle
  template <class Fn>
  void with(Actor *a, HandleB *h, Fn fn) {
    if (a->kind == SOME) fn(*as<SomeF>(h));
    else if (a->kind == CALL) {
      if (a->vt == INT) fn(*as<CallF<int>>(h));
      else if (a->vt == VAL) fn(*as<CallF<Val>>(h));
      else fn(*as<CallF<void>>(h));
    } else {
      if (a->vt == INT) fn(*as<TaskF<int>>(h));
      else if (a->vt == VAL) fn(*as<TaskF<Val>>(h));
      else fn(*as<TaskF<void>>(h));
    }
  }
  template <class Fn>
  void with_call(Actor *a, HandleB *h, Fn fn) {
    if (a->kind == SOME) fn(*as<SomeF>(h));
    else if (a->vt == INT) fn(*as<CallF<int>>(h));
    else if (a->vt == VAL) fn(*as<CallF<Val>>(h));
    else fn(*as<CallF<void>>(h));
  }
  template <class Fn>
  void with_task(Actor *a, HandleB *h, Fn fn) {
    if (a->vt == INT) fn(*as<TaskF<int>>(h));
    else if (a->vt == VAL) fn(*as<TaskF<Val>>(h));
    else fn(*as<TaskF<void>>(h));
  }

  Actor *new_actor(Kind k, VT vt, std::unique_ptr<Script> s) {
    actors.emplace_back(new Actor);
    Actor *a = actors.back().get();
    a->id = static_cast<int>(actors.size());
    a->kind = k;
    a->vt = vt;
    a->script = std::move(s);
    a->ret = next_tag++;
    return a;
  }
  void create(Slot *slot, std::unique_ptr<Script> s);
  void create_some(Slot *slot, unsigned type, unsigned a, unsigned b, unsigned how);
  bool kill(Slot *s, unsigned how);
  bool drop(Slot *s);
  bool drop_handle(Actor *a, std::unique_ptr<HandleB> &h, std::unique_ptr<SomeBox> *box);
  bool may_drop(Actor *a);
  void pre_drop(Actor *a);
  void start(Slot *s);
  void task_handle_op(Slot *s, unsigned how);
  void move_call(Slot *s, unsigned how);
  void probe_slot(Slot *s);
  void probe_gens();
  void check_pending(Actor *a);
  void quiescent();
  void add_task(Mgr *m, Slot *s, unsigned how);
  void mgr_op(Mgr *m, unsigned op, unsigned who, unsigned how);
  void mgr_end(Mgr *m, bool destroy);
  void mgr_tick(Mgr *m, unsigned how);
  Mgr *pick_mgr(unsigned k) {
    std::vector<Mgr *> v;
#if P_MGR
    for (auto &m : mgrs)
      if (m->p) v.push_back(m.get());
#endif
    return v.empty() ? nullptr : v[k % v.size()];
  }
  // a callable created by a body goes away, at once if that is possible here
  void child_gone(Actor *x, std::unique_ptr<HandleB> h) {
    if (!may_drop(x)) {
      bury(x, std::move(h));
      return;
    }
    pre_drop(x);
    ++depth;
    h.reset();
    --depth;
  }
  void bury(Actor *a, std::unique_ptr<HandleB> h) { grave.emplace_back(a, std::move(h)); }
  void close();
};

void World::cb_suspend(GenObj *g, void *ctx) {
  ++g->cb_suspend;
  if (ctx != g->ctx) c.fail("the suspend callback of gen%d received another context", g->id);
  ++g->setting;  // the argument of the callback keeps the generator alive until it returns
  if (g->mode == 1 && !g->ready && !closing) {
    ++n_sync;
    set_gen(g);
  }
  if (g->mode == 3 && !closing) {
    GenObj *o = gens[static_cast<size_t>(g->id) % gens.size()].get();
    if (o != g && !o->ready && !o->dead && !o->hs.empty()) {
      ++n_sync;
      set_gen(o);
    }
  }
  if (--g->setting == 0 && g->handles == 0) gen_dies(g);
}
void World::cb_resume(GenObj *g, const void *ctx) {
  ++g->cb_resume;
  if (ctx != g->ctx) c.fail("the resume callback of gen%d received another context", g->id);
}

// ------------------------------------------------------------------ bodies
struct Local {
  Actor *a;
  explicit Local(Actor *x) : a(x) { ++a->locals; }
  Local(const Local &) = delete;
  ~Local() {
    --a->locals;
    if (!a->returned) cur().fail("a local of #%d was destroyed before its body ended", a->id);
  }
};

template <class F>
struct SomeBoxT : SomeBox {
  std::vector<F> own;  // handles kept alive by the list (generators, tasks)
  std::vector<std::pair<GenObj *, Actor *>> who;
  std::vector<copp::gsl::not_null<F *>> list;
  std::vector<std::reference_wrapper<F>> refs;
  typename copp::some_ready<F>::type ready;
  bool buried = false;
  void check_ready(Actor *s) override {
    pbt::Ctx &c = cur();
    if (!s->killed && ready.size() < s->bound) c.fail("some#%d reports %zu members, %zu were asked for", s->id, ready.size(), s->bound);
    for (size_t i = 0; i < ready.size(); ++i) {
      F *p = ready[i].get();
      size_t at = list.size();
      for (size_t j = 0; j < list.size(); ++j)
        if (list[j].get() == p) at = j;
      if (at == list.size()) c.fail("some#%d reports a future that is not in its list", s->id);
      for (size_t j = 0; j < i; ++j)
        if (ready[j].get() == p) c.fail("some#%d reports a member twice", s->id);
      auto &m = s->members[at];
      if (m.first ? !m.first->ready : !(m.second->st >= ST::kDone)) c.fail("some#%d reports a member that has not ended", s->id);
    }
  }
  void bury() override {
    // the handles of the list go away when nothing runs
    for (size_t i = 0; i < own.size(); ++i) {
      std::unique_ptr<HandleB> h(new HandleT<F>(std::move(own[i])));
      if (who[i].first) W->gen_grave.emplace_back(who[i].first, std::move(h));
      else W->grave.emplace_back(who[i].second, std::move(h));
    }
    own.clear();
  }
};

template <class F>
struct Src;  // how to collect members of a type
template <class T>
struct Src<GenF<T>> {
  static void collect(SomeBoxT<GenF<T>> &b, unsigned n, unsigned seed) {
    for (size_t i = 0; i < W->gens.size() && b.who.size() < n; ++i) {
      GenObj *g = W->gens[(i + seed) % W->gens.size()].get();
      if (g->vt != VtOf<T>::v || g->hs.empty()) continue;
      b.own.emplace_back(std::as_const(*W->gf<T>(g->hs[0].get())));
      ++g->handles;
      ++g->some_refs;
      g->in_some = true;
      b.who.emplace_back(g, nullptr);
    }
    for (auto &f : b.own) b.list.push_back(copp::gsl::make_not_null(&f));
  }
};
template <class T>
struct Src<CallF<T>> {
  static void collect(SomeBoxT<CallF<T>> &b, unsigned n, unsigned seed) {
    for (size_t i = 0; i < W->slots.size() && b.who.size() < n; ++i) {
      Slot &s = W->slots[(i + seed) % W->slots.size()];
      if (!s.a || !s.h || s.a->kind != CALL || s.a->vt != VtOf<T>::v) continue;
      b.list.push_back(copp::gsl::make_not_null(World::as<CallF<T>>(s.h.get())));
      b.who.emplace_back(nullptr, s.a);
    }
  }
};
template <class T, class P>
struct Src<cotask::task_future<T, P>> {
  using F = cotask::task_future<T, P>;
  static void collect(SomeBoxT<F> &b, unsigned n, unsigned seed) {
    for (size_t i = 0; i < W->slots.size() && b.who.size() < n; ++i) {
      Slot &s = W->slots[(i + seed) % W->slots.size()];
      if (!s.a || !s.h || s.a->kind != TASK || s.a->vt != VtOf<T>::v) continue;
      bool dup = false;
      for (auto &m : b.who) dup = dup || m.second == s.a;
      if (dup) continue;
      b.own.emplace_back(*World::as<F>(s.h.get()));
      ++s.a->handles;
      b.who.emplace_back(nullptr, s.a);
    }
    for (auto &f : b.own) b.list.push_back(copp::gsl::make_not_null(&f));
  }
};

// starts a some()/any()/all(); the returned actor's fut is set by the caller
template <class F>
SomeF begin_some(Actor *s, std::unique_ptr<SomeBox> &out, unsigned nmem, unsigned seed, unsigned how) {
  auto *b = new SomeBoxT<F>;
  out.reset(b);
  b->own.reserve(8);
  Src<F>::collect(*b, nmem, seed);
  s->box = b;
  s->members = b->who;
  s->started = true;
  s->st = ST::kRunning;
  size_t sz = b->list.size();
  for (auto &p : b->list) b->refs.push_back(std::ref(*p.get()));
  size_t n = how % 8;
  int style = static_cast<int>(how / 8 % 3);
  if (n > sz + 1) n = sz + 1;
  size_t req;
  if (style == 1) req = 1;
  else if (style == 2) req = sz;
  else req = n;
  s->bound = req < sz ? req : sz;
  s->on_some = true;
  ++W->n_some;
  W->c.log("some#%d: %zu of %zu members (%zu ended already)", s->id, req, sz, W->some_ended(s, false));
  if (how / 24 % 2) {
    auto sp = copp::gsl::make_span(b->list.data(), b->list.size());
    if (style == 1) return copp::any(b->ready, sp);
    if (style == 2) return copp::all(b->ready, sp);
    return copp::some(b->ready, req, sp);
  }
  if (style == 1) return copp::any(b->ready, b->refs);
  if (style == 2) return copp::all(b->ready, b->refs);
  return copp::some(b->ready, req, b->refs);
}
SomeF begin_some_any(Actor *s, std::unique_ptr<SomeBox> &out, unsigned type, unsigned nmem, unsigned seed, unsigned how) {
  switch (type % 9) {
    case 0: return begin_some<GenF<int>>(s, out, nmem, seed, how);
    case 1: return begin_some<TaskF<int>>(s, out, nmem, seed, how);
    case 2: return begin_some<CallF<int>>(s, out, nmem, seed, how);
    case 3: return begin_some<GenF<Val>>(s, out, nmem, seed, how);
    case 4: return begin_some<TaskF<Val>>(s, out, nmem, seed, how);
    case 5: return begin_some<CallF<Val>>(s, out, nmem, seed, how);
    case 6: return begin_some<GenF<void>>(s, out, nmem, seed, how);
    case 7: return begin_some<TaskF<void>>(s, out, nmem, seed, how);
    default: return begin_some<CallF<void>>(s, out, nmem, seed, how);
  }
}

enum {
  S_GEN, S_ACT, S_CHILD, S_SOME, S_SET, S_RESET, S_DROPGEN, S_KILL, S_DROP, S_START, S_QUERY, S_CREATE, S_NULL, S_HANDLE, S_COPYGEN, S_MGR,
  S_SF, S_SFOP, S_SFNEW, S_NKINDS
};

template <class F>
F make(Actor *a);

#define AWAIT_GEN(T)                                                                  \
  {                                                                                   \
    HandleB *hb = g->hs[st.b % g->hs.size()].get();                                   \
    if (st.c & 1) {                                                                   \
      std::optional<GenF<T>> own;                                                     \
      own.emplace(std::as_const(*W->gf<T>(hb)));                                      \
      ++g->handles;                                                                   \
      W->before_gen(self, g);                                                         \
      if constexpr (std::is_void<T>::value) {                                         \
        co_await *own;                                                                \
        W->after_gen(self, g, 0);                                                     \
      } else {                                                                        \
        auto r = co_await *own;                                                       \
        W->after_gen(self, g, tag_of(r));                                             \
      }                                                                               \
      W->gen_handle_gone(g);                                                          \
      own.reset();                                                                    \
    } else {                                                                          \
      GenF<T> *p = W->gf<T>(hb);                                                      \
      W->before_gen(self, g);                                                         \
      if constexpr (std::is_void<T>::value) {                                         \
        co_await *p;                                                                  \
        W->after_gen(self, g, 0);                                                     \
      } else {                                                                        \
        auto r = co_await *p;                                                         \
        W->after_gen(self, g, tag_of(r));                                             \
      }                                                                               \
    }                                                                                 \
  }

#define AWAIT_FUT(x, fut, T)                      \
  {                                               \
    if constexpr (std::is_void<T>::value) {       \
      co_await (fut);                             \
      W->after_act(self, x, 0, false);            \
    } else {                                      \
      auto r = co_await (fut);                    \
      W->after_act(self, x, tag_of(r), true);     \
    }                                             \
  }

#define AWAIT_CALL(T)                                                     \
  {                                                                       \
    if (W->before_act(self, x)) AWAIT_FUT(x, *W->as<CallF<T>>(s->h.get()), T) \
  }

#define AWAIT_TASK(T)                                                                  \
  {                                                                                    \
    if (W->before_act(self, x)) {                                                      \
      if (st.c & 1) {                                                                  \
        std::unique_ptr<HandleT<TaskF<T>>> own(                                        \
            new HandleT<TaskF<T>>(TaskF<T>(*W->as<TaskF<T>>(s->h.get()))));            \
        ++x->handles;                                                                  \
        AWAIT_FUT(x, own->f, T)                                                        \
        W->bury(x, std::move(own));                                                    \
      } else                                                                           \
        AWAIT_FUT(x, *W->as<TaskF<T>>(s->h.get()), T)                                  \
    }                                                                                  \
  }

#define AWAIT_CHILD(T)                                                    \
  {                                                                       \
    x->handles = 1;                                                       \
    self->child = x;                                                      \
    std::unique_ptr<HandleT<CallF<T>>> own(                               \
        new HandleT<CallF<T>>(make<CallF<T>>(x)));                        \
    if (W->before_act(self, x)) AWAIT_FUT(x, own->f, T)                   \
    self->child = nullptr;                                                \
    W->child_gone(x, std::move(own));                                     \
  }

template <class F, class T>
F body(Actor *self, Tok tok) {
  Local l(self);
  W->on_start(self);
  for (size_t pc = 0; pc < self->script->steps.size(); ++pc) {
    Step &st = self->script->steps[pc];
    switch (st.kind) {
      case S_GEN: {
        GenObj *g = W->pick_gen(st.a);
        if (!g) break;
        if (g->vt == INT) AWAIT_GEN(int)
        else if (g->vt == VAL) AWAIT_GEN(Val)
        else AWAIT_GEN(void)
        break;
      }
      case S_ACT: {
        Slot *s = W->pick_slot(st.a);
        if (!s) break;
        Actor *x = s->a;
        if (x->kind == SOME) {
          SomeF *f = W->as<SomeF>(s->h.get());
          if (W->before_act(self, x)) {
            ST r = co_await *f;
            W->after_act(self, x, static_cast<int>(r), true);
          }
        } else if (x->kind == CALL) {
          if (x->vt == INT) AWAIT_CALL(int)
          else if (x->vt == VAL) AWAIT_CALL(Val)
          else AWAIT_CALL(void)
        } else {
          if (x->vt == INT) AWAIT_TASK(int)
          else if (x->vt == VAL) AWAIT_TASK(Val)
          else AWAIT_TASK(void)
        }
        break;
      }
      case S_CHILD: {
        if (!st.sub || W->actors.size() > 60) break;
        VT vt = st.sub->vt;
        Actor *x = W->new_actor(CALL, vt, std::move(st.sub));
        x->owner = self;
        ++W->n_child;
        if (vt == INT) AWAIT_CHILD(int)
        else if (vt == VAL) AWAIT_CHILD(Val)
        else AWAIT_CHILD(void)
        break;
      }
      case S_SOME: {
        if (W->actors.size() > 60) break;
        Actor *x = W->new_actor(SOME, INT, nullptr);
        x->owner = self;
        x->handles = 1;
        self->child = x;
        std::unique_ptr<SomeBox> box;
        std::optional<SomeF> own;
        own.emplace(begin_some_any(x, box, st.a, st.b % 5, st.b / 5, st.c));
        x->fut = &*own;
        if (W->before_act(self, x)) {
          if (!W->ret(x)) ++W->n_some_wait;
          ST r = co_await *own;
          W->after_act(self, x, static_cast<int>(r), true);
        }
        W->pre_drop(x);
        W->ret(x);
        own.reset();
        self->child = nullptr;
        x->fut = nullptr;
        if (!x->returned) {
          x->returned = true;
          for (auto &m : x->members)
            if (m.first) --m.first->some_refs;
        }
        box->bury();
        x->box = nullptr;
        box.reset();
        break;
      }
      case S_SET:
        if (GenObj *g = W->pick_gen(st.a)) W->set_gen(g);
        break;
      case S_RESET:
        if (GenObj *g = W->pick_gen(st.a)) W->reset_gen(g);
        break;
      case S_DROPGEN:
        if (GenObj *g = W->pick_gen(st.a)) W->drop_gen(g, st.b);
        break;
      case S_COPYGEN:
        if (GenObj *g = W->pick_gen(st.a)) W->copy_gen(g, st.b, static_cast<int>(st.c % 3));
        break;
      case S_MGR:
        if (Mgr *m = W->pick_mgr(st.a)) {
          ++W->n_mgr_nested;
          W->mgr_op(m, st.b, st.c, st.a);
        }
        break;
#if P_SF
      case S_SF: {
        if (st.a % 16 == 15) {
          ++W->n_null;
          int r = co_await sf_task::ptr_type();
          if (r != -1001) W->c.fail("awaiting no task gave %d", r);
          break;
        }
        Sf *t = W->pick_sf(st.a);
        if (!t) break;
        if (st.b % 3 == 0) {
          sf_task *raw = t->h[0].get();
          W->before_sf(self, t);
          int r = co_await *raw;
          W->after_sf(self, t, r);
        } else if (st.b % 3 == 1) {
          std::optional<sf_task::ptr_type> own(t->h[0]);
          ++t->refs;
          W->before_sf(self, t);
          int r = co_await *own;
          W->after_sf(self, t, r);
          W->sf_pre_drop(t);
          own.reset();
        } else {
          // the temporary goes away at the end of the expression
          ++t->refs;
          W->before_sf(self, t);
          W->after_sf(self, t, co_await sf_task::ptr_type(t->h[0]), true);
        }
        break;
      }
      case S_SFOP:
        if (Sf *t = W->pick_sf(st.a)) {
          ++W->n_sf_nested;
          W->sf_op(t, st.b, st.c);
        }
        break;
      case S_SFNEW:
        if (st.sub && !W->closing) W->sf_create(std::move(st.sub));
        break;
#endif
      case S_KILL:
        if (Slot *s = W->pick_slot(st.a))
          if (W->kill(s, st.b)) ++W->n_inbody_kill;
        break;
      case S_DROP:
        if (Slot *s = W->pick_slot(st.a)) W->drop(s);
        break;
      case S_START:
        if (Slot *s = W->pick_slot(st.a)) W->start(s);
        break;
      case S_HANDLE:
        if (Slot *s = W->pick_slot(st.a)) {
          if (s->a->kind == TASK) W->task_handle_op(s, st.b);
          else if (s->a->kind == CALL) W->move_call(s, st.b);
        }
        break;
      case S_CREATE: {
        Slot *s = W->free_slot();
        if (!s || !st.sub || W->closing || W->actors.size() > 60) break;
        W->create(s, std::move(st.sub));
        break;
      }
      case S_QUERY: {
        ST q = co_yield F::yield_status();
        if (q != self->st)
          W->c.fail("#%d sees itself in status %d, expected %d", self->id, static_cast<int>(q), static_cast<int>(self->st));
        if constexpr (std::is_same<F, TaskF<T>>::value) {
          auto id = co_yield F::yield_task_id();
          if (self->tid && id != self->tid) W->c.fail("#%d sees another task id", self->id);
          if constexpr (!std::is_same<T, Val>::value) {
            Priv *p = co_yield F::yield_private_data();
            if (!p || (self->priv && p != self->priv)) W->c.fail("#%d sees other private data", self->id);
            if (p->v != self->privv) W->c.fail("#%d: private data changed", self->id);
            self->privv = p->v = p->v + 1;
          }
        }
        break;
      }
      default: {  // S_NULL: a generator or task handle that refers to nothing
        ++W->n_null;
        if (st.a & 1) {
          TaskF<int> none;
          int r = co_await none;
          if (r != -1) W->c.fail("awaiting an empty task gave %d", r);
          TaskF<Val> none2;
          Val v = co_await none2;
          if (v.tag != 0) W->c.fail("awaiting an empty task gave %d", v.tag);
          TaskF<void> none3;
          co_await none3;
        } else {
          GenF<int> g(nullptr), g2(std::move(g));
          int r = co_await g;
          if (r != -1) W->c.fail("awaiting a moved-from generator gave %d", r);
          GenF<Val> h(nullptr), h2(std::move(h));
          Val v = co_await h;
          if (v.tag != 0) W->c.fail("awaiting a moved-from generator gave %d", v.tag);
        }
        if (!self->running) W->c.fail("awaiting nothing suspended #%d", self->id);
        break;
      }
    }
  }
  W->on_return(self);
  if constexpr (std::is_void<T>::value) co_return;
  else co_return mk<T>(self->ret);
}

template <class F>
struct ValueOf {
  using type = typename F::value_type;
};
template <class F>
F make(Actor *a) {
  return body<F, typename ValueOf<F>::type>(a, Tok(a));
}

// ------------------------------------------------------------------ operations on coroutines
template <class F>
std::unique_ptr<HandleB> mkh(Actor *a) {
  return std::unique_ptr<HandleB>(new HandleT<F>(make<F>(a)));
}

void World::create(Slot *slot, std::unique_ptr<Script> s) {
  Kind k = static_cast<Kind>(s->kind);
  VT vt = s->vt;
  Actor *a = new_actor(k, vt, std::move(s));
  slot->reserved = true;
  a->handles = 1;
  c.log("create %s #%d type %d", k == CALL ? "callable" : "task", a->id, vt);
  ++depth;
  std::unique_ptr<HandleB> h;
  if (k == CALL) h = vt == INT ? mkh<CallF<int>>(a) : vt == VAL ? mkh<CallF<Val>>(a) : mkh<CallF<void>>(a);
  else h = vt == INT ? mkh<TaskF<int>>(a) : vt == VAL ? mkh<TaskF<Val>>(a) : mkh<TaskF<void>>(a);
  --depth;
  slot->h = std::move(h);
  slot->a = a;
  slot->reserved = false;
  if (k == CALL && !a->started) c.fail("callable #%d did not start", a->id);
  if (k == TASK) {
    if (a->started) c.fail("task #%d ran before it was started", a->id);
    with_task(a, slot->h.get(), [&](auto &f) {
      a->tid = f.get_id();
      if (!a->tid) c.fail("a task has id 0");
      for (auto &p : actors)
        if (p.get() != a && p->kind == TASK && p->tid == a->tid) c.fail("two tasks share an id");
      if constexpr (!std::is_same<typename std::decay<decltype(f)>::type, TaskF<Val>>::value) a->priv = f.get_private_data();
      if constexpr (std::is_same<typename std::decay<decltype(f)>::type, TaskF<int>>::value) a->ctx = f.get_context().get();
    });
  }
}

void World::create_some(Slot *slot, unsigned type, unsigned nmem, unsigned seed, unsigned how) {
  Actor *a = new_actor(SOME, INT, nullptr);
  slot->reserved = true;
  a->handles = 1;
  std::unique_ptr<HandleB> h(new HandleT<SomeF>(begin_some_any(a, slot->box, type, nmem, seed, how)));
  slot->h = std::move(h);
  slot->a = a;
  a->fut = as<SomeF>(slot->h.get());
  slot->reserved = false;
  if (!ret(a)) ++n_some_wait;
}

bool World::kill(Slot *s, unsigned how) {
  Actor *a = s->a;
  static const ST sts[] = {ST::kKilled, ST::kCancle, ST::kTimeout};
  if (how % 11 == 10) {  // not a terminal status: refused
    bool r = true;
    with(a, s->h.get(), [&](auto &f) { r = f.kill(how & 64 ? ST::kRunning : ST::kCreated); });
    if (r) c.fail("kill() with a non-terminal status succeeded");
    ++n_refused;
    return false;
  }
  ST st = sts[how % 3];
  bool done = ret(a);
  bool want = !done && a->st < ST::kDone;
  if (limbo(a) || (want && a->suspended() && hazard(a))) return false;
  if (want && a->running && depth == 0) c.fail("model: running at the top");
  c.log("kill #%d with %d (%s)", a->id, static_cast<int>(st), want ? "accepted" : "refused");
  if (want) {
    a->st = st;
    a->killed = true;
    ++n_killed;
    if (!a->started) a->kill_only = true;
    if (a->suspended()) force(a);
  } else {
    ++n_refused;
  }
  ++depth;
  bool r = false;
  int style = static_cast<int>(how / 12 % 3);
  bool fresh = want && a->kind == TASK && !a->started;
  if (fresh && style == 2) a->forced = true;
  // the handle may be moved or dropped by a body that runs now: the future object may not be used afterwards
  with(a, s->h.get(), [&](auto &f) {
    using FT = typename std::decay<decltype(f)>::type;
    if constexpr (std::is_same<FT, TaskF<int>>::value || std::is_same<FT, TaskF<Val>>::value || std::is_same<FT, TaskF<void>>::value) {
      if (fresh && style == 2) r = f.kill(st, true);
      else if (st == ST::kCancle && style) r = f.cancel();
      else if (st == ST::kKilled && style == 1) r = f.kill(false);
      else if (st == ST::kKilled && style == 2) r = f.kill();
      else r = f.kill(st);
    } else {
      r = st == ST::kKilled && style ? f.kill() : f.kill(st);
    }
  });
  --depth;
  if (r != want) c.fail("killing #%d %s, expected the opposite", a->id, r ? "succeeded" : "failed");
  if (fresh && style == 2 && !a->returned) c.fail("task #%d was killed by force but did not run to its end", a->id);
  return want;
}

bool World::may_drop(Actor *a) {
  if (a->kind == TASK) {
    if (limbo(a)) return false;
    if (a->running && !a->returned) return owned(a) > 1;
    if (a->handles > 1) return true;
    return ret(a) || (!a->running && !hazard(a));
  }
  if (pinned(a)) return false;
  if (ret(a)) return a->waiters.empty();
  for (Actor *p : a->waiters)
    if (p->running) return false;  // just being resumed
  return !a->running && !hazard(a);
}
// one handle of a goes away right after this
void World::pre_drop(Actor *a) {
  if (--a->handles > 0) return;
  c.log("last handle of #%d goes away%s", a->id, ret(a) ? "" : " (unfinished)");
  if (ret(a)) return;
  if (a->st < ST::kDone) {
    a->st = ST::kKilled;
    a->killed = true;
    if (!a->started) a->kill_only = true;
  }
  if (!a->waiters.empty()) ++n_dropped_wait;
  if (a->suspended()) force(a);
}
bool World::drop_handle(Actor *a, std::unique_ptr<HandleB> &h, std::unique_ptr<SomeBox> *box) {
  pre_drop(a);
  bool last = a->handles == 0;
  ++depth;
  if (a->kind == SOME) {
    std::unique_ptr<HandleB> hh = std::move(h);
    ret(a);
    // destroying the future ends the some() and it reads its list meanwhile
    std::unique_ptr<SomeBox> b = std::move(*box);
    hh.reset();
    a->fut = nullptr;
    if (!a->returned) {
      a->returned = true;
      a->on_some = false;
      for (auto &m : a->members)
        if (m.first) --m.first->some_refs;
    }
    b->bury();
    a->box = nullptr;
  } else {
    h.reset();
  }
  --depth;
  if (last && !a->returned) c.fail("#%d was dropped but its body did not run to its end", a->id);
  return true;
}
bool World::drop(Slot *s) {
  Actor *a = s->a;
  if (!may_drop(a)) return false;
  std::unique_ptr<HandleB> h = std::move(s->h);
  std::unique_ptr<SomeBox> b = std::move(s->box);
  s->a = nullptr;
  return drop_handle(a, h, &b);
}

void World::start(Slot *s) {
  Actor *a = s->a;
  if (a->kind != TASK || limbo(a)) return;
  bool want = !a->started && a->st == ST::kCreated;
  c.log("start #%d (%s)", a->id, want ? "accepted" : "refused");
  if (want) a->st = ST::kRunning;
  else ++n_refused;
  bool r = false;
  ++depth;
  with_task(a, s->h.get(), [&](auto &f) { r = f.start(); });
  --depth;
  if (r != want) c.fail("starting #%d %s, expected the opposite", a->id, r ? "succeeded" : "failed");
  if (want && !a->started) c.fail("task #%d was started but did not run", a->id);
}

void World::task_handle_op(Slot *s, unsigned how) {
  Actor *a = s->a;
  Slot *d = nullptr;
  ++n_copy;
  with_task(a, s->h.get(), [&](auto &f) {
    using F = typename std::decay<decltype(f)>::type;
    switch (how % 5) {
      case 0:  // copy into a free slot
        d = free_slot();
        if (!d) break;
        d->h.reset(new HandleT<F>(F(std::as_const(f))));
        d->a = a;
        ++a->handles;
        break;
      case 1: {  // move construction
        std::unique_ptr<HandleB> n(new HandleT<F>(std::move(f)));
        if (f.valid() || f || f.get_status() != ST::kInvalid || f.get_ref_future_count() != 0 || f.get_id() != 0)
          c.fail("a moved-from task handle is not empty");
        if (!f.is_exiting() || !f.is_completed() || f.start() || f.kill() || f.cancel()) c.fail("an empty task handle accepted an operation");
        s->h = std::move(n);
        break;
      }
      case 2:  // assignment over a handle of another task of the same type
      case 3: {
        for (auto &o : slots)
          if (&o != s && o.a && o.h && o.a->kind == TASK && o.a->vt == a->vt && (!d || how / 8 % 2)) d = &o;
        if (!d || !may_drop(d->a)) break;
        Actor *old = d->a;
        if (old == a) {
          *as<F>(d->h.get()) = std::as_const(f);
          break;
        }
        // the body of the old task may run inside the assignment: keep the slots out of its reach
        std::unique_ptr<HandleB> dh = std::move(d->h);
        d->a = nullptr;
        d->reserved = true;
        pre_drop(old);
        bool last = old->handles == 0;
        std::unique_ptr<HandleB> sh;
        ++depth;
        if (how % 5 == 2) {
          ++a->handles;
          F tmp(f);  // f may go away meanwhile
          ++a->handles;
          *as<F>(dh.get()) = std::as_const(tmp);
          std::unique_ptr<HandleB> t(new HandleT<F>(std::move(tmp)));
          bury(a, std::move(t));
        } else {
          F tmp(f);
          ++a->handles;
          *as<F>(dh.get()) = std::move(tmp);
          if (tmp.valid()) c.fail("a moved-from task handle is not empty");
        }
        --depth;
        if (last && !old->returned) c.fail("#%d was dropped by assignment but its body did not run to its end", old->id);
        d->h = std::move(dh);
        d->a = a;
        d->reserved = false;
        break;
      }
      default: {  // self assignment
        F &self = f;
        f = self;
        f = std::move(self);
        if (!f.valid()) c.fail("assigning a task handle to itself emptied it");
        break;
      }
    }
  });
}

void World::move_call(Slot *s, unsigned how) {
  Actor *a = s->a;
  if (pinned(a)) return;
  ++n_moved;
  with_call(a, s->h.get(), [&](auto &f) {
    using F = typename std::decay<decltype(f)>::type;
    if (how % 3 == 2) {  // over a handle that holds another callable of the same type, which ends thereby
      Slot *d = nullptr;
      for (auto &o : slots)
        if (&o != s && o.a && o.h && o.a->kind == CALL && o.a->vt == a->vt && (!d || how / 8 % 2)) d = &o;
      if (!d || !may_drop(d->a)) return;
      Actor *old = d->a;
      std::unique_ptr<HandleB> dh = std::move(d->h), sh = std::move(s->h);
      d->a = s->a = nullptr;
      d->reserved = true;
      c.log("#%d is assigned over #%d", a->id, old->id);
      pre_drop(old);
      ++depth;
      *as<F>(dh.get()) = std::move(*as<F>(sh.get()));
      --depth;
      if (!old->returned) c.fail("#%d was dropped by assignment but its body did not run to its end", old->id);
      if (!as<F>(sh.get())->is_ready()) c.fail("a moved-from callable claims to be pending");
      ++n_over;
      d->h = std::move(dh);
      d->a = a;
      d->reserved = false;
      return;
    }
    if (how % 3 == 1) {
      F &self = f;
      f = std::move(self);
      if (f.get_status() != a->st) c.fail("assigning a callable to itself changed it");
      return;
    }
    std::unique_ptr<HandleB> n(new HandleT<F>(std::move(f)));
    if (!f.is_ready()) c.fail("a moved-from callable claims to be pending");
    if (f.kill()) c.fail("a moved-from callable was killed");
    // and back by assignment
    f = std::move(*as<F>(n.get()));
    if (static_cast<unsigned>(a->id) % 2) {
      s->h = std::unique_ptr<HandleB>(new HandleT<F>(std::move(f)));
    }
  });
}

// ------------------------------------------------------------------ task managers
#if P_MGR
namespace err_code {
constexpr int in_reset = -104, not_found = -1008, exists = -1009, exiting = -3002, other = -3005;
}
struct InFrame {
  Frame f;
  explicit InFrame(Frame::Kind k, Mgr *m) {
    f.kind = k;
    f.m = m;
    ++m->ops;
    W->frames.push_back(&f);
  }
  void done() {
    while (W->advance(f, nullptr)) {
    }
    W->frames.pop_back();
    --f.m->ops;
  }
};
// seconds that do not fit into 31 or 32 bits; sums of two of them fit into the 64-bit nanoseconds of the model
int64_t far_seconds(unsigned how) {
  static const int64_t far[] = {1000000000, 2147483646, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296, 4300000000};
  return far[how % 8] * 1000000000;
}
void World::add_task(Mgr *m, Slot *s, unsigned how) {
  Actor *a = s->a;
  if (a->kind != TASK || a->vt != INT || limbo(a)) return;
  int64_t timeout = 0;
  if (how % 3) timeout = (how / 3 % 8) * 1000000000LL + (how / 24 % 4) * 400000000LL + (how % 7 == 1);
  if (how % 16 == 13 && m->last < 4700000000000000000) timeout = far_seconds(how / 16) + (how % 7 == 1);
  if (m->reset_in_tick) timeout = 0;
  int want = 0;
  if (m->in_reset) want = err_code::in_reset;
  else if (a->st >= ST::kDone) want = err_code::exiting;
  else if (a->mgr == m) want = err_code::exists;
  else if (a->mgr) want = err_code::other;
  c.log("add #%d to manager %d, timeout %.9f", a->id, m->id, static_cast<double>(timeout) / 1e9);
  TaskF<int> *f = as<TaskF<int>>(s->h.get());
  int rc = timeout || how / 128 % 2 ? m->p->add_task(*f, static_cast<time_t>(timeout / 1000000000), static_cast<int>(timeout % 1000000000))
                                    : m->p->add_task(*f);
  if (rc != want) c.fail("adding #%d returned %d, expected %d", a->id, rc, want);
  if (want) {
    ++n_add_refused;
    return;
  }
  ++n_added;
  ++a->handles;
  a->mgr = m;
  m->in.push_back(a);
  a->deadline = timeout ? m->last + timeout : 0;
}
void World::mgr_tick(Mgr *m, unsigned how) {
  static const int64_t steps[] = {1, 1000000000, 400000000, 2600000000LL, 999999999, 6000000000LL, 0, -1000000000};
  static const int64_t firsts[] = {5000000000LL, 5000000001LL, 5700000000LL, 1999999999LL, 600000000LL, 3200000000LL};
  int64_t now = m->last ? m->last + steps[how % 8] : firsts[how % 6];
  if (m->last && how / 8 % 2) {  // just at, or just past, a deadline
    for (Actor *a : m->in)
      if (a->deadline) now = a->deadline + static_cast<int64_t>(how / 16 % 3) - 1;
  }
  if (how % 32 == 29 && m->last < 4000000000000000000) now = far_seconds(how / 32) + (how % 7 == 1);
  if (now <= 0) now = 1;
  bool idle = now <= m->last || m->in_tick;
  int want = !idle && m->in_reset ? err_code::in_reset : 0;
  if (!idle && !want) {
    for (Actor *a : m->in)
      if ((a->running && owned(a) < 1) || (a->suspended() && (hazard(a) || in_flight(a)))) return;
  }
  c.log("manager %d: tick %.9f", m->id, static_cast<double>(now) / 1e9);
  InFrame fr(idle || want ? Frame::DROPS : Frame::TICK, m);
  bool first_tick = m->last == 0;
  if (!idle && !want) {
    fr.f.now = now;
    m->in_tick = true;
    if (first_tick) {
      for (Actor *a : m->in)
        if (a->deadline) a->deadline += now;
    }
  }
  ++depth;
  int rc = m->p->tick(static_cast<time_t>(now / 1000000000), static_cast<int>(now % 1000000000));
  --depth;
  if (rc != want) c.fail("tick returned %d, expected %d", rc, want);
  if (idle || want) {
    fr.done();
    return;
  }
  fr.done();
  m->in_tick = false;
  m->reset_in_tick = false;
  m->last = now;
  for (Actor *a : m->in)
    if (a->deadline) ++n_untouched;
}
void World::mgr_end(Mgr *m, bool destroy) {
  if (destroy && m->ops) return;
  if (!m->in_reset)
    for (Actor *a : m->in)
      if ((a->running && owned(a) < 1) || (a->suspended() && (hazard(a) || in_flight(a))) || limbo(a)) return;
  c.log("manager %d is %s (%zu tasks)", m->id, destroy ? "destroyed" : "reset", m->in.size());
  bool busy = m->in_reset;
  InFrame fr(busy ? Frame::DROPS : Frame::RESET, m);
  if (!busy) {
    if (!m->in.empty()) ++n_mgr_reset;
    fr.f.kill = m->in;
    for (Actor *a : fr.f.kill) leave(a);
    m->in_reset = true;
    if (m->in_tick) m->reset_in_tick = true;
    m->last = 0;
  }
  ++depth;
  if (destroy) {
    std::unique_ptr<Mgr::type> p = std::move(m->p);
    p.reset();
  } else {
    m->p->reset();
  }
  --depth;
  fr.done();
  if (!busy) m->in_reset = false;
}
void World::mgr_op(Mgr *m, unsigned op, unsigned who, unsigned how) {
  switch (op % 16) {
    case 0:
    case 1:
    case 2:
    case 3:
      if (Slot *s = pick_slot(who)) add_task(m, s, how * 7 + op / 16);
      return;
    case 4:
      mgr_end(m, false);
      return;
    case 5:
      mgr_end(m, true);
      return;
    case 6:
    case 7:
    case 8:
      mgr_tick(m, how);
      return;
    default:
      break;
  }
  // the others take an id: of a task in the manager mostly
  Actor *a = nullptr;
  if (!m->in.empty() && who % 5) a = m->in[who % m->in.size()];
  else
    for (auto &p : actors)
      if (p->kind == TASK && p->tid && (!a || p->id % 3 == static_cast<int>(how % 3))) a = p.get();
  uint64_t id = a ? a->tid : 4711;
  if (a && (limbo(a) || (a->suspended() && (hazard(a) || in_flight(a))))) return;
  bool found = a && a->mgr == m;
  int want = m->in_reset ? err_code::in_reset : found ? 0 : err_code::not_found;
  if (want == err_code::not_found) ++n_notfound;
  if (want == 0 && a->running && owned(a) < 1 && op % 16 != 9 && op % 16 != 10) return;
  int rc = 0;
  int64_t timeout = (how % 8) * 700000000LL;
  if (how % 16 == 13 && m->last < 4700000000000000000) timeout = far_seconds(how / 16);
  InFrame fr(Frame::DROPS, m);
  switch (op % 16) {
    case 9: {
      if (m->reset_in_tick) {
        fr.done();
        return;
      }
      c.log("manager %d: timeout of #%d set to %.9f", m->id, a ? a->id : 0, static_cast<double>(timeout) / 1e9);
      if (!want) a->deadline = timeout ? m->last + timeout : 0;
      rc = m->p->set_timeout(id, static_cast<time_t>(timeout / 1000000000), static_cast<int>(timeout % 1000000000));
      break;
    }
    case 10: {
      const TaskF<int> *f = m->p->find_task(id);
      if (!f != (want != 0)) c.fail("manager %d %s #%d", m->id, f ? "finds" : "does not find", a ? a->id : 0);
      if (f && f->get_id() != id) c.fail("manager %d found another task", m->id);
      rc = want;
      break;
    }
    case 11:
    case 12: {
      c.log("manager %d: start #%d", m->id, a ? a->id : 0);
      bool go = !want && !a->started && a->st == ST::kCreated;
      if (go) a->st = ST::kRunning;
      // the manager keeps a handle of its own meanwhile; a task that has been ended leaves
      if (!want) {
        ++a->handles;
        if (a->st >= ST::kDone) {
          leave(a);
          fr.f.drop.push_back(a);
        }
        fr.f.drop.push_back(a);
      }
      ++depth;
      rc = m->p->start(id);
      --depth;
      if (go && !a->started) c.fail("#%d was started but did not run", a->id);
      if (!want && a->st >= ST::kDone && a->mgr == m) {
        leave(a);
        fr.f.drop.push_back(a);
      }
      break;
    }
    default: {
      static const ST sts[] = {ST::kKilled, ST::kCancle, ST::kTimeout};
      unsigned kind = op % 16 == 13 ? 0 : op % 16 == 14 ? 1 : 2;
      ST st = kind == 0 ? ST::kCancle : kind == 1 ? ST::kKilled : sts[how % 3];
      bool remove = kind == 2 && how / 4 % 2;
      bool wrong = remove && how / 8 % 3 == 1;
      c.log("manager %d: %s #%d%s", m->id, remove ? "remove" : "end", a ? a->id : 0, wrong ? " given another task" : "");
      if (wrong) {  // confirmed with another task: not found
        TaskF<int> *o = nullptr;
        for (auto &s : slots)
          if (s.a && s.h && s.a->kind == TASK && s.a->vt == INT && s.a != a) o = as<TaskF<int>>(s.h.get());
        if (!o) {
          fr.done();
          return;
        }
        if (!want) want = err_code::not_found;
        rc = m->p->remove_task(id, *o);
        break;
      }
      if (remove) st = ST::kKilled;
      if (!want) {
        leave(a);
        fr.f.drop.push_back(a);
        if (!remove || a->st != ST::kCreated) end_in_manager(a, st);
      }
      ++depth;
      if (kind == 0) rc = m->p->cancel(id);
      else if (kind == 1) rc = m->p->kill(id);
      else if (!remove) rc = m->p->kill(id, st);
      else if (how / 8 % 3 == 2 && a && a->ctx) rc = m->p->remove_task(id, a->ctx);
      else rc = m->p->remove_task(id);
      --depth;
      break;
    }
  }
  if (rc != want) c.fail("manager %d: operation %u on #%d returned %d, expected %d", m->id, op % 16, a ? a->id : 0, rc, want);
  fr.done();
}
void probe_mgr(World *w, Mgr *m) {
  pbt::Ctx &c = w->c;
  if (m->p->get_task_size() != m->in.size())
    c.fail("manager %d contains %zu tasks, expected %zu", m->id, m->p->get_task_size(), m->in.size());
  size_t timers = 0;
  for (Actor *a : m->in) {
    if (a->deadline) ++timers;
    auto *f = m->p->find_task(a->tid);
    if (!f || f->get_id() != a->tid) c.fail("manager %d does not find #%d", m->id, a->id);
    if (a->returned) c.fail("#%d has ended but is still in its manager", a->id);
  }
  for (auto &p : w->actors)
    if (p->kind == TASK && p->mgr != m && p->tid && m->p->find_task(p->tid)) c.fail("manager %d still finds #%d", m->id, p->id);
  if (m->p->get_tick_checkpoint_size() != timers)
    c.fail("manager %d has %zu timers, expected %zu", m->id, m->p->get_tick_checkpoint_size(), timers);
  auto t = m->p->get_last_tick_time();
  if (static_cast<int64_t>(t.tv_sec) * 1000000000 + t.tv_nsec != m->last) c.fail("manager %d shows another time of its last tick", m->id);
}
#else
void World::mgr_op(Mgr *, unsigned, unsigned, unsigned) {}
#endif

// ------------------------------------------------------------------ stackful tasks
#if P_SF
int SfFn::operator()(void *) {
  Sf *self = t;
  World *w = W;
  w->sf_started(self);
  for (size_t pc = 0; pc < self->script->steps.size(); ++pc) {
    Step &st = self->script->steps[pc];
    switch (st.kind) {
      case S_SET:
        if (GenObj *g = w->pick_gen(st.a)) w->set_gen(g);
        break;
      case S_RESET:
        if (GenObj *g = w->pick_gen(st.a)) w->reset_gen(g);
        break;
      case S_DROPGEN:
        if (GenObj *g = w->pick_gen(st.a)) w->drop_gen(g, st.b);
        break;
      case S_KILL:
        if (Slot *s = w->pick_slot(st.a))
          if (w->kill(s, st.b)) ++w->n_inbody_kill;
        break;
      case S_DROP:
        if (Slot *s = w->pick_slot(st.a)) w->drop(s);
        break;
      case S_START:
        if (Slot *s = w->pick_slot(st.a)) w->start(s);
        break;
      case S_CREATE: {
        Slot *s = w->free_slot();
        if (!s || !st.sub || w->closing || w->actors.size() > 60) break;
        w->create(s, std::move(st.sub));
        break;
      }
      case S_SFOP:
        if (Sf *o = w->pick_sf(st.a)) {
          ++w->n_sf_nested;
          w->sf_op(o, st.b, st.c);
        }
        break;
      case S_SFNEW:
        if (st.sub && !w->closing) w->sf_create(std::move(st.sub));
        break;
      default: {
        sf_task *me = sf_task::this_task();
        if (!me || me->get_coroutine_context().get() == nullptr) w->c.fail("T%d does not see itself", self->id);
        w->c.log("T%d yields", self->id);
        w->sf_yields(self);
        me->yield(nullptr);
        w->sf_enter(self);
        w->c.log("T%d goes on", self->id);
        break;
      }
    }
    if (!self->in_body) w->c.fail("T%d runs although it was suspended", self->id);
  }
  w->sf_returns(self);
  return self->ret;
}
void World::sf_create(std::unique_ptr<Script> s) {
  if (sfs.size() >= 8) return;
  sfs.emplace_back(new Sf);
  Sf *t = sfs.back().get();
  t->id = static_cast<int>(sfs.size());
  t->ret = 1000 + t->id;
  t->script = std::move(s);
  t->refs = 1;
  c.log("create T%d", t->id);
  TrackAlloc al;
  sf_task::ptr_type p = sf_task::create(SfFn(t), al, 256 * 1024);
  if (!p) c.fail("creating a stackful task failed");
  t->h.push_back(p);
}
void World::sf_drop(Sf *t) {
  if (t->h.size() == 1 && t->pinned && !sf_final) return;
  sf_task::ptr_type p = std::move(t->h.back());
  t->h.pop_back();
  sf_pre_drop(t);
  bool force = t->refs == 0 && t->started && !t->finished;
  ++depth;
  p.reset();
  --depth;
  if (force && !t->finished) c.fail("T%d lost its last handle but did not run to its end", t->id);
}
void World::sf_op(Sf *t, unsigned op, unsigned how) {
  op %= 9;
  if (op == 6) {
    sf_drop(t);
    return;
  }
  if (op == 7) {
    if (t->h.size() < 3) {
      t->h.push_back(t->h[0]);
      ++t->refs;
    }
    return;
  }
  sf_task::ptr_type p = t->h[0];
  ++t->refs;
  ++depth;
  int want = 0, rc = 0, entries = t->entries;
  bool enters = false, ends = false;
  switch (op) {
    case 3:
      want = t->st >= SF_DONE ? -1007 : t->st == SF_RUNNING ? -1006 : 0;
      c.log("cancel T%d (%s)", t->id, want ? "refused" : "accepted");
      if (!want) {
        t->st = SF_CANCELED;
        ends = true;
        ++n_sf_killed;
      }
      rc = p->cancel(nullptr);
      break;
    case 4:
    case 5: {
      want = t->st >= SF_DONE ? -1007 : 0;
      int st = op == 4 ? SF_KILLED : SF_TIMEOUT;
      bool tick = op == 5 && how % 2 && !want;
      c.log("%s T%d (%s)", tick ? "expire" : "kill", t->id, want ? "refused" : "accepted");
      if (!want) {
        ends = t->st != SF_RUNNING;
        t->st = st;
        ++n_sf_killed;
      }
      if (tick) {
        cotask::task_manager<sf_task> m;
        rc = m.add_task(p, 1, 0);
        if (rc) c.fail("adding T%d to a manager returned %d", t->id, rc);
        m.tick(10, 0);
        m.tick(20, 0);
        if (m.get_task_size()) c.fail("T%d is still in its manager", t->id);
      } else {
        rc = st == SF_KILLED && how % 2 ? p->kill(nullptr) : p->kill(static_cast<cotask::EN_TASK_STATUS>(st), nullptr);
      }
      break;
    }
    case 8: {
      Sf *n = pick_sf(how);
      if (!n || n == t) break;
      n->pinned = true;
      c.log("T%d is to run after T%d", n->id, t->id);
      if (t->st >= SF_DONE) {
        if (n->st == SF_CREATED || n->st == SF_WAITING) n->st = SF_RUNNING;
      } else {
        t->follow.push_back(n);
      }
      sf_task::ptr_type q = n->h[0];
      ++n->refs;
      if (p->next(q, nullptr) != q) c.fail("chaining T%d failed", n->id);
      sf_pre_drop(n);
      break;
    }
    default:
      want = t->st >= SF_DONE ? -1007 : t->st == SF_RUNNING ? -1006 : 0;
      c.log("start T%d (%s)", t->id, want ? "refused" : "accepted");
      if (!want) {
        t->st = SF_RUNNING;
        enters = true;
      }
      rc = op == 0 && !(how & 1) ? p->start(nullptr) : p->resume(nullptr);
      break;
  }
  --depth;
  if (rc != want) c.fail("an operation on T%d returned %d, expected %d", t->id, rc, want);
  if (want) ++n_refused;
  if (enters && entries == t->entries) c.fail("T%d was started but did not run", t->id);
  if (ends && !t->finished) c.fail("T%d was ended but did not run to its end", t->id);
  sf_pre_drop(t);
  ++depth;
  p.reset();
  --depth;
}
void World::sf_close(unsigned style) {
  for (size_t i = 0; i < sfs.size(); ++i) {
    Sf *t = sfs[i].get();
    if (style == 0 || style == 3)
      if (!t->h.empty() && t->st < SF_DONE) sf_op(t, 4, 0);
    if (style == 1 && !t->pinned && !t->h.empty()) sf_drop(t);
    while (style == 4 && !t->h.empty()) sf_drop(t);
  }
}
void World::probe_sf() {
  for (auto &tp : sfs) {
    Sf *t = tp.get();
    if (t->in_body) c.fail("model: T%d is running at the top", t->id);
    if (!t->waiters.empty() && t->ended()) c.fail("#%d was not woken although T%d has ended", t->waiters[0]->id, t->id);
    if (t->ended()) {
      for (Sf *n : t->follow)
        if (n->st == SF_CREATED) c.fail("T%d was not started although T%d has ended", n->id, t->id);
      t->follow.clear();
    }
    if (t->refs == 0 && t->toks) c.fail("the action of T%d is still alive although its last handle is gone", t->id);
    if (t->refs && t->toks != 1) c.fail("T%d has %d actions", t->id, t->toks);
    if (t->st >= SF_DONE && !t->finished) c.fail("T%d was ended but did not run to its end", t->id);
    for (auto &h : t->h) {
      if (static_cast<int>(h->get_status()) != t->st)
        c.fail("T%d is in status %d, expected %d", t->id, static_cast<int>(h->get_status()), t->st);
      if (h->use_count() < static_cast<size_t>(t->refs)) c.fail("T%d counts %zu references, expected %d", t->id, h->use_count(), t->refs);
      if (t->finished && h->get_ret_code() != t->ret) c.fail("T%d returned %d, expected %d", t->id, h->get_ret_code(), t->ret);
    }
  }
}
#endif

// ------------------------------------------------------------------ checks at the top
void World::probe_slot(Slot *s) {
  Actor *a = s->a;
  bool done = ret(a);
  if (a->kind == TASK) {
    with_task(a, s->h.get(), [&](auto &f) {
      using F = typename std::decay<decltype(f)>::type;
      ST st = f.get_status();
      if (st != a->st) c.fail("task #%d reports status %d, expected %d", a->id, static_cast<int>(st), static_cast<int>(a->st));
      if (f.is_exiting() != (st >= ST::kDone)) c.fail("task #%d: is_exiting() is wrong", a->id);
      if (f.is_completed() != done) c.fail("task #%d: is_completed() is wrong", a->id);
      if (f.is_canceled() != (st == ST::kCancle) || f.is_faulted() != (st >= ST::kKilled) || f.is_timeout() != (st >= ST::kTimeout))
        c.fail("task #%d: a status query is wrong", a->id);
      if (!f.valid() || f.get_id() != a->tid) c.fail("task #%d: wrong id", a->id);
      if (f.get_ref_future_count() != static_cast<size_t>(a->handles))
        c.fail("task #%d: %zu handles counted, expected %d", a->id, f.get_ref_future_count(), a->handles);
      if (f.get_context()->is_ready() != done || f.get_context()->is_pending() == done)
        c.fail("task #%d: is_ready() or is_pending() of its context is wrong", a->id);
      if constexpr (!std::is_same<F, TaskF<Val>>::value) {
        if (f.get_private_data() != a->priv || f.get_private_data()->v != a->privv) c.fail("task #%d: its private data changed", a->id);
      }
      if constexpr (!std::is_same<F, TaskF<void>>::value) {
        auto *p = std::as_const(*f.get_context()).data();
        if (!p != !done) c.fail("task #%d: data() is %s", a->id, p ? "present before its end" : "missing");
        if (p && !a->consumed && tag_of(*p) != a->ret) c.fail("task #%d holds %d, returned %d", a->id, tag_of(*p), a->ret);
      }
    });
  } else {
    with_call(a, s->h.get(), [&](auto &f) {
      ST st = f.get_status();
      if (st != a->st) c.fail("callable #%d reports status %d, expected %d", a->id, static_cast<int>(st), static_cast<int>(a->st));
      if (f.is_ready() != done) c.fail("callable #%d: is_ready() is wrong", a->id);
    });
  }
}
void World::probe_gens() {
  for (auto &gp : gens) {
    GenObj *g = gp.get();
    for (auto &h : g->hs) {
      auto look = [&](auto &f) {
        if (f.is_ready() != g->ready || f.is_pending() == g->ready || f.get_context().get() != g->ctx ||
            f.get_status() != (g->ready ? ST::kDone : ST::kRunning))
          c.fail("gen%d: a query is wrong", g->id);
        if (f.get_context().use_count() != g->handles) c.fail("gen%d: %ld references, expected %d", g->id, f.get_context().use_count(), g->handles);
        using F = typename std::decay<decltype(f)>::type;
        if constexpr (!std::is_same<F, GenF<void>>::value) {
          auto *p = std::as_const(*f.get_context()).data();
          if (!p == g->ready) c.fail("gen%d: data() is wrong", g->id);
          if (p && !g->consumed && tag_of(*p) != g->tag) c.fail("gen%d holds %d, expected %d", g->id, tag_of(*p), g->tag);
        }
      };
      if (g->vt == INT) look(*gf<int>(h.get()));
      else if (g->vt == VAL) look(*gf<Val>(h.get()));
      else look(*gf<void>(h.get()));
    }
    if (g->ready && !g->waiters.empty()) c.fail("a waiter of gen%d was not woken", g->id);
    if (!g->in_some) {
      if (g->cb_suspend != g->want_suspend) c.fail("gen%d: %ld suspend callbacks for %ld suspensions", g->id, g->cb_suspend, g->want_suspend);
      if (g->cb_resume != g->want_resume) c.fail("gen%d: %ld resume callbacks for %ld resumptions", g->id, g->cb_resume, g->want_resume);
    }
  }
}
void World::check_pending(Actor *a) {
  if (a->running) c.fail("#%d should have been resumed and have suspended or ended by now", a->id);
  if (a->kind == SOME) {
    bool done = ret(a);
    if (a->fut && !done) {
      if (a->killed) c.fail("some#%d was killed but did not end", a->id);
      if (some_ended(a, true) >= a->bound) c.fail("some#%d still waits although %zu of %zu members ended", a->id, some_ended(a, true), a->bound);
    }
    if (done && !a->waiters.empty()) c.fail("a waiter of some#%d was not woken", a->id);
    return;
  }
  if (a->started && !a->returned && !a->suspended()) c.fail("#%d is neither suspended nor ended", a->id);
  if (a->suspended() && a->st >= ST::kDone && !a->detached) c.fail("#%d was ended but not resumed", a->id);
  if (a->on && ret(a->on) && !a->detached) c.fail("#%d was not woken although #%d has ended", a->id, a->on->id);
#if P_SF
  if (a->on_sf && a->on_sf->ended()) c.fail("#%d was not woken although T%d has ended", a->id, a->on_sf->id);
#endif
  if (a->on_gen && (a->on_gen->ready || a->on_gen->dead)) c.fail("#%d was not woken although gen%d is ready", a->id, a->on_gen->id);
  if (a->returned && a->locals) c.fail("a local of #%d is still alive after its end", a->id);
  if (a->handles == 0 && a->toks) c.fail("the frame of #%d is still alive although its last handle is gone", a->id);
  if (a->handles > 0 && a->toks != 1) c.fail("the frame of #%d has %d parameters alive, expected 1", a->id, a->toks);
}
void World::quiescent() {
  for (int round = 0; round < 1000 && (!grave.empty() || !gen_grave.empty()); ++round) {
    while (!grave.empty()) {
      auto p = std::move(grave.back());
      grave.pop_back();
      if (!may_drop(p.first)) c.fail("model: a handle cannot be dropped at the top");
      drop_handle(p.first, p.second, nullptr);
    }
    while (!gen_grave.empty()) {
      auto p = std::move(gen_grave.back());
      gen_grave.pop_back();
      gen_handle_gone(p.first);
      ++depth;
      p.second.reset();
      --depth;
    }
  }
  for (size_t i = 0; i < actors.size(); ++i) check_pending(actors[i].get());
  for (auto &s : slots)
    if (s.a && s.h) probe_slot(&s);
  probe_gens();
#if P_SF
  probe_sf();
#endif
#if P_MGR
  for (auto &m : mgrs)
    if (m->p) probe_mgr(this, m.get());
#endif
}

void World::close() {
  closing = true;
  c.log("-- end of the case");
#if P_MGR
  bool late = c.coin();
  for (size_t i = 0; i < mgrs.size() && !late; ++i)
    if (mgrs[i]->p) {
      mgr_end(mgrs[i].get(), true);
      quiescent();
    }
#endif
#if P_SF
  sf_close(static_cast<unsigned>(c.draw(3)));
  quiescent();
#endif
  bool kills = c.coin();
  if (kills) {
    for (size_t i = 0; i < slots.size(); ++i)
      if (slots[i].a) kill(&slots[i], 0);
    quiescent();
  }
  for (int round = 0;; ++round) {
    bool any = false;
    if (round > 200) c.fail("model: the case does not end");
    // whoever is detached first, then what can be dropped
    for (int pass = 0; pass < 2; ++pass)
      for (size_t i = 0; i < slots.size(); ++i) {
        Slot &s = slots[i];
        if (!s.a || !s.h) continue;
        if (pass == 0 && !s.a->detached && s.a->kind != SOME) continue;
        if (drop(&s)) any = true;
        quiescent();
      }
    if (!any) {
      bool left = false;
      for (auto &s : slots) left = left || s.a;
      if (!left) break;
      bool set = false;
      for (auto &g : gens)
        if (!g->hs.empty() && !g->ready) {
          set_gen(g.get());
          set = true;
        }
      quiescent();
      if (!set) {
        for (auto &s : slots)
          if (s.a) c.log("left: #%d", s.a->id);
        c.fail("model: slots cannot be emptied");
      }
    }
  }
#if P_MGR
  for (size_t i = 0; i < mgrs.size(); ++i)
    if (mgrs[i]->p) {
      mgr_end(mgrs[i].get(), true);
      quiescent();
    }
#endif
  for (size_t i = 0; i < gens.size(); ++i)
    while (!gens[i]->hs.empty()) {
      drop_gen(gens[i].get(), 0);
      quiescent();
    }
#if P_SF
  sf_close(3);
  quiescent();
  sf_final = true;
  sf_close(4);
  quiescent();
#endif
  for (auto &a : actors) {
    if (a->kind == SOME) continue;
    if (!a->returned) c.fail("#%d never ran to its end", a->id);
    if (a->toks || a->locals) c.fail("the frame of #%d is still alive at the end", a->id);
  }
}

// ------------------------------------------------------------------ generation
std::unique_ptr<Script> gen_script(pbt::Ctx &c, int kind, int lvl) {
  std::unique_ptr<Script> s(new Script);
  s->kind = kind;
  s->vt = P_MGR && kind == TASK ? static_cast<VT>(c.weighted({10, 1, 1})) : static_cast<VT>(c.weighted({3, 3, 2}));
  pbt::Loop loop(c, lvl == 0 ? 3 : 2, 6);
  while (loop.next()) {
    Step st;
    st.kind = static_cast<int>(c.weighted({P_GEN * 3, P_CALL + P_TASK * 2, P_CALL * 2, P_SOME * 2, P_GEN + 2, P_GEN, P_GEN, 4, 4, P_TASK * 2, 2, 2, 1, 1,
                                           P_GEN > 4 ? 2 : 1, P_MGR, kind == SFK ? 0u : P_SF * 3u, P_SF * 3u, P_SF}));
    st.a = static_cast<unsigned>(c.draw(64));
    switch (st.kind) {
      case S_CHILD:
        if (lvl >= 3) {
          st.kind = S_QUERY;
          break;
        }
        st.sub = gen_script(c, CALL, lvl + 1);
        break;
      case S_CREATE:
        if (lvl >= 1) {
          st.kind = S_QUERY;
          break;
        }
        st.sub = gen_script(c, c.draw(P_CALL + P_TASK) < P_CALL ? CALL : TASK, lvl + 1);
        break;
      case S_SFNEW:
        if (lvl >= 1) {
          st.kind = S_QUERY;
          break;
        }
        st.sub = gen_script(c, SFK, lvl + 1);
        break;
      case S_MGR:
        st.b = static_cast<unsigned>(c.draw(128));
        st.c = static_cast<unsigned>(c.draw(16));
        break;
      case S_SOME:
        st.b = static_cast<unsigned>(c.draw(40));
        st.c = static_cast<unsigned>(c.draw(48));
        break;
      default:
        st.b = static_cast<unsigned>(c.draw(64));
        st.c = static_cast<unsigned>(c.draw(8));
        break;
    }
    s->steps.push_back(std::move(st));
  }
  return s;
}

void run_world(pbt::Ctx &c) {
  long base = pbt::live_allocs();
  {
    World w(c);
    W = &w;
    std::map<int, int> copies;
    Val::copies = &copies;
    Val::live = 0;
    int ng = static_cast<int>(c.range(1, 4));
    for (int i = 0; i < ng; ++i)
      w.new_gen(static_cast<VT>(c.weighted({3, 3, 1})), static_cast<int>(c.weighted({6, 1, 2})));
#if P_MGR
    size_t nm = c.range(1, 2);
    for (size_t i = 0; i < nm; ++i) {
      w.mgrs.emplace_back(new Mgr);
      w.mgrs.back()->id = static_cast<int>(i + 1);
      w.mgrs.back()->p.reset(new Mgr::type());
    }
#endif
    pbt::Loop loop(c, P_MGR ? 20 : 14, P_MGR ? 60 : 40);
    while (loop.next()) {
      size_t op = c.weighted({P_CALL * 3 + P_GEN, P_TASK * 3, P_SOME * 3, 8, 2, 3, 5, 5, P_TASK * 4, 2, 2, 1, P_MGR * 6, P_MGR ? P_TICK * 4 : 0, P_SF * 3, P_SF * 6});
      switch (op) {
        case 0:
        case 1: {
          Slot *s = w.free_slot();
          auto sc = gen_script(c, op == 0 ? CALL : TASK, 0);
          if (!s) break;
          w.create(s, std::move(sc));
          break;
        }
        case 2: {
          Slot *s = w.free_slot();
          unsigned t = static_cast<unsigned>(c.draw(9)), n = static_cast<unsigned>(c.draw(5)), seed = static_cast<unsigned>(c.draw(6)),
                   how = static_cast<unsigned>(c.draw(48));
          if (!s) break;
          w.create_some(s, t, n, seed, how);
          break;
        }
        case 3:
          if (GenObj *g = w.pick_gen(static_cast<unsigned>(c.draw(8)))) w.set_gen(g);
          break;
        case 4:
          if (GenObj *g = w.pick_gen(static_cast<unsigned>(c.draw(8)))) w.reset_gen(g);
          break;
        case 5:
          if (GenObj *g = w.pick_gen(static_cast<unsigned>(c.draw(8)))) w.drop_gen(g, static_cast<unsigned>(c.draw(3)));
          break;
        case 6:
          if (Slot *s = w.pick_slot(static_cast<unsigned>(c.draw(8)))) w.kill(s, static_cast<unsigned>(c.draw(128)));
          break;
        case 7:
          if (Slot *s = w.pick_slot(static_cast<unsigned>(c.draw(8)))) w.drop(s);
          break;
        case 8:
          if (Slot *s = w.pick_slot(static_cast<unsigned>(c.draw(8)))) w.start(s);
          break;
        case 9:
          if (Slot *s = w.pick_slot(static_cast<unsigned>(c.draw(8)))) {
            unsigned how = static_cast<unsigned>(c.draw(16));
            if (s->a->kind == TASK) w.task_handle_op(s, how);
            else if (s->a->kind == CALL) w.move_call(s, how);
          }
          break;
        case 10:
          if (GenObj *g = w.pick_gen(static_cast<unsigned>(c.draw(8))))
            w.copy_gen(g, static_cast<unsigned>(c.draw(3)), static_cast<int>(c.draw(3)));
          break;
#if P_SF
        case 14:
          w.sf_create(gen_script(c, SFK, 0));
          break;
        case 15: {
          unsigned k = static_cast<unsigned>(c.draw(8)), o = static_cast<unsigned>(c.draw(9)), how = static_cast<unsigned>(c.draw(8));
          if (Sf *t = w.pick_sf(k)) w.sf_op(t, o, how);
          break;
        }
#endif
#if P_MGR
        case 12: {
          unsigned k = static_cast<unsigned>(c.draw(2)), o = static_cast<unsigned>(c.draw(128)), who = static_cast<unsigned>(c.draw(16)),
                   how = static_cast<unsigned>(c.draw(256));
          if (o % 16 == 5 && o / 16 != 1) o = 0;
          if (o % 16 == 4 && o / 16 > 3) o = 1;
          if (Mgr *m = w.pick_mgr(k)) w.mgr_op(m, o, who, how);
          break;
        }
        case 13: {
          unsigned k = static_cast<unsigned>(c.draw(2)), how = static_cast<unsigned>(c.draw(256));
          if (Mgr *m = w.pick_mgr(k)) w.mgr_tick(m, how);
          break;
        }
#endif
        default: {
          VT vt = static_cast<VT>(c.weighted({3, 3, 1}));
          int mode = static_cast<int>(c.weighted({6, 1, 2, 1}));
          if (w.gens.size() < 8) w.new_gen(vt, mode);
          break;
        }
      }
      w.quiescent();
    }
    w.close();
    if (w.n_killed) c.label("killed");
    if (w.n_forced) c.label("resumed by a kill or drop");
    if (w.n_multi) c.label("several waiters");
    if (w.n_detached) c.label("kill reached through a chain");
    if (w.n_some_wait) c.label("some() had to wait");
    if (w.n_late) c.label("awaited after the end");
    if (w.n_dropped_wait) c.label("dropped while awaited");
    if (w.n_nested) c.label("set from inside a body");
    if (w.n_gen_dropped) c.label("woken by a dropped generator");
    if (w.n_inbody_kill) c.label("killed from inside a body");
    if (w.n_child) c.label("nested callable");
    if (w.n_refused) c.label("operation refused");
    if (w.n_copy) c.label("handles copied or moved");
    if (w.n_over) c.label("a callable assigned over another one");
    if (w.n_unstarted) c.label("ended before it was started");
    if (w.n_sync) c.label("value set from the suspend callback");
    if (w.n_reset) c.label("generator reset");
    if (w.n_added) c.label("added to a manager");
    if (w.n_add_refused) c.label("adding refused");
    if (w.n_left) c.label("left its manager at its end");
    if (w.n_mgr_reset) c.label("manager with tasks reset or destroyed");
    if (w.n_silent) c.label("ended by a manager without having run");
    if (w.n_expired) c.label("expired");
    if (w.n_untouched) c.label("survived a tick with a timer");
    if (w.n_notfound) c.label("id not found");
    if (w.n_mgr_nested) c.label("manager used from inside a body");
    if (w.n_sf_woken) c.label("woken by a stackful task");
    if (w.n_sf_multi) c.label("several waiters on a stackful task");
    if (w.n_sf_killed) c.label("stackful task killed, cancelled or expired");
    if (w.n_sf_late) c.label("stackful task awaited after its end");
    if (w.n_sf_gone) c.label("woken by a dropped stackful task");
    if (w.n_sf_left) c.label("ended while waiting for a stackful task");
    if (w.n_sf_nested) c.label("stackful task used from inside a body");
    if (w.n_sf_next) c.label("stackful task run after another");
    if (w.n_flight) c.label("awaited while others are being woken");
    c.label_n("bodies", w.actors.size());
    if (P_NONTRIVIAL) c.nontrivial();
#if P_SF
    if (!track().live.empty()) c.fail("%zu stacks were not released", track().live.size());
#endif
    W = nullptr;
    if (Val::live) c.fail("%ld values are still alive at the end of the case", Val::live);
    Val::copies = nullptr;
  }
  long leak = pbt::live_allocs() - base;
  if (leak) c.fail("%ld allocations were not released", leak);
}
}  // namespace

namespace {
cotask::task_future<void, void> warm_up_body() { co_return; }
}  // namespace
// the id allocator of a thread allocates once
void pbt::setup_process() {
  cotask::task_future<void, void> t = warm_up_body();
#if P_SF
  TrackAlloc al;
  sf_task::ptr_type p = sf_task::create([](void *) { return 0; }, al, 65536);
  p->start(nullptr);
#endif
}
void pbt::run_case(Ctx &c) { run_world(c); }

// C15 / C16: callables and tasks that wait for events of the program's own (awaitables the library knows nothing about),
// for each other and for nested callables.  EV_TASK: weight of tasks among the roots.
//
// Such a suspension is not one the library may end by itself, except to run a dropped body to its end or for a forced
// kill; a killed body may suspend in it again.  The model keeps status, position and what entitles a body to go on; every
// step of a body is checked when it is taken, everything that must have moved is checked at the top.
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <memory>
#include <optional>
#include <vector>

#include "pbt.h"

using pbt::cur;
using pbt::Ctx;

namespace {
using ST = copp::promise_status;
template <class T>
using Call = copp::callable_future<T>;
template <class T>
using Task = cotask::task_future<T, void>;
using Gen = copp::generator_future<int>;

enum At { IDLE, RUN, EV, AW, END };
enum Op { WAIT, AWAIT, CHILD, ORPHAN, QUERY, GEN, FIRE, NOPS };
struct Script;
struct Step {
  int op = WAIT;
  size_t arg = 0;
  std::unique_ptr<Script> sub;
};
struct Script {
  bool nil = false;
  std::vector<Step> steps;
};
struct Event;
struct Node {
  int id = 0;
  bool task = false, nil = false;
  std::unique_ptr<Script> script;
  ST st = ST::kCreated;
  At at = IDLE;
  size_t pc = 0;
  long moves = 0;  // times it was resumed
  Event *ev = nullptr;
  bool fired = false, dropping = false, returned = false, forced = false;
  bool unkillable = false;  // suspended in an await although it was already ended when it got there
  Node *on = nullptr;
  int ret = 0, toks = 0, handles = 0;
  std::vector<Node *> waiters;
  bool ended() const { return st >= ST::kDone; }
};
struct Tok {
  Node *n;
  explicit Tok(Node *x) : n(x) { ++n->toks; }
  Tok(const Tok &o) : n(o.n) { ++n->toks; }
  ~Tok() { --n->toks; }
};
struct Root {
  Node *n = nullptr;
  std::optional<Call<int>> ci;
  std::optional<Call<void>> cv;
  std::vector<Task<int>> ti;
  std::vector<Task<void>> tv;
};
struct World {
  Ctx &c;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<Root> roots;
  std::vector<Event *> events;
  int tag = 0, depth = 0, ending = 0;
  int n_killed = 0, n_forced = 0, n_fired = 0, n_drop_wait = 0, n_again = 0, n_nested = 0, n_value = 0, n_error = 0, n_inherit = 0,
      n_multi = 0, n_unstarted = 0, n_nested_fire = 0, n_late = 0;
  explicit World(Ctx &x) : c(x), roots(5) {}
};
World *W = nullptr;
// While something is being ended, what it waits for is being ended as well: a coroutine that is woken meanwhile does not
// await a callable which has a terminal status and has not returned (it would be resumed a second time).
struct Ending {
  Ending() { ++W->ending; }
  ~Ending() { --W->ending; }
};
bool being_ended(Node *m);

int err(ST s) { return s <= ST::kCreated ? -1 : -static_cast<int>(s); }

// ------------------------------------------------------------------ an event of the program
struct Event {
  Node *n;
  std::coroutine_handle<> h;
  explicit Event(Node *x) : n(x) {}
  Event(const Event &) = delete;
  ~Event() { forget(); }
  void forget() {
    auto &v = W->events;
    auto it = std::find(v.begin(), v.end(), this);
    if (it != v.end()) v.erase(it);
  }
  bool await_ready() const { return false; }
  void await_suspend(std::coroutine_handle<> x) {
    h = x;
    n->at = EV;
    n->ev = this;
    n->fired = false;
    if (n->ended()) ++W->n_again;
    W->events.push_back(this);
  }
  void await_resume() {
    if (n->at != EV) cur().fail("#%d was resumed at step %zu although it was not suspended there", n->id, n->pc);
    if (!n->fired && !n->ended() && !n->dropping)
      cur().fail("#%d, which waits for an event at step %zu, was resumed although nothing happened", n->id, n->pc);
    n->at = RUN;
    n->ev = nullptr;
    ++n->moves;
    forget();
  }
};
void fire(Event *e) {
  Node *n = e->n;
  cur().log("event of #%d (step %zu)", n->id, n->pc);
  ++W->n_fired;
  n->fired = true;
  e->forget();
  long before = n->moves;
  auto h = e->h;
  h.resume();
  if (n->moves == before) cur().fail("#%d did not go on", n->id);
}

// ------------------------------------------------------------------ model
void inherit(Node *m, ST st);
// n has a terminal status and is resumed out of its await
void pass_on(Node *n) {
  if (n->at == AW && n->on && !n->on->task && !n->on->returned) inherit(n->on, n->st);
}
void inherit(Node *m, ST st) {
  if (m->ended()) return;
  ++W->n_inherit;
  m->st = st;
  pass_on(m);
}
void pre_drop(Node *n) {
  n->dropping = true;
  if (n->returned) return;
  if (n->at == EV || n->at == AW) ++W->n_drop_wait;
  if (n->at == IDLE) ++W->n_unstarted;
  if (!n->ended()) n->st = ST::kKilled;
  pass_on(n);
}
void post_drop(Node *n) {
  if (!n->returned) cur().fail("#%d was dropped and its body did not run to its end (step %zu)", n->id, n->pc);
  // a task whose waiters are being woken is freed after that, see settle()
  if (n->toks && !n->task) cur().fail("#%d was dropped and %d of its arguments and locals are left", n->id, n->toks);
}
bool being_ended(Node *m) { return W->ending && !m->task && m->ended() && !m->returned; }
// x waits, directly or not, for a coroutine that runs at the moment.  Awaiting x would close a circle, or a kill that is
// passed on would resume a running coroutine.
bool reaches_running(Node *x, int lim = 60) {
  if (x->at == RUN || lim == 0) return true;
  return x->at == AW && reaches_running(x->on, lim - 1);
}
// some coroutine refers to n and will be resumed, at the latest when it is dropped
bool pinned(Node *n) {
  for (auto &p : W->nodes)
    if (p->on == n && !p->returned && (p->at == RUN || p->ended())) return true;
  return false;
}

// ------------------------------------------------------------------ bodies
template <class F>
struct Child {
  Node *n;
  std::optional<F> f;
  explicit Child(Node *x) : n(x) {}
  ~Child() {
    if (!f) return;
    Ending e;
    pre_drop(n);
    f.reset();
    post_drop(n);
  }
};
void enter(Node *n) {
  if (n->at != IDLE) cur().fail("the body of #%d was entered twice", n->id);
  if (n->st == ST::kCreated) {
    if (n->task) cur().fail("#%d runs although it was not started", n->id);
    n->st = ST::kRunning;
  } else if (n->st != ST::kRunning && !n->dropping && !n->forced) {
    cur().fail("#%d runs although it was not started", n->id);
  }
  n->at = RUN;
  ++n->moves;
}
int leave(Node *n) {
  n->pc = n->script->steps.size();
  n->ret = n->nil ? 0 : 1000 + ++W->tag;
  n->at = END;
  n->returned = true;
  if (!n->ended()) n->st = ST::kDone;
  cur().log("#%d returns %d (status %d)", n->id, n->ret, static_cast<int>(n->st));
  return n->ret;
}
struct AwState {
  bool ready, killed, ending;
  ST st, mst;
};
AwState begin_await(Node *n, Node *m) {
  AwState a;
  a.ready = m->returned || m->ended();
  a.killed = n->ended();
  a.ending = a.killed || (a.ready && !m->returned);  // does not suspend, and goes on with ending m
  if (a.ending) ++W->ending;
  a.st = n->st;
  a.mst = m->st;
  n->on = m;
  n->unkillable = a.ready || a.killed;
  if (a.ready) ++W->n_late;
  if (!a.ready) {
    n->at = AW;
    m->waiters.push_back(n);
    if (m->waiters.size() > 1) ++W->n_multi;
    // it does not suspend, and what it waits for is ended
    if (a.killed && !m->task && m->at == AW) inherit(m, n->st);
  }
  return a;
}
template <class F>
void end_await(Node *n, Node *m, const AwState &a, int v, F *f) {
  if (a.ending) --W->ending;
  if (!a.ready && n->at != AW) cur().fail("#%d was resumed at step %zu although it was not suspended there", n->id, n->pc);
  if (!a.ready && !n->ended() && !n->dropping && !m->returned)
    cur().fail("#%d, which waits for #%d, goes on although nothing happened", n->id, m->id);
  auto it = std::find(m->waiters.begin(), m->waiters.end(), n);
  if (it != m->waiters.end()) m->waiters.erase(it);
  if (n->at == AW) ++n->moves;
  n->at = RUN;
  n->unkillable = false;
  n->on = nullptr;
  if (!m->task && !m->returned && !m->dropping) {
    // ended by being awaited by a killed coroutine
    ST real = f->get_status();
    if (!m->ended()) {
      if (!n->ended()) cur().fail("#%d goes on although #%d has not ended", n->id, m->id);
      if (real != n->st && real != ST::kKilled)
        cur().fail("#%d, awaited by #%d which ended with status %d, has status %d", m->id, n->id, static_cast<int>(n->st), static_cast<int>(real));
      m->st = real;
    }
  }
  if (m->nil) return;
  bool ok;
  if (m->returned) {
    ok = v == m->ret;
    ++W->n_value;
  } else {
    ok = v == err(m->st) || (m->task && (v == err(ST::kKilled) || (n->ended() && v == err(n->st))));
    ++W->n_error;
  }
  if (!ok)
    cur().fail("#%d got %d from #%d, which %s %d with status %d", n->id, v, m->id, m->returned ? "returned" : "did not return", m->ret,
               static_cast<int>(m->st));
}
Node *make_node(std::unique_ptr<Script> s, bool task) {
  W->nodes.push_back(std::make_unique<Node>());
  Node *n = W->nodes.back().get();
  n->id = static_cast<int>(W->nodes.size());
  n->task = task;
  n->nil = s->nil;
  n->script = std::move(s);
  n->handles = 1;
  return n;
}
template <class F>
F body(Node *n, Tok arg);
template <>
Call<int> body<Call<int>>(Node *, Tok);
template <>
Call<void> body<Call<void>>(Node *, Tok);
template <>
Task<int> body<Task<int>>(Node *, Tok);
template <>
Task<void> body<Task<void>>(Node *, Tok);
template <class T>
void drop_copy(Node *m, T &t);

#define EV_AWAIT_I(FUT, M)               \
  {                                      \
    AwState st_ = begin_await(n, M);     \
    int v_ = co_await (FUT);             \
    end_await(n, M, st_, v_, &(FUT));    \
  }
#define EV_AWAIT_V(FUT, M)               \
  {                                      \
    AwState st_ = begin_await(n, M);     \
    co_await (FUT);                      \
    end_await(n, M, st_, 0, &(FUT));     \
  }

#define EV_STEPS(F)                                                                                                       \
  Tok local(n);                                                                                                           \
  enter(n);                                                                                                               \
  for (size_t i = 0; i < n->script->steps.size(); ++i) {                                                                  \
    if (n->at != RUN || n->pc > i) cur().fail("#%d is at step %zu again", n->id, i);                                        \
    n->pc = i;                                                                                                            \
    Step &s = n->script->steps[i];                                                                                        \
    switch (s.op) {                                                                                                       \
      case WAIT: {                                                                                                        \
        co_await Event(n);                                                                                                \
        break;                                                                                                            \
      }                                                                                                                   \
      case AWAIT: {                                                                                                       \
        Root &r = W->roots[s.arg % W->roots.size()];                                                                      \
        Node *m = r.n;                                                                                                    \
        if (!m || m->dropping || reaches_running(m) || being_ended(m)) break;                                          \
        cur().log("#%d awaits #%d", n->id, m->id);                                                                        \
        if (r.ci) { auto *f = &*r.ci; EV_AWAIT_I(*f, m) }                                                                                     \
        else if (r.cv) { auto *f = &*r.cv; EV_AWAIT_V(*f, m) }                                                                                \
        else if (!r.ti.empty()) { Task<int> t = r.ti[0]; ++m->handles; EV_AWAIT_I(t, m) drop_copy(m, t); }                  \
        else { Task<void> t = r.tv[0]; ++m->handles; EV_AWAIT_V(t, m) drop_copy(m, t); }                                    \
        break;                                                                                                            \
      }                                                                                                                   \
      case CHILD:                                                                                                         \
      case ORPHAN: {                                                                                                      \
        if (!s.sub || W->nodes.size() > 40) break;                                                                        \
        Node *m = make_node(std::move(s.sub), false);                                                                     \
        cur().log("#%d makes #%d%s", n->id, m->id, s.op == CHILD ? "" : " and drops it");                                                                         \
        ++W->n_nested;                                                                                                    \
        if (m->nil) {                                                                                                     \
          Child<Call<void>> ch(m);                                                                                        \
          ch.f.emplace(body<Call<void>>(m, Tok(m)));\
          if (s.op == CHILD) EV_AWAIT_V(*ch.f, m)                                                                           \
        } else {                                                                                                          \
          Child<Call<int>> ch(m);                                                                                         \
          ch.f.emplace(body<Call<int>>(m, Tok(m)));\
          if (s.op == CHILD) EV_AWAIT_I(*ch.f, m)                                                                           \
        }                                                                                                                 \
        break;                                                                                                            \
      }                                                                                                                   \
      case QUERY: {                                                                                                       \
        ST real = co_yield F::yield_status();                                                                             \
        if (real != n->st)                                                                                                \
          cur().fail("#%d sees status %d, expected %d", n->id, static_cast<int>(real), static_cast<int>(n->st));          \
        break;                                                                                                            \
      }                                                                                                                   \
      case GEN: {  /* a wait that ends before it begins */                                                               \
        int tag = static_cast<int>(i) + 7;                                                                                \
        Gen g([tag](Gen::context_pointer_type ctx) { ctx->set_value(tag); });                                             \
        bool ended = n->ended();                                                                                          \
        int v = co_await g;                                                                                               \
        if (!ended && v != tag) cur().fail("#%d got %d from its generator, expected %d", n->id, v, tag);                  \
        break;                                                                                                            \
      }                                                                                                                   \
      default: {                                                                                                          \
        if (W->events.empty() || W->depth > 6) break;                                                                     \
        ++W->depth;                                                                                                       \
        ++W->n_nested_fire;                                                                                               \
        fire(W->events[s.arg % W->events.size()]);                                                                        \
        --W->depth;                                                                                                       \
        break;                                                                                                            \
      }                                                                                                                   \
    }                                                                                                                     \
  }

template <class T>
void drop_copy(Node *m, T &t) {
  Ending e;
  if (m->handles == 1) pre_drop(m);
  bool last = --m->handles == 0;
  t.reset();
  if (last) post_drop(m);
}
template <>
Call<int> body<Call<int>>(Node *n, Tok) {
  EV_STEPS(Call<int>)
  co_return leave(n);
}
template <>
Call<void> body<Call<void>>(Node *n, Tok) {
  EV_STEPS(Call<void>)
  leave(n);
  co_return;
}
template <>
Task<int> body<Task<int>>(Node *n, Tok) {
  EV_STEPS(Task<int>)
  co_return leave(n);
}
template <>
Task<void> body<Task<void>>(Node *n, Tok) {
  EV_STEPS(Task<void>)
  leave(n);
  co_return;
}

std::unique_ptr<Script> draw_script(Ctx &c, int depth) {
  auto s = std::make_unique<Script>();
  s->nil = c.chance(1, 4);
  pbt::Loop loop(c, depth == 0 ? 2 : 1, 4);
  while (loop.next()) {
    Step st;
    st.op = static_cast<int>(c.weighted({5, 3, depth < 3 ? 4u : 0u, depth < 3 ? 1u : 0u, 1, 1, 1}));
    if (st.op == AWAIT || st.op == FIRE) st.arg = c.draw(5);
    if (st.op == CHILD || st.op == ORPHAN) st.sub = draw_script(c, depth + 1);
    s->steps.push_back(std::move(st));
  }
  return s;
}

// ------------------------------------------------------------------ operations at the top
struct Top {
  Ctx &c;
  World &w;
  template <class X>
  static auto with(Root &r, X x) {
    if (r.ci) return x(*r.ci);
    if (r.cv) return x(*r.cv);
    if (!r.ti.empty()) return x(r.ti[0]);
    return x(r.tv[0]);
  }
  void settle() {
    for (auto &p : w.nodes) {
      Node *n = p.get();
      if (n->at == RUN) c.fail("model: #%d still runs", n->id);
      if (n->dropping && n->toks) c.fail("#%d was dropped and %d of its arguments and locals are left", n->id, n->toks);
      if (n->at == EV && n->fired) c.fail("#%d did not go on", n->id);
      if (n->at == AW && n->unkillable) c.fail("#%d has a terminal status and was suspended again", n->id);
      if (n->at == AW && !n->ended() && n->on->returned) c.fail("#%d still waits for #%d, which has returned", n->id, n->on->id);
    }
    for (auto &r : w.roots) {
      if (!r.n) continue;
      Node *n = r.n;
      ST real = with(r, [](auto &f) { return f.get_status(); });
      if (real != n->st) c.fail("#%d has status %d, expected %d", n->id, static_cast<int>(real), static_cast<int>(n->st));
      if (r.ci && r.ci->is_ready() != n->returned) c.fail("#%d: is_ready() is wrong", n->id);
      if (r.cv && r.cv->is_ready() != n->returned) c.fail("#%d: is_ready() is wrong", n->id);
      auto look = [&](auto &t) {
        if (t.is_completed() != (n->returned)) c.fail("#%d: is_completed() is wrong", n->id);
        if (t.is_exiting() != n->ended()) c.fail("#%d: is_exiting() is wrong", n->id);
        if (t.get_ref_future_count() != static_cast<size_t>(n->handles))
          c.fail("#%d has %zu handles, expected %d", n->id, t.get_ref_future_count(), n->handles);
      };
      if (!r.ti.empty()) {
        look(r.ti[0]);
        if (n->returned && (!r.ti[0].get_context()->data() || *r.ti[0].get_context()->data() != n->ret))
          c.fail("#%d: the stored result is wrong", n->id);
      }
      if (!r.tv.empty()) look(r.tv[0]);
    }
  }
  void make(Root &r) {
    bool task = c.draw(10) >= 10 - EV_TASK;
    Node *n = make_node(draw_script(c, 0), task);
    c.log("make #%d: %s%s", n->id, task ? "task" : "callable", n->nil ? " without value" : "");
    if (task) {
      if (n->nil) r.tv.push_back(body<Task<void>>(n, Tok(n)));
      else r.ti.push_back(body<Task<int>>(n, Tok(n)));
    } else if (n->nil) {
      r.cv.emplace(body<Call<void>>(n, Tok(n)));
    } else {
      r.ci.emplace(body<Call<int>>(n, Tok(n)));
    }
    r.n = n;
  }
  void drop(Root &r, size_t i) {
    Node *n = r.n;
    bool last = n->handles == 1;
    c.log("drop %s handle of #%d (step %zu)", last ? "the last" : "a", n->id, n->pc);
    size_t held = r.ti.size() + r.tv.size();
    if (!n->task || held == 1) r.n = nullptr;
    Ending e;
    if (last) pre_drop(n);
    --n->handles;
    if (r.ci) {
      auto f = std::move(*r.ci);
      r.ci.reset();
    } else if (r.cv) {
      auto f = std::move(*r.cv);
      r.cv.reset();
    } else if (!r.ti.empty()) {
      auto f = r.ti[i % r.ti.size()];
      r.ti.erase(r.ti.begin() + static_cast<long>(i % r.ti.size()));
    } else {
      auto f = r.tv[i % r.tv.size()];
      r.tv.erase(r.tv.begin() + static_cast<long>(i % r.tv.size()));
    }
    if (last) post_drop(n);
  }
  bool may_drop(Node *n) { return n->handles > 1 || !pinned(n); }
  void run() {
    pbt::Loop loop(c, 16, 60);
    while (loop.next()) {
      Root &r = w.roots[c.draw(w.roots.size())];
      size_t op = c.weighted({6, 4, 3, 2, EV_TASK ? 1u : 0u, EV_TASK ? 4u : 0u});
      if (op != 1 && !r.n) {
        if (w.nodes.size() < 30) make(r);
        settle();
        continue;
      }
      Node *n = r.n;
      switch (op) {
        case 1:
          if (!w.events.empty()) fire(w.events[c.draw(w.events.size())]);
          break;
        case 2: {
          static const ST sts[] = {ST::kKilled, ST::kCancle, ST::kTimeout};
          ST st = sts[c.draw(3)];
          bool force = c.chance(1, 3);
          bool want = !n->ended();
          bool moves = want && (n->at == AW || (force && n->at != END));
          c.log("kill #%d with %d%s (%s)", n->id, static_cast<int>(st), force ? " by force" : "", want ? "accepted" : "refused");
          long before = n->moves;
          if (want) {
            ++w.n_killed;
            if (moves) {
              ++w.n_forced;
              n->forced = true;
            }
            n->st = st;
            if (n->at == AW) pass_on(n);
          }
          ++w.ending;
          bool got = with(r, [&](auto &f) { return f.kill(st, force); });
          --w.ending;
          if (got != want) c.fail("killing #%d %s", n->id, want ? "was refused" : "was accepted");
          if (moves && n->moves == before) c.fail("#%d was killed and did not go on", n->id);
          if (!moves && n->moves != before)
            c.fail("#%d, which waits for an event, was resumed by a kill that was not a forced one", n->id);
          break;
        }
        case 3:
          if (may_drop(n)) drop(r, c.draw(3));
          break;
        case 4:
          if (n->task && n->handles < 4) {
            ++n->handles;
            if (!r.ti.empty()) r.ti.push_back(Task<int>(r.ti[0]));
            else r.tv.push_back(Task<void>(r.tv[0]));
          }
          break;
        case 5: {
          if (!n->task) break;
          bool want = n->st == ST::kCreated;
          c.log("start #%d (%s)", n->id, want ? "accepted" : "refused");
          if (want) n->st = ST::kRunning;
          bool got = r.ti.empty() ? r.tv[0].start() : r.ti[0].start();
          if (got != want) c.fail("starting #%d %s", n->id, want ? "was refused" : "was accepted");
          if (want && n->at == IDLE) c.fail("#%d was started and did not run", n->id);
          break;
        }
        default: {
          // another handle, or a new coroutine that is likely to wait for this one
          if (w.nodes.size() < 30 && may_drop(n)) {
            drop(r, 0);
            if (!r.n) make(r);
          }
          break;
        }
      }
      settle();
    }
    c.log("-- end of the case");
    for (int pass = 0; pass < 60; ++pass) {
      bool left = false;
      for (auto &r : w.roots) {
        if (!r.n) continue;
        left = true;
        if (may_drop(r.n)) {
          drop(r, 0);
          settle();
        }
      }
      if (!left) break;
    }
  }
};

void run_events(Ctx &c) {
  long base = pbt::live_allocs();
  {
    World w(c);
    W = &w;
    Top t{c, w};
    t.run();
    for (auto &r : w.roots)
      if (r.n) c.fail("model: #%d cannot be dropped", r.n->id);
    for (auto &n : w.nodes) {
      if (!n->returned) c.fail("#%d did not run to its end", n->id);
      if (n->toks) c.fail("%d arguments and locals of #%d are left", n->toks, n->id);
    }
    if (!w.events.empty()) c.fail("an event still knows a coroutine");
    if (w.n_killed) c.label("killed");
    if (w.n_forced) c.label("resumed by a kill");
    if (w.n_fired) c.label("event fired");
    if (w.n_nested_fire) c.label("event fired from a body");
    if (w.n_drop_wait) c.label("dropped while suspended");
    if (w.n_again) c.label("suspended again after it was ended");
    if (w.n_inherit) c.label("kill passed on");
    if (w.n_multi) c.label("several waiters");
    if (w.n_unstarted) c.label("dropped before it was started");
    if (w.n_error) c.label("error received");
    if (w.n_late) c.label("awaited after the end");
    if (w.n_nested && w.n_value && w.n_fired && (w.n_killed || w.n_drop_wait)) c.nontrivial();
    W = nullptr;
  }
  long leak = pbt::live_allocs() - base;
  if (leak) c.fail("%ld allocations were not released", leak);
}
Task<void> warm_up() { co_return; }
}  // namespace
void pbt::setup_process() { Task<void> t = warm_up(); }
void pbt::run_case(Ctx &c) { run_events(c); }

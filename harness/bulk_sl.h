// Scenarios with many stackless coroutines, deep nesting and long histories for C11, C14-C18 and C21.  The including
// file defines BULK to the number of its property.
#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <vector>

#include "bulk.h"
#include "common.h"

using pbt::cur;

namespace {
using ST = copp::promise_status;
using Gen = copp::generator_future<int>;
using Call = copp::callable_future<int>;
using CallV = copp::callable_future<void>;
using SomeF = copp::callable_future<ST>;
using Task = cotask::task_future<int, void>;
using Mgr = cotask::task_manager<Task>;
constexpr int kKilledErr = -static_cast<int>(ST::kKilled);

struct Node {
  size_t id = 0;
  int toks = 0, starts = 0, ends = 0;
  std::vector<int> got;
  size_t at = 0;  // waits so far
};
struct Tok {
  Node *n;
  explicit Tok(Node *x) : n(x) { ++n->toks; }
  Tok(const Tok &o) : n(o.n) { ++n->toks; }
  Tok &operator=(const Tok &) = delete;
  ~Tok() { --n->toks; }
};
using Nodes = std::vector<std::unique_ptr<Node>>;
Node *node(Nodes &v) {
  v.emplace_back(new Node());
  v.back()->id = v.size() - 1;
  return v.back().get();
}
void all_gone(Nodes &v) {
  for (auto &n : v) {
    CHECK_EQ(n->toks, 0, "(arguments and locals of coroutine %zu are left)", n->id);
    CHECK_EQ(n->ends, n->starts, "(coroutine %zu did not reach its end)", n->id);
  }
}
struct Run {  // in every body
  Tok t;
  explicit Run(Node *n) : t(n) { ++n->starts; }
  ~Run() { ++t.n->ends; }
};
std::vector<size_t> order_of(pbt::Ctx &c, size_t n) {
  std::vector<size_t> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = i;
  switch (c.pick(3)) {
    case 1:
      std::reverse(v.begin(), v.end());
      break;
    case 2:
      for (size_t i = n; i-- > 1;) std::swap(v[i], v[c.draw(i + 1)]);
      break;
    default:
      break;
  }
  return v;
}

// ------------------------------------------------------------------ waiting for generators (C14)
Call wait_gen(Node *n, Tok, Gen *g, size_t times) {
  Run r(n);
  int last = 0;
  for (size_t i = 0; i < times; ++i) {
    ++n->at;
    last = co_await *g;
    n->got.push_back(last);
  }
  co_return last;
}
Task wait_gen_task(Node *n, Tok, Gen g) {  // its own copy of the handle
  Run r(n);
  ++n->at;
  int v = co_await g;
  n->got.push_back(v);
  co_return v;
}
void gen_many(pbt::Ctx &c) {
  size_t n = amount(c);
  size_t ng = c.coin() ? 1 : 1 + c.draw(n);
  Nodes nodes;
  long suspends = 0, resumes = 0;
  std::vector<std::unique_ptr<Gen>> g;
  for (size_t i = 0; i < ng; ++i)
    g.emplace_back(new Gen([&suspends](Gen::context_pointer_type) { ++suspends; }, [&resumes](const Gen::context_type &) { ++resumes; }));
  struct W {
    Node *n;
    size_t g;
    std::optional<Call> call;
    std::vector<Task> task;
    bool killed = false, woken = false;
    ST st = ST::kDone;
  };
  std::vector<W> w(n);
  std::vector<long> copies(ng, 1);
  for (size_t i = 0; i < n; ++i) {
    w[i].n = node(nodes);
    w[i].g = c.draw(ng);
    if (c.chance(2, 3)) {
      w[i].call.emplace(wait_gen(w[i].n, Tok(w[i].n), g[w[i].g].get(), 1));
    } else {
      w[i].task.push_back(wait_gen_task(w[i].n, Tok(w[i].n), std::as_const(*g[w[i].g])));
      ++copies[w[i].g];
      CHECK(w[i].task[0].start());
      for (size_t k = c.draw(3); k > 0; --k) w[i].task.push_back(Task(std::as_const(w[i].task[0])));
    }
  }
  CHECK_EQ(suspends, static_cast<long>(n), "(suspend callbacks)");
  c.log("%zu waiters of %zu generators", n, ng);
  size_t den = c.chance(1, 3) ? 2 : 20, killed = 0;
  for (auto &x : w)
    if (c.chance(1, den)) {
      x.st = c.coin() ? ST::kKilled : c.coin() ? ST::kCancle : ST::kTimeout;
      CHECK(x.call ? x.call->kill(x.st) : x.task[0].kill(x.st), "(kill of waiter %zu was refused)", x.n->id);
      x.killed = true;
      ++killed;
      CHECK_EQ(x.n->got.size(), 1u, "(waiter %zu was killed and did not go on)", x.n->id);
      CHECK_EQ(x.n->got[0], -static_cast<int>(x.st), "(what waiter %zu got)", x.n->id);
    }
  // some drop their coroutine before
  size_t dropped = 0;
  for (auto &x : w)
    if (!x.killed && c.chance(1, 30)) {
      if (x.call)
        x.call.reset();
      else
        x.task.clear(), --copies[x.g];
      ++dropped;
      x.killed = x.woken = true;
      CHECK_EQ(x.n->got.size(), 1u, "(waiter %zu was dropped and did not go on)", x.n->id);
      CHECK(x.n->got[0] < 0, "(what waiter %zu got)", x.n->id);
      CHECK_EQ(x.n->toks, 0, "(waiter %zu was dropped)", x.n->id);
    }
  auto order = order_of(c, ng);
  size_t lost = 0;
  for (size_t k : order) {
    size_t before = 0;
    for (auto &x : w)
      if (!x.killed) before += x.n->got.size();
    CHECK_EQ(g[k]->get_context().use_count(), copies[k], "(references of generator %zu)", k);
    bool drop = copies[k] == 1 && c.chance(1, 8);
    int v = static_cast<int>(k) * 2 + 10;
    if (drop) {
      g[k].reset();
      ++lost;
    } else {
      g[k]->get_context()->set_value(v);
    }
    size_t woken = 0, after = 0;
    for (auto &x : w) {
      if (x.killed) continue;
      after += x.n->got.size();
      if (x.g != k) continue;
      ++woken;
      x.woken = true;
      CHECK_EQ(x.n->got.size(), 1u, "(waiter %zu of generator %zu with %zu waiters)", x.n->id, k, copies[k]);
      CHECK_EQ(x.n->got[0], drop ? kKilledErr : v, "(what waiter %zu got)", x.n->id);
    }
    CHECK_EQ(after - before, woken, "(other waiters were woken)");
    if (!drop) {
      CHECK(g[k]->is_ready() && *g[k]->get_context()->data() == v, "(the value of generator %zu)", k);
    }
  }
  CHECK_EQ(resumes, static_cast<long>(n), "(resume callbacks)");
  for (auto &x : w) {
    CHECK(x.woken || x.killed);
    CHECK_EQ(x.n->got.size(), 1u, "(waiter %zu)", x.n->id);
    if (x.call) CHECK_EQ(static_cast<int>(x.call->get_status()), static_cast<int>(x.st), "(waiter %zu)", x.n->id);
    if (!x.task.empty()) CHECK_EQ(static_cast<int>(x.task[0].get_status()), static_cast<int>(x.st), "(waiter %zu)", x.n->id);
  }
  w.clear();
  g.clear();
  all_gone(nodes);
  if (killed) c.label("killed");
  if (lost) c.label("generator dropped");
  c.label_n("waiters", n);
}
// one generator, set and reset again and again; its handle copied many times
void gen_long(pbt::Ctx &c) {
  size_t n = c.chance(1, 6) ? 65000 + c.draw(3000) : 100 + c.draw(1500);
  Nodes nodes;
  long suspends = 0, resumes = 0;
  Gen g([&suspends](Gen::context_pointer_type) { ++suspends; }, [&resumes](const Gen::context_type &) { ++resumes; });
  std::vector<Gen> copies;
  size_t nc = c.draw(n);
  for (size_t i = 0; i < nc; ++i) copies.push_back(Gen(std::as_const(g)));
  CHECK_EQ(g.get_context().use_count(), static_cast<long>(nc + 1), "(references)");
  std::vector<Call> w;
  size_t nw = 1 + c.draw(4);
  for (size_t i = 0; i < nw; ++i) {
    Node *x = node(nodes);
    w.push_back(wait_gen(x, Tok(x), &g, n));
  }
  c.log("%zu waiters that wait %zu times", nw, n);
  for (size_t i = 0; i < n; ++i) {
    for (auto &x : nodes) CHECK_EQ(x->got.size(), i, "(waits of %zu that have ended)", x->id);
    if (g.is_ready()) break;
    // the value is reset while it wakes, by nobody; so every waiter awaits a ready generator next and goes through
    g.get_context()->set_value(static_cast<int>(i));
    break;
  }
  for (auto &x : nodes) {
    CHECK_EQ(x->got.size(), n, "(waits of %zu that have ended)", x->id);
    for (int v : x->got) CHECK_EQ(v, 0);
    CHECK_EQ(x->ends, 1);
  }
  // a fresh waiter per round
  size_t rounds = std::min<size_t>(n, 2000);
  for (size_t i = 0; i < rounds; ++i) {
    g.get_context()->reset_value();
    CHECK(!g.is_ready());
    Node *x = node(nodes);
    Call w1 = wait_gen(x, Tok(x), &g, 1);
    CHECK(x->got.empty());
    g.get_context()->set_value(static_cast<int>(i) + 1);
    CHECK(x->got.size() == 1 && x->got[0] == static_cast<int>(i) + 1, "(round %zu)", i);
    CHECK(w1.is_ready());
  }
  CHECK_EQ(suspends, static_cast<long>(nw + rounds), "(calls of the suspend callback)");
  CHECK_EQ(resumes, static_cast<long>(nw + rounds), "(calls of the resume callback)");
  w.clear();
  copies.clear();
  if (c.coin()) {  // the callbacks are still there when the copies are gone
    g.get_context()->reset_value();
    Node *x = node(nodes);
    Call w1 = wait_gen(x, Tok(x), &g, 1);
    CHECK_EQ(suspends, static_cast<long>(nw + rounds + 1), "(calls of the suspend callback)");
    g.get_context()->set_value(3);
    CHECK(x->got.size() == 1 && x->got[0] == 3);
    CHECK_EQ(resumes, static_cast<long>(nw + rounds + 1), "(calls of the resume callback)");
  }
  CHECK_EQ(g.get_context().use_count(), 1);
  all_gone(nodes);
  c.label("long life");
}

// ------------------------------------------------------------------ callables (C15)
Call nest(Nodes *v, size_t i, size_t n, Gen *g, size_t waits) {
  Node *me = (*v)[i].get();
  Run r(me);
  int x = 0;
  if (i + 1 == n) {
    for (size_t k = 0; k < waits; ++k) {
      ++me->at;
      x = co_await *g;
    }
  } else {
    x = co_await nest(v, i + 1, n, g, waits);
  }
  me->got.push_back(x);
  co_return x + 1;
}
void call_nest(pbt::Ctx &c) {
  size_t n = amount(c), waits = c.draw(3);
  Nodes v;
  for (size_t i = 0; i < n; ++i) node(v);
  Gen g(nullptr);
  int end = static_cast<int>(c.weighted({4, 2, 2}));
  c.log("%zu nested callables, the innermost waits %zu times", n, waits);
  {
    std::optional<Call> top(nest(&v, 0, n, &g, waits));
    for (auto &x : v) {
      CHECK_EQ(x->starts, 1);
      CHECK_EQ(x->ends, waits ? 0 : 1, "(callable %zu)", x->id);
    }
    ST st = ST::kDone;
    if (waits && end == 0) g.get_context()->set_value(1000);
    if (waits && end == 1) {
      st = c.coin() ? ST::kKilled : c.coin() ? ST::kCancle : ST::kTimeout;
      CHECK(top->kill(st));
      CHECK_EQ(v[0]->ends, 1, "(a killed callable did not reach its end)");
      CHECK_EQ(v[n - 1]->ends <= 1, true);
    }
    if (!waits || end != 2) {
      CHECK_EQ(static_cast<int>(top->get_status()), static_cast<int>(st));
      CHECK(top->is_ready(), "(the outermost has no result)");
      if (st == ST::kDone) {
        for (size_t i = 0; i < n; ++i) {
          CHECK_EQ(v[i]->ends, 1, "(callable %zu)", i);
          CHECK_EQ(v[i]->got.size(), 1u);
          CHECK_EQ(v[i]->got[0], (waits ? 1000 : 0) + static_cast<int>(n - 1 - i), "(the result callable %zu received)", i);
        }
        CHECK_EQ(top->get_internal_promise().data(), (waits ? 1000 : 0) + static_cast<int>(n), "(the result)");
      }
    } else {
      CHECK_EQ(v[0]->ends, 0);
    }
  }
  all_gone(v);
  for (auto &x : v) CHECK_EQ(x->ends, 1);
  c.label_n("nested callables", n);
}
// a callable that awaits many others one after the other, some of them pending, some taken from a list
Call small(Node *n, Tok, Gen *g, bool wait) {
  Run r(n);
  int v = static_cast<int>(n->id);
  if (wait) v += co_await *g;
  co_return v;
}
Call collect(Node *me, Tok, std::vector<Call> *kids, std::vector<size_t> *order) {
  Run r(me);
  int sum = 0;
  for (size_t i : *order) {
    int v = co_await (*kids)[i];
    me->got.push_back(v);
    sum += v;
  }
  co_return sum;
}
Call repeat(Node *me, Tok, Nodes *v, size_t n, Gen *g) {
  Run r(me);
  int sum = 0;
  for (size_t i = 0; i < n; ++i) {
    Node *k = (*v)[i % v->size()].get();
    sum += co_await small(k, Tok(k), g, false) & 1;
  }
  co_return sum;
}
void call_fan(pbt::Ctx &c) {
  size_t n = amount(c);
  Nodes v;
  std::vector<std::unique_ptr<Gen>> g;
  size_t ng = 1 + c.draw(8);
  for (size_t i = 0; i < ng; ++i) g.emplace_back(new Gen(nullptr));
  std::vector<Call> kids;
  std::vector<size_t> on(n);
  std::vector<bool> waits(n);
  for (size_t i = 0; i < n; ++i) {
    Node *k = node(v);
    on[i] = c.draw(ng);
    waits[i] = c.chance(2, 3);
    kids.push_back(small(k, Tok(k), g[on[i]].get(), waits[i]));
  }
  auto order = order_of(c, n);
  size_t readers = 1 + c.draw(4);
  std::vector<Call> rd;
  std::vector<Node *> rn;
  for (size_t i = 0; i < readers; ++i) {
    rn.push_back(node(v));
    rd.push_back(collect(rn.back(), Tok(rn.back()), &kids, &order));
  }
  c.log("%zu readers of %zu callables over %zu generators", readers, n, ng);
  for (size_t k : order_of(c, ng)) {
    g[k]->get_context()->set_value(static_cast<int>(k) * 1000 + 1000);
  }
  int want = 0;
  for (size_t i = 0; i < n; ++i) want += static_cast<int>(i) + (waits[i] ? static_cast<int>(on[i]) * 1000 + 1000 : 0);
  for (size_t i = 0; i < readers; ++i) {
    CHECK(rd[i].is_ready(), "(reader %zu of %zu callables did not end)", i, n);
    CHECK_EQ(rn[i]->got.size(), n);
    for (size_t k = 0; k < n; ++k)
      CHECK_EQ(rn[i]->got[k], static_cast<int>(order[k]) + (waits[order[k]] ? static_cast<int>(on[order[k]]) * 1000 + 1000 : 0),
               "(result of callable %zu)", order[k]);
    CHECK_EQ(rd[i].get_internal_promise().data(), want, "(sum of reader %zu)", i);
  }
  rd.clear();
  kids.clear();
  all_gone(v);
  c.label_n("callables awaited by one", n);
}
void call_long(pbt::Ctx &c) {
  size_t n = c.chance(1, 6) ? 65000 + c.draw(3000) : 100 + c.draw(2000);
  Nodes v;
  node(v);
  node(v);
  Node me;
  Gen g(nullptr);
  {
    Call x = repeat(&me, Tok(&me), &v, n, &g);
    CHECK(x.is_ready(), "(%zu callables one after the other)", n);
    CHECK_EQ(x.get_internal_promise().data(), static_cast<int>(n / 2));
  }
  CHECK_EQ(v[0]->ends + v[1]->ends, static_cast<int>(n));
  CHECK_EQ(me.toks, 0);
  all_gone(v);
  c.label("long life");
}

// ------------------------------------------------------------------ tasks (C16)
Task work(Node *n, Tok, Gen *g, size_t waits) {
  Run r(n);
  int x = 0;
  for (size_t i = 0; i < waits; ++i) {
    ++n->at;
    x = co_await *g;
    n->got.push_back(x);
  }
  co_return static_cast<int>(n->id) + 7;
}
Call read_task(Node *n, Tok, Task t) {
  Run r(n);
  ++n->at;
  int v = co_await t;
  n->got.push_back(v);
  co_return v;
}
void task_many(pbt::Ctx &c) {
  size_t n = amount(c), nr = c.coin() ? n : c.draw(2 * n);
  Nodes v;
  Gen g(nullptr);
  struct E {
    Node *n;
    std::vector<Task> h;
    ST st = ST::kCreated;
    long refs() const { return static_cast<long>(h.size()); }
    size_t readers = 0;
    bool unkillable = false;
  };
  std::vector<E> t(n);
  for (auto &e : t) {
    e.n = node(v);
    e.h.push_back(work(e.n, Tok(e.n), &g, c.draw(3)));
    size_t k = c.chance(1, 100) ? 65000 + c.draw(2000) : c.draw(4);
    for (size_t i = 0; i < k; ++i) e.h.push_back(Task(std::as_const(e.h[c.chance(1, 2) ? 0 : i])));
    CHECK_EQ(e.n->starts, 0, "(a task ran before it was started)");
  }
  struct R {
    Node *n;
    size_t t;
    std::optional<Call> f;
  };
  std::vector<R> rd(nr);
  bool one = c.coin();
  size_t fav = c.draw(n);
  for (auto &r : rd) {
    r.n = node(v);
    r.t = one ? fav : c.draw(n);
    ++t[r.t].readers;
    r.f.emplace(read_task(r.n, Tok(r.n), std::as_const(t[r.t].h[0])));
  }
  c.log("%zu tasks, %zu coroutines that await them%s", n, nr, one ? " (all of them the same one)" : "");
  auto verify = [&](E &e) {
    CHECK_EQ(static_cast<int>(e.h[0].get_status()), static_cast<int>(e.st), "(task %zu)", e.n->id);
    CHECK_EQ(e.h[0].is_exiting(), e.st >= ST::kDone, "(task %zu)", e.n->id);
    CHECK_EQ(e.h[0].get_ref_future_count(), e.h.size() + e.readers, "(handles of task %zu)", e.n->id);
  };
  for (auto &e : t) verify(e);
  for (size_t i : order_of(c, n)) {
    E &e = t[i];
    bool first = c.chance(9, 10);
    if (first) {
      CHECK(e.h.back().start(), "(task %zu was not started)", e.n->id);
      CHECK(!e.h[0].start(), "(task %zu was started twice)", e.n->id);
      CHECK_EQ(e.n->starts, 1);
      e.st = e.n->ends ? ST::kDone : ST::kRunning;
    }
    if (e.st == ST::kRunning && c.chance(1, 6)) {
      e.st = c.coin() ? ST::kKilled : c.coin() ? ST::kCancle : ST::kTimeout;
      CHECK(e.h.back().kill(e.st), "(task %zu)", e.n->id);
      CHECK_EQ(e.n->ends, 1, "(task %zu was killed and did not reach its end)", e.n->id);
      CHECK_EQ(e.n->got.empty() ? 0 : e.n->got[0], -static_cast<int>(e.st), "(what task %zu got when it was killed)", e.n->id);
    }
    verify(e);
  }
  g.get_context()->set_value(5);
  for (auto &e : t) {
    if (e.st == ST::kRunning) e.st = ST::kDone;
    if (e.st == ST::kCreated) {
      CHECK(e.h.back().start(), "(task %zu)", e.n->id);
      e.st = ST::kDone;
    }
    CHECK_EQ(e.n->starts, 1, "(task %zu)", e.n->id);
    CHECK_EQ(e.n->ends, 1, "(task %zu)", e.n->id);
    if (e.st == ST::kDone)
      for (int x : e.n->got) CHECK_EQ(x, 5, "(task %zu)", e.n->id);
    verify(e);
    CHECK(e.h[0].is_completed());
  }
  for (auto &r : rd) {
    CHECK_EQ(r.n->got.size(), 1u, "(a coroutine that awaits task %zu of %zu readers)", r.t, t[r.t].readers);
    CHECK_EQ(r.n->got[0], static_cast<int>(r.t) + 7, "(the result of task %zu)", r.t);
    CHECK(r.f->is_ready());
  }
  if (c.coin()) {
    for (auto &r : rd) {
      r.f.reset();
      --t[r.t].readers;
    }
    for (auto &e : t) verify(e);
  }
  for (size_t i : order_of(c, n)) {
    E &e = t[i];
    while (e.h.size() > 1) e.h.pop_back();
    if (rd.empty() || !rd[0].f) {
      e.h.clear();
      CHECK_EQ(e.n->toks, 0, "(task %zu outlived its handles)", e.n->id);
    }
  }
  rd.clear();
  t.clear();
  all_gone(v);
  c.label_n("tasks", n);
}

// ------------------------------------------------------------------ continuations (C17)
void then_many(pbt::Ctx &c) {
  size_t n = amount(c), chain = c.pick(3);
  Nodes v;
  Gen g(nullptr);
  Node *r = node(v);
  std::vector<Task> t;
  size_t waits = c.draw(2);
  t.push_back(work(r, Tok(r), &g, waits));
  std::vector<size_t> from(n + 1, 0);
  std::vector<int> ran(n + 1, 0), arg(n + 1, 0);
  bool early = c.coin();
  if (early) CHECK(t[0].start());
  for (size_t i = 1; i <= n; ++i) {
    from[i] = chain == 0 ? i - 1 : chain == 1 ? 0 : c.draw(i);
    t.push_back(t[from[i]].then([&, i](Task::context_pointer_type, int x) -> int {
      ++ran[i];
      arg[i] = x;
      return x + 1;
    }, nullptr));
    CHECK_EQ(ran[i], early && !waits ? 1 : 0, "(continuation %zu)", i);
  }
  c.log("%zu continuations %s", n, chain == 0 ? "in a chain" : chain == 1 ? "of one task" : "in a tree");
  if (!early) CHECK(t[0].start());
  if (waits)
    for (size_t i = 1; i <= n; ++i) CHECK_EQ(ran[i], 0, "(a continuation ran before what it continues had ended)");
  // handles of predecessors are moved, or go away: continuations keep what they continue
  bool drop = c.coin();
  std::vector<Task> kept;
  if (drop)
    for (size_t i = 0; i + 1 <= n; ++i) kept.push_back(std::move(t[i])), t[i] = Task(nullptr);
  if (drop && chain == 0 && c.coin()) kept.clear();
  if (waits) g.get_context()->set_value(3);
  std::vector<int> depth(n + 1, 0);
  for (size_t i = 1; i <= n; ++i) {
    depth[i] = depth[from[i]] + 1;
    CHECK_EQ(ran[i], 1, "(continuation %zu)", i);
    CHECK_EQ(arg[i], 7 + depth[i] - 1, "(what continuation %zu received)", i);
  }
  if (!drop)
    for (size_t i = 1; i <= n; ++i) {
      CHECK(t[i].is_completed());
      CHECK_EQ(*t[i].get_context()->data(), 7 + depth[i], "(the result of continuation %zu)", i);
    }
  kept.clear();
  t.clear();
  all_gone(v);
  c.label_n("continuations", n);
}

// ------------------------------------------------------------------ some, any, all (C18)
template <class F>
void some_of(pbt::Ctx &c, std::vector<F> &f, Nodes &v, const std::function<bool(size_t)> &end, const std::function<bool(size_t)> &ended) {
  size_t n = f.size();
  struct S {
    typename copp::some_ready<F>::type ready;
    std::vector<std::reference_wrapper<F>> refs;
    std::vector<copp::gsl::not_null<F *>> ptrs;
    std::vector<size_t> who;
    size_t bound = 0;
    std::optional<SomeF> fut;
    bool done = false, killed = false;
  };
  std::vector<std::unique_ptr<S>> s;
  auto begin = [](S &x, unsigned style, auto &&l) {
    if (style == 0) x.fut.emplace(copp::any(x.ready, l));
    else if (style == 1) x.fut.emplace(copp::all(x.ready, l));
    else x.fut.emplace(copp::some(x.ready, x.bound, l));
  };
  size_t ns = 1 + c.draw(4);
  auto count = [&](S &x) {
    size_t k = 0;
    for (size_t i : x.who) k += ended(i);
    return k;
  };
  auto check = [&](S &x) {
    bool want = count(x) >= x.bound;
    CHECK_EQ(x.fut->is_ready(), x.killed || want, "(%zu of %zu members have ended, %zu are asked for)", count(x), x.who.size(), x.bound);
    if (!x.killed && want && !x.done) {
      x.done = true;
      CHECK(x.ready.size() >= x.bound, "(%zu members reported, %zu were asked for)", x.ready.size(), x.bound);
      CHECK(x.ready.size() <= x.who.size(), "(%zu of %zu members reported)", x.ready.size(), x.who.size());
      std::vector<F *> seen;
      for (auto &p : x.ready) {
        F *q = p.get();
        size_t at = static_cast<size_t>(q - f.data());
        CHECK(at < n && ended(at), "(a member is reported that has not ended)");
        CHECK(std::find(x.who.begin(), x.who.end(), at) != x.who.end(), "(something is reported that is not a member)");
        seen.push_back(q);
      }
      std::sort(seen.begin(), seen.end());
      CHECK(std::adjacent_find(seen.begin(), seen.end()) == seen.end(), "(a member is reported twice)");
    }
  };
  for (size_t i = 0; i < ns; ++i) {
    s.emplace_back(new S);
    S &x = *s.back();
    auto order = order_of(c, n);
    size_t m = c.coin() ? n : 1 + c.draw(n);
    // given as references, as pointers, as the objects themselves
    unsigned given = static_cast<unsigned>(c.pick(4));
    size_t from = c.draw(n - m + 1);
    for (size_t k = 0; k < m; ++k) {
      size_t at = given < 2 ? order[k] : from + k;
      x.who.push_back(at);
      x.refs.push_back(std::ref(f[at]));
      x.ptrs.push_back(copp::gsl::make_not_null(&f[at]));
    }
    // what an earlier call left in the output does not matter
    for (size_t k = c.coin() ? 0 : c.draw(8); k > 0; --k) x.ready.push_back(copp::gsl::make_not_null(&f[c.draw(n)]));
    unsigned style = static_cast<unsigned>(c.pick(4));
    x.bound = style == 0 ? 1 : style == 1 ? m : c.draw(m + 1);
    if (given == 0) begin(x, style, x.refs);
    else if (given == 1) begin(x, style, x.ptrs);
    else if (m == n) begin(x, style, f);
    else if (given == 2) begin(x, style, copp::gsl::make_span(f.data() + from, m));
    else {
      auto part = copp::gsl::make_span(f.data() + from, m);
      begin(x, style, part);
    }
    c.log("some(%zu of %zu)", x.bound, m);
    check(x);
  }
  for (size_t i : order_of(c, n)) {
    if (c.chance(1, 40)) {
      S &x = *s[c.draw(ns)];
      if (!x.done && !x.killed) {
        CHECK(x.fut->kill());
        x.killed = true;
        check(x);
      }
    }
    if (!ended(i)) CHECK(end(i));
    for (auto &x : s) check(*x);
    if (c.chance(1, 64)) break;
  }
  if (c.coin()) std::reverse(s.begin(), s.end());
  s.clear();
  (void)v;
}
void some_many(pbt::Ctx &c) {
  size_t n = amount(c);
  Nodes v;
  std::vector<std::unique_ptr<Gen>> g;
  switch (c.pick(3)) {
    case 0: {
      std::vector<Gen> f;
      for (size_t i = 0; i < n; ++i) f.emplace_back(nullptr);
      some_of<Gen>(c, f, v, [&](size_t i) { f[i].get_context()->set_value(1); return true; }, [&](size_t i) { return f[i].is_ready(); });
      break;
    }
    case 1: {
      std::vector<Call> f;
      for (size_t i = 0; i < n; ++i) {
        g.emplace_back(new Gen(nullptr));
        Node *k = node(v);
        f.push_back(wait_gen(k, Tok(k), g.back().get(), 1));
      }
      some_of<Call>(c, f, v, [&](size_t i) {
        if (c.chance(1, 8)) return f[i].kill();
        g[i]->get_context()->set_value(1);
        return true;
      }, [&](size_t i) { return v[i]->ends == 1; });
      break;
    }
    default: {
      std::vector<Task> f;
      for (size_t i = 0; i < n; ++i) {
        g.emplace_back(new Gen(nullptr));
        Node *k = node(v);
        f.push_back(work(k, Tok(k), g.back().get(), 1));
        if (c.chance(7, 8)) f.back().start();
      }
      some_of<Task>(c, f, v, [&](size_t i) {
        if (v[i]->starts == 0) f[i].start();
        if (c.chance(1, 8)) return f[i].kill();
        g[i]->get_context()->set_value(1);
        return true;
      }, [&](size_t i) { return v[i]->ends == 1; });
      break;
    }
  }
  g.clear();
  all_gone(v);
  c.label_n("members", n);
}

// ------------------------------------------------------------------ managers (C11)
void mgr_many(pbt::Ctx &c) {
  size_t n = amount(c), members = 0, expired = 0;
  Nodes v;
  Gen g(nullptr);
  std::unique_ptr<Mgr> m(new Mgr());
  struct E {
    Node *n;
    std::optional<Task> h;
    uint64_t id = 0;
    bool in = false;
    int64_t deadline = -1;
    ST st = ST::kCreated;
  };
  std::vector<E> t(n);
  auto sec = [](int64_t x) { return static_cast<time_t>(x / 1000000000); };
  auto nsec = [](int64_t x) { return static_cast<int>(x % 1000000000); };
  int64_t now = 1000000000000, step = c.coin() ? 1 : 700000001;
  bool ticked = c.coin();
  if (ticked) m->tick(sec(now), nsec(now));
  size_t spread = 1 + c.draw(2 * n);
  for (auto &e : t) {
    e.n = node(v);
    e.h.emplace(work(e.n, Tok(e.n), &g, c.draw(3)));
    e.id = e.h->get_id();
    int64_t d = c.coin() ? 0 : step * static_cast<int64_t>(1 + c.draw(spread));
    CHECK_EQ(d ? m->add_task(*e.h, sec(d), nsec(d)) : m->add_task(*e.h), 0, "(adding task %zu)", e.n->id);
    e.in = true;
    ++members;
    if (d) e.deadline = d + (ticked ? now : 0);
  }
  c.log("%zu stackless tasks in a manager", n);
  auto verify = [&](bool all) {
    CHECK_EQ(m->get_task_size(), members, "(size of the manager)");
    size_t timed = 0;
    for (auto &e : t) {
      timed += e.in && e.deadline >= 0;
      if (!all) continue;
      const Task *f = m->find_task(e.id);
      CHECK_EQ(f != nullptr, e.in, "(task %zu)", e.n->id);
      if (f) {
        CHECK_EQ(f->get_id(), e.id);
        CHECK_EQ(static_cast<int>(f->get_status()), static_cast<int>(e.st), "(task %zu)", e.n->id);
      }
      if (e.h) CHECK_EQ(e.h->get_ref_future_count(), 1u + e.in, "(handles of task %zu)", e.n->id);
    }
    CHECK_EQ(m->get_tick_checkpoint_size(), timed, "(timers)");
  };
  auto leave = [&](E &e, ST st) {
    e.in = false;
    e.deadline = -1;
    e.st = st;
    --members;
    if (e.n->starts) CHECK_EQ(e.n->ends, 1, "(task %zu did not reach its end)", e.n->id);
    if (e.h) CHECK_EQ(static_cast<int>(e.h->get_status()), static_cast<int>(st), "(task %zu)", e.n->id);
  };
  for (auto &e : t)
    if (c.chance(1, 4)) e.h.reset();
  verify(true);
  for (size_t k = 0; k < 3 * n; ++k) {
    E &e = t[c.draw(n)];
    size_t what = c.weighted({10, 2, 2, 2, 5});
    if (what < 4 && !e.in) {
      CHECK(m->start(e.id) < 0 && m->kill(e.id) < 0, "(task %zu is not there)", e.n->id);
      continue;
    }
    if (what == 0) {
      if (e.st != ST::kCreated) continue;
      CHECK_EQ(m->start(e.id), 0, "(task %zu)", e.n->id);
      CHECK_EQ(e.n->starts, 1, "(task %zu)", e.n->id);
      if (e.n->ends)
        leave(e, ST::kDone);
      else
        e.st = ST::kRunning;
    } else if (what == 1 || what == 2) {
      if (e.st != ST::kRunning) continue;
      ST st = what == 1 ? ST::kKilled : ST::kCancle;
      CHECK_EQ(what == 1 ? m->kill(e.id) : m->cancel(e.id), 0);
      leave(e, st);
    } else if (what == 3) {
      if (e.st != ST::kRunning) continue;
      CHECK_EQ(m->remove_task(e.id), 0);
      leave(e, ST::kKilled);
    } else {
      int64_t to = now + 1 + step * static_cast<int64_t>(c.draw(spread / 4 + 2));
      std::vector<E *> due;
      for (auto &x : t) {
        if (!x.in || x.deadline < 0) continue;
        if (!ticked)
          x.deadline += to;
        else if (x.deadline < to)
          due.push_back(&x);
      }
      CHECK_EQ(m->tick(sec(to), nsec(to)), 0);
      ticked = true;
      now = to;
      for (E *x : due) {
        ++expired;
        leave(*x, ST::kTimeout);
      }
    }
    verify(k % 16 == 0);
  }
  if (c.coin()) {
    g.get_context()->set_value(1);  // everything that runs ends and leaves
    for (auto &e : t)
      if (e.in && e.st == ST::kRunning) leave(e, ST::kDone);
    verify(true);
  }
  if (c.coin())
    m->reset();
  else
    m.reset();
  for (auto &e : t) {
    if (e.n->starts) CHECK_EQ(e.n->ends, 1, "(task %zu survived its manager)", e.n->id);
    if (e.h && e.in) CHECK(e.h->is_exiting(), "(task %zu survived its manager)", e.n->id);
  }
  m.reset();
  t.clear();
  all_gone(v);
  if (expired) c.label("expired");
  c.label_n("members", n);
}

// ------------------------------------------------------------------ both kinds (C21)
struct Macro {
  using stack_allocator_type = TrackAlloc;
  using coroutine_type = copp::coroutine_context_container<TrackAlloc>;
  using value_type = int;
};
using sf_task = cotask::task<Macro>;
Call wait_sf(Node *n, Tok, sf_task *t, sf_task::ptr_type own) {
  Run r(n);
  ++n->at;
  int x = own ? co_await own : co_await *t;
  n->got.push_back(x);
  co_return x;
}
void bridge_many(pbt::Ctx &c) {
  size_t n = amount(c), nt = c.coin() ? 1 : 1 + c.draw(std::min<size_t>(n, 60));
  Nodes v;
  static TrackAlloc al;
  std::vector<sf_task::ptr_type> t(nt);
  std::vector<size_t> order;
  std::vector<int> runs(nt, 0);
  for (size_t i = 0; i < nt; ++i) {
    size_t y = c.draw(3);
    t[i] = sf_task::create([&, i, y](void *) -> int {
      ++runs[i];
      for (size_t k = 0; k < y && !sf_task::this_task()->is_exiting(); ++k) copp::this_coroutine::yield();
      return static_cast<int>(i) + 100;
    }, al, 64 * 1024);
    CHECK(t[i], "(creation failed)");
  }
  struct W {
    Node *n;
    size_t t;
    std::optional<Call> f;
    bool killed = false;
  };
  std::vector<W> w(n);
  for (auto &x : w) {
    x.n = node(v);
    x.t = c.draw(nt);
    bool own = c.coin();
    x.f.emplace(wait_sf(x.n, Tok(x.n), t[x.t].get(), own ? t[x.t] : sf_task::ptr_type()));
    CHECK(x.n->got.empty(), "(a waiter went on before the task ended)");
  }
  c.log("%zu stackless waiters of %zu stackful tasks", n, nt);
  for (auto &x : w)
    if (c.chance(1, 20)) {
      bool kill = c.coin();
      if (kill)
        CHECK(x.f->kill());
      else
        x.f.reset();
      x.killed = true;
      CHECK_EQ(x.n->ends, 1, "(waiter %zu did not reach its end)", x.n->id);
    }
  std::vector<bool> ended(nt, false), killed(nt, false);
  for (size_t i : order_of(c, nt)) {
    switch (c.weighted({5, 1, 1})) {
      case 1:
        if (c.coin()) CHECK_EQ(t[i]->start(), 0);
        if (!t[i]->is_exiting()) {
          CHECK_EQ(t[i]->kill(), 0);
          killed[i] = true;
        }
        break;
      case 2:
        if (c.coin()) CHECK_EQ(t[i]->start(), 0);
        if (!t[i]->is_exiting()) {
          CHECK_EQ(t[i]->cancel(), 0);
          killed[i] = true;
        }
        break;
      default:
        CHECK_EQ(t[i]->start(), 0);
        while (!t[i]->is_exiting()) {
          for (auto &x : w)
            if (!x.killed && x.t == i) CHECK(x.n->got.empty(), "(a waiter went on before the task ended)");
          CHECK_EQ(t[i]->resume(), 0);
        }
        break;
    }
    ended[i] = true;
    CHECK_EQ(runs[i], 1);
    for (auto &x : w) {
      if (x.killed) continue;
      CHECK_EQ(x.n->got.size(), ended[x.t] ? 1u : 0u, "(waiter %zu of task %zu)", x.n->id, x.t);
      int want = killed[x.t] ? copp::COPP_EC_TASK_IS_EXITING : static_cast<int>(x.t) + 100;
      if (ended[x.t]) CHECK_EQ(x.n->got[0], want, "(what waiter %zu got)", x.n->id);
    }
  }
  if (c.coin()) t.clear();
  w.clear();
  t.clear();
  all_gone(v);
  CHECK_EQ(track().live.size(), 0u, "(stacks left)");
  c.label_n("waiters", n);
}

// ------------------------------------------------------------------ handles that live in what other handles own
// A handle is assigned from one that is owned by what it gives up, or is assigned again by the coroutine it gives up.
struct TaskBox;
struct TaskData {
  std::unique_ptr<TaskBox> next;
};
using TaskL = cotask::task_future<int, TaskData>;
struct TaskBox {
  TaskL t;
};
struct Retry {
  int left = 0;          // how often the coroutine that ends assigns the variable again
  bool armed = false;
};
TaskL listed_task(Node *n, Tok, Gen *g, TaskL *var, Retry *retry, Nodes *v) {
  Run r(n);
  ++n->at;
  int x = co_await *g;
  n->got.push_back(x);
  if (x < 0 && retry->armed && retry->left > 0) {
    --retry->left;
    Node *again = node(*v);
    TaskL t = listed_task(again, Tok(again), g, var, retry, v);
    t.start();
    *var = std::move(t);
  }
  co_return static_cast<int>(n->id);
}
void task_list(pbt::Ctx &c) {
  size_t n = 2 + c.draw(20);
  Nodes v;
  Gen g(nullptr);
  Retry retry;
  TaskL var;
  std::vector<TaskL> of;
  for (size_t i = 0; i < n; ++i) {
    Node *x = node(v);
    of.push_back(listed_task(x, Tok(x), &g, &var, &retry, &v));
    if (c.chance(2, 3)) CHECK(of[i].start());
  }
  std::vector<uint64_t> id;
  for (auto &t : of) id.push_back(t.get_context()->get_id());
  for (size_t i = 0; i + 1 < n; ++i) of[i].get_private_data()->next.reset(new TaskBox{of[i + 1]});
  std::vector<bool> kept(n);
  for (size_t i = 0; i < n; ++i) {
    kept[i] = i && c.chance(1, 5);
    if (!kept[i]) {
      if (i == 0) var = std::as_const(of[0]);
      of[i].reset();
    }
  }
  c.log("%zu tasks, each of which owns the next one", n);
  size_t at = 0;
  std::vector<bool> there(n);       // left, but a handle remains
  bool by_box = false;              // the task before the current one remains, and its box refers to the current one
  while (at + 1 < n) {
    bool moving = c.coin();
    TaskData *d = var.get_private_data();
    if (!d->next || !d->next->t.get_context()) break;
    c.log("from %zu to the next by %s", at, moving ? "move" : "copy");
    if (moving)
      var = std::move(d->next->t);
    else
      var = std::as_const(d->next->t);
    there[at] = kept[at] || by_box;
    if (!there[at]) {
      CHECK_EQ(v[at]->toks, 0, "(task %zu is left)", at);
      CHECK_EQ(v[at]->ends, v[at]->starts, "(task %zu)", at);
    } else {
      CHECK(v[at]->toks > 0, "(task %zu ended although there is a handle)", at);
      CHECK_EQ(v[at]->ends, 0, "(task %zu ended although there is a handle)", at);
    }
    by_box = there[at] && !moving;
    ++at;
    CHECK(var.get_context() != nullptr, "(task %zu was lost)", at);
    CHECK_EQ(var.get_context()->get_id(), id[at], "(the task that the handle refers to)");
    CHECK(!var.is_exiting(), "(task %zu ended although there is a handle)", at);
    CHECK_EQ(v[at]->ends, 0, "(task %zu ended although there is a handle)", at);
  }
  // the coroutine that is given up assigns the variable again
  if (c.coin()) {
    retry.left = 1 + static_cast<int>(c.draw(3));
    retry.armed = true;
    Node *x = node(v);
    TaskL other = listed_task(x, Tok(x), &g, &var, &retry, &v);
    other.start();
    c.log("the variable is assigned while the task that it held assigns it");
    if (c.coin())
      var = std::move(other);
    else
      var = std::as_const(other);
    retry.armed = false;
    other.reset();
    CHECK_EQ(var.get_ref_future_count(), 1u, "(handles of the task in the variable)");
  }
  if (c.coin()) g.get_context()->set_value(9);
  retry.armed = false;
  var.reset();
  of.clear();
  all_gone(v);
  c.label("handles in private data");
  g_amount = 10;
}
struct GenBox;
struct GenVal {
  int n = 0;
  std::unique_ptr<GenBox> next;
};
struct GenRef : std::shared_ptr<GenVal> {
  GenRef(std::shared_ptr<GenVal> p) : std::shared_ptr<GenVal>(std::move(p)) {}
  GenRef(ST) {}
};
using GenL = copp::generator_future<GenRef>;
struct GenBox {
  GenL g;
};
Call wait_list(Node *n, Tok, GenL *g) {
  Run r(n);
  ++n->at;
  auto p = co_await *g;
  n->got.push_back(p ? p->n : -1);
  co_return 0;
}
void gen_list(pbt::Ctx &c) {
  size_t n = 2 + c.draw(20);
  std::vector<long> sus(n), res(n);
  std::vector<std::weak_ptr<GenL::context_type>> ctx(n);
  Nodes v;
  auto make = [&](size_t i) {
    return GenL([&sus, i](GenL::context_pointer_type) { ++sus[i]; }, [&res, i](const GenL::context_type &) { ++res[i]; });
  };
  std::optional<GenL> var(make(0));
  GenL *tail = &*var;
  ctx[0] = tail->get_context();
  for (size_t i = 1; i < n; ++i) {
    auto val = std::make_shared<GenVal>();
    val->n = static_cast<int>(i) - 1;
    val->next.reset(new GenBox{make(i)});
    GenL *t = &val->next->g;
    ctx[i] = t->get_context();
    tail->get_context()->set_value(GenRef(std::move(val)));
    tail = t;
  }
  c.log("%zu generators, each of which owns the next one", n);
  for (size_t at = 0; at + 1 < n; ++at) {
    CHECK(var->is_ready());
    bool moving = c.coin();
    GenL &next = (*var->get_context()->data())->next->g;
    c.log("from %zu to the next by %s", at, moving ? "move" : "copy");
    if (moving)
      *var = std::move(next);
    else
      *var = std::as_const(next);
    CHECK(ctx[at].expired(), "(generator %zu is left)", at);
    CHECK(var->get_context() && var->get_context() == ctx[at + 1].lock(), "(the generator that the handle refers to)");
  }
  size_t nw = c.draw(4);
  std::vector<Call> w;
  for (size_t i = 0; i < nw; ++i) {
    Node *x = node(v);
    w.push_back(wait_list(x, Tok(x), &*var));
  }
  bool drop = c.chance(1, 3);
  auto last = std::make_shared<GenVal>();
  last->n = 77;
  if (drop)
    var.reset();
  else
    var->get_context()->set_value(GenRef(last));
  for (size_t i = 0; i < n; ++i) {
    CHECK_EQ(sus[i], i + 1 == n ? static_cast<long>(nw) : 0, "(calls of the suspend callback of generator %zu)", i);
    CHECK_EQ(res[i], i + 1 == n ? static_cast<long>(nw) : 0, "(calls of the resume callback of generator %zu)", i);
  }
  for (auto &x : v) {
    CHECK_EQ(x->got.size(), 1u, "(waiter %zu)", x->id);
    if (!drop) CHECK_EQ(x->got[0], 77, "(waiter %zu)", x->id);
  }
  w.clear();
  var.reset();
  CHECK(ctx[n - 1].expired(), "(the last generator is left)");
  all_gone(v);
  c.label("handles in values");
  g_amount = 10;
}
Call listed_call(Node *n, Tok, Gen *g, std::optional<Call> next, std::optional<Call> **where, Call **var, Retry *retry, Nodes *v,
                 size_t depth) {
  Run r(n);
  if (where) where[depth] = &next;
  ++n->at;
  int x = co_await *g;
  n->got.push_back(x);
  if (x < 0 && retry->armed && retry->left > 0 && *var) {
    --retry->left;
    Node *again = node(*v);
    **var = listed_call(again, Tok(again), g, std::nullopt, nullptr, var, retry, v, 0);
  }
  co_return static_cast<int>(n->id);
}
void call_list(pbt::Ctx &c) {
  size_t n = 2 + c.draw(20);
  Nodes v;
  Gen g(nullptr);
  Retry retry;
  Call *pvar = nullptr;
  std::vector<std::optional<Call> *> where(n);
  std::optional<Call> cur_call;
  for (size_t i = n; i-- > 0;) {  // v[k] is the callable at place n - 1 - k
    Node *x = node(v);
    std::optional<Call> own(std::move(cur_call));
    cur_call.reset();
    cur_call.emplace(listed_call(x, Tok(x), &g, std::move(own), where.data(), &pvar, &retry, &v, i));
  }
  Call var(std::move(*cur_call));
  cur_call.reset();
  pvar = &var;
  c.log("%zu callables, each of which owns the next one", n);
  for (size_t at = 0; at + 1 < n; ++at) {
    Node *me = v[n - 1 - at].get(), *nx = v[n - 2 - at].get();
    var = std::move(**where[at]);
    CHECK_EQ(me->toks, 0, "(callable %zu is left)", at);
    CHECK_EQ(me->ends, 1, "(callable %zu did not reach its end)", at);
    CHECK_EQ(me->got.size(), 1u);
    CHECK_EQ(me->got[0], kKilledErr, "(callable %zu)", at);
    CHECK_EQ(nx->ends, 0, "(callable %zu ended although there is a handle)", at + 1);
    CHECK(!var.is_ready());
    if (c.chance(1, 8)) break;
  }
  if (c.coin()) {
    retry.left = 1 + static_cast<int>(c.draw(3));
    retry.armed = true;
    Node *x = node(v);
    Call other = listed_call(x, Tok(x), &g, std::nullopt, nullptr, &pvar, &retry, &v, 0);
    c.log("the variable is assigned while the callable that it held assigns it");
    var = std::move(other);
    retry.armed = false;
  }
  if (c.coin()) g.get_context()->set_value(9);
  retry.armed = false;
  pvar = nullptr;
  { Call last(std::move(var)); }
  all_gone(v);
  c.label("handles in frames");
  g_amount = 10;
}
}  // namespace

void pbt::setup_process() {}
void pbt::run_case(Ctx &c) {
  track().reset();
  g_amount = 0;
#if BULK == 14
  switch (c.weighted({6, 1, 1})) {
    case 0: gen_many(c); break;
    case 1: gen_list(c); break;
    default: gen_long(c); break;
  }
#elif BULK == 15
  switch (c.weighted({4, 4, 2, 1})) {
    case 0: call_nest(c); break;
    case 1: call_fan(c); break;
    case 2: call_list(c); break;
    default: call_long(c); break;
  }
#elif BULK == 16
  if (c.chance(1, 5))
    task_list(c);
  else
    task_many(c);
#elif BULK == 17
  then_many(c);
#elif BULK == 18
  some_many(c);
#elif BULK == 11
  mgr_many(c);
#elif BULK == 21
  bridge_many(c);
#endif
  if (g_amount >= 10) c.nontrivial();
}

// C17: continuations attached with then() to stackless tasks, and what a task sees of itself.
//
// Roots are tasks whose bodies await a list of generators; continuations are attached to any task, in every state, with
// every kind of thenable (returning a value, nothing, a callable, a task; move-only; with and without private data).  The
// bodies do nothing else, so the model can work out the whole consequence of an operation before it is carried out: the
// events (starts, calls of the thenable with the value it gets, ends, wake-ups of readers) each coroutine must show.
#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>

#include <deque>
#include <functional>
#include <memory>
#include <bitset>
#include <string>
#include <utility>
#include <vector>

#include "pbt.h"

using pbt::cur;

namespace {
using ST = copp::promise_status;
enum VT { INT, VAL, NIL };
constexpr int kMoved = -1000;
enum Ev { START, INVOKED, RETURNED, GOT };

struct Val {
  int tag;
  std::unique_ptr<int> heap;
  static long live;
  Val() : tag(0), heap(new int(0)) { ++live; }
  explicit Val(int t) : tag(t), heap(new int(t)) { ++live; }
  explicit Val(ST s) : tag(-static_cast<int>(s)), heap(new int(-static_cast<int>(s))) { ++live; }
  Val(const Val &o) : tag(o.tag), heap(o.heap ? new int(*o.heap) : nullptr) { ++live; }
  Val(Val &&o) noexcept : tag(o.tag), heap(std::move(o.heap)) {
    ++live;
    o.tag = kMoved;
  }
  Val &operator=(const Val &o) {
    tag = o.tag;
    heap.reset(o.heap ? new int(*o.heap) : nullptr);
    return *this;
  }
  Val &operator=(Val &&o) noexcept {
    if (this != &o) {
      tag = o.tag;
      heap = std::move(o.heap);
      o.tag = kMoved;
    }
    return *this;
  }
  ~Val() { --live; }
};
long Val::live = 0;

// private data that cannot be copied
struct Priv {
  int v = 77;
  std::unique_ptr<int> heap{new int(77)};
  Priv() {}
  explicit Priv(int x) : v(x), heap(new int(x)) {}
  Priv(Priv &&o) noexcept : v(o.v), heap(std::move(o.heap)) { handed.set(static_cast<size_t>(v) % 4096); }
  Priv &operator=(Priv &&o) noexcept {
    v = o.v;
    heap = std::move(o.heap);
    handed.set(static_cast<size_t>(v) % 4096);
    return *this;
  }
  static std::bitset<4096> handed;  // the ones that were moved to another place
};
std::bitset<4096> Priv::handed;

template <class T>
constexpr VT vt_of = std::is_same<T, int>::value ? INT : std::is_same<T, Val>::value ? VAL : NIL;
int tag_of(int v) { return v; }
int tag_of(const Val &v) {
  if (v.heap && *v.heap != v.tag) cur().fail("a value does not match the memory it owns");
  return v.tag;
}
int err(VT vt, ST s) {
  if (vt == INT && s <= ST::kCreated) return -1;
  return -static_cast<int>(s);
}

using Gen = copp::generator_future<int>;
template <class T>
using CallF = copp::callable_future<T>;
template <class T, class P>
using TaskF = cotask::task_future<T, P>;

struct Event {
  Ev ev;
  int a;
  bool loose;
  bool fits(const Event &o) const { return ev == o.ev && (a == o.a || (loose && o.a == kMoved)); }
};
const char *ev_name(Ev e) {
  static const char *n[] = {"start", "thenable called", "return", "result received"};
  return n[e];
}

struct Node;
struct GenObj {
  int id = 0;
  std::unique_ptr<Gen> f;
  bool ready = false;
  std::deque<Node *> waiters;
};

// DETACHED: the callable it waited for was ended on behalf of somebody further up; it goes on when it is asked or dropped
enum Where { IDLE, AT_GEN, AT_PARENT, AT_INNER, DETACHED, ENDED };
enum NK { ROOT, CONT, INNER, READER };
// what a coroutine is and what the model knows of it
struct Node {
  int id = 0;
  NK nk = ROOT;
  bool task = true;
  VT vt = INT;
  bool has_priv = false;
  int privv = 77;
  Node *parent = nullptr;  // of continuations and readers: who is awaited
  int rk = 0;              // continuation: 0 the thenable returns the result, 1 a callable, 2 a task
  Node *inner = nullptr;
  std::vector<GenObj *> gens;
  size_t pc = 0;
  Where where = IDLE;
  ST st = ST::kCreated;
  bool returned = false, destroyed = false, consumed = false, empty_parent = false;
  int tag = 0, result = 0;
  int handles = 0;
  std::deque<Node *> waiters;
  std::vector<Event> want, seen;
  int toks = 0;
  uint64_t tid = 0;
  void *ctx = nullptr;
  void *priv = nullptr;
};

struct Tok {
  Node *n;
  explicit Tok(Node *x) : n(x) { ++n->toks; }
  Tok(const Tok &o) : n(o.n) { ++n->toks; }
  Tok &operator=(const Tok &) = delete;
  ~Tok() { --n->toks; }
};

struct Held {  // the handles of one coroutine the harness keeps
  Node *n = nullptr;
  virtual ~Held() {}
  virtual size_t count() = 0;
  virtual bool kill(ST st, int how) = 0;
  virtual bool start() = 0;
  virtual void copy(size_t i) = 0;
  virtual void drop(size_t i) = 0;
  virtual void probe() = 0;
  virtual std::unique_ptr<Held> attach(Node *c, VT rvt, int form, bool from_empty) = 0;
  virtual std::unique_ptr<Held> reader(Node *r) = 0;
};

struct World;
World *W = nullptr;
struct World {
  pbt::Ctx &c;
  std::vector<std::unique_ptr<GenObj>> gens;
  std::deque<std::unique_ptr<Node>> nodes;
  std::vector<std::unique_ptr<Held>> held;
  int next_tag = 1;
  int n_then = 0, n_late = 0, n_err = 0, n_chain = 0, n_inner_wait = 0, n_multi = 0, n_unstarted = 0, n_killed = 0, n_cascade = 0,
      n_empty = 0, n_inner_killed = 0, n_read = 0;
  explicit World(pbt::Ctx &cc) : c(cc) {}

  Node *node(NK k, bool task, VT vt) {
    nodes.emplace_back(new Node);
    Node *n = nodes.back().get();
    n->id = static_cast<int>(nodes.size());
    n->nk = k;
    n->task = task;
    n->vt = vt;
    n->tag = next_tag++;
    return n;
  }
  void event(Node *n, Ev e, int a) {
    c.log("    #%d: %s %d", n->id, ev_name(e), a);
    n->seen.push_back(Event{e, a, false});
    if (n->seen.size() > n->want.size()) c.fail("#%d: unexpected: %s %d", n->id, ev_name(e), a);
    const Event &w = n->want[n->seen.size() - 1];
    if (!w.fits(n->seen.back())) c.fail("#%d: %s %d, expected %s %d", n->id, ev_name(e), a, ev_name(w.ev), w.a);
  }
  void expect(Node *n, Ev e, int a, bool loose = false) { n->want.push_back(Event{e, a, loose}); }

  // ---- the model: what follows from an operation
  void m_body(Node *n) {  // goes on from pc
    n->where = IDLE;
    while (n->pc < n->gens.size()) {
      GenObj *g = n->gens[n->pc++];
      if (g->ready || n->st >= ST::kDone) continue;
      n->where = AT_GEN;
      g->waiters.push_back(n);
      return;
    }
    expect(n, RETURNED, 0);
    m_end(n, n->tag);
  }
  void m_start(Node *n) {
    if (n->st == ST::kCreated) n->st = ST::kRunning;
    expect(n, START, static_cast<int>(n->st));
    m_body(n);
  }
  int m_take(Node *p, bool multi, bool &loose) {  // what a consumer of p's result receives
    loose = p->vt == VAL && p->consumed;
    if (!multi) p->consumed = true;
    return p->result;
  }
  void m_end(Node *n, int result) {
    n->returned = true;
    n->result = result;
    n->where = ENDED;
    if (n->st < ST::kDone) n->st = ST::kDone;
    std::deque<Node *> ws;
    ws.swap(n->waiters);
    if (ws.size() > 1) ++n_multi;
    for (Node *w : ws) {
      if (w->where == AT_INNER) {
        m_inner_done(w, result);
        continue;
      }
      bool loose;
      int got = m_take(n, ws.size() > 1, loose);
      if (ws.size() > 1) n->consumed = true;
      m_got(w, got, ws.size() > 1 ? false : loose);
    }
  }
  // a continuation or reader receives the outcome of the one it waited for
  void m_got(Node *w, int got, bool loose) {
    w->where = IDLE;
    if (w->nk == READER) {
      expect(w, GOT, w->parent->vt == NIL ? 0 : got, loose);
      m_end(w, 0);
      return;
    }
    if (got < 0) ++n_err;
    expect(w, INVOKED, w->empty_parent || w->parent->vt != NIL ? got : 0, loose);
    if (w->rk == 0) {
      m_end(w, w->tag);
      return;
    }
    Node *i = w->inner;
    m_start(i);
    if (i->returned) {
      m_inner_done(w, i->result);
      return;
    }
    if (w->st >= ST::kDone) {  // it cannot wait any more
      ++n_inner_killed;
      m_inner_killed(w, ST::kKilled);
      return;
    }
    ++n_inner_wait;
    w->where = AT_INNER;
    i->waiters.push_back(w);
  }
  void m_inner_done(Node *w, int r) {
    w->inner->destroyed = true;
    m_end(w, w->vt == NIL ? 0 : r);
  }
  void m_inner_killed(Node *w, ST seen) {
    Node *i = w->inner;
    for (size_t k = 0; k < i->waiters.size(); ++k)
      if (i->waiters[k] == w) i->waiters.erase(i->waiters.begin() + static_cast<long>(k--));
    i->destroyed = true;
    if (!i->task) {
      m_kill(i, w->st);
      m_end(w, i->result);
    } else {
      m_kill(i, ST::kKilled);  // its only handle goes away
      m_end(w, err(w->vt, seen));
    }
  }
  void m_kill(Node *n, ST st) {
    n->st = st;
    if (n->where == AT_GEN) {
      GenObj *g = n->gens[n->pc - 1];
      for (size_t i = 0; i < g->waiters.size(); ++i)
        if (g->waiters[i] == n) g->waiters.erase(g->waiters.begin() + static_cast<long>(i--));
      m_body(n);
    } else if (n->where == AT_PARENT) {
      auto &ws = n->parent->waiters;
      for (size_t i = 0; i < ws.size(); ++i)
        if (ws[i] == n) ws.erase(ws.begin() + static_cast<long>(i--));
      if (n->parent->task) {
        m_got(n, err(n->parent->vt, st), false);
      } else {  // a callable ends with the coroutine that waits for it
        n->where = IDLE;
        Node *p = n->parent;
        if (p->where == AT_INNER && !p->inner->task) {
          p->st = st;
          p->where = DETACHED;
          p->inner->waiters.clear();
          m_kill(p->inner, st);
          m_got(n, err(p->vt, st), false);
        } else {
          m_kill(p, st);
          p->consumed = true;
          m_got(n, p->result, false);
        }
      }
    } else if (n->where == AT_INNER) {
      m_inner_killed(n, st);
    } else if (n->where == DETACHED) {
      m_inner_done(n, n->inner->result);
    }
  }
  void m_set(GenObj *g) {
    g->ready = true;
    std::deque<Node *> ws;
    ws.swap(g->waiters);
    for (Node *n : ws) {
      m_body(n);
    }
  }
  void m_drop(Node *n) {  // one handle
    if (--n->handles > 0) return;
    if (!n->returned) {
      if (n->where == IDLE && n->task) {  // was never started
        ++n_unstarted;
        if (n->st < ST::kDone) n->st = ST::kKilled;
        m_start(n);
      } else {
        m_kill(n, n->st < ST::kDone ? ST::kKilled : n->st);
      }
    }
    n->destroyed = true;
    if (n->nk != ROOT && n->parent) {
      if (n->nk == CONT || n->parent->task) {
        if (n->parent->handles == 1 && !n->parent->returned) ++n_cascade;
        m_drop(n->parent);
      }
    }
  }
  void m_await(Node *w) {  // w begins to wait for its parent
    Node *p = w->parent;
    if (p->where == DETACHED) m_inner_done(p, p->inner->result);
    if (p->returned) {
      bool loose;
      int got = m_take(p, false, loose);
      ++n_late;
      m_got(w, got, loose);
    } else if (p->st >= ST::kDone) {  // killed before it was started
      m_got(w, p->task ? err(p->vt, ST::kKilled) : err(p->vt, p->st), false);
    } else {
      w->where = AT_PARENT;
      p->waiters.push_back(w);
    }
  }

  void settle() {
    for (auto &np : nodes) {
      Node *n = np.get();
      if (n->seen.size() != n->want.size())
        c.fail("#%d: missing: %s %d", n->id, ev_name(n->want[n->seen.size()].ev), n->want[n->seen.size()].a);
      int alive = n->nk == INNER ? (n->want.empty() ? 0 : !n->destroyed) : !n->destroyed;
      if (n->toks != alive) c.fail("#%d: its frame %s", n->id, alive ? "is gone" : "is still alive");
    }
    for (auto &h : held) {
      if (h->count() == 0) continue;
      h->probe();
    }
  }
};

// ---------------------------------------------------------------- bodies
template <class F>
F task_or_call_body(Node *n, Tok tok) {
  using T = typename F::value_type;
  ST st = co_yield F::yield_status();
  W->event(n, START, static_cast<int>(st));
  if constexpr (requires { F::yield_task_id(); }) {
    uint64_t id = co_yield F::yield_task_id();
    if (id == 0 || (n->tid && id != n->tid)) W->c.fail("#%d sees another task id", n->id);
    n->tid = id;
    if constexpr (!std::is_void<typename F::private_data_type>::value) {
      Priv *p = co_yield F::yield_private_data();
      if (!p || (n->priv && p != n->priv)) W->c.fail("#%d sees other private data", n->id);
      if (p->v != n->privv || *p->heap != n->privv) W->c.fail("#%d sees private data %d, expected %d", n->id, p->v, n->privv);
    }
  }
  for (size_t i = 0; i < n->gens.size(); ++i) {
    (void)co_await *n->gens[i]->f;
    ST s2 = co_yield F::yield_status();
    if (s2 < ST::kDone && !n->gens[i]->ready) W->c.fail("#%d was resumed although its generator has no value", n->id);
  }
  W->event(n, RETURNED, 0);
  if constexpr (std::is_void<T>::value) co_return;
  else co_return T(n->tag);
}

template <class PT, int RK, class R>
struct RetOf;
template <class PT, class R>
struct RetOf<PT, 0, R> {
  using type = R;
};
template <class PT, class R>
struct RetOf<PT, 1, R> {
  using type = CallF<R>;
};
template <class PT, class R>
struct RetOf<PT, 2, R> {
  using type = TaskF<R, std::conditional_t<std::is_same<R, Val>::value, void, Priv>>;
};
template <class PT, int RK, class R>
typename RetOf<PT, RK, R>::type thenable_result(Node *n) {
  if constexpr (RK == 0) {
    if constexpr (std::is_void<R>::value) return;
    else return R(n->tag);
  } else {
    return task_or_call_body<typename RetOf<PT, RK, R>::type>(n->inner, Tok(n->inner));
  }
}
template <class PT>
void thenable_ctx(Node *n, const typename PT::context_pointer_type &ctx) {
  if (n->empty_parent) {
    if (ctx) W->c.fail("#%d: the thenable of an empty task received a context", n->id);
    return;
  }
  if (ctx.get() != n->parent->ctx) W->c.fail("#%d: the thenable received another context than that of #%d", n->id, n->parent->id);
  if (ctx->get_id() != n->parent->tid) W->c.fail("#%d: the context shows another id", n->id);
  if constexpr (!std::is_void<typename PT::private_data_type>::value) {
    if (ctx->get_private_data().v != n->parent->privv) W->c.fail("#%d: the context shows other private data", n->id);
  }
}
// the private data of a continuation is in place before any of its code runs
void priv_there(Node *n) {
  if (n->privv >= 1000 && !Priv::handed.test(static_cast<size_t>(n->privv) % 4096)) W->c.fail("#%d runs before its private data was handed over", n->id);
}
// move-only
template <class PT, int RK, class R, bool VOIDP>
struct Thenable;
template <class PT, int RK, class R>
struct Thenable<PT, RK, R, false> {
  Node *n;
  Tok tok;
  std::unique_ptr<int> mine;
  explicit Thenable(Node *x) : n(x), tok(x), mine(new int(x->tag)) {}
  typename RetOf<PT, RK, R>::type operator()(typename PT::context_pointer_type ctx, typename PT::value_type v) {
    if (!mine || *mine != n->tag) W->c.fail("#%d: the thenable was called after it was moved away", n->id);
    W->event(n, INVOKED, tag_of(v));
    priv_there(n);
    thenable_ctx<PT>(n, ctx);
    return thenable_result<PT, RK, R>(n);
  }
};
template <class PT, int RK, class R>
struct Thenable<PT, RK, R, true> {
  Node *n;
  Tok tok;
  std::unique_ptr<int> mine;
  explicit Thenable(Node *x) : n(x), tok(x), mine(new int(x->tag)) {}
  typename RetOf<PT, RK, R>::type operator()(typename PT::context_pointer_type ctx) {
    if (!mine || *mine != n->tag) W->c.fail("#%d: the thenable was called after it was moved away", n->id);
    W->event(n, INVOKED, 0);
    priv_there(n);
    thenable_ctx<PT>(n, ctx);
    return thenable_result<PT, RK, R>(n);
  }
};

template <class F>
CallF<void> reader_call(Node *r, Tok tok, F *f) {
  if constexpr (std::is_void<typename F::value_type>::value) {
    co_await *f;
    W->event(r, GOT, 0);
  } else {
    auto v = co_await *f;
    W->event(r, GOT, tag_of(v));
  }
}
template <class F>
CallF<void> reader_task(Node *r, Tok tok, F f) {
  if constexpr (std::is_void<typename F::value_type>::value) {
    co_await f;
    W->event(r, GOT, 0);
  } else {
    auto v = co_await f;
    W->event(r, GOT, tag_of(v));
  }
}

template <class F>
constexpr bool is_task_v = requires(F f) { f.get_id(); };

template <class F>
struct HeldT : Held {
  std::vector<std::unique_ptr<F>> hs;
  HeldT(Node *x, F &&f) {
    n = x;
    hs.emplace_back(new F(std::move(f)));
    if constexpr (is_task_v<F>) {
      n->ctx = hs[0]->get_context().get();
      uint64_t id = hs[0]->get_id();
      if (id == 0 || (n->tid && n->tid != id)) W->c.fail("#%d: its handle shows another id", n->id);
      n->tid = id;
      if constexpr (!std::is_void<typename F::private_data_type>::value) n->priv = hs[0]->get_private_data();
    }
  }
  size_t count() override { return hs.size(); }
  bool kill(ST st, int how) override {
    if constexpr (is_task_v<F>) {
      if (how == 1) return hs[0]->kill(st, true);
      if (st == ST::kCancle) return hs[0]->cancel();
      return hs[0]->kill(st);
    } else {
      return hs[0]->kill(st);
    }
  }
  bool start() override {
    if constexpr (is_task_v<F>) return hs.back()->start();
    return false;
  }
  void copy(size_t i) override {
    if constexpr (is_task_v<F>) hs.emplace_back(new F(std::as_const(*hs[i % hs.size()])));
  }
  void drop(size_t i) override {
    i %= hs.size();
    std::unique_ptr<F> h = std::move(hs[i]);
    hs.erase(hs.begin() + static_cast<long>(i));
    h.reset();
  }
  void probe() override {
    F &f = *hs[0];
    pbt::Ctx &c = W->c;
    if (f.get_status() != n->st)
      c.fail("#%d reports status %d, expected %d", n->id, static_cast<int>(f.get_status()), static_cast<int>(n->st));
    if constexpr (is_task_v<F>) {
      if (f.get_id() != n->tid) c.fail("#%d reports another id", n->id);
      if (f.get_ref_future_count() != static_cast<size_t>(n->handles))
        c.fail("#%d: %zu handles counted, expected %d", n->id, f.get_ref_future_count(), n->handles);
      if (f.is_completed() != n->returned) c.fail("#%d: is_completed() is wrong", n->id);
      if constexpr (!std::is_void<typename F::private_data_type>::value) {
        if (f.get_private_data()->v != n->privv || *f.get_private_data()->heap != n->privv)
          c.fail("#%d holds private data %d, expected %d", n->id, f.get_private_data()->v, n->privv);
      }
      if constexpr (!std::is_void<typename F::value_type>::value) {
        auto *p = std::as_const(*f.get_context()).data();
        if (!p == n->returned) c.fail("#%d: data() is %s", n->id, p ? "present before its end" : "missing");
        if (p && !(n->vt == VAL && n->consumed) && tag_of(*p) != n->result)
          c.fail("#%d holds %d, expected %d", n->id, tag_of(*p), n->result);
      }
    } else {
      if (f.is_ready() != n->returned) c.fail("#%d: is_ready() is wrong", n->id);
    }
  }
  std::unique_ptr<Held> reader(Node *r) override {
    if constexpr (is_task_v<F>) return std::unique_ptr<Held>(new HeldT<CallF<void>>(r, reader_task<F>(r, Tok(r), F(std::as_const(*hs[0])))));
    else return std::unique_ptr<Held>(new HeldT<CallF<void>>(r, reader_call<F>(r, Tok(r), hs[0].get())));
  }
  template <int RK, class R>
  std::unique_ptr<Held> attach_t(F &f, Node *c, int form) {
    using Fn = Thenable<F, RK, R, std::is_void<typename F::value_type>::value>;
    if (form == 0) {
      auto x = f.then(Fn(c));
      return std::unique_ptr<Held>(new HeldT<decltype(x)>(c, std::move(x)));
    }
    if (form == 1) {
      auto x = f.then(Fn(c), Priv(c->privv));
      return std::unique_ptr<Held>(new HeldT<decltype(x)>(c, std::move(x)));
    }
    auto x = f.then(Fn(c), nullptr);
    return std::unique_ptr<Held>(new HeldT<decltype(x)>(c, std::move(x)));
  }
  static constexpr bool attachable() {
    if constexpr (is_task_v<F>) {
      using T = typename F::value_type;
      using P = typename F::private_data_type;
      return std::is_same<T, Val>::value ? std::is_void<P>::value : (std::is_same<T, int>::value || !std::is_void<P>::value);
    } else {
      return false;
    }
  }
  std::unique_ptr<Held> attach(Node *c, VT rvt, int form, bool from_empty) override {
    if constexpr (attachable()) {
      F none;
      F &f = from_empty ? none : *hs[0];
      switch (c->rk * 3 + rvt) {
        case 0: return attach_t<0, int>(f, c, form);
        case 1: return attach_t<0, Val>(f, c, form);
        case 2: return attach_t<0, void>(f, c, form);
        case 3: return attach_t<1, int>(f, c, form);
        case 4: return attach_t<1, Val>(f, c, form);
        case 5: return attach_t<1, void>(f, c, form);
        case 6: return attach_t<2, int>(f, c, form);
        case 7: return attach_t<2, Val>(f, c, form);
        default: return attach_t<2, void>(f, c, form);
      }
    } else {
      return nullptr;
    }
  }
};
bool attachable(Node *n) { return n->task && n->nk != READER && (n->vt == VAL ? !n->has_priv : n->vt == INT || n->has_priv); }

void draw_gens(pbt::Ctx &c, World &w, Node *n) {
  size_t k = c.draw(3);
  for (size_t i = 0; i < k; ++i) n->gens.push_back(w.gens[c.draw(w.gens.size())].get());
}

void run_then(pbt::Ctx &c) {
  long base = pbt::live_allocs();
  {
    World w(c);
    W = &w;
    Val::live = 0;
    Priv::handed.reset();
    size_t ng = c.range(1, 5);
    for (size_t i = 0; i < ng; ++i) {
      w.gens.emplace_back(new GenObj);
      w.gens.back()->id = static_cast<int>(i + 1);
      w.gens.back()->f.reset(new Gen(nullptr));
    }
    auto pick = [&](std::function<bool(Held &)> ok) -> Held * {
      std::vector<Held *> v;
      for (auto &h : w.held)
        if (h->count() && ok(*h)) v.push_back(h.get());
      return v.empty() ? nullptr : v[c.draw(v.size())];
    };
    auto any = [](Held &) { return true; };
    pbt::Loop loop(c, 14, 40);
    while (loop.next()) {
      size_t op = c.weighted({4, 9, 5, 4, 5, 5, 2, 4});
      if (op <= 1 && w.nodes.size() > 40) continue;
      switch (op) {
        case 0: {
          VT vt = static_cast<VT>(c.weighted({3, 3, 2}));
          bool priv = vt == VAL ? false : vt == NIL ? true : c.coin();
          Node *n = w.node(ROOT, true, vt);
          n->has_priv = priv;
          n->handles = 1;
          draw_gens(c, w, n);
          c.log("task #%d type %d, %zu generators", n->id, vt, n->gens.size());
          if (vt == INT && priv) w.held.emplace_back(new HeldT<TaskF<int, Priv>>(n, task_or_call_body<TaskF<int, Priv>>(n, Tok(n))));
          else if (vt == INT) w.held.emplace_back(new HeldT<TaskF<int, void>>(n, task_or_call_body<TaskF<int, void>>(n, Tok(n))));
          else if (vt == VAL) w.held.emplace_back(new HeldT<TaskF<Val, void>>(n, task_or_call_body<TaskF<Val, void>>(n, Tok(n))));
          else w.held.emplace_back(new HeldT<TaskF<void, Priv>>(n, task_or_call_body<TaskF<void, Priv>>(n, Tok(n))));
          break;
        }
        case 1: {
          Held *p = pick([](Held &h) { return attachable(h.n); });
          if (!p) break;
          VT rvt = static_cast<VT>(c.weighted({3, 3, 2}));
          int form = static_cast<int>(c.weighted({2, 3, 2}));
          Node *n = w.node(CONT, form != 0, rvt);
          n->parent = p->n;
          n->rk = static_cast<int>(c.weighted({2, 3, 2}));
          n->has_priv = form == 1;
          if (form == 1) n->privv = 1000 + n->id;
          n->empty_parent = c.chance(1, 24);
          if (n->rk) {
            Node *i = w.node(INNER, n->rk == 2, rvt);
            n->inner = i;
            draw_gens(c, w, i);
          }
          n->handles = 1;
          n->st = ST::kRunning;
          c.log("#%d = #%d.then(form %d, thenable returns %s of type %d)%s", n->id, p->n->id, form,
                n->rk == 0 ? "a value" : n->rk == 1 ? "a callable" : "a task", rvt, n->empty_parent ? " of an empty handle" : "");
          ++w.n_then;
          if (p->n->nk == CONT) ++w.n_chain;
          bool emp = n->empty_parent;
          if (emp) {
            ++w.n_empty;
            n->parent = nullptr;
            VT pvt = p->n->vt;
            w.m_got(n, pvt == NIL ? 0 : err(pvt, ST::kInvalid), false);
          } else {
            ++p->n->handles;
            w.m_await(n);
          }
          w.held.push_back(p->attach(n, rvt, form, emp));
          break;
        }
        case 2: {
          Held *h = pick([](Held &x) { return x.n->task; });
          if (!h) break;
          bool want = h->n->where == IDLE && !h->n->returned && h->n->st == ST::kCreated;
          c.log("start #%d (%s)", h->n->id, want ? "accepted" : "refused");
          if (want) w.m_start(h->n);
          if (h->start() != want) c.fail("starting #%d %s", h->n->id, want ? "failed" : "succeeded");
          break;
        }
        case 3: {
          Held *h = pick([](Held &x) { return x.n->nk != READER; });
          if (!h) break;
          static const ST sts[] = {ST::kKilled, ST::kCancle, ST::kTimeout};
          ST st = sts[c.draw(3)];
          bool force = c.chance(1, 3);
          Node *n = h->n;
          bool want = !n->returned && n->st < ST::kDone;
          if (n->where != IDLE || !n->task || n->returned) force = false;
          c.log("kill #%d with %d%s (%s)", n->id, static_cast<int>(st), force ? " by force" : "", want ? "accepted" : "refused");
          if (want) {
            ++w.n_killed;
            bool fresh = n->where == IDLE;
            w.m_kill(n, st);
            if (fresh) {
              ++w.n_unstarted;
              if (force) w.m_start(n);
            }
          }
          if (h->kill(st, force) != want) c.fail("killing #%d %s", n->id, want ? "failed" : "succeeded");
          break;
        }
        case 4: {
          GenObj *g = w.gens[c.draw(w.gens.size())].get();
          if (g->ready) break;
          c.log("gen%d is set", g->id);
          w.m_set(g);
          g->f->get_context()->set_value(g->id);
          break;
        }
        case 5: {
          Held *h = pick([](Held &x) { return x.n->task || x.n->waiters.empty(); });
          if (!h) break;
          size_t i = c.draw(3);
          c.log("drop a handle of #%d (of %d)", h->n->id, h->n->handles);
          w.m_drop(h->n);
          h->drop(i);
          break;
        }
        case 6: {
          Held *h = pick([](Held &x) { return x.n->task && x.count() < 3; });
          if (!h) break;
          ++h->n->handles;
          h->copy(c.draw(3));
          break;
        }
        default: {
          Held *h = pick([](Held &x) { return x.n->nk != READER && (x.n->task || (x.n->waiters.empty() && !x.n->consumed)); });
          if (!h || w.nodes.size() > 40) break;
          Node *r = w.node(READER, false, NIL);
          r->parent = h->n;
          r->handles = 1;
          r->st = ST::kRunning;
          c.log("reader #%d awaits #%d", r->id, h->n->id);
          if (h->n->task) ++h->n->handles;
          ++w.n_read;
          w.m_await(r);
          w.held.push_back(h->reader(r));
          break;
        }
      }
      w.settle();
    }
    c.log("-- end of the case");
    // readers of callables first: they refer to them
    for (int pass = 0; pass < 2; ++pass)
      while (Held *h = pick([&](Held &x) { return pass == 1 || x.n->nk == READER; })) {
        c.log("drop a handle of #%d (of %d)", h->n->id, h->n->handles);
        w.m_drop(h->n);
        h->drop(0);
        w.settle();
      }
    for (auto &n : w.nodes)
      if (!n->destroyed && !(n->nk == INNER && n->want.empty())) c.fail("model: #%d is left", n->id);
    w.held.clear();
    (void)any;
    if (w.n_late) c.label("attached after the end");
    if (w.n_err) c.label("error delivered");
    if (w.n_chain) c.label("continuation of a continuation");
    if (w.n_inner_wait) c.label("waited for the coroutine its thenable returned");
    if (w.n_inner_killed) c.label("thenable returned a pending coroutine to a killed continuation");
    if (w.n_multi) c.label("several waiters");
    if (w.n_unstarted) c.label("ended before it was started");
    if (w.n_killed) c.label("killed");
    if (w.n_cascade) c.label("dropping a continuation ended its predecessor");
    if (w.n_empty) c.label("continuation of an empty handle");
    if (w.n_read) c.label("result read");
    if (w.n_then && (w.n_killed || w.n_inner_wait || w.n_cascade || w.n_multi)) c.nontrivial();
    W = nullptr;
  }
  if (Val::live) c.fail("%ld values are still alive at the end of the case", Val::live);
  long leak = pbt::live_allocs() - base;
  if (leak) c.fail("%ld allocations were not released", leak);
}

TaskF<void, void> warm_up_body() { co_return; }
}  // namespace

const pbt::HarnessInfo pbt::info = {
    "sl_then",
    "a case attaches continuations (108 combinations of predecessor type, kind of thenable and kind of continuation) to up to "
    "40 stackless tasks in every state, starts, kills and drops them and sets the values they wait for; non-trivial when a "
    "continuation existed and a kill, a wait for the coroutine a thenable returned, several waiters or a cascading drop occurred",
    false, 20};
void pbt::setup_process() { TaskF<void, void> t = warm_up_body(); }
void pbt::run_case(Ctx &c) { run_then(c); }

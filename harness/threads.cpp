// C20: coroutines, tasks and managers driven from several threads.
// World "co": generated threads enter a few coroutines; the entries, their answers and what the bodies saw are compared
// after the threads joined.  World "task": the same with tasks, kill, cancel and followers.  World "mgr": threads add,
// find, start, resume, kill and remove tasks of one manager.
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>

#include <atomic>
#include <memory>
#include <mutex>

#include "common.h"
#include "preempt.h"

// threads_co, threads_task and threads_mgr are the worlds by themselves
#ifndef VP_WORLD
#  define VP_WORLD 0
const pbt::HarnessInfo pbt::info = {
    "threads",
    "a case is a set of threads with generated lists of operations on shared coroutines, tasks or one manager, and (in the "
    "controlled build) a generated list of preemptions; non-trivial when two threads worked on the same object and at least "
    "one entry was refused, or an object was entered by two threads one after the other",
#ifdef VP_SCHED
    false,
#else
    true,
#endif
    40};
#endif

namespace {
using copp::COPP_EC_ALREADY_FINISHED;
using copp::COPP_EC_IS_RUNNING;
using copp::COPP_EC_NOT_READY;

// ---------------------------------------------------------------------------------------------------- stacks
struct Stacks {
  std::mutex mu;
  std::map<void *, std::pair<void *, size_t>> live;
  size_t allocs = 0, frees = 0;
};
Stacks &stacks() {
  static Stacks s;
  return s;
}
struct ThreadAlloc {
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    sched::Books b;
    std::lock_guard<std::mutex> g(stacks().mu);
    void *p = nullptr;
    size = (size + 63) & ~static_cast<size_t>(63);
    if (posix_memalign(&p, 64, size) != 0) abort();
    ctx.size = size;
    ctx.sp = static_cast<char *>(p) + size;
    stacks().live[ctx.sp] = {p, size};
    ++stacks().allocs;
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    sched::Books b;
    std::lock_guard<std::mutex> g(stacks().mu);
    auto it = stacks().live.find(ctx.sp);
    if (it == stacks().live.end()) pbt::cur().fail("a stack was released twice");
    free(it->second.first);
    stacks().live.erase(it);
    ++stacks().frees;
  }
};
void reset_stacks() {
  for (auto &kv : stacks().live) free(kv.second.first);
  stacks().live.clear();
  stacks().allocs = stacks().frees = 0;
}

using Co = copp::coroutine_context_container<ThreadAlloc>;
struct Macro {
  using stack_allocator_type = ThreadAlloc;
  using coroutine_type = Co;
  using value_type = int;
};
using Task = cotask::task<Macro>;
using Manager = cotask::task_manager<Task>;

// one entry attempt, kill, ... of a thread
struct Call {
  int what = 0;     // the operation
  int obj = -1;     // on which
  int token = 0;    // what it passes
  int arg = 0;
  // result
  uint64_t begin = 0, end = 0;
  int rc = 0;
  bool made = false;
  void *got = nullptr;
};
bool overlap(const Call &a, const Call &b) { return a.begin < b.end && b.begin < a.end; }

// what a body does at one step
struct Step {
  unsigned work = 0;
  int enter = -1;  // entry of another object from inside
};
struct Body {
  std::vector<Step> steps;
  bool catches = false;
};

// the state a body leaves behind: plain memory, only ever touched by whoever runs the body
struct Trace {
  std::vector<int> tokens;      // received, one per entry
  std::vector<Call> inner;      // entries made from inside
  long sum = 0;
  bool finished = false;
  int last_thread = -1;
  int migrations = 0;
  std::atomic<int> inside{0};
  std::atomic<int> clash{0};
};

thread_local int t_self = -1;  // which thread of the case this is
SCHED_RAW int self_thread() { return t_self; }
thread_local void *t_dummy;

// runs one step: alone, or the property is broken
void work(Trace &t, const Step &s) {
  if (t.inside.exchange(1, std::memory_order_relaxed) != 0) t.clash.store(1, std::memory_order_relaxed);
  int me = self_thread();
  if (t.last_thread >= 0 && t.last_thread != me) ++t.migrations;
  t.last_thread = me;
  for (unsigned k = 0; k < s.work; ++k) {
    t.sum += 3;
    sched::point();
  }
  t.inside.store(0, std::memory_order_relaxed);
}

int tokens_of(void *p) { return static_cast<int>(reinterpret_cast<intptr_t>(p)); }
void *token(int t) { return reinterpret_cast<void *>(static_cast<intptr_t>(t)); }

int gen_token(int &next) { return ++next; }

// ---------------------------------------------------------------------------------------------------- coroutines
struct CoObj {
  Co::ptr_type co;
  Body body;
  Trace tr;
};

struct CoWorld {
  std::vector<std::unique_ptr<CoObj>> o;
  std::vector<std::vector<Call>> ops;
  std::atomic<int> bad{0};
};
CoWorld *CW = nullptr;

SCHED_RAW void enter_co(Call &k) {
  CoObj &x = *CW->o[static_cast<size_t>(k.obj)];
  k.made = true;
  k.begin = sched::tick();
  switch (k.what) {
    case 0: k.rc = x.co->resume(token(k.token)); break;
    case 1: k.rc = x.co->start(token(k.token)); break;
    default: {
      std::exception_ptr e;
      k.rc = x.co->resume(e, token(k.token));
      break;
    }
  }
  k.end = sched::tick();
}

void world_co(pbt::Ctx &c) {
  CoWorld w;
  CW = &w;
  int next = 0;
  size_t no = 1 + c.weighted({4, 3, 1}), nt = 2 + c.weighted({4, 3, 1});
  size_t total_steps = 0;
  for (size_t i = 0; i < no; ++i) {
    w.o.emplace_back(new CoObj());
    CoObj *x = w.o.back().get();
    size_t ns = 1 + c.pick(6);
    for (size_t k = 0; k < ns; ++k) {
      Step s;
      s.work = static_cast<unsigned>(c.weighted({3, 3, 1})) * 4;
      if (no > 1 && c.chance(1, 5)) s.enter = static_cast<int>(c.pick(no));
      x->body.steps.push_back(s);
      if (s.enter >= 0) {
        Call k2;
        k2.obj = s.enter;
        k2.what = static_cast<int>(c.pick(3));
        k2.token = gen_token(next);
        x->tr.inner.push_back(k2);
      }
    }
    total_steps += ns;
    x->co = Co::create(
        Co::callback_type([x](void *p) -> int {
          size_t in = 0;
          for (size_t k = 0; k < x->body.steps.size(); ++k) {
            x->tr.tokens.push_back(tokens_of(p));
            work(x->tr, x->body.steps[k]);
            if (x->body.steps[k].enter >= 0) enter_co(x->tr.inner[in++]);
            if (copp::this_coroutine::get_coroutine() != x->co.get()) CW->bad.store(1, std::memory_order_relaxed);
            if (k + 1 == x->body.steps.size()) break;
            p = nullptr;
            if (x->co->yield(&p) != 0) CW->bad.store(2, std::memory_order_relaxed);
          }
          x->tr.finished = true;
          return 100 + static_cast<int>(x->tr.tokens.size());
        }),
        65536);
    CHECK(x->co, "(create)");
  }
  w.ops.resize(nt);
  for (size_t t = 0; t < nt; ++t) {
    size_t n = 1 + c.pick(6);
    for (size_t i = 0; i < n; ++i) {
      Call k;
      k.what = static_cast<int>(c.pick(3));
      k.obj = static_cast<int>(c.pick(no));
      k.token = gen_token(next);
      w.ops[t].push_back(k);
    }
  }
  sched::Plan plan = sched::gen_plan(c, static_cast<unsigned>(nt));
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < nt; ++t)
    bodies.push_back([t, &w]() {
      t_self = static_cast<int>(t);
      for (Call &k : w.ops[t]) enter_co(k);
      if (copp::this_coroutine::get_coroutine() != nullptr) w.bad.store(3, std::memory_order_relaxed);
    });
  sched::run(bodies, plan);

  // ---- everything that happened
  CHECK(w.bad.load() != 1, "(a body sees another coroutine as the running one)");
  CHECK(w.bad.load() != 2, "(a running coroutine could not yield)");
  CHECK(w.bad.load() != 3, "(a thread outside of every coroutine sees one as running)");
  std::vector<const Call *> all;
  for (size_t t = 0; t < nt; ++t)
    for (Call &k : w.ops[t]) {
      if (!k.made) c.fail("a thread did not get through its operations");
      all.push_back(&k);
      c.log("thread %zu: enter %d with token %d -> %d  [%llu, %llu]", t, k.obj, k.token, k.rc,
            static_cast<unsigned long long>(k.begin), static_cast<unsigned long long>(k.end));
    }
  for (auto &x : w.o)
    for (Call &k : x->tr.inner)
      if (k.made) {
        if (k.end == 0) {  // still inside: it entered something that entered it ... impossible: entries return
          c.fail("an entry from inside a coroutine did not return");
        }
        all.push_back(&k);
      }
  bool contended = false, migrated = false;
  for (size_t i = 0; i < no; ++i) {
    CoObj &x = *w.o[i];
    if (x.tr.clash.load()) c.fail("coroutine %zu was run by two threads at a time", i);
    size_t good = 0;
    for (const Call *k : all) {
      if (k->obj != static_cast<int>(i)) continue;
      if (k->rc == 0) {
        size_t n = static_cast<size_t>(std::count(x.tr.tokens.begin(), x.tr.tokens.end(), k->token));
        if (n != 1) c.fail("the token of a successful entry of coroutine %zu arrived %zu times", i, n);
        ++good;
      } else if (k->rc == COPP_EC_IS_RUNNING) {
        bool why = false;
        for (const Call *q : all) why = why || (q != k && q->obj == k->obj && q->rc == 0 && overlap(*q, *k));
        if (!why) c.fail("an entry of coroutine %zu was refused as running while nobody was inside", i);
        contended = true;
      } else if (k->rc == COPP_EC_NOT_READY) {
        if (!x.tr.finished) c.fail("an entry of coroutine %zu was refused as finished but it is not", i);
        size_t before = 0;
        for (const Call *q : all) before += q->obj == k->obj && q->rc == 0 && q->begin < k->end;
        if (before < x.body.steps.size()) c.fail("an entry of coroutine %zu was refused as finished before it was", i);
      } else {
        c.fail("an entry of coroutine %zu returned %d", i, k->rc);
      }
    }
    if (good != x.tr.tokens.size()) c.fail("coroutine %zu: %zu entries succeeded, %zu steps ran", i, good, x.tr.tokens.size());
    size_t want = std::min(good, x.body.steps.size());
    if (x.tr.tokens.size() != want) c.fail("coroutine %zu ran %zu steps, expected %zu", i, x.tr.tokens.size(), want);
    long sum = 0;
    for (size_t k = 0; k < x.tr.tokens.size(); ++k) sum += 3 * static_cast<long>(x.body.steps[k].work);
    if (sum != x.tr.sum) c.fail("coroutine %zu: work was lost or done twice", i);
    if (x.tr.finished != (x.tr.tokens.size() == x.body.steps.size())) c.fail("coroutine %zu did not end with its last step", i);
    if (x.co->is_finished() != x.tr.finished) c.fail("coroutine %zu: is_finished() is wrong", i);
    if (x.tr.finished && x.co->get_ret_code() != 100 + static_cast<int>(x.body.steps.size()))
      c.fail("coroutine %zu: wrong return code", i);
    // entries of one coroutine that did not overlap took effect in their order
    for (const Call *a : all)
      for (const Call *b : all)
        if (a != b && a->obj == static_cast<int>(i) && b->obj == a->obj && !a->rc && !b->rc && a->end < b->begin) {
          auto pa = std::find(x.tr.tokens.begin(), x.tr.tokens.end(), a->token);
          auto pb = std::find(x.tr.tokens.begin(), x.tr.tokens.end(), b->token);
          if (pa > pb) c.fail("coroutine %zu: entries took effect out of order", i);
        }
    migrated = migrated || x.tr.migrations > 0;
  }
  // the rest, by this thread
  t_self = 99;
  for (size_t i = 0; i < no; ++i) {
    CoObj &x = *w.o[i];
    for (size_t lim = 0; !x.tr.finished; ++lim) {
      int rc = x.co->resume(token(gen_token(next)));
      if (rc != 0) c.fail("coroutine %zu cannot be resumed after the threads are gone: %d", i, rc);
      if (lim > 100) c.fail("coroutine %zu does not end", i);
    }
    if (x.co->resume(nullptr) != COPP_EC_NOT_READY) c.fail("a finished coroutine could be resumed");
    if (x.tr.tokens.size() != x.body.steps.size()) c.fail("coroutine %zu ran %zu of %zu steps", i, x.tr.tokens.size(), x.body.steps.size());
  }
  w.o.clear();
  if (stacks().allocs != stacks().frees) c.fail("%zu stacks handed out, %zu given back", stacks().allocs, stacks().frees);
  if (contended) c.label("refused entry");
  if (migrated) c.label("continued by another thread");
  c.label("coroutines");
  if (contended || migrated) c.nontrivial();
  CW = nullptr;
}

// ---------------------------------------------------------------------------------------------------- tasks
enum TaskOp { T_START, T_RESUME, T_START_LIST, T_KILL, T_CANCEL, T_COPY, T_DROP, T_STATUS };
struct Follower {
  std::atomic<int> runs{0};
  int token = 0;
  int got = -1;
  bool done = false;
};
struct TaskObj {
  Body body;
  Trace tr;
  std::vector<std::unique_ptr<Follower>> next;
  uint64_t ended = 0;  // when the body ended
};
struct TaskWorld {
  std::vector<std::unique_ptr<TaskObj>> o;
  std::vector<std::vector<Task::ptr_type>> h;  // per thread, per task; the last row belongs to the main thread
  std::vector<std::vector<Call>> ops;
  bool over = false;
  std::atomic<int> bad{0};
};
TaskWorld *TW = nullptr;

// what: a TaskOp
void do_task(Task::ptr_type h, Call &k) {
  switch (k.what) {
    case T_START:
    case T_RESUME:
    case T_START_LIST:
    case T_KILL:
    case T_CANCEL:
    case T_STATUS:
      break;
    default:
      return;
  }
  if (!h) return;
  k.made = true;
  k.begin = sched::tick();
  switch (k.what) {
    case T_START: k.rc = h->start(token(k.token)); break;
    case T_RESUME: k.rc = h->resume(token(k.token)); break;
    case T_START_LIST: {
      std::list<std::exception_ptr> l;
      k.rc = h->start(l, token(k.token));
      break;
    }
    case T_KILL:
      k.rc = h->kill(k.arg % 3 == 0   ? cotask::EN_TS_KILLED
                     : k.arg % 3 == 1 ? cotask::EN_TS_TIMEOUT
                                      : cotask::EN_TS_CANCELED,
                     token(k.token));
      break;
    case T_CANCEL: k.rc = h->cancel(token(k.token)); break;
    default: k.rc = h->get_status(); break;
  }
  k.end = sched::tick();
}
int killed_as(const Call &k) {
  if (k.what == T_CANCEL) return cotask::EN_TS_CANCELED;
  return k.arg % 3 == 0 ? cotask::EN_TS_KILLED : k.arg % 3 == 1 ? cotask::EN_TS_TIMEOUT : cotask::EN_TS_CANCELED;
}
Call gen_task_call(pbt::Ctx &c, size_t no, int &next, bool inner) {
  Call k;
  k.obj = static_cast<int>(c.pick(no));
  k.what = inner ? static_cast<int>(c.weighted({3, 3, 1, 1, 1})) : static_cast<int>(c.weighted({6, 6, 3, 3, 2, 2, 1, 2}));
  k.token = gen_token(next);
  k.arg = static_cast<int>(c.pick(3));
  return k;
}

Task::ptr_type make_task(TaskObj *x) {
  return Task::create(
      [x](void *p) -> int {
        size_t in = 0;
        Task *self = Task::this_task();
        for (size_t k = 0; k < x->body.steps.size(); ++k) {
          x->tr.tokens.push_back(tokens_of(p));
          work(x->tr, x->body.steps[k]);
          if (x->body.steps[k].enter >= 0 && !TW->over) {
            Call &q = x->tr.inner[in++];
            do_task(TW->h[static_cast<size_t>(self_thread())][static_cast<size_t>(q.obj)], q);
          }
          if (Task::this_task() != self) TW->bad.store(1, std::memory_order_relaxed);
          if (k + 1 == x->body.steps.size()) break;
          p = nullptr;
          if (self->yield(&p) != 0) TW->bad.store(2, std::memory_order_relaxed);
        }
        x->tr.finished = true;
        x->ended = sched::tick();
        return 100 + static_cast<int>(x->tr.tokens.size());
      },
      65536);
}

void world_task(pbt::Ctx &c) {
  TaskWorld w;
  TW = &w;
  int next = 0;
  size_t no = 1 + c.weighted({5, 3, 1}), nt = 2 + c.weighted({4, 3, 1});
  w.h.resize(nt + 1);
  for (size_t i = 0; i < no; ++i) {
    w.o.emplace_back(new TaskObj());
    TaskObj *x = w.o.back().get();
    size_t ns = 1 + c.pick(5);
    for (size_t k = 0; k < ns; ++k) {
      Step s;
      s.work = static_cast<unsigned>(c.weighted({3, 3, 1})) * 4;
      if (c.chance(1, 6)) {
        s.enter = 1;
        x->tr.inner.push_back(gen_task_call(c, no, next, true));
      }
      x->body.steps.push_back(s);
    }
    Task::ptr_type t = make_task(x);
    CHECK(t, "(create)");
    size_t nf = c.weighted({4, 3, 1});
    for (size_t k = 0; k < nf; ++k) {
      x->next.emplace_back(new Follower());
      Follower *f = x->next.back().get();
      f->token = gen_token(next);
      Task::ptr_type ft = Task::create(
          [f](void *p) {
            f->runs.fetch_add(1, std::memory_order_relaxed);
            f->got = tokens_of(p);
            f->done = true;
            return 0;
          },
          65536);
      if (t->next(ft, token(f->token)) != ft) c.fail("a follower could not be added");
    }
    for (size_t r = 0; r <= nt; ++r) w.h[r].push_back(t);
  }
  w.ops.resize(nt);
  for (size_t t = 0; t < nt; ++t) {
    size_t n = 1 + c.pick(6);
    for (size_t i = 0; i < n; ++i) w.ops[t].push_back(gen_task_call(c, no, next, false));
  }
  bool keep = !c.chance(1, 3);
  if (!keep)
    for (auto &h : w.h[nt]) h.reset();
  sched::Plan plan = sched::gen_plan(c, static_cast<unsigned>(nt));
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < nt; ++t)
    bodies.push_back([t, &w]() {
      t_self = static_cast<int>(t);
      for (Call &k : w.ops[t]) {
        Task::ptr_type &mine = w.h[t][static_cast<size_t>(k.obj)];
        if (k.what == T_COPY) {
          Task::ptr_type a(mine), b;
          b = a;
          a.reset();
          if (b && b->get_id() == 0) w.bad.store(4, std::memory_order_relaxed);
          Task::ptr_type d = std::move(b);
        } else if (k.what == T_DROP) {
          k.begin = sched::tick();
          Task::ptr_type d = std::move(mine);
          mine.reset();
          k.made = !!d;
          d.reset();
          k.end = sched::tick();
        } else {
          do_task(mine, k);
        }
      }
      if (Task::this_task() != nullptr) w.bad.store(3, std::memory_order_relaxed);
      for (Task::ptr_type &mine : w.h[t]) {
        Task::ptr_type d = std::move(mine);
        mine.reset();
        d.reset();
      }
    });
  sched::run(bodies, plan);

  w.over = true;
  CHECK(w.bad.load() != 1, "(a body sees another task as the running one)");
  CHECK(w.bad.load() != 2, "(a running task could not yield)");
  CHECK(w.bad.load() != 3, "(a thread outside of every task sees one as running)");
  CHECK(w.bad.load() != 4, "(a copied handle refers to nothing)");
  std::vector<const Call *> all;
  for (size_t t = 0; t < nt; ++t)
    for (Call &k : w.ops[t])
      if (k.made && k.what != T_DROP) {
        all.push_back(&k);
        c.log("thread %zu: op %d on task %d with token %d -> %d  [%llu, %llu]", t, k.what, k.obj, k.token, k.rc,
              static_cast<unsigned long long>(k.begin), static_cast<unsigned long long>(k.end));
      }
  for (auto &x : w.o)
    for (Call &k : x->tr.inner)
      if (k.made) {
        if (k.end == 0) c.fail("an operation from inside a task did not return");
        all.push_back(&k);
        c.log("inside: op %d on task %d with token %d -> %d  [%llu, %llu]", k.what, k.obj, k.token, k.rc,
              static_cast<unsigned long long>(k.begin), static_cast<unsigned long long>(k.end));
      }
  bool contended = false, migrated = false, raced = false;
  t_self = static_cast<int>(nt);
  for (size_t i = 0; i < no; ++i) {
    TaskObj &x = *w.o[i];
    Task::ptr_type &h = w.h[nt][i];
    std::string got;
    for (int q : x.tr.tokens) got += " " + std::to_string(q);
    c.log("task %zu: %zu steps, tokens%s, %s", i, x.body.steps.size(), got.c_str(), x.tr.finished ? "ended" : "not ended");
    if (x.tr.clash.load()) c.fail("task %zu was run by two threads at a time", i);
    const Call *end = nullptr;
    size_t good = 0;
    for (const Call *k : all)
      if (k->obj == static_cast<int>(i)) {
        bool kill = k->what == T_KILL || k->what == T_CANCEL, enter = k->what <= T_START_LIST;
        if (kill && k->rc == 0) {
          if (end) c.fail("task %zu was ended twice", i);
          end = k;
        }
        if (enter && k->rc == 0) ++good;
      }
    for (const Call *k : all) {
      if (k->obj != static_cast<int>(i)) continue;
      bool enter = k->what <= T_START_LIST;
      if (k->what == T_STATUS) {
        if (k->rc < cotask::EN_TS_CREATED || k->rc > cotask::EN_TS_TIMEOUT) c.fail("task %zu is in status %d", i, k->rc);
        if (k->rc >= cotask::EN_TS_CANCELED && (!end || end->begin > k->end || killed_as(*end) != k->rc))
          c.fail("task %zu was seen in status %d", i, k->rc);
        if (k->rc == cotask::EN_TS_DONE && (end || !x.tr.finished)) c.fail("task %zu was seen as done", i);
        continue;
      }
      if (k->rc == 0) {
        if (enter) {
          size_t n = static_cast<size_t>(std::count(x.tr.tokens.begin(), x.tr.tokens.end(), k->token));
          if (n != 1) c.fail("the token of a successful entry of task %zu arrived %zu times", i, n);
        }
      } else if (k->rc == COPP_EC_IS_RUNNING) {
        bool why = false;
        for (const Call *q : all)
          why = why || (q != k && q->obj == k->obj && q->rc == 0 && q->what <= T_START_LIST && overlap(*q, *k));
        if (!why || k->what == T_KILL) c.fail("task %zu refused an operation as running while nobody was inside", i);
        contended = true;
      } else if (k->rc == COPP_EC_ALREADY_FINISHED) {
        size_t before = 0;
        for (const Call *q : all)
          before += q->obj == k->obj && q->rc == 0 && q->what <= T_START_LIST && q->begin < k->end;
        bool why = (end && end != k && end->begin < k->end) || (!end && before == x.body.steps.size());
        if (!why) c.fail("task %zu refused an operation as finished before it was", i);
        if (end && overlap(*end, *k)) raced = true;
      } else {
        c.fail("operation %d on task %zu returned %d", k->what, i, k->rc);
      }
    }
    // the steps: one for each entry, and after an end all the rest
    size_t steps = x.body.steps.size();
    bool gone = !h;
    size_t other = 0;
    for (int q : x.tr.tokens) {
      bool mine = false;
      for (const Call *k : all) mine = mine || (k->obj == static_cast<int>(i) && k->what <= T_START_LIST && k->rc == 0 && k->token == q);
      if (mine) continue;
      ++other;
      if (end ? q != end->token : q != 0) c.fail("task %zu was resumed with token %d", i, q);
    }
    if (x.tr.tokens.size() != good + other) c.fail("task %zu: %zu entries, %zu steps", i, good, x.tr.tokens.size());
    if (end && !x.tr.finished) c.fail("task %zu was ended but its body did not run to its end", i);
    if (!end && other && !gone) c.fail("task %zu ran a step nobody asked for", i);
    if (gone && !end && good && !x.tr.finished) c.fail("task %zu was dropped but its body did not run to its end", i);
    if (gone && !end && !good && x.tr.tokens.size()) c.fail("task %zu ran though it was never started", i);
    if (x.tr.finished && x.tr.tokens.size() != steps) c.fail("task %zu ended after %zu of %zu steps", i, x.tr.tokens.size(), steps);
    if (!x.tr.finished && x.tr.tokens.size() >= steps) c.fail("task %zu did not end", i);
    long sum = 0;
    for (size_t k = 0; k < x.tr.tokens.size(); ++k) sum += 3 * static_cast<long>(x.body.steps[k].work);
    if (sum != x.tr.sum) c.fail("task %zu: work was lost or done twice", i);
    for (const Call *a : all)
      for (const Call *b : all)
        if (a != b && a->obj == static_cast<int>(i) && b->obj == a->obj && !a->rc && !b->rc && a->what <= T_START_LIST &&
            b->what <= T_START_LIST && a->end < b->begin) {
          auto pa = std::find(x.tr.tokens.begin(), x.tr.tokens.end(), a->token);
          auto pb = std::find(x.tr.tokens.begin(), x.tr.tokens.end(), b->token);
          if (pa > pb) c.fail("task %zu: entries took effect out of order", i);
        }
    if (h) {
      int want = end ? killed_as(*end) : x.tr.finished ? cotask::EN_TS_DONE : good ? cotask::EN_TS_WAITING : cotask::EN_TS_CREATED;
      if (h->get_status() != want) c.fail("task %zu is in status %d, expected %d", i, static_cast<int>(h->get_status()), want);
      if (h->use_count() != 1) c.fail("task %zu counts %zu references, expected 1", i, h->use_count());
      if (h->is_completed() != x.tr.finished) c.fail("task %zu: is_completed() is wrong", i);
    }
    bool over = end || x.tr.finished || gone;
    for (auto &f : x.next) {
      if (f->runs.load() != (over ? 1 : 0)) c.fail("a follower of task %zu ran %d times", i, f->runs.load());
      if (over && f->got != f->token) c.fail("a follower of task %zu received token %d, expected %d", i, f->got, f->token);
    }
    migrated = migrated || x.tr.migrations > 0;
    // the rest, by this thread
    if (h && !over) {
      if (c.coin()) {
        for (size_t lim = 0; !x.tr.finished; ++lim) {
          int rc = h->resume(nullptr);
          if (rc != 0) c.fail("task %zu cannot be resumed after the threads are gone: %d", i, rc);
          if (lim > 100) c.fail("task %zu does not end", i);
        }
        if (h->get_status() != cotask::EN_TS_DONE) c.fail("task %zu ended in status %d", i, static_cast<int>(h->get_status()));
      }
      bool ran = !x.tr.tokens.empty();
      h.reset();
      if (ran != x.tr.finished) c.fail("task %zu was dropped but its body did not run to its end", i);
      for (auto &f : x.next)
        if (f->runs.load() != 1) c.fail("a follower of task %zu ran %d times", i, f->runs.load());
    }
    h.reset();
  }
  if (stacks().allocs != stacks().frees) c.fail("%zu stacks handed out, %zu given back", stacks().allocs, stacks().frees);
  if (contended) c.label("refused entry");
  if (raced) c.label("operation during the end");
  if (migrated) c.label("continued by another thread");
  c.label("tasks");
  if (contended || migrated || raced) c.nontrivial();
  TW = nullptr;
}

// ---------------------------------------------------------------------------------------------------- managers
enum MgrOp { M_ADD, M_START, M_RESUME, M_KILL, M_FIND, M_FIND_START, M_FIND_KILL, M_REMOVE, M_TIMEOUT, M_TICK };
struct MgrWorld {
  std::vector<std::unique_ptr<TaskObj>> o;
  std::vector<uint64_t> ids;
  std::vector<int> owner;                   // the thread that adds it
  std::vector<Task::ptr_type> mine, kept;   // the handle its owner adds it by, the handle of the main thread
  std::vector<std::vector<Call>> ops;
  Manager::ptr_type m;
  bool over = false;
  std::atomic<int> bad{0};
};
MgrWorld *MW = nullptr;
constexpr int kNotFound = copp::COPP_EC_NOT_FOUND;
bool is_entry(const Call &k) { return k.what == M_START || k.what == M_RESUME || k.what == M_FIND_START; }
bool is_end(const Call &k) { return k.what == M_KILL || k.what == M_FIND_KILL; }
cotask::EN_TASK_STATUS end_status(const Call &k) {
  return k.arg % 3 == 0 ? cotask::EN_TS_KILLED : k.arg % 3 == 1 ? cotask::EN_TS_TIMEOUT : cotask::EN_TS_CANCELED;
}

void do_mgr(Call &k) {
  MgrWorld &w = *MW;
  size_t i = static_cast<size_t>(k.obj);
  k.made = true;
  k.begin = sched::tick();
  switch (k.what) {
    case M_ADD: {
      Task::ptr_type h = std::move(w.mine[i]);
      w.mine[i].reset();
      k.rc = k.arg ? w.m->add_task(h, k.arg, 0) : w.m->add_task(h);
      break;
    }
    case M_START: k.rc = w.m->start(w.ids[i], token(k.token)); break;
    case M_RESUME: k.rc = w.m->resume(w.ids[i], token(k.token)); break;
    case M_KILL: k.rc = w.m->kill(w.ids[i], end_status(k), token(k.token)); break;
    case M_REMOVE: k.rc = w.m->remove_task(w.ids[i]); break;
    case M_TIMEOUT: k.rc = w.m->set_timeout(w.ids[i], k.arg, 0); break;
    case M_TICK: k.rc = w.m->tick(k.arg, 0); break;
    default: {
      Task::ptr_type h = w.m->find_task(w.ids[i]);
      if (!h) {
        k.rc = kNotFound;
        break;
      }
      if (h->get_id() != w.ids[i]) w.bad.store(5, std::memory_order_relaxed);
      if (k.what == M_FIND_START) k.rc = h->start(token(k.token));
      if (k.what == M_FIND_KILL) k.rc = h->kill(end_status(k), token(k.token));
      break;
    }
  }
  k.end = sched::tick();
}
Call gen_mgr_call(pbt::Ctx &c, size_t no, int &next, bool inner) {
  Call k;
  k.obj = static_cast<int>(c.pick(no));
  if (inner)
    k.what = 1 + static_cast<int>(c.weighted({3, 3, 2, 1, 1, 1, 1}));
  else
    k.what = 1 + static_cast<int>(c.weighted({6, 6, 3, 2, 2, 1, 2, 1}));
  k.token = gen_token(next);
  k.arg = static_cast<int>(c.pick(3));
  if (k.what == M_TIMEOUT) k.arg *= 10;
  return k;
}

void world_mgr(pbt::Ctx &c) {
  MgrWorld w;
  MW = &w;
  int next = 0;
  size_t no = 1 + c.weighted({5, 4, 3, 1}), nt = 2 + c.weighted({4, 3, 1});
  w.m = Manager::create();
  bool keep = !c.chance(1, 3);
#ifdef VP_TSAN
  bool ticks = false;  // the manager's flags are a plain integer
#else
  bool ticks = c.coin();
#endif
  w.ops.resize(nt);
  if (ticks) w.m->tick(1000, 0);
  for (size_t i = 0; i < no; ++i) {
    w.o.emplace_back(new TaskObj());
    TaskObj *x = w.o.back().get();
    size_t ns = 1 + c.pick(4);
    for (size_t k = 0; k < ns; ++k) {
      Step s;
      s.work = static_cast<unsigned>(c.weighted({3, 3, 1})) * 4;
      if (c.chance(1, 6)) {
        s.enter = 1;
        x->tr.inner.push_back(gen_mgr_call(c, no, next, true));
      }
      x->body.steps.push_back(s);
    }
    Task::ptr_type t = Task::create(
        [x](void *p) -> int {
          size_t in = 0;
          Task *self = Task::this_task();
          for (size_t k = 0; k < x->body.steps.size(); ++k) {
            x->tr.tokens.push_back(tokens_of(p));
            work(x->tr, x->body.steps[k]);
            if (x->body.steps[k].enter >= 0 && !MW->over) do_mgr(x->tr.inner[in++]);
            if (Task::this_task() != self) MW->bad.store(1, std::memory_order_relaxed);
            if (k + 1 == x->body.steps.size()) break;
            p = nullptr;
            if (self->yield(&p) != 0) MW->bad.store(2, std::memory_order_relaxed);
          }
          x->tr.finished = true;
          x->ended = sched::tick();
          return 0;
        },
        65536);
    CHECK(t, "(create)");
    w.ids.push_back(t->get_id());
    w.owner.push_back(static_cast<int>(c.pick(nt)));
    w.kept.push_back(keep ? t : Task::ptr_type());
    w.mine.push_back(std::move(t));
  }
  // every thread adds its tasks at some point of its list
  for (size_t t = 0; t < nt; ++t) {
    for (size_t i = 0; i < no; ++i)
      if (w.owner[i] == static_cast<int>(t)) {
        Call k;
        k.what = M_ADD;
        k.obj = static_cast<int>(i);
        k.arg = static_cast<int>(c.weighted({3, 2, 2})) * 10;
        w.ops[t].push_back(k);
        for (size_t n = c.pick(3); n > 0; --n) w.ops[t].push_back(gen_mgr_call(c, no, next, false));
      }
    for (size_t n = 1 + c.pick(5); n > 0; --n) w.ops[t].push_back(gen_mgr_call(c, no, next, false));
  }
  if (ticks) {
    int now = 1000;
    for (size_t n = 1 + c.pick(3); n > 0; --n) {
      Call k;
      k.what = M_TICK;
      k.obj = 0;
      k.arg = now += static_cast<int>(c.pick(15));
      w.ops[0].insert(w.ops[0].begin() + static_cast<long>(c.pick(w.ops[0].size() + 1)), k);
    }
    int prev = 1000;
    for (Call &k : w.ops[0])
      if (k.what == M_TICK) k.arg = prev = std::max(prev, k.arg);
  }
  sched::Plan plan = sched::gen_plan(c, static_cast<unsigned>(nt));
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < nt; ++t)
    bodies.push_back([t, &w]() {
      t_self = static_cast<int>(t);
      for (Call &k : w.ops[t]) do_mgr(k);
      if (Task::this_task() != nullptr) w.bad.store(3, std::memory_order_relaxed);
    });
  sched::run(bodies, plan);
  w.over = true;
  t_self = static_cast<int>(nt);

  CHECK(w.bad.load() != 1, "(a body sees another task as the running one)");
  CHECK(w.bad.load() != 2, "(a running task could not yield)");
  CHECK(w.bad.load() != 3, "(a thread outside of every task sees one as running)");
  CHECK(w.bad.load() != 5, "(a lookup returned another task)");
  std::vector<const Call *> all;
  static const char *const kNames[] = {"add",  "start", "resume", "kill", "find", "find+start", "find+kill", "remove", "set_timeout",
                                       "tick"};
  auto note = [&](const char *who, size_t t, const Call &k) {
    c.log("%s %zu: %s %d, token %d, arg %d -> %d  [%llu, %llu]", who, t, kNames[k.what], k.obj, k.token, k.arg, k.rc,
          static_cast<unsigned long long>(k.begin), static_cast<unsigned long long>(k.end));
    if (k.end == 0) c.fail("an operation did not return");
    all.push_back(&k);
  };
  for (size_t t = 0; t < nt; ++t)
    for (Call &k : w.ops[t]) note("thread", t, k);
  for (size_t i = 0; i < no; ++i)
    for (Call &k : w.o[i]->tr.inner)
      if (k.made) note("inside", i, k);
  bool contended = false, migrated = false, raced = false;
  std::vector<bool> in(no);
  for (size_t i = 0; i < no; ++i) {
    TaskObj &x = *w.o[i];
    std::string got;
    for (int q : x.tr.tokens) got += " " + std::to_string(q);
    c.log("task %zu: %zu steps, tokens%s, %s", i, x.body.steps.size(), got.c_str(), x.tr.finished ? "ended" : "not ended");
    if (x.tr.clash.load()) c.fail("task %zu was run by two threads at a time", i);
    const Call *add = nullptr, *end = nullptr;
    std::vector<const Call *> outs;  // took it out of the manager
    size_t good = 0, steps = x.body.steps.size();
    std::vector<const Call *> ks;
    bool timeouts = false;
    for (const Call *k : all) {
      if (k->what == M_TICK) {
        if (k->rc != 0) c.fail("tick returned %d", k->rc);
        continue;
      }
      if (k->obj != static_cast<int>(i)) continue;
      ks.push_back(k);
      if (k->what == M_ADD) add = k;
      if ((k->what == M_ADD || k->what == M_TIMEOUT) && k->arg > 0 && k->rc == 0) timeouts = true;
      if (is_entry(*k) && k->rc == 0) ++good;
      if (is_end(*k) && k->rc == 0) {
        if (end) c.fail("task %zu was ended twice", i);
        end = k;
      }
      if ((k->what == M_KILL || k->what == M_REMOVE) && k->rc != kNotFound) {
        outs.push_back(k);
        if (outs.size() > 1) c.fail("task %zu was taken out of the manager twice", i);
      }
    }
    if (!add || add->rc != 0) c.fail("task %zu could not be added: %d", i, add ? add->rc : 1);
    // expired by a tick?
    const Call *tick = nullptr;
    bool may_expire = false;
    for (const Call *k : all)
      if (k->what == M_TICK && timeouts) {
        may_expire = true;
        if (!tick || k->begin < tick->begin) tick = k;
      }
    auto entries_before = [&](uint64_t t) {
      size_t n = 0;
      for (const Call *k : ks) n += is_entry(*k) && k->rc == 0 && k->begin < t;
      return n;
    };
    for (const Call *k : ks) {
      if (k->what == M_ADD) continue;
      if (k->rc == kNotFound) {
        bool why = add->end > k->begin || entries_before(k->end) >= steps || (may_expire && tick->begin < k->end);
        for (const Call *q : outs) why = why || (q != k && q->begin < k->end);
        if (end && end != k && end->begin < k->end) why = true;
        if (!why) c.fail("task %zu was not found in its manager though nothing took it out", i);
        continue;
      }
      // it was there
      if (add->begin > k->end) c.fail("task %zu was found before it was added", i);
      for (const Call *q : outs)
        if (q != k && q->end < k->begin) c.fail("task %zu was found after it had been taken out", i);
      if (x.tr.finished) {
        // every operation that may have ended it had returned before this one began
        uint64_t last = 0;
        for (const Call *q : all)
          if (q->what != M_ADD && q->begin < x.ended && x.ended < q->end) last = std::max(last, q->end);
        if (last && last < k->begin) c.fail("task %zu was found after it had ended", i);
      }
      if (k->rc == 0) {
        if (is_entry(*k)) {
          size_t n = static_cast<size_t>(std::count(x.tr.tokens.begin(), x.tr.tokens.end(), k->token));
          if (n != 1) c.fail("the token of a successful entry of task %zu arrived %zu times", i, n);
        }
        continue;
      }
      if (k->rc == COPP_EC_IS_RUNNING && is_entry(*k)) {
        bool why = false;
        for (const Call *q : ks) why = why || (q != k && is_entry(*q) && q->rc == 0 && overlap(*q, *k));
        if (!why) c.fail("task %zu refused an entry as running while nobody was inside", i);
        contended = true;
      } else if (k->rc == COPP_EC_ALREADY_FINISHED && (is_entry(*k) || is_end(*k) || k->what == M_REMOVE)) {
        bool why = entries_before(k->end) >= steps || (may_expire && tick->begin < k->end);
        for (const Call *q : ks)
          why = why || (q != k && (is_end(*q) || q->what == M_REMOVE) && q->rc == 0 && q->begin < k->end);
        if (!why) c.fail("task %zu refused an operation as finished before it was", i);
        raced = true;
      } else {
        c.fail("operation %s on task %zu returned %d", kNames[k->what], i, k->rc);
      }
    }
    // the steps
    size_t other = 0;
    int with = -1;
    for (int q : x.tr.tokens) {
      bool entered = false;
      for (const Call *k : ks) entered = entered || (is_entry(*k) && k->rc == 0 && k->token == q);
      if (entered) continue;
      ++other;
      if (with >= 0 && with != q) c.fail("task %zu was ended with tokens %d and %d", i, with, q);
      with = q;
    }
    bool removed = false;
    for (const Call *q : outs) removed = removed || q->what == M_REMOVE;
    if (other && (end ? with != end->token : (with != 0 || (!removed && !may_expire))))
      c.fail("task %zu was resumed with token %d", i, with);
    if (x.tr.tokens.size() != good + other) c.fail("task %zu: %zu entries, %zu steps", i, good, x.tr.tokens.size());
    if (end && !x.tr.finished) c.fail("task %zu was ended but its body did not run to its end", i);
    if (x.tr.finished && x.tr.tokens.size() != steps) c.fail("task %zu ended after %zu of %zu steps", i, x.tr.tokens.size(), steps);
    if (!x.tr.finished && x.tr.tokens.size() >= steps) c.fail("task %zu did not end", i);
    if (removed && good && !x.tr.finished && !keep) c.fail("task %zu was removed but its body did not run to its end", i);
    long sum = 0;
    for (size_t k = 0; k < x.tr.tokens.size(); ++k) sum += 3 * static_cast<long>(x.body.steps[k].work);
    if (sum != x.tr.sum) c.fail("task %zu: work was lost or done twice", i);
    migrated = migrated || x.tr.migrations > 0;
    // in the manager or not
    Task::ptr_type h = w.m->find_task(w.ids[i]);
    in[i] = static_cast<bool>(h);
    if (h && (x.tr.finished || end || !outs.empty())) c.fail("task %zu is still in the manager", i);
    if (!h && !x.tr.finished && !end && outs.empty()) c.fail("the manager lost task %zu", i);
    if (h) {
      int want = good ? cotask::EN_TS_WAITING : cotask::EN_TS_CREATED;
      if (h->get_status() != want) c.fail("task %zu is in status %d, expected %d", i, static_cast<int>(h->get_status()), want);
    }
    if (w.kept[i]) {
      int st = w.kept[i]->get_status();
      if (end && st != end_status(*end)) c.fail("task %zu is in status %d, expected %d", i, st, static_cast<int>(end_status(*end)));
      if (x.tr.finished && !end && !other && !removed && !may_expire && st != cotask::EN_TS_DONE) c.fail("task %zu ended in status %d", i, st);
      if (w.kept[i]->use_count() != (h ? 3u : 1u)) c.fail("task %zu counts %zu references", i, w.kept[i]->use_count());
    }
  }
  size_t want = static_cast<size_t>(std::count(in.begin(), in.end(), true));
  if (w.m->get_task_size() != want) c.fail("the manager counts %zu tasks, expected %zu", w.m->get_task_size(), want);
  size_t timers = 0;
  for (auto &kv : w.m->get_container()) {
    if (kv.second.timer_node == w.m->get_checkpoints().end()) continue;
    ++timers;
    if (kv.second.timer_node->task_id != kv.first) c.fail("a timer of the manager belongs to another task");
  }
  if (timers != w.m->get_tick_checkpoint_size()) c.fail("the manager has %zu timers for %zu tasks", w.m->get_tick_checkpoint_size(), timers);
  // the rest, by this thread
  for (size_t i = 0; i < no; ++i)
    if (in[i] && c.coin()) {
      for (size_t lim = 0; !w.o[i]->tr.finished; ++lim) {
        int rc = w.m->start(w.ids[i]);
        if (rc != 0) c.fail("task %zu cannot be started after the threads are gone: %d", i, rc);
        if (lim > 100) c.fail("task %zu does not end", i);
      }
      if (w.m->find_task(w.ids[i])) c.fail("task %zu ended but is still in the manager", i);
      in[i] = false;
    }
  w.m.reset();
  for (size_t i = 0; i < no; ++i) {
    TaskObj &x = *w.o[i];
    if (in[i] && !x.tr.finished) c.fail("task %zu was not ended with its manager", i);
    w.kept[i].reset();
    if (!x.tr.tokens.empty() && !x.tr.finished) c.fail("task %zu never ran to its end", i);
  }
  if (stacks().allocs != stacks().frees) c.fail("%zu stacks handed out, %zu given back", stacks().allocs, stacks().frees);
  if (contended) c.label("refused entry");
  if (raced) c.label("operation during the end");
  if (migrated) c.label("continued by another thread");
  c.label("managers");
  if (contended || migrated || raced) c.nontrivial();
  MW = nullptr;
}
}  // namespace

void pbt::setup_process() {
  // one-time initialisation of the library, before threads are preempted
  Task::ptr_type t = Task::create([](void *) { return 0; });
  t->start(nullptr);
}

void pbt::run_case(pbt::Ctx &c) {
  reset_stacks();
  switch (VP_WORLD ? VP_WORLD : 1 + c.weighted({2, 2, 3})) {
    case 1: world_co(c); break;
    case 2: world_task(c); break;
    default: world_mgr(c); break;
  }
}

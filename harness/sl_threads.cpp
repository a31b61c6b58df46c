// C20, second half: stackless tasks of several threads in shared managers.  Every thread works on tasks, callables and
// generators of its own; only the managers are shared.  So whatever the others do, each thread must see exactly what a
// sequential model of its own operations predicts, and in the end the managers hold exactly what every thread left there.
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcopp/utils/errno.h>
#include <libcotask/task_manager.h>
#include <libcotask/task_promise.h>

#include <memory>
#include <string>

#include "pbt.h"
#include "preempt.h"

const pbt::HarnessInfo pbt::info = {
    "sl_threads",
    "a case is a set of threads with generated lists of operations on stackless tasks of their own, which all of them keep "
    "in shared managers, and (in the controlled build) a generated list of preemptions; non-trivial when at least two "
    "threads had tasks in the same manager and a task left a manager while the threads ran",
#ifdef VP_SCHED
    false,
#else
    true,
#endif
    40};

namespace {
using ST = copp::promise_status;
using Gen = copp::generator_future<int>;
using Call = copp::callable_future<int>;
using Task = cotask::task_future<int, void>;
using Manager = cotask::task_manager<Task>;

enum Kind { CREATE, ADD, START, START_ID, SET, TIMEOUT, FIND, KILL_ID, CANCEL_ID, REMOVE_ID, KILL, DROP, TICK, KINDS };
const char *kNames[] = {"create", "add", "start", "start by id", "set", "set_timeout", "find", "kill by id", "cancel by id",
                        "remove by id", "kill", "drop", "tick"};
struct Op {
  Kind k = CREATE;
  size_t task = 0, mgr = 0;
  int arg = 0;
};

constexpr size_t kTasks = 3, kAwaits = 3;
struct Slot {
  std::unique_ptr<Task> h;
  std::unique_ptr<Gen> gens[kAwaits];
  uint64_t id = 0;
  // model
  size_t awaits = 0, pc = 0;
  bool value[kAwaits] = {};
  bool via_call = false, started = false, ended = false;
  ST st = ST::kCreated;
  int mgr = -1;
  bool timer = false;
  time_t due = 0;  // only kept by the thread that ticks
  // what happened
  size_t entered = 0, got = 0, left = 0;
  int seen[kAwaits] = {};
  int want[kAwaits] = {};
  int toks = 0;
};
struct Tok {
  Slot *s;
  explicit Tok(Slot *x) : s(x) { ++s->toks; }
  Tok(const Tok &o) : s(o.s) { ++s->toks; }
  Tok &operator=(const Tok &) = delete;
  ~Tok() { --s->toks; }
};
Call inner(Slot *s, size_t i, Tok) {
  int v = co_await *s->gens[i];
  co_return v;
}
Task body(Slot *s, Tok) {
  ++s->entered;
  for (size_t i = 0; i < s->awaits; ++i) {
    int v = s->via_call ? co_await inner(s, i, Tok(s)) : co_await *s->gens[i];
    s->seen[s->got++] = v;
  }
  ++s->left;
  co_return 100;
}

constexpr size_t kMgrs = 2;
struct World {
  Manager::ptr_type m[kMgrs];
};

struct Worker {
  World *w;
  std::vector<Op> ops;
  Slot s[kTasks];
  std::string bad;
  size_t left_mgr = 0;
  time_t now = 0, last[kMgrs] = {};  // of the thread that ticks: nobody else moves the managers' clocks
  size_t expired = 0;

  void expect(bool ok, const Op &o, const char *what, long got, long want) {
    if (ok || !bad.empty()) return;
    sched::Books b;
    char buf[200];
    snprintf(buf, sizeof buf, "%s of task %zu: %s is %ld, expected %ld", kNames[o.k], o.task, what, got, want);
    bad = buf;
  }
  // ---- model
  void m_leave(Slot &x) {
    if (x.mgr >= 0) ++left_mgr;
    x.mgr = -1;
    x.timer = false;
  }
  void m_run(Slot &x, bool killed, bool waits = false) {
    while (x.pc < x.awaits) {
      if (x.value[x.pc]) x.want[x.pc] = 1000 + static_cast<int>(x.pc);
      // a coroutine that has been ended does not wait for a generator any more: that counts as killed
      else if (killed) x.want[x.pc] = -static_cast<int>(waits || x.via_call ? x.st : ST::kKilled);
      else return;
      waits = false;
      ++x.pc;
    }
    x.ended = true;
    if (!killed) x.st = ST::kDone;
    m_leave(x);
  }
  void m_kill(Slot &x, ST st) {
    if (x.st >= ST::kDone) return;
    bool waits = x.started && !x.ended;
    x.st = st;
    if (waits) m_run(x, true, true);
  }
  void m_start(Slot &x) {
    if (x.st != ST::kCreated) return;
    x.started = true;
    x.st = ST::kRunning;
    m_run(x, false);
  }
  // ---- the real thing
  void compare(const Op &o) {
    Slot &x = s[o.task];
    expect(x.entered == (x.started ? 1u : 0u), o, "number of starts", static_cast<long>(x.entered), x.started);
    expect(x.got == x.pc, o, "number of values received", static_cast<long>(x.got), static_cast<long>(x.pc));
    for (size_t i = 0; i < x.pc; ++i) expect(x.seen[i] == x.want[i], o, "value received", x.seen[i], x.want[i]);
    expect(x.left == (x.ended ? 1u : 0u), o, "number of ends", static_cast<long>(x.left), x.ended);
    if (x.h) expect(x.h->get_status() == x.st, o, "status", static_cast<long>(x.h->get_status()), static_cast<long>(x.st));
  }
  void step(const Op &o) {
    Slot &x = s[o.task];
    Manager &m = *w->m[o.mgr];
    bool in = x.mgr == static_cast<int>(o.mgr);
    const int no = copp::COPP_EC_NOT_FOUND;
    int rc = 0, want = 0;
    if (o.k == CREATE) {
      if (x.id) return;
      x.awaits = static_cast<size_t>(o.arg) % (kAwaits + 1);
      x.via_call = o.arg >= 8;
      for (size_t i = 0; i < x.awaits; ++i) x.gens[i].reset(new Gen(nullptr));
      x.h.reset(new Task(body(&x, Tok(&x))));
      x.id = x.h->get_id();
      if (!x.id) expect(false, o, "id", 0, 1);
      return;
    }
    if (!x.id) return;
    switch (o.k) {
      case ADD:
        if (!x.h) return;
        want = x.st >= ST::kDone ? copp::COPP_EC_TASK_IS_EXITING
               : in              ? copp::COPP_EC_ALREADY_EXIST
               : x.mgr >= 0      ? copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER
                                 : 0;
        if (want == 0) {
          x.mgr = static_cast<int>(o.mgr);
          x.timer = o.arg > 0;
          x.due = last[o.mgr] + o.arg;
        }
        rc = m.add_task(*x.h, o.arg, 0);
        break;
      case START:
        if (!x.h) return;
        m_start(x);
        x.h->start();
        break;
      case START_ID:
        want = in ? 0 : no;
        if (in) {
          m_start(x);
          if (x.st >= ST::kDone) {  // a task that has ended does not stay
            m_leave(x);
            if (!x.h && !x.ended) m_drop(x);
          }
        }
        rc = m.start(x.id);
        break;
      case SET: {
        size_t i = static_cast<size_t>(o.arg) % kAwaits;
        if (i >= x.awaits || x.value[i]) return;
        x.value[i] = true;
        bool held = x.h || x.mgr >= 0;
        if (held && x.started && !x.ended && x.pc == i) m_run(x, false);
        x.gens[i]->get_context()->set_value(1000 + static_cast<int>(i));
        break;
      }
      case TIMEOUT:
        want = in ? 0 : no;
        if (in) x.timer = o.arg > 0;
        if (in) x.due = last[o.mgr] + o.arg;
        rc = m.set_timeout(x.id, o.arg, 0);
        break;
      case FIND: {
        const Task *f = m.find_task(x.id);
        rc = f != nullptr;
        want = in;
        if (f && in && f->get_id() != x.id) expect(false, o, "id of the task found", static_cast<long>(f->get_id()), static_cast<long>(x.id));
        break;
      }
      case KILL_ID:
      case CANCEL_ID:
      case REMOVE_ID: {
        want = in ? 0 : no;
        ST st = o.k == CANCEL_ID ? ST::kCancle : ST::kKilled;
        if (in) {
          m_leave(x);
          if (o.k != REMOVE_ID || x.started) m_kill(x, st);
          if (!x.h && !x.ended) m_drop(x);
        }
        rc = o.k == KILL_ID ? m.kill(x.id) : o.k == CANCEL_ID ? m.cancel(x.id) : m.remove_task(x.id);
        break;
      }
      case KILL:
        if (!x.h) return;
        m_kill(x, ST::kTimeout);
        x.h->kill(ST::kTimeout);
        break;
      case DROP:
        if (!x.h) return;
        if (x.mgr < 0 && !x.ended) m_drop(x);
        x.h.reset();
        break;
      case TICK:
        now += 1 + o.arg;
        for (Slot &y : s) {
          if (y.mgr != static_cast<int>(o.mgr) || !y.timer) continue;
          if (last[o.mgr] == 0) y.due += now;  // the first tick starts the clock
          else if (y.due < now) {
            ++expired;
            m_leave(y);
            m_kill(y, ST::kTimeout);
            if (!y.h && !y.ended) m_drop(y);
          }
        }
        last[o.mgr] = now;
        rc = m.tick(now, 0);
        for (size_t i = 0; i < kTasks; ++i) {
          Op p = o;
          p.task = i;
          if (s[i].id) compare(p);
        }
        break;
      default:
        return;
    }
    expect(rc == want, o, "result", rc, want);
    compare(o);
  }
  // the last handle goes: the body is ended as killed
  void m_drop(Slot &x) {
    bool waits = x.started;
    x.started = true;
    if (x.st < ST::kDone) x.st = ST::kKilled;
    m_run(x, true, waits);
  }
  void run() {
    for (auto &o : ops) {
      if (!bad.empty()) return;
      step(o);
    }
  }
};
}  // namespace

void pbt::setup_process() {
  // one-time initialisation of the library, before threads are preempted
  Slot s;
  Task t = body(&s, Tok(&s));
  t.start();
}

void pbt::run_case(pbt::Ctx &c) {
  World w;
  size_t nm = 1 + c.weighted({3, 1});
  for (size_t i = 0; i < kMgrs; ++i) w.m[i] = Manager::create();
  size_t nt = 2 + c.weighted({4, 2, 1});
  std::vector<std::unique_ptr<Worker>> ws;
#ifdef VP_TSAN
  size_t ticker = nt;  // the manager's flags are a plain integer
#else
  size_t ticker = c.coin() ? c.pick(nt) : nt;
#endif
  for (size_t t = 0; t < nt; ++t) {
    ws.emplace_back(new Worker());
    Worker &x = *ws.back();
    x.w = &w;
    x.now = 1000;
    size_t ntask = 1 + c.pick(kTasks);
    for (size_t i = 0; i < ntask; ++i) {
      Op o;
      o.k = CREATE;
      o.task = i;
      o.arg = static_cast<int>(c.draw(16));
      x.ops.push_back(o);
    }
    pbt::Loop loop(c, 10, 30);
    while (loop.next()) {
      Op o;
      o.k = static_cast<Kind>(1 + c.weighted({8, 3, 5, 6, 3, 3, 2, 2, 2, 1, 2, t == ticker ? 6u : 0u}));
      o.task = c.pick(ntask);
      o.mgr = c.pick(nm);
      if (o.k != ADD && o.k != TIMEOUT) o.arg = static_cast<int>(c.draw(3));
      else if (t == ticker && c.coin()) o.arg = 1 + static_cast<int>(c.draw(4));
      else o.arg = c.coin() ? 1000000 : 0;
      x.ops.push_back(o);
    }
    for (auto &o : x.ops) c.log("thread %zu: %s task %zu manager %zu arg %d", t, kNames[o.k], o.task, o.mgr, o.arg);
  }
  sched::Plan plan = sched::gen_plan(c, static_cast<unsigned>(nt));
  std::vector<std::function<void()>> jobs;
  for (auto &x : ws) {
    Worker *p = x.get();
    jobs.push_back([p] { p->run(); });
  }
  sched::run(jobs, plan);
  size_t left = 0, users[kMgrs] = {}, tasks[kMgrs] = {}, timers[kMgrs] = {};
  for (size_t t = 0; t < nt; ++t) {
    Worker &x = *ws[t];
    if (!x.bad.empty()) c.fail("thread %zu: %s", t, x.bad.c_str());
    left += x.left_mgr;
    bool use[kMgrs] = {};
    for (auto &o : x.ops)
      if (o.k == ADD) use[o.mgr] = true;
    for (size_t i = 0; i < kMgrs; ++i) users[i] += use[i];
    for (auto &s : x.s)
      if (s.mgr >= 0) {
        ++tasks[s.mgr];
        if (s.timer) ++timers[s.mgr];
        const Task *f = w.m[s.mgr]->find_task(s.id);
        if (!f) c.fail("a manager lost task %llu of thread %zu", static_cast<unsigned long long>(s.id), t);
        if (s.h && f->get_context() != s.h->get_context()) c.fail("a manager holds another task under the id of one of thread %zu", t);
      }
  }
  for (size_t i = 0; i < kMgrs; ++i) {
    if (w.m[i]->get_task_size() != tasks[i]) c.fail("manager %zu holds %zu tasks, expected %zu", i, w.m[i]->get_task_size(), tasks[i]);
    if (w.m[i]->get_tick_checkpoint_size() != timers[i])
      c.fail("manager %zu holds %zu timers, expected %zu", i, w.m[i]->get_tick_checkpoint_size(), timers[i]);
    for (auto &kv : w.m[i]->get_container()) {
      if (kv.second.timer_node == w.m[i]->get_checkpoints().end()) continue;
      if (kv.second.timer_node->task_id != kv.first) c.fail("a timer of manager %zu belongs to another task", i);
    }
  }
  // the end
  for (size_t i = 0; i < kMgrs; ++i) w.m[i].reset();
  for (size_t t = 0; t < nt; ++t)
    for (auto &s : ws[t]->s) {
      if (s.mgr >= 0 && s.started && !s.left) c.fail("a task of thread %zu was not ended with its manager", t);
      s.h.reset();
      if (s.id && (s.entered != 1 || s.left != 1)) c.fail("a task of thread %zu ran %zu times and ended %zu times", t, s.entered, s.left);
      if (s.toks) c.fail("%d locals of a task of thread %zu were not destroyed", s.toks, t);
    }
  bool shared = false;
  for (size_t i = 0; i < kMgrs; ++i) shared = shared || users[i] > 1;
  if (shared) c.label("shared manager");
  if (ticker < nt) c.label("ticked");
  if (ticker < nt && ws[ticker]->expired) c.label("timed out while other threads work");
  if (shared && left) c.nontrivial();
}

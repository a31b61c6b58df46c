// C04, the release half, with threads: generated threads copy, move, swap, drop and use references to shared coroutines and
// tasks.  Whichever thread drops the last reference, the stack, the callable and the action object are released exactly once,
// and not while a reference is left.
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcotask/task.h>

#include <atomic>
#include <memory>
#include <mutex>

#include "common.h"
#include "preempt.h"

const pbt::HarnessInfo pbt::info = {
    "mem_threads",
    "a case is a few coroutines and tasks in generated states, threads with generated operations on references to them, and (in "
    "the controlled build) a generated list of preemptions; non-trivial when an object was released while the threads ran, after "
    "at least two of them had held references to it",
#ifdef VP_SCHED
    false,
#else
    true,
#endif
    30};

namespace {
struct Obj;
struct Blk {
  void *base;
  size_t size;
  Obj *owner;
};
struct Stacks {
  std::mutex mu;
  std::map<void *, Blk> live;
  Obj *next_owner = nullptr;
  size_t allocs = 0, frees = 0;
};
Stacks &stacks() {
  static Stacks s;
  return s;
}
struct Obj {
  size_t id = 0;
  bool is_task = false;
  unsigned steps = 1;
  // relaxed: they order nothing
  std::atomic<int> callables{0};  // callable objects alive
  std::atomic<int> made{0};
  std::atomic<int> stack_freed{0};
  std::atomic<int> early{0};
  std::atomic<int> ends{0};
  std::atomic<bool> running{false};  // the threads are running
  std::atomic<bool> freed_in_run{false};
};
// the callable or action object
struct Tok {
  Obj *o;
  std::unique_ptr<unsigned char[]> heap;  // a double release shows
  unsigned char fill[40];
  explicit Tok(Obj *x) : o(x), heap(new unsigned char[16]) { in(); }
  Tok(const Tok &r) : o(r.o), heap(new unsigned char[16]) { in(); }
  Tok(Tok &&r) noexcept : o(r.o), heap(new unsigned char[16]) { in(); }
  Tok &operator=(const Tok &) = delete;
  ~Tok() { o->callables.fetch_sub(1, std::memory_order_relaxed); }
  void in() {
    o->callables.fetch_add(1, std::memory_order_relaxed);
    o->made.fetch_add(1, std::memory_order_relaxed);
    memset(fill, 0x33, sizeof(fill));
    heap[0] = 0x44;
  }
  bool good() const { return fill[0] == 0x33 && fill[39] == 0x33 && heap[0] == 0x44; }
};
struct MtAlloc {
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    sched::Books b;
    std::lock_guard<std::mutex> g(stacks().mu);
    void *p = nullptr;
    size = (size + 63) & ~static_cast<size_t>(63);
    if (posix_memalign(&p, 64, size) != 0) abort();
    ctx.size = size;
    ctx.sp = static_cast<char *>(p) + size;
    stacks().live[ctx.sp] = {p, size, stacks().next_owner};
    ++stacks().allocs;
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    sched::Books b;
    std::lock_guard<std::mutex> g(stacks().mu);
    auto it = stacks().live.find(ctx.sp);
    if (it == stacks().live.end()) pbt::cur().fail("a stack was released twice");
    if (it->second.size != ctx.size) pbt::cur().fail("a stack was released with another size than it was handed out with");
    Obj *o = it->second.owner;
    if (o->callables.load(std::memory_order_relaxed) != 0) pbt::cur().fail("the stack of #%zu was released before its callable", o->id);
    o->stack_freed.fetch_add(1, std::memory_order_relaxed);
    if (o->running.load(std::memory_order_relaxed)) o->freed_in_run.store(true, std::memory_order_relaxed);
    free(it->second.base);
    stacks().live.erase(it);
    ++stacks().frees;
  }
};
void reset_stacks() {
  for (auto &kv : stacks().live) free(kv.second.base);
  stacks().live.clear();
  stacks().allocs = stacks().frees = 0;
}

using Co = copp::coroutine_context_container<MtAlloc>;
struct Macro {
  using stack_allocator_type = MtAlloc;
  using coroutine_type = Co;
  using value_type = int;
};
using Task = cotask::task<Macro>;

// a place for a reference: to a coroutine, to a task, or to the coroutine of a task
struct Slot {
  Obj *o = nullptr;
  Co::ptr_type co;
  Task::ptr_type task;
};

int body(Tok &t) {
  Obj *o = t.o;
  for (unsigned k = 0; k < o->steps; ++k) {
    if (!t.good()) pbt::cur().fail("the callable of #%zu was overwritten while it runs", o->id);
    if (o->is_task) cotask::this_task::get_task()->yield();
    else copp::this_coroutine::yield();
  }
  if (!t.good()) pbt::cur().fail("the callable of #%zu was overwritten while it runs", o->id);
  o->ends.fetch_add(1, std::memory_order_relaxed);
  return 7;
}

enum Op { COPY, MOVE, DROP, SWAP, ENTER, LOOK, INNER, RAW, SELF, NOPS };
struct Do {
  Op op;
  size_t a, b;
};
struct Thread {
  std::vector<Slot> s;
  std::vector<Do> ops;
  bool drops_rest = false;
};

void look(const Slot &x) {
  if (!x.co && !x.task) return;
  // this reference is alive: nothing of what it keeps has gone
  Obj *o = x.o;
  if (o->stack_freed.load(std::memory_order_relaxed) != 0) pbt::cur().fail("the stack of #%zu was released while a reference is left", o->id);
  if ((x.task || !o->is_task) && o->callables.load(std::memory_order_relaxed) < 1)
    pbt::cur().fail("the callable of #%zu was released while a reference is left", o->id);
}
SCHED_RAW void clear(Slot &x) {
  look(x);
  x.co.reset();
  x.task.reset();
}
void step(std::vector<Slot> &s, const Do &d) {
  Slot &a = s[d.a], &b = s[d.b];
  look(a);
  switch (d.op) {
    case COPY: {
      Slot t = a;
      b = t;
      break;
    }
    case MOVE:
      if (&a == &b) break;
      b.o = a.o;
      b.co = std::move(a.co);
      b.task = std::move(a.task);
      break;
    case DROP: clear(a); break;
    case SWAP: std::swap(a.o, b.o); a.co.swap(b.co); a.task.swap(b.task); break;
    case ENTER:
      if (a.task) {
        if (a.task->start(nullptr) != 0) a.task->resume(nullptr);
      } else if (a.co && !a.o->is_task) a.co->resume();
      break;
    case INNER:
      if (a.task) {
        Co::ptr_type c = a.task->get_coroutine_context();
        if (&a == &b) {
          a.co = c;  // holds both
        } else {
          b.o = a.o;
          b.task.reset();
          b.co = c;
        }
      }
      break;
    case RAW:
      if (a.task) {
        Task::ptr_type t(a.task.get());
        a.task = t;
      } else if (a.co) {
        Co::ptr_type t(a.co.get());
        a.co.swap(t);
      }
      break;
    case SELF:
      // assignments which change nothing
      b.task = *&b.task;
      b.co = *&b.co;
      break;
    default: break;
  }
  look(b);
}

void threads_of(pbt::Ctx &c) {
  size_t no = 1 + c.weighted({5, 3, 1}), nt = 2 + c.weighted({5, 3, 1}), ns = no + 2;
  std::vector<std::unique_ptr<Obj>> o;
  std::vector<Slot> mine(no);
  for (size_t i = 0; i < no; ++i) {
    o.emplace_back(new Obj);
    Obj *x = o.back().get();
    x->id = i;
    x->is_task = c.coin();
    x->steps = static_cast<unsigned>(c.pick(4));
    stacks().next_owner = x;
    Slot &m = mine[i];
    m.o = x;
    if (x->is_task) {
      m.task = c.coin() ? Task::create([t = Tok(x)](void *) mutable { return body(t); }, 32768)
                        : Task::create([t = Tok(x)](void *) mutable { return body(t); }, 32768, 200);
      CHECK(m.task, "(create)");
    } else {
      m.co = Co::create(Co::callback_type([t = Tok(x)](void *) mutable { return body(t); }), 32768, c.coin() ? 0 : 100, c.coin() ? 0 : 40);
      CHECK(m.co, "(create)");
    }
    CHECK_EQ(x->callables.load(), 1, "(after it was created)");
    for (size_t k = c.pick(x->steps + 2); k > 0; --k) step(mine, {ENTER, i, i});
    c.log("#%zu: %s of %u steps, %d done", i, x->is_task ? "task" : "coroutine", x->steps, x->ends.load());
  }
  std::vector<Thread> t(nt);
  std::vector<int> holders(no, 0);
  for (size_t k = 0; k < nt; ++k) {
    t[k].s.resize(ns);
    for (size_t i = 0; i < no; ++i)
      if (c.chance(7, 8)) {
        t[k].s[i] = mine[i];
        ++holders[i];
      }
    pbt::Loop l(c, 5, 12);
    while (l.next()) {
      Do d;
      d.op = static_cast<Op>(c.weighted({3, 2, 4, 1, 3, 1, 2, 1, 1}));
      d.a = c.draw(d.op == DROP || d.op == ENTER ? no : ns);
      d.b = c.draw(ns);
      t[k].ops.push_back(d);
    }
    t[k].drops_rest = c.chance(7, 8);
  }
  bool keep = c.chance(1, 6);
  size_t kept = keep ? 1 + c.pick(no) : 0;
  sched::Plan plan = sched::gen_plan(c, static_cast<unsigned>(nt));
  for (size_t i = kept; i < no; ++i) {
    mine[i].co.reset();
    mine[i].task.reset();
    bool gone = holders[i] == 0;
    CHECK_EQ(o[i]->stack_freed.load(), gone ? 1 : 0, "(#%zu, held by %d threads)", i, holders[i]);
  }
  std::vector<std::function<void()>> bodies;
  for (size_t k = 0; k < nt; ++k)
    bodies.push_back([&t, k]() {
      for (const Do &d : t[k].ops) step(t[k].s, d);
      if (t[k].drops_rest)
        for (Slot &x : t[k].s) clear(x);
    });
  for (auto &x : o) x->running.store(true);
  sched::run(bodies, plan);
  for (auto &x : o) x->running.store(false);
  // what is left: alive, and released by its last reference
  for (size_t k = 0; k < nt; ++k)
    for (Slot &x : t[k].s) look(x);
  for (Slot &x : mine) look(x);
  if (c.coin()) t.clear();
  for (Slot &x : mine) clear(x);
  t.clear();
  bool raced = false;
  for (size_t i = 0; i < no; ++i) {
    CHECK_EQ(o[i]->callables.load(), 0, "(callables of #%zu left behind)", i);
    CHECK_EQ(o[i]->stack_freed.load(), 1, "(the stack of #%zu)", i);
    raced = raced || (o[i]->freed_in_run.load() && holders[i] > 1);
  }
  CHECK_EQ(stacks().allocs, stacks().frees, "(stacks)");
  if (raced) {
    c.nontrivial();
    c.label("released while the threads ran");
  }
  if (keep) c.label("a reference outlives the threads");
}
}  // namespace

void pbt::setup_process() {
  // one-time initialisation of the library, before threads are preempted
  cotask::task<>::ptr_type t = cotask::task<>::create([](void *) { return 0; });
  t->start(nullptr);
}

void pbt::run_case(pbt::Ctx &c) {
  reset_stacks();
  threads_of(c);
}

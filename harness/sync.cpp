// C19: spin lock, lock guards, intrusive pointer, the atomic integers they are made of.
#include <libcopp/utils/atomic_int_type.h>
#include <libcopp/utils/intrusive_ptr.h>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>

#include <atomic>
#include <deque>
#include <functional>
#include <optional>
#include <sstream>

#include "common.h"
#include "preempt.h"

const pbt::HarnessInfo pbt::info = {
    "sync",
    "a case is a history of guard operations over counting locks, of intrusive-pointer operations over counted objects, "
    "of operations on the spin lock or an atomic integer against a plain model, or a program for several threads that "
    "share locks and counted objects; non-trivial when a guard moved or failed to acquire, an object had two owners, or "
    "at least two threads contended",
#ifdef VP_TSAN
    true,
#else
    false,
#endif
    30};
void pbt::setup_process() {}

namespace {
using namespace copp::util;  // NOLINT
using copp::util::lock::lock_holder;

// ---------------------------------------------------------------------------------------------- guards
struct Mock {
  int held = 0, readers = 0, writers = 0;
  void lock() {
    CHECK(held == 0 && readers == 0 && writers == 0, "(locked twice)");
    ++held;
  }
  bool try_lock() {
    if (held || readers || writers) return false;
    ++held;
    return true;
  }
  void unlock() {
    CHECK(held > 0, "(a lock that is not held was released)");
    --held;
  }
  bool try_unlock() {
    CHECK(held > 0, "(a lock that is not held was released)");
    --held;
    return true;
  }
  void read_lock() {
    CHECK(held == 0 && writers == 0);
    ++readers;
  }
  void read_unlock() {
    CHECK(readers > 0, "(a read lock that is not held was released)");
    --readers;
  }
  void write_lock() {
    CHECK(held == 0 && readers == 0 && writers == 0);
    ++writers;
  }
  void write_unlock() {
    CHECK(writers > 0, "(a write lock that is not held was released)");
    --writers;
  }
};

using HLock = lock_holder<Mock>;
using HTry = lock_holder<Mock, copp::util::lock::detail::default_try_lock_action<Mock>>;
using HTryUn = lock_holder<Mock, copp::util::lock::detail::default_try_lock_action<Mock>,
                           copp::util::lock::detail::default_try_unlock_action<Mock>>;
using HRead = copp::util::lock::read_lock_holder<Mock>;
using HWrite = copp::util::lock::write_lock_holder<Mock>;

template <class H>
struct Family {
  std::vector<std::optional<H>> slot{4};
  std::vector<int> own{-1, -1, -1, -1};  // lock index or -1
};

// kind: 0 exclusive, 1 read, 2 write
template <class H>
void guard_ops(pbt::Ctx &c, Family<H> &f, std::vector<Mock> &locks, int kind, bool trying, bool *interesting) {
  size_t i = c.pick(4), j = c.pick(4);
  switch (c.weighted({4, 2, 3, 2, 2, 1})) {
    case 0: {
      size_t l = c.pick(locks.size());
      Mock &m = locks[l];
      bool free = m.held == 0 && m.readers == 0 && m.writers == 0;
      if (kind == 1) free = m.held == 0 && m.writers == 0;
      if (f.slot[i]) break;
      if (!free && !trying) break;
      f.slot[i].emplace(m);
      f.own[i] = free ? static_cast<int>(l) : -1;
      c.log("kind %d: guard %zu on lock %zu -> %d", kind, i, l, free);
      if (!free) *interesting = true;
      break;
    }
    case 1: {
      if (!f.slot[i] || f.slot[j]) break;
      c.log("kind %d: move guard %zu into new %zu", kind, i, j);
      f.slot[j].emplace(std::move(*f.slot[i]));
      f.own[j] = f.own[i];
      f.own[i] = -1;
      *interesting = true;
      break;
    }
    case 2: {
      if (!f.slot[i] || !f.slot[j]) break;
      c.log("kind %d: move-assign guard %zu = %zu", kind, j, i);
      *f.slot[j] = std::move(*f.slot[i]);
      if (i != j) {
        f.own[j] = f.own[i];
        f.own[i] = -1;
      }
      *interesting = true;
      break;
    }
    case 3: {
      if (!f.slot[i]) break;
      c.log("kind %d: reset guard %zu", kind, i);
      f.slot[i]->reset();
      f.own[i] = -1;
      break;
    }
    case 4: {
      if (!f.slot[i]) break;
      c.log("kind %d: destroy guard %zu", kind, i);
      f.slot[i].reset();
      f.own[i] = -1;
      break;
    }
    default: break;
  }
  for (size_t k = 0; k < 4; ++k)
    if (f.slot[k]) CHECK(f.slot[k]->is_available() == (f.own[k] >= 0), "(is_available of guard %zu)", k);
}

void guards(pbt::Ctx &c) {
  std::vector<Mock> locks(3);
  bool interesting = false;
  {
    Family<HLock> a;
    Family<HTry> b;
    Family<HTryUn> d;
    Family<HRead> r;
    Family<HWrite> w;
    pbt::Loop loop(c, 20, 100);
    while (loop.next()) {
      switch (c.pick(5)) {
        case 0: guard_ops(c, a, locks, 0, false, &interesting); break;
        case 1: guard_ops(c, b, locks, 0, true, &interesting); break;
        case 2: guard_ops(c, d, locks, 0, true, &interesting); break;
        case 3: guard_ops(c, r, locks, 1, false, &interesting); break;
        default: guard_ops(c, w, locks, 2, false, &interesting); break;
      }
      for (size_t l = 0; l < locks.size(); ++l) {
        int ex = 0, rd = 0, wr = 0;
        for (size_t k = 0; k < 4; ++k) {
          ex += (a.own[k] == static_cast<int>(l)) + (b.own[k] == static_cast<int>(l)) + (d.own[k] == static_cast<int>(l));
          rd += r.own[k] == static_cast<int>(l);
          wr += w.own[k] == static_cast<int>(l);
        }
        CHECK(locks[l].held == ex && locks[l].readers == rd && locks[l].writers == wr,
              "(lock %zu is held %d/%d/%d times, its guards say %d/%d/%d)", l, locks[l].held, locks[l].readers,
              locks[l].writers, ex, rd, wr);
      }
    }
  }
  for (auto &l : locks) CHECK(l.held == 0 && l.readers == 0 && l.writers == 0, "(a guard died without releasing)");
  if (interesting) c.nontrivial();
}

void spin(pbt::Ctx &c) {
  copp::util::lock::spin_lock s;
  bool held = false;
  std::optional<lock_holder<copp::util::lock::spin_lock>> g;
  size_t n = 0;
  pbt::Loop loop(c, 16, 60);
  while (loop.next()) {
    ++n;
    switch (c.pick(6)) {
      case 0: {
        bool r = s.try_lock();
        CHECK(r == !held, "(try_lock on a %s lock)", held ? "held" : "free");
        held = true;
        break;
      }
      case 1:
        if (!g) {
          s.unlock();
          held = false;
        }
        break;
      case 2:
        if (!g) {
          bool r = s.try_unlock();
          CHECK(r == held);
          held = false;
        }
        break;
      case 3:
        if (!held) {
          s.lock();
          held = true;
        }
        break;
      case 4:
        if (!held && !g) {
          g.emplace(s);
          held = true;
        }
        break;
      default:
        if (g) {
          g.reset();
          held = false;
        }
        break;
    }
    CHECK(s.is_locked() == held);
  }
  if (n > 5) c.nontrivial();
}

// ---------------------------------------------------------------------------------------------- intrusive pointer
struct Base;
struct Registry {
  std::map<const void *, int> alive;  // object -> index
  size_t made = 0, gone = 0;
};
Registry &reg() {
  static Registry r;
  return r;
}
struct Base {
  LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_DECL(Base)
 public:
  int id;
  uint64_t payload[3] = {1, 2, 3};
  Base() {
    LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_INIT();
    id = static_cast<int>(++reg().made);
    reg().alive[this] = id;
  }
  virtual ~Base() {
    CHECK(reg().alive.count(this) == 1, "(an object was destroyed twice)");
    reg().alive.erase(this);
    ++reg().gone;
    id = -1;
  }
};
void intrusive_ptr_add_ref(Base *p);
void intrusive_ptr_release(Base *p);
LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DEFI(Base)
struct Derived : Base {
  uint64_t more = 7;
};
using PB = intrusive_ptr<Base>;
using PD = intrusive_ptr<Derived>;

void pointers(pbt::Ctx &c) {
  reg() = Registry();
  std::vector<PB> b(4);
  std::vector<PD> d(3);
  std::vector<Base *> mb(4, nullptr), md(3, nullptr);
  std::map<Base *, size_t> manual;  // references owned by hand (detached)
  bool shared = false;
  auto verify = [&] {
    std::map<Base *, size_t> want = manual;
    for (auto *p : mb)
      if (p) ++want[p];
    for (auto *p : md)
      if (p) ++want[p];
    for (auto it = want.begin(); it != want.end();) it = it->second == 0 ? want.erase(it) : std::next(it);
    CHECK(reg().alive.size() == want.size(), "(%zu objects alive, %zu are referred to)", reg().alive.size(), want.size());
    for (auto &kv : want) {
      CHECK(reg().alive.count(kv.first) == 1, "(an object was destroyed while a pointer refers to it)");
      CHECK(kv.first->use_count() == kv.second, "(use count %zu with %zu owners)", kv.first->use_count(), kv.second);
      if (kv.second > 1) shared = true;
    }
    for (size_t i = 0; i < 4; ++i) CHECK(b[i].get() == mb[i], "(pointer b%zu)", i);
    for (size_t i = 0; i < 3; ++i) CHECK(d[i].get() == md[i], "(pointer d%zu)", i);
  };
  {
    pbt::Loop loop(c, 24, 120);
    while (loop.next()) {
      size_t i = c.pick(4), j = c.pick(4), k = c.pick(3), l = c.pick(3);
      size_t op = c.pick(25);
      c.log("op %zu i%zu j%zu k%zu l%zu", op, i, j, k, l);
      switch (op) {
        case 0: {
          Derived *o = new Derived();
          PD p(o);
          d[k] = p;
          md[k] = o;
          break;
        }
        case 1: {
          Base *o = c.coin() ? new Base() : new Derived();
          b[i] = PB(o);
          mb[i] = o;
          break;
        }
        case 2: b[i] = b[j]; mb[i] = mb[j]; break;
        case 3: d[k] = d[l]; md[k] = md[l]; break;
        case 4: b[i] = d[k]; mb[i] = md[k]; break;
        case 5: {  // move assign
          b[i] = std::move(b[j]);
          if (i != j) {  // moved onto itself it still refers to its object
            mb[i] = mb[j];
            mb[j] = nullptr;
          }
          break;
        }
        case 6: {
          PB t(std::move(d[k]));
          Base *x = md[k];
          md[k] = nullptr;
          CHECK(t.get() == x && d[k].get() == nullptr);
          b[i] = t;
          mb[i] = x;
          break;
        }
        case 7: {
          PB t(b[i]);
          PB u(std::move(t));
          CHECK(!t && u.get() == mb[i]);
          PB v(d[k]);
          CHECK(v.get() == md[k]);
          break;
        }
        case 8: b[i].reset(); mb[i] = nullptr; break;
        case 9: d[k].reset(); md[k] = nullptr; break;
        case 10: {
          Base *o = new Base();
          b[i].reset(o);
          mb[i] = o;
          break;
        }
        case 11: b[i].reset(mb[i]); break;  // reset to the object it already owns
        case 12: {  // detach, owned by hand
          Base *o = b[i].detach();
          CHECK(o == mb[i]);
          mb[i] = nullptr;
          if (o) ++manual[o];
          break;
        }
        case 13: {  // give a hand-owned reference back
          for (auto &kv : manual)
            if (kv.second) {
              --kv.second;
              if (c.coin())
                b[i].reset(kv.first, false);
              else
                b[i] = PB(kv.first, false);
              mb[i] = kv.first;
              break;
            }
          break;
        }
        case 14: {
          std::unique_ptr<Derived> u(new Derived());
          Base *o = u.get();
          b[i] = std::move(u);
          CHECK(!u);
          mb[i] = o;
          break;
        }
        case 15: b[i].swap(b[j]); std::swap(mb[i], mb[j]); break;
        case 16: swap(d[k], d[l]); std::swap(md[k], md[l]); break;
        case 17: {
          PD t = static_pointer_cast<Derived>(PB(d[k]));
          d[l] = t;
          md[l] = md[k];
          break;
        }
        case 18: {
#if LIBCOPP_MACRO_ENABLE_RTTI
          PD t = dynamic_pointer_cast<Derived>(b[i]);
#else
          PD t(dynamic_cast<Derived *>(b[i].get()));
#endif
          Base *want = dynamic_cast<Derived *>(mb[i]);
          CHECK(t.get() == want);
          d[l] = t;
          md[l] = want;
          break;
        }
        case 19: {
          CHECK((b[i] == b[j]) == (mb[i] == mb[j]));
          CHECK((b[i] != b[j]) == (mb[i] != mb[j]));
          CHECK((b[i] < b[j]) == (mb[i] < mb[j]));
          CHECK((b[i] <= b[j]) == (mb[i] <= mb[j]));
          CHECK((b[i] > b[j]) == (mb[i] > mb[j]));
          CHECK((b[i] == d[k]) == (mb[i] == md[k]));
          CHECK((b[i] == mb[j]) == (mb[i] == mb[j]));
          CHECK((mb[j] == b[i]) == (mb[i] == mb[j]));
          CHECK((b[i] == nullptr) == (mb[i] == nullptr));
          CHECK((nullptr != b[i]) == (mb[i] != nullptr));
          CHECK(static_cast<bool>(b[i]) == (mb[i] != nullptr));
          CHECK(!b[i] == (mb[i] == nullptr));
          CHECK(get_pointer(b[i]) == mb[i]);
          if (mb[i]) CHECK(b[i]->id == (*b[i]).id && b[i]->id == reg().alive[mb[i]]);
          break;
        }
        case 20: d[k] = std::move(d[l]); if (k != l) { md[k] = md[l]; md[l] = nullptr; } break;
        case 21: {
          PB t = const_pointer_cast<Base>(b[i]);
          CHECK(t.get() == mb[i]);
          break;
        }
        case 22: {  // assign from the member it would destroy
          b[i] = PB(b[i].get());
          break;
        }
        case 23: {
          std::vector<PB> v;
          for (size_t q = 0; q < 6; ++q) v.push_back(b[i]);
          v.erase(v.begin() + 2);
          CHECK(!mb[i] || mb[i]->use_count() >= 6);
          break;
        }
        default: b[i].reset(nullptr); mb[i] = nullptr; break;
      }
      verify();
    }
  }
  b.clear();
  d.clear();
  mb.clear();
  md.clear();
  for (auto &kv : manual)
    for (size_t q = 0; q < kv.second; ++q) intrusive_ptr_release(kv.first);
  CHECK(reg().alive.empty(), "(%zu objects survived their last pointer)", reg().alive.size());
  CHECK_EQ(reg().made, reg().gone);
  if (shared) c.nontrivial();
}

// lists whose nodes own each other: what is assigned from may live in the object that the assignment releases
struct Link;
struct LinkBase {
  int id;
  size_t refs = 0;
  explicit LinkBase(int i) : id(i) { ++alive()[i]; }
  virtual ~LinkBase() {
    if (--alive()[id] == 0) alive().erase(id);
  }
  static std::map<int, int> &alive() {
    static std::map<int, int> m;
    return m;
  }
  friend void intrusive_ptr_add_ref(LinkBase *p) { ++p->refs; }
  friend void intrusive_ptr_release(LinkBase *p) {
    if (--p->refs == 0) delete p;
  }
};
struct Link : LinkBase {
  using LinkBase::LinkBase;
  intrusive_ptr<Link> next;
};
void lists(pbt::Ctx &c) {
  LinkBase::alive().clear();
  constexpr size_t N = 3;
  intrusive_ptr<Link> h[N];
  intrusive_ptr<LinkBase> hb;
  int m[N] = {-1, -1, -1}, mb = -1;
  std::vector<int> next;  // model: the successor of every node ever made, -1 for none
  bool owner_gone = false;
  auto verify = [&] {
    std::map<int, size_t> refs;
    std::vector<int> todo;
    auto visit = [&](int i) {
      if (i >= 0 && ++refs[i] == 1) todo.push_back(i);
    };
    for (int i : m) visit(i);
    visit(mb);
    while (!todo.empty()) {
      int i = todo.back();
      todo.pop_back();
      visit(next[static_cast<size_t>(i)]);
    }
    CHECK_EQ(LinkBase::alive().size(), refs.size(), "(nodes alive)");
    for (auto &a : LinkBase::alive()) CHECK(refs.count(a.first), "(node %d outlived its owners)", a.first);
    auto walk = [&](const LinkBase *p, int i) {
      while (i >= 0) {
        CHECK(p != nullptr, "(the list ends before node %d)", i);
        CHECK_EQ(p->id, i, "(node of a list)");
        CHECK_EQ(p->refs, refs[i], "(owners of node %d)", i);
        p = static_cast<const Link *>(p)->next.get();
        i = next[static_cast<size_t>(i)];
      }
      CHECK(p == nullptr, "(the list goes on)");
    };
    for (size_t k = 0; k < N; ++k) walk(h[k].get(), m[k]);
    walk(hb.get(), mb);
  };
  pbt::Loop loop(c, 16, 60);
  while (loop.next()) {
    size_t k = c.pick(N), l = c.pick(N);
    unsigned op = static_cast<unsigned>(c.weighted({6, 3, 3, 2, 2, 2, 1, 2, 2, 1}));
    c.log("op %u on lists %zu and %zu", op, k, l);
    int node = m[k], nx = node >= 0 ? next[static_cast<size_t>(node)] : -1;
    bool last = node >= 0 && h[k]->refs == 1;
    if (last && nx >= 0 && ((op >= 1 && op <= 5) || op == 9)) owner_gone = true;
    switch (op) {
      case 0: {
        int id = static_cast<int>(next.size());
        intrusive_ptr<Link> n(new Link(id));
        next.push_back(m[k]);
        n->next = h[k];
        h[k] = c.coin() ? n : std::move(n);
        m[k] = id;
        break;
      }
      case 1:
        if (node < 0) break;
        h[k] = h[k]->next;
        m[k] = nx;
        break;
      case 2:
        if (node < 0) break;
        h[k] = std::move(h[k]->next);
        next[static_cast<size_t>(node)] = -1;
        m[k] = nx;
        break;
      case 3:
        if (node < 0) break;
        h[k].reset(h[k]->next.get());
        m[k] = nx;
        break;
      case 4:
        if (node < 0) break;
        h[k].reset(h[k]->next.get(), true);
        m[k] = nx;
        break;
      case 5:  // two at once
        if (node < 0 || nx < 0) break;
        h[k] = h[k]->next->next;
        m[k] = next[static_cast<size_t>(nx)];
        break;
      case 6:
        h[l] = h[k];
        m[l] = m[k];
        break;
      case 7:  // conversions
        hb = h[k];
        mb = m[k];
        break;
      case 8:
        if (mb < 0) break;
        if (hb->refs == 1 && next[static_cast<size_t>(mb)] >= 0) owner_gone = true;
        hb = static_cast<Link *>(hb.get())->next;
        mb = next[static_cast<size_t>(mb)];
        break;
      default:  // unlink the second one
        if (node < 0 || nx < 0) break;
        h[k]->next = h[k]->next->next;
        next[static_cast<size_t>(node)] = next[static_cast<size_t>(nx)];
        break;
    }
    verify();
  }
  for (auto &x : h) x.reset();
  hb.reset();
  CHECK(LinkBase::alive().empty(), "(nodes survived their last owner)");
  c.label("lists");
  if (owner_gone) c.nontrivial();
}

// very many owners of few objects
void many_owners(pbt::Ctx &c) {
  reg() = Registry();
  size_t n = c.chance(1, 4) ? 65520 + c.draw(40) : c.chance(1, 2) ? 120 + c.draw(300) : 2 + c.draw(70);
  size_t no = 1 + c.draw(3);
  std::vector<PB> v;
  std::vector<size_t> of, count(no, 0);
  std::vector<Base *> raw;
  for (size_t i = 0; i < no; ++i) {
    v.emplace_back(new Derived());
    raw.push_back(v.back().get());
    of.push_back(i);
    ++count[i];
  }
  for (size_t i = 0; i < n; ++i) {
    size_t k = c.chance(1, 16) ? c.draw(no) : 0;
    v.push_back(v[k]);
    of.push_back(k);
    ++count[k];
  }
  c.log("%zu owners of %zu objects", v.size(), no);
  for (size_t i = 0; i < no; ++i) CHECK_EQ(raw[i]->use_count(), count[i], "(owners of object %zu)", i);
  bool back = c.coin();
  while (!v.empty()) {
    size_t at = back ? v.size() - 1 : c.chance(1, 8) ? c.draw(v.size()) : v.size() - 1;
    size_t k = of[at];
    if (at + 1 != v.size()) {
      std::swap(v[at], v.back());
      std::swap(of[at], of.back());
    }
    v.pop_back();
    of.pop_back();
    if (--count[k] == 0) {
      CHECK(reg().alive.count(raw[k]) == 0, "(object %zu outlived its owners)", k);
    } else {
      CHECK(reg().alive.count(raw[k]) == 1, "(object %zu was destroyed while %zu owners were left)", k, count[k]);
      CHECK_EQ(raw[k]->use_count(), count[k], "(owners of object %zu)", k);
    }
  }
  CHECK_EQ(reg().made, reg().gone);
  c.nontrivial();
  c.label("very many owners");
}

// ---------------------------------------------------------------------------------------------- atomic integers
template <class A, class V>
void atomics(pbt::Ctx &c) {
  A a(static_cast<V>(3));
  V m = 3;
  size_t n = 0;
  pbt::Loop loop(c, 20, 80);
  while (loop.next()) {
    ++n;
    V x = static_cast<V>(c.chance(1, 3) ? c.draw(static_cast<uint64_t>(1) << 40) : c.draw(5));
    if (static_cast<V>(-1) < 0) x = static_cast<V>(x & 0xffff);
    V r = 0, w = 0;
    switch (c.pick(14)) {
      case 0: a.store(x); m = x; break;
      case 1: r = a.exchange(x); w = m; m = x; break;
      case 2: r = ++a; w = ++m; break;
      case 3: r = a++; w = m++; break;
      case 4: r = --a; w = --m; break;
      case 5: r = a--; w = m--; break;
      case 6: r = a.fetch_add(x); w = m; m = static_cast<V>(m + x); break;
      case 7: r = a.fetch_sub(x); w = m; m = static_cast<V>(m - x); break;
      case 8: r = a.fetch_and(x); w = m; m &= x; break;
      case 9: r = a.fetch_or(x); w = m; m |= x; break;
      case 10: r = a.fetch_xor(x); w = m; m ^= x; break;
      case 11: {
        V e = c.coin() ? m : x;
        bool want = e == m;
        V before = m;
        bool got = a.compare_exchange_strong(e, static_cast<V>(x + 1));
        CHECK(got == want);
        CHECK(e == before || got);
        if (got) m = static_cast<V>(x + 1);
        break;
      }
      case 12: {
        V e = c.coin() ? m : x;
        V orig = e, before = m;
        bool got = a.compare_exchange_weak(e, static_cast<V>(x + 1));
        CHECK(!got || orig == before);
        if (orig != before) CHECK(e == before);
        if (got) m = static_cast<V>(x + 1);
        break;
      }
      default: a = x; m = x; break;
    }
    CHECK(r == w, "(returned value of an atomic operation)");
    CHECK(a.load() == m && static_cast<V>(a) == m, "(value after an atomic operation)");
  }
  if (n > 6) c.nontrivial();
}

// ---------------------------------------------------------------------------------------------- threads
struct Shared {
  LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_DECL(Shared)
 public:
  std::atomic<int> *dead;
  uint64_t note[8] = {0};  // written by every thread under the lock; read by the destructor
  explicit Shared(std::atomic<int> *d) : dead(d) { LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_INIT(); }
  ~Shared() {
    uint64_t s = 0;
    for (auto v : note) s += v;
    dead->fetch_add(1 + (s == 0xdeadbeef));
  }
};
void intrusive_ptr_add_ref(Shared *p);
void intrusive_ptr_release(Shared *p);
LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DEFI(Shared)

void threads(pbt::Ctx &c) {
  size_t nt = 2 + c.draw(3);
  struct Op {
    int kind;
    size_t a;
  };
  std::vector<std::vector<Op>> progs(nt);
  for (auto &p : progs) {
    pbt::Loop loop(c, 60, 200);
    while (loop.next()) p.push_back(Op{static_cast<int>(c.weighted({4, 2, 3, 2, 1})), c.draw(4)});
  }
  sched::Plan plan = sched::gen_plan(c, static_cast<unsigned>(nt));
  copp::util::lock::spin_lock locks[2];
  uint64_t counter[2] = {0, 0}, fields[2][4] = {{0}};  // plain memory, protected by the locks
  std::atomic<int> inside[2] = {{0}, {0}};
  std::atomic<int> bad{0}, dead{0};
  std::atomic<uint64_t> done[2] = {{0}, {0}};
  std::vector<intrusive_ptr<Shared>> handles(nt);
  {
    intrusive_ptr<Shared> first(new Shared(&dead));
    for (auto &h : handles) h = first;
  }
  std::vector<std::function<void()>> ts;
  for (size_t t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      intrusive_ptr<Shared> mine = std::move(handles[t]);
      for (auto &op : progs[t]) {
        size_t l = op.a & 1;
        auto body = [&] {
          if (inside[l].fetch_add(1, std::memory_order_relaxed) != 0) bad.store(1);
          uint64_t v = ++counter[l];
          for (auto &f : fields[l]) {
            if (f + 1 != v) bad.store(2);
            f = v;
          }
          inside[l].fetch_sub(1, std::memory_order_relaxed);
          done[l].fetch_add(1, std::memory_order_relaxed);
        };
        switch (op.kind) {
          case 0: {
            lock_holder<copp::util::lock::spin_lock> g(locks[l]);
            if (!g.is_available()) bad.store(3);
            body();
            break;
          }
          case 1: {
            lock_holder<copp::util::lock::spin_lock,
                        copp::util::lock::detail::default_try_lock_action<copp::util::lock::spin_lock>>
                g(locks[l]);
            if (g.is_available()) body();
            break;
          }
          case 2: {
            intrusive_ptr<Shared> x = mine, y(x);
            x = std::move(y);
            if (x->use_count() < 2) bad.store(4);
            break;
          }
          case 3: {
            locks[l].lock();
            body();
            locks[l].unlock();
            break;
          }
          default: mine->note[t] += 1; break;
        }
      }
      mine.reset();
    });
  sched::run(ts, plan);
  CHECK(bad.load() != 1, "(two threads inside one lock)");
  CHECK(bad.load() != 2, "(a write made under the lock was not visible to the next holder)");
  CHECK(bad.load() != 3, "(lock() returned without the lock)");
  CHECK(bad.load() != 4, "(a shared object reports too few owners)");
  for (int l = 0; l < 2; ++l) {
    CHECK(counter[l] == done[l].load(), "(updates were lost under the lock)");
    CHECK(!locks[l].is_locked(), "(a lock stayed locked)");
  }
  CHECK_EQ(dead.load(), 1, "(the shared object was destroyed this many times)");
  c.label("threads");
  c.nontrivial();
}
}  // namespace

void pbt::run_case(pbt::Ctx &c) {
#if defined(VP_TSAN) || defined(VP_SCHED)
  threads(c);
#else
  switch (c.weighted({6, 6, 1, 2, 1})) {
    case 0: guards(c); break;
    case 1:
      if (c.chance(1, 60))
        many_owners(c);
      else if (c.chance(1, 4))
        lists(c);
      else
        pointers(c);
      break;
    case 2: spin(c); break;
    case 3:
      switch (c.pick(5)) {
        case 0: atomics<copp::util::lock::atomic_int_type<unsigned int>, unsigned int>(c); break;
        case 1: atomics<copp::util::lock::atomic_int_type<uint64_t>, uint64_t>(c); break;
        case 2: atomics<copp::util::lock::atomic_int_type<int>, int>(c); break;
        case 3:
          atomics<copp::util::lock::atomic_int_type<copp::util::lock::unsafe_int_type<size_t>>, size_t>(c);
          break;
        default:
          atomics<copp::util::lock::atomic_int_type<copp::util::lock::unsafe_int_type<int>>, int>(c);
          break;
      }
      break;
    default:
#if !LIBCOPP_LOCK_DISABLE_MT
      if (c.chance(1, 4)) {
        threads(c);
        break;
      }
#endif
      guards(c);
      break;
  }
#endif
}

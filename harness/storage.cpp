// C13: pollers, futures and results against an optional / variant model.
#include <libcopp/future/future.h>
#include <libcopp/future/poller.h>

#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "pbt.h"

using pbt::Ctx;
using pbt::cur;
namespace cf = copp::future;

const pbt::HarnessInfo pbt::info = {
    "storage",
    "A case picks payload types (int, 24/32/40-byte trivial, counted non-trivial, unique_ptr, shared_ptr, raw pointer, "
    "string, void, derived) and runs a generated history of construction, assignment, move, swap and reset over up to "
    "four pollers, futures or results, comparing every slot with the model after every step; non-trivial when values "
    "were moved or swapped between slots and at least six steps ran.",
    false, 20};

namespace {
// ---------------------------------------------------------------- payloads
std::set<const void *> &live() {
  static std::set<const void *> s;
  return s;
}
struct Counted {
  int v;
  uint64_t magic;
  explicit Counted(int n = 0) : v(n), magic(0xC0DEC0DEC0DEULL) { reg(); }
  Counted(int a, int b) : Counted(a + b) {}
  Counted(Counted &&o) noexcept : v(o.v), magic(o.magic) {
    o.v = -7;
    reg();
  }
  Counted(const Counted &o) : v(o.v), magic(o.magic) { reg(); }
  Counted &operator=(const Counted &o) = default;
  virtual ~Counted() {
    if (magic != 0xC0DEC0DEC0DEULL || !live().erase(this)) cur().fail("a value was destroyed twice");
    magic = 0;
  }
  virtual int kind() const { return 0; }
  void reg() {
    if (!live().insert(this).second) cur().fail("a value was constructed over a live one");
  }
};
struct Derived : public Counted {
  std::string extra;
  explicit Derived(int n = 0) : Counted(n), extra("derived") {}
  int kind() const override { return 1; }
};
template <size_t N>
struct Pod {
  int64_t w[N];
};
template <size_t N>
Pod<N> make_pod(int n) {
  Pod<N> p;
  for (size_t i = 0; i < N; ++i) p.w[i] = n + static_cast<int64_t>(i) * 1000003;
  return p;
}
template <size_t N>
bool eq_pod(const Pod<N> &p, int n) {
  for (size_t i = 0; i < N; ++i)
    if (p.w[i] != n + static_cast<int64_t>(i) * 1000003) return false;
  return true;
}
int g_cells[256];

// how to make and recognise a value
struct TrInt {
  using T = int;
  static constexpr int counted = 0;
  static constexpr bool uptr = true;
  static constexpr const char *name = "int";
  static T make(int n) { return n; }
  static bool eq(const T &v, int n) { return v == n; }
};
struct TrChar {
  using T = unsigned char;
  static constexpr int counted = 0;
  static constexpr bool uptr = true;
  static constexpr const char *name = "char";
  static T make(int n) { return static_cast<T>(n); }
  static bool eq(const T &v, int n) { return v == static_cast<T>(n); }
};
template <size_t N>
struct TrPod {
  using T = Pod<N>;
  static constexpr int counted = 0;
  static constexpr bool uptr = true;
  static constexpr const char *name = N == 3 ? "pod24" : N == 4 ? "pod32" : "pod40";
  static T make(int n) { return make_pod<N>(n); }
  static bool eq(const T &v, int n) { return eq_pod<N>(v, n); }
};
template <size_t N>
struct TrBytes {  // odd and large sizes without any padding
  struct T {
    unsigned char b[N];
  };
  static constexpr int counted = 0;
  static constexpr bool uptr = true;
  static constexpr const char *name = N < 32 ? "bytes31" : N < 100 ? "bytes33" : "bytes5000";
  static T make(int n) {
    T t;
    for (size_t i = 0; i < N; ++i) t.b[i] = static_cast<unsigned char>(n + 7 * i + i / 256);
    return t;
  }
  static bool eq(const T &v, int n) {
    for (size_t i = 0; i < N; ++i)
      if (v.b[i] != static_cast<unsigned char>(n + 7 * i + i / 256)) return false;
    return true;
  }
};
struct TrBool {
  using T = bool;
  static constexpr int counted = 0;
  static constexpr bool uptr = true;
  static constexpr const char *name = "bool";
  static T make(int n) { return n % 2 != 0; }
  static bool eq(const T &v, int n) { return v == (n % 2 != 0); }
};
struct TrDouble {
  using T = double;
  static constexpr int counted = 0;
  static constexpr bool uptr = true;
  static constexpr const char *name = "double";
  static T make(int n) { return n / 8.0 - 3.0; }
  static bool eq(const T &v, int n) { return v == n / 8.0 - 3.0; }
};
struct TrCounted {
  using T = Counted;
  static constexpr int counted = 1;
  static constexpr bool uptr = true;
  static constexpr const char *name = "counted";
  static T make(int n) { return Counted(n); }
  static bool eq(const T &v, int n) { return v.v == n && v.magic == 0xC0DEC0DEC0DEULL && live().count(&v); }
};
struct TrUptr {
  using T = std::unique_ptr<Counted>;
  static constexpr int counted = 1;
  static constexpr bool uptr = false;
  static constexpr const char *name = "unique_ptr";
  static T make(int n) { return T(n % 5 == 0 ? nullptr : new Counted(n)); }
  static bool eq(const T &v, int n) { return n % 5 == 0 ? !v : (v && TrCounted::eq(*v, n)); }
};
struct TrSptr {
  using T = std::shared_ptr<Counted>;
  static constexpr int counted = 1;
  static constexpr bool uptr = false;
  static constexpr const char *name = "shared_ptr";
  static T make(int n) { return n % 5 == 0 ? T() : std::make_shared<Counted>(n); }
  static bool eq(const T &v, int n) { return n % 5 == 0 ? !v : (v && v.use_count() == 1 && TrCounted::eq(*v, n)); }
};
struct TrRaw {
  using T = int *;
  static constexpr int counted = 0;
  static constexpr bool uptr = true;
  static constexpr const char *name = "pointer";
  static T make(int n) { return n % 5 == 0 ? nullptr : &g_cells[n & 255]; }
  static bool eq(const T &v, int n) { return v == (n % 5 == 0 ? nullptr : &g_cells[n & 255]); }
};
struct TrString {
  using T = std::string;
  static constexpr int counted = 0;
  static constexpr bool uptr = true;
  static constexpr const char *name = "string";
  static T make(int n) { return std::string(static_cast<size_t>(n % 60), static_cast<char>('a' + n % 26)) + std::to_string(n); }
  static bool eq(const T &v, int n) { return v == make(n); }
};
template <class TR>
size_t counted_in(int n) {
  if (TR::counted == 0) return 0;
  if (std::is_same<typename TR::T, Counted>::value) return 1;
  return n % 5 == 0 ? 0 : 1;
}

int g_next;
int fresh() { return ++g_next; }

// ---------------------------------------------------------------- pollers and futures
struct M {
  bool exists = false;
  bool ready = false;
  int n = 0;
  int kind = 0;  // 1: holds a Derived
};

template <class TR, class TPTR>
struct PollerProgram {
  using T = typename TR::T;
  using F = cf::future<T, TPTR>;
  using P = cf::poller<T, TPTR>;
  static constexpr bool kShared = std::is_same<TPTR, std::shared_ptr<T>>::value;
  static constexpr bool kClass = std::is_same<T, Counted>::value;

  static void expect(const P &p, const M &m, size_t i) {
    CHECK(p.is_ready() == m.ready, "(slot %zu is_ready %d)", i, p.is_ready());
    CHECK(p.is_pending() == !m.ready, "(slot %zu is_pending)", i);
    CHECK(!!p.raw_ptr() == m.ready, "(slot %zu raw_ptr)", i);
    CHECK((p.data() != nullptr) == m.ready, "(slot %zu data)", i);
    if (m.ready) {
      CHECK(TR::eq(*p.data(), m.n), "(slot %zu holds another value than %d)", i, m.n);
      CHECK(p.raw_ptr().get() == p.data(), "(slot %zu)", i);
      if (kClass) {
        CHECK_EQ(reinterpret_cast<const Counted *>(p.data())->kind(), m.kind, "(dynamic type)");
      }
    }
  }

  static void go(Ctx &c) {
    std::unique_ptr<F> slot[4];
    M m[4];
    size_t steps = 0, moves = 0;
    auto check_all = [&](const char *op) {
      size_t cnt = 0;
      for (size_t i = 0; i < 4; ++i) {
        if (!m[i].exists) continue;
        const F &cf_ = *slot[i];
        F &f = *slot[i];
        expect(f.poll_data(), m[i], i);
        CHECK(cf_.is_ready() == m[i].ready && cf_.is_pending() == !m[i].ready, "(future %zu)", i);
        CHECK((f.data() != nullptr) == m[i].ready && cf_.data() == f.data(), "(future %zu data)", i);
        if (m[i].ready) {
          cnt += counted_in<TR>(m[i].n);
          for (size_t j = 0; j < i; ++j)
            if (m[j].exists && m[j].ready) CHECK(slot[j]->data() != f.data(), "(two futures share a value)");
        }
      }
      CHECK_EQ(live().size(), cnt, "(live values after %s)", op);
    };
    // put a fresh value into target with one of the available ways; returns model
    pbt::Loop loop(c, 14, 60);
    while (loop.next()) {
      ++steps;
      size_t i = c.pick(4), j = c.pick(4);
      auto need = [&](size_t k) {
        if (!m[k].exists) {
          slot[k].reset(new F());
          m[k] = M();
          m[k].exists = true;
        }
      };
      need(i);
      need(j);
      const char *op = "?";
      switch (c.weighted({6, 4, 3, 3, 3, 5, 4, 3, 3, 2, 3})) {
        case 0: {
          op = "value";
          int n = fresh();
          slot[i]->reset_data(TR::make(n));
          m[i].ready = true, m[i].n = n, m[i].kind = 0;
          break;
        }
        case 1: {
          op = "assign";
          int n = fresh();
          slot[i]->poll_data() = TR::make(n);
          m[i].ready = true, m[i].n = n, m[i].kind = 0;
          break;
        }
        case 2: {
          op = "lvalue";
          if constexpr (std::is_copy_constructible<T>::value && !std::is_same<T, std::shared_ptr<Counted>>::value) {
            int n = fresh();
            {
              const T v = TR::make(n);
              slot[i]->reset_data(v);
              CHECK(TR::eq(v, n), "(the copied value changed)");
            }
            m[i].ready = true, m[i].n = n, m[i].kind = 0;
          }
          break;
        }
        case 3: {
          op = "reset";
          if (c.coin()) {
            slot[i]->reset_data();
          } else {
            slot[i]->poll_data().reset();
          }
          m[i].ready = false;
          break;
        }
        case 4: {
          op = "unique_ptr";
          if constexpr (TR::uptr) {
            int n = fresh();
            if (c.chance(1, 4)) {
              slot[i]->reset_data(std::unique_ptr<T>());
              m[i].ready = false;
            } else {
              if constexpr (kClass) {
                if (c.coin()) {
                  slot[i]->reset_data(std::unique_ptr<Derived>(new Derived(n)));
                  m[i].kind = 1;
                } else {
                  slot[i]->reset_data(std::unique_ptr<T>(new Counted(n)));
                  m[i].kind = 0;
                }
              } else if constexpr (!std::is_same<T, std::string>::value) {
                slot[i]->reset_data(std::unique_ptr<T>(new T(TR::make(n))));
              } else {
                slot[i]->reset_data(std::unique_ptr<T>(new T(TR::make(n))));
              }
              m[i].ready = true, m[i].n = n;
            }
          }
          break;
        }
        case 5: {
          op = "move-assign";
          if (i == j) break;
          slot[i]->poll_data() = std::move(slot[j]->poll_data());
          bool ex = m[i].exists;
          m[i] = m[j];
          m[i].exists = ex;
          m[j].ready = false;
          if (m[i].ready) ++moves;
          break;
        }
        case 6: {
          op = "move-construct";
          P tmp(std::move(slot[i]->poll_data()));
          M tm = m[i];
          m[i].ready = false;
          expect(tmp, tm, 90);
          expect(slot[i]->poll_data(), m[i], i);
          if (c.coin()) {
            slot[j]->poll_data() = std::move(tmp);
            m[j].ready = tm.ready, m[j].n = tm.n, m[j].kind = tm.kind;
            ++moves;
          }
          break;
        }
        case 7: {
          op = "swap";
          if (i != j || c.coin()) {
            if (c.coin()) {
              slot[i]->poll_data().swap(slot[j]->poll_data());
            } else {
              using std::swap;
              swap(slot[i]->poll_data(), slot[j]->poll_data());
            }
            std::swap(m[i], m[j]);
            if (m[i].ready != m[j].ready || m[i].ready) ++moves;
          }
          break;
        }
        case 8: {
          op = "construct";
          int n = fresh();
          if constexpr (kClass) {
            switch (c.pick(3)) {
              case 0: {
                P p(n, 0);
                expect(p, M{true, true, n, 0}, 91);
                slot[i]->poll_data() = std::move(p);
                m[i].kind = 0;
                break;
              }
              case 1: {
                P p(std::unique_ptr<Derived>(new Derived(n)));
                expect(p, M{true, true, n, 1}, 92);
                slot[i]->poll_data() = std::move(p);
                m[i].kind = 1;
                break;
              }
              default: {
                P p(TR::make(n));
                expect(p, M{true, true, n, 0}, 93);
                slot[i]->poll_data() = std::move(p);
                m[i].kind = 0;
                break;
              }
            }
          } else {
            P p(TR::make(n));
            expect(p, M{true, true, n, 0}, 94);
            slot[i]->poll_data() = std::move(p);
            m[i].kind = 0;
          }
          m[i].ready = true, m[i].n = n;
          ++moves;
          break;
        }
        case 9: {
          op = "destroy";
          slot[i].reset();
          m[i].exists = false;
          m[i].ready = false;
          break;
        }
        case 10: {
          op = "shared_ptr";
          if constexpr (kShared && kClass) {
            int n = fresh();
            bool keep = c.coin();
            if (c.coin()) {
              std::shared_ptr<Derived> s = std::make_shared<Derived>(n), k = keep ? s : nullptr;
              slot[i]->reset_data(std::move(s));
              m[i].kind = 1;
              if (k) CHECK(slot[i]->data() == k.get(), "(a shared value was not shared)");
            } else {
              std::shared_ptr<Counted> s = std::make_shared<Counted>(n), k = keep ? s : nullptr;
              slot[i]->reset_data(std::move(s));
              m[i].kind = 0;
              if (k) CHECK(slot[i]->data() == k.get(), "(a shared value was not shared)");
            }
            m[i].ready = true, m[i].n = n;
          } else if constexpr (std::is_same<T, Counted>::value) {
            // a value changed through the container is the value seen later
            if (m[i].ready) {
              int n = fresh();
              slot[i]->data()->v = n;
              m[i].n = n;
            }
          }
          break;
        }
      }
      c.log("%s %s i=%zu j=%zu", TR::name, op, i, j);
      check_all(op);
    }
    for (auto &s : slot) s.reset();
    CHECK_EQ(live().size(), static_cast<size_t>(0), "(values alive after every container is gone)");
    if (steps >= 6 && moves >= 1) c.nontrivial();
    c.label(kShared ? "poller-shared" : "poller");
  }
};

void void_program(Ctx &c) {
  using F = cf::future<void>;
  using P = F::poller_type;
  std::unique_ptr<F> slot[4];
  bool m[4] = {};
  for (auto &s : slot) s.reset(new F());
  size_t steps = 0, moves = 0;
  pbt::Loop loop(c, 14, 60);
  while (loop.next()) {
    ++steps;
    size_t i = c.pick(4), j = c.pick(4);
    bool v = c.coin();
    switch (c.pick(8)) {
      case 0:
        slot[i]->reset_data(v);
        m[i] = v;
        break;
      case 1:
        slot[i]->poll_data() = (v ? 42 : 0);
        m[i] = v;
        break;
      case 2:
        slot[i]->reset_data();
        m[i] = false;
        break;
      case 3:
        if (i != j) {
          slot[i]->poll_data() = std::move(slot[j]->poll_data());
          m[i] = m[j];
          m[j] = false;
          ++moves;
        }
        break;
      case 4: {
        P p(std::move(slot[i]->poll_data()));
        CHECK(p.is_ready() == m[i], "(moved void poller)");
        CHECK(slot[i]->is_pending(), "(moved-from void poller)");
        slot[j]->poll_data() = std::move(p);
        bool b = m[i];
        m[i] = false;
        m[j] = b;
        ++moves;
        break;
      }
      case 5: {
        using std::swap;
        swap(slot[i]->poll_data(), slot[j]->poll_data());
        std::swap(m[i], m[j]);
        ++moves;
        break;
      }
      case 6: {
        P p(v);
        CHECK(p.is_ready() == v, "(constructed void poller)");
        slot[i]->poll_data() = std::move(p);
        m[i] = v;
        break;
      }
      case 7:
        slot[i].reset(new F());
        m[i] = false;
        break;
    }
    for (size_t k = 0; k < 4; ++k) {
      CHECK(slot[k]->is_ready() == m[k] && slot[k]->is_pending() == !m[k], "(void slot %zu)", k);
      CHECK((slot[k]->data() != nullptr) == m[k], "(void slot %zu data)", k);
      if (m[k]) CHECK(slot[k]->poll_data().data() == static_cast<void *>(&slot[k]->raw_ptr()), "(void slot %zu target)", k);
    }
  }
  if (steps >= 6 && moves) c.nontrivial();
  c.label("void");
}

// ---------------------------------------------------------------- results
enum Mode { NONE, OK, ERR };
struct RM {
  bool exists = false;
  Mode mode = NONE;
  int n = 0;
};
template <class TR>
bool same(const typename TR::T *p, int n) {
  return p && TR::eq(*p, n);
}
template <class OKT, class ERT>
struct ResultProgram {
  using TOK = typename OKT::T;
  using TERR = typename ERT::T;
  using R = cf::result_type<TOK, TERR>;
  using F = cf::future<R>;
  static constexpr bool kTrivial = cf::default_compact_storage<TOK>::value && cf::default_compact_storage<TERR>::value;

  static void expect(const R &r, const RM &m, const char *where) {
    CHECK(r.is_success() == (m.mode == OK), "(%s)", where);
    CHECK(r.is_error() == (m.mode == ERR), "(%s)", where);
    if (m.mode == OK) {
      CHECK(same<OKT>(r.get_success(), m.n), "(%s: other success value than %d)", where, m.n);
    } else {
      CHECK(r.get_success() == nullptr, "(%s: success value without success)", where);
    }
    if (m.mode == ERR) {
      CHECK(same<ERT>(r.get_error(), m.n), "(%s: other error value than %d)", where, m.n);
    } else {
      CHECK(r.get_error() == nullptr, "(%s: error value without error)", where);
    }
  }
  static R make(const RM &m) { return m.mode == OK ? R::create_success(OKT::make(m.n)) : R::create_error(ERT::make(m.n)); }
  static size_t cnt(const RM &m) {
    return m.mode == OK ? counted_in<OKT>(m.n) : m.mode == ERR ? counted_in<ERT>(m.n) : 0;
  }
  static RM fresh_model(Ctx &c) {
    RM m;
    m.exists = true;
    m.mode = c.coin() ? ERR : OK;
    m.n = fresh();
    return m;
  }

  static void go(Ctx &c) {
    std::unique_ptr<R> slot[4];
    RM m[4];
    std::unique_ptr<F> fut(new F());
    RM fm;
    bool f_ready = false;
    size_t steps = 0, moves = 0;
    pbt::Loop loop(c, 14, 60);
    while (loop.next()) {
      ++steps;
      size_t i = c.pick(4), j = c.pick(4);
      auto need = [&](size_t k) {
        if (!m[k].exists) {
          m[k] = fresh_model(c);
          slot[k].reset(new R(make(m[k])));
        }
      };
      need(i);
      need(j);
      const char *op = "?";
      switch (c.weighted({4, 4, 4, 4, 3, 4, 2, 3, 2})) {
        case 0: {
          op = "create";
          m[i] = fresh_model(c);
          *slot[i] = make(m[i]);
          break;
        }
        case 1: {
          op = "move-assign";
          if (i == j) break;
          *slot[i] = std::move(*slot[j]);
          m[i] = m[j];
          m[i].exists = true;
          if (kTrivial) {
            slot[j].reset();
            m[j].exists = false;
          } else {
            m[j].mode = NONE;
          }
          ++moves;
          break;
        }
        case 2: {
          op = "swap";
          // all-trivial results expose swapping as a friend found by argument dependent lookup only
          using std::swap;
          swap(static_cast<typename R::base_type &>(*slot[i]), static_cast<typename R::base_type &>(*slot[j]));
          std::swap(m[i], m[j]);
          ++moves;
          break;
        }
        case 3: {
          op = "move-construct";
          R tmp(std::move(*slot[i]));
          expect(tmp, m[i], "move-constructed");
          if (!kTrivial) {
            RM none;
            expect(*slot[i], none, "moved-from");
          }
          RM tm = m[i];
          slot[i].reset();
          m[i].exists = false;
          if (j != i) {
            *slot[j] = std::move(tmp);
            m[j] = tm;
            m[j].exists = true;
            ++moves;
          }
          break;
        }
        case 4: {
          op = "destroy";
          slot[i].reset();
          m[i].exists = false;
          break;
        }
        case 5: {
          op = "future";
          fm = fresh_model(c);
          if (fm.mode == OK) {
            fut->reset_data(R::make_success(OKT::make(fm.n)));
          } else {
            fut->reset_data(R::make_error(ERT::make(fm.n)));
          }
          f_ready = true;
          break;
        }
        case 6: {
          op = "future-reset";
          fut->reset_data();
          f_ready = false;
          break;
        }
        case 7: {
          op = "future-move";
          std::unique_ptr<F> g(new F());
          if (c.coin()) g->reset_data(R::make_error(ERT::make(fresh())));
          g->poll_data() = std::move(fut->poll_data());
          CHECK(fut->is_pending(), "(moved-from future of a result)");
          fut = std::move(g);
          if (f_ready) ++moves;
          break;
        }
        case 8: {
          op = "future-from-value";
          fm = fresh_model(c);
          fut->reset_data(make(fm));
          f_ready = true;
          break;
        }
      }
      c.log("result<%s,%s> %s i=%zu j=%zu", OKT::name, ERT::name, op, i, j);
      size_t total = 0;
      for (size_t k = 0; k < 4; ++k) {
        if (!m[k].exists) continue;
        expect(*slot[k], m[k], op);
        total += cnt(m[k]);
      }
      CHECK(fut->is_ready() == f_ready, "(future of a result)");
      if (f_ready) {
        expect(*fut->data(), fm, "future");
        total += cnt(fm);
      }
      CHECK_EQ(live().size(), total, "(live values after %s)", op);
    }
    for (auto &s : slot) s.reset();
    fut.reset();
    CHECK_EQ(live().size(), static_cast<size_t>(0), "(values alive after every container is gone)");
    if (steps >= 6 && moves) c.nontrivial();
    c.label(kTrivial ? "result-trivial" : "result");
  }
};

template <class TR>
void poller_default(Ctx &c) {
  PollerProgram<TR, typename cf::poll_storage_ptr_selector<typename TR::T>::type>::go(c);
}
template <class TR>
void poller_shared(Ctx &c) {
  PollerProgram<TR, std::shared_ptr<typename TR::T>>::go(c);
}

// Lists whose values own the next container: a container is assigned from one that lives in the value it gives up.
template <class BOX>
struct Chained {
  Counted v;
  std::unique_ptr<BOX> next;
  explicit Chained(int n) : v(n) {}
};
struct PollBox;
struct ResultBox;
using PollNode = Chained<PollBox>;
using ResultNode = Chained<ResultBox>;
struct PollBox {
  cf::poller<PollNode> p;
  const PollNode *get() const { return p.data(); }
  PollNode *get() { return p.data(); }
  void put(int n) { p = PollNode(n); }
  void take(PollBox &o) { p = std::move(o.p); }
  void swap(PollBox &o) { p.swap(o.p); }
  void clear() { p.reset(); }
};
struct ResultBox {
  using R = cf::result_type<ResultNode, int>;
  R p = R::create_error(0);
  const ResultNode *get() const { return p.get_success(); }
  ResultNode *get() { return p.get_success(); }
  void put(int n) { p = R::create_success(n); }
  void take(ResultBox &o) { p = std::move(o.p); }
  void swap(ResultBox &o) { p.swap(o.p); }
  void clear() { p = R::create_error(1); }
};
template <class BOX>
void chained(Ctx &c, const char *name) {
  BOX b[2];
  std::vector<int> m[2];  // the values from the head on
  size_t from_inside = 0, steps = 0;
  pbt::Loop loop(c, 8, 30);
  while (loop.next()) {
    ++steps;
    size_t i = c.pick(2), j = 1 - i;
    unsigned op = static_cast<unsigned>(c.weighted({6, 4, 2, 1, 1}));
    c.log("%s %zu op %u", name, i, op);
    switch (op) {
      case 0: {  // a new head in front of the old one
        int n = fresh();
        auto nb = std::make_unique<BOX>();
        nb->swap(b[i]);
        b[i].put(n);
        b[i].get()->next = std::move(nb);
        m[i].insert(m[i].begin(), n);
        break;
      }
      case 1:  // the head goes
        if (m[i].empty()) break;
        b[i].take(*b[i].get()->next);
        m[i].erase(m[i].begin());
        ++from_inside;
        break;
      case 2:  // the first two go
        if (m[i].size() < 2) break;
        b[i].take(*b[i].get()->next->get()->next);
        m[i].erase(m[i].begin(), m[i].begin() + 2);
        ++from_inside;
        break;
      case 3:
        b[i].swap(b[j]);
        std::swap(m[i], m[j]);
        break;
      default:
        b[i].clear();
        m[i].clear();
        break;
    }
    size_t total = 0;
    for (size_t k = 0; k < 2; ++k) {
      const BOX *x = &b[k];
      for (int n : m[k]) {
        CHECK(x->get() != nullptr, "(the list ends before %d)", n);
        CHECK(x->get()->v.v == n && live().count(&x->get()->v), "(the value %d)", n);
        x = x->get()->next.get();
      }
      CHECK(x->get() == nullptr, "(the list goes on)");
      total += m[k].size();
    }
    CHECK_EQ(live().size(), total, "(live values)");
  }
  for (auto &x : b) x.clear();
  CHECK_EQ(live().size(), static_cast<size_t>(0), "(values alive after every container is empty)");
  if (steps >= 6 && from_inside) c.nontrivial();
  c.label(name);
}
// ---------------------------------------------------------------- the storage of results, used directly
template <class TR>
struct StorageProgram {
  using T = typename TR::T;
  using S = cf::default_compact_storage<T>;
  using ST = typename S::storage_type;
  static constexpr bool kShared = !S::value;
  struct SM {
    bool set = false;
    int n = 0;
    int group = 0;  // clones of one value
  };

  static void go(Ctx &c) {
    std::unique_ptr<ST> slot[4];
    SM m[4];
    int groups = 0;
    size_t steps = 0, moves = 0;
    for (auto &s : slot) {
      s.reset(new ST());
      S::construct_default_storage(*s);
    }
    CHECK(S::is_shared_storage() == kShared);
    auto put = [&](size_t i, int n) {
      m[i].set = true;
      m[i].n = n;
      m[i].group = ++groups;
    };
    pbt::Loop loop(c, 12, 50);
    while (loop.next()) {
      ++steps;
      size_t i = c.pick(4), j = c.pick(4);
      unsigned op = static_cast<unsigned>(c.weighted({4, 2, 4, 4, 3, 2, 1, 2}));
      c.log("storage %zu %zu op %u", i, j, op);
      switch (op) {
        case 0: {
          int n = fresh();
          S::construct_storage(*slot[i], TR::make(n));
          put(i, n);
          break;
        }
        case 1:
          if constexpr (TR::uptr) {
            int n = fresh();
            bool null = c.chance(1, 4);
            S::construct_storage(*slot[i], std::unique_ptr<T>(null ? nullptr : new T(TR::make(n))));
            put(i, n);
            m[i].set = !null;
          }
          break;
        case 2:
          if (i == j) break;
          S::clone_storage(*slot[i], *slot[j]);
          m[i] = m[j];
          break;
        case 3:
          if (i == j) break;
          S::move_storage(*slot[i], std::move(*slot[j]));
          m[i] = m[j];
          m[j].set = false;
          ++moves;
          break;
        case 4:
          S::swap(*slot[i], *slot[j]);
          std::swap(m[i], m[j]);
          ++moves;
          break;
        case 5:
          S::destroy_storage(*slot[i]);
          m[i].set = false;
          break;
        case 6:
          S::construct_default_storage(*slot[i]);
          m[i].set = false;
          break;
        default: {
          auto p = S::clone_ptr(*slot[i]);
          CHECK(p.get() == S::unwrap(*slot[i]), "(slot %zu clone_ptr)", i);
          if (kShared && m[i].set && c.coin()) {
            S::destroy_storage(*slot[i]);
            m[i].set = false;
            CHECK(same<TR>(p.get(), m[i].n), "(the value is still referred to)");
          }
          break;
        }
      }
      std::set<int> alive;
      size_t total = 0;
      for (size_t k = 0; k < 4; ++k) {
        const ST &cs = *slot[k];
        CHECK(S::unwrap(cs) == S::unwrap(*slot[k]), "(slot %zu)", k);
        if (!m[k].set) {
          if (kShared) CHECK(S::unwrap(cs) == nullptr, "(slot %zu is not empty)", k);
          continue;
        }
        CHECK(same<TR>(S::unwrap(cs), m[k].n), "(slot %zu holds another value than %d)", k, m[k].n);
        if (alive.insert(m[k].group).second) total += counted_in<TR>(m[k].n);
        for (size_t l = 0; l < k; ++l)
          if (m[l].set)
            CHECK((S::unwrap(*slot[l]) == S::unwrap(cs)) == (kShared && m[l].group == m[k].group), "(slots %zu and %zu)", l, k);
      }
      CHECK_EQ(live().size(), total, "(live values)");
    }
    for (auto &s : slot) {
      S::destroy_storage(*s);
      s.reset();
    }
    CHECK_EQ(live().size(), static_cast<size_t>(0), "(values alive after every storage is empty)");
    if (steps >= 6 && moves) c.nontrivial();
    c.label("storage");
  }
};
}  // namespace

void pbt::setup_process() {}

void pbt::run_case(Ctx &c) {
  live().clear();
  g_next = 0;
  switch (c.pick(52)) {
    case 0: return poller_default<TrInt>(c);
    case 1: return poller_default<TrChar>(c);
    case 2: return poller_default<TrPod<3>>(c);
    case 3: return poller_default<TrPod<4>>(c);
    case 4: return poller_default<TrPod<5>>(c);
    case 5: return poller_default<TrCounted>(c);
    case 6: return poller_default<TrUptr>(c);
    case 7: return poller_default<TrSptr>(c);
    case 8: return poller_default<TrRaw>(c);
    case 9: return poller_default<TrString>(c);
    case 10: return poller_shared<TrCounted>(c);
    case 11: return poller_shared<TrString>(c);
    case 12: return poller_shared<TrUptr>(c);
    case 13: return void_program(c);
    case 14: return ResultProgram<TrInt, TrInt>::go(c);
    case 15: return ResultProgram<TrPod<3>, TrInt>::go(c);
    case 16: return ResultProgram<TrInt, TrPod<4>>::go(c);
    case 17: return ResultProgram<TrPod<5>, TrInt>::go(c);
    case 18: return ResultProgram<TrInt, TrPod<5>>::go(c);
    case 19: return ResultProgram<TrCounted, TrInt>::go(c);
    case 20: return ResultProgram<TrInt, TrCounted>::go(c);
    case 21: return ResultProgram<TrUptr, TrString>::go(c);
    case 22: return ResultProgram<TrString, TrUptr>::go(c);
    case 23: return ResultProgram<TrSptr, TrCounted>::go(c);
    case 24: return ResultProgram<TrRaw, TrChar>::go(c);
    case 26: return chained<PollBox>(c, "list of pollers");
    case 27: return chained<ResultBox>(c, "list of results");
    case 25: return ResultProgram<TrUptr, TrUptr>::go(c);
    case 28: return StorageProgram<TrInt>::go(c);
    case 29: return StorageProgram<TrPod<4>>::go(c);
    case 30: return StorageProgram<TrPod<5>>::go(c);
    case 31: return StorageProgram<TrCounted>::go(c);
    case 32: return StorageProgram<TrUptr>::go(c);
    case 33: return StorageProgram<TrSptr>::go(c);
    case 34: return StorageProgram<TrString>::go(c);
    case 35: return StorageProgram<TrRaw>::go(c);
    case 36: return poller_default<TrBytes<31>>(c);
    case 37: return poller_default<TrBytes<33>>(c);
    case 38: return poller_default<TrBytes<5000>>(c);
    case 39: return poller_default<TrBool>(c);
    case 40: return poller_default<TrDouble>(c);
    case 41: return ResultProgram<TrBytes<31>, TrBool>::go(c);
    case 42: return ResultProgram<TrDouble, TrBytes<33>>::go(c);
    case 43: return ResultProgram<TrBytes<5000>, TrBytes<31>>::go(c);
    case 44: return ResultProgram<TrBool, TrBytes<31>>::go(c);
    case 45: return StorageProgram<TrBytes<31>>::go(c);
    case 46: return StorageProgram<TrBytes<33>>::go(c);
    case 47: return StorageProgram<TrBytes<5000>>::go(c);
    case 48: return StorageProgram<TrBool>::go(c);
    case 49: return ResultProgram<TrCounted, TrCounted>::go(c);
    case 50: return poller_shared<TrPod<3>>(c);
    default: return ResultProgram<TrBytes<5000>, TrUptr>::go(c);
  }
}

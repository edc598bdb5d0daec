// Contracts for embedded::lock_guard (G01) and embedded::move_wrapper (M01).
#include "vf.h"
#include "embedded/mutex.h"
#include "embedded/move_wrapper.h"
#include "embedded/function.h"
using embedded::lock_guard;
using embedded::move_wrapper;

// ---- G01 ---------------------------------------------------------------------------------------------------------------------
struct lock_error { uint32_t code; };
struct scope_error { uint32_t code; };
static uint32_t steps;

template <int Pad> struct Mutex {
  char pad[Pad];
  size_t locks, unlocks;
  uint32_t locked_at, unlocked_at;
  bool held, refuse;
  explicit Mutex(bool r) : locks(0), unlocks(0), locked_at(0), unlocked_at(0), held(false), refuse(r) {}
  Mutex(Mutex const&) = delete;
  void lock() {
    ++locks;
    locked_at = ++steps;
    vf_ensure("lock() is called on a mutex that is not held by the guard already", !held);
    if (refuse) throw lock_error{locked_at};
    held = true;
  }
  void unlock() {
    ++unlocks;
    unlocked_at = ++steps;
    vf_ensure("unlock() is called on the mutex while it is held", held);
    held = false;
  }
  bool try_lock() { return false; }
};

template <int Pad> void g01_scope() {
  bool refuse = vf_bool("lock_throws"), thrown = vf_bool("scope_throws"), ret = vf_bool("early");
  steps = 0;
  Mutex<Pad> m(refuse), other(false);
  uint32_t work = 0;
  bool caught_lock = false, caught_scope = false, left_early = false;
  auto body = [&]() {
    lock_guard<Mutex<Pad>> g(m);
    vf_ensure("the mutex is locked once construction is over", vf_and(vf_and(m.held, m.locks == 1), m.unlocks == 0));
    work = ++steps;
    if (thrown) throw scope_error{7};
    if (ret) return true;
    work = ++steps;
    vf_ensure("the mutex stays locked throughout the scope", vf_and(m.held, m.unlocks == 0));
    return false;
  };
  try {
    left_early = body();
  } catch (lock_error const& e) {
    caught_lock = true;
    vf_ensure("the exception of lock() is the one the caller sees", e.code == 1);
  } catch (scope_error const&) {
    caught_scope = true;
  }
  vf_ensure("lock() is called exactly once", m.locks == 1);
  vf_ensure("unlock() is called exactly once, or not at all if lock() threw", m.unlocks == (refuse ? 0 : 1));
  vf_ensure("an exception of lock() reaches the caller", caught_lock == refuse);
  vf_ensure("nothing in the scope runs if lock() throws", vf_implies(refuse, work == 0));
  vf_ensure("an exception in the scope reaches the caller", caught_scope == (!refuse && thrown));
  vf_ensure("an early return leaves with its value", left_early == (!refuse && !thrown && ret));
  vf_ensure("lock() comes before everything in the scope and unlock() after it", vf_implies(!refuse, vf_and(m.locked_at < work, work < m.unlocked_at)));
  vf_ensure("no other mutex is touched", vf_and(other.locks == 0, other.unlocks == 0));
  vf_ensure("the mutex is released", !m.held);
  if (refuse) vf_reach("lock throws");
  else if (thrown) vf_reach("scope throws");
  else vf_reach("normal exit");
}
#define G01(N, P) VF_CONTRACT(G01_scope_##N) { vf_expect("lock throws"); vf_expect("scope throws"); vf_expect("normal exit"); g01_scope<P>(); }
G01(small, 1)
G01(large, 200)

// two guards nest: the inner one is released first, each on its own mutex
VF_CONTRACT(G01_nested) {
  steps = 0;
  bool t1 = vf_bool("outer_throws"), t2 = vf_bool("inner_throws");
  Mutex<1> a(false), b(t2);
  bool caught = false;
  try {
    lock_guard<Mutex<1>> g(a);
    lock_guard<Mutex<1>> h(b);
    if (t1) throw scope_error{1};
  } catch (...) {
    caught = true;
  }
  vf_ensure("the exception reaches the caller", caught == (t1 || t2));
  vf_ensure("the outer mutex is locked and unlocked once", vf_and(a.locks == 1, a.unlocks == 1));
  vf_ensure("the inner mutex is locked once and unlocked once if locking succeeded", vf_and(b.locks == 1, b.unlocks == (t2 ? 0 : 1)));
  vf_ensure("guards release in reverse order", vf_implies(!t2, b.unlocked_at < a.unlocked_at));
}
// re-locking after a scope: each scope locks and unlocks once, for any number of scopes (one arbitrary step)
VF_CONTRACT(G01_again) {
  steps = 0;
  Mutex<4> m(false);
  m.locks = m.unlocks = vf_idx("n", 0, 1000000);
  size_t const n = m.locks;
  { lock_guard<Mutex<4>> g(m); vf_ensure("held inside", m.held); }
  vf_ensure("every scope adds one lock and one unlock", vf_and(m.locks == n + 1, m.unlocks == n + 1));
}
struct DerivedMutex : Mutex<1> { DerivedMutex() : Mutex<1>(false) {} };
VF_CONTRACT(G01_types) {
  using G = lock_guard<Mutex<1>>;
  vf_ensure("a guard cannot be copied", vf_and(!std::is_copy_constructible<G>::value, !std::is_copy_assignable<G>::value));
  vf_ensure("a guard is made from a mutex explicitly", vf_and(std::is_constructible<G, Mutex<1>&>::value, !std::is_convertible<Mutex<1>&, G>::value));
  steps = 0;
  DerivedMutex d;
  { lock_guard<DerivedMutex> g(d); vf_ensure("held inside", d.held); }
  vf_ensure("a derived mutex is locked and unlocked once", vf_and(d.locks == 1, d.unlocks == 1));
}

// ---- M01 ---------------------------------------------------------------------------------------------------------------------
static size_t moves, copies, deaths;
struct move_error { uint32_t code; };

struct MoveOnly {
  uint32_t v;
  bool full, refuse;
  explicit MoveOnly(uint32_t x, bool r = false) : v(x), full(true), refuse(r) {}
  MoveOnly(MoveOnly&& o) : v(o.v), full(o.full), refuse(false) {
    ++moves;
    if (o.refuse) throw move_error{o.v};
    o.full = false;
    o.v = 0;
  }
  MoveOnly(MoveOnly const&) = delete;
  ~MoveOnly() { ++deaths; }
};
struct Both {
  uint32_t v;
  bool full, refuse;
  explicit Both(uint32_t x, bool r = false) : v(x), full(true), refuse(r) {}
  Both(Both&& o) : v(o.v), full(o.full), refuse(false) {
    ++moves;
    if (o.refuse) throw move_error{o.v};
    o.full = false;
    o.v = 0;
  }
  Both(Both const& o) : v(o.v), full(o.full), refuse(false) { ++copies; }
  ~Both() { ++deaths; }
};
// everything but the move constructor promises not to throw
struct Eager {
  uint32_t v;
  bool full, refuse;
  Eager() noexcept : v(0), full(false), refuse(false) {}
  explicit Eager(uint32_t x, bool r = false) noexcept : v(x), full(true), refuse(r) {}
  Eager(Eager&& o) noexcept(false) : v(o.v), full(o.full), refuse(false) {
    ++moves;
    if (o.refuse) throw move_error{o.v};
    o.full = false;
    o.v = 0;
  }
  Eager(Eager const& o) noexcept : v(o.v), full(o.full), refuse(false) { ++copies; }
  Eager& operator=(Eager&&) noexcept { return *this; }
  Eager& operator=(Eager const&) noexcept { return *this; }
  friend void swap(Eager&, Eager&) noexcept {}
};
struct Quiet {
  uint32_t v;
  bool full;
  explicit Quiet(uint32_t x) : v(x), full(true) {}
  Quiet(Quiet&& o) noexcept : v(o.v), full(o.full) { ++moves; o.full = false; o.v = 0; }
  Quiet(Quiet const& o) noexcept : v(o.v), full(o.full) { ++copies; }
};

// converts to its own list element, and has an operator& of its own
struct Odd;
struct Item {
  uint32_t n;
  Item(Odd&& o);
  Item(Odd const& o);
};
struct Odd {
  uint32_t v;
  bool full;
  explicit Odd(uint32_t x) : v(x), full(true) {}
  Odd(std::initializer_list<Item>) : v(0xbad), full(true) {}
  Odd(Odd&& o) noexcept : v(o.v), full(o.full) { ++moves; o.full = false; o.v = 0; }
  Odd(Odd const& o) noexcept : v(o.v), full(o.full) { ++copies; }
  Odd* operator&() { return nullptr; }
  Odd const* operator&() const { return nullptr; }
};
inline Item::Item(Odd&& o) : n(o.v) {}
inline Item::Item(Odd const& o) : n(o.v) {}

template <typename T> void m01_carry() {
  using W = move_wrapper<T>;
  uint32_t x = vf_u32("x"), y = vf_u32("y");
  T t(x);
  moves = copies = 0;
  W w(std::move(t));
  vf_ensure("wrapping moves the value once and never copies it", vf_and(moves == 1, copies == 0));
  vf_ensure("wrapping takes the value from the source", vf_and(vf_and(!t.full, w->full), w->v == x));
  W const& cw = w;
  vf_ensure("* and -> designate the held value", vf_and(vf_and(std::addressof(*w) == w.operator->(), std::addressof(*cw) == cw.operator->()), std::addressof(*w) == std::addressof(*cw)));
  vf_ensure("the held value lives inside the wrapper", vf_and(reinterpret_cast<char*>(std::addressof(*w)) >= reinterpret_cast<char*>(&w), reinterpret_cast<char*>(std::addressof(*w) + 1) <= reinterpret_cast<char*>(&w + 1)));
  vf_ensure("the value is reached through * as well", vf_and((*w).v == x, (*cw).v == x));
  moves = 0;
  W c(cw);
  vf_ensure("copying moves the value once and never copies it", vf_and(moves == 1, copies == 0));
  vf_ensure("copying takes the value from the source wrapper", vf_and(vf_and(!w->full, c->full), c->v == x));
  moves = 0;
  W m(std::move(c));
  vf_ensure("moving moves the value once and never copies it", vf_and(moves == 1, copies == 0));
  vf_ensure("moving takes the value from the source wrapper", vf_and(vf_and(!c->full, m->full), m->v == x));
  moves = 0;
  W n(m);
  vf_ensure("copying a non-const wrapper moves the value once", vf_and(moves == 1, copies == 0));
  vf_ensure("copying a non-const wrapper takes the value", vf_and(vf_and(!m->full, n->full), n->v == x));
  n->v = y;
  vf_ensure("writing through -> changes the held value", (*n).v == y);
  (*n).v = x;
  vf_ensure("writing through * changes the held value", n->v == x);
  vf_ensure("each wrapper holds its own value", vf_and(vf_and(!w->full, !c->full), !m->full));
}
VF_CONTRACT(M01_carry_moveonly) { m01_carry<MoveOnly>(); }
VF_CONTRACT(M01_carry_copyable) { m01_carry<Both>(); }
VF_CONTRACT(M01_carry_nothrow) { m01_carry<Quiet>(); }
VF_CONTRACT(M01_carry_odd) { m01_carry<Odd>(); }

template <typename T> void m01_throw(int how) {
  using W = move_wrapper<T>;
  uint32_t x = vf_u32("x");
  bool refuse = vf_bool("refuse");
  bool caught = false;
  T t(x, how == 0 && refuse);
  moves = copies = 0;
  try {
    W w(std::move(t));
    w->refuse = how != 0 && refuse;
    if (how == 1) {
      W const& c = w;
      W d(c);
      vf_ensure("a successful copy has the value", d->v == x);
    }
    if (how == 2) {
      W d(std::move(w));
      vf_ensure("a successful move has the value", d->v == x);
    }
  } catch (move_error const& e) {
    caught = true;
    vf_ensure("the caller sees the very exception of the value's move", e.code == x);
  }
  vf_ensure("an exception of the value's move constructor reaches the caller", caught == refuse);
  vf_ensure("the value is never copied", copies == 0);
}
VF_CONTRACT(M01_throw_wrap) { m01_throw<MoveOnly>(0); }
VF_CONTRACT(M01_throw_copy) { m01_throw<MoveOnly>(1); }
VF_CONTRACT(M01_throw_move) { m01_throw<MoveOnly>(2); }
VF_CONTRACT(M01_throw_wrap_copyable) { m01_throw<Both>(0); }
VF_CONTRACT(M01_throw_copy_copyable) { m01_throw<Both>(1); }
VF_CONTRACT(M01_throw_move_copyable) { m01_throw<Both>(2); }

VF_CONTRACT(M01_carry_eager) { m01_carry<Eager>(); }
VF_CONTRACT(M01_throw_wrap_eager) { m01_throw<Eager>(0); }
VF_CONTRACT(M01_throw_copy_eager) { m01_throw<Eager>(1); }
VF_CONTRACT(M01_throw_move_eager) { m01_throw<Eager>(2); }

VF_CONTRACT(M01_types) {
  using W = move_wrapper<MoveOnly>;
  vf_ensure("a wrapper of a move-only value can be copied and moved", vf_and(std::is_copy_constructible<W>::value, std::is_move_constructible<W>::value));
  vf_ensure("a wrapper whose value's move may throw does not promise otherwise", vf_and(!std::is_nothrow_copy_constructible<W>::value, !std::is_nothrow_move_constructible<W>::value));
  vf_ensure("a wrapper is made from an rvalue only", vf_and(std::is_constructible<W, MoveOnly&&>::value, !std::is_constructible<W, MoveOnly&>::value));
}

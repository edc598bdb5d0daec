// Contracts for embedded::function (F01-F04).
//
// Ghost state: channel 0 says at which addresses a target object lives.  The target types' own constructors, destructors and call
// operators carry the contracts "the place was empty", "the source is alive", "destroyed / called only while alive".
// Lifetime histories (F02, F03) are proved by induction: every operation starts from an arbitrary state of each wrapper involved
// (empty, or holding one of two target types with an arbitrary value) and ends in such a state again.
#include "vf.h"
#include "embedded/function.h"
using embedded::function;

static size_t calls, born, died, copied, moved;
static uint32_t seen_a, seen_b, which;
static const void* seen_p;
static const void* seen_q;

inline void reset() { calls = born = died = copied = moved = 0; }
inline bool alive(const void* p) { return vf_ghost_get(0, p, 1); }
inline void birth(const void* p) {
  vf_ensure("a target is constructed where none lives", !alive(p));
  vf_ghost_set(0, p, 1, true);
  ++born;
}
inline void death(const void* p) {
  vf_ensure("a target is destroyed only while it is alive", alive(p));
  vf_ghost_set(0, p, 1, false);
  ++died;
}
struct boom { uint32_t code; };

// a callable of a given size and alignment with state
template <typename V, size_t Size, size_t Align> struct alignas(Align) Target {
  V v[Size / sizeof(V)];
  explicit Target(V x) {
    birth(this);
    for (size_t i = 0; i < Size / sizeof(V); ++i) v[i] = V(x + i);
  }
  Target(Target const& o) noexcept {
    vf_ensure("the source of a copy is alive", alive(&o));
    birth(this);
    ++copied;
    for (size_t i = 0; i < Size / sizeof(V); ++i) v[i] = o.v[i];
  }
  Target(Target&& o) noexcept {
    vf_ensure("the source of a move is alive", alive(&o));
    birth(this);
    ++moved;
    for (size_t i = 0; i < Size / sizeof(V); ++i) { v[i] = o.v[i]; o.v[i] = V(0xee); }
  }
  ~Target() {
    death(this);
    for (size_t i = 0; i < Size / sizeof(V); ++i) v[i] = V(0xdd);
  }
  bool intact() const {
    bool ok = true;
    for (size_t i = 1; i < Size / sizeof(V); ++i) ok = vf_and(ok, v[i] == V(v[0] + i));
    return ok;
  }
  void add(V d) { for (size_t i = 0; i < Size / sizeof(V); ++i) v[i] = V(v[i] + d); }
  V operator()(V a, V b) {
    vf_ensure("a target is called only while it is alive", alive(this));
    vf_ensure("the target's state is intact when it is called", intact());
    ++calls;
    seen_a = a;
    seen_b = b;
    add(a);
    return V(v[0] - b);
  }
};

template <typename F, typename T> F* make(void* where, T&& t) { return ::new (where) F(std::forward<T>(t)); }

// ---- F01 ---------------------------------------------------------------------------------------------------------------------
template <typename V, size_t Size, size_t TAl, size_t Cap, size_t Al, bool Rvalue> void f01_call() {
  using T = Target<V, Size, TAl>;
  using F = function<V(V, V), Cap, Al>;
  V x = vf_any<V>::get("x"), a = vf_any<V>::get("a"), b = vf_any<V>::get("b"), c = vf_any<V>::get("c"), d = vf_any<V>::get("d");
  reset();
  {
    T t(x);
    F f(static_cast<typename std::conditional<Rvalue, T&&, T&>::type>(t));
    V r = f(a, b);
    vf_ensure("the target is called exactly once", calls == 1);
    vf_ensure("the target gets exactly the arguments", vf_and(seen_a == a, seen_b == b));
    vf_ensure("the target's result is returned", r == V(x + a - b));
    r = f(c, d);
    vf_ensure("the target is called exactly once per call", calls == 2);
    vf_ensure("the target gets exactly the arguments of the second call", vf_and(seen_a == c, seen_b == d));
    vf_ensure("the target's state persists between calls", r == V(x + a + c - d));
    vf_ensure("calling neither copies nor moves the target", copied + moved == 1);
    vf_reach("called");
  }
}
#define F01(NAME, ...) VF_CONTRACT(F01_##NAME) { vf_expect("called"); f01_call<__VA_ARGS__>(); }
F01(call_default, uint32_t, 4, 4, 3 * sizeof(void*), alignof(void*), true)
F01(call_default_full, uint32_t, 24, 8, 3 * sizeof(void*), alignof(void*), false)
F01(call_cap1, uint8_t, 1, 1, 1, 1, true)
F01(call_cap4_align4, uint32_t, 4, 4, 4, 4, false)
F01(call_cap64, uint32_t, 64, 8, 64, 8, true)
F01(call_cap32_align16, uint32_t, 32, 16, 32, 16, true)
F01(call_cap128_align32, uint32_t, 128, 32, 128, 32, false)
F01(call_small_in_align64, uint16_t, 6, 2, 8, 64, true)

// references reach the target as the same objects and come back as such
struct RefTarget {
  uint32_t& operator()(uint32_t& a, uint32_t const& b) const {
    ++calls;
    seen_p = &a;
    seen_q = &b;
    a += b;
    return a;
  }
};
template <typename Sig, size_t Cap, size_t Al> void f01_refs() {
  function<Sig, Cap, Al> f{RefTarget()};
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  uint32_t const a0 = a, b0 = b;
  reset();
  uint32_t& r = f(a, b);
  vf_ensure("the target is called exactly once", calls == 1);
  vf_ensure("reference arguments designate the caller's objects", vf_and(seen_p == &a, seen_q == &b));
  vf_ensure("a returned reference designates the target's object", &r == &a);
  vf_ensure("the target acts on the caller's objects", vf_and(a == a0 + b0, b == b0));
}
VF_CONTRACT(F01_references) { f01_refs<uint32_t&(uint32_t&, uint32_t const&), 3 * sizeof(void*), alignof(void*)>(); }
VF_CONTRACT(F01_references_cap8) { f01_refs<uint32_t&(uint32_t&, uint32_t const&), 8, 16>(); }
VF_CONTRACT(F01_references_const) { f01_refs<uint32_t&(uint32_t&, uint32_t const&) const, 3 * sizeof(void*), alignof(void*)>(); }
VF_CONTRACT(F01_references_const_cap1) { f01_refs<uint32_t&(uint32_t&, uint32_t const&) const, 1, 1>(); }

// move-only arguments and results
struct Box {
  uint32_t v;
  bool full;
  explicit Box(uint32_t x) : v(x), full(true) {}
  Box(Box&& o) noexcept : v(o.v), full(o.full) { o.full = false; o.v = 0; }
  Box(Box const&) = delete;
};
struct BoxTarget {
  Box operator()(Box x, Box&& y, Box& z) const {
    ++calls;
    vf_ensure("move-only arguments arrive with their value", vf_and(vf_and(x.full, y.full), z.full));
    seen_a = x.v;
    seen_b = y.v;
    seen_p = &y;
    seen_q = &z;
    return Box(x.v ^ y.v ^ z.v);
  }
};
template <typename Sig, size_t Cap, size_t Al> void f01_moveonly() {
  function<Sig, Cap, Al> f{BoxTarget()};
  uint32_t a = vf_u32("a"), b = vf_u32("b"), c = vf_u32("c");
  Box x(a), y(b), z(c);
  reset();
  Box r = f(std::move(x), std::move(y), z);
  vf_ensure("the target is called exactly once", calls == 1);
  vf_ensure("move-only arguments reach the target unchanged", vf_and(seen_a == a, seen_b == b));
  vf_ensure("an rvalue reference designates the caller's object", seen_p == &y);
  vf_ensure("an lvalue reference designates the caller's object", seen_q == &z);
  vf_ensure("a value argument is moved, a reference argument is not", vf_and(vf_and(!x.full, y.full), z.full));
  vf_ensure("a move-only result is returned", vf_and(r.full, r.v == (a ^ b ^ c)));
}
VF_CONTRACT(F01_moveonly) { f01_moveonly<Box(Box, Box&&, Box&), 3 * sizeof(void*), alignof(void*)>(); }
VF_CONTRACT(F01_moveonly_cap1) { f01_moveonly<Box(Box, Box&&, Box&), 1, 1>(); }
VF_CONTRACT(F01_moveonly_const) { f01_moveonly<Box(Box, Box&&, Box&) const, 3 * sizeof(void*), alignof(void*)>(); }
VF_CONTRACT(F01_moveonly_const_cap1) { f01_moveonly<Box(Box, Box&&, Box&) const, 1, 1>(); }

// an rvalue reference reaches the target as the caller's object, is consumed only by the target, and may come back
struct Pass {
  bool take;
  uint32_t got;
  Box&& operator()(Box&& x, Box const&& y, uint32_t*&& p) const {
    ++calls;
    seen_p = &x;
    seen_q = &y;
    *p += 1;
    p = nullptr;
    if (take) { Box const b(std::move(x)); seen_a = b.v; }
    return std::move(x);
  }
};
template <typename Sig> void f01_rvalues() {
  uint32_t const a = vf_u32("a"), b = vf_u32("b");
  uint32_t n = vf_u32("n");
  uint32_t const n0 = n;
  bool const take = vf_bool("take");
  function<Sig> f{Pass{take, 0}};
  Box x(a);
  Box const y(b);
  uint32_t* p = &n;
  reset();
  Box&& r = f(std::move(x), std::move(y), std::move(p));
  vf_ensure("the target is called exactly once", calls == 1);
  vf_ensure("rvalue references designate the caller's objects", vf_and(seen_p == &x, seen_q == &y));
  vf_ensure("a returned rvalue reference designates the target's object", &r == &x);
  vf_ensure("what the target does to an rvalue reaches the caller's object", vf_and(p == nullptr, n == n0 + 1));
  vf_ensure("an rvalue is consumed exactly if the target consumes it", vf_and(x.full == !take, vf_and(x.v == (take ? 0u : a), vf_and(y.full, y.v == b))));
}
VF_CONTRACT(F01_rvalues) { f01_rvalues<Box&&(Box&&, Box const&&, uint32_t*&&)>(); }
VF_CONTRACT(F01_rvalues_const) { f01_rvalues<Box&&(Box&&, Box const&&, uint32_t*&&) const>(); }

// class arguments by value: the target's copy equals the caller's object, which is left alone
struct Pod { uint32_t a, b; uint64_t c; };
template <typename Sig> void f01_class_argument() {
  function<Sig> f{[](Pod p, Pod const& q, uint8_t k) {
    ++calls;
    p.a += 1;
    return p.c + q.c + p.a + q.b + k;
  }};
  Pod p{vf_u32("pa"), vf_u32("pb"), vf_u64("pc")}, q{vf_u32("qa"), vf_u32("qb"), vf_u64("qc")};
  uint8_t k = vf_u8("k");
  Pod const p0 = p, q0 = q;
  reset();
  uint64_t r = f(p, q, k);
  vf_ensure("the target is called exactly once", calls == 1);
  vf_ensure("the target's result is returned", r == p0.c + q0.c + uint32_t(p0.a + 1) + q0.b + k);
  vf_ensure("the caller's arguments are unchanged", vf_and(vf_bytes_eq(&p, &p0, sizeof p), vf_bytes_eq(&q, &q0, sizeof q)));
}
VF_CONTRACT(F01_class_argument) { f01_class_argument<uint64_t(Pod, Pod const&, uint8_t)>(); }
VF_CONTRACT(F01_class_argument_const) { f01_class_argument<uint64_t(Pod, Pod const&, uint8_t) const>(); }

// exceptions of the target reach the caller, and its state survives them
struct Thrower {
  mutable uint32_t n;
  uint32_t operator()(uint32_t a, bool t) const {
    ++calls;
    n += a;
    if (t) throw boom{n};
    return n;
  }
};
template <typename Sig, size_t Cap, size_t Al> void f01_throw() {
  uint32_t x = vf_u32("x"), a = vf_u32("a"), b = vf_u32("b");
  bool t = vf_bool("t");
  function<Sig, Cap, Al> f{Thrower{x}};
  reset();
  bool caught = false;
  uint32_t r = 0;
  try {
    r = f(a, t);
  } catch (boom const& e) {
    caught = true;
    vf_ensure("the very exception reaches the caller", e.code == x + a);
  }
  vf_ensure("exactly the target's exceptions reach the caller", caught == t);
  vf_ensure("without an exception the result is returned", vf_implies(!t, r == x + a));
  vf_ensure("the target is called exactly once", calls == 1);
  r = f(b, false);
  vf_ensure("the wrapper stays usable after an exception and keeps its state", r == x + a + b);
}
VF_CONTRACT(F01_exceptions) { f01_throw<uint32_t(uint32_t, bool), 3 * sizeof(void*), alignof(void*)>(); }
VF_CONTRACT(F01_exceptions_cap16) { f01_throw<uint32_t(uint32_t, bool), 16, 16>(); }
VF_CONTRACT(F01_exceptions_const) { f01_throw<uint32_t(uint32_t, bool) const, 3 * sizeof(void*), alignof(void*)>(); }

// kinds of callables: plain functions, lambdas, std::ref, member functions and member objects, converted results
static uint32_t plain(uint32_t a, uint32_t b) { ++calls; seen_a = a; seen_b = b; return a - b; }
static uint32_t other(uint32_t a, uint32_t b) { return a + b + 77; }
VF_CONTRACT(F01_function_pointer) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  bool o = vf_bool("other");
  reset();
  if (o) {
    function<uint64_t(uint32_t, uint32_t)> f(other);
    vf_ensure("the function pointed to is called", f(a, b) == uint32_t(a + b + 77));
  } else {
    function<uint64_t(uint32_t, uint32_t)> f(&plain);
    uint64_t r = f(a, b);
    vf_ensure("the function pointed to is called exactly once", vf_and(calls == 1, vf_and(seen_a == a, seen_b == b)));
    vf_ensure("the result is converted to the signature's type", r == uint32_t(a - b));
  }
}
VF_CONTRACT(F01_lambda) {
  uint32_t a = vf_u32("a"), x = vf_u32("x"), y = vf_u32("y"), z = vf_u32("z");
  function<uint32_t(uint32_t)> f{[x, y, z](uint32_t q) { return (q ^ x) + (y ^ z); }};
  vf_ensure("captured state is used", f(a) == (a ^ x) + (y ^ z));
  function<void()> g{[&x]() { x += 1; }};
  uint32_t const x0 = x;
  g();
  vf_ensure("a captured reference designates the original", x == x0 + 1);
  function<void(uint32_t)> h = std::move(f) ? function<void(uint32_t)>([&x](uint32_t v) { x = v; }) : function<void(uint32_t)>();
  h(a);
  vf_ensure("void functions act", x == a);
}
struct Obj {
  uint32_t m;
  uint32_t get(uint32_t a) const { ++calls; seen_p = this; return m + a; }
  uint32_t set(uint32_t a) { ++calls; seen_p = this; uint32_t o = m; m = a; return o; }
};
VF_CONTRACT(F01_member_function) {
  Obj o{vf_u32("m")};
  uint32_t const m0 = o.m;
  uint32_t a = vf_u32("a");
  reset();
  function<uint32_t(Obj&, uint32_t)> f(&Obj::set);
  { auto const got = f(o, a); vf_ensure("a member function is called on the object given", vf_and(got == m0, vf_and(calls == 1, seen_p == &o))); }
  vf_ensure("the object is modified", o.m == a);
  function<uint32_t(Obj const&, uint32_t)> g(&Obj::get);
  { auto const got = g(o, m0); vf_ensure("a const member function is called on the object given", vf_and(got == a + m0, vf_and(calls == 2, seen_p == &o))); }
  function<uint32_t(Obj const&)> h(&Obj::m);
  vf_ensure("a member object is read from the object given", h(o) == a);
  g = &Obj::get;
  vf_ensure("assigning a member pointer replaces the target", g(o, 1) == a + 1);
}
VF_CONTRACT(F01_reference_wrapper) {
  using T = Target<uint32_t, 4, 4>;
  uint32_t x = vf_u32("x"), a = vf_u32("a"), b = vf_u32("b");
  reset();
  T t(x);
  function<uint32_t(uint32_t, uint32_t)> f(std::ref(t));
  uint32_t r = f(a, b);
  vf_ensure("a reference wrapper calls the referenced object", vf_and(r == x + a - b, vf_and(calls == 1, t.v[0] == x + a)));
}
// a callable that is also one of its own list elements, and has an operator& and an operator, of its own
struct OddTarget;
struct OddItem {
  uint32_t n;
  OddItem(OddTarget const& o);
};
struct OddTarget {
  uint32_t v;
  explicit OddTarget(uint32_t x) : v(x) {}
  OddTarget(std::initializer_list<OddItem>) : v(0xbad) {}
  OddTarget(OddTarget&& o) noexcept : v(o.v) { ++moved; o.v = 0xeee; }
  OddTarget(OddTarget const& o) noexcept : v(o.v) { ++copied; }
  OddTarget* operator&() { return nullptr; }
  OddTarget const* operator&() const { return nullptr; }
  uint32_t operator()(uint32_t a) { ++calls; v += a; return v; }
};
inline OddItem::OddItem(OddTarget const& o) : n(o.v) {}
VF_CONTRACT(F01_odd_target) {
  uint32_t const x = vf_u32("x"), a = vf_u32("a"), b = vf_u32("b");
  reset();
  OddTarget t(x);
  function<uint32_t(uint32_t)> f(t), g(OddTarget{x + 1});
  vf_ensure("an lvalue is copied and an rvalue moved into the wrapper", vf_and(copied == 1, moved == 1));
  { auto const got = f(a); vf_ensure("the very object given is called", vf_and(got == x + a, calls == 1)); }
  { auto const got = g(b); vf_ensure("the very object moved in is called", vf_and(got == x + 1 + b, calls == 2)); }
  g = std::move(f);
  { auto const got = g(b); vf_ensure("the object moved between wrappers is called", got == x + a + b); }
}
// a target that calls its own wrapper: every call arrives, with its arguments, on the same object
static function<uint32_t(uint32_t, uint32_t)>* outer;
struct Recursive {
  uint32_t depth;
  uint32_t operator()(uint32_t n, uint32_t k) {
    ++calls;
    ++depth;
    return n == 0 ? k + depth : (*outer)(n - 1, k + 1);
  }
};
VF_CONTRACT(F01_recursive) {
  uint32_t const k = vf_u32("k");
  size_t const n = vf_idx("n", 0, 4);
  function<uint32_t(uint32_t, uint32_t)> f(Recursive{0});
  outer = &f;
  reset();
  auto const got = f(uint32_t(n), k);
  vf_ensure("a call made by the target itself is forwarded like any other", vf_and(calls == n + 1, got == k + uint32_t(n) + uint32_t(n + 1)));
  bool thrown = false;
  function<void(bool)> g{[&](bool t) { ++calls; if (t) throw boom{k}; }};
  calls = 0;
  for (int i = 0; i < 3; ++i) {
    thrown = false;
    try {
      g(i != 1);
    } catch (boom const& e) {
      thrown = e.code == k;
    }
    vf_ensure("every call reaches the target, whatever became of the one before", vf_and(thrown == (i != 1), calls == size_t(i) + 1));
  }
}
// two wrappers never share state
VF_CONTRACT(F01_independent) {
  using T = Target<uint32_t, 8, 4>;
  using F = function<uint32_t(uint32_t, uint32_t)>;
  uint32_t x = vf_u32("x"), y = vf_u32("y"), a = vf_u32("a"), b = vf_u32("b"), c = vf_u32("c");
  reset();
  F f{T(x)}, g{T(y)};
  f(a, 0);
  vf_ensure("one wrapper's calls do not affect another", g(b, 0) == y + b);
  vf_ensure("one wrapper's calls do not affect the first", f(c, 0) == x + a + c);
}

// ---- F02, F03 ---------------------------------------------------------------------------------------------------------------
using Small = Target<uint32_t, 4, 4>;
using Large = Target<uint32_t, 24, 8>;
// without any state: only its construction and destruction can be observed
constexpr uint32_t NIL_VALUE = 5;
struct NilTarget {
  NilTarget() { birth(this); }
  NilTarget(NilTarget const& o) noexcept {
    vf_ensure("the source of a copy is alive", alive(&o));
    birth(this);
    ++copied;
  }
  NilTarget(NilTarget&& o) noexcept {
    vf_ensure("the source of a move is alive", alive(&o));
    birth(this);
    ++moved;
  }
  ~NilTarget() { death(this); }
  uint32_t operator()(uint32_t a, uint32_t b) {
    vf_ensure("a target is called only while it is alive", alive(this));
    ++calls;
    return NIL_VALUE + a - b;
  }
};
static_assert(std::is_empty<NilTarget>::value, "");
// bytes only: trivially copyable and destructible, filling the storage
template <size_t Words> struct PlainTarget {
  uint32_t v[Words];
  static PlainTarget of(uint32_t x) {
    PlainTarget t;
    for (size_t i = 0; i < Words; ++i) t.v[i] = x + uint32_t(i);
    return t;
  }
  uint32_t operator()(uint32_t a, uint32_t b) {
    bool whole = true;
    for (size_t i = 1; i < Words; ++i) whole = vf_and(whole, v[i] == v[0] + uint32_t(i));
    vf_ensure("the target's state is intact when it is called", whole);
    ++calls;
    for (size_t i = 0; i < Words; ++i) v[i] += a;
    return v[0] - b;
  }
};
// knows where it lives: trivially destructible, but its moves are not copies of bytes
struct SelfTarget {
  SelfTarget const* me;
  uint32_t v;
  explicit SelfTarget(uint32_t x) : me(this), v(x) {}
  SelfTarget(SelfTarget const& o) noexcept : me(this), v(o.v) { vf_ensure("the source of a copy lives where it was constructed", o.me == &o); }
  SelfTarget(SelfTarget&& o) noexcept : me(this), v(o.v) { vf_ensure("the source of a move lives where it was constructed", o.me == &o); o.v = 0xeeee; }
  uint32_t operator()(uint32_t a, uint32_t b) {
    vf_ensure("the target called is the object constructed in its place", me == this);
    ++calls;
    v += a;
    return v - b;
  }
};

// an arbitrary wrapper: 0 empty, 1 holds a Small, 2 a Large, 3 a NilTarget, 4 a PlainTarget, 5 a SelfTarget; v is the target's value
template <typename F> struct slot {
  alignas(F) unsigned char raw[sizeof(F)];
  int state;
  uint32_t v;
  F& f() { return *reinterpret_cast<F*>(raw); }
  void fill(const char* s1, const char* s2, const char* value) {
    bool const some = vf_bool(s1), large = vf_bool(s2);
    v = vf_u32(value);
    state = some ? (large ? 2 : 1) : 0;
    if (!some && large) {   // the other kinds of targets
      size_t const k = v % 4;
      state = k == 0 ? 3 : k == 1 ? 4 : k == 2 ? 5 : 0;
      if (state == 3) v = NIL_VALUE;
    }
    build(raw, state, v);
  }
  static void build(void* where, int state, uint32_t v) {
    if (state == 0) ::new (where) F();
    else if (state == 1) ::new (where) F(Small(v));
    else if (state == 2) ::new (where) F(Large(v));
    else if (state == 3) ::new (where) F(NilTarget());
    else if (state == 4) ::new (where) F(PlainTarget<6>::of(v));
    else ::new (where) F(SelfTarget(v));
  }
};

// the wrapper is in the state given: observably, and indistinguishable from a new one in that state (closes the induction)
template <typename F> void check(F& f, int state, uint32_t v) {
  vf_ensure("a wrapper converts to true exactly when it has a target", bool(f) == (state != 0));
  {
    alignas(F) unsigned char raw[sizeof(F)];
    size_t const b = born, d = died;
    slot<F>::build(raw, state, v);
    vf_ensure_inv("the wrapper equals a new one in the same state", vf_bytes_eq(&f, raw, sizeof(void*)));
    reinterpret_cast<F*>(raw)->~F();
    born = b;
    died = d;
  }
  size_t const c = calls;
  uint32_t const a = vf_u32("ca"), k = vf_u32("cb");
  bool thrown = false;
  uint32_t r = 0;
  try {
    r = f(a, k);
  } catch (std::bad_function_call const&) {
    thrown = true;
  }
  vf_ensure("an empty wrapper throws bad_function_call when called, any other does not", thrown == (state == 0));
  if (state != 0) {
    vf_ensure("the target is called once and with its own state", vf_and(calls == c + 1, r == v + a - k));
  } else {
    vf_ensure("an empty wrapper calls nothing", calls == c);
  }
}
// does the wrapper hold a target whose construction and destruction is counted
inline size_t held(int state) { return state >= 1 && state <= 3 ? 1 : 0; }

template <typename F> void f02_construct(bool rvalue, bool large) {
  uint32_t x = vf_u32("x");
  alignas(F) unsigned char raw[sizeof(F)];
  F* f;
  reset();
  {
    if (large) {
      Large t(x);
      reset();
      f = rvalue ? ::new (raw) F(std::move(t)) : ::new (raw) F(t);
      vf_ensure("the target is constructed exactly once, in place", vf_and(born == 1, died == 0));
      vf_ensure("it is copied from an lvalue and moved from an rvalue", vf_and(copied == (rvalue ? 0u : 1u), moved == (rvalue ? 1u : 0u)));
    } else {
      Small t(x);
      reset();
      f = rvalue ? ::new (raw) F(std::move(t)) : ::new (raw) F(t);
      vf_ensure("the target is constructed exactly once, in place", vf_and(born == 1, died == 0));
      vf_ensure("it is copied from an lvalue and moved from an rvalue", vf_and(copied == (rvalue ? 0u : 1u), moved == (rvalue ? 1u : 0u)));
    }
  }
  reset();
  check(*f, large ? 2 : 1, x);
  vf_ensure("observing a wrapper neither copies, moves, constructs nor destroys its target", vf_and(born == 0, died == 0));
  f->~F();
  vf_ensure("destroying the wrapper destroys its target exactly once", vf_and(born == 0, died == 1));
}

template <typename F> void f02_destroy() {
  slot<F> s;
  s.fill("some", "large", "v");
  reset();
  s.f().~F();
  vf_ensure("destroying a wrapper destroys exactly its target", vf_and(born == 0, died == held(s.state)));
}

template <typename F> void f02_move_construct() {
  slot<F> s;
  s.fill("some", "large", "v");
  alignas(F) unsigned char raw[sizeof(F)];
  reset();
  F* d = ::new (raw) F(std::move(s.f()));
  vf_ensure("moving a wrapper moves its target once and destroys the source's", vf_and(vf_and(born == held(s.state), died == held(s.state)), moved == held(s.state)));
  check(*d, s.state, s.v);
  check(s.f(), 0, 0);
  reset();
  s.f().~F();
  vf_ensure("the moved-from wrapper holds nothing any more", died == 0);
  d->~F();
  vf_ensure("the target is destroyed once, with its new owner", died == held(s.state));
}

enum assign { MOVE, NULLPTR, FROM_SMALL, FROM_LARGE_LVALUE, FROM_NIL, FROM_PLAIN, FROM_SELF_LVALUE, FROM_EMPTY, FROM_TEMPORARY, TWICE, MOVED_FROM };
template <typename F, assign A> void f02_assign() {
  slot<F> d, s;
  d.fill("d_some", "d_large", "d_v");
  s.fill("s_some", "s_large", "s_v");
  uint32_t x = vf_u32("x");
  int want = 0;
  uint32_t value = 0;
  int left = s.state;   // what the source holds afterwards
  reset();
  if (A == MOVE) {
    F& r = (d.f() = std::move(s.f()));
    vf_ensure("assignment returns the wrapper", &r == &d.f());
    want = s.state; value = s.v; left = 0;
  } else if (A == NULLPTR) {
    F& r = (d.f() = nullptr);
    vf_ensure("assignment returns the wrapper", &r == &d.f());
  } else if (A == FROM_SMALL) {
    d.f() = Small(x);
    want = 1; value = x;
  } else if (A == FROM_LARGE_LVALUE) {
    Large t(x);
    d.f() = t;
    want = 2; value = x;
    vf_ensure("an assigned lvalue is left alone", vf_and(t.v[0] == x, t.intact()));
  } else if (A == FROM_NIL) {
    d.f() = NilTarget();
    want = 3; value = NIL_VALUE;
  } else if (A == FROM_PLAIN) {
    d.f() = PlainTarget<6>::of(x);
    want = 4; value = x;
  } else if (A == FROM_SELF_LVALUE) {
    SelfTarget t(x);
    d.f() = t;
    want = 5; value = x;
    vf_ensure("an assigned lvalue is left alone", vf_and(t.v == x, t.me == &t));
  } else if (A == FROM_EMPTY) {
    F e;
    d.f() = std::move(e);
    vf_ensure("the empty source stays empty", !bool(e));
  } else if (A == FROM_TEMPORARY) {
    d.f() = F(Large(x));
    want = 2; value = x;
  } else if (A == TWICE) {
    d.f() = std::move(s.f());
    d.f() = std::move(s.f());
    left = 0;
  } else {
    F t(std::move(s.f()));
    s.f() = std::move(d.f());
    d.f() = std::move(t);
    want = s.state; value = s.v;
    left = d.state;
    check(t, 0, 0);
  }
  vf_ensure("assignment leaves exactly the targets that are still held", born + held(d.state) + held(s.state) == died + held(want) + held(left));
  check(d.f(), want, value);
  check(s.f(), left, A == MOVED_FROM ? d.v : s.v);
  reset();
  d.f().~F();
  vf_ensure("the assigned target is destroyed once, with its wrapper", vf_and(born == 0, died == held(want)));
  s.f().~F();
  vf_ensure("the source's remaining target is destroyed once, with its wrapper", vf_and(born == 0, died == held(want) + held(left)));
}

// a wrapper moved onto itself keeps its target, alive and called as before
template <typename F> __attribute__((noinline)) F& move_assign(F& d, F& s) { return d = std::move(s); }
template <typename F> void f02_assign_self() {
  slot<F> s;
  s.fill("some", "large", "v");
  reset();
  F& r = move_assign(s.f(), s.f());
  vf_ensure("assignment returns the wrapper", &r == &s.f());
  vf_ensure("a wrapper assigned to itself keeps exactly its target", born == died);
  check(s.f(), s.state, s.v);
  reset();
  s.f().~F();
  vf_ensure("the target is destroyed once, with its wrapper", vf_and(born == 0, died == held(s.state)));
}

using FD = function<uint32_t(uint32_t, uint32_t)>;
using FB = function<uint32_t(uint32_t, uint32_t), 40, 16>;
#define F02(NAME, F) \
  VF_CONTRACT(F02_construct_##NAME) { f02_construct<F>(vf_bool("rvalue"), vf_bool("is_large")); } \
  VF_CONTRACT(F02_destroy_##NAME) { f02_destroy<F>(); } \
  VF_CONTRACT(F02_move_construct_##NAME) { f02_move_construct<F>(); } \
  VF_CONTRACT(F02_assign_move_##NAME) { f02_assign<F, MOVE>(); } \
  VF_CONTRACT(F02_assign_nullptr_##NAME) { f02_assign<F, NULLPTR>(); } \
  VF_CONTRACT(F02_assign_small_##NAME) { f02_assign<F, FROM_SMALL>(); } \
  VF_CONTRACT(F02_assign_large_##NAME) { f02_assign<F, FROM_LARGE_LVALUE>(); } \
  VF_CONTRACT(F02_assign_nil_##NAME) { f02_assign<F, FROM_NIL>(); } \
  VF_CONTRACT(F02_assign_plain_##NAME) { f02_assign<F, FROM_PLAIN>(); } \
  VF_CONTRACT(F02_assign_lvalue_##NAME) { f02_assign<F, FROM_SELF_LVALUE>(); } \
  VF_CONTRACT(F02_assign_empty_##NAME) { f02_assign<F, FROM_EMPTY>(); } \
  VF_CONTRACT(F02_assign_temporary_##NAME) { f02_assign<F, FROM_TEMPORARY>(); } \
  VF_CONTRACT(F02_assign_twice_##NAME) { f02_assign<F, TWICE>(); } \
  VF_CONTRACT(F02_assign_swap_##NAME) { f02_assign<F, MOVED_FROM>(); } \
  VF_CONTRACT(F02_assign_self_##NAME) { f02_assign_self<F>(); }
F02(default, FD)
F02(cap40, FB)

// Kinds of targets by size, destructor and way of moving: whatever the type traits, an object is made by its constructors, is called
// where it was made, and is destroyed by its destructor.  `latest` is the place of the object made last; one is in use at a time.
static const void* latest;
template <bool Dtor> struct Bye {};
template <> struct Bye<true> {
  Bye() = default;
  Bye(Bye const&) = default;
  Bye(Bye&&) = default;
  Bye& operator=(Bye const&) = default;
  ~Bye() { ++died; }
};
enum how { COPY_AND_MOVE, COPY_ONLY, MOVE_ONLY };
template <size_t Size, bool Dtor, how H> struct Kind : Bye<Dtor> {
  uint8_t n[Size];
  explicit Kind(uint8_t x) { made(x); }
  Kind(Kind const& o) noexcept : Bye<Dtor>(o) { made(o.n[0]); }
  Kind(Kind&& o) noexcept : Bye<Dtor>(o) { made(o.n[0]); o.n[0] = 0xee; }
  void made(uint8_t x) {
    ++born;
    latest = this;
    for (size_t i = 0; i < Size; ++i) n[i] = uint8_t(x + i);
  }
  uint32_t operator()(uint32_t a) {
    ++calls;
    vf_ensure("the target called is the object its constructor made in that place", latest == this);
    bool ok = true;
    for (size_t i = 1; i < Size; ++i) ok = vf_and(ok, n[i] == uint8_t(n[0] + i));
    vf_ensure("the target's state is intact when it is called", ok);
    return a + n[0];
  }
};
template <size_t Size, bool Dtor> struct Kind<Size, Dtor, COPY_ONLY> : Kind<Size, Dtor, COPY_AND_MOVE> {
  using base = Kind<Size, Dtor, COPY_AND_MOVE>;
  explicit Kind(uint8_t x) : base(x) {}
  Kind(Kind const& o) noexcept : base(static_cast<base const&>(o)) {}
};
template <size_t Size, bool Dtor> struct Kind<Size, Dtor, MOVE_ONLY> : Kind<Size, Dtor, COPY_AND_MOVE> {
  using base = Kind<Size, Dtor, COPY_AND_MOVE>;
  explicit Kind(uint8_t x) : base(x) {}
  Kind(Kind const&) = delete;
  Kind(Kind&& o) noexcept : base(static_cast<base&&>(o)) {}
};
template <typename F, typename K, bool Dtor> void f02_kind() {
  uint8_t const x = vf_u8("x"), y = vf_u8("y");
  uint32_t const a = vf_u32("a");
  reset();
  latest = nullptr;
  {
    F f{K(x)};
    vf_ensure("one target is held", vf_implies(Dtor, born == died + 1));
    { auto const got = f(a); vf_ensure("the target held is called", vf_and(got == a + x, calls == 1)); }
    F g(std::move(f));
    vf_ensure("moving a wrapper leaves one target", vf_implies(Dtor, born == died + 1));
    { auto const got = g(a); vf_ensure("the target moved is called", vf_and(got == a + x, calls == 2)); }
    F h;
    h = std::move(g);
    vf_ensure("moving a wrapper leaves one target", vf_implies(Dtor, born == died + 1));
    { auto const got = h(a); vf_ensure("the target moved back is called", vf_and(got == a + x, calls == 3)); }
    h = K(y);
    vf_ensure("assigning a target ends the one held before", vf_implies(Dtor, born == died + 1));
    { auto const got = h(a); vf_ensure("the target assigned is called", vf_and(got == a + y, calls == 4)); }
    g = std::move(h);
    { auto const got = g(a); vf_ensure("the target moved is called", vf_and(got == a + y, calls == 5)); }
    g = nullptr;
    vf_ensure("resetting ends the target", vf_implies(Dtor, born == died));
    g = K(x);
  }
  vf_ensure("every target made is destroyed once", died == (Dtor ? born : 0));
}
template <size_t Size, how H> void f02_kinds() {
  using F = function<uint32_t(uint32_t)>;
  using G = function<uint32_t(uint32_t), Size, 1>;
  f02_kind<F, Kind<Size, false, H>, false>();
  f02_kind<F, Kind<Size, true, H>, true>();
  f02_kind<G, Kind<Size, false, H>, false>();
  f02_kind<G, Kind<Size, true, H>, true>();
}
#define F02K(S) \
  VF_CONTRACT(F02_kind_move_##S) { f02_kinds<S, COPY_AND_MOVE>(); } \
  VF_CONTRACT(F02_kind_copy_##S) { f02_kinds<S, COPY_ONLY>(); } \
  VF_CONTRACT(F02_kind_moveonly_##S) { f02_kinds<S, MOVE_ONLY>(); }
F02K(1) F02K(3) F02K(4) F02K(8) F02K(16) F02K(24)

// native only: random histories over three wrappers
extern "C" void vn_F02_history() {
  reset();
  {
    slot<FD> s[3];
    s[0].fill("a1", "a2", "a3"); s[1].fill("b1", "b2", "b3"); s[2].fill("c1", "c2", "c3");
    char nm[8] = "o00";
    for (int i = 0; i < 30; ++i) {
      nm[1] = char('0' + i / 10); nm[2] = char('0' + i % 10);
      nm[0] = 'o'; size_t op = vf_idx(nm, 0, 6);
      nm[0] = 'd'; size_t d = vf_idx(nm, 0, 2);
      nm[0] = 's'; size_t o = vf_idx(nm, 0, 2);
      nm[0] = 'v'; uint32_t x = vf_u32(nm);
      slot<FD>& D = s[d];
      slot<FD>& S = s[o];
      if (op == 0) { move_assign(D.f(), S.f()); if (d != o) { D.state = S.state; D.v = S.v; S.state = 0; } }
      else if (op == 1) { D.f() = nullptr; D.state = 0; }
      else if (op == 2) { D.f() = Small(x); D.state = 1; D.v = x; }
      else if (op == 3) { D.f() = Large(x); D.state = 2; D.v = x; }
      else if (op == 4 && x % 3 == 0) { D.f() = NilTarget(); D.state = 3; D.v = NIL_VALUE; }
      else if (op == 4 && x % 3 == 1) { D.f() = SelfTarget(x); D.state = 5; D.v = x; }
      else if (op == 4 && d != o) { D.f().~FD(); ::new (D.raw) FD(std::move(S.f())); D.state = S.state; D.v = S.v; S.state = 0; }
      else if (op == 5) { FD t; D.f() = std::move(t); D.state = 0; }
      else if (D.state) { uint32_t r = D.f()(x, 1); vf_ensure("the target's state persists", r == D.v + x - 1); if (D.state != 3) D.v += x; }
      for (auto& q : s) vf_ensure("a wrapper converts to true exactly when it has a target", bool(q.f()) == (q.state != 0));
      vf_ensure("exactly the held targets are alive", born - died == held(s[0].state) + held(s[1].state) + held(s[2].state));
    }
    for (auto& q : s) q.f().~FD();
  }
  vf_ensure("nothing is leaked", born == died);
}

// ---- F03 ---------------------------------------------------------------------------------------------------------------------
template <typename F> void is_empty(F& f) {
  vf_ensure("an empty function converts to false", !bool(f));
  bool thrown = false;
  try {
    f(1u, 2u);
  } catch (std::bad_function_call const&) {
    thrown = true;
  }
  vf_ensure("an empty function throws bad_function_call when called", thrown);
}
template <typename F> void f03_empty() {
  uint32_t x = vf_u32("x");
  reset();
  {
    F a;
    is_empty(a);
    F b(nullptr);
    is_empty(b);
    F c = nullptr;
    is_empty(c);
    a = nullptr;
    is_empty(a);
    a = nullptr;
    is_empty(a);
    F d(std::move(a));
    is_empty(a);
    is_empty(d);
    b = std::move(c);
    is_empty(b);
    is_empty(c);
    d = Small(x);
    vf_ensure("a function with a target converts to true", bool(d));
    vf_ensure("a function that had been empty calls its new target", d(1, 2) == x - 1);
    F e(std::move(d));
    is_empty(d);
    vf_ensure("moving transfers the target", vf_and(bool(e), e(5, 7) == x + 1 + 5 - 7));
    d = std::move(e);
    is_empty(e);
    vf_ensure("moving back transfers the target", vf_and(bool(d), d(0, 0) == x + 6));
    d = nullptr;
    is_empty(d);
    vf_reach("end");
  }
  vf_ensure("nothing stays alive", born == died);
}
using FC = function<uint32_t(uint32_t, uint32_t) const>;
VF_CONTRACT(F03_empty_default) { vf_expect("end"); f03_empty<FD>(); }
VF_CONTRACT(F03_empty_cap40) { vf_expect("end"); f03_empty<FB>(); }

template <typename F, typename MF, typename MO> void f03_member(MF real, MO member) {
  bool null = vf_bool("null"), assign = vf_bool("assign");
  MF p = nullptr;
  if (!null) p = real;
  F f;
  if (assign) f = p; else f.~F(), ::new (&f) F(p);
  vf_ensure("a function made from a member pointer is empty exactly when the pointer is null", bool(f) == !null);
  Obj o{vf_u32("m")};
  uint32_t const m = o.m;
  bool thrown = false;
  uint32_t r = 0;
  try {
    r = f(o, 3u);
  } catch (std::bad_function_call const&) {
    thrown = true;
  }
  vf_ensure("calling one made from a null member pointer throws bad_function_call", thrown == null);
  vf_ensure("any other calls the member", vf_implies(!null, r == m));
  f = p;
  vf_ensure("re-assigning a member pointer gives the same state", bool(f) == !null);
  f = MF(nullptr);
  vf_ensure("assigning a null member pointer empties the function", !bool(f));
  (void)member;
}
VF_CONTRACT(F03_member_function) { f03_member<function<uint32_t(Obj&, uint32_t)>>(&Obj::set, &Obj::m); }
VF_CONTRACT(F03_member_function_cap48) { f03_member<function<uint32_t(Obj&, uint32_t), 48, 16>>(&Obj::set, &Obj::m); }
VF_CONTRACT(F03_member_object) {
  bool null = vf_bool("null");
  uint32_t Obj::*p = nullptr;
  if (!null) p = &Obj::m;
  function<uint32_t(Obj const&)> f(p);
  vf_ensure("a function made from a member object pointer is empty exactly when the pointer is null", bool(f) == !null);
  Obj o{vf_u32("m")};
  bool thrown = false;
  uint32_t r = 0;
  try {
    r = f(o);
  } catch (std::bad_function_call const&) {
    thrown = true;
  }
  vf_ensure("calling one made from a null member object pointer throws bad_function_call", thrown == null);
  vf_ensure("any other reads the member", vf_implies(!null, r == o.m));
}
VF_CONTRACT(F03_const_signature) {
  FC e;
  is_empty(e);
  FC n(nullptr);
  is_empty(n);
  uint32_t x = vf_u32("x");
  FC f{[x](uint32_t a, uint32_t b) { return x + a - b; }};
  vf_ensure("a const function with a target converts to true", bool(f));
  FC g(std::move(f));
  is_empty(f);
  FC const& cg = g;
  vf_ensure("moving a const function transfers the target", vf_and(bool(g), cg(4, 1) == x + 3));
  g = nullptr;
  is_empty(cg);
}
VF_CONTRACT(F03_transfer) {
  slot<FD> s;
  s.fill("some", "large", "v");
  bool const had = s.state != 0;
  FD d(std::move(s.f()));
  vf_ensure("moving empties the source", !bool(s.f()));
  vf_ensure("the destination has a target exactly when the source had one", bool(d) == had);
  is_empty(s.f());
  if (had) {
    uint32_t a = vf_u32("a");
    vf_ensure("the destination calls what the source called", d(a, 0) == s.v + a);
  } else {
    is_empty(d);
  }
  s.f() = nullptr;
  s.f().~FD();
}

// any wrapper assigned to any other, then emptied by nullptr and used again
template <typename F> void f03_assign() {
  slot<F> d, s;
  d.fill("d_some", "d_large", "d_v");
  s.fill("s_some", "s_large", "s_v");
  d.f() = std::move(s.f());
  is_empty(s.f());
  vf_ensure("the destination has a target exactly when the source had one", bool(d.f()) == (s.state != 0));
  if (s.state != 0) {
    uint32_t const a = vf_u32("a");
    auto const got = d.f()(a, 0);
    vf_ensure("the destination calls what the source called", got == s.v + a);
  } else {
    is_empty(d.f());
  }
  d.f() = nullptr;
  is_empty(d.f());
  s.f() = std::move(d.f());
  is_empty(s.f());
  is_empty(d.f());
  s.f() = Small(7);
  vf_ensure("an emptied function takes a new target", bool(s.f()));
  d.f().~F();
  s.f().~F();
}
VF_CONTRACT(F03_assign_default) { f03_assign<FD>(); }
VF_CONTRACT(F03_assign_cap40) { f03_assign<FB>(); }

// large targets made of bytes, moved between wrappers of larger capacities
template <size_t Words, size_t Cap, size_t Al> void f03_plain() {
  using F = function<uint32_t(uint32_t, uint32_t), Cap, Al>;
  uint32_t const x = vf_u32("x"), a = vf_u32("a"), b = vf_u32("b");
  F f(PlainTarget<Words>::of(x));
  { auto const got = f(a, b); vf_ensure("the target is called with its own state", got == x + a - b); }
  F g(std::move(f));
  is_empty(f);
  { auto const got = g(a, b); vf_ensure("moving transfers the whole target", got == x + a + a - b); }
  f = std::move(g);
  is_empty(g);
  { auto const got = f(b, a); vf_ensure("moving back transfers the whole target", got == x + a + a + b - a); }
}
VF_CONTRACT(F03_plain_24) { f03_plain<6, 24, 8>(); }
VF_CONTRACT(F03_plain_40) { f03_plain<10, 40, 8>(); }
VF_CONTRACT(F03_plain_64) { f03_plain<16, 64, 64>(); }
VF_CONTRACT(F03_plain_256) { f03_plain<64, 256, 16>(); }

// ---- F04 ---------------------------------------------------------------------------------------------------------------------
struct Dual {
  uint32_t v;
  uint32_t operator()(uint32_t a) const { which = 1; return v + a; }
  uint32_t operator()(uint32_t a) { which = 2; v ^= 0xffff; return v - a; }
};
struct Padded : Dual { uint32_t pad[3]; };
struct MutOnly { uint32_t operator()(uint32_t a) { which = 2; return a; } };
struct ConstOnly { uint32_t v; uint32_t operator()(uint32_t a) const { which = 1; return v ^ a; } };

template <typename T, size_t Cap, size_t Al> void f04_const() {
  using F = function<uint32_t(uint32_t) const, Cap, Al>;
  T t{};
  t.v = vf_u32("v");
  uint32_t const v = t.v, a = vf_u32("a");
  bool rvalue = vf_bool("rvalue");
  alignas(F) unsigned char raw[sizeof(F)];
  F& f = rvalue ? *::new (raw) F(std::move(t)) : *::new (raw) F(t);
  F const& c = f;
  which = 0;
  { auto const got = f(a); vf_ensure("a const function calls the const overload", vf_and(got == v + a, which == 1)); }
  which = 0;
  { auto const got = c(a); vf_ensure("a const function called through a const reference calls the const overload", vf_and(got == v + a, which == 1)); }
  F g(std::move(f));
  which = 0;
  { auto const got = g(a); vf_ensure("a moved const function calls the const overload, and its target is unchanged", vf_and(got == v + a, which == 1)); }
  f = std::move(g);
  which = 0;
  { auto const got = c(a); vf_ensure("a move-assigned const function calls the const overload", vf_and(got == v + a, which == 1)); }
  f.~F();
}
template <typename T, size_t Cap, size_t Al> void f04_mutable() {
  using F = function<uint32_t(uint32_t), Cap, Al>;
  T t{};
  t.v = vf_u32("v");
  uint32_t const v = t.v, a = vf_u32("a");
  F f(t);
  which = 0;
  { auto const got = f(a); vf_ensure("a non-const function calls the non-const overload", vf_and(got == (v ^ 0xffff) - a, which == 2)); }
  F g(std::move(f));
  which = 0;
  { auto const got = g(a); vf_ensure("a non-const call may change the target's state, which moves with it", vf_and(got == v - a, which == 2)); }
}
VF_CONTRACT(F04_const_default) { f04_const<Dual, 3 * sizeof(void*), alignof(void*)>(); }
VF_CONTRACT(F04_const_cap16) { f04_const<Padded, 16, 16>(); }
VF_CONTRACT(F04_const_cap4) { f04_const<Dual, 4, 4>(); }
VF_CONTRACT(F04_mutable_default) { f04_mutable<Dual, 3 * sizeof(void*), alignof(void*)>(); }
VF_CONTRACT(F04_mutable_cap16) { f04_mutable<Padded, 16, 16>(); }
VF_CONTRACT(F04_const_only_target) {
  uint32_t v = vf_u32("v"), a = vf_u32("a");
  ConstOnly t{v};
  function<uint32_t(uint32_t)> f(t);
  function<uint32_t(uint32_t) const> g(t);
  vf_ensure("a const callable works through either signature", vf_and(f(a) == (v ^ a), g(a) == (v ^ a)));
}
VF_CONTRACT(F04_const_reference_wrapper) {
  // const-ness applies to the stored object; a reference wrapper refers to a mutable one
  uint32_t a = vf_u32("a");
  Dual d{vf_u32("v")};
  uint32_t const v = d.v;
  function<uint32_t(uint32_t) const> f(std::cref(d));
  which = 0;
  { auto const got = f(a); vf_ensure("a const function of a const reference wrapper calls the const overload", vf_and(got == v + a, which == 1)); }
  function<uint32_t(uint32_t) const> g(std::ref(d));
  which = 0;
  { auto const got = g(a); vf_ensure("a reference wrapper decides by what it refers to", vf_and(got == (v ^ 0xffff) - a, which == 2)); }
}
VF_CONTRACT(F04_overloads) {
  using FM = function<uint32_t(uint32_t)>;
  using FK = function<uint32_t(uint32_t) const>;
  vf_ensure("a target only callable as non-const is refused by a const function", !std::is_constructible<FK, MutOnly>::value);
  vf_ensure("a target only callable as non-const is refused by a const function as an lvalue", !std::is_constructible<FK, MutOnly&>::value);
  vf_ensure("a target only callable as non-const is accepted by a non-const function", std::is_constructible<FM, MutOnly>::value);
  vf_ensure("a const function can be called as const", std::is_invocable<FK const&, uint32_t>::value);
  vf_ensure("a non-const function cannot be called as const", !std::is_invocable<FM const&, uint32_t>::value);
  vf_ensure("functions cannot be copied", vf_and(!std::is_copy_constructible<FM>::value, !std::is_copy_assignable<FM>::value));
  vf_ensure("functions move without exceptions", vf_and(std::is_nothrow_move_constructible<FM>::value, std::is_nothrow_move_assignable<FK>::value));
}

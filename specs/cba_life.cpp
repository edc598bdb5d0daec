// Contracts for the element lifetimes of embedded::circular_buffer_adapter (B04).
//
// Ghost state: channel 0 of vf_ghost_* says for every cell of the memory (and every local object) whether an element lives in it.
// The element type's own constructors and destructor carry the contracts "the slot was empty", "the source is alive" and "the
// object was alive"; whether a constructor throws is a universally quantified input.
#include "vf.h"
#include "embedded/circular_buffer_adapter.h"
using embedded::circular_buffer_adapter;

constexpr size_t BIG = size_t(1) << 40;
static bool armed, throws;
static size_t born, died;
struct error {};

inline bool alive(const void* p) { return vf_ghost_get(0, p, sizeof(uint32_t)); }   // of a Token

// NX: its constructors are noexcept (and never throw); Words: its size in words
template <bool NX, size_t Words> struct ElemT {
  uint32_t v;
  uint32_t rest[Words];
  void begin() {
    if (!NX && armed) {
      if (throws) throw error();
    }
    vf_ensure("an element is constructed in a slot that held none", !vf_ghost_get(0, this, sizeof(ElemT)));
    vf_ghost_set(0, this, sizeof(ElemT), true);
    ++born;
  }
  bool here() const { return vf_ghost_get(0, this, sizeof(ElemT)); }
  void fill() { for (size_t i = 0; i < Words; ++i) rest[i] = v + uint32_t(i) + 1; }
  void copy(ElemT const& o) {
    v = o.v;
    for (size_t i = 0; i < Words; ++i) rest[i] = o.rest[i];
  }
  bool whole() const {
    bool r = true;
    for (size_t i = 0; i < Words; ++i) r = vf_and(r, rest[i] == v + uint32_t(i) + 1);
    return r;
  }
  ElemT(uint32_t x) noexcept(NX) { begin(); v = x; fill(); }
  ElemT(uint32_t x, uint32_t y) noexcept(NX) { begin(); v = x ^ y; fill(); }
  ElemT(ElemT const& o) noexcept(NX) {
    vf_ensure("the source of a copy is alive", o.here());
    begin();
    copy(o);
  }
  ElemT(ElemT&& o) noexcept(NX) {
    vf_ensure("the source of a move is alive", o.here());
    begin();
    copy(o);
    o.v = 0xdead;
  }
  ~ElemT() {
    vf_ensure("an element is destroyed only while it is alive", here());
    vf_ghost_set(0, this, sizeof(ElemT), false);
    v = 0xdddddddd;
    ++died;
  }
};
using Elem = ElemT<false, 0>;
using Calm = ElemT<true, 0>;
using Wide = ElemT<false, 5>;
using CalmWide = ElemT<true, 3>;
template <typename T> struct calm { static constexpr bool value = false; };
template <size_t W> struct calm<ElemT<true, W>> { static constexpr bool value = true; };

// an element whose copies are trivial, only its destruction is not
struct Token {
  uint32_t v;
  ~Token() {
    vf_ensure("an element is destroyed only while it is alive", alive(this));
    vf_ghost_set(0, this, sizeof(uint32_t), false);
    ++died;
  }
};

// an element without members: only its construction and destruction can be observed
struct Nil {
  static void note(const void* p, bool live) { vf_ghost_set(0, p, 1, live); }
  static bool is(const void* p) { return vf_ghost_get(0, p, 1); }
  void begin() {
    if (armed) {
      if (throws) throw error();
    }
    vf_ensure("an element is constructed in a slot that held none", !is(this));
    note(this, true);
    ++born;
  }
  Nil() { begin(); }
  Nil(Nil const& o) {
    vf_ensure("the source of a copy is alive", is(&o));
    begin();
  }
  ~Nil() {
    vf_ensure("an element is destroyed only while it is alive", is(this));
    note(this, false);
    ++died;
  }
};
static_assert(std::is_empty<Nil>::value && sizeof(Nil) == 1, "");

inline size_t ring(size_t first, size_t i, size_t cap) {
  size_t s = first + i;
  return vf_ite(s >= cap, s - cap, s);
}

template <typename T> struct env {
  using cba = circular_buffer_adapter<T>;
  size_t cap, first, n;
  T* mem;
  cba b;
  env()
      : cap(vf_idx("cap", 1, BIG))
      , first(vf_idx("first", 0, BIG - 1))
      , n(vf_idx("n", 0, BIG)) {
    vf_assume(first < cap);
    vf_assume(n <= cap);
    mem = static_cast<T*>(vf_mem("mem", cap, sizeof(T), sizeof(T) < 4 ? 1 : 4));
    armed = false;
    throws = vf_bool("throws");
    vf_ghost_ring(0, mem, sizeof(T), first, n, cap);
    born = died = 0;
    b = cba(mem, mem + cap, mem + first, n);
    vf_ensure("attaching constructs and destroys nothing", vf_and(born == 0, died == 0));
  }
  T* slot(size_t i) const { return mem + ring(first, i, cap); }
};

// the elements alive are exactly those of the sequence that starts `dropped` further (or `added` earlier) and has n elements
template <typename T> void check_alive(env<T>& e, size_t n) {
  vf_ensure("size() is the number of elements", e.b.size() == n);
  size_t j = vf_idx("cell", 0, BIG - 1);
  vf_assume(j < e.cap);
  size_t const f = vf_ite(n == 0, 0, e.b.raw_index(e.b.begin()));
  size_t const d = vf_ite(j >= f, j - f, j + e.cap - f);
  vf_ensure("the live elements are exactly those of the sequence", vf_ghost_get(0, e.mem + j, sizeof(T)) == (d < n));
}

// elements base+0.. of the old sequence are unchanged, at the same address
template <typename T> void check_kept(env<T>& e, size_t skip, size_t at, size_t count) {
  size_t i = vf_idx("i", 0, BIG);
  vf_assume(i < count);
  T& x = e.b[at + i];
  vf_ensure("a staying element keeps its address", &x == e.slot(skip + i));
  vf_ensure("a staying element keeps its value", x.v == vf_old32(e.slot(skip + i)));
}
inline void check_kept(env<Nil>& e, size_t skip, size_t at, size_t count) {
  size_t i = vf_idx("i", 0, BIG);
  vf_assume(i < count);
  vf_ensure("a staying element keeps its address", &e.b[at + i] == e.slot(skip + i));
}

enum how { COPY, MOVE, EMPLACE, EMPLACE2 };

template <typename Elem, bool Back, how H> void push() {
  vf_expect("normal path");
  if (!calm<Elem>::value) vf_expect("throwing path");
  env<Elem> e;
  if (calm<Elem>::value) vf_assume(!throws);
  vf_assume(e.n < e.cap);
  uint32_t const x = vf_u32("x"), y = vf_u32("y");
  bool thrown = false;
  {
    Elem src(x);
    born = died = 0;
    armed = true;
    try {
      if (H == COPY) {
        Elem const& c = src;
        if (Back) e.b.push_back(c); else e.b.push_front(c);
        vf_ensure("a copied element is left alone", src.v == x);
      } else if (H == MOVE) {
        if (Back) e.b.push_back(std::move(src)); else e.b.push_front(std::move(src));
        vf_ensure("a moved element is moved from", src.v == 0xdead);
      } else if (H == EMPLACE) {
        if (Back) e.b.emplace_back(x); else e.b.emplace_front(x);
      } else {
        if (Back) e.b.emplace_back(x, y); else e.b.emplace_front(x, y);
      }
    } catch (error const&) {
      thrown = true;
    }
    armed = false;
    vf_ensure("an exception of the element's constructor reaches the caller, and none is invented", thrown == throws);
    vf_ensure("a push destroys nothing", died == 0);
    vf_ensure("a push constructs exactly one element, or none if it throws", born == (thrown ? 0 : 1));
  }
  if (thrown) {
    vf_reach("throwing path");
    check_alive(e, e.n);
    check_kept(e, 0, 0, e.n);
  } else {
    vf_reach("normal path");
    check_alive(e, e.n + 1);
    Elem& nw = Back ? e.b.back() : e.b.front();
    vf_ensure("the new element has the value given", vf_and(nw.v == (H == EMPLACE2 ? (x ^ y) : x), nw.whole()));
    check_kept(e, 0, Back ? 0 : 1, e.n);
  }
}
#define PUSH(NAME, B, H) \
  VF_CONTRACT(B04_##NAME) { push<Elem, B, H>(); } \
  VF_CONTRACT(B04_##NAME##_calm) { push<Calm, B, H>(); } \
  VF_CONTRACT(B04_##NAME##_wide) { push<Wide, B, H>(); } \
  VF_CONTRACT(B04_##NAME##_calmwide) { push<CalmWide, B, H>(); }
PUSH(push_back_copy, true, COPY)
PUSH(push_back_move, true, MOVE)
PUSH(emplace_back, true, EMPLACE)
PUSH(emplace_back_args, true, EMPLACE2)
PUSH(push_front_copy, false, COPY)
PUSH(push_front_move, false, MOVE)
PUSH(emplace_front, false, EMPLACE)
PUSH(emplace_front_args, false, EMPLACE2)

template <typename T, bool Back, bool Counted> void pop() {
  env<T> e;
  size_t c = 1;
  vf_assume(e.n > 0);
  if (Counted) {
    c = vf_idx("count", 0, BIG);
    vf_assume(c <= e.n);
  }
  if (Counted) {
    if (Back) e.b.pop_back(c); else e.b.pop_front(c);
  } else {
    if (Back) e.b.pop_back(); else e.b.pop_front();
  }
  vf_ensure("a pop constructs nothing", born == 0);
  vf_ensure("a pop destroys exactly as many elements as it removes", died == c);
  vf_reach("popped");
  check_alive(e, e.n - c);
  vf_assume(e.n > c);
  check_kept(e, Back ? 0 : c, 0, e.n - c);
}
#define POP(NAME, T, B, C) VF_CONTRACT(B04_##NAME) { vf_expect("popped"); pop<T, B, C>(); }
POP(pop_front, Elem, false, false)
POP(pop_back, Elem, true, false)
POP(pop_front_count, Elem, false, true)
POP(pop_back_count, Elem, true, true)
POP(pop_front_calm, Calm, false, false)
POP(pop_back_calm, Calm, true, false)
POP(pop_front_count_calm, Calm, false, true)
POP(pop_back_count_calm, Calm, true, true)
POP(pop_front_wide, Wide, false, false)
POP(pop_back_wide, Wide, true, false)
POP(pop_front_count_wide, Wide, false, true)
POP(pop_back_count_wide, CalmWide, true, true)
POP(pop_front_token, Token, false, false)
POP(pop_back_count_token, Token, true, true)
POP(pop_front_nil, Nil, false, false)
POP(pop_back_nil, Nil, true, false)
POP(pop_front_count_nil, Nil, false, true)
POP(pop_back_count_nil, Nil, true, true)

template <typename T> void clear() {
  env<T> e;
  e.b.clear();
  vf_ensure("clear constructs nothing", born == 0);
  vf_ensure("clear destroys every element", died == e.n);
  vf_reach("cleared");
  check_alive(e, 0);
}
VF_CONTRACT(B04_clear) { vf_expect("cleared"); clear<Elem>(); }
VF_CONTRACT(B04_clear_calm) { vf_expect("cleared"); clear<Calm>(); }
VF_CONTRACT(B04_clear_wide) { vf_expect("cleared"); clear<Wide>(); }
VF_CONTRACT(B04_clear_nil) { vf_expect("cleared"); clear<Nil>(); }
template <bool Back> void push_nil() {
  env<Nil> e;
  vf_assume(e.n < e.cap);
  bool const copy = vf_bool("copy");
  bool thrown = false;
  {
    Nil src;
    born = died = 0;
    armed = true;
    try {
      if (copy) {
        if (Back) e.b.push_back(src); else e.b.push_front(src);
      } else {
        if (Back) e.b.emplace_back(); else e.b.emplace_front();
      }
    } catch (error const&) {
      thrown = true;
    }
    armed = false;
    vf_ensure("an exception of the element's constructor reaches the caller, and none is invented", thrown == throws);
    vf_ensure("a push constructs exactly one element, or none if it throws, and destroys nothing", vf_and(died == 0, born == (thrown ? 0 : 1)));
  }
  check_alive(e, e.n + (thrown ? 0 : 1));
  check_kept(e, 0, thrown || Back ? 0 : 1, e.n);
}
VF_CONTRACT(B04_push_back_nil) { push_nil<true>(); }
VF_CONTRACT(B04_push_front_nil) { push_nil<false>(); }
VF_CONTRACT(B04_clear_token) { vf_expect("cleared"); clear<Token>(); }

// moving the adapter object itself touches no element
VF_CONTRACT(B04_move_adapter) {
  env<Elem> e;
  circular_buffer_adapter<Elem> o(std::move(e.b));
  vf_ensure("moving the adapter constructs and destroys nothing", vf_and(born == 0, died == 0));
  e.b = std::move(o);
  vf_ensure("assigning the adapter constructs and destroys nothing", vf_and(born == 0, died == 0));
  check_alive(e, e.n);
}

// native only: random histories against a model
extern "C" void vn_B04_history() {
  env<Elem> e;
  size_t n = e.n;
  char nm[8] = "o00";
  for (int s = 0; s < 24; ++s) {
    nm[1] = char('0' + s / 10); nm[2] = char('0' + s % 10);
    nm[0] = 'o'; size_t op = vf_idx(nm, 0, 7);
    nm[0] = 'c'; size_t c = vf_idx(nm, 0, 5);
    born = died = 0;
    size_t b0 = n;
    if (op < 2) { if (n == e.cap) continue; if (op) e.b.emplace_back(7u); else e.b.emplace_front(9u); ++n; vf_ensure("one born", born == 1 && died == 0); }
    else if (op < 4) { if (n == 0) continue; if (op == 2) e.b.pop_back(); else e.b.pop_front(); --n; vf_ensure("one died", born == 0 && died == 1); }
    else if (op < 7) { if (c > n) c = n; if (op == 4) e.b.pop_back(c); else e.b.pop_front(c); n -= c; vf_ensure("counted died", born == 0 && died == c); }
    else { e.b.clear(); n = 0; vf_ensure("all died", born == 0 && died == b0); }
    check_alive(e, n);
  }
}

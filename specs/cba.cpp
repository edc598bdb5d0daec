// Contracts for embedded::circular_buffer_adapter (B01, B02, B03, B05, B06) on trivially copyable elements.
//
// The pre-state of every contract is an arbitrary attached buffer: any capacity, any first index, any size, any content.  That
// every operation ends in such a state again (closure) is an ensures of its own, so the single-step contracts cover every history.
#include "vf.h"
#include "embedded/circular_buffer_adapter.h"
using embedded::circular_buffer_adapter;

constexpr size_t BIG = size_t(1) << 40;

struct pair64 { uint64_t a, b; };
struct rgb { uint8_t r, g, b; };                 // a size that is no power of two
struct alignas(32) quad { uint32_t w[8]; };      // over-aligned

template <typename T> struct cell;
template <> struct cell<uint8_t> {
  static constexpr size_t leaf = 1;
  static uint8_t any(const char* n) { return vf_u8(n); }
  static uint8_t old(const void* p) { return vf_old8(p); }
  static bool eq(uint8_t a, uint8_t b) { return a == b; }
};
template <> struct cell<uint32_t> {
  static constexpr size_t leaf = 4;
  static uint32_t any(const char* n) { return vf_u32(n); }
  static uint32_t old(const void* p) { return vf_old32(p); }
  static bool eq(uint32_t a, uint32_t b) { return a == b; }
};
template <> struct cell<uint16_t> {
  static constexpr size_t leaf = 2;
  static uint16_t any(const char* n) { return vf_u16(n); }
  static uint16_t old(const void* p) { return vf_old16(p); }
  static bool eq(uint16_t a, uint16_t b) { return a == b; }
};
template <> struct cell<uint64_t> {
  static constexpr size_t leaf = 8;
  static uint64_t any(const char* n) { return vf_u64(n); }
  static uint64_t old(const void* p) { return vf_old64(p); }
  static bool eq(uint64_t a, uint64_t b) { return a == b; }
};
template <> struct cell<rgb> {
  static constexpr size_t leaf = 1;
  static rgb any(const char* n) {
    uint32_t const v = vf_u32(n);
    return rgb{uint8_t(v), uint8_t(v >> 8), uint8_t(v >> 16)};
  }
  static rgb old(const void* p) { return rgb{vf_old8(p), vf_old8(static_cast<char const*>(p) + 1), vf_old8(static_cast<char const*>(p) + 2)}; }
  static bool eq(rgb x, rgb y) { return vf_and(vf_and(x.r == y.r, x.g == y.g), x.b == y.b); }
};
template <> struct cell<quad> {
  static constexpr size_t leaf = 4;
  static quad any(const char* n) {
    quad r;
    uint32_t const v = vf_u32(n);
    for (int i = 0; i < 8; ++i) r.w[i] = v * (i + 1);
    return r;
  }
  static quad old(const void* p) {
    quad r;
    for (int i = 0; i < 8; ++i) r.w[i] = vf_old32(static_cast<char const*>(p) + 4 * i);
    return r;
  }
  static bool eq(quad const& x, quad const& y) {
    bool r = true;
    for (int i = 0; i < 8; ++i) r = vf_and(r, x.w[i] == y.w[i]);
    return r;
  }
};
template <> struct cell<pair64> {
  static constexpr size_t leaf = 8;
  static pair64 any(const char* n) {
    char m[16];
    size_t i = 0;
    for (; n[i]; ++i) m[i] = n[i];
    m[i] = '_'; m[i + 1] = 'a'; m[i + 2] = 0;
    pair64 r;
    r.a = vf_u64(m);
    m[i + 1] = 'b';
    r.b = vf_u64(m);
    return r;
  }
  static pair64 old(const void* p) { return pair64{vf_old64(p), vf_old64(static_cast<char const*>(p) + 8)}; }
  static bool eq(pair64 x, pair64 y) { return vf_and(x.a == y.a, x.b == y.b); }
};

// index of the i-th element of a ring that starts at `first`
inline size_t ring(size_t first, size_t i, size_t cap) {
  size_t s = first + i;
  return vf_ite(s >= cap, s - cap, s);
}

// an arbitrary buffer over arbitrary memory
template <typename T> struct env {
  using cba = circular_buffer_adapter<T>;
  using V = typename std::remove_const<T>::type;
  size_t cap, first, n;
  V* mem;
  cba b;
  env()
      : cap(vf_idx("cap", 1, BIG))
      , first(vf_idx("first", 0, BIG - 1))
      , n(vf_idx("n", 0, BIG)) {
    vf_assume(first < cap);
    vf_assume(n <= cap);
    mem = static_cast<V*>(vf_mem("mem", cap, sizeof(V), cell<V>::leaf));
    b = cba(mem, mem + cap, mem + first, n);
  }
  V* slot(size_t i) const { return mem + ring(first, i, cap); }
  V was(size_t i) const { return cell<V>::old(slot(i)); }
};

// what can be observed of the sequence without changing it
template <typename B> void check_counts(B& b, size_t cap, size_t n) {
  vf_ensure("size() is the number of elements", b.size() == n);
  vf_ensure("empty(), full() and remaining() agree with the size",
            vf_and(vf_and(b.empty() == (n == 0), b.full() == (n == cap)), vf_and(b.remaining() == cap - n, b.capacity() == cap)));
}

// the buffer is in a state attaching could have produced (closes the induction over histories)
template <typename T> void check_closed(circular_buffer_adapter<T>& b, typename std::remove_const<T>::type* mem, size_t cap) {
  size_t const f = b.raw_index(b.begin());
  vf_ensure("the raw index of the first element is inside the memory", f < cap);
  circular_buffer_adapter<T> fresh(mem, mem + cap, mem + f, b.size());
  vf_ensure_inv("the state equals that of a freshly attached buffer", vf_bytes_eq(&b, &fresh, sizeof b));
}

// ---- B01: operations of a double-ended queue --------------------------------------------------------------------------
enum op { PB_COPY, PB_MOVE, EB, PF_COPY, PF_MOVE, EF, POPF, POPB, POPF_N, POPB_N, CLEAR, NOPS };

template <typename T> struct step {
  int kind;
  size_t count, n_before;
  T v;
};

// performs an operation on the buffer and records it; false when its precondition does not hold
template <typename T> void perform(circular_buffer_adapter<T>& b, step<T>& s, size_t& n, size_t cap) {
  s.n_before = n;
  switch (s.kind) {
    case PB_COPY: vf_assume(n < cap); b.push_back(static_cast<T const&>(s.v)); ++n; break;
    case PB_MOVE: { vf_assume(n < cap); T t = s.v; b.push_back(std::move(t)); ++n; break; }
    case EB: {
      vf_assume(n < cap);
      T& r = b.emplace_back(s.v);
      ++n;
      vf_ensure("emplace_back returns the new element", &r == &b.back());
      break;
    }
    case PF_COPY: vf_assume(n < cap); b.push_front(static_cast<T const&>(s.v)); ++n; break;
    case PF_MOVE: { vf_assume(n < cap); T t = s.v; b.push_front(std::move(t)); ++n; break; }
    case EF: {
      vf_assume(n < cap);
      T& r = b.emplace_front(s.v);
      ++n;
      vf_ensure("emplace_front returns the new element", &r == &b.front());
      break;
    }
    case POPF: vf_assume(n > 0); b.pop_front(); s.count = 1; --n; break;
    case POPB: vf_assume(n > 0); b.pop_back(); s.count = 1; --n; break;
    case POPF_N: vf_assume(s.count <= n); b.pop_front(s.count); n -= s.count; break;
    case POPB_N: vf_assume(s.count <= n); b.pop_back(s.count); n -= s.count; break;
    case CLEAR: b.clear(); n = 0; break;
  }
}

// where the k-th element after the steps came from: the base sequence, or the value of a step
template <typename T> bool origin(step<T> const* s, size_t steps, size_t& k, T& v) {
  while (steps > 0) {
    step<T> const& x = s[--steps];
    if (x.kind <= EB) {
      if (k == x.n_before) { v = x.v; return true; }
    } else if (x.kind <= EF) {
      if (k == 0) { v = x.v; return true; }
      --k;
    } else if (x.kind == POPF || x.kind == POPF_N) {
      k += x.count;
    }
  }
  return false;
}

template <typename T> void check_view(env<T>& e, step<T> const* s, size_t steps, size_t n) {
  check_counts(e.b, e.cap, n);
  if (n == 0) return;
  vf_reach("a non-empty result is compared element by element");
  size_t const k = vf_idx("k", 0, BIG);
  vf_assume(k < n);
  size_t k0 = k;
  T want;
  bool const fresh = origin(s, steps, k0, want);
  T* const p = &e.b[k];
  if (!fresh) {
    want = e.was(k0);
    vf_ensure("an element that stays keeps its address", p == e.slot(k0));
  }
  vf_ensure("b[k] is the k-th element of the deque", cell<T>::eq(*p, want));
  vf_ensure("at(k) designates the same element", &e.b.at(k) == p);
  vf_ensure("begin()+k designates the same element", &*(e.b.begin() + k) == p);
  if (k == 0) vf_ensure("front() is the first element", &e.b.front() == p);
  if (k == n - 1) vf_ensure("back() is the last element", &e.b.back() == p);
}

template <typename T> void b01(int kind) {
  vf_expect("a non-empty result is compared element by element");
  if (kind == CLEAR) vf_reach("a non-empty result is compared element by element");
  env<T> e;
  step<T> s{kind, 0, 0, cell<T>::any("v")};
  if (kind == POPF_N || kind == POPB_N) s.count = vf_idx("count", 0, BIG);
  size_t n = e.n;
  perform(e.b, s, n, e.cap);
  check_view(e, &s, 1, n);
  check_closed(e.b, e.mem, e.cap);
}

#define B01(T, N)                                                                                                             \
  VF_CONTRACT(B01_push_back_##N) { b01<T>(PB_COPY); }                                                                         \
  VF_CONTRACT(B01_push_back_move_##N) { b01<T>(PB_MOVE); }                                                                    \
  VF_CONTRACT(B01_emplace_back_##N) { b01<T>(EB); }                                                                           \
  VF_CONTRACT(B01_push_front_##N) { b01<T>(PF_COPY); }                                                                        \
  VF_CONTRACT(B01_push_front_move_##N) { b01<T>(PF_MOVE); }                                                                   \
  VF_CONTRACT(B01_emplace_front_##N) { b01<T>(EF); }                                                                          \
  VF_CONTRACT(B01_pop_front_##N) { b01<T>(POPF); }                                                                            \
  VF_CONTRACT(B01_pop_back_##N) { b01<T>(POPB); }                                                                             \
  VF_CONTRACT(B01_pop_front_n_##N) { b01<T>(POPF_N); }                                                                        \
  VF_CONTRACT(B01_pop_back_n_##N) { b01<T>(POPB_N); }                                                                         \
  VF_CONTRACT(B01_clear_##N) { b01<T>(CLEAR); }
B01(uint8_t, u8)
B01(uint32_t, u32)
B01(pair64, pair)
B01(uint16_t, u16)
B01(uint64_t, u64)
B01(rgb, rgb)
B01(quad, quad)

// the value pushed is an element of the buffer itself; an emplaced element without arguments is value-initialised
enum alias { A_BACK, A_FRONT, A_EBACK, A_EFRONT, A_NONE_BACK, A_NONE_FRONT };
template <typename T> void b01_alias(alias how) {
  env<T> e;
  vf_assume(e.n < e.cap);
  bool const back = how == A_BACK || how == A_EBACK || how == A_NONE_BACK;
  T want = T();
  if (how < A_NONE_BACK) {
    vf_assume(e.n > 0);
    size_t const i = vf_idx("i", 0, BIG);
    vf_assume(i < e.n);
    want = e.was(i);
    T& src = e.b[i];
    if (how == A_BACK) e.b.push_back(src);
    else if (how == A_FRONT) e.b.push_front(src);
    else if (how == A_EBACK) e.b.emplace_back(src);
    else e.b.emplace_front(src);
  } else if (back) {
    e.b.emplace_back();
  } else {
    e.b.emplace_front();
  }
  vf_expect("pushed");
  vf_reach("pushed");
  check_counts(e.b, e.cap, e.n + 1);
  vf_ensure("the new element is the element pushed", cell<T>::eq(back ? e.b.back() : e.b.front(), want));
  size_t const k = vf_idx("k", 0, BIG);
  vf_assume(k < e.n);
  vf_ensure("the other elements keep their value", cell<T>::eq(e.b[back ? k : k + 1], e.was(k)));
  check_closed(e.b, e.mem, e.cap);
}
#define B01A(T, N)                                                                                                            \
  VF_CONTRACT(B01_alias_push_back_##N) { b01_alias<T>(A_BACK); }                                                              \
  VF_CONTRACT(B01_alias_push_front_##N) { b01_alias<T>(A_FRONT); }                                                            \
  VF_CONTRACT(B01_alias_emplace_back_##N) { b01_alias<T>(A_EBACK); }                                                          \
  VF_CONTRACT(B01_alias_emplace_front_##N) { b01_alias<T>(A_EFRONT); }                                                        \
  VF_CONTRACT(B01_default_emplace_back_##N) { b01_alias<T>(A_NONE_BACK); }                                                    \
  VF_CONTRACT(B01_default_emplace_front_##N) { b01_alias<T>(A_NONE_FRONT); }
B01A(uint32_t, u32)
B01A(pair64, pair)
B01A(rgb, rgb)

// the state before any operation: the contract the other contracts start from
template <typename T> void b01_attached() {
  env<T> e;
  check_view<T>(e, nullptr, 0, e.n);
  check_closed(e.b, e.mem, e.cap);
}
VF_CONTRACT(B01_attached_u8) { b01_attached<uint8_t>(); }
VF_CONTRACT(B01_attached_u32) { b01_attached<uint32_t>(); }
VF_CONTRACT(B01_attached_pair) { b01_attached<pair64>(); }

// histories: run natively when a representation invariant no longer holds (bounded stand-in), symbolically with two steps
template <typename T> void b01_history(size_t len) {
  env<T> e;
  step<T> s[24];
  size_t n = e.n;
  for (size_t i = 0; i < len; ++i) {
    char nm[4] = {'o', char('a' + i), 0, 0}, nc[4] = {'c', char('a' + i), 0, 0}, nv[4] = {'v', char('a' + i), 0, 0};
    size_t const kind = vf_idx(nm, 0, NOPS - 1);
    s[i] = step<T>{0, 0, 0, cell<T>::any(nv)};
    for (int q = 0; q < NOPS; ++q)
      if (kind == size_t(q)) s[i].kind = q;
    if (s[i].kind == POPF_N || s[i].kind == POPB_N) s[i].count = vf_idx(nc, 0, BIG);
    if (!vf_symbolic()) {  // keep random histories alive
      if (s[i].kind <= EF && n == e.cap) { s[i].kind = CLEAR; continue; }   // not performed: neutral for origin()
      if (s[i].kind >= POPF && n == 0) s[i].kind = e.cap ? PB_COPY : CLEAR;
      if (s[i].count > n) s[i].count = n;
      if (s[i].kind == CLEAR && i % 3) s[i].kind = POPB_N;
    }
    perform(e.b, s[i], n, e.cap);
    if (!vf_symbolic()) check_counts(e.b, e.cap, n);
  }
  check_view(e, s, len, n);
}
extern "C" void vn_B01_history_u8() { b01_history<uint8_t>(20); }
extern "C" void vn_B01_history_u32() { b01_history<uint32_t>(20); }
extern "C" void vct_B01_history_u32() { b01_history<uint32_t>(2); }

// ---- B02: bulk copies -------------------------------------------------------------------------------------------------
template <typename T> T* any_data(size_t count, const char* name) { return static_cast<T*>(vf_mem(name, count, sizeof(T), cell<T>::leaf)); }

template <typename T> void b02_in(bool front) {
  env<T> e;
  size_t const c = vf_idx("count", 0, BIG);
  vf_assume(c <= e.cap - e.n);
  T* data = any_data<T>(c, "data");
  if (front) e.b.copy_in_front(data, c);
  else e.b.copy_in_back(data, c);
  size_t const n = e.n + c;
  check_counts(e.b, e.cap, n);
  vf_expect("a copied-in element is compared");
  vf_expect("an element that was there before is compared");
  if (n > 0) {
    size_t const k = vf_idx("k", 0, BIG);
    vf_assume(k < n);
    bool const in_new = front ? k < c : k >= e.n;
    if (in_new) {
      vf_reach("a copied-in element is compared");
      vf_ensure("the copied elements are at that end, in the order given", cell<T>::eq(e.b[k], cell<T>::old(data + (front ? k : k - e.n))));
    } else {
      vf_reach("an element that was there before is compared");
      size_t const o = front ? k - c : k;
      vf_ensure("the other elements keep their value", cell<T>::eq(e.b[k], e.was(o)));
      vf_ensure("the other elements keep their place", &e.b[k] == e.slot(o));
    }
  }
  if (c > 0) {
    size_t const j = vf_idx("j", 0, BIG);
    vf_assume(j < c);
    vf_ensure("the source is not changed", cell<T>::eq(data[j], cell<T>::old(data + j)));
  }
  check_closed(e.b, e.mem, e.cap);
}

template <typename T> void b02_out(bool front) {
  env<T> e;
  size_t const c = vf_idx("count", 0, BIG);
  vf_assume(c <= e.n);
  T* data = any_data<T>(c, "data");
  if (front) e.b.copy_out_front(data, c);
  else e.b.copy_out_back(data, c);
  size_t const n = e.n - c;
  check_counts(e.b, e.cap, n);
  vf_expect("a copied-out element is compared");
  vf_expect("a remaining element is compared");
  if (c > 0) {
    size_t const j = vf_idx("j", 0, BIG);
    vf_assume(j < c);
    vf_reach("a copied-out element is compared");
    vf_ensure("the destination holds the removed elements in buffer order", cell<T>::eq(data[j], e.was(front ? j : n + j)));
  }
  if (n > 0) {
    size_t const k = vf_idx("k", 0, BIG);
    vf_assume(k < n);
    vf_reach("a remaining element is compared");
    size_t const o = front ? k + c : k;
    vf_ensure("the remaining elements keep their value", cell<T>::eq(e.b[k], e.was(o)));
    vf_ensure("the remaining elements keep their place", &e.b[k] == e.slot(o));
  }
  check_closed(e.b, e.mem, e.cap);
}

template <typename T, typename It> It iter_at(circular_buffer_adapter<T>& b, size_t i) { return b.begin() + i; }

template <typename T> void b02_range_in() {
  env<T> e;
  size_t const i = vf_idx("i", 0, BIG), c = vf_idx("count", 0, BIG);
  vf_assume(i + c <= e.n);
  T* data = any_data<T>(c, "data");
  e.b.copy_in(e.b.begin() + i, e.b.begin() + (i + c), data);
  check_counts(e.b, e.cap, e.n);
  vf_expect("an element of the range is compared");
  vf_expect("an element outside the range is compared");
  size_t const m = vf_idx("m", 0, BIG);  // any cell of the memory, inside the sequence or not
  vf_assume(m < e.cap);
  size_t const k = vf_ite(m >= e.first, m - e.first, m + e.cap - e.first);
  if (vf_and(k >= i, k < i + c)) {
    vf_reach("an element of the range is compared");
    vf_ensure("exactly the range is overwritten with the data, in order", cell<T>::eq(e.mem[m], cell<T>::old(data + (k - i))));
  } else {
    vf_reach("an element outside the range is compared");
    vf_ensure("nothing outside the range changes", cell<T>::eq(e.mem[m], cell<T>::old(e.mem + m)));
  }
  check_closed(e.b, e.mem, e.cap);
}

template <typename T, bool Const> void b02_range_out() {
  env<T> e;
  size_t const i = vf_idx("i", 0, BIG), c = vf_idx("count", 0, BIG);
  vf_assume(i + c <= e.n);
  T* data = any_data<T>(c, "data");
  if (Const) e.b.copy_out(e.b.cbegin() + i, e.b.cbegin() + (i + c), data);
  else e.b.copy_out(e.b.begin() + i, e.b.begin() + (i + c), data);
  check_counts(e.b, e.cap, e.n);
  vf_expect("an element of the range is compared");
  if (c > 0) {
    size_t const j = vf_idx("j", 0, BIG);
    vf_assume(j < c);
    vf_reach("an element of the range is compared");
    vf_ensure("the destination holds exactly the range, in order", cell<T>::eq(data[j], e.was(i + j)));
  }
  size_t const m = vf_idx("m", 0, BIG);
  vf_assume(m < e.cap);
  vf_ensure("the buffer's memory does not change", cell<T>::eq(e.mem[m], cell<T>::old(e.mem + m)));
  check_closed(e.b, e.mem, e.cap);
}

#define B02(T, N)                                                                                                             \
  VF_CONTRACT(B02_in_front_##N) { b02_in<T>(true); }                                                                          \
  VF_CONTRACT(B02_in_back_##N) { b02_in<T>(false); }                                                                          \
  VF_CONTRACT(B02_out_front_##N) { b02_out<T>(true); }                                                                        \
  VF_CONTRACT(B02_out_back_##N) { b02_out<T>(false); }                                                                        \
  VF_CONTRACT(B02_range_in_##N) { b02_range_in<T>(); }                                                                        \
  VF_CONTRACT(B02_range_out_##N) { b02_range_out<T, false>(); }                                                               \
  VF_CONTRACT(B02_range_cout_##N) { b02_range_out<T, true>(); }
B02(uint8_t, u8)
B02(uint32_t, u32)
B02(pair64, pair)
B02(uint16_t, u16)
B02(uint64_t, u64)
B02(rgb, rgb)
B02(quad, quad)

// ---- B03: iterators ---------------------------------------------------------------------------------------------------
template <typename It, typename E> void b03_laws(E& e, It const begin, It const end) {
  size_t const i = vf_idx("i", 0, BIG), j = vf_idx("j", 0, BIG);
  vf_assume(vf_and(i <= e.n, j <= e.n));
  vf_ensure("end() - begin() is the size", end - begin == ptrdiff_t(e.n));
  It const a = begin + i, c = begin + j;
  vf_ensure("(begin+i) - begin == i", a - begin == ptrdiff_t(i));
  vf_ensure("(begin+j) - (begin+i) == j-i", c - a == ptrdiff_t(j) - ptrdiff_t(i));
  vf_ensure("i + begin == begin + i", (ptrdiff_t(i) + begin) == a);
  vf_ensure("== and != agree with the positions", vf_and((a == c) == (i == j), (a != c) == (i != j)));
  vf_ensure("< and > agree with the positions", vf_and((a < c) == (i < j), (a > c) == (i > j)));
  vf_ensure("<= and >= agree with the positions", vf_and((a <= c) == (i <= j), (a >= c) == (i >= j)));
  vf_ensure("begin+i is end exactly at the size", (a == end) == (i == e.n));
  It t = a;
  vf_ensure("a copied iterator is equal", t == a);
  t += ptrdiff_t(j) - ptrdiff_t(i);
  vf_ensure("+= moves by the given distance, forwards and backwards", t == c);
  t -= ptrdiff_t(j) - ptrdiff_t(i);
  vf_ensure("-= moves by the given distance, forwards and backwards", t == a);
  vf_ensure("+ and - are inverse", (c - (ptrdiff_t(j) - ptrdiff_t(i))) == a);
}

template <typename It, typename E> void b03_steps(E& e, It const begin, It const end) {
  size_t const i = vf_idx("i", 0, BIG);
  vf_assume(i < e.n);
  vf_expect("stepping from an element");
  vf_reach("stepping from an element");
  It const a = begin + i, next = begin + (i + 1);
  auto const want = e.mem + ring(e.first, i, e.cap);
  vf_ensure("*(begin+i) is element i", &*a == want);
  vf_ensure("begin[i] is element i", &begin[i] == want);
  vf_ensure("operator-> designates the element", a.operator->() == want);
  It t = a;
  It& r1 = ++t;
  vf_ensure("++ moves to the next element", vf_and(t == next, &r1 == &t));
  It& r2 = --t;
  vf_ensure("-- moves back", vf_and(t == a, &r2 == &t));
  It const o1 = t++;
  vf_ensure("post-increment returns the old position", vf_and(o1 == a, t == next));
  It const o2 = t--;
  vf_ensure("post-decrement returns the old position", vf_and(o2 == next, t == a));
  if (i + 1 == e.n) {
    vf_ensure("the step after the last element is end", next == end);
    It q = end;
    --q;
    vf_ensure("the step before end is the last element", q == a);
  } else {
    vf_ensure("a[1] is the next element", &a[1] == e.mem + ring(e.first, i + 1, e.cap));
  }
  size_t const m = vf_idx("m", 0, BIG);
  vf_assume(m < e.cap);
  vf_ensure("iterating does not change the memory", cell<typename E::V>::eq(e.mem[m], cell<typename E::V>::old(e.mem + m)));
}

template <typename T> void b03_reverse() {
  env<T> e;
  size_t const i = vf_idx("i", 0, BIG);
  vf_assume(i <= e.n);
  vf_ensure("rend - rbegin is the size", vf_and(e.b.rend() - e.b.rbegin() == ptrdiff_t(e.n), e.b.crend() - e.b.crbegin() == ptrdiff_t(e.n)));
  auto a = e.b.rbegin() + i;
  auto c = e.b.crbegin() + i;
  vf_ensure("(rbegin+i) - rbegin == i", vf_and(a - e.b.rbegin() == ptrdiff_t(i), c - e.b.crbegin() == ptrdiff_t(i)));
  vf_ensure("rbegin+i is rend exactly at the size", vf_and((a == e.b.rend()) == (i == e.n), (c == e.b.crend()) == (i == e.n)));
  vf_expect("a reverse iterator is dereferenced");
  if (i < e.n) {
    vf_reach("a reverse iterator is dereferenced");
    auto const want = e.mem + ring(e.first, e.n - 1 - i, e.cap);
    vf_ensure("*(rbegin+i) is element n-1-i", &*a == want);
    vf_ensure("*(crbegin+i) is element n-1-i", &*c == want);
    vf_ensure("rbegin[i] is element n-1-i", vf_and(&e.b.rbegin()[i] == want, &e.b.crbegin()[i] == want));
    auto a2 = a;
    ++a2;
    vf_ensure("++ moves a reverse iterator towards the front", a2 - e.b.rbegin() == ptrdiff_t(i + 1));
    --a2;
    vf_ensure("-- moves it back", a2 == a);
  }
}

template <typename T> void b03_mixed() {
  using cba = circular_buffer_adapter<T>;
  using I = typename cba::iterator;
  using C = typename cba::const_iterator;
  vf_ensure("const iterators can be copied, moved and assigned", std::is_copy_constructible<C>::value && std::is_move_constructible<C>::value && std::is_copy_assignable<C>::value &&
                                                                     std::is_move_assignable<C>::value && std::is_default_constructible<C>::value);
  vf_ensure("iterators can be copied, moved and assigned", std::is_copy_constructible<I>::value && std::is_move_constructible<I>::value && std::is_copy_assignable<I>::value &&
                                                               std::is_move_assignable<I>::value && std::is_default_constructible<I>::value);
  vf_ensure("iterators convert to const iterators and not back", std::is_convertible<I, C>::value && !std::is_convertible<C, I>::value);
  env<T> e;
  size_t const i = vf_idx("i", 0, BIG), j = vf_idx("j", 0, BIG);
  vf_assume(vf_and(i <= e.n, j <= e.n));
  I const a = e.b.begin() + i;
  C const c = e.b.begin() + j;
  C const d = e.b.cbegin() + j;
  vf_ensure("a converted iterator designates the same element", vf_and(c == d, c - e.b.cbegin() == ptrdiff_t(j)));
  vf_ensure("mixed comparisons agree with the positions (1)", vf_and(vf_and((a == c) == (i == j), (a != c) == (i != j)), vf_and((a < c) == (i < j), (a >= c) == (i >= j))));
  vf_ensure("mixed comparisons agree with the positions (2)", vf_and(vf_and((c == a) == (i == j), (c != a) == (i != j)), vf_and((c < a) == (j < i), (c >= a) == (j >= i))));
  C t;
  t = c;
  vf_ensure("an assigned iterator is equal", t == c);
  vf_ensure("raw_index gives the cell of the element",
            vf_implies(j < e.n, vf_and(e.b.raw_index(c) == ring(e.first, j, e.cap), e.b.raw_index(e.b.begin() + j) == ring(e.first, j, e.cap))));
}

template <typename T> void b03_empty() {
  env<T> e;
  vf_assume(e.n == 0);
  vf_ensure("begin() is end() on an empty buffer", vf_and(vf_and(e.b.begin() == e.b.end(), e.b.cbegin() == e.b.cend()), vf_and(e.b.rbegin() == e.b.rend(), e.b.crbegin() == e.b.crend())));
  vf_ensure("begin() + 0 and begin() - 0 stay there", vf_and((e.b.begin() + 0) == e.b.end(), (e.b.begin() - 0) == e.b.end()));
  circular_buffer_adapter<T> z;
  vf_ensure("a default-constructed buffer is empty and full", vf_and(vf_and(z.empty(), z.full()), vf_and(z.size() == 0, z.begin() == z.end())));
}

#define B03(T, N)                                                                                                             \
  VF_CONTRACT(B03_laws_##N) { env<T> e; b03_laws(e, e.b.begin(), e.b.end()); }                                                \
  VF_CONTRACT(B03_claws_##N) { env<T> e; b03_laws(e, e.b.cbegin(), e.b.cend()); }                                             \
  VF_CONTRACT(B03_steps_##N) { env<T> e; b03_steps(e, e.b.begin(), e.b.end()); }                                              \
  VF_CONTRACT(B03_csteps_##N) { env<T> e; b03_steps(e, e.b.cbegin(), e.b.cend()); }                                           \
  VF_CONTRACT(B03_reverse_##N) { b03_reverse<T>(); }                                                                          \
  VF_CONTRACT(B03_empty_##N) { b03_empty<T>(); }
B03(uint8_t, u8)
B03(uint32_t, u32)
B03(uint32_t const, cu32)
B03(pair64, pair)
VF_CONTRACT(B03_mixed_u8) { b03_mixed<uint8_t>(); }
VF_CONTRACT(B03_mixed_u32) { b03_mixed<uint32_t>(); }
VF_CONTRACT(B03_mixed_pair) { b03_mixed<pair64>(); }
VF_CONTRACT(B03_laws_rgb) { env<rgb> e; b03_laws(e, e.b.begin(), e.b.end()); }
VF_CONTRACT(B03_steps_rgb) { env<rgb> e; b03_steps(e, e.b.begin(), e.b.end()); }
VF_CONTRACT(B03_csteps_quad) { env<quad> e; b03_steps(e, e.b.cbegin(), e.b.cend()); }
VF_CONTRACT(B03_mixed_rgb) { b03_mixed<rgb>(); }

// ---- B05: attachment --------------------------------------------------------------------------------------------------
template <typename T, typename B> void b05_same(B& b, typename std::remove_const<T>::type* mem, size_t cap, size_t first, size_t n) {
  using V = typename std::remove_const<T>::type;
  check_counts(b, cap, n);
  vf_expect("an element of the attached sequence is compared");
  if (n > 0) {
    vf_reach("an element of the attached sequence is compared");
    size_t const k = vf_idx("k", 0, BIG);
    vf_assume(k < n);
    vf_ensure("element k of the attached buffer is at raw index first+k around the memory", &b[k] == mem + ring(first, k, cap));
    vf_ensure("reading an element does not change it", cell<V>::eq(b[k], cell<V>::old(mem + ring(first, k, cap))));
    vf_ensure("raw_index(begin()) is the recorded first index", b.raw_index(b.begin()) == first);
  }
  size_t const m = vf_idx("m", 0, BIG);
  vf_assume(m < cap);
  vf_ensure("attaching and reading do not change the memory", cell<V>::eq(mem[m], cell<V>::old(mem + m)));
}

template <typename T> void b05_attach(int form) {
  using V = typename std::remove_const<T>::type;
  size_t const cap = vf_idx("cap", 1, BIG), raw = vf_idx("first", 0, BIG), n = vf_idx("n", 0, BIG);
  vf_assume(vf_and(raw <= cap, n <= cap));  // the raw first index may be the end of the memory
  V* mem = any_data<V>(cap, "mem");
  size_t const first = vf_ite(raw == cap, 0, raw);
  if (form == 0) {
    circular_buffer_adapter<T> b(mem, mem + cap, mem + raw, n);
    b05_same<T>(b, mem, cap, first, n);
    check_closed(b, mem, cap);
  } else if (form == 1) {
    circular_buffer_adapter<T> b(mem, cap, raw, n);
    b05_same<T>(b, mem, cap, first, n);
    check_closed(b, mem, cap);
  } else if (form == 2) {
    circular_buffer_adapter<T> b(mem, mem + cap, mem + raw, n);
    circular_buffer_adapter<T> c(std::move(b));
    circular_buffer_adapter<T> d;
    d = std::move(c);
    b05_same<T>(d, mem, cap, first, n);
    check_closed(d, mem, cap);
  } else {
    bool const f = vf_bool("pointers");
    circular_buffer_adapter<T> b = f ? circular_buffer_adapter<T>(mem, mem + cap) : circular_buffer_adapter<T>(mem, cap);
    check_counts(b, cap, 0);
    check_closed(b, mem, cap);
  }
}
// after one more operation (any state is reached by some history): re-attach from the recorded numbers
template <typename T> void b05_reattach(int kind) {
  env<T> e;
  step<T> s{kind, 0, 0, cell<T>::any("v")};
  if (kind == POPF_N || kind == POPB_N) s.count = vf_idx("count", 0, BIG);
  size_t n = e.n;
  perform(e.b, s, n, e.cap);
  size_t const rec_cap = e.b.capacity(), rec_first = e.b.raw_index(e.b.begin()), rec_n = e.b.size();
  vf_ensure("the recorded first index lies in the memory", rec_first <= e.cap);
  circular_buffer_adapter<T> r(e.mem, rec_cap, rec_first, rec_n);
  check_counts(r, e.cap, n);
  if (n > 0) {
    size_t const k = vf_idx("k", 0, BIG);
    vf_assume(k < n);
    vf_ensure("the re-attached buffer has the same elements", &r[k] == &e.b[k]);
    if (k == 0) vf_ensure("front() agrees", &r.front() == &e.b.front());
    if (k == n - 1) vf_ensure("back() agrees", &r.back() == &e.b.back());
    vf_ensure("iteration agrees", &*(r.begin() + k) == &*(e.b.begin() + k));
  }
  // and goes on like the original
  if (n < e.cap) {
    bool const at_back = vf_bool("grow_back");
    T const w = cell<T>::any("w");
    if (at_back) r.push_back(w);
    else r.push_front(w);
    size_t const k = vf_idx("k2", 0, BIG);
    vf_assume(k <= n);
    size_t const nk = at_back ? n : 0;
    if (k == nk) vf_ensure("the re-attached buffer grows at the right end", cell<T>::eq(r[k], w));
    else vf_ensure("growing the re-attached buffer keeps the other elements", &r[k] == &e.b[at_back ? k : k - 1]);
  }
}
#define B05(T, N)                                                                                                             \
  VF_CONTRACT(B05_attach_ptr_##N) { b05_attach<T>(0); }                                                                       \
  VF_CONTRACT(B05_attach_idx_##N) { b05_attach<T>(1); }                                                                       \
  VF_CONTRACT(B05_attach_moved_##N) { b05_attach<T>(2); }                                                                     \
  VF_CONTRACT(B05_attach_empty_##N) { b05_attach<T>(3); }
B05(uint8_t, u8)
B05(uint32_t, u32)
B05(pair64, pair)
VF_CONTRACT(B05_attach_ptr_cu32) { b05_attach<uint32_t const>(0); }
#define B05R(T, N)                                                                                                            \
  VF_CONTRACT(B05_re_push_back_##N) { b05_reattach<T>(PB_COPY); }                                                             \
  VF_CONTRACT(B05_re_push_front_##N) { b05_reattach<T>(PF_COPY); }                                                            \
  VF_CONTRACT(B05_re_emplace_back_##N) { b05_reattach<T>(EB); }                                                               \
  VF_CONTRACT(B05_re_emplace_front_##N) { b05_reattach<T>(EF); }                                                              \
  VF_CONTRACT(B05_re_pop_front_##N) { b05_reattach<T>(POPF); }                                                                \
  VF_CONTRACT(B05_re_pop_back_##N) { b05_reattach<T>(POPB); }                                                                 \
  VF_CONTRACT(B05_re_pop_front_n_##N) { b05_reattach<T>(POPF_N); }                                                            \
  VF_CONTRACT(B05_re_pop_back_n_##N) { b05_reattach<T>(POPB_N); }                                                             \
  VF_CONTRACT(B05_re_clear_##N) { b05_reattach<T>(CLEAR); }
B05R(uint8_t, u8)
B05R(uint32_t, u32)
B05(rgb, rgb)
B05R(rgb, rgb)

// bulk operations too
template <typename T> void b05_bulk(int kind) {
  env<T> e;
  size_t const c = vf_idx("count", 0, BIG);
  vf_assume(c <= (kind < 2 ? e.cap - e.n : e.n));
  T* data = any_data<T>(c, "data");
  if (kind == 0) e.b.copy_in_front(data, c);
  else if (kind == 1) e.b.copy_in_back(data, c);
  else if (kind == 2) e.b.copy_out_front(data, c);
  else e.b.copy_out_back(data, c);
  circular_buffer_adapter<T> r(e.mem, e.b.capacity(), e.b.raw_index(e.b.begin()), e.b.size());
  vf_ensure("the re-attached buffer has the same size", r.size() == e.b.size());
  if (e.b.size() > 0) {
    size_t const k = vf_idx("k", 0, BIG);
    vf_assume(k < e.b.size());
    vf_ensure("the re-attached buffer has the same elements", &r[k] == &e.b[k]);
    vf_ensure("back() agrees", &r.back() == &e.b.back());
  }
}
VF_CONTRACT(B05_re_in_front_u32) { b05_bulk<uint32_t>(0); }
VF_CONTRACT(B05_re_in_back_u32) { b05_bulk<uint32_t>(1); }
VF_CONTRACT(B05_re_out_front_u32) { b05_bulk<uint32_t>(2); }
VF_CONTRACT(B05_re_out_back_u32) { b05_bulk<uint32_t>(3); }

// an operation, then growth at either end (room is made first when the operation filled the buffer): still inside the memory
template <typename T> void b05_then(int kind) {
  env<T> e;
  size_t n = e.n;
  if (kind < NOPS) {
    step<T> s{kind, 0, 0, cell<T>::any("v")};
    if (kind == POPF_N || kind == POPB_N) s.count = vf_idx("count", 0, BIG);
    perform(e.b, s, n, e.cap);
  } else {
    size_t const c = vf_idx("count", 0, BIG);
    bool const in = kind < NOPS + 2;
    vf_assume(c <= (in ? e.cap - e.n : e.n));
    T* data = any_data<T>(c, "data");
    if (kind == NOPS) e.b.copy_in_front(data, c);
    else if (kind == NOPS + 1) e.b.copy_in_back(data, c);
    else if (kind == NOPS + 2) e.b.copy_out_front(data, c);
    else e.b.copy_out_back(data, c);
    n = in ? n + c : n - c;
  }
  bool const at_back = vf_bool("grow_back");
  T const w = cell<T>::any("w");
  vf_expect("the buffer grows");
  if (n == e.cap) {
    if (at_back) e.b.pop_front();
    else e.b.pop_back();
    --n;
  }
  if (at_back) e.b.push_back(w);
  else e.b.push_front(w);
  ++n;
  vf_reach("the buffer grows");
  vf_ensure("the size counts the new element", e.b.size() == n);
  T* const p = at_back ? &e.b.back() : &e.b.front();
  size_t const raw = e.b.raw_index(e.b.begin());
  vf_ensure("the new element lies in the memory, at its place in the ring", p == e.mem + ring(raw, at_back ? n - 1 : 0, e.cap));
  vf_ensure("the new element has its value", cell<T>::eq(*p, w));
}
VF_CONTRACT(B05_then_in_front) { b05_then<uint32_t>(NOPS); }
VF_CONTRACT(B05_then_in_back) { b05_then<uint32_t>(NOPS + 1); }
VF_CONTRACT(B05_then_out_front) { b05_then<uint32_t>(NOPS + 2); }
VF_CONTRACT(B05_then_out_back) { b05_then<uint32_t>(NOPS + 3); }
VF_CONTRACT(B05_then_push_back) { b05_then<uint32_t>(PB_COPY); }
VF_CONTRACT(B05_then_push_front) { b05_then<uint32_t>(PF_COPY); }
VF_CONTRACT(B05_then_pop_front_n) { b05_then<uint32_t>(POPF_N); }
VF_CONTRACT(B05_then_pop_back_n) { b05_then<uint32_t>(POPB_N); }
VF_CONTRACT(B05_then_pop_front) { b05_then<uint32_t>(POPF); }
VF_CONTRACT(B05_then_pop_back) { b05_then<uint32_t>(POPB); }
VF_CONTRACT(B05_then_clear) { b05_then<uint32_t>(CLEAR); }

// ---- B06: checked access ----------------------------------------------------------------------------------------------
template <typename T> void b06() {
  env<T> e;
  size_t const i = vf_idx("i", 0, ~size_t(0));
  bool thrown = false;
  T* p = nullptr;
  try {
    p = &e.b.at(i);
  } catch (std::out_of_range const&) {
    thrown = true;
  }
  vf_expect("at() throws");
  vf_expect("at() returns");
  vf_ensure("at(i) throws std::out_of_range exactly when i is not below the size", thrown == (i >= e.n));
  if (thrown) {
    vf_reach("at() throws");
  } else {
    vf_reach("at() returns");
    vf_ensure("at(i) is element i", p == e.slot(i));
  }
  check_counts(e.b, e.cap, e.n);
  size_t const m = vf_idx("m", 0, BIG);
  vf_assume(m < e.cap);
  vf_ensure("the memory is unchanged", cell<T>::eq(e.mem[m], cell<T>::old(e.mem + m)));
  check_closed(e.b, e.mem, e.cap);
}
VF_CONTRACT(B06_at_u8) { b06<uint8_t>(); }
VF_CONTRACT(B06_at_u32) { b06<uint32_t>(); }
VF_CONTRACT(B06_at_pair) { b06<pair64>(); }
VF_CONTRACT(B06_at_u16) { b06<uint16_t>(); }
VF_CONTRACT(B06_at_rgb) { b06<rgb>(); }
VF_CONTRACT(B06_at_quad) { b06<quad>(); }

// ---- memory of no elements at all, and no memory ------------------------------------------------------------------------
template <typename T> void nothing(bool none) {
  T* mem = any_data<T>(4, "mem") + vf_idx("at", 0, 4);
  circular_buffer_adapter<T> z = none ? circular_buffer_adapter<T>() : vf_bool("index") ? circular_buffer_adapter<T>(mem, size_t(0), size_t(0), size_t(0)) : circular_buffer_adapter<T>(mem, mem, mem, size_t(0));
  bool const clear_first = vf_bool("clear");
  if (clear_first) z.clear();
  check_counts(z, 0, 0);
  size_t const i = vf_idx("i", 0, ~size_t(0));
  bool thrown = false;
  try {
    z.at(i);
  } catch (std::out_of_range const&) {
    thrown = true;
  }
  vf_ensure("at(i) throws for every i", thrown);
  vf_ensure("begin() is end()", vf_and(vf_and(z.begin() == z.end(), z.cbegin() == z.cend()), vf_and(z.rbegin() == z.rend(), z.end() - z.begin() == 0)));
  if (!none) {
    vf_ensure("the recorded first index is the only one there is", z.raw_index(z.begin()) == 0);
    z.pop_front(0);
    z.pop_back(0);
    z.copy_in_back(mem, 0);
    z.copy_out_front(mem, 0);
    check_counts(z, 0, 0);
  }
}
VF_CONTRACT(B01_zero_u32) { nothing<uint32_t>(false); }
VF_CONTRACT(B01_none_u32) { nothing<uint32_t>(true); }
VF_CONTRACT(B03_zero_rgb) { nothing<rgb>(false); }
VF_CONTRACT(B06_zero_u8) { nothing<uint8_t>(false); }
VF_CONTRACT(B06_none_pair) { nothing<pair64>(true); }

// ---- closure: every mutator ends in a state attaching could have produced (shared by B01..B06) --------------------------
// The induction over histories rests on these.  If one fails, the histories below search for an observable consequence.
template <typename T> void b00(int kind) {
  env<T> e;
  size_t n = e.n;
  if (kind < NOPS) {
    step<T> s{kind, 0, 0, cell<T>::any("v")};
    if (kind == POPF_N || kind == POPB_N) s.count = vf_idx("count", 0, BIG);
    perform(e.b, s, n, e.cap);
  } else {
    size_t const c = vf_idx("count", 0, BIG);
    vf_assume(c <= (kind < NOPS + 2 ? e.cap - e.n : e.n));
    T* data = any_data<T>(c, "data");
    if (kind == NOPS) e.b.copy_in_front(data, c);
    else if (kind == NOPS + 1) e.b.copy_in_back(data, c);
    else if (kind == NOPS + 2) e.b.copy_out_front(data, c);
    else e.b.copy_out_back(data, c);
  }
  size_t const f = e.b.raw_index(e.b.begin());
  vf_ensure_inv("the raw index of the first element is inside the memory", f < e.cap);
  circular_buffer_adapter<T> fresh(e.mem, e.mem + e.cap, e.mem + f, e.b.size());
  vf_ensure_inv("the state equals that of a freshly attached buffer", vf_bytes_eq(&e.b, &fresh, sizeof fresh));
}
#define B00(N, K) VF_CONTRACT(B00_##N) { b00<uint32_t>(K); }
B00(push_back, PB_COPY) B00(push_back_move, PB_MOVE) B00(emplace_back, EB) B00(push_front, PF_COPY) B00(push_front_move, PF_MOVE)
B00(emplace_front, EF) B00(pop_front, POPF) B00(pop_back, POPB) B00(pop_front_n, POPF_N) B00(pop_back_n, POPB_N) B00(clear, CLEAR)
B00(in_front, NOPS) B00(in_back, NOPS + 1) B00(out_front, NOPS + 2) B00(out_back, NOPS + 3)

// ---- whole histories against a double-ended queue, run on the compiled code only ----------------------------------------
#include <deque>
template <typename T> void native_history(char what) {
  size_t const cap = vf_idx("cap", 1, 20), raw = vf_idx("first", 0, 20), n0 = vf_idx("n", 0, 20);
  vf_assume(raw <= cap && n0 <= cap);
  T* mem = any_data<T>(cap, "mem");
  circular_buffer_adapter<T> b(mem, cap, raw, n0);
  std::deque<T> d;
  for (size_t i = 0; i < n0; ++i) d.push_back(cell<T>::old(mem + (raw + i) % cap));
  for (int i = 0; i < 24; ++i) {
    char o[3] = {'o', char('a' + i), 0}, c[3] = {'c', char('a' + i), 0}, v[3] = {'v', char('a' + i), 0};
    size_t op = vf_idx(o, 0, what == '1' ? 10 : what == '5' ? 15 : 14), k = vf_idx(c, 0, 20);
    T const x = cell<T>::any(v);
    size_t const room = cap - d.size();
    if (op >= 6 && op <= 10 && k > d.size()) k = d.size();
    if ((op == 11 || op == 12) && k > room) k = i % 2 ? room : room ? k % room : 0;
    if ((op == 13 || op == 14) && k > d.size()) k = i % 2 ? d.size() : d.size() ? k % d.size() : 0;
    if (op <= 5 && room == 0) continue;
    if ((op == 6 || op == 7) && d.empty()) continue;
    std::vector<T> t(k);
    for (size_t j = 0; j < k; ++j) t[j] = T(x);
    for (size_t j = 0; j < k; ++j) if (j % 2) t[j] = T{};
    switch (op) {
      case 0: b.push_back(x); d.push_back(x); break;
      case 1: { T y = x; b.push_back(std::move(y)); d.push_back(x); break; }
      case 2: b.emplace_back(x); d.push_back(x); break;
      case 3: b.push_front(x); d.push_front(x); break;
      case 4: { T y = x; b.push_front(std::move(y)); d.push_front(x); break; }
      case 5: b.emplace_front(x); d.push_front(x); break;
      case 6: b.pop_front(); d.pop_front(); break;
      case 7: b.pop_back(); d.pop_back(); break;
      case 8: b.pop_front(k); d.erase(d.begin(), d.begin() + k); break;
      case 9: b.pop_back(k); d.erase(d.end() - k, d.end()); break;
      case 10: if (i % 4 == 0) { b.clear(); d.clear(); } break;
      case 11: b.copy_in_front(t.data(), k); d.insert(d.begin(), t.begin(), t.end()); break;
      case 12: b.copy_in_back(t.data(), k); d.insert(d.end(), t.begin(), t.end()); break;
      case 13: b.copy_out_front(t.data(), k); for (size_t j = 0; j < k; ++j) vf_ensure("copied out", cell<T>::eq(t[j], d[j])); d.erase(d.begin(), d.begin() + k); break;
      case 14: b.copy_out_back(t.data(), k); for (size_t j = 0; j < k; ++j) vf_ensure("copied out", cell<T>::eq(t[j], d[d.size() - k + j])); d.erase(d.end() - k, d.end()); break;
      case 15: { size_t const f = b.raw_index(b.begin()); vf_ensure("raw first index", f <= cap); circular_buffer_adapter<T> r(mem, b.capacity(), f, b.size()); b = std::move(r); break; }
    }
    vf_ensure("size and flags follow the history", b.size() == d.size() && b.empty() == d.empty() && b.full() == (d.size() == cap) && b.remaining() == cap - d.size());
    for (size_t j = 0; j < d.size(); ++j) vf_ensure("the elements follow the history", cell<T>::eq(b[j], d[j]) && cell<T>::eq(b.at(j), d[j]));
    if (!d.empty()) vf_ensure("front and back follow the history", cell<T>::eq(b.front(), d.front()) && cell<T>::eq(b.back(), d.back()));
    if (what == '3') {
      vf_ensure("end - begin is the size", b.end() - b.begin() == std::ptrdiff_t(d.size()));
      size_t j = 0;
      for (auto it = b.begin(); it != b.end(); ++it, ++j) {
        vf_ensure("iteration ends", j < d.size());
        if (j >= d.size()) break;
        vf_ensure("iteration follows the sequence", cell<T>::eq(*it, d[j]) && it - b.begin() == std::ptrdiff_t(j) && b.begin() + j == it && b.end() - (d.size() - j) == it);
      }
      for (auto it = b.rbegin(); it != b.rend(); ++it) vf_ensure("reverse iteration", cell<T>::eq(*it, d[--j]));
    }
    if (what == '6') {
      bool t1 = false, t2 = false;
      try { b.at(d.size() + k); } catch (std::out_of_range const&) { t1 = true; }
      try { b.at(~k); } catch (std::out_of_range const&) { t2 = true; }
      vf_ensure("at() throws when out of range", t1 && t2);
    }
  }
}
extern "C" void vn_B02_history() { native_history<uint32_t>('2'); }
extern "C" void vn_B03_history() { native_history<uint32_t>('3'); }
extern "C" void vn_B05_history() { native_history<uint32_t>('5'); }
extern "C" void vn_B05_history_u8() { native_history<uint8_t>('5'); }
extern "C" void vn_B06_history() { native_history<uint8_t>('6'); }
extern "C" void vn_B01_history() { native_history<uint32_t>('2'); }

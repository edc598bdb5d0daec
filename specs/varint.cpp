// Contracts for embedded::varint (V01-V05).
#include "vf.h"
#include "embedded/varint.h"
using embedded::varint;

using u128 = unsigned __int128;
using i128 = __int128;

// an arbitrary value of the integer type T
template <size_t Size> struct any_bits;
template <> struct any_bits<1> { static uint8_t get(const char* n) { return vf_u8(n); } };
template <> struct any_bits<2> { static uint16_t get(const char* n) { return vf_u16(n); } };
template <> struct any_bits<4> { static uint32_t get(const char* n) { return vf_u32(n); } };
template <> struct any_bits<8> { static uint64_t get(const char* n) { return vf_u64(n); } };
template <> struct any_bits<16> {
  static u128 get(const char* n) {
    char name[16] = "h_";
    for (int i = 0; n[i]; ++i) name[i + 2] = n[i];
    uint64_t const lo = vf_u64(n);
    return (u128(vf_u64(name)) << 64) | lo;
  }
};
template <typename T> T any_val(const char* n) { return static_cast<T>(any_bits<sizeof(T)>::get(n)); }
template <> bool any_val<bool>(const char* n) { return vf_bool(n); }

// number of value bits of the unsigned type of T's width, and the length of its longest encoding
template <typename T> struct width { static constexpr size_t bits = 8 * sizeof(T); };
template <> struct width<bool> { static constexpr size_t bits = 1; };
template <typename T> constexpr size_t longest() { return (width<T>::bits + 6) / 7; }

// independent definition of the signed folding, in 128-bit arithmetic
template <typename T> u128 fold(T v) {
  if (!(T(-1) < T(0))) return static_cast<u128>(v);
  i128 s = static_cast<i128>(v);
  return s >= 0 ? 2 * static_cast<u128>(s) : 2 * static_cast<u128>(-(s + 1)) + 1;
}

// a sink with push_back, for the back-insert form
struct sink {
  using value_type = uint8_t;
  uint8_t data[24];
  size_t n = 0;
  void push_back(uint8_t const& b) {
    vf_assume(n < 24);
    data[n++] = b;
  }
};

// an iterator that is not a pointer and counts the bytes it reads
struct count_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = uint8_t;
  using difference_type = ptrdiff_t;
  using pointer = uint8_t const*;
  using reference = uint8_t const&;
  uint8_t const* p;
  size_t* reads;
  reference operator*() const { ++*reads; return *p; }
  count_it& operator++() { ++p; return *this; }
  count_it operator++(int) { auto t = *this; ++p; return t; }
  bool operator==(count_it const& o) const { return p == o.p; }
  bool operator!=(count_it const& o) const { return p != o.p; }
};

constexpr size_t BIG = size_t(1) << 40;

template <typename T> void v01() {
  T const v = any_val<T>("v");
  int form = vf_bool("checked") ? 0 : (vf_bool("sink") ? 1 : 2);
  size_t const len = vf_idx("len", 0, BIG);
  uint8_t* buf = vf_buf("buf", len);
  uint8_t* e = buf;
  vf_expect("checked encode succeeds");
  vf_expect("unchecked encode");
  vf_expect("back-insert encode");
  if (form == 0) {
    e = varint::encode(v, buf, buf + len);
    if (e == buf) return;  // no space: V03
    vf_reach("checked encode succeeds");
  } else if (form == 1) {
    sink s;
    varint::encode(v, std::back_inserter(s));
    vf_assume(s.n <= len);
    for (size_t i = 0; i < s.n; ++i) buf[i] = s.data[i];
    e = buf + s.n;
    vf_reach("back-insert encode");
  } else {
    vf_assume(len >= longest<T>());
    e = varint::encode(v, buf);
    vf_reach("unchecked encode");
  }
  T r = any_val<T>("junk");
  uint8_t const* d = varint::decode(r, static_cast<uint8_t const*>(buf), static_cast<uint8_t const*>(buf + len));
  vf_ensure("decode(encode(v)) returns the end of the encoding", d == e);
  vf_ensure("decode(encode(v)) == v", r == v);
  size_t reads = 0;
  T q = any_val<T>("junk2");
  count_it ce = varint::decode(q, count_it{buf, &reads}, count_it{buf + len, &reads});
  vf_ensure("decode through a generic iterator agrees", vf_and(ce.p == e, q == v));
}

template <typename T> void v02() {
  T const v = any_val<T>("v");
  u128 const u = fold(v);
  size_t const len = vf_idx("len", longest<T>(), BIG);
  uint8_t* buf = vf_buf("buf", len);
  uint8_t* e = vf_bool("checked") ? varint::encode(v, buf, buf + len) : varint::encode(v, buf);
  size_t const n = static_cast<size_t>(e - buf);
  vf_ensure("encoding length is between 1 and the maximum", n >= 1 && n <= longest<T>());
  vf_ensure("size(v) equals the encoding length", varint::size(v) == n);
  vf_ensure("minimal: the last group is not zero unless it is the only one", n == 1 || (u >> (7 * (n - 1))) != 0);
  vf_ensure("complete: no bits are left out", 7 * n >= 128 || (u >> (7 * n)) == 0);
  for (size_t i = 0; i < n; ++i) {
    uint8_t const want = static_cast<uint8_t>(((u >> (7 * i)) & 0x7f) | (i + 1 < n ? 0x80 : 0));
    vf_ensure("byte i is the i-th 7-bit group with the continuation bit", buf[i] == want);
  }
  sink s;
  varint::encode(v, std::back_inserter(s));
  vf_ensure("the back-insert form writes the same number of bytes", s.n == n);
  for (size_t i = 0; i < s.n && i < n; ++i) {
    vf_ensure("the back-insert form writes the same bytes", s.data[i] == buf[i]);
  }
}

template <typename T> void v03() {
  T const v = any_val<T>("v");
  size_t const len = vf_idx("len", 0, BIG);
  uint8_t* mem = vf_buf("buf", len + 12);
  uint8_t* b = mem + 4;
  u128 const u = fold(v);
  size_t need = 1;
  for (u128 x = u >> 7; x != 0; x >>= 7) ++need;
  vf_expect("no space");
  vf_expect("space");
  uint8_t* e = varint::encode(v, b, b + len);
  size_t limit = 0;
  if (len < need) {
    vf_reach("no space");
    vf_ensure("too little space returns the start", e == b);
    limit = len;
  } else {
    vf_reach("space");
    vf_ensure("enough space returns the position after the encoding", e == b + need);
    limit = need;
  }
  for (size_t i = 0; i < 4; ++i) vf_ensure("bytes before the range are untouched", mem[i] == vf_old8(mem + i));
  for (size_t i = 0; i < longest<T>() + 10; ++i) {
    if (i < limit) continue;
    if (i >= len + 8) break;
    vf_ensure("bytes after the encoding / after the range are untouched", b[i] == vf_old8(b + i));
  }
}

template <typename T> void v04() {
  size_t const len = vf_idx("len", 0, BIG);
  uint8_t const* buf = vf_buf("buf", len);
  constexpr size_t maxlen = longest<T>();
  vf_expect("malformed");
  vf_expect("well formed");
  // specification: the first byte whose top bit is clear, the value denoted, does it fit
  bool ok = false, fits = true;
  size_t k = 0;
  u128 val = 0;
  for (size_t i = 0; i < maxlen; ++i) {
    if (i >= len) break;
    u128 const group = vf_old8(buf + i) & 0x7f;
    size_t const room = width<T>::bits - 7 * i;   // value bits from this group on
    fits = vf_and(fits, room >= 7 || (group >> (room < 7 ? room : 7)) == 0);
    val |= group << (7 * i);
    if (vf_old8(buf + i) < 128) {
      ok = true;
      k = i + 1;
      break;
    }
  }
  if (!fits) ok = false;
  size_t reads = 0;
  T r = any_val<T>("junk");
  count_it e = varint::decode(r, count_it{buf, &reads}, count_it{buf + len, &reads});
  T r2 = any_val<T>("junk2");
  uint8_t const* e2 = varint::decode(r2, buf, buf + len);
  vf_ensure("reads no more bytes than the longest encoding", reads <= maxlen);
  if (!ok) {
    vf_reach("malformed");
    vf_ensure("malformed input returns the start", vf_and(e.p == buf, e2 == buf));
  } else {
    vf_reach("well formed");
    vf_ensure("well-formed input returns the position after its last byte", vf_and(e.p == buf + k, e2 == buf + k));
    vf_ensure("decoded value is the value denoted by the bytes", vf_and(fold(r) == val, fold(r2) == val));
  }
}

template <typename S> void v05() {
  using U = typename std::make_unsigned<S>::type;
  S const v = any_val<S>("v");
  auto z = varint::zig_zag_encode(v);
  static_assert(std::is_same<decltype(z), U>::value, "folding keeps the width");
  vf_ensure("folding is 2v / -2v-1", static_cast<u128>(z) == fold(v));
  vf_ensure("unfold(fold(v)) == v", varint::zig_zag_decode(z) == v);
  U const u = any_val<U>("u");
  auto s = varint::zig_zag_decode(u);
  static_assert(std::is_same<decltype(s), S>::value, "unfolding keeps the width");
  vf_ensure("fold(unfold(u)) == u", varint::zig_zag_encode(s) == u);
  vf_ensure("unfolding is u/2 / -(u+1)/2", fold(s) == static_cast<u128>(u));
}

#define EACH(P, F) \
  VF_CONTRACT(P##_u8) { F<uint8_t>(); } \
  VF_CONTRACT(P##_u16) { F<uint16_t>(); } \
  VF_CONTRACT(P##_u32) { F<uint32_t>(); } \
  VF_CONTRACT(P##_u64) { F<uint64_t>(); } \
  VF_CONTRACT(P##_i8) { F<int8_t>(); } \
  VF_CONTRACT(P##_i16) { F<int16_t>(); } \
  VF_CONTRACT(P##_i32) { F<int32_t>(); } \
  VF_CONTRACT(P##_i64) { F<int64_t>(); } \
  VF_CONTRACT(P##_bool) { F<bool>(); } \
  VF_CONTRACT(P##_char) { F<char>(); } \
  VF_CONTRACT(P##_wchar) { F<wchar_t>(); } \
  VF_CONTRACT(P##_char16) { F<char16_t>(); } \
  VF_CONTRACT(P##_char32) { F<char32_t>(); } \
  VF_CONTRACT(P##_ll) { F<long long>(); } \
  VF_CONTRACT(P##_ull) { F<unsigned long long>(); } \
  VF_CONTRACT(P##_u128) { F<u128>(); } \
  VF_CONTRACT(P##_i128) { F<i128>(); }

EACH(V01, v01)
EACH(V02, v02)
EACH(V03, v03)
EACH(V04, v04)
VF_CONTRACT(V05_i8) { v05<int8_t>(); }
VF_CONTRACT(V05_i16) { v05<int16_t>(); }
VF_CONTRACT(V05_i32) { v05<int32_t>(); }
VF_CONTRACT(V05_i64) { v05<int64_t>(); }
VF_CONTRACT(V05_ll) { v05<long long>(); }
VF_CONTRACT(V05_i128) { v05<i128>(); }

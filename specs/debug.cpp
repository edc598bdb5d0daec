// Contracts for the debug coefficient records (D01).
#include "vfm.h"
#include "embedded/signal/filter.h"
#include "embedded/signal/butterworth.h"
#include "embedded/signal/debug_filter_coefs.h"
namespace sg = embedded::signal;
namespace cm = embedded::cmath;
namespace dt = embedded::signal::detail;

namespace {
// the record as its readers see it: 4-byte magic, 2-byte length, 1-byte version, structure, value type, then the name
struct layout { uint32_t magic; uint16_t length; uint8_t version, structure, valtype; char name[119]; };
static_assert(sizeof(layout) == 128, "record header size");

template <typename H> void header(H const* h, size_t total, uint8_t structure, uint8_t valtype) {
  layout l;
  std::memcpy(&l, h, sizeof l);
  vf_ensure("the record starts with the fixed magic", l.magic == 0x544C4946);
  vf_ensure("the record carries version 0", l.version == 0);
  vf_ensure("the record names the design's structure", l.structure == structure);
  vf_ensure("the record names the coefficients' type", l.valtype == valtype);
  vf_ensure("the record carries its own length in bytes", l.length == total);
}
// the first min(len, 118) characters, then a zero
template <size_t S> void name_is(void const* h, char const (&name)[S]) {
  char const* n = static_cast<char const*>(h) + 9;
  bool same = true;
  size_t const len = S - 1 < 118 ? S - 1 : 118;
  for (size_t i = 0; i < len; ++i) same = vf_and(same, n[i] == name[i]);
  vf_ensure("the record carries the name, cut to fit", same);
  vf_ensure("the name is always zero-terminated", n[len] == 0);
}
template <size_t S> struct text {
  char c[S];
  text() {
    for (size_t i = 0; i + 1 < S; ++i) {
      char n[5] = {'c', char('0' + i / 100), char('0' + i / 10 % 10), char('0' + i % 10), 0};
      c[i] = char(vf_u8(n));
      vf_assume(c[i] != 0);
    }
    c[S - 1] = 0;
  }
};
template <typename T> struct tag;
template <> struct tag<float> { static constexpr uint8_t v = 0; };
template <> struct tag<double> { static constexpr uint8_t v = 1; };
template <> struct tag<long double> { static constexpr uint8_t v = 2; };
// bit for bit: of a long double, the ten bytes that hold its value
template <typename T> bool same_bits(char const* a, void const* b, size_t bytes) {
  if (sizeof(T) <= 8) return vf_bytes_eq(a, b, bytes);
  bool ok = true;
  for (size_t i = 0; i < bytes; i += sizeof(T)) ok = vf_and(ok, vf_bytes_eq(a + i, static_cast<char const*>(b) + i, 10));
  return ok;
}

// a design whose coefficients are arbitrary bit patterns (infinities, NaN payloads and negative zeros included)
template <typename D, typename T> struct any_design {
  alignas(16) char mem[sizeof(D)];
  any_design() {
    static_assert(sizeof(D) % sizeof(uint32_t) == 0, "");
    for (size_t i = 0; i < sizeof(D) / sizeof(T); ++i) {
      char n[4] = {'v', char('0' + i / 10), char('0' + i % 10), 0};
      if (sizeof(T) > 8) {
        uint64_t const x = vf_u64(n);
        n[0] = 'w';
        uint64_t const y = vf_u16(n);
        std::memcpy(mem + i * sizeof(T), &x, 8);
        std::memcpy(mem + i * sizeof(T) + 8, &y, 8);
      } else if (sizeof(T) == 8) {
        uint64_t const x = vf_u64(n);
        std::memcpy(mem + i * sizeof(T), &x, 8);
      } else {
        uint32_t const x = vf_u32(n);
        std::memcpy(mem + i * sizeof(T), &x, 4);
      }
    }
  }
  D const& get() const { return *reinterpret_cast<D const*>(mem); }
};

template <typename T, size_t N, size_t S> void d01_poly() {
  using design = sg::poly_design<T, N>;
  using parray = typename design::parray;
  any_design<design, T> const d;
  text<S> const t;
  dt::filter_design_debug<design> const r(d.get(), t.c);
  constexpr size_t half = (N + 1) * sizeof(T);
  header(&r, sizeof(layout) + 2 * half, 1, tag<T>::v);
  vf_ensure("the record is as long as it says", sizeof r == sizeof(layout) + 2 * half);
  name_is(&r, t.c);
  char const* c = reinterpret_cast<char const*>(&r) + sizeof(layout);
  parray const b = d.get().b(), a = d.get().a();
  vf_ensure("the record carries the numerator bit for bit", same_bits<T>(c, &b, half));
  vf_ensure("the record carries the denominator bit for bit", same_bits<T>(c + half, &a, half));
}
template <typename T, size_t N, size_t S> void d01_sos() {
  using design = sg::sos_design<T, N>;
  constexpr size_t K = (N + 1) / 2, bytes = 5 * K * sizeof(T);
  any_design<design, T> const d;
  text<S> const t;
  dt::filter_design_debug<design> const r(d.get(), t.c);
  header(&r, sizeof(layout) + bytes, 0, tag<T>::v);
  vf_ensure("the record is as long as it says", sizeof r == sizeof(layout) + bytes);
  name_is(&r, t.c);
  char const* c = reinterpret_cast<char const*>(&r) + sizeof(layout);
  vf_ensure("the record carries the sections bit for bit", same_bits<T>(c, &d.get().sos(), bytes));
}
} // namespace

#define D01(N, S) \
  VF_CONTRACT(D01_poly_double_##N##_##S) { d01_poly<double, N, S>(); } \
  VF_CONTRACT(D01_poly_float_##N##_##S) { d01_poly<float, N, S>(); } \
  VF_CONTRACT(D01_sos_double_##N##_##S) { d01_sos<double, N, S>(); } \
  VF_CONTRACT(D01_sos_float_##N##_##S) { d01_sos<float, N, S>(); }
// name lengths (terminator included) below, at and above the field size of 119
D01(1, 1) D01(2, 6) D01(3, 118) D01(4, 119) D01(5, 120) D01(6, 121) D01(8, 201)
#define D01L(N, S) \
  VF_CONTRACT(D01_poly_long_##N##_##S) { d01_poly<long double, N, S>(); } \
  VF_CONTRACT(D01_sos_long_##N##_##S) { d01_sos<long double, N, S>(); }
D01L(1, 2) D01L(2, 118) D01L(3, 119) D01L(4, 120) D01L(6, 20)

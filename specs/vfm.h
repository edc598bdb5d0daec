// Headers of the math and filter components.  functions.h tests __clang__ to choose between libstdc++'s <cmath> and the external
// gcem library (absent here); the contracts are about the libstdc++ branch that g++ builds, so that is the one verified.
#pragma once
#include "vf.h"
#ifdef __clang__
#undef __clang__
#define VF_CLANG 1
#endif
#include "embedded/constexpr_math/complex.h"
#include "embedded/constexpr_math/constants.h"
#include "embedded/constexpr_math/convolve.h"
#include "embedded/constexpr_math/functions.h"
#include "embedded/constexpr_math/poly.h"
#include "embedded/constexpr_math/vector.h"
namespace cm = embedded::cmath;
using cd = embedded::cmath::complex<double>;

// arbitrary vectors
inline char* vf_name(char* buf, const char* n, size_t i) {
  size_t k = 0;
  for (; n[k]; ++k) buf[k] = n[k];
  buf[k++] = char('0' + i / 10);
  buf[k++] = char('0' + i % 10);
  buf[k] = 0;
  return buf;
}
template <typename T> struct vf_val;
template <> struct vf_val<double> {
  static double get(const char* n) { return vf_real(n); }
  static bool eq(double a, double b) { return vf_req(a, b); }
};
template <> struct vf_val<float> {
  static float get(const char* n) { return float(vf_real(n)); }
  static bool eq(float a, float b) { return vf_req(a, b); }
};
template <> struct vf_val<uint32_t> {
  static uint32_t get(const char* n) { return vf_u32(n); }
  static bool eq(uint32_t a, uint32_t b) { return a == b; }
};
template <> struct vf_val<cd> {
  static cd get(const char* n) {
    char b[32], *p = b;
    for (; *n; ++n) *p++ = *n;
    p[0] = '_'; p[1] = 'r'; p[2] = 0;
    double r = vf_real(b);
    p[1] = 'i';
    return cd(r, vf_real(b));
  }
  static bool eq(cd const& a, cd const& b) { return vf_and(vf_req(a.real(), b.real()), vf_req(a.imag(), b.imag())); }
};
template <typename T> struct vf_arr {
  T* a;
  size_t n;
};
template <typename T, size_t N> struct vf_in {
  T v[N ? N : 1];
  explicit vf_in(const char* name) {
    char b[32];
    for (size_t i = 0; i < N; ++i) v[i] = vf_val<T>::get(vf_name(b, name, i));
  }
  struct pick { T const* v; constexpr T operator()(size_t i) const noexcept { return v[i]; } };
  cm::vector<T, N> vec() const { return cm::vector<T, N>::create(pick{v}); }
  T const& operator[](size_t i) const { return v[i]; }
};

// Contracts for embedded::cmath: vector (A01, A02), complex (A03), convolve and poly (A04).
#include "vfm.h"

// ---- A01 ---------------------------------------------------------------------------------------------------------------------
template <typename T, size_t N> bool same(cm::vector<T, N> const& a, T const* want) {
  bool ok = true;
  for (size_t i = 0; i < N; ++i) ok = vf_and(ok, vf_val<T>::eq(a[i], want[i]));
  return ok;
}

template <typename T, size_t N> void a01_basic() {
  vf_in<T, N> in("x");
  cm::vector<T, N> const a = in.vec();
  vf_ensure("create gives fn(i) at every index", same(a, in.v));
  vf_ensure("size() is the number of elements", vf_and(a.size() == N, cm::vector<T, N>::size() == N));
  cm::vector<T, N> const b(a);
  vf_ensure("a copy has the same elements", same(b, in.v));
  T c = vf_val<T>::get("c");
  T w[N ? N : 1];
  for (auto& x : w) x = c;
  vf_ensure("full gives the value at every index", same(cm::vector<T, N>::full(c), w));
  for (auto& x : w) x = T(1);
  vf_ensure("ones gives 1 at every index", same(cm::vector<T, N>::ones(), w));
  for (auto& x : w) x = T(0);
  vf_ensure("zeros gives 0 at every index", same(cm::vector<T, N>::zeros(), w));
  vf_ensure("a vector without arguments is zero at every index", same(cm::vector<T, N>(), w));
}
template <size_t N> struct f_affine {
  double p, q;
  template <typename T> constexpr T operator()(T const& x) const noexcept { return T(p) * x + T(q); }
};
template <typename T, size_t N> void a01_transform() {
  vf_in<T, N> in("x");
  cm::vector<T, N> const a = in.vec();
  T const p = vf_val<T>::get("p");
  T w[N ? N : 1];
  auto r = a.transform([p](T const& x) { return x * p + x; });
  for (size_t i = 0; i < N; ++i) w[i] = in[i] * p + in[i];
  vf_ensure("transform applies the function at every index", same(r, w));
  vf_ensure("transform leaves its operand alone", same(a, in.v));
  auto t = a.template transform<bool>([](T const& x) { return !(x == T(0)); });
  bool ok = true;
  for (size_t i = 0; i < N; ++i) ok = vf_and(ok, t[i] == !(in[i] == T(0)));
  vf_ensure("transform to another type applies the function at every index", ok);
}
template <typename T, size_t N> void a01_arith() {
  vf_in<T, N> in("x");
  cm::vector<T, N> const a = in.vec();
  T const p = vf_val<T>::get("p");
  T w[N ? N : 1];
  for (size_t i = 0; i < N; ++i) w[i] = -in[i];
  vf_ensure("negation is element-wise", same(-a, w));
  for (size_t i = 0; i < N; ++i) w[i] = p * in[i];
  vf_ensure("scalar times vector is element-wise", same(p * a, w));
  for (size_t i = 0; i < N; ++i) w[i] = p + in[i];
  vf_ensure("scalar plus vector is element-wise", same(p + a, w));
}
template <typename T, size_t N> void a01_divide() {
  vf_in<T, N> in("x");
  cm::vector<T, N> const a = in.vec();
  T const p = vf_val<T>::get("p");
  T w[N ? N : 1];
  vf_assume(!(p == T(0)));
  for (size_t i = 0; i < N; ++i) w[i] = in[i] / p;
  vf_ensure("vector over scalar is element-wise", same(a / p, w));
  for (size_t i = 0; i < N; ++i) vf_assume(!(in[i] == T(0)));
  for (size_t i = 0; i < N; ++i) w[i] = p / in[i];
  vf_ensure("scalar over vector is element-wise", same(p / a, w));
}
template <size_t N> void a01_divide_mixed() {
  vf_in<cd, N> in("x");
  cm::vector<cd, N> const a = in.vec();
  double const p = vf_real("p");
  cd w[N ? N : 1];
  vf_assume(p != 0);
  for (size_t i = 0; i < N; ++i) w[i] = cd(in[i].real() / p, in[i].imag() / p);
  vf_ensure("complex vector over real scalar is element-wise", same(a / p, w));
  for (size_t i = 0; i < N; ++i) vf_assume(!(in[i].real() * in[i].real() + in[i].imag() * in[i].imag() == 0));
  for (size_t i = 0; i < N; ++i) {
    double const n = in[i].real() * in[i].real() + in[i].imag() * in[i].imag();
    w[i] = cd(p * in[i].real() / n, -p * in[i].imag() / n);
  }
  vf_ensure("real scalar over complex vector is element-wise", same(p / a, w));
}
// negation needs only the elements; mixed scalar types
template <size_t N> void a01_mixed() {
  vf_in<cd, N> in("x");
  cm::vector<cd, N> const a = in.vec();
  double const p = vf_real("p");
  cd w[N ? N : 1];
  for (size_t i = 0; i < N; ++i) w[i] = cd(p * in[i].real(), p * in[i].imag());
  vf_ensure("real scalar times complex vector is element-wise", same(p * a, w));
  for (size_t i = 0; i < N; ++i) w[i] = cd(p + in[i].real(), in[i].imag());
  vf_ensure("real scalar plus complex vector is element-wise", same(p + a, w));
  double d[N ? N : 1];
  for (size_t i = 0; i < N; ++i) d[i] = in[i].real();
  vf_ensure("real() takes every real part", same(cm::real(a), d));
  for (size_t i = 0; i < N; ++i) d[i] = in[i].imag();
  vf_ensure("imag() takes every imaginary part", same(cm::imag(a), d));
  for (size_t i = 0; i < N; ++i) d[i] = in[i].real() * in[i].real() + in[i].imag() * in[i].imag();
  vf_ensure("norm() takes every squared magnitude", same(cm::norm(a), d));
  for (size_t i = 0; i < N; ++i) d[i] = std::sqrt(in[i].real() * in[i].real() + in[i].imag() * in[i].imag());
  vf_ensure("abs() takes every magnitude", same(cm::abs(a), d));
}
template <size_t N> void a01_exp() {
  vf_in<double, N> in("x");
  double w[N ? N : 1];
  for (size_t i = 0; i < N; ++i) w[i] = std::exp(in[i]);
  vf_ensure("exp is element-wise", same(cm::exp(in.vec()), w));
}
template <typename T, size_t N> void a01_reduce() {
  vf_in<T, N> in("x");
  cm::vector<T, N> const a = in.vec();
  T const c = vf_val<T>::get("c");
  T s = c, m = T(1), k = c;
  for (size_t i = 0; i < N; ++i) {
    s = s + in[i];
    m = m * in[i];
    k = k * in[i];
  }
  size_t calls = 0;
  T r = a.reduce([&calls](T const& x, T const& y) { ++calls; return x + y; }, c);
  vf_ensure("reduce folds every element exactly once into the initial value", vf_and(vf_val<T>::eq(r, s), calls == N));
  vf_ensure("reduce starts from 1 by default", vf_val<T>::eq(a.reduce([](T const& x, T const& y) { return x * y; }), m));
  vf_ensure("prod is the product of all elements", vf_val<T>::eq(cm::prod(a), m));
  vf_ensure("reduce uses the initial value given", vf_val<T>::eq(a.reduce([](T const& x, T const& y) { return x * y; }, c), k));
}
template <typename T, size_t N, size_t M> void a01_append() {
  vf_in<T, N> x("x");
  vf_in<T, M> y("y");
  T w[N + M ? N + M : 1];
  for (size_t i = 0; i < N; ++i) w[i] = x[i];
  for (size_t i = 0; i < M; ++i) w[N + i] = y[i];
  auto r = x.vec().append(y.vec());
  vf_ensure("append has both sizes", r.size() == N + M);
  vf_ensure("append has the elements of both, in order", same(r, w));
}
template <typename T, size_t N, size_t P, size_t C> void a01_sub() {
  vf_in<T, N> x("x");
  auto r = x.vec().template subvector<P, C>();
  vf_ensure("subvector has the size asked for", r.size() == C);
  vf_ensure("subvector has the elements from its position on", same(r, x.v + P));
  T w[N - C ? N - C : 1];
  for (size_t i = 0; i < N - C; ++i) w[i] = x[i < P ? i : i + C];
  auto e = x.vec().template erase<P, C>();
  vf_ensure("erase removes as many elements as asked for", e.size() == N - C);
  vf_ensure("erase keeps all other elements in order", same(e, w));
}
template <typename T, size_t N> void a01_swap() {
  vf_in<T, N> x("x");
  cm::vector<T, N> const a = x.vec();
  size_t i = vf_idx("i", 0, N - 1), j = vf_idx("j", 0, N - 1), k = vf_idx("k", 0, N - 1);
  auto s = a.swap(i, j);
  T const got = s[k];
  T const want = k == i ? x[j] : k == j ? x[i] : x[k];
  vf_ensure("swap exchanges exactly the two elements", vf_val<T>::eq(got, want));
}
template <typename T, size_t N> void a01_swappop() {
  vf_in<T, N> x("x");
  size_t i = vf_idx("i", 0, N - 1);
  auto s = x.vec().swappop(i);
  vf_ensure("swap-and-pop removes one element", s.size() == N - 1);
  T w[N];
  for (size_t k = 0; k < N; ++k) w[k] = x[k];
  w[i] = x[0];
  bool ok = true;
  for (size_t k = 0; k + 1 < N; ++k) ok = vf_and(ok, vf_val<T>::eq(s[k], w[k + 1]));
  vf_ensure("swap-and-pop drops exactly the chosen element and moves the first into its place", ok);
}
#define A01N(N) \
  VF_CONTRACT(A01_basic_real_##N) { a01_basic<double, N>(); } \
  VF_CONTRACT(A01_basic_u32_##N) { a01_basic<uint32_t, N>(); } \
  VF_CONTRACT(A01_basic_complex_##N) { a01_basic<cd, N>(); } \
  VF_CONTRACT(A01_transform_real_##N) { a01_transform<double, N>(); } \
  VF_CONTRACT(A01_transform_u32_##N) { a01_transform<uint32_t, N>(); } \
  VF_CONTRACT(A01_arith_real_##N) { a01_arith<double, N>(); } \
  VF_CONTRACT(A01_arith_float_##N) { a01_arith<float, N>(); } \
  VF_CONTRACT(A01_arith_complex_##N) { a01_arith<cd, N>(); } \
  VF_CONTRACT(A01_arith_u32_##N) { a01_arith<uint32_t, N>(); } \
  VF_CONTRACT(A01_divide_real_##N) { a01_divide<double, N>(); } \
  VF_CONTRACT(A01_divide_u32_##N) { a01_divide<uint32_t, N>(); } \
  VF_CONTRACT(A01_divide_mixed_##N) { a01_divide_mixed<N>(); } \
  VF_CONTRACT(A01_mixed_##N) { a01_mixed<N>(); } \
  VF_CONTRACT(A01_exp_##N) { a01_exp<N>(); } \
  VF_CONTRACT(A01_reduce_real_##N) { a01_reduce<double, N>(); } \
  VF_CONTRACT(A01_reduce_u32_##N) { a01_reduce<uint32_t, N>(); } \
  VF_CONTRACT(A01_reduce_complex_##N) { a01_reduce<cd, N>(); }
A01N(0) A01N(1) A01N(2) A01N(3) A01N(4) A01N(5) A01N(8) A01N(17)
#define A01D(N) VF_CONTRACT(A01_divide_complex_##N) { a01_divide<cd, N>(); }
A01D(0) A01D(1) A01D(2) A01D(3) A01D(4) A01D(5) A01D(8)
#define A01S(N) \
  VF_CONTRACT(A01_swap_##N) { a01_swap<uint32_t, N>(); } \
  VF_CONTRACT(A01_swappop_##N) { a01_swappop<uint32_t, N>(); } \
  VF_CONTRACT(A01_swap_complex_##N) { a01_swap<cd, N>(); }
A01S(1) A01S(2) A01S(3) A01S(4) A01S(5) A01S(8)
#define A01A(N, M) VF_CONTRACT(A01_append_##N##_##M) { a01_append<uint32_t, N, M>(); a01_append<double, M, N>(); }
A01A(0, 0) A01A(0, 3) A01A(3, 0) A01A(1, 1) A01A(2, 5) A01A(5, 2) A01A(7, 7) A01A(1, 16) A01A(16, 17)
#define A01B(N, P, C) VF_CONTRACT(A01_sub_##N##_##P##_##C) { a01_sub<uint32_t, N, P, C>(); a01_sub<cd, N, P, C>(); }
A01B(1, 0, 1) A01B(1, 0, 0) A01B(5, 0, 1) A01B(5, 4, 1) A01B(5, 2, 1) A01B(5, 1, 3) A01B(5, 0, 5) A01B(5, 5, 0) A01B(8, 3, 4) A01B(8, 2, 6) A01B(17, 1, 16) A01B(33, 9, 17)

// construction from arguments and from vectors of other types
VF_CONTRACT(A01_construct) {
  uint32_t a = vf_u32("a"), b = vf_u32("b"), c = vf_u32("c");
  cm::vector<uint32_t, 3> v{a, b, c};
  vf_ensure("construction puts each argument at its index", vf_and(vf_and(v[0] == a, v[1] == b), v[2] == c));
  cm::vector<uint32_t, 5> p{a, b};
  vf_ensure("elements without an argument are zero", vf_and(vf_and(p[0] == a, p[1] == b), vf_and(vf_and(p[2] == 0, p[3] == 0), p[4] == 0)));
  cm::vector<uint64_t, 3> w(v);
  vf_ensure("conversion converts every element", vf_and(vf_and(w[0] == a, w[1] == b), w[2] == c));
  cm::vector<uint8_t, 3> n(v);
  vf_ensure("narrowing conversion converts every element", vf_and(vf_and(n[0] == uint8_t(a), n[1] == uint8_t(b)), n[2] == uint8_t(c)));
  cm::vector<int32_t, 3> s(v);
  cm::vector<int64_t, 3> l(s);
  vf_ensure("signed conversion converts every element", vf_and(vf_and(l[0] == int64_t(int32_t(a)), l[1] == int64_t(int32_t(b))), l[2] == int64_t(int32_t(c))));
}
VF_CONTRACT(A01_convert_real) {
  vf_in<double, 4> in("x");
  cm::vector<float, 4> f(in.vec());
  bool ok = true;
  for (size_t i = 0; i < 4; ++i) ok = vf_and(ok, vf_req(f[i], in[i]));
  vf_ensure("conversion between real types keeps every element (up to rounding)", ok);
  cm::vector<cd, 4> c(in.vec());
  for (size_t i = 0; i < 4; ++i) ok = vf_and(ok, vf_and(vf_req(c[i].real(), in[i]), vf_req(c[i].imag(), 0)));
  vf_ensure("conversion from real to complex keeps every element", ok);
  auto m = cm::make_vector<double>([&in](size_t i) { return in[3 - i]; }, embedded::make_index_sequence<4>{});
  for (size_t i = 0; i < 4; ++i) ok = vf_and(ok, vf_req(m[i], in[3 - i]));
  vf_ensure("make_vector gives fn(i) at every index", ok);
}
VF_CONTRACT(A01_convert_ieee) {
  double a = vf_f64("a"), b = vf_f64("b");
  cm::vector<double, 2> v{a, b};
  cm::vector<float, 2> f(v);
  float const fa = float(a), fb = float(b);
  vf_ensure("conversion rounds every element like a cast", vf_and(vf_or(f[0] == fa, vf_and(f[0] != f[0], fa != fa)), vf_or(f[1] == fb, vf_and(f[1] != f[1], fb != fb))));
}

// equality, on every IEEE value
template <size_t N> void a01_equal() {
  double x[N ? N : 1], y[N ? N : 1];
  char b[32];
  bool all = true;
  for (size_t i = 0; i < N; ++i) {
    x[i] = vf_f64(vf_name(b, "x", i));
    y[i] = vf_bool(vf_name(b, "same", i)) ? x[i] : vf_f64(vf_name(b, "y", i));
    all = vf_and(all, x[i] == y[i]);
  }
  typename vf_in<double, N>::pick px{x}, py{y};
  auto u = cm::vector<double, N>::create(px), v = cm::vector<double, N>::create(py);
  vf_ensure("vectors are equal exactly when all elements are", (u == v) == all);
}
// a vector is equal to itself, and to its copy, exactly when every element is equal to itself
template <typename T, size_t N> void a01_equal_self(T const (&x)[N]) {
  bool all = true;
  for (size_t i = 0; i < N; ++i) all = vf_and(all, x[i] == x[i]);
  typename vf_in<T, N>::pick px{x};
  auto const u = cm::vector<T, N>::create(px), v = u;
  vf_ensure("a vector is equal to itself exactly when all elements are equal to themselves", (u == u) == all);
  vf_ensure("a vector is equal to its copy exactly when all elements are equal to themselves", (u == v) == all);
}
VF_CONTRACT(A01_equal_self) {
  double const x[3] = {vf_f64("x0"), vf_f64("x1"), vf_f64("x2")};
  a01_equal_self(x);
  float const f[2] = {float(vf_f64("f0")), float(vf_f64("f1"))};
  a01_equal_self(f);
  uint32_t const u[3] = {vf_u32("u0"), vf_u32("u1"), vf_u32("u2")};
  a01_equal_self(u);
}
VF_CONTRACT(A01_equal_0) { a01_equal<0>(); }
VF_CONTRACT(A01_equal_1) { a01_equal<1>(); }
VF_CONTRACT(A01_equal_3) { a01_equal<3>(); }
VF_CONTRACT(A01_equal_4) { a01_equal<4>(); }
template <size_t N> void a01_equal_u32() {
  uint32_t x[N], y[N];
  char b[32];
  bool all = true;
  for (size_t i = 0; i < N; ++i) {
    x[i] = vf_u32(vf_name(b, "x", i));
    y[i] = vf_bool(vf_name(b, "same", i)) ? x[i] : vf_u32(vf_name(b, "y", i));
    all = vf_and(all, x[i] == y[i]);
  }
  typename vf_in<uint32_t, N>::pick px{x}, py{y};
  vf_ensure("integer vectors are equal exactly when all elements are", (cm::vector<uint32_t, N>::create(px) == cm::vector<uint32_t, N>::create(py)) == all);
}
// long vectors that differ in at most two places
template <size_t N> void a01_equal_long(size_t p, size_t q) {
  uint32_t x[N], y[N];
  char b[32];
  bool all = true;
  for (size_t i = 0; i < N; ++i) {
    x[i] = vf_u32(vf_name(b, "x", i));
    y[i] = i == p || i == q ? vf_u32(vf_name(b, "y", i)) : x[i];
    all = vf_and(all, x[i] == y[i]);
  }
  typename vf_in<uint32_t, N>::pick px{x}, py{y};
  vf_ensure("long vectors are equal exactly when all elements are", (cm::vector<uint32_t, N>::create(px) == cm::vector<uint32_t, N>::create(py)) == all);
}
#define A01Q(N, P, Q) VF_CONTRACT(A01_equal_long_##N##_##P##_##Q) { a01_equal_long<N>(P, Q); }
A01Q(9, 0, 8) A01Q(16, 7, 8) A01Q(17, 0, 16) A01Q(17, 3, 15) A01Q(33, 1, 32) A01Q(33, 16, 30)
VF_CONTRACT(A01_equal_u32_6) { a01_equal_u32<6>(); }

// ---- A02 ---------------------------------------------------------------------------------------------------------------------
struct item {
  uint32_t key, id;
  friend bool operator==(item const& a, item const& b) { return vf_and(a.key == b.key, a.id == b.id); }
  friend bool operator!=(item const& a, item const& b) { return !(a == b); }
};
struct less_key { bool operator()(item const& a, item const& b) const noexcept { return a.key < b.key; } };
struct greater_key { bool operator()(item const& a, item const& b) const noexcept { return a.key > b.key; } };
struct less_half { bool operator()(item const& a, item const& b) const noexcept { return (a.key >> 1) < (b.key >> 1); } };

template <size_t N> struct items {
  item x[N ? N : 1];
  items() {
    char b[32];
    for (size_t i = 0; i < N; ++i) x[i] = item{vf_u32(vf_name(b, "k", i)), uint32_t(i)};
  }
  // long vectors: two arbitrary keys among fixed ones (with ties), so that the number of orderings stays small
  items(size_t p, size_t q) {
    char b[32];
    for (size_t i = 0; i < N; ++i) x[i] = item{i == p || i == q ? vf_u32(vf_name(b, "k", i)) : uint32_t(100 + (i * 7 + 5) % 11), uint32_t(i)};
  }
  struct pick { item const* x; constexpr item operator()(size_t i) const noexcept { return x[i]; } };
  cm::vector<item, N> vec() const { return cm::vector<item, N>::create(pick{x}); }
};
template <size_t N, typename P> void a02_sort(items<N> const& in = items<N>()) {
  auto const a = in.vec();
  auto const s = a.sort(P());
  bool ordered = true, rearranged = true;
  for (size_t i = 0; i + 1 < N; ++i) ordered = vf_and(ordered, !P()(s[i + 1], s[i]));
  vf_ensure("the sorted vector is ordered", ordered);
  for (size_t i = 0; i < N; ++i) {
    size_t n = 0;
    for (size_t j = 0; j < N; ++j) n += vf_ite(s[j].id == i, 1, 0);
    rearranged = vf_and(rearranged, n == 1);
    bool intact = true;
    for (size_t j = 0; j < N; ++j) intact = vf_and(intact, vf_implies(s[j].id == i, s[j].key == in.x[i].key));
    rearranged = vf_and(rearranged, intact);
  }
  vf_ensure("the sorted vector has every element exactly once", rearranged);
  bool untouched = true;
  for (size_t i = 0; i < N; ++i) untouched = vf_and(untouched, vf_and(a[i].id == i, a[i].key == in.x[i].key));
  vf_ensure("sorting leaves its operand alone", untouched);
}
template <size_t N, typename P> void a02_argmin(items<N> const& in = items<N>()) {
  size_t const m = in.vec().argmin(P());
  vf_ensure("argmin is an index of the vector", m < N);
  bool none = true, first = true;
  for (size_t j = 0; j < N; ++j) {
    none = vf_and(none, !P()(in.x[j], in.x[m]));
    if (j < m) first = vf_and(first, P()(in.x[m], in.x[j]));
  }
  vf_ensure("no element is ordered before the one at argmin", none);
  vf_ensure("argmin is the first such index", first);
}
struct bits { int operator()(item const& a) const noexcept { return int(a.key & 0x14); } };   // like isdigit(): any non-zero value means true
struct is_odd { bool operator()(item const& a) const noexcept { return a.key & 1; } };
template <size_t N> void a02_count(items<N> const& in = items<N>()) {
  uint32_t const t = vf_u32("t");
  auto big = [t](item const& a) { return a.key >= t; };
  size_t n = 0, odd = 0, b = 0;
  for (size_t i = 0; i < N; ++i) {
    n += vf_ite(in.x[i].key >= t, 1, 0);
    odd += vf_ite(in.x[i].key & 1, 1, 0);
    b += vf_ite((in.x[i].key & 0x14) != 0, 1, 0);
  }
  vf_ensure("count is the number of elements that satisfy the predicate", vf_and(in.vec().count(big) == n, in.vec().count(is_odd()) == odd));
  vf_ensure("a predicate may return any type that converts to bool", in.vec().count(bits()) == b);
}
#define A02(N) \
  VF_CONTRACT(A02_sort_less_##N) { a02_sort<N, less_key>(); } \
  VF_CONTRACT(A02_sort_greater_##N) { a02_sort<N, greater_key>(); } \
  VF_CONTRACT(A02_sort_coarse_##N) { a02_sort<N, less_half>(); } \
  VF_CONTRACT(A02_count_##N) { a02_count<N>(); }
A02(0) A02(1) A02(2) A02(3) A02(4)
VF_CONTRACT(A02_sort_less_5) { a02_sort<5, less_key>(); }
extern "C" void vct_A02_sort_less_6() { a02_sort<6, less_key>(); }
VF_CONTRACT(A02_count_6) { a02_count<6>(); }
extern "C" void vct_A02_count_9() { a02_count<9>(); }
#define A02M(N) \
  VF_CONTRACT(A02_argmin_less_##N) { a02_argmin<N, less_key>(); } \
  VF_CONTRACT(A02_argmin_coarse_##N) { a02_argmin<N, less_half>(); }
#define A02L(N, P, Q) \
  VF_CONTRACT(A02_long_argmin_##N##_##P##_##Q) { a02_argmin<N, less_key>(items<N>(P, Q)); } \
  VF_CONTRACT(A02_long_coarse_##N##_##P##_##Q) { a02_argmin<N, less_half>(items<N>(P, Q)); } \
  VF_CONTRACT(A02_long_count_##N##_##P##_##Q) { a02_count<N>(items<N>(P, Q)); }
#define A02LS(N, P, Q) \
  VF_CONTRACT(A02_long_sort_##N##_##P##_##Q) { a02_sort<N, less_key>(items<N>(P, Q)); } \
  VF_CONTRACT(A02_long_greater_##N##_##P##_##Q) { a02_sort<N, greater_key>(items<N>(P, Q)); }
A02L(9, 0, 8) A02L(10, 3, 7) A02L(16, 4, 5) A02L(17, 0, 16) A02L(17, 7, 15) A02L(33, 1, 32) A02L(33, 15, 16)
A02LS(6, 0, 5) A02LS(7, 2, 3) A02LS(8, 1, 7) A02LS(9, 0, 4) A02LS(12, 5, 11)
extern "C" void vct_A02_long_sort_17_0_16() { a02_sort<17, less_key>(items<17>(0, 16)); }
A02M(1) A02M(2) A02M(3) A02M(5) A02M(6)
extern "C" void vct_A02_argmin_less_9() { a02_argmin<9, less_key>(); }

// ---- A03 ---------------------------------------------------------------------------------------------------------------------
VF_CONTRACT(A03_ring) {
  cd a = vf_val<cd>::get("a"), b = vf_val<cd>::get("b");
  double r = vf_real("r");
  double const ar = a.real(), ai = a.imag(), br = b.real(), bi = b.imag();
  auto is = [](cd const& z, double re, double im) { return vf_and(vf_req(z.real(), re), vf_req(z.imag(), im)); };
  vf_ensure("addition", is(a + b, ar + br, ai + bi));
  vf_ensure("subtraction", is(a - b, ar - br, ai - bi));
  vf_ensure("multiplication", is(a * b, ar * br - ai * bi, ar * bi + ai * br));
  vf_ensure("negation", is(-a, -ar, -ai));
  vf_ensure("conjugate", is(a.conj(), ar, -ai));
  vf_ensure("real plus complex", is(r + a, r + ar, ai));
  vf_ensure("real minus complex", is(r - a, r - ar, -ai));
  vf_ensure("real times complex", is(r * a, r * ar, r * ai));
  vf_ensure("norm is the squared magnitude", vf_req(a.norm(), ar * ar + ai * ai));
  vf_ensure("parts", vf_and(vf_req(cd(r).real(), r), vf_req(cd(r).imag(), 0)));
  vf_ensure("the default value is zero", is(cd(), 0, 0));
}
VF_CONTRACT(A03_divide) {
  cd a = vf_val<cd>::get("a"), b = vf_val<cd>::get("b");
  vf_assume(vf_or(b.real() != 0, b.imag() != 0));
  double r = vf_real("r");
  cd const q = a / b;
  vf_ensure("(a/b)*b is a", vf_val<cd>::eq(q * b, a));
  vf_ensure("division", vf_and(vf_req(q.real(), (a.real() * b.real() + a.imag() * b.imag()) / (b.real() * b.real() + b.imag() * b.imag())),
                               vf_req(q.imag(), (a.imag() * b.real() - a.real() * b.imag()) / (b.real() * b.real() + b.imag() * b.imag()))));
  vf_ensure("(r/b)*b is r", vf_val<cd>::eq((r / b) * b, cd(r)));
  vf_ensure("b/b is 1", vf_val<cd>::eq(b / b, cd(1.0)));
  vf_assume(r != 0);
  vf_ensure("(a/r) is element-wise", vf_and(vf_req((a / r).real(), a.real() / r), vf_req((a / r).imag(), a.imag() / r)));
}
VF_CONTRACT(A03_float) {
  using cf = cm::complex<float>;
  cf a(float(vf_real("ar")), float(vf_real("ai"))), b(float(vf_real("br")), float(vf_real("bi")));
  vf_assume(vf_or(b.real() != 0, b.imag() != 0));
  cf const q = (a / b) * b, p = a * b;
  vf_ensure("(a/b)*b is a in single precision", vf_and(vf_req(q.real(), a.real()), vf_req(q.imag(), a.imag())));
  vf_ensure("multiplication in single precision", vf_and(vf_req(p.real(), a.real() * b.real() - a.imag() * b.imag()), vf_req(p.imag(), a.real() * b.imag() + a.imag() * b.real())));
}
VF_CONTRACT(A03_abs) {
  cd a = vf_val<cd>::get("a"), b = vf_val<cd>::get("b");
  double const m = a.abs();
  vf_ensure("abs is not negative", m >= 0);
  vf_ensure("abs squared is the norm", vf_req(m * m, a.real() * a.real() + a.imag() * a.imag()));
  double const d = a.distance(b);
  vf_ensure("distance is not negative", d >= 0);
  vf_ensure("distance is the magnitude of the difference", vf_req(d * d, (a.real() - b.real()) * (a.real() - b.real()) + (a.imag() - b.imag()) * (a.imag() - b.imag())));
}
VF_CONTRACT(A03_exp) {
  cd a = vf_val<cd>::get("a");
  cd const e = cm::exp(a);
  double const m = std::exp(a.real());
  vf_ensure("exp", vf_and(vf_req(e.real(), m * std::cos(a.imag())), vf_req(e.imag(), m * std::sin(a.imag()))));
}
VF_CONTRACT(A03_compare) {
  double ar = vf_f64("ar"), ai = vf_f64("ai"), br = vf_bool("same_r") ? ar : vf_f64("br"), bi = vf_bool("same_i") ? ai : vf_f64("bi");
  cd a(ar, ai), b(br, bi);
  vf_ensure("complex numbers are equal exactly when both parts are", (a == b) == vf_and(ar == br, ai == bi));
  vf_ensure("is_real tells whether the imaginary part is zero", a.is_real() == (ai == 0));
}
// field laws on the real operators
VF_CONTRACT(A03_laws) {
  cd a = vf_val<cd>::get("a"), b = vf_val<cd>::get("b"), c = vf_val<cd>::get("c");
  using V = vf_val<cd>;
  vf_ensure("multiplication is associative", V::eq((a * b) * c, a * (b * c)));
  vf_ensure("multiplication is commutative", V::eq(a * b, b * a));
  vf_ensure("multiplication distributes over addition", V::eq(a * (b + c), a * b + a * c));
  vf_ensure("a - b is a + (-b)", V::eq(a - b, a + (-b)));
  vf_ensure("a times its conjugate is its norm", V::eq(a * a.conj(), cd(a.norm())));
  vf_ensure("the norm is multiplicative", vf_req((a * b).norm(), a.norm() * b.norm()));
}

// ---- A04 ---------------------------------------------------------------------------------------------------------------------
template <typename T, size_t N, size_t M> void a04_convolve() {
  vf_in<T, N> x("x");
  vf_in<T, M> y("y");
  auto const r = cm::convolve_full(x.vec(), y.vec());
  vf_ensure("the full convolution has N+M-1 elements", r.size() == N + M - 1);
  bool ok = true;
  for (size_t n = 0; n < N + M - 1; ++n) {
    T s = T(0);
    for (size_t m = 0; m < N; ++m)
      if (n >= m && n - m < M) s = s + x[m] * y[n - m];
    ok = vf_and(ok, vf_val<T>::eq(r[n], s));
  }
  vf_ensure("every element is the sum of all products of matching elements", ok);
}
#define A04C(N, M) \
  VF_CONTRACT(A04_convolve_##N##_##M) { a04_convolve<double, N, M>(); } \
  VF_CONTRACT(A04_convolve_complex_##N##_##M) { a04_convolve<cd, N, M>(); }
A04C(1, 1) A04C(1, 4) A04C(4, 1) A04C(2, 2) A04C(2, 5) A04C(5, 2) A04C(3, 3) A04C(4, 6) A04C(6, 4) A04C(9, 3) A04C(3, 9) A04C(1, 9) A04C(8, 8)
VF_CONTRACT(A04_convolve_float_3_4) { a04_convolve<float, 3, 4>(); }
VF_CONTRACT(A04_convolve_u32_3_2) { a04_convolve<uint32_t, 3, 2>(); }
VF_CONTRACT(A04_convolve_u32_4_5) { a04_convolve<uint32_t, 4, 5>(); }

template <typename T, size_t N> void a04_poly() {
  vf_in<T, N> z("z");
  T const x = vf_val<T>::get("x");
  auto const p = cm::poly(z.vec());
  vf_ensure("a polynomial of N zeros has N+1 coefficients", p.size() == N + 1);
  vf_ensure("the polynomial is monic", vf_val<T>::eq(p[0], T(1)));
  T v = T(0), w = T(1);
  for (size_t i = 0; i <= N; ++i) v = v * x + p[i];
  for (size_t i = 0; i < N; ++i) w = w * (x - z[i]);
  vf_ensure("the polynomial's value at every point is the product over its zeros", vf_val<T>::eq(v, w));
}
#define A04P(N) \
  VF_CONTRACT(A04_poly_##N) { a04_poly<double, N>(); } \
  VF_CONTRACT(A04_poly_complex_##N) { a04_poly<cd, N>(); }
A04P(0) A04P(1) A04P(2) A04P(3)
VF_CONTRACT(A04_poly_4) { a04_poly<double, 4>(); }
VF_CONTRACT(A04_poly_6) { a04_poly<double, 6>(); }
VF_CONTRACT(A04_poly_9) { a04_poly<double, 9>(); }
VF_CONTRACT(A04_poly_complex_5) { a04_poly<cd, 5>(); }
VF_CONTRACT(A04_poly_float_3) { a04_poly<float, 3>(); }
extern "C" void vct_A04_poly_8() { a04_poly<double, 8>(); }
extern "C" void vct_A04_poly_complex_4() { a04_poly<cd, 4>(); }

// Contracts of the filter component: S01 (polynomial form), S02 (section form), S03 (pairing), S04 (frequency transforms),
// S05 (prototypes), S06 (Bessel table), S07 (stability).
#include "vfm.h"
#include "embedded/signal/bessel.h"
#include "embedded/signal/butterworth.h"
#include "embedded/signal/chebyshev.h"
#include "embedded/signal/filter.h"
namespace sg = embedded::signal;
template <size_t Zn, size_t Pn, typename F> using zpk_t = sg::detail::zpk_value<Zn, Pn, F>;

namespace {
template <typename F> struct name_of { char b[40]; name_of(const char* n, size_t i) { vf_name(b, n, i); } operator const char*() const { return b; } };
template <typename F = double> F any_real(const char* n, size_t i) { return F(vf_real(name_of<F>(n, i))); }

template <size_t N, typename F> zpk_t<N, N, double> plain_zpk() {
  return zpk_t<N, N, double>(cm::vector<cd, N>::zeros(), cm::vector<cd, N>::zeros(), 16.0);
}
// a polynomial design with arbitrary coefficients (a0 = 1, as every design has)
template <size_t N, typename F> struct any_poly {
  alignas(16) unsigned char mem[sizeof(sg::poly_design<F, N>)];
  sg::poly_design<F, N> const* d;
  any_poly() {
    auto p = new (mem) sg::poly_design<F, N>(plain_zpk<N, F>());
    vf_any_reals("c", mem, sizeof mem, sizeof(F), 1.0);
    d = static_cast<sg::poly_design<F, N> const*>(vf_opaque(p));
  }
};
template <size_t N, typename F> struct any_sos {
  alignas(16) unsigned char mem[sizeof(sg::sos_design<F, N>)];
  sg::sos_design<F, N> const* d;
  any_sos() {
    auto p = new (mem) sg::sos_design<F, N>(plain_zpk<N, F>(), sg::sos_gain::distribute);
    vf_any_reals("c", mem, sizeof mem, sizeof(F), 1.0);
    d = static_cast<sg::sos_design<F, N> const*>(vf_opaque(p));
  }
};
// sum b[k] x[k] - sum(k>=1) a[k] y[k], with x[k], y[k] the values k steps ago
template <typename B> double diff_eq(B const& b, B const& a, size_t n, double const* x, double const* y) {
  double r = b[0] * x[0];
  for (size_t k = 1; k <= n; ++k) r += b[k] * x[k] - a[k] * y[k];
  return r;
}
} // namespace

// ---------------------------------------------------------------- S01
// Induction step: the delay line s represents the last N inputs and outputs; one step computes the difference equation and
// re-establishes the representation.  (Proof-internal: the observable statement is checked from rest below.)
template <size_t N, typename F> void s01_step() {
  any_poly<N, F> d;
  double x[N + 1], y[N + 1];
  for (size_t k = 1; k <= N; ++k) { x[k] = vf_signal(name_of<F>("x", k)); y[k] = vf_signal(name_of<F>("y", k)); }
  x[0] = vf_signal("x00");
  auto const b = d.d->b(), a = d.d->a();
  std::array<F, N> s{};
  for (size_t i = 0; i < N; ++i) {
    double v = 0;
    for (size_t k = i + 1; k <= N; ++k) v += b[k] * x[k - i] - a[k] * y[k - i];
    s[i] = F(v);
  }
  double const out = d.d->filter(s, F(x[0]));
  y[0] = diff_eq(b, a, N, x, y);
  vf_ensure_inv("one step outputs the difference equation", vf_req(out, y[0]));
  for (size_t i = 0; i < N; ++i) {
    double v = 0;
    for (size_t k = i + 1; k <= N; ++k) v += b[k] * x[k - i - 1] - a[k] * y[k - i - 1];
    vf_ensure_inv("one step re-establishes the delay line", vf_req(s[i], v));
  }
}
// From rest, through the public instance; two instances of one design are run interleaved.
template <size_t N, size_t L, typename F> void s01_rest() {
  any_poly<N, F> d;
  auto const b = d.d->b(), a = d.d->a();
  auto f = d.d->instance();
  double xs[L], ys[L];
  for (size_t n = 0; n < L; ++n) {
    xs[n] = vf_signal(name_of<F>("x", n));
    ys[n] = f(F(xs[n]));
    double x[N + 1], y[N + 1];
    for (size_t k = 0; k <= N; ++k) { x[k] = n >= k ? xs[n - k] : 0; y[k] = n >= k ? ys[n - k] : 0; }
    vf_ensure("every output satisfies the difference equation, from rest", vf_req(ys[n], diff_eq(b, a, N, x, y)));
  }
}
template <size_t N, size_t L, typename F> void s01_shared() {
  any_poly<N, F> d;
  auto const b = d.d->b(), a = d.d->a();
  auto f = d.d->instance();
  auto g = d.d->instance();
  double xs[L], ys[L], us[L], vs[L];
  for (size_t n = 0; n < L; ++n) {
    double x[N + 1], y[N + 1];
    xs[n] = vf_signal(name_of<F>("x", n));
    us[n] = vf_signal(name_of<F>("u", n));
    ys[n] = f(F(xs[n]));
    vs[n] = g(F(us[n]));
    for (size_t k = 0; k <= N; ++k) { x[k] = n >= k ? xs[n - k] : 0; y[k] = n >= k ? ys[n - k] : 0; }
    vf_ensure("running one instance does not affect another", vf_req(ys[n], diff_eq(b, a, N, x, y)));
    for (size_t k = 0; k <= N; ++k) { x[k] = n >= k ? us[n - k] : 0; y[k] = n >= k ? vs[n - k] : 0; }
    vf_ensure("running one instance does not affect another", vf_req(vs[n], diff_eq(b, a, N, x, y)));
  }
  auto h = f;   // a copy continues from the same history, on its own
  double const x0 = vf_signal("x90"), u0 = vf_signal("u90"), u1 = vf_signal("u91"), x1 = vf_signal("x91");
  double const p0 = f(F(x0)), q0 = h(F(u0)), q1 = h(F(u1)), p1 = f(F(x1));
  auto at = [&](double const* v, size_t k, double a0, double a1, size_t t) { return t == 1 ? (k == 0 ? a1 : k == 1 ? a0 : v[L + 1 - k]) : (k == 0 ? a0 : v[L - k]); };
  double x[N + 1], y[N + 1];
  for (size_t t = 0; t < 2; ++t) {
    for (size_t k = 0; k <= N; ++k) { x[k] = at(xs, k, x0, x1, t); y[k] = at(ys, k, p0, p1, t); }
    vf_ensure("a copied instance has its own state", vf_req(t ? p1 : p0, diff_eq(b, a, N, x, y)));
    for (size_t k = 0; k <= N; ++k) { x[k] = at(xs, k, u0, u1, t); y[k] = at(ys, k, q0, q1, t); }
    vf_ensure("a copied instance has its own state", vf_req(t ? q1 : q0, diff_eq(b, a, N, x, y)));
  }
}
// The same step taken by an instance whose delay line is arbitrary: an instance is its design and the delay line, nothing else.
template <size_t N, typename F> void s01_instance_step() {
  any_poly<N, F> d;
  struct layout { void const* d; F s[N]; };
  auto f = d.d->instance();
  vf_ensure_inv("an instance is its design and a delay line", sizeof f == sizeof(layout));
  if (sizeof f != sizeof(layout)) return;
  vf_any_reals("s", &f, sizeof f, sizeof(F), 1e300);
  std::array<F, N> s{};
  for (size_t i = 0; i < N; ++i) std::memcpy(&s[i], reinterpret_cast<char const*>(&f) + offsetof(layout, s) + i * sizeof(F), sizeof(F));
  double const x = vf_signal("x00");
  double const y = f(F(x)), z = d.d->filter(s, F(x));
  vf_ensure_inv("one call of an instance is one step of its design", vf_req(y, z));
  for (size_t i = 0; i < N; ++i) {
    F v;
    std::memcpy(&v, reinterpret_cast<char const*>(&f) + offsetof(layout, s) + i * sizeof(F), sizeof(F));
    vf_ensure_inv("one call advances the delay line by one step of the design", vf_req(v, s[i]));
  }
}
#define S01I(N) VF_CONTRACT(S01_instance_step_##N) { s01_instance_step<N, double>(); }
S01I(1) S01I(2) S01I(3) S01I(4) S01I(5) S01I(6) S01I(7) S01I(8)
S01I(12) S01I(20)
VF_CONTRACT(S01_instance_step_float_3) { s01_instance_step<3, float>(); }
VF_CONTRACT(S01_instance_step_float_6) { s01_instance_step<6, float>(); }
#define S01(N) VF_CONTRACT(S01_step_##N) { s01_step<N, double>(); }
S01(1) S01(2) S01(3) S01(4) S01(5) S01(6) S01(7) S01(8)
S01(9) S01(10) S01(12) S01(16) S01(20)
VF_CONTRACT(S01_step_float_1) { s01_step<1, float>(); }
VF_CONTRACT(S01_step_float_3) { s01_step<3, float>(); }
VF_CONTRACT(S01_step_float_6) { s01_step<6, float>(); }
VF_CONTRACT(S01_step_float_10) { s01_step<10, float>(); }
#define S01R(N, L) VF_CONTRACT(S01_rest_##N) { s01_rest<N, L, double>(); }
S01R(1, 12) S01R(2, 10) S01R(3, 9) S01R(4, 9) S01R(5, 8) S01R(6, 8) S01R(7, 9) S01R(8, 10)
S01R(9, 10) S01R(10, 11) S01R(12, 13) S01R(16, 17)
extern "C" void vct_S01_rest_20() { s01_rest<20, 21, double>(); }
VF_CONTRACT(S01_rest_float_1) { s01_rest<1, 8, float>(); }
VF_CONTRACT(S01_rest_float_2) { s01_rest<2, 6, float>(); }
VF_CONTRACT(S01_rest_float_5) { s01_rest<5, 8, float>(); }
VF_CONTRACT(S01_rest_float_9) { s01_rest<9, 10, float>(); }
VF_CONTRACT(S01_shared_1) { s01_shared<1, 3, double>(); }
VF_CONTRACT(S01_shared_2) { s01_shared<2, 3, double>(); }
VF_CONTRACT(S01_shared_3) { s01_shared<3, 3, double>(); }

// Designs whose coefficients come from arbitrary roots.
template <size_t N, size_t L> void s01_roots() {
  vf_in<cd, N> z("z"), p("p");
  sg::poly_design<double, N> const d(zpk_t<N, N, double>(z.vec(), p.vec(), vf_real("g")));
  auto const b = d.b(), a = d.a();
  vf_ensure("designs are monic", vf_req(a[0], 1.0));
  vf_ensure("the order is the design's", d.order() == N);
  auto f = d.instance();
  double xs[L], ys[L];
  for (size_t n = 0; n < L; ++n) {
    xs[n] = vf_signal(name_of<double>("x", n));
    ys[n] = f(xs[n]);
    double x[N + 1], y[N + 1];
    for (size_t k = 0; k <= N; ++k) { x[k] = n >= k ? xs[n - k] : 0; y[k] = n >= k ? ys[n - k] : 0; }
    vf_ensure("every output satisfies the difference equation, from rest", vf_req(ys[n], diff_eq(b, a, N, x, y)));
  }
}
VF_CONTRACT(S01_roots_1) { s01_roots<1, 4>(); }
VF_CONTRACT(S01_roots_2) { s01_roots<2, 3>(); }

// native companion: long histories at higher orders
template <size_t N> void s01_history() {
  any_poly<N, double> d;
  auto const b = d.d->b(), a = d.d->a();
  auto f = d.d->instance(), g = d.d->instance();
  constexpr size_t L = 3 * N + 4;
  double xs[L], ys[L];
  for (size_t n = 0; n < L; ++n) {
    xs[n] = vf_signal(name_of<double>("x", n));
    ys[n] = f(xs[n]);
    g(xs[n] + 1);
    double x[N + 1], y[N + 1];
    for (size_t k = 0; k <= N; ++k) { x[k] = n >= k ? xs[n - k] : 0; y[k] = n >= k ? ys[n - k] : 0; }
    vf_ensure("every output satisfies the difference equation, from rest", vf_req(ys[n], diff_eq(b, a, N, x, y)));
  }
}
// very long histories of a stable design: idle stretches, constants, impulses, noise, tiny values
template <typename Step> void long_history(size_t len, Step step) {
  uint32_t const seed = vf_u32("seed");
  uint32_t r = seed | 1;
  auto rnd = [&] { r ^= r << 13; r ^= r >> 17; r ^= r << 5; return r; };
  size_t n = 0;
  while (n < len) {
    size_t run = 1 + rnd() % 5000;
    unsigned const kind = rnd() % 6;
    double const c = (double(rnd()) / 4294967296.0 - 0.5) * (kind == 5 ? 1e-300 : 2);
    for (; run && n < len; --run, ++n) {
      double x = 0;
      if (kind == 1 || kind == 5) x = c;
      else if (kind == 2) x = run % 100 == 0 ? c : 0;
      else if (kind == 3) x = double(rnd()) / 4294967296.0 - 0.5;
      else if (kind == 4) x = run % 2 ? c : -c;
      if (!step(x)) return;
    }
  }
}
inline double inside(double v) { return 0.7 * v / (1 + std::fabs(v)); }
template <size_t N> void s01_long() {
  vf_in<double, N> z("z"), p("p");
  cd zs[N], ps[N];
  for (size_t i = 0; i < N; ++i) { zs[i] = cd(z[i]); ps[i] = cd(inside(p[i])); }
  auto at = [](cd const* v) { return cm::vector<cd, N>::create([v](int i) { return v[i]; }); };
  sg::poly_design<double, N> const d(zpk_t<N, N, double>(at(zs), at(ps), 1.0));
  auto const b = d.b(), a = d.a();
  auto f = d.instance(), g = d.instance();
  double x[N + 1] = {}, y[N + 1] = {};
  bool ok = true;
  double scale = 1;
  for (size_t k = 0; k <= N; ++k) scale += std::fabs(b[k]);
  long_history(70000, [&](double v) {
    for (size_t k = N; k > 0; --k) { x[k] = x[k - 1]; y[k] = y[k - 1]; }
    x[0] = v;
    g(1 - v);
    y[0] = f(v);
    double const e = diff_eq(b, a, N, x, y);
    return ok = std::fabs(e - y[0]) <= 1e-6 * scale;
  });
  vf_ensure("every output satisfies the difference equation, over a long history", ok);
}
// coefficients of very different magnitudes: the output is the difference equation up to rounding, whatever their ratios
template <typename F> void spread(void* mem, size_t bytes, int decades) {
  for (size_t i = 0; i + sizeof(F) <= bytes; i += sizeof(F)) {
    F v;
    std::memcpy(&v, static_cast<char*>(mem) + i, sizeof v);
    int const k = int(vf_idx(name_of<F>("k", i / sizeof(F)), 0, 9));
    if (v == F(1) || k < 3) continue;
    v = k == 3 ? F(0) : F(v * std::pow(10.0, -double(decades) * k / 9));
    std::memcpy(static_cast<char*>(mem) + i, &v, sizeof v);
  }
}
template <size_t N, typename F, typename D> void scales_run(D const& d, cm::vector<F, N + 1> const& b, cm::vector<F, N + 1> const& a) {
  auto f = d.instance();
  double x[N + 1] = {}, y[N + 1] = {};
  for (size_t n = 0; n < 3 * N + 4; ++n) {
    for (size_t k = N; k > 0; --k) { x[k] = x[k - 1]; y[k] = y[k - 1]; }
    x[0] = F(vf_f64(name_of<F>("x", n)));
    if (!(std::fabs(x[0]) < 1e6)) x[0] = double(n % 3);
    y[0] = f(F(x[0]));
    double r = double(b[0]) * x[0], size = std::fabs(r);
    for (size_t k = 1; k <= N; ++k) {
      r += double(b[k]) * x[k] - double(a[k]) * y[k];
      size += std::fabs(double(b[k]) * x[k]) + std::fabs(double(a[k]) * y[k]);
    }
    if (size > 1e12) return;
    double const tiny = double(std::numeric_limits<F>::min());
    vf_ensure("every output is the difference equation up to rounding", std::fabs(y[0] - r) <= 64 * N * (size * double(std::numeric_limits<F>::epsilon()) + 1e6 * tiny));
  }
}
template <size_t N, typename F> void s01_scales(int decades) {
  any_poly<N, F> d;
  spread<F>(d.mem, 2 * (N + 1) * sizeof(F), decades);
  auto p = static_cast<sg::poly_design<F, N> const*>(vf_opaque(d.mem));
  scales_run<N, F>(*p, p->b(), p->a());
}
template <typename F> void s02_scales(int decades) {
  any_sos<2, F> d;
  spread<F>(d.mem, 5 * sizeof(F), decades);
  auto p = static_cast<sg::sos_design<F, 2> const*>(vf_opaque(d.mem));
  scales_run<2, F>(*p, p->sos()[0].b(), p->sos()[0].a());
}
extern "C" void vn_S01_scales_1() { s01_scales<1, float>(45); s01_scales<1, double>(320); }
extern "C" void vn_S01_scales_3() { s01_scales<3, float>(45); s01_scales<3, double>(320); }
// several sections, stable ones: the cascade computed in long double is met up to the rounding of F
template <size_t N, typename F> void s02_rounding() {
  any_sos<N, F> d;
  constexpr size_t S = (N + 1) / 2;
  for (size_t i = 0; i < 5 * S; ++i) {
    F v;
    std::memcpy(&v, d.mem + i * sizeof v, sizeof v);
    if (v == F(1)) v = F(0.5);
    v = F(0.35) * v / (1 + std::fabs(v));
    std::memcpy(d.mem + i * sizeof v, &v, sizeof v);
  }
  auto p = static_cast<sg::sos_design<F, N> const*>(vf_opaque(d.mem));
  auto f = p->instance();
  long double h[S + 1][3] = {};
  double top = 1;
  for (size_t n = 0; n < 3 * N + 4; ++n) {
    double x = F(vf_f64(name_of<F>("x", n)));
    if (!(std::fabs(x) < 1e6)) x = double(n % 3);
    top = std::max(top, std::fabs(x));
    double const y = f(F(x));
    for (size_t j = 0; j <= S; ++j) { h[j][2] = h[j][1]; h[j][1] = h[j][0]; }
    h[0][0] = x;
    for (size_t j = 0; j < S; ++j) {
      auto const b = p->sos()[j].b(), a = p->sos()[j].a();
      h[j + 1][0] = (long double)(b[0]) * h[j][0] + (long double)(b[1]) * h[j][1] + (long double)(b[2]) * h[j][2] - (long double)(a[1]) * h[j + 1][1] - (long double)(a[2]) * h[j + 1][2];
    }
    double const slack = top * std::pow(4.0, double(S)) * 100 * double(std::numeric_limits<F>::epsilon());
    vf_ensure("every output is the cascade's up to rounding", std::fabs(y - double(h[S][0])) <= slack);
  }
}
extern "C" void vn_S02_scales() { s02_scales<float>(45); s02_scales<double>(320); }
extern "C" void vn_S02_rounding() { s02_rounding<3, double>(); s02_rounding<6, double>(); s02_rounding<4, float>(); }
extern "C" void vn_S01_long_1() { s01_long<1>(); }
extern "C" void vn_S01_long_3() { s01_long<3>(); }
extern "C" void vn_S01_history() { s01_history<2>(); }
extern "C" void vn_S01_history_6() { s01_history<6>(); }
extern "C" void vn_S01_history_8() { s01_history<8>(); }

// ---------------------------------------------------------------- S02
template <typename F> void s02_section_step() {
  // a section with arbitrary coefficients
  using S = sg::sos_section<F>;
  alignas(16) unsigned char mem[sizeof(S)];
  auto p0 = new (mem) S(cm::vector<cd, 2>::zeros(), cm::vector<cd, 2>::zeros(), 2.0);
  vf_any_reals("c", mem, sizeof mem, sizeof(F), 1.0);
  auto const* s = static_cast<S const*>(vf_opaque(p0));
  auto const b = s->b(), a = s->a();
  double x[3], y[3];
  for (size_t k = 0; k < 3; ++k) { x[k] = vf_signal(name_of<F>("x", k)); y[k] = vf_signal(name_of<F>("y", k)); }
  sg::sos_state<F> st;
  st.y1 = F(b[1] * x[1] - a[1] * y[1] + (b[2] * x[2] - a[2] * y[2]));
  st.y2 = F(b[2] * x[1] - a[2] * y[1]);
  double const out = s->filter(st, F(x[0]));
  y[0] = diff_eq(b, a, 2, x, y);
  vf_ensure_inv("one step outputs the section's difference equation", vf_req(out, y[0]));
  vf_ensure_inv("one step re-establishes the section's state",
                vf_and(vf_req(st.y1, b[1] * x[0] - a[1] * y[0] + (b[2] * x[1] - a[2] * y[1])), vf_req(st.y2, b[2] * x[0] - a[2] * y[0])));
}
VF_CONTRACT(S02_section_step) { s02_section_step<double>(); }
VF_CONTRACT(S02_section_step_float) { s02_section_step<float>(); }

template <typename F> void s02_section_rest() {
  using S = sg::sos_section<F>;
  alignas(16) unsigned char mem[sizeof(S)];
  auto p0 = new (mem) S(cm::vector<cd, 2>::zeros(), cm::vector<cd, 2>::zeros(), 2.0);
  vf_any_reals("c", mem, sizeof mem, sizeof(F), 1.0);
  auto const* s = static_cast<S const*>(vf_opaque(p0));
  auto const b = s->b(), a = s->a();
  vf_ensure("a section's a0 is 1", vf_req(a[0], 1.0));
  sg::sos_state<F> st{};
  double xs[6], ys[6];
  for (size_t n = 0; n < 6; ++n) {
    xs[n] = vf_signal(name_of<F>("x", n));
    ys[n] = s->filter(st, F(xs[n]));
    double x[3], y[3];
    for (size_t k = 0; k < 3; ++k) { x[k] = n >= k ? xs[n - k] : 0; y[k] = n >= k ? ys[n - k] : 0; }
    vf_ensure("a section computes its difference equation, from rest", vf_req(ys[n], diff_eq(b, a, 2, x, y)));
  }
}
VF_CONTRACT(S02_section_rest) { s02_section_rest<double>(); }
VF_CONTRACT(S02_section_rest_float) { s02_section_rest<float>(); }

// One step of an instance with arbitrary section states is the composition of its sections' steps.
template <size_t N, typename F> void s02_cascade_step() {
  any_sos<N, F> d;
  auto f = d.d->instance();
  struct layout { void const* d; sg::sos_state<F> s[(N + 1) / 2]; };
  vf_ensure_inv("an instance is its design and its sections' states", sizeof f == sizeof(layout) && sizeof(sg::sos_state<F>) == 2 * sizeof(F));
  vf_any_reals("s", &f, sizeof f, sizeof(F), 1e300);
  auto st = f.state();
  double const x = vf_signal("x");
  double const out = f(F(x));
  double v = x;
  for (size_t i = 0; i < st.size(); ++i) {
    auto const b = d.d->sos()[i].b(), a = d.d->sos()[i].a();
    double const y = b[0] * v + st[i].y1;
    vf_ensure_inv("one step advances every section", vf_and(vf_req(f.state()[i].y1, b[1] * v - a[1] * y + st[i].y2), vf_req(f.state()[i].y2, b[2] * v - a[2] * y)));
    v = y;
  }
  vf_ensure_inv("one step outputs the composition of the sections", vf_req(out, v));
}
#define S02C(N) VF_CONTRACT(S02_cascade_step_##N) { s02_cascade_step<N, double>(); }
S02C(1) S02C(2) S02C(3) S02C(4) S02C(5) S02C(6) S02C(7) S02C(8)
S02C(10) S02C(13) S02C(20)
VF_CONTRACT(S02_cascade_step_float_6) { s02_cascade_step<6, float>(); }
VF_CONTRACT(S02_cascade_step_float_3) { s02_cascade_step<3, float>(); }

// From rest: the outputs equal the composed difference equations; the sections' intermediate signals are those of the equations.
template <size_t N, size_t L, typename F> void s02_rest(bool two) {
  any_sos<N, F> d;
  constexpr size_t K = (N + 1) / 2;
  vf_ensure("there are ceil(order/2) sections", vf_and(d.d->sos().size() == K, vf_and(d.d->size() == K, d.d->order() == N)));
  auto f = d.d->instance();
  auto g = d.d->instance();
  double sig[K + 1][L];
  for (size_t n = 0; n < L; ++n) {
    sig[0][n] = vf_signal(name_of<F>("x", n));
    if (two) g(F(vf_signal(name_of<F>("u", n))));
    double const out = f(F(sig[0][n]));
    for (size_t i = 0; i < K; ++i) {
      double x[3], y[3];
      for (size_t k = 0; k < 3; ++k) { x[k] = n >= k ? sig[i][n - k] : 0; y[k] = k && n >= k ? sig[i + 1][n - k] : 0; }
      sig[i + 1][n] = diff_eq(d.d->sos()[i].b(), d.d->sos()[i].a(), 2, x, y);
    }
    vf_ensure("every output is the composition of the sections' difference equations, from rest", vf_req(out, sig[K][n]));
  }
}
#define S02R(N, L) VF_CONTRACT(S02_rest_##N) { s02_rest<N, L, double>(false); }
S02R(1, 10) S02R(2, 10) S02R(3, 6) S02R(4, 6) S02R(5, 5) S02R(6, 5) S02R(7, 4) S02R(8, 4)
S02R(10, 3) S02R(13, 3) S02R(20, 3)
VF_CONTRACT(S02_rest_float_5) { s02_rest<5, 4, float>(false); }
VF_CONTRACT(S02_rest_float_2) { s02_rest<2, 4, float>(false); }
VF_CONTRACT(S02_shared_2) { s02_rest<2, 4, double>(true); }
VF_CONTRACT(S02_shared_4) { s02_rest<4, 3, double>(true); }
VF_CONTRACT(S02_copy_2) {
  any_sos<2, double> d;
  auto f = d.d->instance();
  vf_ensure("a new instance is at rest", vf_and(vf_req(f.state()[0].y1, 0), vf_req(f.state()[0].y2, 0)));
  auto const b = d.d->sos()[0].b(), a = d.d->sos()[0].a();
  double const x0 = vf_signal("x0"), x1 = vf_signal("x1"), u = vf_signal("u");
  double const y0 = f(x0);
  auto h = f;
  h(u);
  double const y1 = f(x1);
  vf_ensure("a copied instance has its own state", vf_req(y1, b[0] * x1 + b[1] * x0 - a[1] * y0));
}
template <size_t N> void s02_history() {
  any_sos<N, double> d;
  constexpr size_t K = (N + 1) / 2, L = 16;
  auto f = d.d->instance(), g = d.d->instance();
  double sig[K + 1][L];
  for (size_t n = 0; n < L; ++n) {
    sig[0][n] = vf_signal(name_of<double>("x", n));
    g(1 - sig[0][n]);
    double const out = f(sig[0][n]);
    for (size_t i = 0; i < K; ++i) {
      double x[3], y[3];
      for (size_t k = 0; k < 3; ++k) { x[k] = n >= k ? sig[i][n - k] : 0; y[k] = k && n >= k ? sig[i + 1][n - k] : 0; }
      sig[i + 1][n] = diff_eq(d.d->sos()[i].b(), d.d->sos()[i].a(), 2, x, y);
    }
    vf_ensure("every output is the composition of the sections' difference equations, from rest", vf_req(out, sig[K][n]));
  }
}
template <size_t N> void s02_long() {
  constexpr size_t K = (N + 1) / 2;
  vf_in<double, N> z("z"), p("p");
  cd zs[N], ps[N];
  for (size_t i = 0; i < N; ++i) { zs[i] = cd(z[i]); ps[i] = cd(inside(p[i])); }
  auto at = [](cd const* v) { return cm::vector<cd, N>::create([v](int i) { return v[i]; }); };
  sg::sos_design<double, N> const d(zpk_t<N, N, double>(at(zs), at(ps), 1.0), sg::sos_gain::first_section);
  auto f = d.instance(), g = d.instance();
  double x[K + 1][3] = {};
  double scale = 1;
  for (size_t i = 0; i < K; ++i) { auto const b = d.sos()[i].b(); scale *= 1 + std::fabs(b[0]) + std::fabs(b[1]) + std::fabs(b[2]); }
  bool ok = true;
  long_history(70000, [&](double v) {
    for (size_t i = 0; i <= K; ++i) { x[i][2] = x[i][1]; x[i][1] = x[i][0]; }
    x[0][0] = v;
    g(1 - v);
    double const out = f(v);
    for (size_t i = 0; i < K; ++i) x[i + 1][0] = diff_eq(d.sos()[i].b(), d.sos()[i].a(), 2, x[i], x[i + 1]);
    return ok = std::fabs(out - x[K][0]) <= 1e-6 * scale * 100;
  });
  vf_ensure("every output is the composition of the sections' difference equations, over a long history", ok);
}
extern "C" void vn_S02_long_2() { s02_long<2>(); }
extern "C" void vn_S02_long_3() { s02_long<3>(); }
extern "C" void vn_S02_history() { s02_history<2>(); }
extern "C" void vn_S02_history_5() { s02_history<5>(); }
extern "C" void vn_S02_history_8() { s02_history<8>(); }

// ---------------------------------------------------------------- roots from a layout
// layout: one letter per root; 'r' an arbitrary real root, 'a' 'A' a conjugate pair (also b/B, c/C, d/D), 'm' = -1, 'p' = +1, 'o' = 0
namespace {
constexpr size_t len(char const* s) { return *s ? 1 + len(s + 1) : 0; }
template <size_t N> struct roots {
  cd v[N ? N : 1];
  roots(char const* layout, char tag) {
    for (size_t i = 0; i < N; ++i) {
      char c = layout[i], n[4] = {tag, 0, 0, 0};
      if (c == 'r') { n[1] = char('0' + i); v[i] = cd(vf_real(n), 0.0); }
      else if (c == 'm') v[i] = cd(-1.0, 0.0);
      else if (c == 'p') v[i] = cd(1.0, 0.0);
      else if (c == 'o') v[i] = cd(0.0, 0.0);
      else if (c == '0') v[i] = cd(-0.75, 0.0);
      else if (c < '@') {   // fixed roots: '1' to '9', their conjugates '!' to ')'
        int const k = c & 15;
        v[i] = cd((tag == 'p' ? -0.125 : 0.0625) * k, (c & 16 ? 1 : -1) * (1.5 - 0.125 * k));
      }
      else {
        bool const upper = c >= 'A' && c <= 'Z';
        n[1] = upper ? char(c - 'A' + 'a') : c;
        n[2] = 'r';
        double const re = vf_real(n);
        n[2] = 'i';
        double const im = vf_real(n);
        vf_assume(im > 0);
        v[i] = cd(re, upper ? -im : im);
      }
    }
  }
  struct pick { cd const* v; constexpr cd operator()(size_t i) const noexcept { return v[i]; } };
  cm::vector<cd, N> vec() const { return cm::vector<cd, N>::create(pick{v}); }
  template <typename F> struct pick_as { cd const* v; constexpr cm::complex<F> operator()(size_t i) const noexcept { return cm::complex<F>(F(v[i].real()), F(v[i].imag())); } };
  template <typename F> cm::vector<cm::complex<F>, N> as() const { return cm::vector<cm::complex<F>, N>::create(pick_as<F>{v}); }
};
} // namespace

// ---------------------------------------------------------------- S03
template <size_t N, typename F = double> void s03(char const* zl, char const* pl, bool distribute, bool distinct) {
  roots<N> z(zl, 'z'), p(pl, 'p');
  double const g = vf_real("g");
  vf_assume(distribute ? g > 0 : g != 0);
  if (distinct)   // no repeated complex poles
    for (size_t i = 0; i < N; ++i)
      for (size_t j = 0; j < i; ++j)
        if (pl[i] >= 'a' && pl[i] < 'r' && pl[j] >= 'a' && pl[j] < 'r') vf_assume((p.v[i] - p.v[j]).norm() > 0);
  using design = sg::iirfilter<double>::design<N>;
  design const d(zpk_t<N, N, double>(z.vec(), p.vec(), g));
  auto const poly = d.template poly<F>();
  auto const sos = d.template sos<F>(distribute ? sg::sos_gain::distribute : sg::sos_gain::first_section);
  constexpr size_t K = (N + 1) / 2;
  double b[2 * K + 1] = {1}, a[2 * K + 1] = {1};
  size_t n = 0;
  double const share = distribute ? std::pow(g, 1.0 / K) : 1.0;
  double gain = 1;
  for (size_t i = 0; i < K; ++i) {
    auto const sb = sos.sos()[i].b(), sa = sos.sos()[i].a();
    double const gi = distribute ? share : i == 0 ? g : 1.0;
    vf_ensure(distribute ? "the gain is split evenly over the sections" : "the gain is applied exactly once, in the first section", vf_req(sb[0], gi));
    gain *= sb[0];
    double nb[2 * K + 1] = {}, na[2 * K + 1] = {};
    for (size_t j = 0; j <= n; ++j)
      for (size_t k = 0; k < 3; ++k) { nb[j + k] += b[j] * sb[k]; na[j + k] += a[j] * sa[k]; }
    n += 2;
    for (size_t j = 0; j <= n; ++j) { b[j] = nb[j]; a[j] = na[j]; }
  }
  auto const pb = poly.b(), pa = poly.a();
  bool okb = true, oka = true;
  for (size_t j = 0; j <= 2 * K; ++j) {
    // with the distributed gain g^(1/K), g itself is compared through its K-th power
    double const want = j <= N ? double(pb[j]) : 0.0;
    okb = vf_and(okb, distribute ? vf_req(b[j] * g, want * gain) : vf_req(b[j], want));
    oka = vf_and(oka, vf_req(a[j], j <= N ? double(pa[j]) : 0.0));
  }
  vf_ensure("the sections' numerators multiply to the polynomial form's numerator", okb);
  vf_ensure("the sections' denominators multiply to the polynomial form's denominator", oka);
}
#define S03(N, ZL, PL) \
  VF_CONTRACT(S03_first_##ZL##_##PL) { s03<N>(#ZL, #PL, false, false); } \
  VF_CONTRACT(S03_distribute_##ZL##_##PL) { s03<N>(#ZL, #PL, true, false); }
S03(1, r, r)
S03(2, rr, rr) S03(2, aA, rr) S03(2, rr, aA) S03(2, aA, aA) S03(2, mm, rr) S03(2, Aa, aA)
S03(3, mmm, aAr) S03(3, mmm, raA) S03(3, mmm, arA) S03(3, ppp, rrr) S03(3, aAr, arA) S03(3, aAm, arA)
S03(4, mmmm, abBA) S03(4, mmmm, aAbB) S03(4, pppp, aBbA) S03(4, abBA, cdDC) S03(4, aAmm, bBrr) S03(4, mmmm, aArr) S03(4, mmmm, rarA) S03(4, mmaA, brrB)
VF_CONTRACT(S03_first_mmmmm_abrBA) { s03<5>("mmmmm", "abrBA", false, false); }
extern "C" void vct_S03_distribute_mmmmm_abrBA() { s03<5>("mmmmm", "abrBA", true, false); }
extern "C" void vct_S03_first_aArmm_bcBCr() { s03<5>("aArmm", "bcBCr", false, false); }
extern "C" void vct_S03_distribute_aArmm_bcBCr() { s03<5>("aArmm", "bcBCr", true, false); }
extern "C" void vct_S03_first_mmmmmm_abcCBA() { s03<6>("mmmmmm", "abcCBA", false, true); }
extern "C" void vct_S03_distribute_pppppp_aAbBcC() { s03<6>("pppppp", "aAbBcC", true, true); }
extern "C" void vct_S03_first_rrrr_rrrr() { s03<4>("rrrr", "rrrr", false, false); }
extern "C" void vct_S03_first_aArr_rbBr() { s03<4>("aArr", "rbBr", false, false); }
extern "C" void vct_S03_first_abcCBA_defFED() { s03<6>("abcCBA", "defFED", false, true); }
// higher orders with fixed roots: every gain
#define S03F(N, ZL, PL) \
  VF_CONTRACT(S03_first_fixed_##N) { s03<N>(ZL, PL, false, false); } \
  VF_CONTRACT(S03_distribute_fixed_##N) { s03<N>(ZL, PL, true, false); }
S03F(7, "mmmmmmm", "1!2\"3#0") S03F(8, "13#!42\"$", "1234$#\"!") S03F(9, "mmmmmmmmm", "12340$#\"!") S03F(10, "pppppppppp", "12345%$#\"!") S03F(12, "1!2\"mmmmmmmm", "123456&%$#\"!") S03F(16, "1!2\"mmmmmmmmmmmm", "12345678('&%$#\"!")

// ---------------------------------------------------------------- prototypes
// an arbitrary analog prototype: what the designs are made from
namespace {
template <size_t Zn, size_t Pn> struct prototype {
  roots<Zn> z;
  roots<Pn> p;
  double k;
  prototype(char const* zl, char const* pl) : z(zl, 'z'), p(pl, 'p'), k(vf_real("k")) { vf_assume(k != 0); }
  static constexpr size_t order() noexcept { return Pn; }
  template <typename F> struct specification {
    prototype const* q;
    zpk_t<Zn, Pn, F> zpk() const { return zpk_t<Zn, Pn, F>(q->z.template as<F>(), q->p.template as<F>(), F(q->k)); }
  };
  template <typename F> specification<F> spec() const { return specification<F>{this}; }
};
// k * product of (s - zero) and product of (s - pole)
template <size_t N> cd product(roots<N> const& r, cd const& s) {
  double re = 1, im = 0;
  for (size_t i = 0; i < N; ++i) {
    double const x = s.real() - r.v[i].real(), y = s.imag() - r.v[i].imag();
    double const t = re * x - im * y;
    im = re * y + im * x;
    re = t;
  }
  return cd(re, im);
}
template <typename A> double horner(A const& c, size_t n, double t) {
  double v = c[0];
  for (size_t i = 1; i <= n; ++i) v = v * t + c[i];
  return v;
}
} // namespace

// ---------------------------------------------------------------- S04
template <size_t Zn, size_t Pn> void s04(char const* zl, char const* pl, bool high) {
  prototype<Zn, Pn> const q(zl, pl);
  double const fs = vf_real("fs"), f = vf_real("f"), t = vf_real("t");
  vf_assume(vf_and(fs > 0, f > 0));
  vf_assume(2 * f < fs);
  vf_assume_divisors();
  sg::iirfilter<double> const design(fs);
  auto const d = high ? design.highpass(q, f) : design.lowpass(q, f);
  auto const poly = d.template poly<double>();
  auto const b = poly.b(), a = poly.a();
  double const w = 4 * std::tan(M_PI * f / fs);
  vf_ensure("the denominator is monic", vf_req(a[0], 1));
  double const B = horner(b, Pn, t), A = horner(a, Pn, t);
  double const s = high ? w * (t + 1) / (4 * (t - 1)) : 4 * (t - 1) / (w * (t + 1));
  cd const zs = product(q.z, cd(s, 0)), ps = product(q.p, cd(s, 0));
  vf_ensure("the transfer function is the prototype's at the transformed frequency", vf_req(B * ps.real(), A * q.k * zs.real()));
  // consequences named in the property
  double const B0 = horner(b, Pn, high ? -1 : 1), A0 = horner(a, Pn, high ? -1 : 1);
  cd const z0 = product(q.z, cd(0, 0)), p0 = product(q.p, cd(0, 0));
  vf_ensure("the response at zero frequency (low-pass) or half the sample rate (high-pass) is the prototype's at s = 0", vf_req(B0 * p0.real(), A0 * q.k * z0.real()));
}
#define S04(Z, P, ZL, PL) \
  VF_CONTRACT(S04_low_##ZL##_##PL) { s04<Z, P>(#ZL + 1, #PL, false); } \
  VF_CONTRACT(S04_high_##ZL##_##PL) { s04<Z, P>(#ZL + 1, #PL, true); }
S04(0, 1, _, r) S04(1, 1, _r, r)
S04(0, 2, _, rr) S04(0, 2, _, aA) S04(1, 2, _r, aA) S04(2, 2, _rr, aA) S04(2, 2, _bB, aA) S04(2, 2, _bB, rr)
S04(0, 3, _, aAr) S04(0, 3, _, arA) S04(1, 3, _r, aAr) S04(2, 3, _bB, arA) S04(3, 3, _rrr, rrr)
VF_CONTRACT(S04_low__bBr_raA) { s04<3, 3>("bBr", "raA", false); }
extern "C" void vct_S04_high__bBr_raA() { s04<3, 3>("bBr", "raA", true); }

// at the cutoff z = exp(2*pi*j*f/fs): the response is the prototype's at s = j
template <size_t Pn, typename F> void s04_cutoff(char const* pl, bool high) {
  if (std::is_same<F, float>::value) vf_tolerance(2e-3);
  prototype<0, Pn> const q("", pl);
  double const fs = vf_real("fs"), f = vf_real("f");
  vf_assume(vf_and(fs > 0, f > 0));
  vf_assume(2 * f < fs);
  vf_assume_divisors();
  sg::iirfilter<F> const design(fs);
  auto const d = high ? design.highpass(q, F(f)) : design.lowpass(q, F(f));
  auto const poly = d.template poly<F>();
  auto const b = poly.b(), a = poly.a();
  double const x = M_PI * f / fs;
  double const c = std::cos(x), n = std::sin(x);
  vf_assume(c != 0);
  double const zr = c * c - n * n, zi = 2 * n * c;
  double br = b[0], bi = 0, ar = a[0], ai = 0;
  for (size_t i = 1; i <= Pn; ++i) {
    double t = br * zr - bi * zi;
    bi = br * zi + bi * zr;
    br = t + b[i];
    t = ar * zr - ai * zi;
    ai = ar * zi + ai * zr;
    ar = t + a[i];
  }
  // high-pass: s = w / (4(z-1)/(z+1)) = -j; the response is the conjugate of the one at j
  cd const pj = product(q.p, cd(0, high ? -1 : 1));
  vf_ensure("the response at the cutoff is the prototype's at s = j (real part)", vf_req(br * pj.real() - bi * pj.imag(), q.k * ar));
  vf_ensure("the response at the cutoff is the prototype's at s = j (imaginary part)", vf_req(br * pj.imag() + bi * pj.real(), q.k * ai));
}
#define S04C(P, PL) \
  VF_CONTRACT(S04_cutoff_low_##PL) { s04_cutoff<P, double>(#PL, false); } \
  VF_CONTRACT(S04_cutoff_high_##PL) { s04_cutoff<P, double>(#PL, true); }
S04C(1, r) S04C(2, aA) S04C(2, rr) S04C(3, aAr)
VF_CONTRACT(S04_cutoff_low_float) { s04_cutoff<1, float>("r", false); }
VF_CONTRACT(S04_cutoff_high_float) { s04_cutoff<1, float>("r", true); }

// ---------------------------------------------------------------- S07
// the digital image of an analog root r: (4 + w r)/(4 - w r) (low-pass) or (4 r + w)/(4 r - w) (high-pass)
namespace {
struct image { double nr, ni, dr, di, m, re, im; };
image image_of(cd const& r, double w, bool high) {
  image x;
  x.nr = high ? 4 * r.real() + w : 4 + w * r.real();
  x.ni = high ? 4 * r.imag() : w * r.imag();
  x.dr = high ? 4 * r.real() - w : 4 - w * r.real();
  x.di = high ? 4 * r.imag() : -w * r.imag();
  x.m = x.dr * x.dr + x.di * x.di;
  x.re = (x.nr * x.dr + x.ni * x.di) / x.m;
  x.im = (x.ni * x.dr - x.nr * x.di) / x.m;
  return x;
}
// e := e * (z - (re + j im))
void times_root(double* er, double* ei, size_t deg, double re, double im) {
  for (size_t j = deg + 1; j > 0; --j) {
    er[j] -= re * er[j - 1] - im * ei[j - 1];
    ei[j] -= re * ei[j - 1] + im * er[j - 1];
  }
}
}
// higher orders: numerator and denominator coefficient by coefficient, as products over the images of the analog roots
template <size_t Zn, size_t Pn> void s04_images(char const* zl, char const* pl, bool high) {
  vf_wide();
  prototype<Zn, Pn> const q(zl, pl);
  double const fs = vf_real("fs"), f = vf_real("f");
  vf_assume(vf_and(fs > 0, f > 0));
  vf_assume(2 * f < fs);
  vf_assume_divisors();
  double const w = 4 * std::tan(M_PI * f / fs);
  sg::iirfilter<double> const design(fs);
  auto const d = high ? design.highpass(q, f) : design.lowpass(q, f);
  auto const poly = d.template poly<double>();
  auto const b = poly.b(), a = poly.a();
  double er[Pn + 1] = {1}, ei[Pn + 1] = {}, nr[Pn + 1] = {1}, ni[Pn + 1] = {};
  double gnr = q.k, gni = 0, gdr = 1, gdi = 0;   // gain = gn / gd
  for (size_t i = 0; i < Pn; ++i) {
    image const x = image_of(q.p.v[i], w, high);
    times_root(er, ei, i, x.re, x.im);
    double const cr = high ? -x.dr : x.dr, ci = high ? -x.di : x.di, t = gdr * cr - gdi * ci;
    gdi = gdr * ci + gdi * cr;
    gdr = t;
    if (i < Zn) {
      image const y = image_of(q.z.v[i], w, high);
      times_root(nr, ni, i, y.re, y.im);
      double const er = high ? -y.dr : y.dr, ei = high ? -y.di : y.di, u = gnr * er - gni * ei;
      gni = gnr * ei + gni * er;
      gnr = u;
    } else {
      times_root(nr, ni, i, high ? 1 : -1, 0);
      gnr *= high ? 4 : w;
      gni *= high ? 4 : w;
    }
  }
  vf_ensure("the gain is the prototype's, transformed", vf_req(b[0] * gdr, gnr));
  bool oka = true, okb = true;
  for (size_t j = 0; j <= Pn; ++j) {
    oka = vf_and(oka, vf_req(a[j], er[j]));
    okb = vf_and(okb, vf_req(b[j], b[0] * nr[j]));
  }
  vf_ensure("the denominator is the product over the images of the poles", oka);
  vf_ensure("the numerator is the gain times the product over the images of the zeros", okb);
}
#define S04I(P, ZN, PN, ZL, PL) \
  extern "C" void P##_S04_images_low_##ZL##_##PL() { s04_images<ZN, PN>(#ZL + 1, #PL, false); } \
  extern "C" void P##_S04_images_high_##ZL##_##PL() { s04_images<ZN, PN>(#ZL + 1, #PL, true); }
S04I(vc, 0, 2, _, aA) S04I(vc, 2, 2, _bB, aA) S04I(vc, 2, 3, _bB, arA) S04I(vc, 3, 3, _bBr, raA)
S04I(vc, 0, 4, _, abBA) S04I(vc, 2, 4, _cC, arrA)
S04I(vc, 0, 5, _, abrBA) VF_CONTRACT(S04_images_low__cCdD_aAbB) { s04_images<4, 4>("cCdD", "aAbB", false); }
VF_CONTRACT(S04_images_low___abcrCBA) { s04_images<0, 7>("", "abcrCBA", false); }
extern "C" void vct_S04_images_low___abcdDCBA() { s04_images<0, 8>("", "abcdDCBA", false); }
VF_CONTRACT(S04_images_low___abcCBA) { s04_images<0, 6>("", "abcCBA", false); }

// higher orders with fixed roots: every gain, frequency and sampling rate
#define S04F(ZN, PN, ZL, PL) \
  VF_CONTRACT(S04_images_low_fixed_##ZN##_##PN) { s04_images<ZN, PN>(ZL, PL, false); } \
  VF_CONTRACT(S04_images_high_fixed_##ZN##_##PN) { s04_images<ZN, PN>(ZL, PL, true); }
S04F(0, 8, "", "1234$#\"!") S04F(8, 8, "13#!42\"$", "1234$#\"!") S04F(8, 9, "13#!42\"$", "12340$#\"!") S04F(0, 10, "", "12345%$#\"!") S04F(0, 12, "", "123456&%$#\"!")

// every pole strictly inside the left half-plane; zeros anywhere the transform is defined:
// every image lies inside the unit circle, and the denominators are exactly products of (1 - image z^-1).
template <size_t Zn, size_t Pn> void s07(char const* zl, char const* pl, bool high, bool sections, bool quarter = false) {
  vf_wide();
  prototype<Zn, Pn> const q(zl, pl);
  double const fs = quarter ? 2 : vf_real("fs"), f = quarter ? 0.5 : vf_real("f");
  vf_assume(vf_and(fs > 0, f > 0));
  vf_assume(2 * f < fs);
  for (size_t i = 0; i < Pn; ++i)
    if (pl[i] < 'A' || pl[i] > 'Z') vf_assume(q.p.v[i].real() < 0);
  vf_assume_divisors();
  double const w = 4 * std::tan(M_PI * f / fs);
  double mr[Pn], mi[Pn];
  for (size_t i = 0; i < Pn; ++i) {
    image const x = image_of(q.p.v[i], w, high);
    if (vf_symbolic()) {   // facts about the images alone; in floating point they may round to equality
      vf_ensure("a pole's digital image lies inside the unit circle", x.nr * x.nr + x.ni * x.ni < x.m);
      vf_ensure("a pole's digital image is finite", x.m > 0);
    }
    mr[i] = x.re;
    mi[i] = x.im;
  }
  sg::iirfilter<double> const design(fs);
  auto const d = high ? design.highpass(q, f) : design.lowpass(q, f);
  if (!sections) {
    auto const a = d.template poly<double>().a();
    double er[Pn + 1] = {1}, ei[Pn + 1] = {};
    for (size_t i = 0; i < Pn; ++i) times_root(er, ei, i, mr[i], mi[i]);
    for (size_t j = 0; j <= Pn; ++j) vf_ensure("the denominator is the product over the images of the poles", vf_req(a[j], er[j]));
  } else {
    auto const s = d.template sos<double>();
    for (size_t k = 0; k < (Pn + 1) / 2; ++k) {
      auto const a = s.sos()[k].a();
      bool ok = false;
      for (size_t i = 0; i < Pn; ++i) {
        ok = vf_or(ok, vf_and(vf_req(a[1], -mr[i]), vf_req(a[2], 0)));
        for (size_t j = 0; j < i; ++j)
          ok = vf_or(ok, vf_and(vf_req(a[1], -mr[i] - mr[j]), vf_req(a[2], mr[i] * mr[j] - mi[i] * mi[j])));
      }
      vf_ensure("a section's denominator is the product over images of poles", vf_and(vf_req(a[0], 1), ok));
    }
  }
}
#define S07(Z, P, ZL, PL) \
  VF_CONTRACT(S07_low_##ZL##_##PL) { s07<Z, P>(#ZL + 1, #PL, false, false); } \
  VF_CONTRACT(S07_high_##ZL##_##PL) { s07<Z, P>(#ZL + 1, #PL, true, false); }
#define S07S(Z, P, ZL, PL) \
  VF_CONTRACT(S07_low_sos_##ZL##_##PL) { s07<Z, P>(#ZL + 1, #PL, false, true); } \
  VF_CONTRACT(S07_high_sos_##ZL##_##PL) { s07<Z, P>(#ZL + 1, #PL, true, true); }
S07(0, 1, _, r) S07(1, 1, _r, r) S07(0, 2, _, aA) S07(0, 2, _, rr) S07(2, 2, _bB, aA) S07(0, 3, _, arA) S07(3, 3, _rrr, rrr) S07(0, 4, _, abBA)
S07(0, 5, _, abrBA) VF_CONTRACT(S07_low__cCdD_aAbB) { s07<4, 4>("cCdD", "aAbB", false, false); }
VF_CONTRACT(S07_low___abcrCBA) { s07<0, 7>("", "abcrCBA", false, false); }
extern "C" void vct_S07_low___abcdDCBA() { s07<0, 8>("", "abcdDCBA", false, false); }
VF_CONTRACT(S07_low___abcCBA) { s07<0, 6>("", "abcCBA", false, false); }
S07S(0, 1, _, r) S07S(0, 2, _, aA) S07S(0, 2, _, rr) S07S(0, 3, _, aAr) S07S(0, 3, _, arA)
VF_CONTRACT(S07_low_sos___abBA) { s07<0, 4>("", "abBA", false, true); }
VF_CONTRACT(S07_low_sos___aAbB) { s07<0, 4>("", "aAbB", false, true); }
extern "C" void vct_S07_high_sos___abBA() { s07<0, 4>("", "abBA", true, true); }
extern "C" void vct_S07_high_sos___aAbB() { s07<0, 4>("", "aAbB", true, true); }
extern "C" void vct_S07_low_sos__bB_arA() { s07<2, 3>("bB", "arA", false, true); }
extern "C" void vct_S07_high_sos__bB_arA() { s07<2, 3>("bB", "arA", true, true); }
extern "C" void vct_S07_low_sos__cdDC_abBA() { s07<4, 4>("cdDC", "abBA", false, true); }
#define S07F(ZN, PN, ZL, PL) \
  VF_CONTRACT(S07_low_fixed_##ZN##_##PN) { s07<ZN, PN>(ZL, PL, false, false); } \
  VF_CONTRACT(S07_high_fixed_##ZN##_##PN) { s07<ZN, PN>(ZL, PL, true, false); }
S07F(0, 8, "", "1234$#\"!") S07F(8, 8, "13#!42\"$", "1234$#\"!") S07F(8, 9, "13#!42\"$", "12340$#\"!") S07F(0, 10, "", "12345%$#\"!") S07F(0, 12, "", "123456&%$#\"!")
// sections: at a quarter of the sampling rate
#define S07Q(ZN, PN, ZL, PL) \
  VF_CONTRACT(S07_low_sos_fixed_##ZN##_##PN) { s07<ZN, PN>(ZL, PL, false, true, true); } \
  VF_CONTRACT(S07_high_sos_fixed_##ZN##_##PN) { s07<ZN, PN>(ZL, PL, true, true, true); }
S07Q(0, 6, "", "123#\"!") S07Q(0, 7, "", "1230#\"!") S07Q(0, 8, "", "1234$#\"!") S07Q(8, 9, "13#!42\"$", "12340$#\"!") S07Q(0, 12, "", "123456&%$#\"!")

// ---------------------------------------------------------------- S05
#include "embedded/signal/butterworth.h"
#include "embedded/signal/chebyshev.h"
namespace {
// the given roots are exactly the expected ones, in any order (the expected ones are pairwise distinct)
template <size_t N, typename V> bool same_roots(V const& got, double const* re, double const* im) {
  bool all = true;
  for (size_t k = 0; k < N; ++k) {
    bool one = false;
    for (size_t i = 0; i < N; ++i) one = vf_or(one, vf_and(vf_req(got[i].real(), re[k]), vf_req(got[i].imag(), im[k])));
    all = vf_and(all, one);
  }
  return all;
}
// theta_k = (2k + 1 - N) pi / 2N, k = 0 .. N-1
template <size_t N> double angle(size_t k) { return M_PI * (2 * int(k) + 1 - int(N)) / (2 * int(N)); }
} // namespace

template <size_t N, typename F = double> void s05_butter() {
  if (sizeof(F) < sizeof(double)) vf_tolerance(2e-3);
  auto const s = sg::butterworth<N>().template spec<F>().zpk();
  vf_ensure("there are no zeros", s.zeros().size() == 0);
  vf_ensure("the order is the template's", vf_and(sg::butterworth<N>::order() == N, s.poles().size() == N));
  vf_ensure("the gain is one", vf_req(s.gain(), 1));
  double re[N], im[N];
  for (size_t k = 0; k < N; ++k) {
    re[k] = -std::cos(angle<N>(k));
    im[k] = std::sin(angle<N>(k));
    vf_ensure("the textbook pole lies in the left half-plane", re[k] < 0);
  }
  vf_ensure("the poles are -exp(j theta_k)", same_roots<N>(s.poles(), re, im));
}
template <size_t N, typename F = double, typename PF = double> void s05_cheb1() {
  if (sizeof(F) < sizeof(double) || sizeof(PF) < sizeof(double)) vf_tolerance(2e-3); else { vf_wide(); vf_tolerance(2e-8); }
  double const r = vf_real("ripple");
  vf_assume(r > 0);
  vf_assume_divisors();
  sg::chebyshev1<N, PF> const c(static_cast<PF>(r));
  auto const s = c.template spec<F>().zpk();
  vf_ensure("there are no zeros", s.zeros().size() == 0);
  vf_ensure("the order is the template's", vf_and(sg::chebyshev1<N>::order() == N, s.poles().size() == N));
  double const p = std::pow(10.0, 0.1 * r), eps = std::sqrt(p - 1), mu = std::asinh(1 / eps) / N;
  double re[N], im[N], gr = 1, gi = 0;
  for (size_t k = 0; k < N; ++k) {
    re[k] = -std::sinh(mu) * std::cos(angle<N>(k));
    im[k] = std::cosh(mu) * std::sin(angle<N>(k));
    vf_ensure("the textbook pole lies in the left half-plane", re[k] < 0);
    double const t = -gr * re[k] + gi * im[k];
    gi = -gr * im[k] - gi * re[k];
    gr = t;
  }
  vf_ensure("the poles are -sinh(mu) cos(theta_k) + j cosh(mu) sin(theta_k)", same_roots<N>(s.poles(), re, im));
  // response at zero frequency: gain / product of (-poles)
  vf_ensure("the product of the negated poles is real", vf_req(gi, 0));
  vf_ensure("the response at zero frequency is one (odd order) or one ripple below (even order)", vf_req(N % 2 ? s.gain() : s.gain() * std::sqrt(1 + eps * eps), gr));
}
template <size_t N, typename F = double, typename PF = double> void s05_cheb2() {
  if (sizeof(F) < sizeof(double) || sizeof(PF) < sizeof(double)) vf_tolerance(2e-3); else { vf_wide(); vf_tolerance(2e-8); }
  constexpr size_t Zn = N - N % 2;
  double const r = vf_real("ripple");
  vf_assume(r > 0);
  vf_assume_divisors();
  sg::chebyshev2<N, PF> const c(static_cast<PF>(r));
  auto const s = c.template spec<F>().zpk();
  vf_ensure("the order is the template's", vf_and(sg::chebyshev2<N>::order() == N, vf_and(s.poles().size() == N, s.zeros().size() == Zn)));
  double const p = std::pow(10.0, 0.1 * r), eps = 1 / std::sqrt(p - 1), mu = std::asinh(1 / eps) / N;
  double re[N], im[N], zr[N], zi[N], gr = 1, gi = 0, qr = 1, qi = 0;
  size_t m = 0;
  for (size_t k = 0; k < N; ++k) {
    double const x = -std::sinh(mu) * std::cos(angle<N>(k)), y = std::cosh(mu) * std::sin(angle<N>(k)), n = x * x + y * y;
    re[k] = x / n;
    im[k] = y / n;   // 1 / (x - j y): the poles are inverted, as a set closed under conjugation
    vf_ensure("the inverted pole lies in the left half-plane", x < 0);
    double t = -gr * re[k] + gi * im[k];
    gi = -gr * im[k] - gi * re[k];
    gr = t;
    if (2 * k + 1 == N) continue;   // no zero at infinity
    zr[m] = 0;
    zi[m] = 1 / std::sin(angle<N>(k));
    t = -qr * zr[m] + qi * zi[m];
    qi = -qr * zi[m] - qi * zr[m];
    qr = t;
    ++m;
  }
  vf_ensure("the zeros are +-j / sin(theta_k)", same_roots<Zn>(s.zeros(), zr, zi));
  vf_ensure("the poles are the inverted Chebyshev poles", same_roots<N>(s.poles(), re, im));
  vf_ensure("the response at zero frequency is one (imaginary part)", vf_req(gi * qr, gr * qi));
  vf_ensure("the response at zero frequency is one", vf_req(s.gain() * qr, gr));
}
#define S05(N) \
  VF_CONTRACT(S05_butterworth_##N) { s05_butter<N>(); } \
  VF_CONTRACT(S05_chebyshev1_##N) { s05_cheb1<N>(); } \
  VF_CONTRACT(S05_chebyshev2_##N) { s05_cheb2<N>(); }
S05(1) S05(2) S05(3) S05(4) S05(5) S05(6) S05(7) S05(8) S05(9) S05(10) S05(11) S05(12)
S05(13) S05(14) S05(15) S05(16) S05(17) S05(18) S05(19) S05(20)
// other combinations of result and parameter types
#define S05F(N) \
  VF_CONTRACT(S05_butterworth_f_##N) { s05_butter<N, float>(); } \
  VF_CONTRACT(S05_chebyshev1_ff_##N) { s05_cheb1<N, float, float>(); } \
  VF_CONTRACT(S05_chebyshev2_ff_##N) { s05_cheb2<N, float, float>(); } \
  VF_CONTRACT(S05_chebyshev1_df_##N) { s05_cheb1<N, double, float>(); } \
  VF_CONTRACT(S05_chebyshev2_df_##N) { s05_cheb2<N, double, float>(); } \
  VF_CONTRACT(S05_chebyshev1_fd_##N) { s05_cheb1<N, float, double>(); } \
  VF_CONTRACT(S05_chebyshev2_fd_##N) { s05_cheb2<N, float, double>(); }
S05F(1) S05F(2) S05F(3) S05F(4) S05F(5) S05F(6)

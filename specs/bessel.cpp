// Contracts for the Bessel prototype (S06).  The poles are constants; each contract hands them to the exact arithmetic back end
// (engine/bessel.py), which certifies them against the reverse Bessel polynomial.
#include "vfm.h"
#include "embedded/signal/bessel.h"
#include "embedded/signal/filter.h"
namespace sg = embedded::signal;

template <size_t N> void s06() {
  sg::bessel<N> const b{};
  auto const zpk = b.template spec<double>().zpk();
  vf_ensure("the prototype reports its order", sg::bessel<N>::order() == N);
  vf_ensure("there are no zeros", zpk.zeros().size() == 0);
  vf_ensure("there are as many poles as the order says", zpk.poles().size() == N);
  vf_ensure("the gain is one", vf_req(zpk.gain(), 1.0));
  for (size_t i = 0; i < N; ++i) {
    vf_record("re", zpk.poles()[i].real());
    vf_record("im", zpk.poles()[i].imag());
  }
  auto const f = b.template spec<float>().zpk();
  vf_ensure("the single-precision prototype has unit gain", vf_req(f.gain(), 1.0));
  for (size_t i = 0; i < N; ++i) {
    vf_record("fre", f.poles()[i].real());
    vf_record("fim", f.poles()[i].imag());
  }
}
#define S06(N) VF_CONTRACT(S06_##N) { s06<N>(); }
#define S06_10(D) S06(D##0) S06(D##1) S06(D##2) S06(D##3) S06(D##4) S06(D##5) S06(D##6) S06(D##7) S06(D##8) S06(D##9)
S06(1) S06(2) S06(3) S06(4) S06(5) S06(6) S06(7) S06(8) S06(9)
S06_10(1) S06_10(2) S06_10(3) S06_10(4) S06_10(5) S06_10(6) S06_10(7) S06_10(8) S06_10(9)
S06(100)

// The intended use of embedded::move_wrapper (M01): a move-only value captured by a copyable closure, stored in a function<>.
#include "vf.h"
#include "embedded/function.h"
#include "embedded/move_wrapper.h"
using embedded::move_wrapper;
static size_t moves, copies;
struct Quiet {
  uint32_t v;
  bool full;
  explicit Quiet(uint32_t x) : v(x), full(true) {}
  Quiet(Quiet&& o) noexcept : v(o.v), full(o.full) { ++moves; o.full = false; o.v = 0; }
  Quiet(Quiet const& o) noexcept : v(o.v), full(o.full) { ++copies; }
};
VF_CONTRACT(M01_in_closure) {
  uint32_t x = vf_u32("x"), a = vf_u32("a");
  moves = copies = 0;
  move_wrapper<Quiet> w{Quiet(x)};
  auto f = [w](uint32_t q) { return w->v + q; };
  vf_ensure("the closure holds the value", vf_and(f(a) == x + a, !w->full));
  embedded::function<uint32_t(uint32_t) const> g(std::move(f));
  vf_ensure("the function holds the value", g(a) == x + a);
  vf_ensure("the value is never copied", copies == 0);
}

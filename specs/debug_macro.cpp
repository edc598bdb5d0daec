// The public macros that place debug coefficient records (D01): each gets a section of its own here, so that it is found there.
#include "vfm.h"
#define LIBEMB_DEBUG_FILTER_COEFS_SECTION "vf_sec1"
#include "embedded/signal/filter.h"
#include "embedded/signal/debug_filter_coefs.h"
namespace sg = embedded::signal;
namespace {
using C = cm::complex<double>;
constexpr sg::detail::zpk_value<3, 3, double> roots(cm::vector<C, 3>{C(0.5, 0.25), C(0.5, -0.25), C(-1.0, 0.0)},
                                                    cm::vector<C, 3>{C(0.25, 0.125), C(0.25, -0.125), C(0.75, 0.0)}, 0.375);
constexpr sg::poly_design<double, 3> polyd(roots);
constexpr sg::poly_design<float, 3> polyf(roots);
constexpr sg::sos_design<double, 3> sosd(roots, sg::sos_gain::first_section);
constexpr sg::sos_design<float, 3> sosf(roots, sg::sos_gain::first_section);
}
LIBEMB_DEBUG_FILTER_COEFS_NAME(polyd, "lowpass A");
#undef LIBEMB_DEBUG_FILTER_COEFS_SECTION
#define LIBEMB_DEBUG_FILTER_COEFS_SECTION "vf_sec2"
LIBEMB_DEBUG_FILTER_COEFS_NAME(polyf, "");
#undef LIBEMB_DEBUG_FILTER_COEFS_SECTION
#define LIBEMB_DEBUG_FILTER_COEFS_SECTION "vf_sec3"
LIBEMB_DEBUG_FILTER_COEFS_NAME(sosd, "a name of its own");
#undef LIBEMB_DEBUG_FILTER_COEFS_SECTION
#define LIBEMB_DEBUG_FILTER_COEFS_SECTION "vf_sec4"
#line 4711 "some/source.cpp"
LIBEMB_DEBUG_FILTER_COEFS(sosf);
#undef LIBEMB_DEBUG_FILTER_COEFS_SECTION
#define LIBEMB_DEBUG_FILTER_COEFS_SECTION "vf_sec5"
#line 9 "a/path/of/more/than/a/hundred/and/twenty/characters/a/path/of/more/than/a/hundred/and/twenty/characters/a/path/of/more/than/x.cpp"
LIBEMB_DEBUG_FILTER_COEFS(polyd);
#line 34 "debug_macro.cpp"

extern "C" {
extern char const __start_vf_sec1[], __start_vf_sec2[], __start_vf_sec3[], __start_vf_sec4[], __start_vf_sec5[];
extern char const __stop_vf_sec1[], __stop_vf_sec2[], __stop_vf_sec3[], __stop_vf_sec4[], __stop_vf_sec5[];
}
namespace {
struct layout { uint32_t magic; uint16_t length; uint8_t version, structure, valtype; char name[119]; };
void record(char const* r, char const* stop, uint8_t structure, uint8_t valtype, size_t bytes, char const* name) {
  layout l;
  std::memcpy(&l, r, sizeof l);
  vf_ensure("the macro places one record, as long as it says", size_t(stop - r) == l.length);
  vf_ensure("the record's length is that of the header and the coefficients", l.length == sizeof l + bytes);
  vf_ensure("the record starts with the fixed magic and version", vf_and(l.magic == 0x544C4946, l.version == 0));
  vf_ensure("the record names structure and type", vf_and(l.structure == structure, l.valtype == valtype));
  size_t i = 0;
  bool same = true;
  for (; name[i] && i < 118; ++i) same = vf_and(same, l.name[i] == name[i]);
  vf_ensure("the record carries the name, cut to fit", same);
  vf_ensure("the name is always zero-terminated", l.name[i] == 0);
}
}
VF_CONTRACT(D01_macro_poly_double) {
  record(__start_vf_sec1, __stop_vf_sec1, 1, 1, 64, "lowpass A");
  auto const b = polyd.b(), a = polyd.a();
  vf_ensure("the record carries the design's coefficients", vf_and(vf_bytes_eq(__start_vf_sec1 + 128, &b, 32), vf_bytes_eq(__start_vf_sec1 + 160, &a, 32)));
}
VF_CONTRACT(D01_macro_poly_float) {
  record(__start_vf_sec2, __stop_vf_sec2, 1, 0, 32, "");
  auto const b = polyf.b(), a = polyf.a();
  vf_ensure("the record carries the design's coefficients", vf_and(vf_bytes_eq(__start_vf_sec2 + 128, &b, 16), vf_bytes_eq(__start_vf_sec2 + 144, &a, 16)));
}
VF_CONTRACT(D01_macro_sos_double) {
  record(__start_vf_sec3, __stop_vf_sec3, 0, 1, 80, "a name of its own");
  vf_ensure("the record carries the design's coefficients", vf_bytes_eq(__start_vf_sec3 + 128, &sosd.sos(), 80));
}
VF_CONTRACT(D01_macro_expression) {
  record(__start_vf_sec4, __stop_vf_sec4, 0, 0, 40, "sosf (some/source.cpp:4711)");
  vf_ensure("the record carries the design's coefficients", vf_bytes_eq(__start_vf_sec4 + 128, &sosf.sos(), 40));
}
VF_CONTRACT(D01_macro_long_path) {
  record(__start_vf_sec5, __stop_vf_sec5, 1, 1, 64,
         "polyd (a/path/of/more/than/a/hundred/and/twenty/characters/a/path/of/more/than/a/hundred/and/twenty/characters/a/path/of/more/than/x.cpp:9)");
}

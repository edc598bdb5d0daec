"""Which contracts decide which property, and what each check assumes."""
import extra
TECHNIQUE = "contract-based deductive verification: contracts on the real headers, VCs from clang LLVM IR, discharged by z3"
PROPS = {}
NOT_APPLICABLE = {
    "T01": "compile-time type lists, sequences and traits have no run-time code to put under a contract; the statement quantifies over types and packs, which a deductive verifier of run-time code cannot range over (each instance would be a compile-time test)",
    "X01": "rounding error of double/float arithmetic: the verifier treats floating point as exact real arithmetic, and no contract within reach bounds accumulated rounding through root pairing and polynomial expansion",
    "X02": "include/embedded/variant.h only re-exports a third-party header (mpark/variant) that is absent from the tree, so there is no code to verify",
}


def prop(pid, note, specs, **kw):
    PROPS[pid] = dict(note=note, specs=specs, **kw)


VN = ("All obligations discharged for every value of every integer type (bit-vector semantics); loops are bounded by the operand width and unrolled "
      "completely. Assumes valid caller iterators; trusts clang's IR, the verifier in engine/ and z3.")
for _p in ("V01", "V02", "V03", "V04", "V05"):
    prop(_p, VN, [{"spec": "varint.cpp", "prefix": _p + "_"}],
         assumptions=["the caller's iterators are valid: begin..end is one range, and unchecked encode has room for the longest encoding"])

CBA = ("Every contract starts from an arbitrary attached buffer (any capacity up to 2^40 elements, any first index, any size, any content) and ends in one, "
       "so single steps cover every history; element types of 1, 2, 3, 4, 8, 16 and 32 bytes. Index arithmetic is checked for wrap-around. Element positions are "
       "checked for one arbitrary (Skolem) index.")
CBA_A = ["capacity*sizeof(T) fits the address space; popping from an empty buffer and pushing to a full one are outside the contract (asserted by the code)"]
for _p in ("B01", "B02", "B03", "B05", "B06"):
    prop(_p, CBA, [{"spec": "cba.cpp", "prefix": [_p + "_", "B00_"]}], assumptions=CBA_A)

prop("B04", CBA + " Element lifetimes are ghost state; the element type's own constructors and destructor carry the lifetime contracts, and whether a "
     "constructor throws is an input. The loop of the counted pops is replaced by an inductively checked summary (unbounded).",
     [{"spec": "cba_life.cpp", "prefix": "B04_"}], assumptions=CBA_A)

FN = ("Contracts with ghost lifetime state on the real templates, for representative instantiations (several signatures, capacities, alignments and target "
      "types); all argument values, target values and wrapper states. Lifetime histories follow by induction: every operation starts from and ends in an "
      "arbitrary combination of wrapper states.")
FN_A = ["instantiations other than those listed in specs/function.cpp behave alike (the templates are parametric)"]
for _p in ("F01", "F02", "F03", "F04"):
    prop(_p, FN, [{"spec": "function.cpp", "prefix": _p + "_"}], assumptions=FN_A)

prop("G01", "Complete: every exit path of the guarded scope (lock throws, scope throws, early return, normal), with an instrumented mutex.",
     [{"spec": "misc.cpp", "prefix": "G01_"}], assumptions=["the mutex's own lock and unlock are the caller's"])
prop("M01", "Complete for five kinds of values (move-only, copyable, nothrow, throwing only when moved, with an initializer-list constructor and an operator& of its own): all values and both outcomes of every move.",
     [{"spec": "misc.cpp", "prefix": "M01_"}, {"spec": "closure.cpp", "prefix": "M01_"}], assumptions=["the template is parametric in the value type"])

AM = ("Contracts on the real templates for a range of sizes (listed in specs/cmath.cpp); all element values. Algebra is decided as an identity of rational "
      "functions over the reals (exact arithmetic); equality and conversion on every IEEE value; ordering on every 32-bit key.")
AM_A = ["sizes other than the instantiated ones behave alike (template recursion)"]
for _p in ("A01", "A02", "A03", "A04"):
    prop(_p, AM, [{"spec": "cmath.cpp", "prefix": _p + "_"}], assumptions=AM_A)

SG = ("Coefficients, gains, poles and zeros, input samples and filter states are arbitrary; difference equations and expansions are decided as identities over the "
      "reals (exact arithmetic). Single steps start from an arbitrary state, so they cover every history; outputs from rest are unrolled for a stated number of samples.")
SG_A = ["floating-point operations are read as exact real operations (rounding is not modelled)"]
prop("S01", SG + " Orders 1 to 10, 12, 16 and 20. The clause on rounding is a bounded native check (sampled), not proved.", [{"spec": "filter.cpp", "prefix": "S01_"}], assumptions=SG_A,
     always={"filter.cpp": ["vn_S01_scales_1", "vn_S01_scales_3"]})
prop("S02", SG + " Orders 1 to 8, 10, 13 and 20 (one to ten sections). The clause on rounding is a bounded native check (sampled), not proved.", [{"spec": "filter.cpp", "prefix": "S02_"}], assumptions=SG_A,
     always={"filter.cpp": ["vn_S02_scales", "vn_S02_rounding"]})
prop("S03", SG + " Orders 1 to 4 in every listed mix of real roots and conjugate pairs; orders 5 and 6 in the listed layouts (order 6 and most of order 5 in the "
     "thorough tier); orders 7 to 10, 12 and 16 with fixed roots and every gain.", [{"spec": "filter.cpp", "prefix": "S03_", "limits": {"insts": 10**8, "paths": 200000}}], assumptions=SG_A +
     ["root layouts other than the listed ones behave alike"])
prop("S04", SG + " Any analog prototype in the listed root layouts (zeros and poles symbolic, orders 1 to 7, thorough 8), any cutoff strictly between zero and half the "
     "sample rate; orders 8, 9, 10 and 12 with fixed roots. tan, sin and cos are exact functions related by their identities.",
     [{"spec": "filter.cpp", "prefix": "S04_", "limits": {"insts": 10**8, "paths": 200000}}], assumptions=SG_A +
     ["root layouts other than the listed ones behave alike", "no intermediate divisor vanishes (a prototype root exactly at the transform's singular point)",
      "the float and the double constant nearest to pi stand for the same number"])
prop("S07", SG + " Any prototype with every pole strictly in the left half-plane, in the listed root layouts (whole designs of orders 1 to 7, thorough 8, sections of orders 1 to 4; orders 8 to 10 and 12 with fixed roots, sections of orders 6 to 9 and 12 with fixed roots at a quarter of the sample rate): "
     "each analog pole's digital image lies inside the unit circle, and the denominators are exactly the products over those images.",
     [{"spec": "filter.cpp", "prefix": "S07_", "limits": {"insts": 10**8, "paths": 200000}}], assumptions=SG_A +
     ["root layouts other than the listed ones behave alike", "no intermediate divisor vanishes"])
prop("S05", SG + " Orders 1 to 20, every positive ripple. Square roots, sines, hyperbolic sines and logarithms are exact functions "
     "related by their identities; the poles and zeros are compared with the textbook ones as sets.",
     [{"spec": "filter.cpp", "prefix": "S05_", "limits": {"insts": 10**8, "paths": 200000}}], assumptions=SG_A +
     ["a constant angle within 1e-13 of a simple fraction of pi is that fraction, and a constant that is the double nearest to a simple or short decimal fraction is that fraction",
      "no intermediate divisor vanishes"])
prop("D01", "Records of polynomial and section designs in float, double and long double, orders 1 to 8, whose coefficients are arbitrary bit patterns, with arbitrary names of "
     "lengths around the field size; the record is read back through its byte layout. Five uses of the placing macros (a named and an unnamed record, a path "
     "longer than the field) are read back from their sections.",
     [{"spec": "debug.cpp", "prefix": "D01_"}, {"spec": "debug_macro.cpp", "prefix": "D01_"}], assumptions=["the padding inside a long double is not part of its value"])
prop("S06", "All 100 orders. The poles are constants of the code: the contracts obtain them by executing the real prototype, and an exact arithmetic back end "
     "(integer ball arithmetic; discs of radius n|P/P'| around refined points, pairwise disjoint) certifies them against the reverse Bessel polynomial.",
     [{"spec": "bessel.cpp", "prefix": "S06_"}], extra=[extra.s06],
     assumptions=["within double precision means a distance of at most 4e-15 (18 units in the last place of 1)"],
     trusted=["engine/bessel.py (exact integer arithmetic; the disc criterion |root - r| <= n|P(r)/P'(r)|)"])
prop("R01", "Every function of the library (all 338 definitions in /repo/include have an instance in the contracts' IR) and every libstdc++ function it can reach has "
     "a frame: it touches no mutable global, static or thread-local variable, calls no allocator, and calls only functions that have a frame; checked function by "
     "function on the compiler's IR.", [], extra=[extra.r01],
     assumptions=["memory reached from a pointer argument is the caller's", "libm may set errno", "throwing allocates the exception object",
                  "instances other than those the contracts create behave alike"],
     trusted=["engine/frame.py (scan of every instruction of every function)"])

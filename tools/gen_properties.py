#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None}})

V = "include/embedded/varint.h"
B = "include/embedded/circular_buffer_adapter.h"
BD = "include/embedded/detail/circular_buffer_adapter.h"
F = "include/embedded/function.h"
VEC = "include/embedded/constexpr_math/vector.h"
CPX = "include/embedded/constexpr_math/complex.h"
CONV = "include/embedded/constexpr_math/convolve.h"
POLY = "include/embedded/constexpr_math/poly.h"
SF = "include/embedded/signal/filter.h"
SD = "include/embedded/signal/detail/filter.h"
SP = "include/embedded/signal/poly.h"
SS = "include/embedded/signal/sos.h"

prop("V01", "varint round trip is lossless for every value of every integer type",
 "For every integer type and every value of it, decoding what encode wrote yields exactly the original value. The decoder stops exactly where the encoder stopped, even when other bytes follow, and this holds for the checked, the unchecked and the back-insert form of encode, for unsigned and signed types.",
 ["inputs"], "all values of the 8/16/32/64-bit signed and unsigned types; all buffer contents after the encoding",
 "The tests round-trip some twenty hand-picked values per type; 2^64 values and arbitrary trailing bytes are out of reach of sampling.",
 [V], [("encode_impl", V), ("decode", V), ("zig_zag_encode/zig_zag_decode", V)], observe=["varint::encode", "varint::decode"])
prop("V02", "varint format: little-endian 7-bit groups, minimal length, size() exact",
 "The encoding of a value is its 7-bit groups, least significant first, with the top bit set in every byte but the last; a signed value is first folded so that 0,-1,1,-2,... become 0,1,2,3,.... The number of bytes written is the smallest possible and always equals what size() reports for that value.",
 ["inputs"], "all values of the 8/16/32/64-bit signed and unsigned types",
 "Tests compare encode only with the library's own size and decode, on a few values; no test pins the byte format or minimality, and a consistent change to both directions passes.",
 [V], [("size", V), ("encode_impl", V), ("zig_zag_encode", V)], observe=["varint::size", "varint::encode"])
prop("V03", "bounded varint encode never writes outside its buffer and reports lack of space",
 "The range-checked encode returns the start iterator exactly when the space given is smaller than the encoding, and otherwise the position just after the encoding. It never touches a byte outside the range it was given nor a byte after the position it returns on success.",
 ["inputs"], "all values of all integer types, all buffer lengths including zero, all prior buffer contents",
 "Tests try four too-short buffers and never look at the bytes around the buffer.",
 [V], [("encode(value, begin, end)", V), ("encode_impl", V)], observe=["varint::encode"])
prop("V04", "varint decode is total and exact on arbitrary bytes",
 "Decoding arbitrary bytes reads only inside the given range and no more bytes than the longest encoding of the target type. It returns the start iterator when the encoding is not terminated within the range or within that length or when its value does not fit the target type; otherwise it returns the position after the first byte whose top bit is clear, with exactly the value denoted by the bytes before it, unfolded for signed types.",
 ["inputs"], "all byte strings of all lengths, all eight target types",
 "Tests decode only three malformed inputs; all others come from the library's own encoder, so over-long, overflowing and truncated inputs are unsampled.",
 [V], [("decode", V)], observe=["varint::decode"])
prop("V05", "the signed/unsigned folding is a bijection",
 "For every signed type, folding a value to unsigned gives 2v for non-negative v and -2v-1 for negative v without overflow. Unfolding is its exact inverse in both directions.",
 ["inputs"], "all values of the 8/16/32/64-bit types in both directions",
 "The tests exercise the folding only indirectly on about twenty values per type.",
 [V], [("zig_zag_encode", V), ("zig_zag_decode", V)], observe=["varint::zig_zag_encode", "varint::zig_zag_decode"])

ringstate = [("begin_/end_/first_/last_/size_", "ring geometry; last_ = first_ advanced by size_ around the ring", B)]
prop("B01", "circular buffer behaves as a bounded double-ended queue for every history",
 "After any sequence of pushes, emplaces, pops (single and counted) and clear, at both ends, within capacity, the buffer holds exactly the sequence a double-ended queue would hold: same size, same elements in the same order through indexing, at(), front() and back(), and consistent empty/full/remaining. Elements that stay in the buffer keep their value and their address.",
 ["inputs", "histories"], "all capacities, all positions of the content in the ring (wrapped or not), all contents, all operations with all legal counts, hence by induction all histories",
 "Tests use capacities of at most a handful of slots and a few fixed sequences; wrap-around at each combination of position, size and count is not covered.",
 [B], [("inc/dec/add/sub", B), ("push_*/emplace_*/pop_*", B), ("operator[]", B)], ringstate, ["circular_buffer_adapter public API"])
prop("B02", "bulk copies equal element-wise operations",
 "copy_in_front and copy_in_back insert the given elements as one block, keeping their order, before the first or after the last element; copy_out_front and copy_out_back copy that many elements at that end out in buffer order and remove exactly those, and the range forms of copy_in/copy_out write or read exactly the elements of the iterator range. No other element of the buffer, and nothing outside the destination, changes, whether or not the range wraps around the end of the memory.",
 ["inputs"], "all capacities, ring positions, counts (including zero and full capacity), contents and iterator ranges",
 "Tests compare a few small sizes; the split copy at the wrap point is sampled for a handful of offsets only.",
 [B], [("copy_in_impl", B), ("copy_out_impl", B)], ringstate, ["copy_in_front", "copy_in_back", "copy_out_front", "copy_out_back", "copy_in", "copy_out"])
prop("B03", "circular buffer iterators obey the random-access laws around the ring",
 "For every buffer state, begin()+i designates element i, end()-begin() is the size, and ++, --, +=, -=, +, -, [] and all comparisons agree with the positions, for mutable, const and reverse iterators, also on an empty and on a full buffer. Const iterators can be copied, and converted from mutable ones, like any iterator.",
 ["inputs"], "all capacities, ring positions, sizes and pairs of positions (including the end position)",
 "Tests walk a few small buffers; the end position is a null marker and a full ring has begin and end in the same slot, which needs every position/size combination.",
 [BD, B], [("cba_iterator", BD), ("index/realiter", BD)], ringstate, ["iterator", "const_iterator", "reverse_iterator"])
prop("B04", "circular buffer constructs and destroys each element exactly once",
 "For element types with constructors and destructors, every push/emplace constructs exactly one element in a slot that held none, and every pop/clear destroys exactly the elements removed, each once and no other. If constructing an element throws, the buffer is unchanged: same size, same elements, nothing destroyed.",
 ["inputs", "histories", "fault_sequences"], "all capacities, ring positions, sizes and counts; a throw at any construction",
 "Tests trace constructor calls on a three-slot buffer for a fixed script.",
 [B], [("destroy", B), ("placement new in push/emplace", B)], ringstate, ["element constructors and destructors"])
prop("B05", "circular buffer stays inside its memory and survives re-attachment",
 "No operation reads or writes outside the memory the buffer was attached to, and plain reads never change it. Attaching a new buffer to the same memory with the recorded capacity, raw index of the first element and element count gives the same sequence, also with the raw first index anywhere up to the end of the memory and after any history.",
 ["inputs", "histories", "crash_points"], "all capacities (including zero), ring positions, sizes, operations and re-attachment points",
 "Tests never check neighbouring memory and re-attach only with one fixed three-byte layout.",
 [B], [("constructors", B), ("raw_index", B), ("add/sub", B)], ringstate, ["raw memory", "raw_index"])
prop("B06", "checked access throws exactly when out of range",
 "at(i) returns element i for every i below the size and throws std::out_of_range for every other i, leaving the buffer unchanged.",
 ["inputs"], "all buffer states and all index values",
 "Tests try one index on each side of the boundary.",
 [B], [("at", B)], ringstate, ["at"])

prop("F01", "function forwards every call to the stored callable unchanged",
 "Calling a non-empty function calls the stored object exactly once with the very arguments given (values, references and move-only arguments alike) and returns its result, for every capacity and alignment the wrapper is instantiated with. The stored object's state persists between calls and its exceptions reach the caller.",
 ["inputs", "configurations"], "all argument values and callable states; a range of capacities, alignments and signatures",
 "tests/function.cpp is not built here and only uses the default capacity and alignment; a stored object at a different offset is never called.",
 [F], [("vt_call", F), ("function_traits::operator()", F)], [("vtbl_/storage_", "dispatch table and in-place storage", F)], ["operator()"])
prop("F02", "function manages its target's lifetime exactly",
 "The wrapped object is constructed once in place, moved only by moving the wrapper, and destroyed exactly once: on destruction, on reassignment, on assignment of nullptr, or after being moved out. No sequence of construct, move, assign, reset and destroy leaks or destroys twice, including when the target is replaced by an empty wrapper, an assignment follows a move, or a wrapper is move-assigned to itself (which keeps its target).",
 ["inputs", "histories"], "every wrapper state (empty or holding any of several target types) crossed with every special member operation, hence all histories by induction",
 "The one test that counts constructions covers a single path.",
 [F], [("vt_proc", F), ("move constructor/assignment", F), ("destructor", F)], [("vtbl_", "empty table iff no live target", F)], ["target constructors/destructors"])
prop("F03", "an empty function is observably empty and safe to call, reset and destroy",
 "A default-constructed, null-constructed, nullptr-assigned or moved-from function, and one made from a null member pointer, converts to false and throws std::bad_function_call when called; every other one converts to true. Moving transfers the target: the source becomes empty and the destination calls what the source called.",
 ["inputs", "histories"], "every way of becoming empty crossed with every following operation",
 "The tests that cover it are not built here, and they cover only one path for each.",
 [F], [("empty_vtbl", F), ("operator bool", F)], [("vtbl_", "identity of the empty table", F)], ["operator bool", "operator()"])
prop("F04", "a const-signature function never mutates or mis-dispatches through its target",
 "A function with a const signature calls its target as a const object, so the const overload of the call operator is the one used and a callable whose non-const call operator differs is not reached through it. A non-const signature calls the target as non-const.",
 ["inputs", "configurations"], "callables with both overloads, all argument values and states",
 "Tests use only std::ref and lambdas, for which both overloads are the same.",
 [F], [("function_traits<R(Args...) const>", F), ("vt_call", F)], [], ["operator() const"])

prop("G01", "lock_guard locks once and unlocks once, on every exit path",
 "Constructing the guard calls lock() on the given mutex exactly once, and the end of its scope calls unlock() on the same mutex exactly once, after everything in the scope and also when the scope is left by an exception. If lock() itself throws, unlock() is not called.",
 ["inputs", "fault_sequences"], "all mutex types with lock/unlock; normal and exceptional exits; nesting on distinct mutexes",
 "The test counts the lock level of one mock on one normal exit.",
 ["include/embedded/mutex.h"], [("lock_guard", "include/embedded/mutex.h")], [], ["Mutex::lock", "Mutex::unlock"])
prop("M01", "move_wrapper carries its value by move through copies and lets errors out",
 "Wrapping, copying or moving a move_wrapper moves the held value exactly once from source to destination, never copies it, and access through * and -> designates that value. An exception thrown by the value's move constructor reaches the caller instead of ending the program.",
 ["inputs", "fault_sequences"], "all held values; throwing and non-throwing move constructors",
 "The tests move a single never-throwing type once.",
 ["include/embedded/move_wrapper.h"], [("move_wrapper constructors", "include/embedded/move_wrapper.h")], [], ["move_wrapper"])

prop("A01", "vector operations are element-wise exact",
 "Construction, conversion, indexing, append, subvector, erase, swap, swap-and-pop, fill, transform and the scalar arithmetic operators give, at every index, exactly the element their definition says, and reduce folds every element exactly once. Two vectors compare equal exactly when all their elements do.",
 ["inputs", "configurations"], "all element values, all index arguments, a range of lengths including zero and one",
 "Tests evaluate a few constant vectors at compile time.",
 [VEC], [("create/transform/reduce/append/subvector/erase/swap/swappop", VEC), ("operator==", VEC)], [], ["cmath::vector"])
prop("A02", "sort, argmin and count are correct for every input",
 "sort returns an ordered rearrangement of exactly the input elements, argmin returns the index of the first element not preceded by any other under the ordering, and count returns the number of elements satisfying the predicate.",
 ["inputs", "configurations"], "all element values including ties, lengths 0 to 5, ascending and descending order; lengths to 33 with two arbitrary elements",
 "Tests sort four constant vectors.",
 [VEC], [("detail::sort", VEC), ("detail::argmin", VEC), ("detail::count", VEC)], [], ["vector::sort", "vector::argmin", "vector::count"])
prop("A03", "complex arithmetic is field arithmetic",
 "In exact arithmetic, complex +, -, *, / (including mixed real/complex forms), negation, conjugate, norm, abs and exp equal their mathematical definitions, so that for instance (a/b)*b = a for every non-zero b.",
 ["inputs"], "all real and imaginary parts (taken as exact real numbers)",
 "The test checks norm, abs and conj on two constants.",
 [CPX], [("operators", CPX), ("exp", CPX)], [], ["cmath::complex"])
prop("A04", "convolution and polynomial expansion are exact",
 "The full convolution of two sequences has at each index n the sum of all products a[m]*b[n-m]. poly of a set of zeros is the monic polynomial, highest power first, whose value at every point is the product of (x - zero).",
 ["inputs", "configurations"], "all coefficient values; sequence lengths 1 to 5, up to 5 zeros, real and complex",
 "One 3x3 convolution of constants is tested; poly only indirectly through fixed designs.",
 [CONV, POLY], [("convolve_single", CONV), ("poly_rec", POLY)], [], ["convolve_full", "poly"])

prop("S01", "the polynomial filter computes its difference equation for every input history",
 "For every input sequence, every output of a polynomial-form filter instance satisfies a0*y[n] = sum b[k]*x[n-k] - sum(k>=1) a[k]*y[n-k] in exact arithmetic, starting from rest; computed in floating point, outputs differ from this by rounding only. Instances share no state: running one never affects another.",
 ["inputs", "histories", "configurations"], "all coefficients and all input histories (by induction over the filter state), orders 1 to 10, 12, 16 and 20; rounding sampled",
 "Tests compare one impulse response for each of a fixed set of designs.",
 [SP, SD], [("poly_design::filter", SP), ("poly_df2t_update", SD)], [("y_", "delay line of the transposed direct form II", SP)], ["poly_instance::operator()"])
prop("S02", "the second-order-section filter is the cascade of its sections for every history",
 "For every input sequence, a section-form filter instance outputs the composition, in order, of its sections, each section satisfying y[n] = b0*x[n]+b1*x[n-1]+b2*x[n-2]-a1*y[n-1]-a2*y[n-2] in exact arithmetic, starting from rest; computed in floating point, outputs differ from this by rounding only. Instances share no state.",
 ["inputs", "histories", "configurations"], "all section coefficients and all input histories, 1 to 10 sections; rounding sampled",
 "Tests compare one impulse response for each of a fixed set of designs.",
 [SS, SD], [("sos_section::filter", SS), ("filter_chain", SD)], [("state_", "per-section delay line", SS)], ["sos_instance::operator()"])
prop("S03", "second-order sections realise the polynomial design's transfer function",
 "For every conjugate-symmetric set of poles, zeros and gain a prototype can deliver, the product of the sections' transfer functions equals the polynomial-form transfer function in exact arithmetic: every pole and zero is used exactly once, conjugates stay together so all coefficients are real, and the gain appears exactly once (or is split evenly when distributed).",
 ["inputs", "configurations"], "symbolic pole/zero positions in every relative order of distance to the unit circle, orders 1 to 4, real and complex mixes, both gain modes; orders 5 to 16 in listed layouts or with fixed roots",
 "Tests check the four built-in prototypes at one cutoff; the pairing code branches on the relative position of poles and zeros.",
 [SD, SS], [("zpk_to_sos", SD), ("unit_circle_distance*_less/distance_*_less", SD)], [], ["design::sos", "sos_section::a/b"])
prop("S04", "low-pass and high-pass designs are exact frequency transforms of the prototype",
 "In exact arithmetic, the transfer function of lowpass(p, f) is the prototype's at s = (4(z-1)/(z+1))/w, and that of highpass(p, f) the prototype's at s = w/(4(z-1)/(z+1)), with w = 4*tan(pi*f/fs) the pre-warped cutoff. Hence the response at zero frequency (low-pass) or at half the sample rate (high-pass) is the prototype's at s = 0, and the response at the cutoff is the prototype's at s = j.",
 ["inputs", "configurations"], "every sample rate, cutoff, gain and conjugate-symmetric pole/zero position; prototype orders 1 to 8 in listed root layouts with fewer or as many zeros; orders to 12 with fixed roots",
 "Tests use one sample rate and one or two cutoffs.",
 [SF, SD], [("lowpass_zpk/highpass_zpk", SD), ("bilinear_zpk", SD), ("warp_frequency", SD)], [], ["iirfilter::lowpass", "iirfilter::highpass", "design::poly"])
prop("S05", "Butterworth and Chebyshev prototypes are the textbook ones at every ripple",
 "For every order and every ripple, in exact arithmetic, the Butterworth, Chebyshev I and Chebyshev II prototypes have exactly the textbook analog poles, zeros and gain: Butterworth poles equally spaced on the left unit half-circle with unit gain; Chebyshev poles on the ellipse (or its inverse) fixed by the ripple, Chebyshev II zeros on the imaginary axis, and a gain making the response at zero frequency 1 (or one ripple below 1 for Chebyshev I of even order).",
 ["inputs", "configurations"], "orders 1 to 20, every ripple value (symbolic), trigonometric functions by their algebraic laws",
 "Tests check three Butterworth orders and fixed ripple values for a few orders.",
 ["include/embedded/signal/butterworth.h", "include/embedded/signal/chebyshev.h", SD], [("butterworth_poles/theta", SD), ("chebyshev1/chebyshev2 specification", "include/embedded/signal/chebyshev.h")], [], ["spec().poles/zeros/gain"])
prop("S06", "the Bessel prototype is the phase-normalised Bessel filter at every order",
 "For every order from 1 to 100 the tabulated Bessel poles are, to within double precision, the roots of the reverse Bessel polynomial of that order normalised to unit product, each exactly once, with exact conjugate pairs in the left half-plane, and the prototype has no zeros and unit gain.",
 ["configurations"], "all 100 orders and all 5050 poles",
 "Tests use orders 1, 2, 3, 4, 5, 9 and 48; the other 93 tables are never looked at.",
 ["include/embedded/signal/detail/bessel_poles.h", "include/embedded/signal/bessel.h"], [("bessel_poles", "include/embedded/signal/detail/bessel_poles.h")], [], ["bessel<N>().spec<double>()"])
prop("S07", "designs from stable prototypes are stable",
 "For every sample rate and every cutoff below half of it, a prototype pole strictly inside the left half-plane becomes a digital pole strictly inside the unit circle, for low-pass and high-pass, in exact arithmetic, and every section of the second-order form of such a design is stable.",
 ["inputs", "configurations"], "all poles with negative real part, all cutoffs between 0 and half the sample rate; whole designs of orders 1 to 8 and sections of orders 1 to 4 in the listed root layouts; orders to 12 with fixed roots",
 "Stability is an inequality over a continuum of pole positions and cutoffs; tests have one cutoff and check impulse responses only.",
 [SD, SF], [("bilinear_zp", SD), ("lowpass_zpk/highpass_zpk", SD)], [], ["design::poly().a()", "design::sos().sos()"])
prop("D01", "debug coefficient records describe their design exactly",
 "A debug record of a filter design carries the fixed magic and version, the structure and value type of the design, its own total length in bytes, the given name cut to fit and always zero-terminated, and a bit-exact copy of the design's coefficients.",
 ["inputs", "configurations"], "all coefficient values; polynomial and section designs in float and double; names below, at and above the field size",
 "No test or built source includes the header.",
 ["include/embedded/signal/detail/debug_filter_coefs.h", "include/embedded/signal/debug_filter_coefs.h"], [("filter_debug_header", "include/embedded/signal/detail/debug_filter_coefs.h"), ("filter_design_debug", "include/embedded/signal/detail/debug_filter_coefs.h")], [], ["filter_design_debug"])
prop("R01", "no library operation allocates memory or depends on hidden global state",
 "No operation of the varint, circular buffer, function, lock guard, move wrapper, math or filter components allocates or frees dynamic memory (throwing an error apart), and none writes to a global or static variable. All state lives in the caller's objects, so distinct objects are independent.",
 ["inputs", "programs"], "all functions of the library reachable from its public operations, all paths",
 "Absence of an effect on all paths cannot be observed by sampling; no test checks it.",
 ["include/embedded"], [("in-place storage", F), ("placement new", B)], [], ["operator new/malloc", "global variables"])
prop("T01", "compile-time sequences, type lists and traits equal their definitions",
 "integer sequences and ranges contain exactly the integers of their range in order, typelist append/to concatenate and re-wrap exactly the given types, and conjunction and is_invocable_r equal the logical conjunction and the call-well-formedness they are named after.",
 ["programs", "configurations"], "all lengths, ranges, type packs and callables",
 "Tests instantiate a few packs; the quantifier is over types.",
 ["include/embedded/utility/integer_sequence.h", "include/embedded/typelist.h", "include/embedded/type_traits/conjunction.h", "include/embedded/type_traits/is_invocable.h"],
 [("make_integer_range", "include/embedded/utility/integer_sequence.h"), ("typelist", "include/embedded/typelist.h")])
prop("X01", "designed coefficients are accurate to the stated floating-point precision",
 "For every design reachable through the public interface the computed coefficients differ from the mathematically exact ones by no more than a small multiple of the value type's rounding error.",
 ["inputs", "configurations"], "all prototypes, orders, ripples, cutoffs and value types",
 "Tests compare a fixed set of designs with reference values.",
 [SD, SF], [("zpk_to_sos", SD), ("poly", POLY)])
prop("X02", "the variant header re-exports a complete variant",
 "embedded::variant offers, unchanged, the whole variant interface of the bundled third-party implementation.",
 ["programs"], "all uses of variant through the library",
 "The bundled implementation is absent here and its test is not built.",
 ["include/embedded/variant.h"], [("using namespace mpark", "include/embedded/variant.h")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for p in P:
        if len(p["title"]) > 80: print(p["id"], len(p["title"]), p["title"])
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")

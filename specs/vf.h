// Contract intrinsics.  The same contract text is read by the deductive verifier (the vf_* calls are interpreted by
// /verif/engine over the LLVM IR of this file and of the real headers) and, compiled natively with g++, is used to replay
// counterexamples against the real code (engine/native.cpp).
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" {
// universally quantified inputs
uint8_t vf_u8(const char* name);
uint16_t vf_u16(const char* name);
uint32_t vf_u32(const char* name);
uint64_t vf_u64(const char* name);
bool vf_bool(const char* name);
size_t vf_idx(const char* name, size_t lo, size_t hi);  // mathematical integer lo..hi
double vf_real(const char* name);                       // exact real number
double vf_f64(const char* name);                        // any IEEE double, including NaN and infinities
void* vf_mem(const char* name, size_t count, size_t cell, size_t leaf);  // memory of `count` cells, arbitrary content
uint8_t* vf_buf(const char* name, size_t len);          // byte buffer of symbolic length, arbitrary content
uint8_t vf_old8(const void* p);                         // content at the start of the contract
uint16_t vf_old16(const void* p);
uint32_t vf_old32(const void* p);
uint64_t vf_old64(const void* p);
// requires / ensures
void vf_assume(bool c);
void vf_ensure(const char* label, bool c);
void vf_ensure_inv(const char* label, bool c);          // representation invariant (proof internal)
void vf_expect(const char* label);                      // vacuity guard: the label must be reached on some path
void vf_reach(const char* label);
void vf_note(const char* text);
bool vf_symbolic();
void vf_assume_divisors();                              // divisors are assumed non-zero from here on (recorded as an assumption)
// branch-free logic for contract text
size_t vf_ite(bool c, size_t a, size_t b);
bool vf_and(bool a, bool b);
bool vf_or(bool a, bool b);
bool vf_implies(bool a, bool b);
bool vf_bytes_eq(const void* p, const void* q, size_t n);
bool vf_req(double a, double b);                        // equality of real numbers
void vf_tolerance(double t);                            // native replay only: vf_req's relative tolerance in this contract
double vf_signal(const char* name);                      // an arbitrary real; native runs give all signals of a contract a common magnitude
void vf_wide();               // native runs also try inputs of very different magnitudes (no effect on the proof)
// every floating-point value stored in the object becomes arbitrary, except those equal to keep (n and elem in bytes)
void vf_any_reals(const char* name, void* p, size_t n, size_t elem, double keep);
void vf_record(const char* name, double v);             // value handed to an arithmetic back end of the driver
void* vf_opaque(void* p);                               // p, unknown to the optimiser
// ghost boolean maps over memory cells
void vf_ghost_ring(int chan, const void* base, size_t cell, size_t first, size_t n, size_t cap);
bool vf_ghost_get(int chan, const void* p, size_t cell);
void vf_ghost_set(int chan, const void* p, size_t cell, bool v);
}

template <typename T> struct vf_any;
template <> struct vf_any<uint8_t> { static uint8_t get(const char* n) { return vf_u8(n); } static uint8_t old(const void* p) { return vf_old8(p); } };
template <> struct vf_any<uint16_t> { static uint16_t get(const char* n) { return vf_u16(n); } static uint16_t old(const void* p) { return vf_old16(p); } };
template <> struct vf_any<uint32_t> { static uint32_t get(const char* n) { return vf_u32(n); } static uint32_t old(const void* p) { return vf_old32(p); } };
template <> struct vf_any<uint64_t> { static uint64_t get(const char* n) { return vf_u64(n); } static uint64_t old(const void* p) { return vf_old64(p); } };

#define VF_CONTRACT(name) extern "C" void vc_##name()

// A stand-in for libsimdpp, which is not installed here: the part of its interface which
// cppcore uses, with plain loops. VERIF_SIMD=1 selects the vectorized code of cppcore (as
// for SSE2), otherwise cppcore uses its generic (scalar) code, as with the null backend.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <emmintrin.h>
#include <xmmintrin.h>

#if defined(VERIF_SIMD) && VERIF_SIMD
# define SIMDPP_USE_NULL 0
# define SIMDPP_USE_SSE2 1
#else
# define SIMDPP_USE_NULL 1
# define SIMDPP_USE_SSE2 0
#endif
#define SIMDPP_USE_SSE3 0
#define SIMDPP_USE_AVX 0
#define SIMDPP_USE_AVX2 0
#define SIMDPP_USE_FMA3 0

namespace simdpp {

template<class T, unsigned N, unsigned BaseN, class Self, class Base>
struct vec_base {
    using element_type = T;
    using base_vector_type = Base;
    static constexpr unsigned length = N;
    static constexpr unsigned base_length = BaseN;
    static constexpr unsigned vec_length = N / BaseN;
    alignas(16) T e[N];
    Self const& eval() const { return static_cast<Self const&>(*this); }
};

template<unsigned N, class E = void> struct float32;
template<unsigned N, class E = void> struct float64;
template<unsigned N, class E = void> struct uint32;
template<unsigned N, class E = void> struct uint64;

template<unsigned N>
struct float32<N, void> : vec_base<float, N, 4, float32<N, void>, float32<4, void>> {
    float32() = default;
    float32<4, void>& vec(unsigned i) { return reinterpret_cast<float32<4, void>*>(this)[i]; }
};
template<>
struct float32<4, void> : vec_base<float, 4, 4, float32<4, void>, float32<4, void>> {
    float32() = default;
    float32(__m128 v) { _mm_store_ps(e, v); }
    float32& vec(unsigned) { return *this; }
};
template<unsigned N>
struct float64<N, void> : vec_base<double, N, 2, float64<N, void>, float64<2, void>> {
    float64() = default;
    float64<2, void>& vec(unsigned i) { return reinterpret_cast<float64<2, void>*>(this)[i]; }
};
template<>
struct float64<2, void> : vec_base<double, 2, 2, float64<2, void>, float64<2, void>> {
    float64() = default;
    float64(__m128d v) { _mm_store_pd(e, v); }
    float64& vec(unsigned) { return *this; }
};
template<unsigned N>
struct uint32<N, void> { std::uint32_t e[N]; };
template<unsigned N>
struct uint64<N, void> { std::uint64_t e[N]; };

using float32x4 = float32<4>;
using float32x8 = float32<8>;
using float64x2 = float64<2>;
using float64x4 = float64<4>;

#define VERIF_SIMD_BINARY(NAME, OP) \
    template<unsigned N> float32<N> NAME(float32<N> const& a, float32<N> const& b) { \
        float32<N> r; for (unsigned i = 0; i < N; ++i) { r.e[i] = a.e[i] OP b.e[i]; } return r; } \
    template<unsigned N> float64<N> NAME(float64<N> const& a, float64<N> const& b) { \
        float64<N> r; for (unsigned i = 0; i < N; ++i) { r.e[i] = a.e[i] OP b.e[i]; } return r; }
VERIF_SIMD_BINARY(operator+, +)
VERIF_SIMD_BINARY(operator-, -)
VERIF_SIMD_BINARY(operator*, *)
#undef VERIF_SIMD_BINARY
template<unsigned N> float32<N> operator*(float s, float32<N> const& a) {
    float32<N> r; for (unsigned i = 0; i < N; ++i) { r.e[i] = s * a.e[i]; } return r; }
template<unsigned N> float64<N> operator*(double s, float64<N> const& a) {
    float64<N> r; for (unsigned i = 0; i < N; ++i) { r.e[i] = s * a.e[i]; } return r; }

template<template<unsigned, class> class V, unsigned N>
V<N, void> neg(V<N, void> const& a) {
    V<N, void> r; for (unsigned i = 0; i < N; ++i) { r.e[i] = -a.e[i]; } return r; }

template<unsigned S0, unsigned S1, unsigned S2, unsigned S3, template<unsigned, class> class V, unsigned N>
V<N, void> shuffle4x2(V<N, void> const& a, V<N, void> const& b) {
    unsigned const s[4] = {S0, S1, S2, S3};
    V<N, void> r;
    for (unsigned i = 0; i < N; ++i) {
        auto const k = s[i % 4];
        auto const j = i - i % 4 + k % 4;
        r.e[i] = k < 4 ? a.e[j] : b.e[j];
    }
    return r;
}

template<unsigned S0, unsigned S1, template<unsigned, class> class V, unsigned N>
V<N, void> permute2(V<N, void> const& a) {
    V<N, void> r;
    for (unsigned i = 0; i < N; i += 2) { r.e[i] = a.e[i + S0]; r.e[i + 1] = a.e[i + S1]; }
    return r;
}

template<unsigned N> float32<N> bit_xor(float32<N> const& a, uint32<N> const& b) {
    float32<N> r;
    for (unsigned i = 0; i < N; ++i) {
        std::uint32_t x; std::memcpy(&x, &a.e[i], 4); x ^= b.e[i]; std::memcpy(&r.e[i], &x, 4);
    }
    return r;
}
template<unsigned N> float64<N> bit_xor(float64<N> const& a, uint64<N> const& b) {
    float64<N> r;
    for (unsigned i = 0; i < N; ++i) {
        std::uint64_t x; std::memcpy(&x, &a.e[i], 8); x ^= b.e[i]; std::memcpy(&r.e[i], &x, 8);
    }
    return r;
}

template<class V> V make_uint(std::uint64_t a, std::uint64_t b) {
    V r;
    for (unsigned i = 0; i < sizeof(r.e) / sizeof(r.e[0]); ++i) { r.e[i] = (i % 2 == 0) ? a : b; }
    return r;
}
template<class V> V make_float(double x) {
    V r; for (auto& v : r.e) { v = static_cast<typename V::element_type>(x); } return r; }

template<class V> V load_u(void const* p) { V r; std::memcpy(r.e, p, sizeof(r.e)); return r; }
template<class V> void store_u(void* p, V const& v) { std::memcpy(p, v.e, sizeof(v.e)); }
inline void check_aligned(void const* p) {
    if (reinterpret_cast<std::uintptr_t>(p) % 16 != 0) {
        std::fprintf(stderr, "unaligned access\n");
        std::abort();
    }
}
template<class V> V load(void const* p) { check_aligned(p); return load_u<V>(p); }
template<class V> void store(void* p, V const& v) { check_aligned(p); store_u(p, v); }
template<class V> V load_splat(void const* p) {
    typename V::element_type x; std::memcpy(&x, p, sizeof(x)); return make_float<V>(x); }

/// (a0 a1 | b0 b1) -> (a0 b0 | a1 b1) for every pair of elements
template<template<unsigned, class> class V, unsigned N>
void transpose2(V<N, void>& a, V<N, void>& b) {
    for (unsigned i = 0; i < N; i += 2) { std::swap(a.e[i + 1], b.e[i]); }
}
template<template<unsigned, class> class V, unsigned N>
typename V<N, void>::element_type reduce_add(V<N, void> const& a) {
    typename V<N, void>::element_type s = 0;
    for (auto v : a.e) { s += v; }
    return s;
}
template<class To, class From> To bit_cast(From const& a) {
    static_assert(sizeof(To) == sizeof(From), "");
    To r; std::memcpy(r.e, a.e, sizeof(a.e)); return r;
}
template<class V> V fmadd(V const& a, V const& b, V const& c) { return a * b + c; }

} // namespace simdpp

// Common to shortvec_h.cpp and terms_h.cpp: what the back ends offer, and how exact they are.
#ifndef VERIF_SHORTVEC_COMMON_HPP
#define VERIF_SHORTVEC_COMMON_HPP
#include <cmath>
#include <limits>
#include <type_traits>
#include <utility>
#include <libflatarray/flat_array.hpp>
#include <libflatarray/alignment.hpp>
#include <libflatarray/short_vec.hpp>
#include <libflatarray/streaming_short_vec.hpp>
using namespace LibFlatArray;

static const long UNIT = 256, NAN_ = 900000001, INF_ = 900000002, NINF = 900000003, NZERO = 900000004;

// ---------------------------------------------------------------- lanes
template<typename T> struct Lane
{
    static T make(long n)
    {
        switch (n) {
        case NAN_:  return std::numeric_limits<T>::quiet_NaN();
        case INF_:  return std::numeric_limits<T>::infinity();
        case NINF:  return -std::numeric_limits<T>::infinity();
        case NZERO: return T(-0.0);
        }
        return T(n) / T(UNIT);
    }
    static bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
};
template<> struct Lane<int>
{
    static int make(long n) { return int(n); }
    static bool same(int a, int b) { return a == b; }
};

// ---------------------------------------------------------------- back end specifics
// relative errors allowed for quotients: reciprocal approximations have 12 (AVX) or 14 (AVX-512) bits
template<typename T, std::size_t A> struct Tolerance { static double div() { return 0; } static double root() { return 0; } static double oversqrt() { return 4 * double(std::numeric_limits<T>::epsilon()); } };
template<std::size_t A> struct Tolerance<float, A>
{
    static double div()
    {
#if (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_AVX) || (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_AVX2) || (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_AVX512F)
        return A >= 8 ? 1.0 / 2048 : 0;
#elif LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_ARM_NEON
        return A >= 4 ? 1.0 / 8192 : 0;
#elif LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_MIC
        return A >= 16 ? 4 * 1.2e-7 : 0;
#else
        return 0;
#endif
    }
    static double root()
    {
#if LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_ARM_NEON
        return A >= 4 ? 1.0 / 8192 : 0;
#else
        return 0;
#endif
    }
    static double oversqrt()
    {
#if LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_SCALAR
        return 4 * 1.2e-7;
#else
        return A >= 4 ? 1.0 / 2048 : 4 * 1.2e-7;
#endif
    }
};

// Back ends on which vectors of some types offer less: no size(), any(), [] and blend(), and
// (except for NEON with four floats) no comparisons
#if LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_ARM_NEON
template<typename T, std::size_t A> struct Basic { static const bool VALUE = std::is_same<T, float>::value && A >= 4; static const bool COMPARES = A == 4; };
#elif LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_MIC
template<typename T, std::size_t A> struct Basic { static const bool VALUE = (std::is_same<T, float>::value && A >= 16) || (std::is_same<T, double>::value && A >= 8); static const bool COMPARES = false; };
#else
template<typename T, std::size_t A> struct Basic { static const bool VALUE = false; static const bool COMPARES = false; };
#endif
// (MIC fetches offsets by cache lines)
#if LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_MIC
template<std::size_t A> struct OFFSETS { static const std::size_t N = A < 16 ? 16 : A; };
#else
template<std::size_t A> struct OFFSETS { static const std::size_t N = A; };
#endif
template<typename V, bool BASIC> struct SizeOf { static std::size_t value() { return V::size(); } };
template<typename V> struct SizeOf<V, true> { static std::size_t value() { return V::ARITY; } };

// integer vectors have no comparisons, blends, any() and operator[] (except for a single lane)
#ifndef VERIF_NO_MASKS
#define VERIF_NO_MASKS(T, A) ((std::is_same<T, int>::value && A > 1) || Basic<T, A>::VALUE)
#endif
template<typename V, typename T, std::size_t A, bool MASKS, bool BLENDS> struct MaskUnit;

template<typename V, typename T, std::size_t A> struct MaskUnit<V, T, A, false, false>
{
    bool valid = false;
    static bool can_blend() { return false; }
    bool compare(const std::string&, const V&, const V&) { return false; }
    bool compare_s(const std::string&, const V&, T) { return false; }
    bool lane(const V&, int, T&) { return false; }
    bool any(const V&, bool&, int) { return false; }
    bool bit(int) { return false; }
    bool any_mask(bool&) { return false; }
    bool count(long&) { return false; }
    bool blend(V&, const V&) { return false; }
    bool blend_f(V&, const V&, const V&) { return false; }
    bool blend_s(V&, T) { return false; }
};
// comparisons only
template<typename V, typename T, std::size_t A> struct MaskUnit<V, T, A, false, true> : MaskUnit<V, T, A, false, false>
{
    typename V::mask_type m;
    bool compare(const std::string& op, const V& a, const V& b)
    {
        this->valid = true;
        if (op == "<")  m = (a <  b); else if (op == "<=") m = (a <= b); else if (op == "==") m = (a == b); else if (op == ">=") m = (a >= b); else m = (a > b);
        return true;
    }
    bool compare_s(const std::string& op, const V& a, T b) { return compare(op, a, V(b)); }
    bool bit(int i) { unsigned w; memcpy(&w, (const char*)&m + i * sizeof(T), sizeof(w)); return w == ~0u; }
};
template<typename V, typename T, std::size_t A> struct MaskUnit<V, T, A, true, false> : MaskUnit<V, T, A, false, false>
{
    decltype(std::declval<const V&>() < std::declval<const V&>()) m;
    bool compare(const std::string& op, const V& a, const V& b)
    {
        this->valid = true;
        if (op == "<")  { m = (a <  b); return true; }
        if (op == "<=") { m = (a <= b); return true; }
        if (op == "==") { m = (a == b); return true; }
        if (op == ">=") { m = (a >= b); return true; }
        if (op == ">")  { m = (a >  b); return true; }
        std::cerr << "HARNESS: comparison " << op << "\n"; exit(3);
    }
    bool compare_s(const std::string& op, const V& a, T b)
    {
        this->valid = true;
        if (op == "<")  { m = (a <  V(b)); return true; }
        if (op == "<=") { m = (a <= V(b)); return true; }
        if (op == "==") { m = (a == V(b)); return true; }
        if (op == ">=") { m = (a >= V(b)); return true; }
        m = (a > V(b)); return true;
    }
    bool lane(const V& v, int i, T& r) { r = flavour(2) ? T(v[i]) : T(get(v, i)); return true; }
    bool any(const V& v, bool& r, int f) { r = f ? bool(v.any()) : bool(LibFlatArray::any(v)); return true; }
    bool bit(int i) { return get(m, i) != 0; }
    bool any_mask(bool& r) { r = bool(LibFlatArray::any(m)); return true; }
};
template<typename V, typename T, std::size_t A> struct MaskUnit<V, T, A, true, true> : MaskUnit<V, T, A, true, false>
{
    typedef typename V::mask_type mask_type;
    static bool can_blend() { return true; }
    bool count(long& r) { r = long(count_mask<T, A>(mask_type(this->m))); return true; }
    bool blend(V& r, const V& b) { mask_type k = this->m; r.blend(k, b); return true; }
    bool blend_f(V& r, const V& a, const V& b) { r = LibFlatArray::blend(a, b, this->m); return true; }
    bool blend_s(V& r, T b) { r.blend(this->m, b); return true; }
};

template<typename V, typename T, std::size_t... I> V from_list(const T *d, std::index_sequence<I...>) { V v{d[I]...}; return v; }

#ifdef STREAMING
template<typename T, std::size_t A> using VecOf = streaming_short_vec<T, A>;
#else
template<typename T, std::size_t A> using VecOf = short_vec<T, A>;
#endif
#endif

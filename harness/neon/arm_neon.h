// The ARM NEON intrinsics which the library uses (and their close relatives) in plain C++,
// following ARM's specification (estimates: the 8 bit tables' algorithm).
#ifndef VERIF_ARM_NEON_H
#define VERIF_ARM_NEON_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>

typedef float    float32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t  __attribute__((vector_size(16)));
typedef int32_t  int32x4_t   __attribute__((vector_size(16)));
typedef float    float32_t;

namespace verif_neon {
inline float recpe(float f)
{
    if (std::isnan(f)) return f;
    if (std::isinf(f)) return std::signbit(f) ? -0.0f : 0.0f;
    if (std::fabs(f) < 1.0e-38f) return std::copysign(std::numeric_limits<float>::infinity(), f);
    int e; double m = std::frexp(std::fabs(double(f)), &e);           // [0.5, 1)
    long a = long(m * 512.0);                                         // 256..511
    double r = 1.0 / ((double(a) + 0.5) / 512.0);
    r = double(long(256.0 * r + 0.5)) / 256.0;                        // 8 bits
    return float(std::copysign(std::ldexp(r, -e), double(f)));
}
inline float rsqrte(float f)
{
    if (std::isnan(f)) return f;
    if (std::fabs(f) < 1.0e-38f) return std::copysign(std::numeric_limits<float>::infinity(), f);
    if (std::signbit(f)) return std::numeric_limits<float>::quiet_NaN();
    if (std::isinf(f)) return 0.0f;
    int e; double m = std::frexp(double(f), &e);
    if (e & 1) { m *= 0.5; e += 1; }                                  // [0.25, 1), even exponent
    double a = m < 0.5 ? (double(long(m * 512.0)) + 0.5) / 512.0 : (double(long(m * 256.0)) + 0.5) / 256.0;
    double r = 1.0 / std::sqrt(a);
    r = double(long(256.0 * r + 0.5)) / 256.0;
    return float(std::ldexp(r, -e / 2));
}
inline bool zero_inf(float a, float b) { return (a == 0 && std::isinf(b)) || (b == 0 && std::isinf(a)); }
inline float recps(float a, float b)  { return zero_inf(a, b) ? 2.0f : float(2.0 - double(a) * double(b)); }
inline float rsqrts(float a, float b) { return zero_inf(a, b) ? 1.5f : float((3.0 - double(a) * double(b)) / 2.0); }
template<typename V, typename F> inline V map1(V a, F f) { V r; for (int i = 0; i < 4; ++i) r[i] = f(a[i]); return r; }
template<typename V, typename F> inline V map2(V a, V b, F f) { V r; for (int i = 0; i < 4; ++i) r[i] = f(a[i], b[i]); return r; }
template<typename F> inline uint32x4_t cmp(float32x4_t a, float32x4_t b, F f) { uint32x4_t r; for (int i = 0; i < 4; ++i) r[i] = f(a[i], b[i]) ? ~uint32_t(0) : 0; return r; }
}

inline float32x4_t vdupq_n_f32(float32_t v) { return float32x4_t{v, v, v, v}; }
inline uint32x4_t  vdupq_n_u32(uint32_t v)  { return uint32x4_t{v, v, v, v}; }
inline float32x4_t vld1q_f32(const float32_t *p) { float32x4_t r; std::memcpy(&r, p, 16); return r; }
inline void        vst1q_f32(float32_t *p, float32x4_t v) { std::memcpy(p, &v, 16); }
inline uint32x4_t  vld1q_u32(const uint32_t *p) { uint32x4_t r; std::memcpy(&r, p, 16); return r; }
inline void        vst1q_u32(uint32_t *p, uint32x4_t v) { std::memcpy(p, &v, 16); }
inline float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
inline float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
inline float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
inline float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { return verif_neon::map2(a, b, [](float x, float y) { return std::isnan(x) || std::isnan(y) ? std::numeric_limits<float>::quiet_NaN() : x > y ? x : y; }); }
inline float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { return verif_neon::map2(a, b, [](float x, float y) { return std::isnan(x) || std::isnan(y) ? std::numeric_limits<float>::quiet_NaN() : x < y ? x : y; }); }
inline float32x4_t vsqrtq_f32(float32x4_t a) { return verif_neon::map1(a, [](float x) { return std::sqrt(x); }); }
inline float32x4_t vrecpeq_f32(float32x4_t a)  { return verif_neon::map1(a, verif_neon::recpe); }
inline float32x4_t vrsqrteq_f32(float32x4_t a) { return verif_neon::map1(a, verif_neon::rsqrte); }
inline float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)  { return verif_neon::map2(a, b, verif_neon::recps); }
inline float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b) { return verif_neon::map2(a, b, verif_neon::rsqrts); }
inline uint32x4_t  vcltq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return x <  y; }); }
inline uint32x4_t  vcleq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return x <= y; }); }
inline uint32x4_t  vceqq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return x == y; }); }
inline uint32x4_t  vcgeq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return x >= y; }); }
inline uint32x4_t  vcgtq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return x >  y; }); }
// absolute values
inline uint32x4_t  vcaleq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return std::fabs(x) <= std::fabs(y); }); }
inline uint32x4_t  vcaltq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return std::fabs(x) <  std::fabs(y); }); }
inline uint32x4_t  vcageq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return std::fabs(x) >= std::fabs(y); }); }
inline uint32x4_t  vcagtq_f32(float32x4_t a, float32x4_t b) { return verif_neon::cmp(a, b, [](float x, float y) { return std::fabs(x) >  std::fabs(y); }); }
inline uint32x4_t  vceqq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a == b); }
inline uint32x4_t  vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
inline uint32x4_t  vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
inline uint32x4_t  veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
inline uint32x4_t  vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
inline uint32x4_t  vmvnq_u32(uint32x4_t a) { return ~a; }
inline uint32x4_t  vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
inline float32x4_t vreinterpretq_f32_u32(uint32x4_t a)  { return (float32x4_t)a; }
inline float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
#define vgetq_lane_f32(v, i) ((v)[i])
#define vgetq_lane_u32(v, i) ((v)[i])
#define vsetq_lane_f32(x, v, i) (verif_set_lane(x, v, i))
inline float32x4_t verif_set_lane(float32_t x, float32x4_t v, int i) { v[i] = x; return v; }
#endif

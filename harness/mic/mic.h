// Intrinsics of Knights Corner which AVX-512F lacks, as specified by Intel: unaligned access
// goes through the two cache lines which an operand overlaps.
#ifndef VERIF_MIC_H
#define VERIF_MIC_H
#include <immintrin.h>
#include <cmath>
#include <cstdint>
#include <cstring>
namespace verif_mic {
template<typename V, typename E> inline V unpacklo(V v, const E *p)
{
    std::uintptr_t a = (std::uintptr_t)p, end = (a / 64 + 1) * 64;
    E e[64 / sizeof(E)]; std::memcpy(e, &v, 64);
    for (std::size_t i = 0; a + i * sizeof(E) < end; ++i) e[i] = p[i];
    std::memcpy(&v, e, 64); return v;
}
// p: 64 bytes behind the operand's beginning
template<typename V, typename E> inline V unpackhi(V v, const E *p)
{
    std::uintptr_t a = (std::uintptr_t)p, begin = a / 64 * 64;
    const std::size_t n = 64 / sizeof(E);
    E e[n]; std::memcpy(e, &v, 64);
    for (std::size_t i = 0; i < n; ++i) if (a - (n - i) * sizeof(E) >= begin && a - (n - i) * sizeof(E) < a) e[i] = p[std::ptrdiff_t(i) - std::ptrdiff_t(n)];
    std::memcpy(&v, e, 64); return v;
}
template<typename V, typename E> inline void packlo(E *p, V v)
{
    std::uintptr_t a = (std::uintptr_t)p, end = (a / 64 + 1) * 64;
    E e[64 / sizeof(E)]; std::memcpy(e, &v, 64);
    for (std::size_t i = 0; a + i * sizeof(E) < end; ++i) p[i] = e[i];
}
template<typename V, typename E> inline void packhi(E *p, V v)
{
    std::uintptr_t a = (std::uintptr_t)p, begin = a / 64 * 64;
    const std::size_t n = 64 / sizeof(E);
    E e[n]; std::memcpy(e, &v, 64);
    for (std::size_t i = 0; i < n; ++i) if (a - (n - i) * sizeof(E) >= begin) p[std::ptrdiff_t(i) - std::ptrdiff_t(n)] = e[i];
}
inline void aligned(const void *p) { if ((std::uintptr_t)p % 64) __builtin_trap(); }
}
inline __m512d _mm512_loadunpacklo_pd(__m512d v, const void *p) { return verif_mic::unpacklo(v, (const double*)p); }
inline __m512d _mm512_loadunpackhi_pd(__m512d v, const void *p) { return verif_mic::unpackhi(v, (const double*)p); }
inline __m512  _mm512_loadunpacklo_ps(__m512 v, const void *p)  { return verif_mic::unpacklo(v, (const float*)p); }
inline __m512  _mm512_loadunpackhi_ps(__m512 v, const void *p)  { return verif_mic::unpackhi(v, (const float*)p); }
inline __m512i _mm512_loadunpacklo_epi32(__m512i v, const void *p) { return verif_mic::unpacklo(v, (const int*)p); }
inline __m512i _mm512_loadunpackhi_epi32(__m512i v, const void *p) { return verif_mic::unpackhi(v, (const int*)p); }
inline void _mm512_packstorelo_pd(void *p, __m512d v) { verif_mic::packlo((double*)p, v); }
inline void _mm512_packstorehi_pd(void *p, __m512d v) { verif_mic::packhi((double*)p, v); }
inline void _mm512_packstorelo_ps(void *p, __m512 v)  { verif_mic::packlo((float*)p, v); }
inline void _mm512_packstorehi_ps(void *p, __m512 v)  { verif_mic::packhi((float*)p, v); }
inline void _mm512_storenr_pd(void *p, __m512d v) { verif_mic::aligned(p); std::memcpy(p, &v, 64); }
inline void _mm512_storenr_ps(void *p, __m512 v)  { verif_mic::aligned(p); std::memcpy(p, &v, 64); }
inline __m512d _mm512_i32logather_pd(__m512i o, const void *p, int s)
{
    int k[16]; double e[8]; std::memcpy(k, &o, 64);
    for (int i = 0; i < 8; ++i) std::memcpy(e + i, (const char*)p + long(k[i]) * s, 8);
    __m512d r; std::memcpy(&r, e, 64); return r;
}
inline void _mm512_i32loscatter_pd(void *p, __m512i o, __m512d v, int s)
{
    int k[16]; double e[8]; std::memcpy(k, &o, 64); std::memcpy(e, &v, 64);
    for (int i = 0; i < 8; ++i) std::memcpy((char*)p + long(k[i]) * s, e + i, 8);
}
typedef int verif_perm128;
// selectors: two bits per destination lane (_MM_PERM_DCBA = 0xE4)
inline __m512i _mm512_permute4f128_epi32(__m512i v, int perm)
{
    char a[64], b[64]; std::memcpy(a, &v, 64);
    for (int i = 0; i < 4; ++i) std::memcpy(b + 16 * i, a + 16 * ((perm >> (2 * i)) & 3), 16);
    std::memcpy(&v, b, 64); return v;
}
inline __m512 _mm512_rcp23_ps(__m512 v)   { for (int i = 0; i < 16; ++i) v[i] = float(1.0 / double(v[i])); return v; }
inline __m512 _mm512_rsqrt23_ps(__m512 v) { for (int i = 0; i < 16; ++i) v[i] = float(1.0 / std::sqrt(double(v[i]))); return v; }
#endif

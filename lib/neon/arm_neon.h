// Stand-ins for the NEON intrinsics, with the semantics of the Arm reference, so that the NEON code
// path can be executed on any machine.
#pragma once
#include <cstdint>
#include <cstring>

typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));

#define NEON_STUB static inline __attribute__((unused))
NEON_STUB uint8x16_t vld1q_u8(const uint8_t* p)
{
    uint8x16_t r;
    memcpy(&r, p, 16);
    return r;
}
NEON_STUB uint8x16_t vdupq_n_u8(uint8_t n)
{
    uint8x16_t r;
    memset(&r, n, 16);
    return r;
}
NEON_STUB uint8x16_t vcltq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)(a < b); }
NEON_STUB uint8x16_t vceqq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16_t)(a == b); }
NEON_STUB uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) { return a | b; }
NEON_STUB uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) { return a & b; }
NEON_STUB uint8_t vmaxvq_u8(uint8x16_t a)
{
    uint8_t m = 0;
    for (int i = 0; i < 16; ++i) m = a[i] > m ? a[i] : m;
    return m;
}
NEON_STUB uint8x8_t vshrn_n_u16(uint16x8_t a, int n)
{
    uint8x8_t r;
    for (int i = 0; i < 8; ++i) r[i] = (uint8_t)(a[i] >> n);
    return r;
}
NEON_STUB uint16x8_t vreinterpretq_u16_u8(uint8x16_t a) { return (uint16x8_t)a; }
NEON_STUB uint64x1_t vreinterpret_u64_u8(uint8x8_t a) { return (uint64x1_t)a; }
NEON_STUB uint64_t vget_lane_u64(uint64x1_t a, int i) { return a[i]; }

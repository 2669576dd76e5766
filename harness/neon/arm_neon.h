// A stand-in for the compiler's arm_neon.h: the intrinsics a byte scanner uses, lane by lane, so that the
// NEON back end can be run (and watched by the sanitizers) on another processor. Little endian lanes.
#pragma once
#include <stdint.h>
#include <string.h>
#define VT(name, T, N) \
  struct name          \
  {                    \
    T v[N];            \
  };
VT(uint8x16_t, uint8_t, 16)
VT(int8x16_t, int8_t, 16)
VT(uint16x8_t, uint16_t, 8)
VT(uint32x4_t, uint32_t, 4)
VT(uint64x2_t, uint64_t, 2)
VT(uint8x8_t, uint8_t, 8)
VT(uint16x4_t, uint16_t, 4)
VT(uint32x2_t, uint32_t, 2)
VT(uint64x1_t, uint64_t, 1)
#undef VT
#define EACH(N, expr)                 \
  for (int i = 0; i < N; i++)         \
    r.v[i] = expr;                    \
  return r;
#define SET(V, T, N, S, D)                                                         \
  static inline V vdupq_n_##S(T a) { V r; EACH(N, a) }                              \
  static inline V vmovq_n_##S(T a) { V r; EACH(N, a) }                              \
  static inline V vld1q_##S(const T *p) { V r; memcpy(r.v, p, sizeof r); return r; } \
  static inline void vst1q_##S(T *p, V a) { memcpy(p, a.v, sizeof a); }             \
  static inline V vandq_##S(V a, V b) { V r; EACH(N, T(a.v[i] & b.v[i])) }          \
  static inline V vorrq_##S(V a, V b) { V r; EACH(N, T(a.v[i] | b.v[i])) }          \
  static inline V veorq_##S(V a, V b) { V r; EACH(N, T(a.v[i] ^ b.v[i])) }          \
  static inline V vbicq_##S(V a, V b) { V r; EACH(N, T(a.v[i] & ~b.v[i])) }         \
  static inline V vornq_##S(V a, V b) { V r; EACH(N, T(a.v[i] | ~b.v[i])) }         \
  static inline V vceqq_##S(V a, V b) { V r; EACH(N, a.v[i] == b.v[i] ? T(~T(0)) : T(0)) } \
  static inline V vcgeq_##S(V a, V b) { V r; EACH(N, a.v[i] >= b.v[i] ? T(~T(0)) : T(0)) } \
  static inline V vcgtq_##S(V a, V b) { V r; EACH(N, a.v[i] > b.v[i] ? T(~T(0)) : T(0)) }  \
  static inline V vcleq_##S(V a, V b) { V r; EACH(N, a.v[i] <= b.v[i] ? T(~T(0)) : T(0)) } \
  static inline V vcltq_##S(V a, V b) { V r; EACH(N, a.v[i] < b.v[i] ? T(~T(0)) : T(0)) }  \
  static inline V vtstq_##S(V a, V b) { V r; EACH(N, (a.v[i] & b.v[i]) ? T(~T(0)) : T(0)) } \
  static inline V vaddq_##S(V a, V b) { V r; EACH(N, T(a.v[i] + b.v[i])) }          \
  static inline V vsubq_##S(V a, V b) { V r; EACH(N, T(a.v[i] - b.v[i])) }          \
  static inline V vminq_##S(V a, V b) { V r; EACH(N, a.v[i] < b.v[i] ? a.v[i] : b.v[i]) } \
  static inline V vmaxq_##S(V a, V b) { V r; EACH(N, a.v[i] > b.v[i] ? a.v[i] : b.v[i]) } \
  static inline V vmvnq_##S(V a) { V r; EACH(N, T(~a.v[i])) }                       \
  static inline T vgetq_lane_##S(V a, int i) { return a.v[i]; }                     \
  static inline T vmaxvq_##S(V a) { T m = a.v[0]; for (T x : a.v) m = x > m ? x : m; return m; } \
  static inline T vminvq_##S(V a) { T m = a.v[0]; for (T x : a.v) m = x < m ? x : m; return m; } \
  static inline T vaddvq_##S(V a) { T m = 0; for (T x : a.v) m = T(m + x); return m; }           \
  static inline D vget_low_##S(V a) { D r; memcpy(r.v, a.v, sizeof r); return r; }   \
  static inline D vget_high_##S(V a) { D r; memcpy(r.v, (char *)a.v + sizeof r, sizeof r); return r; } \
  static inline T vget_lane_##S(D a, int i) { return a.v[i]; }                      \
  static inline V vshlq_n_##S(V a, int n) { V r; EACH(N, T(a.v[i] << n)) }          \
  static inline V vshrq_n_##S(V a, int n) { V r; EACH(N, T(a.v[i] >> n)) }          \
  static inline V vbslq_##S(V m, V a, V b) { V r; EACH(N, T((m.v[i] & a.v[i]) | (~m.v[i] & b.v[i]))) }
SET(uint8x16_t, uint8_t, 16, u8, uint8x8_t)
SET(uint16x8_t, uint16_t, 8, u16, uint16x4_t)
SET(uint32x4_t, uint32_t, 4, u32, uint32x2_t)
SET(uint64x2_t, uint64_t, 2, u64, uint64x1_t)
#undef SET
#define CAST(A, a, B, b)                                                           \
  static inline B vreinterpretq_##b##_##a(A x) { B r; memcpy(r.v, x.v, sizeof r); return r; } \
  static inline A vreinterpretq_##a##_##b(B x) { A r; memcpy(r.v, x.v, sizeof r); return r; }
CAST(uint8x16_t, u8, uint16x8_t, u16)
CAST(uint8x16_t, u8, uint32x4_t, u32)
CAST(uint8x16_t, u8, uint64x2_t, u64)
CAST(uint8x16_t, u8, int8x16_t, s8)
CAST(uint16x8_t, u16, uint32x4_t, u32)
CAST(uint16x8_t, u16, uint64x2_t, u64)
CAST(uint32x4_t, u32, uint64x2_t, u64)
#undef CAST
#define CAST(A, a, B, b) \
  static inline B vreinterpret_##b##_##a(A x) { B r; memcpy(r.v, x.v, sizeof r); return r; }
CAST(uint8x8_t, u8, uint64x1_t, u64)
CAST(uint64x1_t, u64, uint8x8_t, u8)
CAST(uint8x8_t, u8, uint32x2_t, u32)
CAST(uint8x8_t, u8, uint16x4_t, u16)
#undef CAST
static inline uint8x8_t vshrn_n_u16(uint16x8_t a, int n) { uint8x8_t r; EACH(8, uint8_t(a.v[i] >> n)) }
static inline uint8x8_t vmovn_u16(uint16x8_t a) { uint8x8_t r; EACH(8, uint8_t(a.v[i])) }
static inline uint8x8_t vorr_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; EACH(8, uint8_t(a.v[i] | b.v[i])) }
static inline uint8x8_t vand_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; EACH(8, uint8_t(a.v[i] & b.v[i])) }
static inline uint8x8_t vpadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; EACH(8, uint8_t(i < 4 ? a.v[2 * i] + a.v[2 * i + 1] : b.v[2 * i - 8] + b.v[2 * i - 7])) }
static inline uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t x) { uint8x16_t r; EACH(16, x.v[i] < 16 ? t.v[x.v[i]] : uint8_t(0)) }
static inline uint8x16_t vextq_u8(uint8x16_t a, uint8x16_t b, int n) { uint8x16_t r; EACH(16, i + n < 16 ? a.v[i + n] : b.v[i + n - 16]) }
static inline uint8x16_t vcombine_u8(uint8x8_t a, uint8x8_t b) { uint8x16_t r; EACH(16, i < 8 ? a.v[i] : b.v[i - 8]) }
#undef EACH

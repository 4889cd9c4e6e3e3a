// Typical kernels written with the intrinsics of neon_sim.h, each compared with its scalar definition on random and extreme data.
// usage: kernels SEED RUNS ; prints one JSON line per kernel
#include "neon_sim.h"
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>

static uint64_t st[2];
static uint64_t mix(uint64_t& x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t rnd() { uint64_t a = st[0], b = st[1]; st[0] = b; a ^= a << 23; st[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return st[1] + b; }
static uint32_t ru(uint32_t n) { return (uint32_t)(((rnd() >> 32) * (uint64_t)n) >> 32); }
template <class T> static T edge() {                     // extreme values as often as random ones
    T v; switch (ru(6)) { case 0: v = (T)0; break; case 1: v = (T)~(T)0; break; case 2: v = (T)((T)1 << (sizeof(T) * 8 - 1)); break; case 3: v = (T)~((T)1 << (sizeof(T) * 8 - 1)); break; case 4: v = (T)(ru(5)); break; default: v = (T)rnd(); } return v;
}
template <class T> static void fill(T* p, int n) { int m = ru(3); for (int i = 0; i < n; i++) p[i] = m == 0 ? (T)rnd() : m == 1 ? edge<T>() : (T)(rnd() & 0xff); }
static float frand() { uint32_t b; float f; switch (ru(8)) { case 0: return (float)(int)(ru(2001)) - 1000; case 1: return 0.f; case 2: return -0.f; case 3: return (float)rnd(); case 4: b = (uint32_t)rnd() & 0xff7fffff; if ((b & 0x7f800000) == 0x7f800000) b ^= 0x40000000; memcpy(&f, &b, 4); return f; default: return ((float)(int32_t)rnd()) / 65536.f; } }
static void ffill(float* p, int n) { for (int i = 0; i < n; i++) p[i] = frand(); }
static bool feq(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y || (a != a && b != b); }

enum { N = 64 };
static const char* cur; static bool failed; static int reported;
static void bad(const char* d) { if (!failed && reported < 50) { printf("{\"bad\":\"%s\",\"detail\":\"%s\"}\n", cur, d); reported++; } failed = true; }
template <class T> static void expect(const T* got, const T* want, int n, const void* in, int nin) {
    for (int i = 0; i < n; i++) if (memcmp(got + i, want + i, sizeof(T))) {
        char b[256]; snprintf(b, sizeof b, "element %d is %.9g, the scalar definition gives %.9g", i, (double)got[i], (double)want[i]);
        if (!failed && reported < 50) { std::string h; for (int k = 0; k < nin && k < 256; k++) { char x[3]; snprintf(x, 3, "%02x", ((const uint8_t*)in)[k]); h += x; } printf("{\"bad\":\"%s\",\"detail\":\"%s\",\"inputs\":\"%s\"}\n", cur, b, h.c_str()); reported++; } failed = true; return;
    }
}
static void fexpect(const float* got, const float* want, int n) { for (int i = 0; i < n; i++) if (!feq(got[i], want[i])) { char b[160]; snprintf(b, sizeof b, "element %d is %.9g, the scalar definition gives %.9g", i, got[i], want[i]); bad(b); return; } }
static int32_t sat(int64_t v, int64_t lo, int64_t hi) { return (int32_t)(v < lo ? lo : v > hi ? hi : v); }

static void rgb_to_gray() {
    uint8_t s[3 * N], d[N], w[N]; fill(s, 3 * N);
    for (int i = 0; i < N; i += 8) { uint8x8x3_t p = vld3_u8(s + 3 * i); uint16x8_t a = vmull_u8(p.val[0], vdup_n_u8(77)); a = vmlal_u8(a, p.val[1], vdup_n_u8(150)); a = vmlal_u8(a, p.val[2], vdup_n_u8(29)); vst1_u8(d + i, vshrn_n_u16(a, 8)); }
    for (int i = 0; i < N; i++) w[i] = (77 * s[3 * i] + 150 * s[3 * i + 1] + 29 * s[3 * i + 2]) >> 8;
    expect(d, w, N, s, sizeof s);
}
static void rgba_to_bgra() {
    uint8_t s[4 * N], d[4 * N], w[4 * N]; fill(s, 4 * N);
    for (int i = 0; i < N; i += 16) { uint8x16x4_t p = vld4q_u8(s + 4 * i); uint8x16_t t = p.val[0]; p.val[0] = p.val[2]; p.val[2] = t; vst4q_u8(d + 4 * i, p); }
    for (int i = 0; i < N; i++) { w[4 * i] = s[4 * i + 2]; w[4 * i + 1] = s[4 * i + 1]; w[4 * i + 2] = s[4 * i]; w[4 * i + 3] = s[4 * i + 3]; }
    expect(d, w, 4 * N, s, sizeof s);
}
static void rgb888_to_565() {
    uint8_t s[3 * N]; uint16_t d[N], w[N]; fill(s, 3 * N);
    for (int i = 0; i < N; i += 8) {
        uint8x8x3_t p = vld3_u8(s + 3 * i); uint16x8_t r = vshll_n_u8(p.val[0], 7), g = vmovl_u8(p.val[1]), b = vmovl_u8(p.val[2]);
        r = vmulq_n_u16(vandq_u16(r, vdupq_n_u16(0x7c00)), 2); g = vmulq_n_u16(vandq_u16(g, vdupq_n_u16(0xfc)), 8); b = vcombine_u16(vmovn_u32(vmull_n_u16(vget_low_u16(b), 1)), vget_high_u16(b));
        b = vmovl_u8(vshrn_n_u16(b, 3)); vst1q_u16(d + i, vorrq_u16(vorrq_u16(r, g), b));
    }
    for (int i = 0; i < N; i++) w[i] = (uint16_t)((s[3 * i] >> 3 << 11) | (s[3 * i + 1] >> 2 << 5) | (s[3 * i + 2] >> 3));
    expect(d, w, N, s, sizeof s);
}
static void alpha_blend() {
    uint8_t s[3 * N], d[N], w[N]; fill(s, 3 * N); uint8_t *a = s, *b = s + N, *al = s + 2 * N;
    for (int i = 0; i < N; i += 8) { uint8x8_t x = vld1_u8(al + i); uint16x8_t r = vmull_u8(vld1_u8(a + i), x); r = vmlal_u8(r, vld1_u8(b + i), vmvn_u8(x)); vst1_u8(d + i, vrshrn_n_u16(r, 8)); }
    for (int i = 0; i < N; i++) w[i] = (uint8_t)((uint16_t)(a[i] * al[i] + b[i] * (255 - al[i]) + 128) >> 8);
    expect(d, w, N, s, sizeof s);
}
static void dot_s16() {
    int16_t s[2 * N]; fill(s, 2 * N); int32x4_t acc = vdupq_n_s32(0); uint32_t w[4] = {0, 0, 0, 0}; int32_t d[4];
    for (int i = 0; i < N; i += 4) acc = vmlal_s16(acc, vld1_s16(s + i), vld1_s16(s + N + i));
    vst1q_s32(d, acc);
    for (int i = 0; i < N; i++) w[i % 4] += (uint32_t)((int32_t)s[i] * s[N + i]);
    expect((uint32_t*)d, w, 4, s, sizeof s);
    uint32_t t = (uint32_t)vgetq_lane_s32(acc, 0) + (uint32_t)vgetq_lane_s32(acc, 1) + (uint32_t)vgetq_lane_s32(acc, 2) + (uint32_t)vgetq_lane_s32(acc, 3), q = w[0] + w[1] + w[2] + w[3]; expect(&t, &q, 1, s, sizeof s);
}
static void dot_s8() {
    int8_t s[2 * N]; fill(s, 2 * N); int16x8_t acc = vdupq_n_s16(0); int32x4_t l = vdupq_n_s32(0); uint32_t want = 0; (void)acc;
    for (int i = 0; i < N; i += 8) { int16x8_t p = vmull_s8(vld1_s8(s + i), vld1_s8(s + N + i)); l = vaddw_s16(l, vget_low_s16(p)); l = vaddw_high_s16(l, p); }
    for (int i = 0; i < N; i++) want += (uint32_t)(s[i] * s[N + i]);
    uint32_t t = (uint32_t)vgetq_lane_s32(l, 0) + (uint32_t)vgetq_lane_s32(l, 1) + (uint32_t)vgetq_lane_s32(l, 2) + (uint32_t)vgetq_lane_s32(l, 3); expect(&t, &want, 1, s, sizeof s);
}
static void dot_f32() {
    float s[2 * N], d[4], w[4] = {0, 0, 0, 0}; ffill(s, 2 * N); float32x4_t acc = vdupq_n_f32(0.f);
    for (int i = 0; i < N; i += 4) acc = vmlaq_f32(acc, vld1q_f32(s + i), vld1q_f32(s + N + i));
    vst1q_f32(d, acc);
    for (int i = 0; i < N; i++) { volatile float p = s[i] * s[N + i]; volatile float q = w[i % 4] + p; w[i % 4] = q; }
    fexpect(d, w, 4);
}
static void matmul_f32() {
    float a[16], b[16], d[16], w[16]; ffill(a, 16); ffill(b, 16);
    for (int c = 0; c < 4; c++) { float32x4_t r = vmulq_n_f32(vld1q_f32(a), b[4 * c]); for (int k = 1; k < 4; k++) r = vmlaq_n_f32(r, vld1q_f32(a + 4 * k), b[4 * c + k]); vst1q_f32(d + 4 * c, r); }
    for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { volatile float x = a[r] * b[4 * c]; for (int k = 1; k < 4; k++) { volatile float p = a[4 * k + r] * b[4 * c + k]; x = x + p; } w[4 * c + r] = x; }
    fexpect(d, w, 16);
}
static void transpose8x8_u8() {
    uint8_t s[64], d[64], w[64]; fill(s, 64); uint8x8_t r[8]; for (int i = 0; i < 8; i++) r[i] = vld1_u8(s + 8 * i);
    uint8x8x2_t a[4]; for (int i = 0; i < 4; i++) a[i] = vtrn_u8(r[2 * i], r[2 * i + 1]);
    // 2x2 blocks done; exchange 16-bit, then 32-bit units
    uint16_t t[8][4]; for (int i = 0; i < 4; i++) { vst1_u16(t[2 * i], vreinterpret_u16_u8(a[i].val[0])); vst1_u16(t[2 * i + 1], vreinterpret_u16_u8(a[i].val[1])); }
    uint16x4x2_t b[4]; b[0] = vtrn_u16(vld1_u16(t[0]), vld1_u16(t[2])); b[1] = vtrn_u16(vld1_u16(t[1]), vld1_u16(t[3])); b[2] = vtrn_u16(vld1_u16(t[4]), vld1_u16(t[6])); b[3] = vtrn_u16(vld1_u16(t[5]), vld1_u16(t[7]));
    uint32x2x2_t c[4]; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) c[2 * i + k] = vtrn_u32(vreinterpret_u32_u16(b[i].val[k]), vreinterpret_u32_u16(b[i + 2].val[k]));
    for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) vst1_u8(d + 8 * (i + 2 * k + 4 * j), vreinterpret_u8_u32(c[2 * i + k].val[j]));
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) w[8 * i + j] = s[8 * j + i];
    expect(d, w, 64, s, sizeof s);
}
static void transpose4x4_s16() {
    int16_t s[16], d[16], w[16]; fill(s, 16);
    int16x4x2_t a = vtrn_s16(vld1_s16(s), vld1_s16(s + 4)), b = vtrn_s16(vld1_s16(s + 8), vld1_s16(s + 12));
    int32x2x2_t c = vtrn_s32(vreinterpret_s32_s16(a.val[0]), vreinterpret_s32_s16(b.val[0])), e = vtrn_s32(vreinterpret_s32_s16(a.val[1]), vreinterpret_s32_s16(b.val[1]));
    vst1_s16(d, vreinterpret_s16_s32(c.val[0])); vst1_s16(d + 4, vreinterpret_s16_s32(e.val[0])); vst1_s16(d + 8, vreinterpret_s16_s32(c.val[1])); vst1_s16(d + 12, vreinterpret_s16_s32(e.val[1]));
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) w[4 * i + j] = s[4 * j + i];
    expect(d, w, 16, s, sizeof s);
}
static void threshold_u8() {
    uint8_t s[N], d[N], w[N]; fill(s, N); uint8_t t = edge<uint8_t>(), hi = edge<uint8_t>(), lo = edge<uint8_t>();
    for (int i = 0; i < N; i += 16) vst1q_u8(d + i, vbslq_u8(vcgtq_u8(vld1q_u8(s + i), vdupq_n_u8(t)), vdupq_n_u8(hi), vdupq_n_u8(lo)));
    for (int i = 0; i < N; i++) w[i] = s[i] > t ? hi : lo;
    expect(d, w, N, s, sizeof s);
}
static void relu_select_f32() {
    float s[N], d[N], w[N]; ffill(s, N); float t = frand();
    for (int i = 0; i < N; i += 4) { float32x4_t v = vld1q_f32(s + i), k = vmovq_n_f32(t); vst1q_f32(d + i, vbslq_f32(vcltq_f32(v, k), k, v)); }
    for (int i = 0; i < N; i++) w[i] = s[i] < t ? t : s[i];
    fexpect(d, w, N);
}
static void table_map() {
    uint8_t t[32], s[N], d[N], w[N]; fill(t, 32); fill(s, N); uint8x8x4_t q; memcpy(&q, t, 32);
    for (int i = 0; i < N; i += 8) vst1_u8(d + i, vtbl4_u8(q, vld1_u8(s + i)));
    for (int i = 0; i < N; i++) w[i] = s[i] < 32 ? t[s[i]] : 0;
    expect(d, w, N, s, sizeof s);
    uint8x16_t q1 = vld1q_u8(t); for (int i = 0; i < N; i += 8) vst1_u8(d + i, vqtbl1_u8(q1, vld1_u8(s + i)));
    for (int i = 0; i < N; i++) w[i] = s[i] < 16 ? t[s[i]] : 0;
    expect(d, w, N, s, sizeof s);
}
static void hex_digits() {                                     // nibbles to characters through a table, interleaved
    uint8_t s[N], d[2 * N], w[2 * N]; fill(s, N); uint8x16_t tb; memcpy(&tb, "0123456789abcdef", 16);
    for (int i = 0; i < N; i += 8) { uint8x8_t v = vld1_u8(s + i); uint8x8_t hi = vshrn_n_u16(vmovl_u8(v), 4), lo = vand_u8(v, vdup_n_u8(15)); uint8x8x2_t z = vzip_u8(vqtbl1_u8(tb, hi), vqtbl1_u8(tb, lo)); vst1_u8(d + 2 * i, z.val[0]); vst1_u8(d + 2 * i + 8, z.val[1]); }
    for (int i = 0; i < N; i++) { w[2 * i] = "0123456789abcdef"[s[i] >> 4]; w[2 * i + 1] = "0123456789abcdef"[s[i] & 15]; }
    expect(d, w, 2 * N, s, sizeof s);
}
static void audio_mix_s16() {                                  // saturating mix through the wide type
    int16_t s[2 * N]; fill(s, 2 * N); uint8_t d[N], w[N];
    for (int i = 0; i < N; i += 8) vst1_u8(d + i, vqmovun_s16(vaddq_s16(vld1q_s16(s + i), vld1q_s16(s + N + i))));
    for (int i = 0; i < N; i++) w[i] = (uint8_t)sat((int16_t)(uint16_t)(s[i] + s[N + i]), 0, 255);
    expect(d, w, N, s, sizeof s);
}
static void absdiff_sad_u8() {
    uint8_t s[2 * N], d[N], w[N]; fill(s, 2 * N); uint32_t sum = 0, ws = 0;
    for (int i = 0; i < N; i += 16) { uint8x16_t a = vld1q_u8(s + i), b = vld1q_u8(s + N + i), x = vorrq_u8(vqsubq_u8(a, b), vqsubq_u8(b, a)); vst1q_u8(d + i, x); uint32x4_t q = vpaddlq_u16(vpaddlq_u8(x)); sum += vgetq_lane_u32(q, 0) + vgetq_lane_u32(q, 1) + vgetq_lane_u32(q, 2) + vgetq_lane_u32(q, 3); }
    for (int i = 0; i < N; i++) { w[i] = (uint8_t)abs(s[i] - s[N + i]); ws += w[i]; }
    expect(d, w, N, s, sizeof s); expect(&sum, &ws, 1, s, sizeof s);
}
static void box3_u8() {
    uint8_t s[N + 16], d[N], w[N]; fill(s, N + 16);
    for (int i = 0; i < N; i += 8) { uint8x8_t a = vld1_u8(s + i), b = vld1_u8(s + i + 8), m = vext_u8(a, b, 1), r = vext_u8(a, b, 2); uint16x8_t t = vaddl_u8(a, m); t = vaddw_u8(t, r); vst1_u8(d + i, vshrn_n_u16(vaddq_u16(vmulq_n_u16(t, 85), vdupq_n_u16(64)), 8)); }
    for (int i = 0; i < N; i++) w[i] = (uint8_t)((uint16_t)((s[i] + s[i + 1] + s[i + 2]) * 85 + 64) >> 8);
    expect(d, w, N, s, sizeof s);
}
static void fir5_u16() {
    uint16_t s[N + 16], d[N], w[N]; fill(s, N + 16); static const uint16_t c[5] = {1, 4, 6, 4, 1};
    for (int i = 0; i < N; i += 8) { uint16x8_t a = vld1q_u16(s + i), b = vld1q_u16(s + i + 8); uint16x8_t r = a; r = vmlaq_u16(r, vextq_u16(a, b, 1), vdupq_n_u16(4)); r = vmlaq_u16(r, vextq_u16(a, b, 2), vdupq_n_u16(6)); r = vmlaq_u16(r, vextq_u16(a, b, 3), vdupq_n_u16(4)); r = vaddq_u16(r, vextq_u16(a, b, 4)); vst1q_u16(d + i, r); }
    for (int i = 0; i < N; i++) { uint32_t x = 0; for (int k = 0; k < 5; k++) x += (uint32_t)c[k] * s[i + k]; w[i] = (uint16_t)x; }
    expect(d, w, N, s, sizeof s);
}
static void q15_scale() {                                      // doubling multiply, then rounding narrow
    int16_t s[2 * N]; fill(s, 2 * N); int32_t d[N], w[N];
    for (int i = 0; i < N; i += 4) vst1q_s32(d + i, vqdmull_s16(vld1_s16(s + i), vld1_s16(s + N + i)));
    for (int i = 0; i < N; i++) w[i] = sat(2ll * s[i] * s[N + i], INT32_MIN, INT32_MAX);
    expect(d, w, N, s, sizeof s);
    uint8_t n[N], m[N]; for (int i = 0; i < N; i += 8) vst1_u8(n + i, vqrshrun_n_s16(vld1q_s16(s + i), 5));
    for (int i = 0; i < N; i++) m[i] = (uint8_t)sat((s[i] + 16) >> 5, 0, 255);
    expect(n, m, N, s, sizeof s);
}
static void quantise_f32() {
    float s[N]; ffill(s, N); int32_t d[N], w[N]; float k = frand();
    for (int i = 0; i < N; i += 4) vst1q_s32(d + i, vcvtnq_s32_f32(vmulq_n_f32(vld1q_f32(s + i), k)));
    for (int i = 0; i < N; i++) { volatile float p = s[i] * k; double x = p; if (x != x) w[i] = 0; else { double r = floor(x); double f = x - r; if (f > .5 || (f == .5 && fmod(r, 2) != 0)) r += 1; w[i] = r >= 2147483648. ? INT32_MAX : r < -2147483648. ? INT32_MIN : (int32_t)r; } }
    expect(d, w, N, s, sizeof s);
}
static void convert_scale() {
    int32_t s[N]; fill(s, N); float d[N], w[N];
    for (int i = 0; i < N; i += 4) vst1q_f32(d + i, vaddq_f32(vmulq_f32(vcvtq_f32_s32(vld1q_s32(s + i)), vdupq_n_f32(0.5f)), vdupq_n_f32(1.f)));
    for (int i = 0; i < N; i++) { volatile float a = (float)s[i]; volatile float b = a * 0.5f; w[i] = b + 1.f; }
    fexpect(d, w, N);
}
static void reciprocal_refine() {
    float s[N], d[N]; for (int i = 0; i < N; i++) { uint32_t b = (uint32_t)rnd() & 0x807fffff; b |= (uint32_t)(1 + 4 + ru(245)) << 23; memcpy(&s[i], &b, 4); }
    for (int i = 0; i < N; i += 4) { float32x4_t x = vld1q_f32(s + i), r = vrecpeq_f32(x); r = vmulq_f32(vrecpsq_f32(x, r), r); r = vmulq_f32(vrecpsq_f32(x, r), r); vst1q_f32(d + i, r); }
    for (int i = 0; i < N; i++) { double t = 1.0 / s[i], e = fabs(d[i] - t); float ft = (float)t; double ulp = fabs((double)nextafterf(fabsf(ft), INFINITY) - fabsf(ft)); if (!(e <= 4 * ulp)) { char b[160]; snprintf(b, sizeof b, "1/%.9g refined to %.9g", s[i], d[i]); bad(b); return; } }
}
static void normalise_minmax() {
    float s[N]; ffill(s, N); float32x4_t mx = vld1q_f32(s), mn = mx; float wx[4], wn[4], gx[4], gn[4]; memcpy(wx, s, 16); memcpy(wn, s, 16);
    for (int i = 4; i < N; i += 4) { float32x4_t v = vld1q_f32(s + i); mx = vmaxq_f32(mx, v); mn = vminq_f32(mn, v); }
    for (int i = 4; i < N; i++) { float v = s[i]; float& x = wx[i % 4]; float& n = wn[i % 4]; if (v > x || (v == x && !signbit(v))) x = v; if (v < n || (v == n && signbit(v))) n = v; }
    vst1q_f32(gx, mx); vst1q_f32(gn, mn); fexpect(gx, wx, 4); fexpect(gn, wn, 4);
    float32x2_t p = vpmax_f32(vget_low_f32(mx), vget_high_f32(mx)); p = vpmax_f32(p, p); float g = vget_lane_f32(p, 0), w = wx[0]; for (int i = 1; i < 4; i++) if (wx[i] > w || (wx[i] == w && !signbit(wx[i]))) w = wx[i]; fexpect(&g, &w, 1);
}
static void complex_mul_s16() {
    int16_t a[2 * N], b[2 * N], d[2 * N], w[2 * N]; fill(a, 2 * N); fill(b, 2 * N);
    for (int i = 0; i < N; i += 8) { int16x8x2_t x = vld2q_s16(a + 2 * i), y = vld2q_s16(b + 2 * i), r; r.val[0] = vsubq_s16(vmulq_s16(x.val[0], y.val[0]), vmulq_s16(x.val[1], y.val[1])); r.val[1] = vmlaq_s16(vmulq_s16(x.val[0], y.val[1]), x.val[1], y.val[0]); vst2q_s16(d + 2 * i, r); }
    for (int i = 0; i < N; i++) { uint32_t p = a[2 * i], q = a[2 * i + 1], r = b[2 * i], t = b[2 * i + 1]; w[2 * i] = (int16_t)(p * r - q * t); w[2 * i + 1] = (int16_t)(p * t + q * r); }
    expect(d, w, 2 * N, a, sizeof a);
}
static void byteswap_u32() {
    uint32_t s[N], d[N], w[N]; fill(s, N);
    for (int i = 0; i < N; i += 4) vst1q_u8((uint8_t*)(d + i), vrev32q_u8(vld1q_u8((uint8_t*)(s + i))));
    for (int i = 0; i < N; i++) w[i] = __builtin_bswap32(s[i]);
    expect(d, w, N, s, sizeof s);
}
static void mirror_row() {
    uint16_t s[N], d[N], w[N]; fill(s, N);
    for (int i = 0; i < N; i += 8) { uint16x8_t v = vrev64q_u16(vld1q_u16(s + i)); vst1q_u16(d + N - 8 - i, vcombine_u16(vget_high_u16(v), vget_low_u16(v))); }
    for (int i = 0; i < N; i++) w[i] = s[N - 1 - i];
    expect(d, w, N, s, sizeof s);
}
static void planar_to_packed_s16() {
    int16_t s[3 * N], d[3 * N], w[3 * N]; fill(s, 3 * N);
    for (int i = 0; i < N; i += 4) { int16x4x3_t t; for (int k = 0; k < 3; k++) t.val[k] = vld1_s16(s + k * N + i); vst3_s16(d + 3 * i, t); }
    for (int i = 0; i < N; i++) for (int k = 0; k < 3; k++) w[3 * i + k] = s[k * N + i];
    expect(d, w, 3 * N, s, sizeof s);
}
static void deinterleave_u8() {
    uint8_t s[2 * N], d[2 * N], w[2 * N]; fill(s, 2 * N);
    for (int i = 0; i < N; i += 8) { uint8x8x2_t z = vuzp_u8(vld1_u8(s + 2 * i), vld1_u8(s + 2 * i + 8)); vst1_u8(d + i, z.val[0]); vst1_u8(d + N + i, z.val[1]); }
    for (int i = 0; i < N; i++) { w[i] = s[2 * i]; w[N + i] = s[2 * i + 1]; }
    expect(d, w, 2 * N, s, sizeof s);
}
static void popcount_u8() {                                   // parallel sums within bytes through widening shifts
    uint8_t s[N], d[N], w[N]; fill(s, N); uint8x16_t tb = {{0, 1, 1, 2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4}};
    for (int i = 0; i < N; i += 8) { uint8x8_t v = vld1_u8(s + i); vst1_u8(d + i, vadd_u8(vqtbl1_u8(tb, vand_u8(v, vdup_n_u8(15))), vqtbl1_u8(tb, vshrn_n_u16(vmovl_u8(v), 4)))); }
    for (int i = 0; i < N; i++) w[i] = (uint8_t)__builtin_popcount(s[i]);
    expect(d, w, N, s, sizeof s);
}
static void bignum_mul_u32() {                                 // 64-bit partial products accumulated in wide lanes
    uint32_t a[2 * N]; fill(a, 2 * N); uint64_t d[2], w[2] = {0, 0}; uint64x2_t acc; d[0] = d[1] = 0; acc = vmovl_u32(vdup_n_u32(0));
    for (int i = 0; i < N; i += 2) acc = vmlal_u32(acc, vld1_u32(a + i), vld1_u32(a + N + i));
    vst1q_u64(d, acc); for (int i = 0; i < N; i++) w[i % 2] += (uint64_t)a[i] * a[N + i];
    expect(d, w, 2, a, sizeof a);
}
static void running_average_u16() {
    uint16_t s[2 * N]; fill(s, 2 * N); uint8_t d[2 * N], w[2 * N];
    for (int i = 0; i < N; i += 8) vst1_u8(d + i, vsubhn_u16(vld1q_u16(s + i), vld1q_u16(s + N + i)));
    for (int i = 0; i < N; i += 8) vst1_u8(d + N + i, vrsubhn_u16(vld1q_u16(s + i), vld1q_u16(s + N + i)));
    for (int i = 0; i < N; i++) { w[i] = (uint8_t)((uint16_t)(s[i] - s[N + i]) >> 8); w[N + i] = (uint8_t)((uint16_t)(s[i] - s[N + i] + 128) >> 8); }
    expect(d, w, 2 * N, s, sizeof s);
}
static void haar_s8() {                                        // half differences
    int8_t s[2 * N], d[N], w[N]; fill(s, 2 * N);
    for (int i = 0; i < N; i += 16) vst1q_s8(d + i, vhsubq_s8(vld1q_s8(s + i), vld1q_s8(s + N + i)));
    for (int i = 0; i < N; i++) w[i] = (int8_t)((s[i] - s[N + i]) >> 1);
    expect(d, w, N, s, sizeof s);
}
static void accumulate_shift_s32() {                           // exponential moving sum
    int32_t s[N], d[4], w[4] = {0, 0, 0, 0}; fill(s, N); int32x4_t acc = vdupq_n_s32(0);
    for (int i = 0; i < N; i += 4) acc = vsraq_n_s32(acc, vld1q_s32(s + i), 3);
    vst1q_s32(d, acc); for (int i = 0; i < N; i++) w[i % 4] = (int32_t)((uint32_t)w[i % 4] + (uint32_t)(s[i] >> 3));
    expect(d, w, 4, s, sizeof s);
}
static void clamp_u16_to_u8() {
    uint16_t s[N]; fill(s, N); uint8_t d[N], w[N];
    for (int i = 0; i < N; i += 8) vst1_u8(d + i, vqmovn_u16(vld1q_u16(s + i)));
    for (int i = 0; i < N; i++) w[i] = s[i] > 255 ? 255 : (uint8_t)s[i];
    expect(d, w, N, s, sizeof s);
}
static void lane_scatter_f32() {
    float s[N], d[N], w[N]; ffill(s, 16); for (int i = 0; i < N; i++) { d[i] = w[i] = (float)i; } float32x4x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_f32(s + 4 * k);
    int o = ru(N - 16); vst4q_lane_f32(d + o, r, 0); vst4q_lane_f32(d + o + 4, r, 1); vst4q_lane_f32(d + o + 8, r, 2); vst4q_lane_f32(d + o + 12, r, 3);
    for (int l = 0; l < 4; l++) for (int k = 0; k < 4; k++) w[o + 4 * l + k] = s[4 * k + l];
    fexpect(d, w, N);
}
static void gather_lanes_u8() {
    uint8_t s[N], idx[8], d[8], w[8]; fill(s, N); for (int i = 0; i < 8; i++) idx[i] = (uint8_t)ru(N); uint8x8_t v = vdup_n_u8(0);
    v = vld1_lane_u8(s + idx[0], v, 0); v = vld1_lane_u8(s + idx[1], v, 1); v = vld1_lane_u8(s + idx[2], v, 2); v = vld1_lane_u8(s + idx[3], v, 3); v = vld1_lane_u8(s + idx[4], v, 4); v = vld1_lane_u8(s + idx[5], v, 5); v = vld1_lane_u8(s + idx[6], v, 6); v = vld1_lane_u8(s + idx[7], v, 7);
    vst1_u8(d, v); for (int i = 0; i < 8; i++) w[i] = s[idx[i]]; expect(d, w, 8, s, sizeof s);
}
static void divide_f64() {
    double s[2 * N], d[N], w[N]; for (int i = 0; i < 2 * N; i++) s[i] = (double)frand();
    for (int i = 0; i < N; i += 2) { float64x2_t a, b; memcpy(&a, s + i, 16); memcpy(&b, s + N + i, 16); float64x2_t r = vmulq_n_f64(vdivq_f64(a, b), 3.0); d[i] = vgetq_lane_f64(r, 0); d[i + 1] = vgetq_lane_f64(r, 1); }
    for (int i = 0; i < N; i++) { volatile double y = s[i] / s[N + i]; w[i] = y * 3.0; if (!(w[i] == d[i] && signbit(w[i]) == signbit(d[i])) && !(w[i] != w[i] && d[i] != d[i])) { bad("f64 element differs from its scalar definition"); return; } }
}

struct K { const char* n; void (*f)(); };
#define X(k) {#k, k}
static const K ks[] = {X(rgb_to_gray), X(rgba_to_bgra), X(rgb888_to_565), X(alpha_blend), X(dot_s16), X(dot_s8), X(dot_f32), X(matmul_f32), X(transpose8x8_u8), X(transpose4x4_s16), X(threshold_u8), X(relu_select_f32), X(table_map), X(hex_digits), X(audio_mix_s16),
    X(absdiff_sad_u8), X(box3_u8), X(fir5_u16), X(q15_scale), X(quantise_f32), X(convert_scale), X(reciprocal_refine), X(normalise_minmax), X(complex_mul_s16), X(byteswap_u32), X(mirror_row), X(planar_to_packed_s16), X(deinterleave_u8), X(popcount_u8),
    X(bignum_mul_u32), X(running_average_u16), X(haar_s8), X(accumulate_shift_s32), X(clamp_u16_to_u8), X(lane_scatter_f32), X(gather_lanes_u8), X(divide_f64)};
int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; int runs = argc > 2 ? atoi(argv[2]) : 100; setvbuf(stdout, nullptr, _IOLBF, 0);
    for (const K& k : ks) {
        uint64_t s = seed * 1000003; for (const char* p = k.n; *p; p++) s = s * 31 + (unsigned char)*p; st[0] = mix(s); st[1] = mix(s); cur = k.n; failed = false; int n = 0;
        printf("{\"start\":\"%s\"}\n", k.n);
        for (; n < runs && !failed; n++) k.f();
        printf("{\"kernel\":\"%s\",\"runs\":%d}\n", k.n, n);
    }
    printf("{\"end\":1}\n"); return 0;
}

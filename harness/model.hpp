// Reference semantics, written from the Arm instruction definitions.
#pragma once
#include "rt.hpp"
#pragma STDC FP_CONTRACT OFF

template <class T> struct LaneVal { typedef i128 type; };
template <> struct LaneVal<float> { typedef float type; };
template <> struct LaneVal<double> { typedef double type; };
template <class T> static inline typename LaneVal<T>::type L(const uint8_t* p, int i) { T v; memcpy(&v, p + (size_t)i * sizeof(T), sizeof(T)); return (typename LaneVal<T>::type)v; }
// two's complement store modulo 2^bits: take the low bits of the exact value
template <class T> static inline void S(uint8_t* p, int i, i128 v) { uint64_t lo = (uint64_t)(unsigned __int128)v; memcpy(p + (size_t)i * sizeof(T), &lo, sizeof(T)); }
template <class T> static inline typename LaneVal<T>::type Sfp(T v) { return v; }
template <class T> struct Fst { static void st(uint8_t* p, int i, T v) { memcpy(p + (size_t)i * sizeof(T), &v, sizeof(T)); } };
template <class T> static inline void S(uint8_t* p, int i, float v) { Fst<float>::st(p, i, v); }
template <class T> static inline void S(uint8_t* p, int i, double v) { Fst<double>::st(p, i, v); }
template <class T> static inline void S(uint8_t* p, int i, int32_t v) { S<T>(p, i, (i128)v); }
template <class T> static inline void S(uint8_t* p, int i, uint32_t v) { S<T>(p, i, (i128)v); }

template <class T> static inline i128 sat(i128 v) {
    const bool sg = (T)-1 < (T)0; const int b = sizeof(T) * 8;
    const i128 hi = sg ? ((i128)1 << (b - 1)) - 1 : ((i128)1 << b) - 1, lo = sg ? -((i128)1 << (b - 1)) : 0;
    return v > hi ? hi : v < lo ? lo : v;
}

static inline uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline float ffrom(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static inline bool isnan32(float f) { return (fbits(f) & 0x7fffffffu) > 0x7f800000u; }

static inline float fmax_arm(float x, float y) {
    if (isnan32(x)) return x; if (isnan32(y)) return y;
    if (x == 0 && y == 0) return ffrom(fbits(x) & fbits(y));   // -0 only when both are
    return x > y ? x : y;
}
static inline float fmin_arm(float x, float y) {
    if (isnan32(x)) return x; if (isnan32(y)) return y;
    if (x == 0 && y == 0) return ffrom(fbits(x) | fbits(y));
    return x < y ? x : y;
}
static inline bool flt_arm(float x, float y) { return !isnan32(x) && !isnan32(y) && x < y; }

// One correctly rounded operation in the lane precision. For f32 the operation is done in double, which is exact
// enough that the second rounding is innocuous (53 >= 2*24+2); for f64 the hardware double operation is used.
static inline float f_add(float x, float y) { return (float)((double)x + (double)y); }
static inline float f_sub(float x, float y) { return (float)((double)x - (double)y); }
static inline float f_mul(float x, float y) { return (float)((double)x * (double)y); }
static inline float f_div(float x, float y) { return (float)((double)x / (double)y); }
static inline double f_add(double x, double y) { return x + y; }
static inline double f_sub(double x, double y) { return x - y; }
static inline double f_mul(double x, double y) { return x * y; }
static inline double f_div(double x, double y) { return x / y; }

template <class T> static inline i128 cvt_z(float x) {      // FCVTZS / FCVTZU
    if (isnan32(x)) return 0;
    const i128 hi = sat<T>(((i128)1) << 100), lo = sat<T>(-(((i128)1) << 100));
    double d = x;
    if (d >= (double)hi + 1.0) return hi;
    if (d <= (double)lo - 1.0) return lo;
    return sat<T>((i128)(long long)d);
}
static inline i128 cvt_ne(float x) {                        // FCVTNS
    if (isnan32(x)) return 0;
    double d = x;
    if (d >= 2147483648.0) return 2147483647;
    if (d <= -2147483649.0) return -(i128)2147483648ll;
    long long t = (long long)d;                             // truncated
    double fr = d - (double)t;
    if (fr > 0.5 || (fr == 0.5 && (t & 1))) t++;
    if (fr < -0.5 || (fr == -0.5 && (t & 1))) t--;
    return sat<int32_t>((i128)t);
}
static inline float int_to_f32(i128 v) {                    // SCVTF, round to nearest even, by integer arithmetic
    if (v == 0) return 0.0f;
    bool neg = v < 0; uint64_t m = (uint64_t)(neg ? -v : v);
    int e = 63 - __builtin_clzll(m);
    uint32_t man; int ex = e;
    if (e <= 23) man = (uint32_t)(m << (23 - e));
    else {
        int sh = e - 23; uint64_t q = m >> sh, rem = m & ((1ull << sh) - 1), half = 1ull << (sh - 1);
        if (rem > half || (rem == half && (q & 1))) q++;
        if (q >> 24) { q >>= 1; ex++; }
        man = (uint32_t)q;
    }
    return ffrom((neg ? 0x80000000u : 0u) | ((uint32_t)(ex + 127) << 23) | (man & 0x7fffffu));
}

static inline uint32_t recip_estimate_tab(uint32_t a) {     // RecipEstimate(), a in 256..511
    a = a * 2 + 1; uint32_t b = (1u << 19) / a; return (b + 1) / 2;
}
static inline uint32_t recip_estimate32(uint32_t op) {      // FPRecipEstimate(), N=32, FPCR = 0
    const uint32_t sign = op & 0x80000000u; const uint32_t e = op >> 23 & 0xff; uint64_t frac = (uint64_t)(op & 0x7fffffu) << 29;
    if (e == 0xff) return (op & 0x7fffffu) ? (op | 0x400000u) : sign;
    if (e == 0 && frac == 0) return sign | 0x7f800000u;
    if (e == 0 && (op & 0x7fffffu) < 0x200000u) return sign | 0x7f800000u;   // |x| < 2^-128 overflows
    int ex = (int)e;
    const uint64_t M52 = (1ull << 52) - 1;
    if (e == 0) {
        if (!(frac >> 51 & 1)) { ex = -1; frac = (frac << 2) & M52; }
        else frac = (frac << 1) & M52;
    }
    uint32_t scaled = 256u | (uint32_t)(frac >> 44);
    int rexp = 253 - ex;
    uint64_t rf = (uint64_t)(recip_estimate_tab(scaled) & 0xff) << 44;
    if (rexp == 0) rf = (1ull << 51) | (rf >> 1);
    else if (rexp == -1) { rf = (1ull << 50) | (rf >> 2); rexp = 0; }
    return sign | (uint32_t)rexp << 23 | (uint32_t)(rf >> 29);
}
static inline float recip_step32(float x, float y) {        // FPRecipStepFused()
    if (isnan32(x)) return x; if (isnan32(y)) return y;
    uint32_t ax = fbits(x) & 0x7fffffffu, ay = fbits(y) & 0x7fffffffu;
    bool ix = ax == 0x7f800000u, iy = ay == 0x7f800000u;
    if ((ix && ay == 0) || (iy && ax == 0)) return 2.0f;
    uint32_t s = ((fbits(x) ^ fbits(y)) >> 31) ^ 1;           // sign of -x*y
    if (ix || iy) return ffrom(s << 31 | 0x7f800000u);
    return fmaf(-x, y, 2.0f);
}

// Shared runtime of the monitors: argument slots, cases, RNG. No dependency on the code under test.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <new>

typedef __int128 i128;

// ABI-equivalent register types of the Arm intrinsics (independent of neon_sim.h).
template <class T, int N> struct Vec { T val[N]; };
template <class V, int K> struct Arr { V val[K]; };

enum Role : uint8_t { R_VEC, R_SCALAR, R_IMM, R_RD, R_WR };
struct Arg {
    Role role; char kind; uint8_t bits; uint8_t n, k; uint16_t bytes;
    int elems() const { return n * k; }
    int esz() const { return bits / 8; }
};
enum { MAXARG = 6, SLOT = 64 };

struct Fn {
    const char* name; const char* prop;
    int narg; Arg arg[4];
    Arg out;                       // result, or the stored memory region
    int immarg, immlo, immhi;      // -1 when there is no immediate
    int memarg;                    // -1 when there is no pointer
    uint8_t fp;                    // 0, 32, 64: NaN-equivalent comparison of result lanes
    uint8_t lanewise;
    uint8_t align;                 // of the result type
    void (*call)(void* fp, const uint8_t* const* in, uint8_t* out, void* mem);
    void (*model)(const uint8_t* const* in, uint8_t* out);
};
extern Fn FNS[];
extern const int NFN;

// A case is anything with typed inputs: a function against its model, or a law between functions.
struct LawResult { int bad; char what[96]; uint8_t l[64], r[64]; int nb; };
struct Law {
    const char* name; const char* prop;
    int narg; Arg arg[MAXARG];
    int immarg, immlo, immhi;
    uint8_t lanewise;
    const char* uses;              // space separated function names
    void (*eval)(const uint8_t* const* in, LawResult* res);
};
extern Law LAWS[];
extern const int NLAW;
void register_all();

extern void** FPT;                 // current table of function pointers, indexed like FNS

struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t& x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); if (!s[0] && !s[1]) s[0] = 1; }
    uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
    uint32_t u(uint32_t n) { return (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32); }   // [0,n)
    bool p(unsigned num, unsigned den) { return u(den) < num; }
};
static inline uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }

// NaN-equivalent comparison of nb bytes of float lanes (fp = 0 means bit for bit).
static inline bool same_bits(const uint8_t* x, const uint8_t* y, int nb, int fp) {
    if (!memcmp(x, y, nb)) return true;
    if (fp == 32) {
        for (int i = 0; i < nb; i += 4) {
            uint32_t a, b; memcpy(&a, x + i, 4); memcpy(&b, y + i, 4);
            if (a != b && !((a & 0x7fffffff) > 0x7f800000 && (b & 0x7fffffff) > 0x7f800000)) return false;
        }
        return true;
    }
    if (fp == 64) {
        for (int i = 0; i < nb; i += 8) {
            uint64_t a, b; memcpy(&a, x + i, 8); memcpy(&b, y + i, 8);
            const uint64_t M = 0x7fffffffffffffffull, I = 0x7ff0000000000000ull;
            if (a != b && !((a & M) > I && (b & M) > I)) return false;
        }
        return true;
    }
    return false;
}

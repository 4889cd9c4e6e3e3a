// Input generation: boundary sets, dictionaries, biased random, related operands, mutation.
#pragma once
#include "rt.hpp"
#include <vector>
#include <algorithm>
#include <math.h>

struct CaseV {                     // common view of a function or a law
    const char* name; const char* prop; int narg; const Arg* arg;
    int immarg, immlo, immhi; bool lanewise; int fn, law, memarg;
    uint64_t key;
};

struct Dict { std::vector<uint64_t> v; };
extern std::vector<Dict> g_fdict;   // per function
extern Dict g_dict;                 // whole library
extern std::vector<std::vector<int>> g_lawfns;

static std::vector<uint64_t> B_int[65];
static std::vector<uint64_t> B_f32, B_f64;

static inline uint64_t mask_of(int bits) { return bits == 64 ? ~0ull : (1ull << bits) - 1; }
static inline void init_sets() {
    for (int b : {8, 16, 32, 64}) {
        std::vector<uint64_t>& v = B_int[b];
        auto put = [&](uint64_t x) { x &= mask_of(b); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
        for (int d = 0; d <= 4; d++) { put(d); put(-(uint64_t)d); }
        uint64_t mx = mask_of(b) >> 1;
        for (uint64_t d = 0; d <= 2; d++) { put(mx - d); put(mx + 1 + d); put(mask_of(b) / 3 + d); put(mask_of(b) / 3 * 2 + d); put(mx / 2 + d); put(mx / 2 - d); }
        for (int k = 2; k < b; k++) { put(1ull << k); put((1ull << k) - 1); put((1ull << k) + 1); put(-(1ull << k)); if (b <= 16 || k % 8 == 0 || k % 8 == 7) { put(~(1ull << k)); put(-(1ull << k) + 1); put(-(1ull << k) - 1); put(3ull << k); } }
        put(0x0f0f0f0f0f0f0f0full); put(0xf0f0f0f0f0f0f0f0ull); put(0x00ff00ff00ff00ffull); put(0xff00ff00ff00ff00ull); put(0x0123456789abcdefull); put(100); put(10); put(46341); put(46340); put(181); put(182);
    }
    auto pf = [&](uint32_t u) { for (uint32_t s : {0u, 0x80000000u}) if (std::find(B_f32.begin(), B_f32.end(), (uint64_t)(u ^ s)) == B_f32.end()) B_f32.push_back(u ^ s); };
    for (uint32_t u : {0u, 1u, 2u, 0x3fffffu, 0x400000u, 0x400001u, 0x1fffffu, 0x200000u, 0x200001u, 0x7ffffeu, 0x7fffffu, 0x800000u, 0x800001u, 0x1000000u, 0x7f7fffffu, 0x7f7ffffeu, 0x7f000000u, 0x7e800000u, 0x7e7fffffu, 0x7effffffu, 0x7f000001u, 0x7e000000u, 0x7f800000u,
                       0x7f800001u, 0x7fbfffffu, 0x7fc00000u, 0x7fc00001u, 0x7fffffffu, 0x7fabcdefu}) pf(u);
    auto fl = [&](float f) { uint32_t u; memcpy(&u, &f, 4); pf(u); pf(u + 1); pf(u - 1); };
    for (float f : {0.5f, 1.0f, 1.5f, 2.0f, 2.5f, 3.0f, 3.5f, 4.5f, 10.0f, 0.1f, 0.25f, 0.75f, 100.0f, 127.0f, 128.0f, 255.0f, 256.0f, 32767.0f, 32768.0f, 65535.0f, 65536.0f, 8388607.5f, 8388608.0f, 16777215.0f, 16777216.0f, 2147483520.0f, 2147483648.0f, 4294967040.0f, 4294967296.0f,
                    9223372036854775808.0f, 18446744073709551616.0f, 1e10f, 1e20f, 1e-10f, 1e-20f, 1e30f, 1e-30f, 3.14159265f}) fl(f);
    auto pd = [&](uint64_t u) { for (uint64_t s : {0ull, 1ull << 63}) if (std::find(B_f64.begin(), B_f64.end(), u ^ s) == B_f64.end()) B_f64.push_back(u ^ s); };
    for (uint64_t u : {0ull, 1ull, 2ull, 0xfffffffffffffull, 0x10000000000000ull, 0x10000000000001ull, 0x8000000000000ull, 0x7fefffffffffffffull, 0x7feffffffffffffeull, 0x7fe0000000000000ull, 0x7ff0000000000000ull, 0x7ff0000000000001ull, 0x7ff8000000000000ull, 0x7ff8000000000123ull, 0x7fffffffffffffffull, 0x7ff7ffffffffffffull}) pd(u);
    auto dd = [&](double f) { uint64_t u; memcpy(&u, &f, 8); pd(u); pd(u + 1); pd(u - 1); };
    for (double f : {0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 0.1, 0.25, 0.75, 100.0, 4503599627370496.0, 9007199254740992.0, 2147483648.0, 4294967296.0, 9223372036854775808.0, 1e100, 1e-100, 1e300, 1e-300, 3.4028234663852886e38, 1.1754943508222875e-38, 3.141592653589793}) dd(f);
}
static inline const std::vector<uint64_t>& bset(const Arg& a) { return a.kind == 'f' ? (a.bits == 32 ? B_f32 : B_f64) : B_int[a.bits]; }

static inline uint64_t getel(const uint8_t* slot, const Arg& a, int i) { uint64_t v = 0; memcpy(&v, slot + i * a.esz(), a.esz()); return v; }
static inline void putel(uint8_t* slot, const Arg& a, int i, uint64_t v) { memcpy(slot + i * a.esz(), &v, a.esz()); }
static inline int64_t sx(uint64_t v, int bits) { int s = 64 - bits; return (int64_t)(v << s) >> s; }

struct Gen {
    Rng r; const CaseV* c; const Dict* d;
    std::vector<uint64_t> local;         // values seen in comparisons by the guided stage
    Gen(uint64_t seed, const CaseV* c_) : r(seed), c(c_), d(nullptr) {
        if (c->fn >= 0 && c->fn < (int)g_fdict.size()) d = &g_fdict[c->fn];
    }
    uint64_t dictval() {
        unsigned k = r.u(8);
        if (!local.empty() && k < 3) return local[r.u(local.size())];
        if (c->law >= 0 && !g_lawfns.empty() && k < 6) { const std::vector<int>& f = g_lawfns[c->law]; if (!f.empty()) { const Dict& q = g_fdict[f[r.u(f.size())]]; if (!q.v.empty()) return q.v[r.u(q.v.size())]; } }
        if (d && !d->v.empty() && k < 6) return d->v[r.u(d->v.size())];
        if (!g_dict.v.empty()) return g_dict.v[r.u(g_dict.v.size())];
        return r.next();
    }
    uint64_t dictel(const Arg& a) {
        uint64_t v = dictval();
        switch (r.u(10)) {
            case 0: v += 1; break; case 1: v -= 1; break; case 2: v = -v; break; case 3: v = ~v; break;
            case 4: if (a.bits < 64) v >>= a.bits * r.u(64 / a.bits); break;
            default: break;
        }
        if (a.kind == 'f' && r.p(1, 8)) { if (a.bits == 32) { float f = (float)(int64_t)v; uint32_t u; memcpy(&u, &f, 4); v = u; } else { double f = (double)(int64_t)v; memcpy(&v, &f, 8); } }
        return v;
    }
    uint64_t pick(const Arg& a) {
        unsigned k = r.u(100);
        if (a.kind != 'f') {
            if (k < 25) return r.next();
            if (k < 55) { const auto& b = bset(a); return b[r.u(b.size())]; }
            if (k < 68) return (uint64_t)((int64_t)r.u(33) - 16);
            if (k < 80) return dictel(a);
            if (k < 90) { uint64_t v = 1ull << r.u(a.bits); v += (uint64_t)((int64_t)r.u(5) - 2); return r.p(1, 2) ? v : -v; }
            if (k < 95) return r.next() & r.next() & r.next();
            return r.next() | r.next() | r.next();
        }
        if (k < 25) { const auto& b = bset(a); return b[r.u(b.size())]; }
        if (k < 45) return r.next();
        if (k < 58) return dictel(a);
        double x;
        if (k < 72) x = ((double)(int64_t)r.next() / 9223372036854775808.0) * ldexp(1.0, (int)r.u(40) - 12);
        else if (k < 86) x = (double)((int64_t)r.u(1u << r.u(31)) * (r.p(1, 2) ? 1 : -1)) + (r.p(1, 2) ? 0.5 : 0.0);
        else { uint64_t e = a.bits == 32 ? ((uint64_t)r.u(256) << 23) : ((uint64_t)r.u(2048) << 52); uint64_t s = r.p(1, 2) ? 1ull << (a.bits - 1) : 0; return (e | s) + (uint64_t)((int64_t)r.u(5) - 2); }
        if (a.bits == 32) { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); return u; }
        uint64_t u; memcpy(&u, &x, 8); return u;
    }
    int imm() { return c->immlo + (int)r.u(c->immhi - c->immlo + 1); }
    void setimm(uint8_t (*s)[SLOT]) { if (c->immarg >= 0) { int n = imm(); memcpy(s[c->immarg], &n, 4); } }
    int getimm(uint8_t (*s)[SLOT]) { int n = 0; if (c->immarg >= 0) memcpy(&n, s[c->immarg], 4); return n; }
    bool data(int i) const { return c->arg[i].role != R_IMM; }

    void fill(uint8_t (*s)[SLOT]) {
        fill0(s);
        if (floats() && r.p(2, 5)) frelate(s);
    }
    void fill0(uint8_t (*s)[SLOT]) {
        setimm(s);
        unsigned st = r.u(16);
        if (st < 2) { for (int i = 0; i < c->narg; i++) if (data(i)) for (int j = 0; j < SLOT; j += 8) { uint64_t v = r.next(); memcpy(s[i] + j, &v, 8); } return; }
        if (st < 6) { for (int i = 0; i < c->narg; i++) if (data(i)) for (int j = 0; j < c->arg[i].elems(); j++) putel(s[i], c->arg[i], j, pick(c->arg[i])); if (st == 5) relate(s); return; }
        if (st < 8) {                                  // constant background, one lane special
            for (int i = 0; i < c->narg; i++) if (data(i)) { uint64_t v = pick(c->arg[i]); for (int j = 0; j < c->arg[i].elems(); j++) putel(s[i], c->arg[i], j, v); }
            int l = r.u(16);
            for (int i = 0; i < c->narg; i++) if (data(i) && r.p(3, 4)) putel(s[i], c->arg[i], l % c->arg[i].elems(), pick(c->arg[i]));
            return;
        }
        if (st < 9) { for (int i = 0; i < c->narg; i++) if (data(i)) { uint64_t v = pick(c->arg[i]); for (int j = 0; j < c->arg[i].elems(); j++) putel(s[i], c->arg[i], j, v); } return; }
        if (st < 10) {                                 // tagged bytes: every position distinct
            uint8_t base = (uint8_t)r.next();
            for (int i = 0; i < c->narg; i++) if (data(i)) for (int j = 0; j < c->arg[i].bytes; j++) s[i][j] = (uint8_t)(base + i * 67 + j);
            if (r.p(1, 2)) idx_args(s);
            return;
        }
        if (st < 11) { for (int i = 0; i < c->narg; i++) if (data(i)) { int b = 1 + r.u(c->arg[i].bits); for (int j = 0; j < c->arg[i].elems(); j++) { uint64_t v = r.next() & mask_of(b); if (r.p(1, 2)) v = -v; putel(s[i], c->arg[i], j, v); } } return; }
        if (st < 12) { for (int i = 0; i < c->narg; i++) if (data(i)) for (int j = 0; j < c->arg[i].elems(); j++) putel(s[i], c->arg[i], j, pick(c->arg[i])); edges(s); return; }
        for (int i = 0; i < c->narg; i++) if (data(i)) for (int j = 0; j < c->arg[i].elems(); j++) putel(s[i], c->arg[i], j, pick(c->arg[i]));
        relate(s);
    }
    void idx_args(uint8_t (*s)[SLOT]) { int i = c->narg - 1; if (i > 0 && data(i) && c->arg[i].bits == 8) for (int j = 0; j < c->arg[i].elems(); j++) s[i][j] = (uint8_t)r.u(r.p(1, 4) ? 256 : 40); }
    // operands related to each other: equal, negated, differing by little, adding up to a bound or to a multiple of a half range
    void relate(uint8_t (*s)[SLOT]) {
        int v[MAXARG], n = 0;
        for (int i = 0; i < c->narg; i++) if (data(i)) v[n++] = i;
        if (n < 1) return;
        if (n == 1) { int i = v[0]; const Arg& a = c->arg[i]; int e = a.elems(); if (e > 1) { int x = r.u(e), y = r.u(e); putel(s[i], a, y, rel1(getel(s[i], a, x), a)); } return; }
        int x = v[r.u(n)], y = v[r.u(n)]; if (x == y) y = v[(r.u(n - 1) + 1 + (std::find(v, v + n, x) - v)) % n];
        const Arg &ax = c->arg[x], &ay = c->arg[y];
        int mode = r.u(14), el = ay.elems(); bool one = r.p(1, 3); int pickl = r.u(el);
        for (int j = 0; j < el; j++) {
            if (one && j != pickl) continue;
            uint64_t src = getel(s[x], ax, j % ax.elems()); if (ax.kind == 's') src = (uint64_t)sx(src, ax.bits);
            int m = one ? (int)r.u(14) : mode; uint64_t o = src; int h = ay.bits / 2;
            switch (m) {
                case 0: o = src; break; case 1: o = src + 1; break; case 2: o = src - 1; break; case 3: o = -src; break; case 4: o = ~src; break;
                case 5: o = src ^ (1ull << r.u(ay.bits)); break;
                case 6: o = (mask_of(ay.bits) >> 1) - src + (uint64_t)((int64_t)r.u(5) - 2); break;
                case 7: o = (mask_of(ay.bits) >> 1) + src + (uint64_t)((int64_t)r.u(5) - 2); break;
                case 8: o = mask_of(ay.bits) - src + (uint64_t)((int64_t)r.u(5) - 2); break;
                case 9: o = src + ((uint64_t)r.next() << h) + (uint64_t)((int64_t)r.u(5) - 2); break;
                case 10: o = src + ((uint64_t)r.next() << h) + (1ull << (h - 1)) + (uint64_t)((int64_t)r.u(5) - 2); break;
                case 11: { uint64_t p = 1; for (int q = 0; q < n; q++) if (v[q] != y) { const Arg& aq = c->arg[v[q]]; uint64_t w = getel(s[v[q]], aq, j % aq.elems()); p *= aq.kind == 's' ? (uint64_t)sx(w, aq.bits) : w; } o = (r.p(1, 2) ? p : -p) + (uint64_t)((int64_t)r.u(5) - 2) + (r.p(1, 2) ? (mask_of(ay.bits) >> 1) : 0); break; }
                case 12: o = src >> 1; break; default: o = src << 1; break;
            }
            putel(s[y], ay, j, o);
        }
    }
    // floating-point operands in the arithmetic situations where one unit in the last place decides: exact and near ties of sums, products and quotients
    // (also below the normal range), overflow thresholds, cancellation, reciprocal relations
    bool floats() const { int n = 0; for (int i = 0; i < c->narg; i++) if (data(i) && c->arg[i].kind == 'f') n++; return n >= 2; }
    static uint64_t fbits(long double v, int bits) { if (bits == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return u; } double f = (double)v; uint64_t u; memcpy(&u, &f, 8); return u; }
    static long double fval(uint64_t v, int bits) { if (bits == 32) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; } double f; memcpy(&f, &v, 8); return f; }
    uint64_t odd(int bits) { return bits <= 1 ? 1 : ((1ull << (bits - 1)) | (r.next() & mask_of(bits - 1)) | 1); }      // odd, exactly that many bits
    uint64_t nudge(uint64_t v) { return r.p(1, 2) ? v : v + (uint64_t)((int64_t)r.u(5) - 2); }
    long double sgn() { return r.p(1, 2) ? 1 : -1; }
    void frelate(uint8_t (*s)[SLOT]) {
        int v[MAXARG], n = 0, el = 1;
        for (int i = 0; i < c->narg; i++) if (data(i) && c->arg[i].kind == 'f') { v[n++] = i; el = std::max(el, c->arg[i].elems()); }
        if (n < 2) return;
        int one = r.p(1, 4) ? (int)r.u(el) : -1, mode = r.u(24);
        for (int j = 0; j < el; j++) {
            if (one >= 0 && j != one) continue;
            int ix = v[r.u(n)], iy = v[r.u(n)]; if (ix == iy) { for (int q = 0; q < n; q++) if (v[q] != ix) { iy = v[q]; if (r.p(1, 2)) break; } }
            int iz = -1; for (int q = 0; q < n; q++) if (v[q] != ix && v[q] != iy) iz = v[q];
            const Arg &ax = c->arg[ix], &ay = c->arg[iy]; int B = ax.bits;
            const int p = B == 32 ? 24 : 53, emax = B == 32 ? 127 : 1023, esub = B == 32 ? -149 : -1074, emin = B == 32 ? -126 : -1022;   // 2^esub: smallest subnormal
            auto X = [&](uint64_t b) { putel(s[ix], ax, j % ax.elems(), b); }; auto Y = [&](uint64_t b) { putel(s[iy], ay, j % ay.elems(), b); };
            auto anyexp = [&](int lo, int hi) { return r.p(1, 2) ? lo + (int)r.u(hi - lo + 1) : std::max(lo, std::min(hi, (int)r.u(41) - 20)); };
            uint64_t cx = getel(s[ix], ax, j % ax.elems()); long double x = fval(cx, B); bool fin = (x == x && fabsl(x) < ldexpl(1, emax + 1) && x != 0);
            if (!fin) { x = sgn() * ldexpl((long double)odd(1 + r.u(p)), anyexp(-p - 20, 20)); cx = fbits(x, B); X(cx); }
            switch (r.p(1, 4) ? (int)r.u(24) : mode) {
                case 0: case 1: case 2: {                       // sum half way between two neighbours
                    int e = anyexp(esub + 1, emax - p - 2); uint64_t m = odd(p) ^ (r.p(1, 2) ? 1 : 0); X(fbits(sgn() * ldexpl(m, e), B));
                    int kb = r.u(p); uint64_t k = kb ? r.next() & mask_of(kb) : 0; int d = 1 + (r.p(1, 4) ? r.u(p) : 0);
                    Y(nudge(fbits(sgn() * ldexpl((long double)(2 * k + 1), e - d < esub ? esub : e - d), B))); break; }
                case 3: case 4: case 5: {                       // product with one bit too many (or its neighbours), anywhere in range, also at the edge of the subnormals
                    int a = 2 + r.u(p - 2), b = p + 1 - a + (int)r.u(2); uint64_t m1 = odd(a), m2 = odd(b); int e = anyexp(emin, emax - p);
                    int t = r.p(1, 3) ? esub - 1 - (int)r.u(r.p(1, 2) ? 1 : p) : anyexp(esub - 1, emax - p); if (r.p(1, 3) && t == esub - 1) { a = 1 + r.u(p); b = 1 + r.u(p); m1 = odd(a); m2 = odd(b); }
                    int e2 = t - e; if (e2 < esub) { e += e2 - esub; e2 = esub; } if (e2 + b > emax) { e += e2 - (emax - b); e2 = emax - b; } if (e < esub) e = esub; if (e + a > emax) e = emax - a;
                    X(nudge(fbits(sgn() * ldexpl(m1, e), B))); Y(fbits(sgn() * ldexpl(m2, e2), B)); break; }
                case 6: case 7: {                               // quotient an odd multiple of half the smallest subnormal
                    int db = 1 + r.u(p - 1), mb = 1 + r.u(p - db + (r.p(1, 4) ? db : 0)); uint64_t dd = odd(db), m = odd(mb); long double q = (long double)m * (long double)dd;
                    int lo = std::max(esub, emin - mb - db), sb = 0; int sa = lo + (int)r.u(40); sb = sa - (esub - 1); if (sb + db > emax) { int k = sb + db - emax; sb -= k; sa -= k; }
                    bool xy = r.p(1, 2); uint64_t A = nudge(fbits(sgn() * ldexpl(q, sa), B)), D = fbits(sgn() * ldexpl(dd, sb), B); if (ix < iy || xy) { putel(s[std::min(ix, iy)], c->arg[std::min(ix, iy)], j % c->arg[std::min(ix, iy)].elems(), A); putel(s[std::max(ix, iy)], c->arg[std::max(ix, iy)], j % c->arg[std::max(ix, iy)].elems(), D); } else { X(A); Y(D); } break; }
                case 8: if (r.p(1, 2)) {                        // quotients and products as close to the middle of two neighbours as any come
                    uint64_t dd = odd(p), inv = dd; for (int q = 0; q < 6; q++) inv *= 2 - dd * inv;
                    int64_t k = (int64_t)(1 + 2 * r.u(r.p(3, 4) ? 1 : 8)) * (r.p(1, 2) ? 1 : -1); int e1 = anyexp(-60, 60), e2 = anyexp(-60, 60); int lo = std::min(ix, iy), hi = std::max(ix, iy);
                    if (r.p(1, 2)) {                            // m * dd = a * 2^sh + k with m a midpoint
                        int sh = p + (int)r.u(2); uint64_t m = inv * (uint64_t)k & mask_of(sh); if (sh == p) m |= 1ull << p;
                        unsigned __int128 pr = (unsigned __int128)m * dd; uint64_t a = (uint64_t)((pr - (__int128)k) >> sh);
                        if (!(a >> p)) { putel(s[lo], c->arg[lo], j % c->arg[lo].elems(), fbits(sgn() * ldexpl((long double)a, e1 - p), B)); putel(s[hi], c->arg[hi], j % c->arg[hi].elems(), fbits(sgn() * ldexpl((long double)dd, e2 - p), B)); }
                    } else {                                    // the low half of the product is the middle, more or less one
                        uint64_t m = inv * ((1ull << (p - 1)) + (uint64_t)k) & mask_of(p); X(fbits(sgn() * ldexpl((long double)m, e1 - p), B)); Y(fbits(sgn() * ldexpl((long double)dd, e2 - p), B));
                    }
                    break; }
                    // fall through
                case 9: {                                       // quotient next to the middle of two neighbours, or exact
                    uint64_t dd = odd(1 + r.u(p)); uint64_t q = r.p(2, 3) ? odd(p + 1) : odd(1 + r.u(p)); int e1 = anyexp(-60, 60), e2 = anyexp(-60, 60);
                    int lo = std::min(ix, iy), hi = std::max(ix, iy); putel(s[lo], c->arg[lo], j % c->arg[lo].elems(), nudge(fbits(sgn() * ldexpl((long double)q * (long double)dd, e1 - p), B))); putel(s[hi], c->arg[hi], j % c->arg[hi].elems(), fbits(sgn() * ldexpl(dd, e2), B)); break; }
                case 10: {                                      // sum at the overflow threshold
                    uint64_t mx = fbits(ldexpl((long double)mask_of(p), emax - p + 1), B); long double sg = sgn(); X(fbits(sg * fval(mx - r.u(4), B), B)); Y(nudge(fbits(sg * ldexpl(1, emax - p + (int)r.u(3) - 1), B))); break; }
                case 11: {                                      // halves of the sum near the threshold
                    long double mx = ldexpl((long double)mask_of(p), emax - p + 1); if (fabsl(x) < ldexpl(1, emax - p - 2)) { x = sgn() * ldexpl(odd(p), emax - p - (int)r.u(4)); X(fbits(x, B)); } Y(nudge(fbits((x < 0 ? -mx : mx) - x, B))); break; }
                case 12: { long double mx = ldexpl(1, emax + 1 - (int)r.u(2)); Y(nudge(fbits(sgn() * (fabsl(mx / x) >= ldexpl(1, emax + 1) ? ldexpl((long double)mask_of(p), emax - p + 1) : mx / x), B))); break; }      // product at the threshold
                case 13: { long double q = x * ldexpl(1, emin - (int)r.u(r.p(1, 2) ? 3 : p + 2)); Y(nudge(fbits(sgn() * (r.p(1, 2) ? q : ldexpl(1, emin - (int)r.u(r.p(1, 2) ? 3 : p + 2)) / x), B))); break; }    // product or quotient at the smallest normal and below
                case 14: case 15: { uint64_t y = cx + (uint64_t)((int64_t)r.u(r.p(1, 2) ? 5 : 2000) - (r.p(1, 2) ? 2 : 1000)); if (r.p(1, 2)) y ^= 1ull << (B - 1); Y(y); break; }          // neighbours: cancellation, comparison
                case 16: case 17: { static const long double cs[] = {1, 2, 3, 0.5L, 4, 1.5L}; Y(nudge(fbits(cs[r.u(6)] / x, B))); break; }
                case 18: case 19: case 20: if (iz >= 0) {       // third operand takes away a product
                    long double y = fval(getel(s[iy], ay, j % ay.elems()), B); const Arg& az = c->arg[iz]; long double pr = x * y; uint64_t b = fbits(sgn() * pr, B); if (r.p(1, 3)) b = fbits(sgn() * (long double)fval(fbits(pr, B), B) * (r.p(1, 2) ? 1 : 2), B); putel(s[iz], az, j % az.elems(), nudge(b)); break; }
                    // fall through
                case 21: Y(nudge(fbits(x * ldexpl(1, (int)r.u(2 * p + 5) - p - 2), B))); break;
                case 22: { X(r.u(64) | (r.p(1, 2) ? 1ull << (B - 1) : 0)); Y((r.p(1, 2) ? r.u(64) : fbits(ldexpl(1, emin), B) + (int64_t)r.u(9) - 4) | (r.p(1, 2) ? 1ull << (B - 1) : 0)); break; }
                default: { auto sp = [&]() -> uint64_t { const auto& b = bset(ax); return b[r.u(b.size())]; }; X(sp()); Y(sp()); }
            }
        }
    }
    uint64_t rel1(uint64_t v, const Arg& a) { switch (r.u(6)) { case 0: return v; case 1: return v + 1; case 2: return v - 1; case 3: return -v; case 4: return ~v; default: return v ^ (1ull << r.u(a.bits)); } }
    // around rounding and saturation edges of a shift by the immediate (or by half the width)
    void edges(uint8_t (*s)[SLOT]) {
        int n = c->immarg >= 0 ? getimm(s) : 0;
        for (int i = 0; i < c->narg; i++) if (data(i)) {
            const Arg& a = c->arg[i]; int h = a.bits / 2;
            for (int j = 0; j < a.elems(); j++) {
                int sh = n > 0 && n < 64 && r.p(3, 4) ? n : h; uint64_t lim;
                switch (r.u(6)) { case 0: lim = mask_of(h); break; case 1: lim = mask_of(h) >> 1; break; case 2: lim = -((mask_of(h) >> 1) + 1); break; case 3: lim = 0; break; case 4: lim = -1ull; break; default: lim = r.next() & mask_of(h); }
                uint64_t v = (sh < 64 ? lim << sh : 0); if (r.p(1, 2)) v += 1ull << (sh - 1); if (r.p(1, 4)) v += (1ull << (sh & 63)) - 1; v += (uint64_t)((int64_t)r.u(5) - 2);
                putel(s[i], a, j, v);
            }
        }
    }
    void mutate(uint8_t (*s)[SLOT], const uint64_t (*cmp)[2], int ncmp) {
        int k = 1 + r.u(3);
        while (k--) {
            if (c->immarg >= 0 && r.p(1, 8)) { setimm(s); continue; }
            if (floats() && r.p(1, 6)) { frelate(s); continue; }
            int v[MAXARG], n = 0; for (int i = 0; i < c->narg; i++) if (data(i)) v[n++] = i;
            int i = v[r.u(n)]; const Arg& a = c->arg[i]; int e = a.elems(), j = r.u(e); uint64_t x = getel(s[i], a, j);
            switch (r.u(12)) {
                case 0: x ^= 1ull << r.u(a.bits); break;
                case 1: x += (uint64_t)((int64_t)r.u(9) - 4); break;
                case 2: x = pick(a); break;
                case 3: x = dictel(a); break;
                case 4: x = getel(s[i], a, r.u(e)); break;
                case 5: { int o = v[r.u(n)]; const Arg& b = c->arg[o]; x = getel(s[o], b, r.u(b.elems())); if (b.kind == 's') x = (uint64_t)sx(x, b.bits); break; }
                case 6: x = -x; break;
                case 7: x = ~x; break;
                case 8: { for (int q = 0; q < e; q++) putel(s[i], a, q, x); break; }
                default:                                  // input to state: a value seen on one side of a comparison becomes the other
                    if (ncmp) {
                        int t = r.u(ncmp); uint64_t from = cmp[t][0], to = cmp[t][1]; if (r.p(1, 2)) std::swap(from, to);
                        bool hit = false;
                        for (int q0 = 0, q = r.u(n); q0 < n && !hit; q0++, q = (q + 1) % n) { const Arg& b = c->arg[v[q]]; int st = r.u(b.elems()); for (int w = 0; w < b.elems(); w++) { int l = (w + st) % b.elems(); if (getel(s[v[q]], b, l) == (from & mask_of(b.bits))) { putel(s[v[q]], b, l, to); hit = true; break; } } }
                        if (!hit) x = to + (uint64_t)((int64_t)r.u(3) - 1); else x = getel(s[i], a, j);
                    } else relate(s), x = getel(s[i], a, j);
            }
            putel(s[i], a, j, x);
        }
    }
};

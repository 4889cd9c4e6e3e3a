// Helpers the law bodies use; plain bit manipulation, no intrinsics.
#pragma once
#include "model.hpp"
typedef Vec<uint8_t, 8> B8;
typedef Vec<uint8_t, 16> B16;
template <class T, int N> static inline Vec<T, N / 2> lo(const Vec<T, N>& v) { Vec<T, N / 2> r; memcpy(&r, v.val, sizeof r); return r; }
template <class T, int N> static inline Vec<T, N / 2> hi(const Vec<T, N>& v) { Vec<T, N / 2> r; memcpy(&r, v.val + N / 2, sizeof r); return r; }
template <class T, int N> static inline Vec<T, 2 * N> cat(const Vec<T, N>& a, const Vec<T, N>& b) { Vec<T, 2 * N> r; memcpy(r.val, &a, sizeof a); memcpy(r.val + N, &b, sizeof b); return r; }
template <class T, int N, int K> static inline Arr<Vec<T, N / 2>, K> lok(const Arr<Vec<T, N>, K>& v) { Arr<Vec<T, N / 2>, K> r; for (int k = 0; k < K; k++) r.val[k] = lo(v.val[k]); return r; }
template <class T, int N, int K> static inline Arr<Vec<T, N / 2>, K> hik(const Arr<Vec<T, N>, K>& v) { Arr<Vec<T, N / 2>, K> r; for (int k = 0; k < K; k++) r.val[k] = hi(v.val[k]); return r; }
template <class D, class Sx> static inline D as(const Sx& s) { static_assert(sizeof(D) == sizeof(Sx), "size"); D d; memcpy(&d, &s, sizeof d); return d; }
template <class Sx> static inline Vec<uint8_t, sizeof(Sx)> bytes(const Sx& s) { Vec<uint8_t, sizeof(Sx)> d; memcpy(&d, &s, sizeof d); return d; }
template <class V> struct ElemOf; template <class T, int N> struct ElemOf<Vec<T, N>> { typedef T type; enum { n = N }; };
template <class V> static inline V splat(typename ElemOf<V>::type s) { V r; for (int i = 0; i < ElemOf<V>::n; i++) memcpy(&r.val[i], &s, sizeof s); return r; }
template <class X> static inline void fillff(X& x) { memset(&x, 0xA5, sizeof x); }
template <class X> struct FpOf { enum { v = 0 }; };
template <> struct FpOf<float> { enum { v = 32 }; };
template <> struct FpOf<double> { enum { v = 64 }; };
template <class T, int N> struct FpOf<Vec<T, N>> { enum { v = FpOf<T>::v }; };
template <class X, class Y> static inline bool eq_(const X& x, const Y& y, int fp, const char* what, LawResult* res) {
    static_assert(sizeof(X) == sizeof(Y), "size");
    if (same_bits((const uint8_t*)&x, (const uint8_t*)&y, sizeof x, fp)) return true;
    if (!res->bad) {
        res->bad = 1; res->nb = sizeof x > 64 ? 64 : sizeof x;
        memcpy(res->l, &x, res->nb); memcpy(res->r, &y, res->nb); strncpy(res->what, what, sizeof res->what - 1);
    }
    return false;
}
template <class X> static inline void eqv(LawResult* res, int fp, const char* what, const X& x, const X& y) { eq_(x, y, fp ? FpOf<X>::v : 0, what, res); }
template <class X, class Y> static inline void eqv(LawResult* res, int fp, const char* what, const X& x, const Y& y) { X y2 = (X)y; eq_(x, y2, fp ? FpOf<X>::v : 0, what, res); }
template <class X, class Y> static inline void chk_(LawResult* res, const char* what, bool ok, const X& x, const Y& y) {
    if (ok || res->bad) return;
    X y2 = (X)y; res->bad = 1; res->nb = sizeof x; memcpy(res->l, &x, sizeof x); memcpy(res->r, &y2, sizeof x); strncpy(res->what, what, sizeof res->what - 1);
}
#define EQ(...) eqv(res, 0, #__VA_ARGS__, __VA_ARGS__)
#define EQF(...) eqv(res, 1, #__VA_ARGS__, __VA_ARGS__)
#define CHECK(c, x, y) chk_(res, #c, (c), (x), (y))

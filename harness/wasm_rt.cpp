// Runs calls it finds in its memory; built with the library's sources for WebAssembly, without any system library.
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
typedef void (*thunk_t)(const unsigned char* const* in, unsigned char* out, void* mem);
struct Call { uint32_t fn, status, memoff, pad; uint8_t in[4][64]; uint8_t out[64]; uint8_t mem[192]; };
struct Shm { uint32_t count, at, ready, pad; Call c[512]; };
static Shm shm;
extern "C" {
extern thunk_t const ns_table[]; extern const int ns_count;
__attribute__((export_name("ns_shm"))) void* ns_shm() { return &shm; }
__attribute__((export_name("ns_size"))) int ns_size() { return sizeof shm; }
__attribute__((export_name("ns_one"))) void ns_one(uint32_t i) { Call& c = shm.c[i]; if (c.fn >= (uint32_t)ns_count) return; const uint8_t* p[4] = {c.in[0], c.in[1], c.in[2], c.in[3]}; ns_table[c.fn](p, c.out, c.mem + c.memoff); c.status = 1; }
void __wasm_call_ctors(); __attribute__((export_name("ns_init"))) void ns_init() { __wasm_call_ctors(); }
// provided by the host: stop the call
__attribute__((import_name("stop"), import_module("env"))) void host_stop(int);
void abort() { host_stop(3); } void exit(int) { host_stop(3); } void _exit(int) { host_stop(3); } void __assert_fail(const char*, const char*, unsigned, const char*) { host_stop(3); } void __stack_chk_fail() { host_stop(3); }
void* stderr; void* stdout; void* stdin; int ns_errno; int* __errno_location() { return &ns_errno; }
int fprintf(void*, const char*, ...) { return 0; } int printf(const char*, ...) { return 0; } int vfprintf(void*, const char*, va_list) { return 0; } int puts(const char*) { return 0; } int fputs(const char*, void*) { return 0; } int fputc(int c, void*) { return c; } int putchar(int c) { return c; } int fflush(void*) { return 0; }
size_t fwrite(const void*, size_t, size_t n, void*) { return n; } void perror(const char*) {}
void* memcpy(void* d, const void* s, size_t n) { unsigned char* a = (unsigned char*)d; const unsigned char* b = (const unsigned char*)s; while (n--) *a++ = *b++; return d; }
void* memset(void* d, int v, size_t n) { unsigned char* a = (unsigned char*)d; while (n--) *a++ = (unsigned char)v; return d; }
void* memmove(void* d, const void* s, size_t n) { unsigned char* a = (unsigned char*)d; const unsigned char* b = (const unsigned char*)s; if (a < b) for (size_t i = 0; i < n; i++) a[i] = b[i]; else while (n--) a[n] = b[n]; return d; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); } void* memchr(const void* p, int v, size_t n) { const unsigned char* a = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (a[i] == (unsigned char)v) return (void*)(a + i); return nullptr; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int abs(int v) { return v < 0 ? -v : v; } long labs(long v) { return v < 0 ? -v : v; } long long llabs(long long v) { return v < 0 ? -v : v; }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; } void* __dso_handle; int __cxa_guard_acquire(char* g) { return !*g; } void __cxa_guard_release(char* g) { *g = 1; } void __cxa_guard_abort(char*) {} void __cxa_pure_virtual() { host_stop(3); }
static char heap[1 << 22] __attribute__((aligned(16))); static size_t hp;
void* malloc(size_t n) { n = (n + 31) & ~(size_t)15; if (hp + n > sizeof heap) hp = 0; char* p = heap + hp; hp += n; *(size_t*)p = n; return p + 16; }
void free(void*) {} void* calloc(size_t a, size_t b) { void* p = malloc(a * b); memset(p, 0, a * b); return p; } void* realloc(void* q, size_t n) { void* p = malloc(n); if (q) { size_t o = ((size_t*)((char*)q - 16))[0] - 16; memcpy(p, q, o < n ? o : n); } return p; }
double rint(double x) { return __builtin_rint(x); } float rintf(float x) { return __builtin_rintf(x); } double nearbyint(double x) { return __builtin_nearbyint(x); } float nearbyintf(float x) { return __builtin_nearbyintf(x); }
double floor(double x) { return __builtin_floor(x); } float floorf(float x) { return __builtin_floorf(x); } double ceil(double x) { return __builtin_ceil(x); } float ceilf(float x) { return __builtin_ceilf(x); } double trunc(double x) { return __builtin_trunc(x); } float truncf(float x) { return __builtin_truncf(x); }
double roundeven(double x) { return __builtin_rint(x); } float roundevenf(float x) { return __builtin_rintf(x); }
double round(double x) { double t = trunc(x), d = x - t; if (d >= 0.5) t += 1; if (d <= -0.5) t -= 1; return __builtin_copysign(t, x); } float roundf(float x) { return (float)round(x); }
long lrint(double x) { return (long)rint(x); } long lrintf(float x) { return (long)rint(x); } long long llrint(double x) { return (long long)rint(x); } long long llrintf(float x) { return (long long)rint(x); }
long lround(double x) { return (long)round(x); } long lroundf(float x) { return (long)round(x); } long long llround(double x) { return (long long)round(x); } long long llroundf(float x) { return (long long)round(x); }
double sqrt(double x) { return __builtin_sqrt(x); } float sqrtf(float x) { return __builtin_sqrtf(x); } double fabs(double x) { return __builtin_fabs(x); } float fabsf(float x) { return __builtin_fabsf(x); } double copysign(double x, double y) { return __builtin_copysign(x, y); } float copysignf(float x, float y) { return __builtin_copysignf(x, y); }
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b || (a == b && __builtin_signbit(a)) ? a : b; } float fminf(float a, float b) { return (float)fmin(a, b); }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b || (a == b && !__builtin_signbit(a)) ? a : b; } float fmaxf(float a, float b) { return (float)fmax(a, b); }
__attribute__((import_name("fmod"), import_module("env"))) double host_fmod(double, double);
double fmod(double x, double y) { return host_fmod(x, y); } float fmodf(float x, float y) { return (float)host_fmod(x, y); }
double ldexp(double x, int n) {     // rounds once: all steps but the last are exact
    if (n > 3000) n = 3000; if (n < -3000) n = -3000;
    while (n > 1023) { x *= 8.98846567431158e307; n -= 1023; }
    if (n < -1022) { union { double d; uint64_t u; } v = {x}; int e = (int)(v.u >> 52 & 0x7ff); if (e > 60) { int k = e - 60 < -n ? e - 60 : -n; while (k > 1000) { x *= 9.332636185032189e-302; k -= 1000; n += 1000; } v.u = (uint64_t)(1023 - k) << 52; x *= v.d; n += k; } while (n < -1022) { x *= 2.2250738585072014e-308; n += 1022; } }
    union { uint64_t u; double d; } s = {(uint64_t)(1023 + n) << 52}; return x * s.d;
}
float ldexpf(float x, int n) { return (float)ldexp(x, n); } double scalbn(double x, int n) { return ldexp(x, n); } float scalbnf(float x, int n) { return (float)ldexp(x, n); }
double frexp(double x, int* e) { union { double d; uint64_t u; } v = {x}; *e = 0; if (x == 0 || x - x != 0) return x; int k = 0; if (!(v.u >> 52 & 0x7ff)) { v.d *= 18014398509481984.0; k = -54; } k += (int)(v.u >> 52 & 0x7ff) - 1022; v.u = (v.u & ~(0x7ffull << 52)) | 1022ull << 52; *e = k; return v.d; }
float frexpf(float x, int* e) { return (float)frexp(x, e); }
float fmaf(float a, float b, float c) {      // the product is exact; the sum is rounded to odd first
    double p = (double)a * b, s = p + c; if (s - s != 0) return (float)s;
    double bb = s - p, e1 = s - bb, e2 = p - e1, e3 = c - bb; double err = e2 + e3; union { double d; uint64_t u; } v = {s};
    if (err != 0 && !(v.u & 1)) { if ((err > 0) == (s > 0)) v.u++; else v.u--; }
    return (float)v.d;
}
int __isnanf(float x) { return x != x; } int __isnan(double x) { return x != x; } int __isinff(float x) { return __builtin_isinf(x); } int __isinf(double x) { return __builtin_isinf(x); } int __finitef(float x) { return x - x == 0; } int __finite(double x) { return x - x == 0; }
int __signbitf(float x) { return __builtin_signbit(x); } int __signbit(double x) { return __builtin_signbit(x); }
int __fpclassifyf(float x) { return __builtin_fpclassify(0, 1, 4, 3, 2, x); } int __fpclassify(double x) { return __builtin_fpclassify(0, 1, 4, 3, 2, x); }
// 128-bit products, which this machine leaves to a library
void __multi3(uint64_t* r, uint64_t al, uint64_t ah, uint64_t bl, uint64_t bh) { uint64_t a0 = (uint32_t)al, a1 = al >> 32, b0 = (uint32_t)bl, b1 = bl >> 32; uint64_t p0 = a0 * b0, p1 = a1 * b0 + (p0 >> 32), p2 = a0 * b1 + (uint32_t)p1; r[0] = (uint64_t)(uint32_t)p0 | p2 << 32; r[1] = a1 * b1 + (p1 >> 32) + (p2 >> 32) + al * bh + ah * bl; }
void __ashlti3(uint64_t* r, uint64_t l, uint64_t h, int n) { if (n >= 64) { r[1] = l << (n - 64); r[0] = 0; } else if (n) { r[1] = h << n | l >> (64 - n); r[0] = l << n; } else { r[0] = l; r[1] = h; } }
void __lshrti3(uint64_t* r, uint64_t l, uint64_t h, int n) { if (n >= 64) { r[0] = h >> (n - 64); r[1] = 0; } else if (n) { r[0] = l >> n | h << (64 - n); r[1] = h >> n; } else { r[0] = l; r[1] = h; } }
void __ashrti3(uint64_t* r, uint64_t l, uint64_t h, int n) { int64_t s = (int64_t)h; if (n >= 64) { r[0] = (uint64_t)(s >> (n - 64)); r[1] = (uint64_t)(s >> 63); } else if (n) { r[0] = l >> n | h << (64 - n); r[1] = (uint64_t)(s >> n); } else { r[0] = l; r[1] = h; } }
}
void* operator new(size_t n) { return malloc(n); } void* operator new[](size_t n) { return malloc(n); }
void operator delete(void*) noexcept {} void operator delete[](void*) noexcept {} void operator delete(void*, size_t) noexcept {} void operator delete[](void*, size_t) noexcept {}

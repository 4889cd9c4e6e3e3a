// A 32-bit program without any system library: runs calls it finds in shared memory. Built with the library's sources for a 32-bit target.
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
typedef void (*thunk_t)(const unsigned char* const* in, unsigned char* out, void* mem);
extern "C" { extern thunk_t const ns_table[]; extern const int ns_count; extern const char __ehdr_start[]; extern void (*__init_array_start[])(); extern void (*__init_array_end[])(); }
struct Call { uint32_t fn, status, memoff, pad; uint8_t in[4][64]; uint8_t out[64]; uint8_t mem[192]; };
struct Shm { uint32_t count, at, ready, pad; Call c[512]; };

static int sys(int n, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0) { int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory"); return r; }
static void* jb[5]; static uint32_t* where;
static void leave(uint32_t st) { if (where) { *where = st; __builtin_longjmp(jb, 1); } sys(252, (int)st + 100); for (;;) {} }

extern "C" {
__attribute__((used)) void ns_unresolved() { leave(2); }       // something of a system library that is not here: no verdict on this call
void abort() { leave(3); for (;;) {} }
void __assert_fail(const char*, const char*, unsigned, const char*) { abort(); }
void exit(int) { leave(3); for (;;) {} }
void _exit(int) { leave(3); for (;;) {} }
void __stack_chk_fail() { leave(3); }
void* stderr; void* stdout; int ns_errno; int* __errno_location() { return &ns_errno; }
int fprintf(void*, const char*, ...) { return 0; } int printf(const char*, ...) { return 0; } int __fprintf_chk(void*, int, const char*, ...) { return 0; } int __printf_chk(int, const char*, ...) { return 0; }
int vfprintf(void*, const char*, va_list) { return 0; } int puts(const char*) { return 0; } int fputs(const char*, void*) { return 0; } int fputc(int c, void*) { return c; } int putchar(int c) { return c; } int fflush(void*) { return 0; }
size_t fwrite(const void*, size_t, size_t n, void*) { return n; } void perror(const char*) {}
void* memcpy(void* d, const void* s, size_t n) { void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* __memcpy_chk(void* d, const void* s, size_t n, size_t) { return memcpy(d, s, n); }
void* memset(void* d, int v, size_t n) { void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) { unsigned char* a = (unsigned char*)d; const unsigned char* b = (const unsigned char*)s; if (a < b) for (size_t i = 0; i < n; i++) { a[i] = b[i]; __asm__ volatile("" : : : "memory"); } else while (n--) { a[n] = b[n]; __asm__ volatile("" : : : "memory"); } return d; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); } void* memchr(const void* p, int v, size_t n) { const unsigned char* a = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (a[i] == (unsigned char)v) return (void*)(a + i); return nullptr; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) { n++; __asm__ volatile("" : : : "memory"); } return n; }
int abs(int v) { return v < 0 ? -v : v; } long labs(long v) { return v < 0 ? -v : v; } long long llabs(long long v) { return v < 0 ? -v : v; }
// static objects
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; } void* __dso_handle;
int __cxa_guard_acquire(char* g) { return !*g; } void __cxa_guard_release(char* g) { *g = 1; } void __cxa_guard_abort(char*) {} void __cxa_pure_virtual() { abort(); }
// heap: enough for anything a call may want
static char heap[1 << 24]; static size_t hp;
void* malloc(size_t n) { n = (n + 31) & ~(size_t)15; if (hp + n > sizeof heap) hp = 0; char* p = heap + hp; hp += n; *(size_t*)p = n; return p + 16; }
void free(void*) {} void* calloc(size_t a, size_t b) { void* p = malloc(a * b); memset(p, 0, a * b); return p; } void* realloc(void* q, size_t n) { void* p = malloc(n); if (q) { size_t o = ((size_t*)((char*)q - 16))[0] - 16; memcpy(p, q, o < n ? o : n); } return p; }
// 64-bit division for compilers without hardware support
uint64_t __udivmoddi4(uint64_t a, uint64_t b, uint64_t* r) { uint64_t q = 0, m = 0; for (int i = 63; i >= 0; i--) { bool top = m >> 63; m = m << 1 | (a >> i & 1); if (top || m >= b) { m -= b; q |= 1ull << i; } } if (r) *r = m; return q; }
uint64_t __udivdi3(uint64_t a, uint64_t b) { return __udivmoddi4(a, b, nullptr); } uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; __udivmoddi4(a, b, &r); return r; }
int64_t __divmoddi4(int64_t a, int64_t b, int64_t* r) { uint64_t m; uint64_t q = __udivmoddi4(a < 0 ? 0 - (uint64_t)a : (uint64_t)a, b < 0 ? 0 - (uint64_t)b : (uint64_t)b, &m); if (r) *r = a < 0 ? (int64_t)(0 - m) : (int64_t)m; return (a < 0) != (b < 0) ? (int64_t)(0 - q) : (int64_t)q; }
int64_t __divdi3(int64_t a, int64_t b) { return __divmoddi4(a, b, nullptr); } int64_t __moddi3(int64_t a, int64_t b) { int64_t r; __divmoddi4(a, b, &r); return r; }
int __popcountsi2(unsigned v) { int n = 0; for (; v; v &= v - 1) n++; return n; } int __popcountdi2(uint64_t v) { return __popcountsi2((unsigned)v) + __popcountsi2((unsigned)(v >> 32)); } int __clzdi2(uint64_t v) { int n = 0; while (!(v >> 63)) { v <<= 1; n++; } return n; } int __ctzdi2(uint64_t v) { int n = 0; while (!(v & 1)) { v >>= 1; n++; } return n; }
// integer mathematics in the x87 registers is exact in 64 bits of mantissa
static long double rnd(long double x, int mode) { unsigned short o, n; __asm__ volatile("fnstcw %0" : "=m"(o)); n = (o & ~0xc00) | mode << 10; if (mode < 0) n = o; __asm__ volatile("fldcw %0" : : "m"(n)); __asm__ volatile("frndint" : "+t"(x)); __asm__ volatile("fldcw %0" : : "m"(o)); return x; }
#define R(name, mode) double name(double x) { return (double)rnd(x, mode); } float name##f(float x) { return (float)rnd(x, mode); } long double name##l(long double x) { return rnd(x, mode); }
R(rint, -1) R(nearbyint, -1) R(floor, 1) R(ceil, 2) R(trunc, 3) R(roundeven, 0)
static long double away(long double x) { long double t = rnd(x, 3); long double d = x - t; if (d >= 0.5L) t += 1; if (d <= -0.5L) t -= 1; return t == 0 ? __builtin_copysignl(t, x) : t; }
double round(double x) { return (double)away(x); } float roundf(float x) { return (float)away(x); }
long lrint(double x) { return (long)rnd(x, -1); } long lrintf(float x) { return (long)rnd(x, -1); } long long llrint(double x) { return (long long)rnd(x, -1); } long long llrintf(float x) { return (long long)rnd(x, -1); }
long lround(double x) { return (long)away(x); } long lroundf(float x) { return (long)away(x); } long long llround(double x) { return (long long)away(x); } long long llroundf(float x) { return (long long)away(x); }
double sqrt(double x) { double r; __asm__("sqrtsd %1,%0" : "=x"(r) : "x"(x)); return r; } float sqrtf(float x) { float r; __asm__("sqrtss %1,%0" : "=x"(r) : "x"(x)); return r; }
double fabs(double x) { return __builtin_fabs(x); } float fabsf(float x) { return __builtin_fabsf(x); } double copysign(double x, double y) { return __builtin_copysign(x, y); } float copysignf(float x, float y) { return __builtin_copysignf(x, y); }
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b || (a == b && __builtin_signbit(a)) ? a : b; } float fminf(float a, float b) { return (float)fmin(a, b); }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b || (a == b && !__builtin_signbit(a)) ? a : b; } float fmaxf(float a, float b) { return (float)fmax(a, b); }
static long double rem_(long double x, long double y) { unsigned short s; do { __asm__ volatile("fprem\n fnstsw %1" : "+t"(x), "=a"(s) : "u"(y)); } while (s & 0x400); return x; }
double fmod(double x, double y) { return (double)rem_(x, y); } float fmodf(float x, float y) { return (float)rem_(x, y); }
static long double scal(long double x, int n) { long double e = n > 40000 ? 40000 : n < -40000 ? -40000 : n; long double r; __asm__("fscale" : "=t"(r) : "0"(x), "u"(e)); return r; }
double ldexp(double x, int n) { return (double)scal(x, n); } float ldexpf(float x, int n) { return (float)scal(x, n); } double scalbn(double x, int n) { return (double)scal(x, n); } float scalbnf(float x, int n) { return (float)scal(x, n); }
double frexp(double x, int* e) { union { double d; uint64_t u; } v = {x}; *e = 0; if (x == 0 || x - x != 0) return x; int k = 0; if (!(v.u >> 52 & 0x7ff)) { v.d *= 18014398509481984.0; k = -54; } k += (int)(v.u >> 52 & 0x7ff) - 1022; v.u = (v.u & ~(0x7ffull << 52)) | 1022ull << 52; *e = k; return v.d; }
float frexpf(float x, int* e) { return (float)frexp(x, e); }
float fmaf(float a, float b, float c) {      // the product is exact; the sum is rounded to odd first
    volatile double p = (double)a * b; volatile double s = p + c; if (s - s != 0) return (float)s;
    volatile double bb = s - p, e1 = s - bb, e2 = p - e1, e3 = c - bb; double err = e2 + e3; union { double d; uint64_t u; } v = {s};
    if (err != 0 && !(v.u & 1)) { if ((err > 0) == (s > 0)) v.u++; else v.u--; }
    return (float)v.d;
}
int __isnanf(float x) { return x != x; } int __isnan(double x) { return x != x; } int __isinff(float x) { return __builtin_isinf(x); } int __isinf(double x) { return __builtin_isinf(x); } int __finitef(float x) { return x - x == 0; } int __finite(double x) { return x - x == 0; }
int __signbitf(float x) { return __builtin_signbit(x); } int __signbit(double x) { return __builtin_signbit(x); }
int __fpclassifyf(float x) { return __builtin_fpclassify(0, 1, 4, 3, 2, x); } int __fpclassify(double x) { return __builtin_fpclassify(0, 1, 4, 3, 2, x); }
}
void* operator new(size_t n) { return malloc(n); } void* operator new[](size_t n) { return malloc(n); }
void operator delete(void*) noexcept {} void operator delete[](void*) noexcept {} void operator delete(void*, size_t) noexcept {} void operator delete[](void*, size_t) noexcept {}

static struct { uint32_t entry, base, limit, flags; } desc;
static char tls[65536] __attribute__((aligned(64)));
static void setup_tls() {
    struct Eh { char id[16]; uint16_t a, b; uint32_t c, d, phoff, e, f; uint16_t g, phsz, phn; }; struct Ph { uint32_t type, off, vaddr, paddr, filesz, memsz, flags, align; };
    const Eh* h = (const Eh*)__ehdr_start; char* tp = tls + 60000 - 60000 % 64;
    for (int i = 0; i < h->phn; i++) { const Ph* p = (const Ph*)((const char*)h + h->phoff + i * h->phsz); if (p->type != 7) continue; uint32_t al = p->align ? p->align : 1, sz = (p->memsz + al - 1) / al * al; if (sz < 50000) memcpy(tp - sz, (void*)p->vaddr, p->filesz); }
    *(void**)tp = tp; desc = {0xffffffff, (uint32_t)tp, 0xfffff, 0x51};
    if (sys(243, (int)&desc) == 0) { int sel = desc.entry * 8 + 3; __asm__ volatile("movw %w0,%%gs" : : "r"(sel)); }
}
static __attribute__((noinline)) void one(Call& c) {
    const uint8_t* p[4] = {c.in[0], c.in[1], c.in[2], c.in[3]};
    where = &c.status;
    if (__builtin_setjmp(jb) == 0) { ns_table[c.fn](p, c.out, c.mem + c.memoff); c.status = 1; }
    where = nullptr;
    uint32_t mx = 0x1f80; __asm__ volatile("ldmxcsr %0\n fninit" : : "m"(mx));
}
extern "C" __attribute__((used)) void ns_main() {
    setup_tls();
    struct { uint32_t addr, len, prot, flags, fd, off; } a = {0, sizeof(Shm), 3, 1, 3, 0};
    Shm* s = (Shm*)sys(90, (int)&a); if ((uint32_t)s > 0xfffff000u) sys(252, 90);
    for (void (**f)() = __init_array_start; f < __init_array_end; f++) (*f)();      // leaves with 102 when it needs a system library
    s->ready = 32;
    char b; sys(4, 1, (int)&b, 1);
    while (sys(3, 0, (int)&b, 1) == 1) {
        for (s->at = 0; s->at < s->count; s->at++) if (s->c[s->at].fn < (uint32_t)ns_count) one(s->c[s->at]);
        sys(4, 1, (int)&b, 1);
    }
    sys(252, 0);
}
__asm__(".globl _start\n_start:\n xorl %ebp,%ebp\n andl $-16,%esp\n call ns_main\n");

"""P28: the public header as a drop-in: programs that include it in every way the standards allow, compiled, linked with the library and run."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import builds
from builds import run, HarnessError, REPO

C99 = 'assert complex ctype errno fenv float inttypes iso646 limits locale math setjmp signal stdarg stdbool stddef stdint stdio stdlib string tgmath time wchar wctype'.split()
C11 = 'stdalign stdatomic stdnoreturn threads uchar'.split()
CXX11 = ('algorithm array atomic bitset cassert cctype cerrno cfenv cfloat chrono cinttypes climits clocale cmath complex condition_variable csetjmp csignal cstdarg cstddef cstdint cstdio cstdlib cstring ctime cwchar cwctype '
         'deque exception forward_list fstream functional future initializer_list iomanip ios iosfwd iostream istream iterator limits list locale map memory mutex new numeric ostream queue random ratio regex scoped_allocator set '
         'sstream stack stdexcept streambuf string system_error thread tuple type_traits typeindex typeinfo unordered_map unordered_set utility valarray vector').split()
CXX17 = 'any charconv filesystem memory_resource optional string_view variant'.split()
POSIX = 'unistd.h pthread.h sys/types.h sys/mman.h sys/stat.h fcntl.h dlfcn.h sys/time.h dirent.h poll.h sched.h semaphore.h sys/socket.h netinet/in.h sys/wait.h sys/resource.h immintrin.h'.split()

# names a program may well use for things of its own; none is reserved, a keyword, or a name of a C or C++ header
NAMES = '''a b c d e f g h i j k l m n o p q r s t u w x y z A B C D E F G H J K L M N O P Q R S T U V W X Y Z aa ab bb cc dd ee a0 a1 a2 a3 b0 b1 b2 b3 c0 c1 c2 c3 x0 x1 x2 x3 y2 y3 r0 r1 r2 r3 q0 q1
 q2 q3 d0 d1 d2 d3 min max clamp clip sat saturate sat_add sat_sub swap_bytes lane lanes lane_idx idx index_ val value values vec vector_ vec4 ptr src dst dest in out tmp temp res result ret
 rv acc accum sum diff prod product total count cnt num size len length width height stride rows cols row col depth channels scale bias offset shift amount left right lo hi low high first
 last start stop step begin_ end_ pos cur next_ prev mask bits nbits byte bytes half word dword quad elem elems element data buf buffer table tbl key weight weights kernel filter input output
 image pixel line state ctx config flag flags mode kind type_ name id item items node list_ head tail root leaf arg args param params opt opts cfg u8 u16 u32 u64 s8 s16 s32 s64 i8 i16 i32 i64
 f32 f64 u8x8 u8x16 f32x4 i32x4 uint8 uint16 uint32 uint64 sint8 float32 float64 float4 int4 half_t lane_t vec_t reg reg_t simd simd_t neon NEON SIMD SSE arm ARM aarch64 sim helper impl
 detail util utils common internal MIN MAX CLAMP CLIP SAT ABS SWAP ROUND FLOOR ALIGN ALIGNED INLINE FORCE_INLINE STATIC_INLINE NOINLINE UNUSED LIKELY UNLIKELY EXPORT IMPORT API VISIBLE DEBUG
 TRACE LOG WARN ERROR CHECK ASSERT VERIFY REQUIRE EXPECT TEST VERSION CONCAT CAT STR STRINGIFY ARRAY_SIZE COUNTOF LANES NLANES WIDTH HEIGHT SIZE LEN COUNT BEGIN END LEFT RIGHT TOP BOTTOM
 TRUE_ FALSE_ YES NO OK FAIL PI EPS EPSILON DEFINE DECLARE LOOP FOR_EACH REPEAT UNROLL RESTRICT CONST PURE WRAP LOAD STORE ADD SUB MUL DIV SHL SHR AND OR XOR NOT add sub mul mla mls shl shr
 load store get set_ widen narrow extend trunc_to sat8 sat16 sat32 round_shift rshift lshift rev zip uzp trn ext tbl1 tbl2 combine split pairwise horizontal reduce hadd dot gemm conv relu
 to_int to_float from_bits as_bits hi_half lo_half bit_cast_ blend any_of_ all_of_ cmp less greater equal test check verify require expect fail print_vec show dump display debug log_ warn err
 error_ status code done ready ok yes no on off'''.split()


def main_body(cxx):
    """Facts every program prints about the header, and one use of the library."""
    s = ['printf("arm_neon %d aarch64 %d\\n", __ARM_NEON + 0, __aarch64__ + 0);',
         '{ float32_t f = 1.0f / 3; float64_t d = 1.0 / 3; printf("floats %u %u %.9g %.17g\\n", (unsigned)sizeof f, (unsigned)sizeof d, (double)f, d); }',
         '{ uint8x8_t a = { 250, 1, 2, 3, 4, 5, 6, 7 }, b = { 10, 10, 10, 10, 10, 10, 10, 10 }; uint8x8_t r = vadd_u8(a, b); uint8_t o[8]; int i; vst1_u8(o, r); printf("sum"); for (i = 0; i < 8; i++) printf(" %d", o[i]); printf("\\n"); }']
    if cxx: s.append('printf("types %d %d\\n", (int)same<float32_t, float>::v, (int)same<float64_t, double>::v);')
    else: s.append('printf("types %d %d\\n", __builtin_types_compatible_p(float32_t, float), __builtin_types_compatible_p(float64_t, double));')
    return s


EXPECT = ['arm_neon 1 aarch64 1', 'floats 4 8 0.333333343 0.33333333333333331', 'sum 4 11 12 13 14 15 16 17', 'types 1 1']
OWN = 'float_parts::float_parts(float v) : f(v * 2) {}\nfloat_parts::operator float() const { return f; }\nuint32_t RecipEstimate(uint32_t a) { return a + 1; }\nfloat FPRecipEstimate(float operand) { return operand * 3; }\n'
GUARD = '#if __ARM_NEON && defined(__aarch64__) && __aarch64__\n#define NEON_TAKEN 1\n#else\n#define NEON_TAKEN 0\n#endif\n'


def plan_p28(ctx):
    ctx.rule = ('Programs that include the public header alone, before and after every standard header, twice, in several translation units, in mixed C and C++ programs, and programs that use ordinary names for their own variables, types, members, functions, macros and labels are built by two compilers, linked with the library and run; '
                'each prints what it sees, which must be what the same program prints by the language rules. One evaluation is one printed fact; facts of different programs are distinct.')
    rng = random.Random(ctx.seed * 13 + 1)
    static = os.path.join(os.path.dirname(builds.library('base')), 'libneon_sim.a')
    w = ctx.work; nprog = [0]

    def build(tag, units, flags=''):
        """units: [(suffix, compiler, flags, text)] -> stdout lines, or an error text"""
        objs = []
        for k, (suf, cc, fl, text) in enumerate(units):
            src = os.path.join(w, '%s-%d.%s' % (tag, k, suf)); open(src, 'w').write(text)
            r = run([cc] + fl.split() + ['-Wall', '-Wextra', '-I', REPO, '-c', src, '-o', src + '.o'])
            if r.returncode: return None, 'does not compile with %s %s: %s' % (cc, fl, ' '.join(l for l in r.stderr.split('\n') if 'error' in l)[:300] or r.stderr[:300])
            objs.append(src + '.o')
        exe = os.path.join(w, tag + '.exe')
        r = run(['g++'] + objs + [static, '-o', exe, '-lm', '-lpthread'])
        if r.returncode: return None, 'does not link: ' + r.stderr[:300]
        r = run([exe], timeout=120); os.unlink(exe)
        for o in objs: os.unlink(o)
        if r.returncode: return None, 'ends with %d: %s' % (r.returncode, r.stderr[:200])
        return r.stdout.split('\n')[:-1], None

    def check(tag, what, units, expect):
        out, err = build(tag, units); nprog[0] += 1
        ctx.evals += max(1, len(out or [])); ctx.distinct += max(1, len(out or []))
        if err: ctx.violation('neon_sim.h', 'program', '%s: the program %s' % (what, err), program=units[0][3][:600]); return
        for e in expect:
            if e not in out: ctx.violation('neon_sim.h', 'meaning', '%s: expected "%s", the program printed %s' % (what, e, out[:8])); return
        if len(ctx.samples) < 12: ctx.samples.append({'stage': what, 'printed': out[:3]})

    def unit(cxx, head, body, extra=''):
        t = ('template<class A, class B> struct same { static const bool v = false; };\ntemplate<class A> struct same<A, A> { static const bool v = true; };\n' if cxx else '')
        return head + '\n' + t + GUARD + extra + '\nint main(void) {\n' + '\n'.join(body) + '\nprintf("taken %d\\n", NEON_TAKEN);\nreturn 0;\n}\n'

    jobs = []
    def job(*a): jobs.append(a)
    HX = EXPECT + ['taken 1']
    # every header, before and after
    def ok_alone(cc, std, h):
        return run([cc, '-std=' + std, '-w', '-fsyntax-only', '-x', 'c++' if '+' in cc else 'c', '-'], input='#include <%s>\n' % h).returncode == 0
    def headers(cc, std, cxx, hs):
        for h in hs:
            for order in (0, 1):
                inc = ['#include <%s>' % h, '#include "neon_sim.h"']
                if order: inc.reverse()
                job('hdr', cc, std, cxx, h, order, inc)
    ccs = [('gcc', 'g++'), ('clang', 'clang++')]
    for i, (c, x) in enumerate(ccs):
        headers(c, 'c11' if i else 'c99', False, [h + '.h' for h in (C99 + (C11 if i else []))])
        headers(x, 'c++11', True, CXX11)
        headers(x, 'gnu++17', True, CXX17 + POSIX)
        headers(c, 'gnu11', False, POSIX)

    hdr_jobs = jobs

    def do_hdr(kj):
        k, (_, cc, std, cxx, h, order, inc) = kj
        if not ok_alone(cc, std, h): return
        t = unit(cxx, '\n'.join(inc) + '\n#include <stdio.h>', main_body(cxx))
        check('h%d' % k, '<%s> included %s the header (%s -std=%s)' % (h, 'after' if order else 'before', cc, std), [('cpp' if cxx else 'c', cc, '-std=' + std, t)], HX)

    # alone, all standards; everything at once in random order; repeated
    others = []
    CS = ['c99', 'gnu99', 'c11', 'gnu11', 'c17', 'gnu17', 'c2x', 'gnu2x']; XS = ['c++11', 'gnu++11', 'c++14', 'gnu++14', 'c++17', 'gnu++17', 'c++20', 'gnu++20', 'c++2b', 'gnu++2b']
    for c, x in ccs:
        for std in CS: others.append(('alone first (%s -std=%s)' % (c, std), [('c', c, '-std=%s -pedantic-errors' % std, unit(False, '#include "neon_sim.h"\n#include <stdio.h>', main_body(False)))]))
        for std in XS: others.append(('alone first (%s -std=%s)' % (x, std), [('cpp', x, '-std=%s -pedantic-errors' % std, unit(True, '#include "neon_sim.h"\n#include <stdio.h>', main_body(True)))]))
        for rep in range(6 if ctx.thorough else 2):
            hs = [h + '.h' for h in C99 + C11 if h != 'tgmath']; rng.shuffle(hs); at = rng.randrange(len(hs))
            inc = ['#include <%s>' % h for h in hs]; inc.insert(at, '#include "neon_sim.h"'); inc.append('#include "neon_sim.h"')
            others.append(('all C headers around it (%s)' % c, [('c', c, '-std=gnu11', unit(False, '\n'.join(inc), main_body(False)))]))
            hs = list(CXX11 + CXX17); rng.shuffle(hs); at = rng.randrange(len(hs))
            inc = ['#include <%s>' % h for h in hs]; inc.insert(at, '#include "neon_sim.h"'); inc.append('#include "neon_sim.h"')
            others.append(('all C++ headers around it (%s)' % x, [('cpp', x, '-std=c++17', unit(True, '\n'.join(inc), main_body(True)))]))
        for fl in ('-O3', '-Os', '-fno-exceptions -fno-rtti', '-funsigned-char', '-fshort-enums', '-fvisibility=hidden', '-fno-builtin', '-fwrapv', '-ftrapv', '-fno-strict-aliasing', '-fstack-protector-all', '-D_GNU_SOURCE', '-D_FORTIFY_SOURCE=2 -O2', '-fsigned-char', '-fno-threadsafe-statics'):
            others.append(('with %s (%s)' % (fl, x), [('cpp', x, '-std=c++11 ' + fl, unit(True, '#include "neon_sim.h"\n#include <stdio.h>', main_body(True)))]))
        others.append(('included inside extern "C" (%s)' % x, [('cpp', x, '-std=c++11', unit(True, '#include <stdio.h>\nextern "C" {\n#include "neon_sim.h"\n}', main_body(True)))]))
        others.append(('with -fopenmp -pthread (%s)' % c, [('c', c, '-std=gnu11 -pthread' + (' -fopenmp' if c == 'gcc' else ''), unit(False, '#include "neon_sim.h"\n#include <stdio.h>', main_body(False)))]))
        # the same macro already defined by the program, as an Arm compiler would
        others.append(('defined as by an Arm compiler (%s)' % c, [('c', c, '-std=c11 -D__ARM_NEON=1 -D__aarch64__=1', unit(False, '#include "neon_sim.h"\n#include <stdio.h>', main_body(False)))]))
        others.append(('NDEBUG (%s)' % x, [('cpp', x, '-std=c++11 -DNDEBUG -O2', unit(True, '#include <assert.h>\n#include "neon_sim.h"\n#include <stdio.h>', main_body(True)))]))
    # a program may write down the Arm pseudocode itself; the library's own helpers must not meet its functions and types at link time
    own = ['float_parts p(1.5f); printf("own %g %u %g\\n", (double)(float)p, (unsigned)RecipEstimate(300), (double)FPRecipEstimate(2.0f)); float32x4_t v = vdupq_n_f32(4.0f); v = vrecpeq_f32(v); float o_[4]; vst1q_f32(o_, v); printf("recip %g\\n", (double)o_[1]);']
    for c, x in ccs:
        for suf in ('', 'q'):
            others.append(('own pseudocode functions%s (%s)' % (suf and ' in a second unit', x), [('cpp', x, '-std=c++11 -O1', unit(True, '#include "neon_sim.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <math.h>', main_body(True) + own,
                           'struct float_parts { float f; explicit float_parts(float v); operator float() const; };\nuint32_t RecipEstimate(uint32_t a);\nfloat FPRecipEstimate(float operand);\n' + ('' if suf else OWN)))] +
                           ([('cpp', x, '-std=c++11 -O0', '#include <stdint.h>\nstruct float_parts { float f; explicit float_parts(float v); operator float() const; };\n' + OWN)] if suf else [])))
    # several translation units in two languages and two compilers, all exchanging vectors
    tu_c = '#include "neon_sim.h"\n#include "neon_sim.h"\nuint16x8_t unit_%d(uint16x8_t a, int16x4x3_t b) { uint16x8_t r = vaddq_u16(a, vdupq_n_u16(%d)); (void)b; return r; }\n'
    def multi(k, order):
        us = []; decl = ''
        for i in range(6):
            cxx = (i + k) % 2; cc = [('gcc', 'g++'), ('clang', 'clang++')][(i // 2 + k) % 2][cxx]
            us.append(('cpp' if cxx else 'c', cc, '-std=%s -O%d' % ('c++11' if cxx else 'c99', i % 4), (tu_c % (i, i + 1)).replace('uint16x8_t unit_', ('extern "C" ' if cxx else '') + 'uint16x8_t unit_')))
            decl += 'uint16x8_t unit_%d(uint16x8_t, int16x4x3_t);\n' % i
        body = ['int i, j; uint16x8_t a = vdupq_n_u16(65530); int16x4x3_t b; for (i = 0; i < 3; i++) b.val[i] = vdup_n_s16(-1);'] + ['a = unit_%d(a, b);' % i for i in range(6)] + ['uint16_t o[8]; vst1q_u16(o, a); printf("chain"); for (j = 0; j < 8; j++) printf(" %d", o[j]); printf("\\n");']
        cxxm = k % 2
        us.insert(0, ('cpp' if cxxm else 'c', ('g++' if cxxm else 'gcc'), '-std=%s' % ('c++14' if cxxm else 'c11'), unit(cxxm, '#include <stdio.h>\n#include "neon_sim.h"\n' + ('extern "C" {' if cxxm else '') + '\n' + decl + ('}' if cxxm else ''), main_body(cxxm) + ['{'] + body + ['}'])))
        return us
    for k in range(4): others.append(('seven translation units in C and C++ (%d)' % k, multi(k, k)))

    # a client that is itself a shared object
    def do_shared(kj):
        k, (cc, cxx) = kj; what = 'a client that is a shared object (%s)' % cc; nprog[0] += 1; ctx.evals += 2; ctx.distinct += 2
        lib = os.path.join(w, 'libclient%d.so' % k); src = os.path.join(w, 'client%d.%s' % (k, 'cpp' if cxx else 'c')); use = os.path.join(w, 'use%d.cpp' % k); exe = os.path.join(w, 'use%d.exe' % k)
        e = 'extern "C" ' if cxx else ''
        open(src, 'w').write('#include "neon_sim.h"\n#include <stdlib.h>\n%sint exported(int a) { int8x8_t v = vdup_n_s8((int8_t)a); int8_t o[8]; vst1_s8(o, vadd_s8(v, v)); return o[3]; }\n%sint%s counter%s;\n' % (e, e, '', ' = 40'))
        open(use, 'w').write('#include <stdio.h>\nextern "C" { int exported(int); extern int counter; }\nint main() { counter += 2; printf("shared %d %d\\n", exported(21), counter); return 0; }\n')
        for cmd in ([cc, '-O1', '-fPIC', '-shared', '-I', REPO, src, static, '-o', lib, '-lm'], ['g++', use, lib, '-Wl,-rpath,' + w, '-o', exe]):
            r = run(cmd)
            if r.returncode: ctx.violation('neon_sim.h', 'program', '%s does not build: %s' % (what, r.stderr[-300:])); return
        r = run([exe], timeout=60)
        if r.stdout.strip() != 'shared 42 42': ctx.violation('neon_sim.h', 'meaning', '%s: expected "shared 42 42", the program printed %r, exit %d' % (what, r.stdout[:200], r.returncode))

    def do_other(kj):
        k, (what, us) = kj
        check('o%d' % k, what, us, HX + (['chain' + ' 15' * 8] if 'seven' in what else ['own 3 301 6', 'recip 0.249512'] if 'pseudocode' in what else []))

    # ordinary names
    def names_unit(cxx, form, names, header):
        """A program about its own names; prints one line per name."""
        L = ['#include <stdio.h>'] + (['#include "neon_sim.h"'] if header else [])
        body = []
        if header and form == 'extern': body.append('{ uint8x8_t v_q = vdup_n_u8(3); uint8_t o_q[8]; vst1_u8(o_q, vadd_u8(v_q, v_q)); if (o_q[0] != 6) return 9; }')      # so that the library is linked in
        for k, n in enumerate(names):
            if form == 'local':
                L.append('static int f%d(int %s) { struct { int %s; } me; int q_%d = %s * 3; { int %s = q_%d + %d; me.%s = %s; goto %s; } %s: return me.%s - q_%d; }' % (k, n, n, k, n, n, k, k, n, n, n, n, n, k) if not cxx else
                         'static int f%d(int %s) { struct { int %s; } me; int q_%d = %s * 3; { int %s = q_%d + %d; me.%s = %s; } return me.%s - q_%d; }' % (k, n, n, k, n, n, k, k, n, n, n, k))
                body.append('printf("%%s %%d\\n", "%s", f%d(%d));' % (n, k, k))
            elif form == 'function':
                L.append('static int %s(int q_) { return q_ * 2 + %d; }' % (n, k)); body.append('printf("%%s %%d\\n", "%s", %s(5));' % (n, n))
            elif form == 'type':
                L.append('typedef struct { short w_[%d]; } %s;' % (k + 1, n)); body.append('printf("%%s %%d\\n", "%s", (int)sizeof(%s));' % (n, n))
            elif form == 'enum':
                L.append('enum { %s = %d };' % (n, k * 7)); body.append('printf("%%s %%d\\n", "%s", (int)%s);' % (n, n))
            elif form == 'extern':      # with external linkage; under their own names in C, and functions under those of their signatures in C++
                if k % 2: L.append('int %s = %d;' % (n, k)); body.append('printf("%%s %%d\\n", "%s", %s);' % (n, n))
                else: L.append('%sint %s(int q_, ...) { return q_ * 3 + %d; }' % ('extern "C" ' if cxx else '', n, k)); body.append('printf("%%s %%d\\n", "%s", %s(7));' % (n, n))
            elif form == 'global':
                L.append('static int %s = %d;' % (n, k * 5)); body.append('printf("%%s %%d\\n", "%s", %s);' % (n, n))
        return '\n'.join(L) + '\nint main(void) {\n' + '\n'.join(body) + '\nreturn 0; }\n'

    def names_unit_macro(cxx, names, header):
        """A program may define the name as its own macro after the header; nothing the header left behind may disturb or use it."""
        L = ['#include <stdio.h>'] + (['#include "neon_sim.h"'] if header else []); body = []
        for k, n in enumerate(names):
            L.append('#ifdef %s\n#define had_%d 1\n#else\n#define had_%d 0\n#endif' % (n, k, k)); body.append('printf("%%s %%d\\n", "%s", had_%d);' % (n, k))
        return '\n'.join(L) + '\nint main(void) {\n' + '\n'.join(body) + '\nreturn 0; }\n'

    def ambient_unit(cxx, header):
        """What the header could leave switched on for the rest of the unit: packing, visibility, linkage, namespaces, optimisation and arithmetic modes, macros."""
        L = ['#include <stdio.h>', '#include <stddef.h>', '#include <float.h>', '#include <limits.h>', '#include <errno.h>'] + (['#include <algorithm>', '#include <functional>', '#include <string>', '#include <typeinfo>'] if cxx else [])
        L += ['#include "neon_sim.h"'] if header else ['#include <stdint.h>']
        body = []; rg = random.Random(ctx.seed * 7 + cxx)
        ty = ['char', 'signed char', 'short', 'int', 'long', 'long long', 'float', 'double', 'long double', 'void*', 'uint8_t', 'uint16_t', 'int32_t', 'uint64_t', 'size_t', 'wchar_t'] + (['bool'] if cxx else ['_Bool'])
        for k in range(40):
            m = [rg.choice(ty) for _ in range(rg.randrange(2, 7))]
            L.append('struct me_%d { %s };' % (k, ' '.join('%s m%d;' % (t, i) for i, t in enumerate(m))))
            body.append('printf("struct %d %%u"%s);' % (k, ', (unsigned)sizeof(struct me_%d)' % k) + ''.join('printf(" %%u", (unsigned)offsetof(struct me_%d, m%d));' % (k, i) for i in range(len(m))) + 'puts("");')
        L += ['struct bits { unsigned a : 3; int b : 7; unsigned c : 30; short d : 4; };', 'enum small { ONE, TWO };', 'union un { char c; long l; };']
        body += ['printf("bits %u %u %u %u\\n", (unsigned)sizeof(struct bits), (unsigned)sizeof(enum small), (unsigned)sizeof(union un), (unsigned)sizeof(wchar_t));']
        for t in ty: body.append('{ struct q { char c; %s x; }; printf("%s %%u %%u\\n", (unsigned)sizeof(%s), (unsigned)offsetof(struct q, x)); }' % (t, t, t))
        # arithmetic
        L += ['static volatile float vf[8] = { 0.0f, -0.0f, 1.0f, 3.4e38f, 1e-45f, 1e-38f, 16777216.0f, 0.1f };', 'static volatile double vd[4] = { 0.0, 1e308, 5e-324, 0.1 };', 'static volatile int vi[4] = { -7, 2147483647, 0, 2 };', 'static volatile char vc = (char)200;',
              'static float fsum(const volatile float* p, int n) { float s = 0; int i; for (i = 0; i < n; i++) s += p[i]; for (i = 0; i < n; i++) s -= p[i]; return s; }']
        body += ['{ float z = vf[0] / vf[1]; printf("nan %d %d %d\\n", z != z, z == z, !(z < 1)); }', '{ float i = vf[2] / vf[0]; printf("inf %d %g %g\\n", i > FLT_MAX, i, -i); }',
                 'printf("zero %g %g\\n", (double)(vf[1] + vf[1]), (double)(vf[0] - vf[0]));', 'printf("denormal %g %g\\n", (double)(vf[5] / 4), (double)(vf[4] * 1.0f));', 'printf("order %.9g\\n", (double)fsum(vf, 8));', 'printf("third %.9g %.17g\\n", (double)(vf[2] / 3), vd[3] * 3);',
                 'printf("fused %.9g\\n", (double)(vf[7] * vf[7] - vf[7]));', 'printf("recip %.9g\\n", (double)(vf[2] / vf[7]));', 'printf("int %d %d %d %d\\n", vi[0] / 2, vi[0] >> 1, vi[0] % 3, vc < 0);', 'printf("limits %d %g %d\\n", INT_MAX, (double)FLT_EPSILON, FLT_EVAL_METHOD + 0);']
        for mac in ('NDEBUG', '__FAST_MATH__', '__OPTIMIZE__', '__ARM_FEATURE_FMA', '__ARM_FP', '_GNU_SOURCE', '_FILE_OFFSET_BITS', 'restrict', 'inline', 'const', 'static', 'register', 'volatile', 'int', 'char', 'float', 'double', 'return', 'if', 'for', 'while'):
            L.append('#ifdef %s\n#define has_%s 1\n#else\n#define has_%s 0\n#endif' % (mac, mac, mac)); body.append('printf("macro %s %%d\\n", has_%s);' % (mac, mac))
        # code a compiler may warn about is still a program
        L += ['static int spare_function(int unused_parameter) { int unused_variable = 1; return 0; }', 'static int odd_style(int a_, unsigned b_) { if (a_ < b_) ; if (a_ = 2) a_ == 3; switch (a_) { case 2: a_++; case 3: break; } 7; return a_ * (b_ & 1 == 1) ; }', '__attribute__((deprecated)) static int old_one(void) { return 3; }',
              'static int shadowed(int v_) { { int v_ = 2; (void)v_; } char c_ = 300 + v_; long l_; printf("%d\\n", l_ = 5L); return c_ % 7; }']
        body += ['printf("warned %d %d %d\\n", odd_style(1, 3u), old_one(), shadowed(1) != 99);']
        if cxx:
            L += ['static int over(int) { return 1; } static int over(double) { return 2; } static int over(const char*) { return 3; }', 'int linked(int) { return 4; } int linked(float) { return 5; }', 'template<class T> struct Box { T t; };', 'namespace mine { int count = 6; int move(int x) { return x + 1; } int swap = 7; struct vector { char c; int i; }; int min(int a, int b) { return a < b ? a : b; } }', 'using namespace mine;',
                  'struct Poly { virtual ~Poly() {} virtual int f() { return 8; } char c; }; struct Derived : Poly { int f() { return 9; } };']
            body += ['printf("overloads %d %d %d %d %d\\n", over(1), over(1.0), over("x"), linked(1), linked(1.0f));', 'printf("box %u\\n", (unsigned)sizeof(Box<long double>));', 'printf("mine %d %d %d %u %d\\n", count, move(1), swap, (unsigned)sizeof(vector), min(3, 2));',
                     'Derived d; Poly* p = &d; printf("poly %d %d %u\\n", p->f(), dynamic_cast<Derived*>(p) != 0, (unsigned)sizeof(Poly)); try { throw 10; } catch (int e) { printf("caught %d\\n", e); }', 'printf("type %s %s\\n", typeid(Poly).name(), typeid(linked(1)).name());', 'printf("cplusplus %ld\\n", (long)__cplusplus);']
        else: body += ['printf("stdc %ld\\n", (long)__STDC_VERSION__);']
        return '\n'.join(L) + '\nint main(void) {\n' + '\n'.join(body) + '\nreturn 0; }\n'

    def do_names(kj):
        k, (cc, std, cxx, form) = kj; suf = 'cpp' if cxx else 'c'
        gen = (lambda h, ns: ambient_unit(cxx, h)) if form == 'rest' else (lambda h, ns: names_unit_macro(cxx, ns, h)) if form == 'macro' else (lambda h, ns: names_unit(cxx, form, ns, h))
        names = list(NAMES)
        ref, err = build('n%dr' % k, [(suf, cc, '-std=' + std, gen(False, names))])
        if err: raise HarnessError('name program without the header: ' + err)
        out, err = build('n%d' % k, [(suf, cc, '-std=' + std, gen(True, names))]); nprog[0] += 2
        ctx.evals += len(ref); ctx.distinct += len(ref)
        if err and form == 'rest': ctx.violation('neon_sim.h', 'ambient', 'a program (%s -std=%s) about its own types and arithmetic %s' % (cc, std, err)); return
        if err:      # find the names in question
            bad = []
            def narrow(ns):
                if build('n%dx' % k, [(suf, cc, '-std=' + std, gen(True, ns))])[1] is None: return
                if len(ns) == 1: bad.append(ns[0]); return
                if len(bad) < 4: narrow(ns[:len(ns) // 2]); narrow(ns[len(ns) // 2:])
            narrow(names)
            ctx.violation('neon_sim.h', 'names', 'a program (%s -std=%s) that has its own %s named %s %s' % (cc, std, form, ', '.join(bad[:4]) or '?', err)); return
        for a, b in zip(ref, out):
            if a != b: ctx.violation('neon_sim.h', 'ambient' if form == 'rest' else 'names', '%s -std=%s: %s %s: without the header "%s", with it "%s"' % (cc, std, form, a.split()[0], a, b)); return
    njobs = [(cc, std, cxx, form) for (cc, std, cxx) in (('gcc', 'c11', False), ('clang++', 'c++11', True), ('g++', 'gnu++17', True), ('clang', 'gnu99', False)) for form in ('local', 'function', 'type', 'enum', 'global', 'macro', 'rest')]
    njobs += [('gcc', 'c11 -fno-builtin', False, 'extern'), ('clang++', 'c++11 -fno-builtin', True, 'extern')]
    njobs += [(cc, std, cxx, form) for (cc, std, cxx) in (('gcc', 'c99', False), ('clang', 'c17', False), ('gcc', 'gnu2x', False), ('g++', 'c++14', True), ('clang++', 'c++17', True), ('g++', 'c++20', True), ('clang++', 'gnu++2b', True)) for form in ('macro', 'local')]
    njobs += [(cc, std + ' -O2', cxx, 'rest') for (cc, std, cxx) in (('gcc', 'c99', False), ('clang++', 'c++14', True), ('g++', 'c++11', True), ('clang', 'c11', False))]
    with ThreadPoolExecutor(8) as ex:
        for fn, js in ((do_names, njobs), (do_other, others), (do_hdr, hdr_jobs), (do_shared, [('gcc', 0), ('g++', 1), ('clang', 0), ('clang++', 1)])): list(ex.map(fn, enumerate(js)))
    ctx.stat.update(programs=nprog[0], header_orders=len(hdr_jobs), names=len(NAMES), name_forms=7)
    ctx.stages.append({'stage': 'client programs', 'evaluations': ctx.evals, 'programs': nprog[0]})

"""P21 and P22: client programs in C and C++ built through the public header, executed and observed."""
import os, re, sys, json, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import builds
from builds import run, HarnessError, REPO
sys.path.insert(0, os.path.join(builds.VERIF, 'spec'))
import catalog
from catalog import FNS, BY

V3 = ' -march=x86-64-v3' if builds.wide_cpu() else ''
CLIENTS = {   # name: compiler, flags, file suffix
    'c99': ('gcc', '-std=c99 -O1', 'c'),
    'c11': ('clang', '-std=c11 -O2', 'c'),
    'cxx11': ('g++', '-std=c++11 -O2', 'cpp'),
    'cxx17': ('clang++', '-std=c++17 -O0', 'cpp'),
    'c17': ('gcc', '-std=c17 -O3', 'c'),
    'cxx20': ('g++', '-std=c++20 -O3', 'cpp'),
    'gnu17': ('gcc', '-std=gnu17 -O2 -DNDEBUG', 'c'),
    'gnuxx': ('g++', '-std=gnu++17 -O1 -fno-exceptions', 'cpp'),
    'clgnu': ('clang', '-std=gnu99 -O0', 'c'),
    'clgnuxx': ('clang++', '-std=gnu++20 -O3', 'cpp'),
    'c2x': ('gcc', '-std=c2x -Os -funsigned-char', 'c'),
    'clc2x': ('clang', '-std=c2x -O1' + V3, 'c'),
    'cxx23': ('clang++', '-std=c++2b -Os -fshort-enums', 'cpp'),
    'gxx23': ('g++', '-std=gnu++23 -O2' + V3, 'cpp'),
    'names': ('gcc', '-std=gnu11 -O1 -fno-ipa-cp', 'c'),
    'namesxx': ('clang++', '-std=gnu++14 -O0', 'cpp'),
}
CERR = '-w -fPIC -Werror=implicit-function-declaration -Werror=incompatible-pointer-types -Werror=int-conversion'


def ident(t): return 'id_' + ''.join(c if c.isalnum() else '_' for c in t)
IDS = ' '.join('static %s %s(%s x){return x;}' % (t, ident(t), t) for t in sorted({a.acle() for f in FNS for a in f.args if a.role not in 'rw'})) + ' static volatile int yes=1,no=0;'


def thunk(f, form=0):
    """form 0: the operands are variables; 1: results of calls, and integers of a wider type; 2: constants; 3: with side effects, which must happen once; 4: through a pointer to function; 5: expressions of low precedence."""
    s = 'void thunk_%s(const unsigned char*const*in,unsigned char*out,void*mem){' % f.name
    call = []
    for i, a in enumerate(f.args):
        t = a.acle()
        if a.role in 'rw' and form == 3: s += '%s p%d=(%s)mem;' % (t, i, t); call.append('p%d++' % i); continue
        if a.role in 'rw' and form == 5: call.append('yes?(%s)mem:(%s)0' % (t, t)); continue
        if a.role in 'rw': call.append('(%s)mem' % t if form != 2 else 'p%d' % i); s += '%s const p%d=(%s)mem;' % (t, i, t) if form == 2 else ''; continue
        s += '%s a%d;memcpy(&a%d,in[%d],sizeof a%d);' % (t, i, i, i, i)
        if form == 3: s += '%s e%d[3];e%d[0]=e%d[1]=e%d[2]=a%d;int n%d=0;' % (t, i, i, i, i, i, i); call.append('e%d[n%d++]' % (i, i)); continue
        if form == 5: s += '%s b%d;memset(&b%d,0x5a,sizeof b%d);' % (t, i, i, i); call.append('yes?a%d:b%d' % (i, i) if a.role != 'i' else 'a%d|no' % i); continue
        if form == 2: s += 'const %s k%d=a%d;' % (t, i, i); call.append('k%d' % i)
        elif form == 1: call.append('a%d+%d' % (i, 1 << 8 * catalog.size(a.t)) if a.role == 's' and a.t[0] != 'f' and catalog.size(a.t) < 4 else '(long)%s(a%d)' % (ident(t), i) if a.role == 'i' else '%s(a%d)' % (ident(t), i))
        else: call.append('a%d' % i)
    c = '%s(%s)' % (f.name, ','.join(call))
    if form == 4:
        s += '%s(*const volatile fp)(%s)=%s;' % (f.ret.acle() if f.ret else 'void', ','.join(a.acle() for a in f.args), f.name); c = 'fp(%s)' % ','.join(call)
    if f.ret and form == 1: s += '%s r;r=%s;memcpy(out,&r,sizeof r);' % (f.ret.acle(), c)
    elif f.ret: s += '%s r=%s;memcpy(out,&r,sizeof r);' % (f.ret.acle(), c)
    else: s += c + ';'
    if form == 3:
        for i, a in enumerate(f.args): s += 'if(p%d!=(%s)mem+1)__builtin_trap();' % (i, a.acle()) if a.role in 'rw' else 'if(n%d!=1)__builtin_trap();' % i
    return s + '(void)mem;(void)out;}'


NAMES = 'r res ret result tmp t x y v a b c i n out val vec p w u _r _a _b _t __r __a __b __t __tmp __v __ret __res ret_ res_ r_ a_ b_ v1 v2 lane ptr src dst sum s'.split()


def names_thunk(f):
    """The same call again and again, its operands in variables of every name a macro is likely to use for itself."""
    s = 'void thunk_%s(const unsigned char*const*in,unsigned char*out,void*mem){unsigned char*const OUT_=out;void*const MEM_=mem;' % f.name; ret = f.ret.acle() if f.ret else None
    for i, q in enumerate(f.args):
        if q.role not in 'rw': s += '%s arg%d;memcpy(&arg%d,in[%d],sizeof arg%d);' % (q.acle(), i, i, i, i)
        elif q.role == 'w': s += 'unsigned char before[64];memcpy(before,mem,%d);' % f.out.nbytes
    w = [q for q in f.args if q.role == 'w']
    if ret: s += '%s first,other;' % ret
    for k in range(len(NAMES)):
        n = [NAMES[(k + 7 * i) % len(NAMES)] for i in range(len(f.args))]
        s += '{' + ''.join('%s %s=%s;' % (q.acle(), n[i], '(%s)MEM_' % q.acle() if q.role in 'rw' else 'arg%d' % i) for i, q in enumerate(f.args))
        c = '%s(%s)' % (f.name, ','.join(n))
        if ret: s += ('first=%s;' % c if k == 0 else 'other=%s;if(memcmp(&first,&other,sizeof first))__builtin_trap();' % c) + '}'
        elif w: s += ('' if k == 0 else 'memcpy(OUT_,MEM_,%d);memcpy(MEM_,before,%d);' % (f.out.nbytes, f.out.nbytes)) + c + ';' + ('' if k == 0 else 'if(memcmp(OUT_,MEM_,%d))__builtin_trap();' % f.out.nbytes) + '}'
        else: s += c + ';}'
    if ret: s += 'memcpy(out,&first,sizeof first);'
    return s + '(void)mem;(void)out;}'


def const_thunk(f, illegal=True):
    """The immediate is a literal at every call; a call with an illegal one discards its result."""
    k = next(i for i, a in enumerate(f.args) if a.role == 'i'); lo, hi = f.imm
    s = 'void thunk_%s(const unsigned char*const*in,unsigned char*out,void*mem){' % f.name
    call = []
    for i, a in enumerate(f.args):
        if i == k: s += 'int a%d;memcpy(&a%d,in[%d],4);' % (i, i, i); call.append('%s')
        elif a.role in 'rw': call.append('(%s)mem' % a.acle())
        else: s += '%s a%d;memcpy(&a%d,in[%d],sizeof a%d);' % (a.acle(), i, i, i, i); call.append('a%d' % i)
    c = '%s(%s)' % (f.name, ','.join(call))
    s += 'switch(a%d){' % k
    for v in range(lo, hi + 1): s += ('case %d:{%s r=%s;memcpy(out,&r,sizeof r);break;}' % (v, f.ret.acle(), c % v)) if f.ret else 'case %d:%s;break;' % (v, c % v)
    if illegal:
        for v in sorted({lo - 1, hi + 1, hi + 8, -1, -8, 256 + lo, 256 + hi, 2147483647} - set(range(lo, hi + 1))): s += 'case %d:(void)%s;break;' % (v, c % v) if f.ret else 'case %d:%s;break;' % (v, c % v)
    s += ('default:(void)%s;' if f.ret else 'default:%s;') % (c % ('a%d' % k))
    return s + '}(void)mem;(void)out;}'


CONST_CLIENTS = {'kc': ('gcc', '-std=c11 -O2', 'c'), 'kcxx': ('clang++', '-std=c++14 -O2', 'cpp')}


def const_client(ctx, name, static):
    """A client whose immediates are literals. What does not compile is left out: rejecting an illegal literal at compile time is no defect, and P21 judges the rest."""
    cc, fl, suf = CONST_CLIENTS[name]; w = os.path.join(ctx.work, name); os.makedirs(w, exist_ok=True); src = os.path.join(w, 'thunks.' + suf)
    todo = [[f, 2] for f in FNS if f.imm]
    for rnd in range(5):
        lines = ['#include "neon_sim.h"', '#include <string.h>'] + (['extern "C" {'] if suf == 'cpp' else ['']) + [const_thunk(f, k == 2) for f, k in todo if k] + (['}'] if suf == 'cpp' else [])
        open(src, 'w').write('\n'.join(lines) + '\n')
        r = run([cc] + fl.split() + ['-w', '-fPIC', '-fmax-errors=0' if cc[0] == 'g' else '-ferror-limit=0', '-I', REPO, '-c', src, '-o', w + '/thunks.o'])
        if r.returncode == 0: break
        here, other = errlines(r.stderr, src); live = [t for t in todo if t[1]]
        bad = [live[ln - 4] for ln in here if 0 <= ln - 4 < len(live)]
        if not bad: return None
        for t in bad: t[1] -= 1
    else: return None
    so = w + '/client.so'
    r = run([cc, '-shared', '-Wl,-Bsymbolic', w + '/thunks.o', static, '-o', so] + (['-lstdc++'] if suf == 'c' else []) + ['-lm'])
    if r.returncode: return None
    ctx.stat.setdefault('literal_immediate_clients', []).append('%s: %s %s, %d functions' % (name, cc, fl, sum(1 for t in todo if t[1])))
    return so


def errlines(text, fname):
    """line -> message for errors reported in fname; and errors elsewhere"""
    here, other = {}, []
    cur = None
    for l in text.split('\n'):
        m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            if os.path.basename(m.group(1)) == os.path.basename(fname): here.setdefault(int(m.group(2)), m.group(3)[:200])
            else:
                other.append(l[:300])
    return here, other


def client(ctx, name, static, symbols):
    """Build one client library with a thunk per implemented intrinsic; returns its path."""
    cc, fl, suf = CLIENTS[name]; nth = [n for n in CLIENTS if CLIENTS[n][2] == suf].index(name)
    w = os.path.join(ctx.work, name); os.makedirs(w, exist_ok=True)
    todo = [f for f in FNS]
    gen = names_thunk if name[:5] == 'names' else lambda f: thunk(f, (nth + FNS.index(f)) % 6)
    src = os.path.join(w, 'thunks.' + suf)
    inc = ['-I', REPO]
    for rnd in range(6):
        lines = ['#include "neon_sim.h"', '#include <string.h>'] + [('extern "C" {' if suf == 'cpp' else '') + IDS] + [gen(f) for f in todo] + (['}'] if suf == 'cpp' else [])
        open(src, 'w').write('\n'.join(lines) + '\n')
        r = run([cc] + fl.split() + CERR.split()[:2] + (CERR.split()[2:] if suf == 'c' else []) + ['-fmax-errors=0' if cc[0] == 'g' else '-ferror-limit=0', '-c', src, '-o', w + '/thunks.o'] + inc)
        if r.returncode == 0: break
        here, other = errlines(r.stderr, src)
        if other and not here:
            ctx.violation('neon_sim.h', 'compile', '%s %s: a program that includes the header does not compile: %s' % (cc, fl, other[0])); return None
        if not here: raise HarnessError('%s: %s' % (name, r.stderr[-1000:]))
        bad = set()
        for ln, msg in here.items():
            k = ln - 4
            if not 0 <= k < len(todo): raise HarnessError('%s: %s' % (name, msg))
            bad.add(k); ctx.violation(todo[k].name, 'compile', 'a %s client does not compile (%s %s): %s' % ('C' if suf == 'c' else 'C++', cc, fl, msg))
        todo = [f for k, f in enumerate(todo) if k not in bad]
    else: raise HarnessError('client %s did not converge' % name)
    # a second translation unit that includes the header must link beside the first
    open(w + '/other.' + suf, 'w').write('#include "neon_sim.h"\n#include "neon_sim.h"\nint other_unit(void) { return (int)sizeof(int8x8_t); }\n')
    r = run([cc] + fl.split() + ['-w', '-fPIC', '-c', w + '/other.' + suf, '-o', w + '/other.o'] + inc)
    if r.returncode: ctx.violation('neon_sim.h', 'compile', 'including the header twice does not compile (%s %s): %s' % (cc, fl, r.stderr[:300])); return None
    so = w + '/client.so'
    for rnd in range(4):
        r = run([cc, '-shared', '-Wl,-Bsymbolic', '-Wl,--no-undefined', w + '/thunks.o', w + '/other.o', static, '-o', so] + (['-lstdc++'] if suf == 'c' else []) + ['-lm'])
        if r.returncode == 0: break
        und = set(re.findall(r"undefined (?:reference to|symbol: ?) ?[`']?([A-Za-z_]\w*)", r.stderr)); mul = set(re.findall(r"multiple definition of [`']([A-Za-z_]\w*)", r.stderr))
        bad = {f.name for f in todo if f.name in und or f.name in mul}
        if not bad:
            ctx.violation('neon_sim.h', 'link', 'a client of two translation units does not link (%s): %s' % (cc, r.stderr[:400])); return None
        for n in sorted(bad): ctx.violation(n, 'link', '%s client (%s %s): %s' % ('C' if suf == 'c' else 'C++', cc, fl, 'undefined reference' if n in und else 'multiple definition'))
        todo = [f for f in todo if f.name not in bad]
        lines = ['#include "neon_sim.h"', '#include <string.h>'] + [('extern "C" {' if suf == 'cpp' else '') + IDS] + [gen(f) for f in todo] + (['}'] if suf == 'cpp' else [])
        open(src, 'w').write('\n'.join(lines) + '\n')
        r = run([cc] + fl.split() + ['-w', '-fPIC', '-c', src, '-o', w + '/thunks.o'] + inc)
        if r.returncode: raise HarnessError('client %s: %s' % (name, r.stderr[-800:]))
    else: return None
    return so


def early(ctx, variants):
    """Shared objects that hold a client and the library; the client calls the library from its first constructor and its last destructor."""
    w = os.path.join(ctx.work, 'early'); os.makedirs(w, exist_ok=True); src = w + '/early.c'
    def one(v):
        ar = os.path.join(os.path.dirname(builds.library(v)), 'libneon_sim.a')
        have = {l.split()[2] for l in run(['nm', '--defined-only', ar]).stdout.split('\n') if len(l.split()) == 3 and l.split()[1] in 'TW'}
        fs = [f.name for f in FNS if f.name in have]
        s = ['extern char %s[];' % n for n in fs] + ['extern void ns_early(const char* const*, void* const*, int, int);', 'static const char* const names[] = {' + ','.join('"%s"' % n for n in fs) + '};',
             'static void* const ptrs[] = {' + ','.join(fs) + '};', '__attribute__((constructor(101))) static void first(void) { ns_early(names, ptrs, %d, 0); }' % len(fs), '__attribute__((destructor(101))) static void last(void) { ns_early(names, ptrs, %d, 1); }' % len(fs)]
        open(src.replace('early.c', v + '.c'), 'w').write('\n'.join(s) + '\n')
        r = run(['gcc', '-w', '-fPIC', '-shared', '-Wl,-Bsymbolic', w + '/%s.c' % v, ar, '-lstdc++', '-lm', '-o', w + '/%s.so' % v])
        if r.returncode: raise HarnessError('early client: ' + r.stderr[-500:])
        return w + '/%s.so' % v
    with ThreadPoolExecutor(3) as ex: return list(ex.map(one, variants))


def plan_p21(ctx):
    import driver
    ctx.rule = ('One client translation unit per language and compiler calls every implemented intrinsic through the public header; each is compiled, linked with the library and executed. '
                'Every client must give the same bits as the plain C symbol called with the Arm-specified types, for boundary, random and coverage-guided inputs. Distinct inputs are counted by hash; the all-zero input is trivial.')
    L = driver.builds_for(ctx, ['base', 'cov'], 'nsrun')
    static = os.path.join(os.path.dirname(L['base']), 'libneon_sim.a')
    r = run(['nm', '-C', '--defined-only', static]); raw = run(['nm', '--defined-only', static])
    if r.returncode or raw.returncode: raise HarnessError('nm failed')
    plain, mangled = set(), {}
    for l in raw.stdout.split('\n'):
        p = l.split()
        if len(p) == 3 and p[1] in 'TWVBDR':
            if p[2].startswith('_Z'): mangled[p[2]] = None
            else: plain.add(p[2])
    for f in FNS:
        if f.name not in plain: ctx.violation(f.name, 'missing', 'not exported by the library under its plain name')
    # an exported C++ function whose plain name the header declares is an implementation nobody can reach
    hdr = run(['g++', '-std=c++11', '-E', '-P', '-x', 'c++', os.path.join(REPO, 'neon_sim.h')]).stdout
    declared = set(re.findall(r'\b(v\w+)\s*\(', hdr))
    if mangled:
        dem = run(['c++filt'], input='\n'.join(mangled)).stdout.split('\n')
        for m, d in zip(mangled, dem):
            b = d.split('(')[0].split('::')[-1].strip()
            if b in declared: ctx.violation(b, 'mangled', 'the library exports %s, not the declared C function' % d)
    for n in sorted(plain):
        if n in declared and n not in BY: ctx.notes.append('implemented but outside the catalogue: ' + n)
    names = list(CLIENTS)
    with ThreadPoolExecutor(6) as ex: so = dict(zip(names, ex.map(lambda n: client(ctx, n, static, plain), names)))
    with ThreadPoolExecutor(2) as ex: so_k = dict(zip(CONST_CLIENTS, ex.map(lambda n: const_client(ctx, n, static), CONST_CLIENTS)))
    libs = [('base', L['base']), ('cov', L['cov'])] + [('cl_' + n, p) for n, p in list(so.items()) + list(so_k.items()) if p]
    ctx.stat['clients_built'] = ['%s: %s %s' % (n, CLIENTS[n][0], CLIENTS[n][1]) for n, p in so.items() if p]
    ctx.stat['exported_plain_names'] = len(plain); ctx.stat['declared_names'] = len(declared)
    if len(libs) > 2:
        st = driver.run_sharded(ctx, L['run'], 'client', libs, 'ALL', rand=2000000 if ctx.thorough else 30000, guided=100000 if ctx.thorough else 4000, dic=L['dict'])
        ctx.stat['client_calls'] = st['extra'][0]


# ------------------------------------------------------------------------------------------------- P22
ELEMS = ['s8', 's16', 's32', 's64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64']


def vtypes():
    """[(name, element, lanes, registers)]"""
    r = []
    for t in ELEMS:
        for w in (64, 128):
            n = w // catalog.bits(t)
            for k in (1, 2, 3, 4): r.append(('%sx%d%s_t' % (catalog.acle_base(t), n, '' if k == 1 else 'x%d' % k), t, n, k))
    return r


def lit(t, v):
    """C literal for the element value whose bits are v"""
    import struct
    b = catalog.bits(t)
    if t[0] == 'f':
        f = struct.unpack('<f' if b == 32 else '<d', struct.pack('<I' if b == 32 else '<Q', v))[0]
        return repr(f) + ('f' if b == 32 else '')
    if t[0] == 'u': return '%dull' % v if b == 64 else '%du' % v
    v = v - (1 << b) if v >> (b - 1) else v
    if b == 64: return '(-%dll-1)' % (2**63 - 1) if v == -2**63 else '%dll' % v
    return '(-2147483647-1)' if v == -2**31 else str(v)


def rnd_el(rng, t):
    import struct
    b = catalog.bits(t)
    if t[0] == 'f':
        f = rng.choice([rng.uniform(-1e6, 1e6), rng.uniform(-1, 1), float(rng.randrange(-1000, 1000)), 3.4e38, 1.17549435e-38, -0.0])
        if b == 32: return struct.unpack('<I', struct.pack('<f', f))[0]
        return struct.unpack('<Q', struct.pack('<d', f))[0]
    return rng.choice([rng.getrandbits(b), rng.getrandbits(b), 1 << (b - 1), (1 << b) - 1, (1 << (b - 1)) - 1, 0, 1])


def build_run(ctx, tag, cc, fl, suf, line_of, lines, keyof):
    """Compile and execute a probe program; a probe line that does not compile is reported and taken out. Returns stdout lines."""
    w = os.path.join(ctx.work, tag); os.makedirs(w, exist_ok=True); src = os.path.join(w, 'probe.' + suf)
    lines = list(lines)
    failed = {}
    for rnd in range(6):
        open(src, 'w').write('\n'.join(l for l, k in lines) + '\n')
        r = run([cc] + fl.split() + ['-w', '-I', REPO, '-fmax-errors=0' if cc[0] == 'g' else '-ferror-limit=0', src, '-o', w + '/probe', '-lm'])
        if r.returncode == 0: break
        here, other = errlines(r.stderr, src)
        if not here:
            if other: ctx.violation('neon_sim.h', 'compile', '%s %s: %s' % (cc, fl, other[0])); return None, failed
            raise HarnessError('%s: %s' % (tag, r.stderr[-1500:]))
        n = 0
        for ln, msg in here.items():
            k = lines[ln - 1][1] if ln <= len(lines) else None
            if k is None: raise HarnessError('%s line %d: %s' % (tag, ln, msg))
            if not lines[ln - 1][0]: continue
            failed[k] = msg; lines[ln - 1] = ('', k); n += 1
        if not n: raise HarnessError('%s: %s' % (tag, r.stderr[-1500:]))
    else: raise HarnessError('%s did not converge' % tag)
    r = run([w + '/probe'], timeout=300)
    if r.returncode: raise HarnessError('%s probe ended with %d: %s' % (tag, r.returncode, r.stderr[-500:]))
    out = r.stdout.split('\n'); os.unlink(w + '/probe')
    return out, failed


def plan_p22(ctx):
    ctx.rule = ('Probe programs built by two compilers in C and C++ through the public header are executed; they report size, byte image of brace-initialised objects, register offsets, pairwise type identity and convertibility, '
                'and the type identity of every declared intrinsic, and the oracle compares each report with the Arm definition. One evaluation is one reported fact; facts about distinct types, pairs, initialisers or intrinsics are distinct.')
    rng = random.Random(ctx.seed * 7 + 5)
    T = vtypes(); protos = json.load(open(os.path.join(builds.VERIF, 'spec', 'acle_prototypes.json')))
    def plain(x): return x.replace('float32_t', 'float').replace('float64_t', 'double')   # the header's own typedefs are not trusted
    protos = {n: (plain(r), [plain(p) for p in ps]) for n, (r, ps) in protos.items()}
    seen = set(); lock_ev = []

    def fact(key, n=1):
        ctx.evals += 1
        if key not in seen: seen.add(key); ctx.distinct += 1

    # ---- layout: executed initialisers
    def layout(job):
        tag, cc, fl, suf, reps, seed = job
        rg = random.Random(seed); L = [('#include "neon_sim.h"', None), ('#include <stdio.h>', None), ('#include <string.h>', None), ('#include <stddef.h>', None),
             ('static void show(const char*k,const void*p,unsigned n){const unsigned char*b=(const unsigned char*)p;unsigned i;printf("%s ",k);for(i=0;i<n;i++)printf("%02x",b[i]);printf("\\n");}', None), ('int main(void){', None)]
        exp = {}
        for name, t, n, k in T:
            key = name + ' size'; L.append(('printf("%s %%u\\n",(unsigned)sizeof(%s));' % (key.replace(' ', '|'), name), key)); exp[key] = str(n * k * catalog.size(t))
            if k > 1:
                for j in range(k):
                    key = '%s reg%d' % (name, j)
                    base = name.rsplit('x', 1)[0] + '_t'
                    L.append(('{%s v;%s*q=&v.val[%d];printf("%s %%d\\n",(int)((char*)q-(char*)&v));}' % (name, base, j, key.replace(' ', '|')), key)); exp[key] = str(j * n * catalog.size(t))
            for rep in range(reps):
                vals = [rnd_el(rg, t) for _ in range(n * k)]
                if rep == 0: vals = [((i + 1) if t[0] != 'f' else int(rnd_f(i + 1, t))) for i in range(n * k)]
                hx = b''.join(v.to_bytes(catalog.size(t), 'little') for v in vals).hex()
                flat = [lit(t, v) for v in vals]
                nested = '{' + ','.join('{' + ','.join(flat[r * n:(r + 1) * n]) + '}' for r in range(k)) + '}' if k > 1 else None
                forms = [('flat', '{' + ','.join(flat) + '}')]
                if k == 1: forms.append(('braced', '{{' + ','.join(flat) + '}}'))
                else: forms.append(('nested', '{' + nested + '}'))
                part = rg.randrange(1, n * k + 1)
                if t[0] != 'f' or True: forms.append(('partial', '{' + ','.join(flat[:part]) + '}'))
                for fn, ini in forms:
                    key = '%s init-%s-%d' % (name, fn, rep)
                    for st in ('', 'static const '):
                        k2 = key + ('-static' if st else '')
                        L.append(('{%s%s v=%s;show("%s",&v,sizeof v);}' % (st, name, ini, k2.replace(' ', '|')), k2))
                        exp[k2] = hx if fn != 'partial' else hx[:part * 2 * catalog.size(t)] + '0' * (2 * (n * k - part) * catalog.size(t))
        L += [('return 0;}', None)]
        out, failed = build_run(ctx, tag, cc, fl, suf, None, L, None)
        if out is None: return
        got = {}
        for l in out:
            p = l.rsplit(' ', 1)
            if len(p) == 2: got[p[0].replace('|', ' ')] = p[1]
        for key, e in exp.items():
            fact('layout ' + key + ' ' + e)
            ty, what = key.split(' ')
            if key in failed: ctx.violation(ty, 'layout-' + what.split('-')[0], '%s %s: %s does not compile: %s' % (cc, fl, what, failed[key]))
            elif got.get(key) != e: ctx.violation(ty, 'layout-' + what.split('-')[0], '%s %s: %s is %s, expected %s' % (cc, fl, what, got.get(key), e))
        ctx.samples.append({'stage': tag, 'case': list(exp)[7], 'value': got.get(list(exp)[7])})

    def rnd_f(i, t):
        import struct
        return struct.unpack('<I' if t == 'f32' else '<Q', struct.pack('<f' if t == 'f32' else '<d', float(i)))[0]

    # ---- identity and convertibility of types, prototypes: C++ reflection at run time
    def ident_cxx(job):
        tag, cc, fl, suf = job
        L = [('#include "neon_sim.h"', None), ('#include <stdio.h>', None), ('#include <type_traits>', None), ('#include <typeinfo>', None),
             ('template<class F> struct Inv; template<class...> struct Voider{typedef void type;};', None),
             ('template<class V,class F,class...A> struct CallableI{static const bool value=false;}; template<class F,class...A> struct CallableI<typename Voider<decltype(std::declval<F>()(std::declval<A>()...))>::type,F,A...>{static const bool value=true;};', None)]
        L.insert(2, ('#include <utility>', None))
        vt = [n for n, _, _, _ in T]
        L.append(('struct P{const char*n;bool same,conv,asg,ctor;};', None))
        L.append(('template<class A,class B> void pr(const char*a,const char*b){printf("pair %s %s %d%d%d%d\\n",a,b,(int)std::is_same<A,B>::value,(int)std::is_convertible<A,B>::value,(int)std::is_assignable<B&,A>::value,(int)std::is_constructible<B,A>::value);}', None))
        scal = ['int', 'float', 'double', 'int8_t', 'uint64_t', 'const void*']
        L.append(('template<class A> void all(const char*a){', None))
        for b in vt: L.append(('pr<A,%s>(a,"%s");' % (b, b), 'type ' + b))
        for b in scal[:3]: L.append(('printf("scal %%s %s %%d\\n",a,(int)(std::is_convertible<A,%s>::value||std::is_convertible<%s,A>::value));' % (b, b, b), 'scal ' + b))
        L.append(('}', None))
        decl = [n for n in protos if n in declared]
        nt = max(1, 6 if ctx.thorough else 1)
        rg = random.Random(ctx.seed * 3 + 11)
        L.append(('template<class F,class G> void fn(const char*n){printf("fn %s %d\\n",n,(int)(typeid(F)==typeid(G)));}', None))
        L.append(('template<class F,class...A> void inv(const char*n,const char*w){printf("inv %s %s %d\\n",n,w,(int)CallableI<void,F,A...>::value);}', None))
        # declarations are probed in functions of a hundred lines each
        body = []
        for n in decl:
            r, ps = protos[n]
            body.append(('fn<decltype(&%s),%s(*)(%s)>("%s");' % (n, r, ','.join(ps), n), 'fn ' + n))
            body.append(('inv<decltype(&%s)%s>("%s","right");' % (n, ''.join(',' + p for p in ps), n), 'fn ' + n))
            vi = [i for i, p in enumerate(ps) if p in vt]
            for i in vi:
                for q in range(nt):
                    wrong = rg.choice([x for x in vt if x != ps[i]]) if rg.random() < .5 else similar(ps[i], rg)
                    w = list(ps); w[i] = wrong
                    body.append(('inv<decltype(&%s)%s>("%s","%d:%s");' % (n, ''.join(',' + p for p in w), n, i, wrong), 'fn ' + n))
        nb = 0
        for i in range(0, len(body), 200):
            L.append(('static void part%d(){' % nb, None)); L += body[i:i + 200]; L.append(('}', None)); nb += 1
        L.append(('int main(){', None))
        for a in vt: L.append(('all<%s>("%s");' % (a, a), 'type ' + a))
        for i in range(nb): L.append(('part%d();' % i, None))
        L.append(('}', None))
        out, failed = build_run(ctx, tag, cc, fl, suf, None, L, None)
        for k, m in failed.items():
            kind, nm = k.split(' ', 1)
            if kind == 'fn' and re.search(r'not declared|undeclared|no member', m): continue
            ctx.violation(nm, 'prototype' if kind == 'fn' else 'type', '%s %s: %s' % (cc, fl, m))
        if out is None: return
        for l in out:
            p = l.split()
            if not p: continue
            fact(l[:-5] if p[0] == 'pair' else l[:-2])
            if p[0] == 'pair':
                if p[1] == p[2]:
                    if p[3] != '1111': ctx.violation(p[1], 'type', '%s: not an ordinary copyable type (%s)' % (cc, p[3]))
                elif p[3] != '0000': ctx.violation(p[1], 'distinct', '%s %s: %s and %s: same=%s convertible=%s assignable=%s constructible=%s' % (cc, fl, p[1], p[2], *p[3]))
            elif p[0] == 'scal' and p[-1] != '0': ctx.violation(p[1], 'distinct', '%s: convertible from or to %s' % (cc, ' '.join(p[2:-1])))
            elif p[0] == 'fn' and p[-1] != '1': ctx.violation(p[1], 'prototype', '%s %s: declared with other types than %s(%s)' % (cc, fl, protos[p[1]][0], ', '.join(protos[p[1]][1])))
            elif p[0] == 'inv':
                if p[2] == 'right' and p[3] != '1': ctx.violation(p[1], 'prototype', '%s: not callable with its specified arguments' % cc)
                if p[2] != 'right' and p[3] != '0': ctx.violation(p[1], 'accepts-wrong-type', '%s: accepts argument %s' % (cc, p[2]))
        ctx.stat['declared_intrinsics_checked'] = len(decl)
        ctx.samples += [{'stage': tag, 'report': l} for l in out[5:len(out):max(1, len(out) // 3)]][:3]

    def similar(p, rg):
        m = re.match(r'(u?int|float)(\d+)x(\d+)(x\d)?_t', p)
        k, b, n, x = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4) or ''
        c = []
        if k == 'int': c.append('uint%dx%d%s_t' % (b, n, x))
        if k == 'uint': c.append('int%dx%d%s_t' % (b, n, x))
        c.append('%s%dx%d%s_t' % (k, b, 192 // b - n if 192 // b - n > 0 else n, x) if False else '%s%dx%d%s_t' % (k, b, (128 // b if n * b == 64 else 64 // b), x))
        if k != 'float' and b < 64: c.append('%s%dx%d%s_t' % (k, b * 2, n // 2 if n > 1 else 1, x) if n > 1 else c[0])
        c = [y for y in c if y != p and y in {q[0] for q in T}]
        return rg.choice(c)

    def ident_c(job):
        tag, cc, fl, suf = job
        L = [('#include "neon_sim.h"', None), ('#include <stdio.h>', None)]
        vt = [n for n, _, _, _ in T]
        L.append(('#define IDX(x) _Generic((x),' + ','.join('%s:%d' % (n, i) for i, n in enumerate(vt)) + ',default:-1)', None))
        L.append(('#define TC(a,b) __builtin_types_compatible_p(a,b)', None))
        body = []
        for i, a in enumerate(vt):
            body.append(('{%s v;printf("idx %s %%d\\n",IDX(v));}' % (a, a), 'type ' + a))
            body.append(('printf("row %s ");' % a + ''.join('putchar(48+TC(%s,%s));' % (a, b) for b in vt) + 'putchar(10);', 'type ' + a))
        for n in [x for x in protos if x in declared]:
            r, ps = protos[n]
            body.append(('printf("fn %s %%d\\n",TC(__typeof__(%s),%s(%s)));' % (n, n, r, ','.join(ps) or 'void'), 'fn ' + n))
        nb = 0
        for i in range(0, len(body), 200):
            L.append(('static void part%d(void){' % nb, None)); L += body[i:i + 200]; L.append(('}', None)); nb += 1
        L.append(('int main(void){', None)); L += [('part%d();' % i, None) for i in range(nb)]; L.append(('return 0;}', None))
        out, failed = build_run(ctx, tag, cc, fl, suf, None, L, None)
        for k, m in failed.items():
            kind, nm = k.split(' ', 1)
            if kind == 'fn' and 'undeclared' in m: continue
            ctx.violation(nm, 'prototype' if kind == 'fn' else 'distinct', '%s %s: %s' % (cc, fl, m))
        if out is None: return
        for l in out:
            p = l.split()
            if not p: continue
            if p[0] == 'idx':
                fact('c idx ' + p[1])
                if int(p[2]) != vt.index(p[1]): ctx.violation(p[1], 'distinct', '%s: _Generic selects %s' % (cc, p[2]))
            elif p[0] == 'row':
                i = vt.index(p[1])
                for j, ch in enumerate(p[2]):
                    fact('c pair %d %d' % (i, j))
                    if (ch == '1') != (i == j): ctx.violation(p[1], 'distinct', '%s: %s and %s are compatible types in C' % (cc, p[1], vt[j]))
            elif p[0] == 'fn':
                fact('c fn ' + p[1])
                if p[2] != '1': ctx.violation(p[1], 'prototype', '%s %s: declared in C with other types than %s(%s)' % (cc, fl, protos[p[1]][0], ', '.join(protos[p[1]][1])))

    hdr = run(['g++', '-std=c++11', '-E', '-P', '-x', 'c++', os.path.join(REPO, 'neon_sim.h')]); hdc = run(['gcc', '-std=c11', '-E', '-P', '-x', 'c', os.path.join(REPO, 'neon_sim.h')])
    if hdr.returncode or hdc.returncode: raise builds.BuildError('the header cannot be preprocessed')
    declared = set(re.findall(r'\b(v\w+)\s*\(', hdr.stdout)) | set(re.findall(r'\b(v\w+)\s*\(', hdc.stdout))
    reps = 12 if ctx.thorough else 2
    jobs = []
    for i in range(6 if ctx.thorough else 1):
        s = ctx.seed * 100 + i
        jobs += [(layout, ('lay-gcc-%d' % i, 'gcc', '-std=c11 -O2', 'c', reps, s)), (layout, ('lay-clang-%d' % i, 'clang', '-std=c99 -O0', 'c', reps, s + 1000)),
                 (layout, ('lay-gxx-%d' % i, 'g++', '-std=c++11 -O0', 'cpp', reps, s + 2000)), (layout, ('lay-clangxx-%d' % i, 'clang++', '-std=c++17 -O2', 'cpp', reps, s + 3000))]
    jobs += [(ident_cxx, ('id-gxx', 'g++', '-std=c++11', 'cpp')), (ident_cxx, ('id-clangxx', 'clang++', '-std=c++11', 'cpp')), (ident_c, ('id-gcc', 'gcc', '-std=c11', 'c')), (ident_c, ('id-clang', 'clang', '-std=c11', 'c'))]
    jobs += [(ident_cxx, ('id-gxx17', 'g++', '-std=gnu++17 -O2 -DNDEBUG', 'cpp')), (ident_cxx, ('id-clangxx20', 'clang++', '-std=gnu++20', 'cpp')), (ident_c, ('id-gcc17', 'gcc', '-std=gnu17 -O2', 'c')), (ident_c, ('id-clang17', 'clang', '-std=gnu17 -DNDEBUG', 'c')),
             (layout, ('lay-gnu', 'gcc', '-std=gnu17 -O3 -march=native', 'c', 1, ctx.seed * 100 + 4000)), (layout, ('lay-gnuxx', 'g++', '-std=gnu++20 -O3', 'cpp', 1, ctx.seed * 100 + 5000)), (layout, ('lay-clanggnu', 'clang++', '-std=gnu++14 -O1', 'cpp', 1, ctx.seed * 100 + 6000))]
    if ctx.thorough: jobs += [(ident_cxx, ('id-gxx14', 'g++', '-std=c++14', 'cpp')), (ident_cxx, ('id-clangxx17', 'clang++', '-std=c++17', 'cpp'))]
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: j[0](j[1]), jobs))
    ctx.stages.append({'stage': 'probe programs', 'evaluations': ctx.evals, 'programs': len(jobs), 'types': len(T)})

"""P26: generated programs compiled together with the library, and kernels."""
import os, sys, random, struct, shutil, json, subprocess
from concurrent.futures import ThreadPoolExecutor
import builds, driver
from builds import run, HarnessError, VERIF, REPO
import catalog
from catalog import FNS, Ty
from iface import lit, rnd_el

ARENAS = {('i', 8): ('m8', 'int8_t'), ('i', 16): ('m16', 'int16_t'), ('i', 32): ('m32', 'int32_t'), ('i', 64): ('m64', 'int64_t'), ('f', 32): ('mf', 'float'), ('f', 64): ('md', 'double')}
AIDX = {'m8': 0, 'm16': 1, 'm32': 2, 'm64': 3, 'mf': 4, 'md': 5}
ARENA_BYTES = 512
INB = 4096


def tykey(a): return (a.t, a.n, a.k, a.role)


class Prog:
    def __init__(s, k, rng, fns):
        s.k, s.r, s.fns = k, rng, fns
        s.body = []; s.table = []; s.vars = {}; s.decl = []; s.nid = 0; s.nn = 0; s.cur = {}; s.off = 0; s.nc = 0; s.static = []; s.size = {}
        s.forced = []; s.byin = {}
        for f in fns:
            for a in f.args:
                if a.role in 'vs': s.byin.setdefault(tykey(a), []).append(f)

    def newid(s): s.nid += 1; return s.nid - 1

    def alloc_in(s, n):
        s.off = (s.off + 7) & ~7
        if s.off + n > INB: s.off = 0        # reuse: the same input bytes seen through another type
        o = s.off; s.off += n; return o

    def fresh(s, a, body, it):
        """a new variable; returns (name, list of per-iteration definitions)"""
        v = 'x%d' % len(s.decl); n = a.nbytes; s.size[v] = n
        s.decl.append('%s %s;' % (a.acle(), v)); s.vars.setdefault(tykey(a), []).append(v)
        if s.r.random() < .25:                  # literal constant
            vals = [rnd_el(s.r, a.t) for _ in range(a.elems)]
            if s.r.random() < .3: vals = [vals[0]] * a.elems
            hx = b''.join(x.to_bytes(catalog.size(a.t), 'little') for x in vals).hex()
            ini = ','.join(lit(a.t, x) for x in vals)
            if a.role == 's': body.append('%s = (%s)%s;' % (v, a.acle(), ini))
            else:
                c = 'k%d' % s.nc; s.nc += 1; dcl = 'const %s %s = {%s};' % (a.acle(), c, ini)
                if s.r.random() < .5: s.static.append('static ' + dcl)
                else: body.append(dcl)
                body.append('%s = %s;' % (v, c))
            return v, [('C', hx)] * it
        step = n if s.r.random() < .7 else 0
        o = s.alloc_in(n * it if step else n)
        if o + (n * it if step else n) > INB: step = 0
        body.append('memcpy(&%s, in + %d%s, sizeof %s);' % (v, o, ' + i * %d' % step if step and it > 1 else '', v))
        return v, [('I', o + step * j, a) for j in range(it)]

    def block(s, it, nst):
        """statements executed `it` times; returns text and emits the dynamic steps iteration by iteration"""
        body, dyn = [], []         # dyn: list of static steps, replayed per iteration
        for _ in range(nst):
            cand = s.fns
            if s.last is not None and s.r.random() < .65: cand = s.byin.get(s.last) or s.fns
            f = s.forced.pop() if s.forced else s.r.choice(cand)
            args, dargs = [], []
            used = False
            for a in f.args:
                if a.role == 'i':
                    lo, hi = f.imm
                    z = s.r.random()
                    if z < .55 or (it == 1 and z < .7): n = s.r.randint(lo, hi); args.append(str(n)); dargs.append(('imm', [n] * it))
                    elif z < .8 and it > 1:
                        b = s.r.randint(0, hi - lo); m = hi - lo + 1; args.append('%d + (i + %d) %% %d' % (lo, b, m)); dargs.append(('imm', [lo + (j + b) % m for j in range(it)]))
                    else:
                        args.append('prm[%d]' % len(s.jlist)); s.jlist.append((lo, hi)); dargs.append(('jmm', len(s.jlist) - 1))
                elif a.role in 'rw':
                    nm, bt = ARENAS[('f' if a.t[0] == 'f' else 'i', catalog.bits(a.t))]; es = catalog.size(a.t)
                    cap = (ARENA_BYTES - a.nbytes) // es
                    st = s.r.choice([0, 0, 1, a.elems, a.elems]) if it > 1 else 0
                    if st * (it - 1) > cap: st = 0
                    b = s.r.randint(0, cap - st * (it - 1))
                    if s.r.random() < .3: b = s.r.choice([0, cap - st * (it - 1)])
                    args.append('(%s)(%s + %d%s)' % (a.acle(), nm, b, ' + i * %d' % st if st else '')); dargs.append(('mem', AIDX[nm], [(b + st * j) * es for j in range(it)]))
                else:
                    vs = s.vars.get(tykey(a), [])
                    if vs and s.r.random() < (.85 if len(vs) > 1 else .6):
                        if s.last == tykey(a) and not used: v = s.lastv; used = True
                        else: v = s.r.choice(vs)
                    else:
                        v, defs = s.fresh(a, body, it); dyn.append(('def', v, defs))
                    args.append(v); dargs.append(('var', v))
            acc = []                          # plain accesses of the program to the elements the call addresses, through the element type
            for x in dargs:
                if x[0] == 'mem':
                    a = next(q for q in f.args if q.role in 'rw'); nm, ct = [(m, c) for m, c in ARENAS.values() if AIDX[m] == x[1]][0]; es = catalog.size(a.t)
                    if a.role == 'w' and s.r.random() < .7:      # write, store, read of one element: nothing may come in between
                        e = s.r.randrange(a.elems)
                        acc += [(nm, ct, x, e, es, a, 'W', True), (nm, ct, x, e, es, a, 'R', False)]
                    for _ in range(s.r.choice([0, 0, 1, 2])): acc.append((nm, ct, x, s.r.randrange(a.elems), es, a, s.r.choice('WWR' if a.role == 'r' else 'WWRR'), s.r.random() < .5))
            def access(when):
                for nm, ct, x, e, es, a, kind, before in acc:
                    if (kind == 'W') != before and a.role == 'w': before = kind == 'W'     # around a store: write, store, read
                    if before != when: continue
                    b0 = x[2][0] // es; st = (x[2][1] - x[2][0]) // es if it > 1 else 0
                    ix = '%s[%d%s]' % (nm, b0 + e, ' + i * %d' % st if st else '')
                    offs = [o + e * es for o in x[2]]
                    if kind == 'W':
                        v = rnd_el(s.r, a.t)
                        if a.t[0] == 'f': v = {4: struct.unpack('<I', struct.pack('<f', s.r.randint(-99, 99) / 4))[0], 8: struct.unpack('<Q', struct.pack('<d', s.r.randint(-99, 99) / 4))[0]}[es]
                        body.append('%s = (%s)%s;' % (ix, ct, lit(a.t, v))); dyn.append(('W', x[1], offs, v.to_bytes(es, 'little').hex()))
                    else: body.append('{ %s t = %s; TR(t); }' % (ct, ix)); dyn.append(('R', x[1], offs, es))
            access(True)
            for i in range(len(args)):           # every argument is evaluated exactly once
                if s.r.random() < .08: args[i] = '(n++, %s)' % args[i]; s.nn += it
            if f.ret is None:
                body.append('%s(%s);' % (f.name, ', '.join(args))); dyn.append(('step', f, None, False, dargs)); access(False); continue
            o = f.ret; vs = s.vars.get(tykey(o), [])
            if vs and s.r.random() < .5: v = s.r.choice(vs)
            else: v = 'x%d' % len(s.decl); s.size[v] = o.nbytes; s.decl.append('%s %s;' % (o.acle(), v)); s.vars.setdefault(tykey(o), []).append(v); s.decl[-1] = '%s %s = %s();' % (o.acle(), v, o.acle()) if o.role == 'v' else '%s %s = 0;' % (o.acle(), v)
            tr = bool(f.fp) or s.r.random() < .5
            body.append('%s = %s(%s);' % (v, f.name, ', '.join(args)) + (' TR(%s);' % v if tr else ''))
            dyn.append(('step', f, v, tr, dargs)); s.last, s.lastv = tykey(o), v
            access(False)
        for j in range(it):
            for d in dyn:
                if d[0] == 'def':
                    _, v, defs = d; i = s.newid(); s.cur[v] = i; q = defs[j]
                    if q[0] == 'C': s.table.append('C %d %s' % (i, q[1]))
                    else: s.table.append('I %d %d %s %d %d' % (i, q[1], q[2].t[0], catalog.bits(q[2].t), q[2].nbytes))
                elif d[0] == 'W': s.table.append('W %d %d %s' % (d[1], d[2][j], d[3]))
                elif d[0] == 'R': s.table.append('R %d %d %d' % (d[1], d[2][j], d[3]))
                else:
                    _, f, v, tr, da = d; l = []
                    for x in da:
                        if x[0] == 'imm': l.append('i%d' % x[1][j])
                        elif x[0] == 'jmm': l.append('j%d' % x[1])
                        elif x[0] == 'mem': l.append('m%d:%d' % (x[1], x[2][j]))
                        else:
                            if x[1] not in s.cur: s.cur[x[1]] = s.newid(); s.table.append('Z %d' % s.cur[x[1]])
                            l.append('v%d' % s.cur[x[1]])
                    i = -1
                    if v is not None: i = s.newid()
                    s.table.append('S %s %d %d %s' % (f.name, i, 1 if tr else 0, ' '.join(l)))
                    if v is not None: s.cur[v] = i
        if it > 1: return ['for (int i = 0; i < %d; i++) {' % it] + ['    ' + x for x in body] + ['}']
        return body

    def make(s, forced=()):
        s.forced = list(forced); s.nforced = len(s.forced)
        s.last = s.lastv = None; s.jlist = []
        text = []
        for _ in range(s.r.randint(1, 4)) if not s.forced else range(99):
            if _ and s.nforced and not s.forced: break
            it = s.r.choice([1, 1, 2, 3, 4, 7, 16]); text += s.block(it, s.r.randint(3, 22) if it < 5 else s.r.randint(2, 10))
        text.append('TR(n);'); s.table.append('N %d' % s.nn)
        # the final value of every variable is observed
        for v, i in s.cur.items(): text.append('TR(%s);' % v); s.table.append('F %d %d' % (i, s.size[v]))
        src = list(s.static)
        src += ['extern "C" void prog_%d(const unsigned char* in, const int* prm, int8_t* m8, int16_t* m16, int32_t* m32, int64_t* m64, float* mf, double* md, unsigned char* tr) {' % s.k]
        src += ['    int n = 0;'] + ['    ' + x for x in s.decl] + ['    ' + x for x in text] + ['}']
        tab = ['P %d %d' % (s.k, s.nid)] + ['J %d %d' % x for x in s.jlist] + s.table + ['E']
        return src, tab


ROUND = 8


def generate(d, shard, seed, count, pool):
    rng = random.Random(seed * 1000 + shard)
    src, tab = ['#include "neon_sim.h"', '#include <string.h>', '#define TR(v) (memcpy(tr, &v, sizeof v), tr += sizeof v)'], []
    for k in range(count):
        fns = pool if rng.random() < .5 else rng.sample(pool, min(len(pool), rng.randint(6, 40)))
        mine = []
        if k < 2 * ROUND:                     # every function of the shard is called by at least two programs, memory functions by four
            if k % ROUND == 0: todo = [f for i, f in enumerate(pool) if i % driver.NSH == shard]; todo += [f for f in todo if any(a.role in 'rw' for a in f.args)]; rng.shuffle(todo)
            mine = todo[k % ROUND::ROUND]
        a, b = Prog(k, rng, fns).make(mine)
        # file-scope constants of different programs must not collide
        ns = 'namespace p%d {' % k
        src += [ns] + a + ['}']; tab += b
    open('%s/prog_%d.cpp' % (d, shard), 'w').write('\n'.join(src) + '\n')
    open('%s/prog_%d.txt' % (d, shard), 'w').write('\n'.join(tab) + '\n')


BUILDS = {   # how programs are compiled: with the library inlined across the link, and separately
    'glto': ('g++', '-std=c++17 -O3 -flto', 'flto'),
    'clto': ('clang++', '-std=c++17 -O2 -flto -ffat-lto-objects -fuse-ld=lld', 'clto'),
    'gsep': ('g++', '-std=c++17 -O2 -march=x86-64-v3 -ffp-contract=off', 'base'),
}


def compiled(ctx, L):
    d = os.path.join(ctx.work, 'programs'); os.makedirs(d, exist_ok=True)
    T = ctx.thorough
    names = list(BUILDS)
    with ThreadPoolExecutor(4) as ex: lib = dict(zip(names, ex.map(lambda n: os.path.join(os.path.dirname(builds.library(BUILDS[n][2])), 'libneon_sim.a'), names)))
    nm = run(['nm', '--defined-only', lib['gsep']]).stdout
    have = {l.split()[2] for l in nm.split('\n') if len(l.split()) == 3 and l.split()[1] in 'TW'}
    pool = [f for f in FNS if f.name in have]
    for f in FNS:
        if f.name not in have: ctx.violation(f.name, 'missing', 'not exported by the library under its C name')
    rounds = 16 if T else 3; count = 40 if T else 24
    tot = dict(programs=0, runs=0, steps=0, reads=0)
    for rd in range(rounds):
        for k in range(driver.NSH): generate(d, k, ctx.seed * 97 + rd, count, pool)

        def comp(job):
            n, k = job; cc, fl, _ = BUILDS[n]
            r = run([cc] + fl.split() + ['-w', '-fPIC', '-shared', '-Wl,-Bsymbolic', '-I', REPO, '%s/prog_%d.cpp' % (d, k), lib[n], '-lm', '-o', '%s/prog_%d.%s.so' % (d, k, n)])
            if r.returncode: return (n, k, r.stderr)
        with ThreadPoolExecutor(8) as ex: bad = [x for x in ex.map(comp, [(n, k) for n in names for k in range(driver.NSH)]) if x]
        if bad: ctx.violation('neon_sim.h', 'compile', 'a program of legal calls does not build (%s): %s' % (bad[0][0], bad[0][2][-400:])); return
        env = {'NS_PROGDIR': d, 'NS_PROGBUILDS': ','.join(names)}
        st = driver.run_sharded(ctx, L['run'], 'cprog', [('base', L['base'])], 'ALL', rand=4000 if T else 400, env=env, tag='compiled-programs-%d' % rd)
        tot['programs'] += st['extra'][0]; tot['runs'] += st['extra'][1]; tot['steps'] += st['extra'][2]; tot['reads'] += st['extra'][3]
    ctx.stat.update(compiled_programs=tot['programs'], compiled_program_runs=tot['runs'], compiled_steps_compared=tot['steps'], compiled_memory_reads_compared=tot['reads'], program_builds=['%s: %s' % (n, ' '.join(BUILDS[n][:2])) for n in names])
    ctx.evals += tot['steps']; ctx.distinct += tot['runs']
    ctx.samples.append({'stage': 'compiled-programs', 'source_excerpt': open(d + '/prog_0.cpp').read()[300:900]})


def kernels(ctx):
    src = os.path.join(VERIF, 'harness', 'kernels.cpp'); w = ctx.work
    jobs = []
    for n in BUILDS:
        cc, fl, lb = BUILDS[n]
        lib = os.path.join(os.path.dirname(builds.library(lb)), 'libneon_sim.a')
        ex = os.path.join(w, 'kernels-' + n)
        jobs.append((n, ex, [cc] + fl.split() + ['-w', '-fno-strict-aliasing', '-I', REPO, src, lib, '-lm', '-o', ex]))
    with ThreadPoolExecutor(4) as tp: rs = list(tp.map(lambda j: run(j[2]), jobs))
    for (n, ex, c), r in zip(jobs, rs):
        if r.returncode: ctx.violation('kernels', 'compile', 'kernels of legal calls do not build (%s): %s' % (n, r.stderr[-400:])); continue
    def go(j):
        n, ex, c = j
        if not os.path.exists(ex): return n, None
        return n, run([ex, str(ctx.seed), '40000' if ctx.thorough else '400'], timeout=3000)
    with ThreadPoolExecutor(4) as tp: res = list(tp.map(go, jobs))
    for n, r in res:
        if r is None: continue
        ended = False; last = 'kernels'
        for l in r.stdout.split('\n'):
            if not l: continue
            j = json.loads(l)
            if 'kernel' in j:
                last = j['kernel']; ctx.evals += j['runs']; ctx.distinct += j['runs']
                ctx.stat.setdefault('kernels', {})[j['kernel'] + ' ' + n] = j['runs']
            elif 'start' in j: last = j['start']
            elif 'bad' in j: ctx.violation('kernel_' + j['bad'], 'kernel', '%s build: %s' % (n, j['detail']), j.get('inputs', ''))
            elif 'end' in j: ended = True
        if not ended: ctx.violation('kernel_' + last, 'crash', '%s build: the kernel program ended early with status %s: %s' % (n, r.returncode, r.stderr[-200:]))

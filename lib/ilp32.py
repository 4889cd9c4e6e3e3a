"""P29: the library built for a 32-bit data model, run beside the 64-bit one."""
import os, re, shutil, hashlib
import builds
from builds import run, HarnessError, REPO, VERIF, BUILD, Lock
from catalog import FNS

COMMON = '-m32 -march=i686 -msse2 -mfpmath=sse -mstackrealign -fno-pic -fno-pie -fno-stack-protector -U_FORTIFY_SOURCE -ffp-contract=off -w'
BUILDS = {'g32O2': ('g++', '-O2'), 'g32O0': ('g++', '-O0'), 'c32O2': ('clang++', '-O2'), 'g32O3': ('g++', '-O3')}


def thunk(f):
    s = 'static void t_%s(const unsigned char*const*in,unsigned char*out,void*mem){' % f.name
    call = []
    for i, a in enumerate(f.args):
        if a.role in 'rw': call.append('(%s)mem' % a.acle())
        else: s += '%s a%d;__builtin_memcpy(&a%d,in[%d],sizeof a%d);' % (a.acle(), i, i, i, i); call.append('a%d' % i)
    c = '%s(%s)' % (f.name, ','.join(call))
    s += '%s r=%s;__builtin_memcpy(out,&r,sizeof r);' % (f.ret.acle(), c) if f.ret else c + ';'
    return s + '(void)mem;(void)out;(void)in;}\n'


def build(name, have):
    """(path, unresolved) or (None, reason). A compile error inside the repository's files is returned as ('error', text)."""
    cc, fl = BUILDS[name]
    d = os.path.join(BUILD, 'ilp32', '%s-%s-%s' % (name, builds.rh(), builds._hash_files([VERIF + '/harness/ilp32.cpp', __file__, VERIF + '/spec/catalog.py'], fl + cc + COMMON)))
    exe = d + '/ns32'
    with Lock(d + '.lock'):
        if not os.path.exists(exe):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/inc/gnu'); open(d + '/inc/gnu/stubs-32.h', 'w').close()
            ver = run(['g++', '-dumpversion']).stdout.strip().split('.')[0]
            inc = ['-isystem', '/usr/include/x86_64-linux-gnu/c++/' + ver, '-idirafter', '/usr/include/x86_64-linux-gnu', '-idirafter', d + '/inc']
            if cc == 'clang++': inc = ['-nostdinc++', '-isystem', '/usr/include/c++/' + ver] + inc
            base = [cc, '-std=c++11'] + fl.split() + COMMON.split()
            fs = [f.name for f in FNS if f.name in have]
            open(d + '/table.cpp', 'w').write('#include "neon_sim.h"\n#include <string>\ntemplate class std::basic_string<char>;\n' + ''.join(thunk(f) for f in FNS if f.name in have) + 'typedef void(*thunk_t)(const unsigned char*const*,unsigned char*,void*);\nextern "C"{extern thunk_t const ns_table[]={%s};extern const int ns_count=%d;}\n' % (
                ','.join('t_' + f.name if f.name in have else '0' for f in FNS), len(FNS)))
            r = run([cc] + base[1:] + inc + ['-x', 'c++', '-fsyntax-only', '-'], input='#include <stdint.h>\n#include <math.h>\n#include <algorithm>\n#include <string>\n')
            if r.returncode: return None, 'this machine has no usable 32-bit headers for %s: %s' % (cc, r.stderr[:200])
            objs = []
            srcs, sfl = builds.sources()
            for src, flags in [(q, base + inc + sfl) for q in srcs] + list(((d + '/table.cpp', base + inc + ['-I', REPO]), (VERIF + '/harness/ilp32.cpp', [cc, '-O1', '-std=c++11', '-fno-builtin', '-fno-exceptions', '-ffreestanding', '-fno-tree-loop-distribute-patterns'][:6] + COMMON.split()))):
                o = d + '/' + '%d.' % len(objs) + os.path.basename(src) + '.o'; objs.append(o)
                r = run(flags + ['-c', src, '-o', o])
                if r.returncode:
                    if 'ilp32.cpp' in src: raise HarnessError('ilp32: ' + r.stderr[-1500:])
                    errs = [l for l in r.stderr.split('\n') if ' error:' in l]
                    if errs and all(l.startswith(REPO + '/') or l.startswith('neon_sim.') for l in errs): return 'error', errs[0].split('/')[-1]
                    return None, 'the 32-bit build does not compile here: %s' % (errs or [r.stderr[-300:]])[0][-300:]
            r = run(['ld', '-m', 'elf_i386', '-r'] + objs + ['-o', d + '/all.o'])
            if r.returncode: raise HarnessError('ilp32: ' + r.stderr[-800:])
            und = [l.split()[-1] for l in run(['nm', '-u', d + '/all.o']).stdout.split('\n') if l.split()]
            und = [u for u in und if not re.match(r'__(init_array|ehdr_start|fini_array|preinit)', u) and u != '_GLOBAL_OFFSET_TABLE_']
            open(d + '/stub.s', 'w').write('.text\n' + ''.join('.globl %s\n%s:\n' % (u, u) for u in und) + ' jmp ns_unresolved\n.fill 256\n.section .note.GNU-stack\n')
            r = run(['gcc', '-m32', '-c', d + '/stub.s', '-o', d + '/stub.o'])
            if r.returncode: raise HarnessError('ilp32: ' + r.stderr[-800:])
            r = run(['ld', '-m', 'elf_i386', '-static', '-z', 'noexecstack', d + '/all.o', d + '/stub.o', '-o', exe + '.tmp'])
            if r.returncode: raise HarnessError('ilp32: ' + r.stderr[-800:])
            open(d + '/und', 'w').write('\n'.join(und)); os.rename(exe + '.tmp', exe)
    builds._prune(os.path.join(BUILD, 'ilp32', name + '-*[0-9a-f]'), d)
    return exe, open(d + '/und').read().split()


FLOATN = """#ifndef _BITS_FLOATN_H
#define _BITS_FLOATN_H
#define __HAVE_FLOAT128 0
#define __HAVE_DISTINCT_FLOAT128 0
#define __HAVE_FLOAT64X 0
#define __HAVE_FLOAT64X_LONG_DOUBLE 0
#include <features.h>
#include <bits/floatn-common.h>
#endif
"""
WASM = {'wasmO2': '-O2', 'wasmO0': '-O0', 'wasmOz': '-Oz'}


def build_wasm(name, have):
    """The same for WebAssembly: another machine altogether, without any of x86's macros, types or leniency; node runs it."""
    fl = WASM[name]
    d = os.path.join(BUILD, 'ilp32', '%s-%s-%s' % (name, builds.rh(), builds._hash_files([VERIF + '/harness/wasm_rt.cpp', VERIF + '/harness/wasm_host.js', __file__, VERIF + '/spec/catalog.py'], fl)))
    exe = d + '/ns.wasm'
    if not all(shutil.which(x) for x in ('clang++', 'wasm-ld', 'node')): return None, 'clang++, wasm-ld or node is missing'
    with Lock(d + '.lock'):
        if not os.path.exists(exe):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/inc/gnu'); os.makedirs(d + '/inc/bits'); open(d + '/inc/gnu/stubs-32.h', 'w').close(); open(d + '/inc/bits/floatn.h', 'w').write(FLOATN)
            ver = run(['g++', '-dumpversion']).stdout.strip().split('.')[0]
            inc = ['-nostdinc++', '-isystem', d + '/inc', '-isystem', '/usr/include/c++/' + ver, '-isystem', '/usr/include/x86_64-linux-gnu/c++/' + ver, '-idirafter', '/usr/include', '-idirafter', '/usr/include/x86_64-linux-gnu']
            base = ['clang++', '--target=wasm32', '-std=c++11', '-w', '-ffp-contract=off'] + fl.split()
            open(d + '/table.cpp', 'w').write('#include "neon_sim.h"\n#include <string>\ntemplate class std::basic_string<char>;\n' + ''.join(thunk(f) for f in FNS if f.name in have) + 'typedef void(*thunk_t)(const unsigned char*const*,unsigned char*,void*);\nextern "C"{extern thunk_t const ns_table[]={%s};extern const int ns_count=%d;}\n' % (
                ','.join('t_' + f.name if f.name in have else '0' for f in FNS), len(FNS)))
            r = run(base + inc + ['-x', 'c++', '-fsyntax-only', '-'], input='#include <stdint.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include <algorithm>\n#include <string>\n')
            if r.returncode: return None, 'this machine has no usable headers for WebAssembly: %s' % r.stderr[:200]
            objs = []
            srcs, sfl = builds.sources()
            for src, flags in [(q, base + inc + sfl) for q in srcs] + list(((d + '/table.cpp', base + inc + ['-I', REPO]), (VERIF + '/harness/wasm_rt.cpp', ['clang++', '--target=wasm32', '-std=c++11', '-w', '-O1', '-fno-builtin', '-ffreestanding', '-fno-exceptions']))):
                o = d + '/' + '%d.' % len(objs) + os.path.basename(src) + '.o'; objs.append(o)
                r = run(flags + ['-c', src, '-o', o])
                if r.returncode:
                    if 'wasm_rt.cpp' in src: raise HarnessError('wasm: ' + r.stderr[-1500:])
                    errs = [l for l in r.stderr.split('\n') if ' error:' in l]
                    if errs and all(l.startswith(REPO + '/') or l.startswith('neon_sim.') for l in errs): return 'error', errs[0].split('/')[-1]
                    return None, 'the WebAssembly build does not compile here: %s' % (errs or [r.stderr[-300:]])[0][-300:]
            r = run(['wasm-ld', '--no-entry', '--allow-undefined', '--export=__stack_pointer', '-z', 'stack-size=1048576'] + objs + ['-o', exe + '.tmp'])
            if r.returncode: return None, 'the WebAssembly build does not link here: ' + r.stderr[-300:]
            r = run(['node', '-e', 'const m=new WebAssembly.Module(require("fs").readFileSync(process.argv[1]));console.log(WebAssembly.Module.imports(m).map(i=>i.name).filter(n=>n!="stop"&&n!="fmod").join("\\n"))', exe + '.tmp'])
            if r.returncode: return None, 'node does not take the module: ' + r.stderr[-300:]
            open(d + '/und', 'w').write(r.stdout); shutil.copy(VERIF + '/harness/wasm_host.js', d + '/host.js')
            with open(d + '/ns', 'w') as f: f.write('#!/bin/sh\nexec node --stack-size=800 %s/host.js %s\n' % (d, exe))
            os.chmod(d + '/ns', 0o755); os.rename(exe + '.tmp', exe)
    builds._prune(os.path.join(BUILD, 'ilp32', name + '-*[0-9a-f]'), d)
    return d + '/ns', open(d + '/und').read().split()


def plan_p29(ctx):
    import driver
    from concurrent.futures import ThreadPoolExecutor
    ctx.rule = ('The library is also built for a 32-bit target (int, long, size_t and pointers of 32 bits; gcc and clang) and runs in 32-bit processes; every call is made in them and in the 64-bit build, and results and stored memory must be equal bit for bit (any NaN of a float lane counts as any other). '
                + 'Typed inputs: boundary products, biased random, coverage-guided; every legal immediate. Distinct inputs are counted by a 26-bit hash per shard (a lower bound); the all-zero input is trivial.')
    L = driver.builds_for(ctx, ['base', 'cov'], 'nsrun')
    have = {l.split()[2] for l in run(['nm', '--defined-only', os.path.join(os.path.dirname(L['base']), 'libneon_sim.a')]).stdout.split('\n') if len(l.split()) == 3 and l.split()[1] in 'TW'}
    names = ['g32O2', 'g32O0', 'c32O2'] + (['g32O3'] if ctx.thorough else [])
    with ThreadPoolExecutor(4) as ex: r = dict(zip(names, ex.map(lambda n: build(n, have), names)))
    wn = ['wasmO2', 'wasmO0'] + (['wasmOz'] if ctx.thorough else [])
    with ThreadPoolExecutor(4) as ex: r.update(zip(wn, ex.map(lambda n: build_wasm(n, have), wn)))
    exes = []
    for n, (p, u) in r.items():
        if p == 'error': ctx.violation('neon_sim.cpp', 'compile', 'does not compile for a 32-bit platform with %s %s: %s' % (BUILDS.get(n, ('clang++ --target=wasm32', ''))[0], BUILDS.get(n, ('', WASM.get(n)))[1], u))
        elif p is None: ctx.notes.append('%s: %s' % (n, u))
        else: exes.append((n, p, u))
    ctx.stat['builds_32_bit'] = [n for n, p, u in exes if n in BUILDS]; ctx.stat['builds_webassembly'] = [n for n, p, u in exes if n in WASM]
    ctx.stat['library_calls_not_available_in_32_bit'] = sorted({x for n, p, u in exes for x in u})
    if not exes:
        ctx.notes.append('nothing was executed'); return
    # a crash is only the library's when nothing it needs was left out
    strict = all(not [x for x in u if not re.match(r'_Unwind_|__gxx_personality|__cxa_|_ZSt|_ZN?K?St7__cxx1112basic_string|_ZTI', x)] for n, p, u in exes)
    st = driver.run_sharded(ctx, L['run'], 'ilp32', [('base', L['base']), ('cov', L['cov'])], 'ALL', rand=3000000 if ctx.thorough else 120000, guided=100000 if ctx.thorough else 8000, exh=70000 if ctx.thorough else 300, dic=L['dict'],
                            env={'NS_ILP32': ':'.join('%s=%s' % (n, p) for n, p, u in exes), 'NS_ILP32_STRICT': '1' if strict else ''})
    ctx.stat.update(calls_in_32_bit_processes=st['extra'][0], calls_without_verdict=st['extra'][1])

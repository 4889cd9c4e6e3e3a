"""Builds: library variants from the repository's CMake project, harness programs from /verif/harness."""
import os, re, sys, hashlib, subprocess, fcntl, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NS_REPO', '/repo')          # checks use /repo; the override serves experiments with copies
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, os.path.join(VERIF, 'spec'))


class BuildError(Exception):
    pass


class HarnessError(Exception):
    pass


def run(cmd, **kw):
    env = kw.pop('env', None) or dict(os.environ, LC_ALL='C')
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, **kw)


def _hash_files(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\1')
    return h.hexdigest()[:16]


def repo_hash():
    fs = []
    for d, ds, ff in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', '_build') and not x.startswith('build')]
        for f in ff:
            p = os.path.join(d, f)
            if os.path.isfile(p): fs.append(p)
    return _hash_files(fs)


_RH = None
def rh():
    global _RH
    if _RH is None: _RH = repo_hash()
    return _RH


SAN = '-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero,implicit-signed-integer-truncation'
# name: (C compiler, C++ compiler, compile flags, link flags)
SANF = '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr,function -fstrict-flex-arrays=3 -fsanitize-recover=all'
COV = '-fsanitize-coverage=trace-pc-guard,trace-cmp'
NOV = '-fno-vectorize -fno-slp-vectorize -fno-unroll-loops'
VARIANTS = {
    'base':   ('gcc', '-O2 -g', ''),
    'cov':    ('clang', '-O1 -g0 %s %s' % (NOV, COV), ''),
    'gO0':    ('gcc', '-O0', ''),
    'gO1':    ('gcc', '-O1', ''),
    'gO3':    ('gcc', '-O3', ''),
    'gOs':    ('gcc', '-Os', ''),
    'gNDEBUG': ('gcc', '-O3 -DNDEBUG', ''),
    'gUCHAR': ('gcc', '-O2 -funsigned-char', ''),
    'cO0':    ('clang', '-O0', ''),
    'cO2':    ('clang', '-O2', ''),
    'cO3':    ('clang', '-O3 -DNDEBUG', ''),
    'cPAT':   ('clang', '-O1 -ftrivial-auto-var-init=pattern', ''),
    'cZERO':  ('clang', '-O1 -ftrivial-auto-var-init=zero', ''),
    # instruction-set extensions switch on vectorised code and predefined macros; gcc by default fuses products and sums where the machine can
    'gV3':    ('gcc', '-O3 -march=x86-64-v3', ''),
    'gV3n':   ('gcc', '-O3 -march=x86-64-v3 -ffp-contract=off', ''),
    'cV3':    ('clang', '-O3 -march=x86-64-v3', ''),
    'gV4':    ('gcc', '-O3 -march=x86-64-v4 -mprefer-vector-width=512', ''),
    'cV4':    ('clang', '-O3 -march=x86-64-v4 -mprefer-vector-width=512', ''),
    'gOMP':   ('gcc', '-O2 -fopenmp -pthread', ''),
    'gFORT':  ('gcc', '-O2 -D_FORTIFY_SOURCE=3 -D_GLIBCXX_ASSERTIONS -fstack-protector-all -fomit-frame-pointer', ''),
    # other language standards than the project's own (a program may compile the two files itself), other macros and options of the builder
    'gCXX20': ('gcc', '-O2 --std=gnu++20 -fopenmp-simd', ''),
    'cCXX17': ('clang', '-O2 --std=c++17 -fno-exceptions -fno-rtti', ''),
    'gSTRICT': ('gcc', '-O3 --std=c++14 -fno-strict-aliasing -fwrapv', ''),
    'gPLAIN': ('gcc', '-O2 -U__SSE__ -U__SSE2__ -U__SSE_MATH__ -U__SSE2_MATH__ -U__MMX__ -U__MMX_WITH_SSE__ -fno-builtin', ''),
    'gDEBUG': ('gcc', '-Og -DDEBUG -D_DEBUG -D_GLIBCXX_DEBUG -ffunction-sections -fdata-sections', ''),
    # a program may be linked at a fixed address: no position independence, and the macros that go with it
    'gNOPIC': ('gcc', '-O2 -fno-pic -fno-pie -mcmodel=large', ''),
    'flto':   ('gcc', '-O3 -flto -ffat-lto-objects', ''),
    'clto':   ('clang', '-O2 -flto -ffat-lto-objects', ''),
    'san':    ('clang', SANF, '-fsanitize=address,undefined -shared-libsan'),
    'sancov': ('clang', SANF + ' %s %s' % (NOV, COV), ''),
    # gcc's instrumentation sees other things (abs of the smallest integer, strict bounds); its reports go to the same runtime
    'gsan':   ('gcc', '-O1 -g -fno-omit-frame-pointer -fsanitize=undefined,float-cast-overflow,bounds-strict -fno-sanitize=vptr -fsanitize-recover=all -D_GLIBCXX_ASSERTIONS', ''),
    'san0':   ('clang', SANF.replace('-O1', '-O0'), ''),
    'msan':   ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-recover=memory', ''),
    'msancov': ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-recover=memory %s %s' % (NOV, COV), ''),
    'msan0':  ('clang', '-O0 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-recover=memory', ''),
    # branches and addresses computed from uninitialised memory are counted by our own hook (see library())
    'umr':    ('clang', '-O0 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-recover=memory -fno-sanitize-memory-param-retval', ''),
    'umrcov': ('clang', '-O0 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-recover=memory -fno-sanitize-memory-param-retval ' + COV, ''),
    'tsan':   ('clang', '-O1 -g -fno-omit-frame-pointer -fsanitize=thread', ''),
    # every memory access of the library becomes a call into our own recorder (no sanitizer runtime is linked)
    'trace':  ('clang', '-O0 -g0 -fsanitize=address -mllvm -asan-instrumentation-with-call-threshold=0 -mllvm -asan-opt=0 -mllvm -asan-stack=0 -mllvm -asan-globals=0', 'NOSAN'),
    'trace1': ('clang', '-O1 -g0 -fsanitize=address -mllvm -asan-instrumentation-with-call-threshold=0 -mllvm -asan-opt=0 -mllvm -asan-stack=0 -mllvm -asan-globals=0', 'NOSAN'),
}


def wide_cpu(more=()):
    try: return {'avx2', 'fma', 'bmi2', 'movbe', 'f16c', *more} <= set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except (OSError, AttributeError): return False


class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()


def _prune(pattern, keep, n=6):
    def age(d):              # others may be pruning too
        try: return time.time() - os.path.getmtime(d)
        except OSError: return 0
    ds = sorted((age(d), d) for d in glob.glob(pattern) if d != keep)
    for t, d in ds[n:]:
        if t > 1800 and d.startswith(BUILD + '/'): shutil.rmtree(d, ignore_errors=True)


_SRC = None
def sources():
    """The library's source files and the include and macro flags the project compiles them with."""
    global _SRC
    if _SRC is None:
        import json, tempfile, shlex
        d = tempfile.mkdtemp(prefix='src.', dir=os.makedirs(BUILD, exist_ok=True) or BUILD)
        try:
            r = run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DNEON_SIM_BUILD_TEST=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++'])
            if r.returncode: raise BuildError('cmake: ' + (r.stdout + r.stderr)[-1500:])
            srcs, fl = [], []
            for e in json.load(open(d + '/compile_commands.json')):
                if 'neon_sim.dir' not in e.get('output', e['command']): continue
                srcs.append(e['file'])
                for w in shlex.split(e['command']):
                    if w[:2] in ('-I', '-D') and w not in fl: fl.append(w)
            if not srcs: raise BuildError('the build names no source of the library')
            _SRC = srcs, fl
        finally: shutil.rmtree(d, ignore_errors=True)
    return _SRC


def library(variant, static=False):
    """Path of the variant's shared library (static archive beside it), built from the current tree."""
    cc, fl, ld = VARIANTS[variant]
    d = os.path.join(BUILD, 'lib', '%s-%s-%s' % (variant, rh(), hashlib.sha256((cc + fl + ld).encode()).hexdigest()[:8]))
    so, ar = os.path.join(d, 'libns.so'), os.path.join(d, 'libneon_sim.a')
    with Lock(d + '.lock'):
        if not (os.path.exists(so) and os.path.exists(ar)):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            cxx = 'g++' if cc == 'gcc' else 'clang++'
            la = []
            if '--std=' in fl or '-fno-pic' in fl:       # the project names its standard behind our flags (and CMake adds -fPIC); this drops it
                drop = '-std=*' if '--std=' in fl else '-fPIC|-fPIE'
                la = [d + '/launch']
                with open(la[0], 'w') as f: f.write('#!/bin/bash\na=(); for x in "$@"; do case $x in %s) ;; *) a+=("$x");; esac; done; exec "${a[@]}"\n' % drop)
                os.chmod(la[0], 0o755); la = ['-DCMAKE_CXX_COMPILER_LAUNCHER=' + la[0]]
            r = run(['cmake', '-S', REPO, '-B', d + '/b', '-G', 'Ninja'] + la + [ '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_C_COMPILER=' + cc, '-DCMAKE_CXX_COMPILER=' + cxx,
                     '-DCMAKE_C_FLAGS=' + re.sub(r'--std=\S+|-fno-rtti', '', fl), '-DCMAKE_CXX_FLAGS=-w ' + fl, '-DCMAKE_POSITION_INDEPENDENT_CODE=ON', '-DNEON_SIM_BUILD_TEST=OFF',
                     # configuring links test programs; a build without sanitizer runtime cannot
                     '-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY'])
            if r.returncode: raise BuildError('cmake %s: %s' % (variant, (r.stdout + r.stderr)[-1500:]))
            r = run(['ninja', '-C', d + '/b', 'neon_sim'])
            if r.returncode: raise BuildError('build %s: %s' % (variant, (r.stdout + r.stderr)[-1500:]))
            a = glob.glob(d + '/b/**/libneon_sim.a', recursive=True)
            if not a: raise BuildError('no libneon_sim.a')
            shutil.copy(a[0], ar)
            if variant[:3] == 'umr':
                r = run(['objcopy'] + ['--redefine-sym=__msan_%s=ns_umr_%s' % (n, n) for n in ('warning', 'warning_with_origin', 'maybe_warning_1', 'maybe_warning_2', 'maybe_warning_4', 'maybe_warning_8')] + [ar])
                if r.returncode: raise BuildError('objcopy %s: %s' % (variant, r.stderr[-500:]))
            r = run([cxx, '-shared', '-Wl,-Bsymbolic', '-Wl,--whole-archive', ar, '-Wl,--no-whole-archive', '-o', so + '.tmp'] +
                    (['-fsanitize=' + {'m': 'memory', 't': 'thread'}[variant[0]]] if variant[:4] in ('msan', 'tsan') else ['-fsanitize=memory'] if variant[:3] == 'umr' else ['-fuse-ld=lld', '-ffat-lto-objects'] if variant == 'clto' else ['-fopenmp'] if variant == 'gOMP' else ['-Wl,-z,notext'] if variant == 'gNOPIC' else []))
            if r.returncode: raise BuildError('link %s: %s' % (variant, (r.stdout + r.stderr)[-1500:]))
            os.rename(so + '.tmp', so)
            shutil.rmtree(d + '/b', ignore_errors=True)
        os.utime(d)
    _prune(os.path.join(BUILD, 'lib', variant + '-*[0-9a-f]'), d)
    return so


def libraries(names):
    with ThreadPoolExecutor(8) as ex:
        fs = {n: ex.submit(library, n) for n in names}
        return {n: f.result() for n, f in fs.items()}


# ------------------------------------------------------------------------------------------------- harness
HFLAGS = '-std=c++17 -ffp-contract=off -fno-strict-aliasing -w'
# runner name: (compiler, flags, link flags, with laws, extra sources)
RUNNERS = {
    'nsrun': ('g++', '-O2', '-rdynamic -ldl -lpthread', False),
    'nslaw': ('g++', '-O1', '-rdynamic -ldl -lpthread', True),
    'nssan': ('clang++', '-O1', '-fsanitize=address,undefined -rdynamic -ldl -lpthread', False),
    'nsmsan': ('clang++', '-O1 -fsanitize=memory -fsanitize-recover=memory', '-fsanitize=memory -rdynamic -ldl -lpthread', False),
    'nstsan': ('clang++', '-O1 -fsanitize=thread', '-fsanitize=thread -rdynamic -ldl -lpthread', False),
}
RUNDEF = {'nsrun': '-O2 -DNS_FULL', 'nslaw': '-O2', 'nssan': '-O2 -DNS_ASAN', 'nsmsan': '-O2 -DNS_MSAN', 'nstsan': '-O1 -fsanitize=thread -DNS_FULL -DNS_TSAN'}


def gen_sources():
    src = glob.glob(os.path.join(VERIF, 'spec', '*.py')) + [os.path.join(VERIF, 'spec', 'acle_prototypes.json')]
    d = os.path.join(BUILD, 'gen-' + _hash_files(src))
    with Lock(d + '.lock'):
        if not os.path.exists(d + '/index.cpp'):
            import gen
            gen.main(d + '.tmp'); shutil.rmtree(d, ignore_errors=True); os.rename(d + '.tmp', d)
    return d


def runner(name):
    comp, cf, lf, laws = RUNNERS[name]
    g = gen_sources()
    hs = glob.glob(os.path.join(VERIF, 'harness', '*.hpp')) + glob.glob(os.path.join(VERIF, 'harness', '*.inc')) + [os.path.join(VERIF, 'harness', 'runner.cpp')]
    gh = [os.path.join(VERIF, 'harness', x) for x in ('rt.hpp', 'model.hpp', 'lawlib.hpp')]
    od = os.path.join(BUILD, 'obj-%s' % _hash_files(gh, g + comp + cf + HFLAGS))
    ex = os.path.join(BUILD, '%s-%s' % (name, _hash_files(hs, od + lf + RUNDEF[name])))
    with Lock(ex + '.lock'), Lock(od + '.lock'):
        if os.path.exists(ex): return ex
        os.makedirs(od, exist_ok=True)
        srcs = sorted(glob.glob(g + '/*.cpp'))
        if not laws: srcs = [s for s in srcs if 'laws_' not in s]

        def comp1(s):
            o = os.path.join(od, os.path.basename(s)[:-4] + '.o')
            if not os.path.exists(o):
                r = run([comp] + HFLAGS.split() + cf.split() + ['-I', VERIF + '/harness', '-c', s, '-o', o + '.tmp'])
                if r.returncode: raise HarnessError('harness %s: %s' % (s, r.stderr[-2000:]))
                os.rename(o + '.tmp', o)
            return o

        def compr():
            o = ex + '.o'
            r = run([comp] + HFLAGS.split() + RUNDEF[name].split() + ['-I', VERIF + '/harness', '-c', VERIF + '/harness/runner.cpp', '-o', o])
            if r.returncode: raise HarnessError('runner: %s' % r.stderr[-2000:])
            return o
        with ThreadPoolExecutor(9) as tp:
            fr = tp.submit(compr); objs = list(tp.map(comp1, srcs)); objs.append(fr.result())
        r = run([comp] + objs + ['-o', ex + '.tmp'] + lf.split())
        if r.returncode: raise HarnessError('link %s: %s' % (name, r.stderr[-2000:]))
        os.rename(ex + '.tmp', ex); os.unlink(ex + '.o')
    return ex


_AL = None
def type_align():
    """Alignment the header gives to a structure of byte vectors: 1 where types are plain arrays of elements."""
    global _AL
    if _AL is None:
        d = os.path.join(BUILD, 'align-%s-%d' % (rh(), os.getpid())); os.makedirs(BUILD, exist_ok=True)
        r = run(['g++', '-std=c++11', '-w', '-I', REPO, '-x', 'c++', '-', '-o', d], input='#include "neon_sim.h"\n#include <stdio.h>\nint main() { printf("%d", (int)alignof(uint8x16x2_t)); }\n')
        _AL = run([d]).stdout if r.returncode == 0 else ''
        if os.path.exists(d): os.unlink(d)
    return _AL


def dictionary():
    """Constants of the current tree's code: immediates and read-only words of an -O0 build, per function (transitively) and pooled."""
    import re
    so = library('gO0')
    path = os.path.join(os.path.dirname(so), 'dict.txt')
    with Lock(path + '.lock'):
        if os.path.exists(path): return path
        from catalog import FNS
        names = {f.name for f in FNS}
        out = run(['objdump', '-d', '--no-show-raw-insn', so]).stdout
        imm, calls, cur = {}, {}, None
        for l in out.split('\n'):
            m = re.match(r'^[0-9a-f]+ <([^>]+)>:', l)
            if m: cur = m.group(1).split('@')[0]; imm[cur] = set(); calls[cur] = set(); continue
            if cur is None: continue
            for x in re.findall(r'\$0x([0-9a-f]+)', l): imm[cur].add(int(x, 16))
            m = re.search(r'call\s+[0-9a-f]+ <([^>+]+)', l)
            if m: calls[cur].add(m.group(1).split('@')[0])
        ro = run(['objdump', '-s', '-j', '.rodata', so]).stdout
        by = b''
        for l in ro.split('\n'):
            m = re.match(r'^ [0-9a-f]+ ((?:[0-9a-f]{2,8} ){1,4})', l)
            if m: by += bytes.fromhex(m.group(1).replace(' ', ''))
        words = set()
        for i in range(0, len(by) - 3, 4): words.add(int.from_bytes(by[i:i + 4], 'little'))
        for i in range(0, len(by) - 7, 8): words.add(int.from_bytes(by[i:i + 8], 'little'))
        words = sorted(w for w in words if w > 16)[:3000]

        def trans(f):
            seen, st, acc = {f}, [f], set()
            while st:
                x = st.pop(); acc |= imm.get(x, set())
                for y in calls.get(x, ()):
                    if y not in seen and len(seen) < 200: seen.add(y); st.append(y)
            return acc
        allv = set()
        with open(path + '.tmp', 'w') as f:
            for n in sorted(names):
                v = sorted(x for x in trans(n) if x > 2)
                if len(v) > 400: v = v[:200] + v[-200:]
                allv |= set(v)
                if v: f.write(n + ' ' + ' '.join('%x' % x for x in v) + '\n')
            pool = sorted(allv | set(words))
            f.write('* ' + ' '.join('%x' % x for x in pool[:6000]) + '\n')
        os.rename(path + '.tmp', path)
    return path

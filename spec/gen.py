"""Emit the harness shards (call thunks, reference models, laws) from the catalogue."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import *
import laws as lawmod

ROLE = {'v': 'R_VEC', 's': 'R_SCALAR', 'i': 'R_IMM', 'r': 'R_RD', 'w': 'R_WR'}


def argc(a):
    return "{%s,'%s',%d,%d,%d,%d}" % (ROLE[a.role], a.t[0], bits(a.t), a.n, a.k, a.nbytes)


NOARG = "{R_VEC,'u',8,0,0,0}"


def sigtype(f):
    return (f.ret.cxx() if f.ret else 'void') + '(*)(' + ','.join(a.cxx() for a in f.args) + ')'


def emit_fn(f):
    s = ''
    n = f.name
    s += 'static void call_%s(void*fp,const uint8_t*const*in,uint8_t*out,void*mem){' % n
    call = []
    for i, a in enumerate(f.args):
        if a.role in 'rw': call.append('(%s)mem' % a.cxx())
        else:
            s += '%s a%d;memcpy(&a%d,in[%d],sizeof a%d);' % (a.cxx(), i, i, i, i); call.append('a%d' % i)
    c = '((%s)fp)(%s)' % (sigtype(f), ','.join(call))
    if f.ret: s += 'typedef %s R;new((void*)out)R(%s);' % (f.ret.cxx(), c)      # the callee writes large results straight to out
    else: s += '%s;' % c
    s += '(void)mem;(void)out;}\n'
    s += 'static void model_%s(const uint8_t*const*in,uint8_t*o){' % n
    for i, a in enumerate(f.args):
        if a.role == 'i': s += 'int n;memcpy(&n,in[%d],4);' % i
        else: s += 'const uint8_t*%s=in[%d];(void)%s;' % ('abcd'[i], i, 'abcd'[i])
    s += f.code + '}\n'
    return s


def reg_fn(i, f):
    imm = next((k for k, a in enumerate(f.args) if a.role == 'i'), -1)
    mem = next((k for k, a in enumerate(f.args) if a.role in 'rw'), -1)
    lo, hi = f.imm or (0, 0)
    fp = {'f32': 32, 'f64': 64, None: 0}[f.fp]
    args = [argc(a) for a in f.args] + [NOARG] * (4 - len(f.args))
    return 'FNS[%d]=Fn{"%s","%s",%d,{%s},%s,%d,%d,%d,%d,%d,%d,%s,call_%s,model_%s};\n' % (
        i, f.name, f.prop, len(f.args), ','.join(args), argc(f.out), imm, lo, hi, mem, fp, 1 if f.lanewise else 0, 'alignof(%s)' % f.ret.cxx() if f.ret else '1', f.name, f.name)


def wrapper(i, f):
    ps = ','.join('%s a%d' % (a.cxx(), k) for k, a in enumerate(f.args))
    return 'static inline %s %s(%s){return ((%s)FPT[%d])(%s);}\n' % (
        f.ret.cxx() if f.ret else 'void', f.name, ps, sigtype(f), i, ','.join('a%d' % k for k in range(len(f.args))))


def uses(code):
    import re
    seen = []
    for w in re.findall(r'\bv\w+', code):
        if w in BY and w not in seen: seen.append(w)
    return seen


def emit_law(j, l):
    s = 'static void law_%d(const uint8_t*const*in,LawResult*res){' % j
    for i, a in enumerate(l.args):
        if a.role == 'i': s += 'int n;memcpy(&n,in[%d],4);' % i
        else: s += '%s %s;memcpy(&%s,in[%d],sizeof %s);' % (a.cxx(), 'abcd'[i], 'abcd'[i], i, 'abcd'[i])
    return s + l.code + '}\n'


def reg_law(j, l):
    imm = next((k for k, a in enumerate(l.args) if a.role == 'i'), -1)
    lo, hi = l.imm or (0, 0)
    args = [argc(a) for a in l.args] + [NOARG] * (6 - len(l.args))
    return 'LAWS[%d]=Law{"%s","%s",%d,{%s},%d,%d,%d,%d,"%s",law_%d};\n' % (
        j, l.name, l.prop, len(l.args), ','.join(args), imm, lo, hi, 1 if l.lanewise else 0, ' '.join(uses(l.code)), j)


def main(out, nsh=6, nlsh=6):
    os.makedirs(out, exist_ok=True)
    files = []

    def put(name, text):
        p = os.path.join(out, name); files.append(p)
        if os.path.exists(p) and open(p).read() == text: return
        open(p, 'w').write(text)
    idx = {f.name: i for i, f in enumerate(FNS)}
    for k in range(nsh):
        part = [(i, f) for i, f in enumerate(FNS) if i % nsh == k]
        put('fns_%d.cpp' % k, '#include "model.hpp"\n' + ''.join(emit_fn(f) for i, f in part) +
            'void reg_fns_%d(){\n%s}\n' % (k, ''.join(reg_fn(i, f) for i, f in part)))
    L = lawmod.LAWS
    for k in range(nlsh):
        part = [(j, l) for j, l in enumerate(L) if j % nlsh == k]
        need = []
        for j, l in part:
            for u in uses(l.code):
                if u not in need: need.append(u)
        put('laws_%d.cpp' % k, '#include "model.hpp"\n#include "lawlib.hpp"\n' + ''.join(wrapper(idx[u], BY[u]) for u in sorted(need)) +
            ''.join(emit_law(j, l) for j, l in part) + 'void reg_laws_%d(){\n%s}\n' % (k, ''.join(reg_law(j, l) for j, l in part)))
    t = '#include "rt.hpp"\nFn FNS[%d];const int NFN=%d;Law LAWS[%d];const int NLAW=%d;void**FPT;\n' % (len(FNS), len(FNS), len(L), len(L))
    t += ''.join('void reg_fns_%d();' % k for k in range(nsh)) + ''.join('__attribute__((weak)) void reg_laws_%d();' % k for k in range(nlsh))
    t += 'void register_all(){' + ''.join('reg_fns_%d();' % k for k in range(nsh)) + ''.join('if(reg_laws_%d)reg_laws_%d();' % (k, k) for k in range(nlsh)) + '}\n'
    put('index.cpp', t)
    return files


if __name__ == '__main__':
    assert not selfcheck()
    print('\n'.join(main(sys.argv[1])))

"""Catalogue of the intrinsics neon_sim implements: Arm (ACLE) signature, legal immediates,
the property that owns the function, and an independent reference model of its value, written
from the Arm definition of the instruction (never from neon_sim.cpp).

Model code is C++ over raw little-endian byte buffers:
  a,b,c   argument buffers in parameter order (vectors, scalars; memory *contents* for loads)
  o       result buffer (the addressed memory region for stores)
  n       the immediate, where the function has one
  L<T>(p,i) reads lane i exactly as a __int128 / float; S<T>(p,i,v) stores modulo 2^bits.
"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

INTS = ['s8', 's16', 's32', 's64', 'u8', 'u16', 'u32', 'u64']
N6 = ['s8', 's16', 's32', 'u8', 'u16', 'u32']
ALL10 = INTS + ['f32', 'f64']


def kind(t): return t[0]
def bits(t): return int(t[1:])
def size(t): return bits(t) // 8
def wide(t): return t[0] + str(bits(t) * 2)
def narrow(t): return t[0] + str(bits(t) // 2)
def uns(t): return 'u' + t[1:]
def ct(t): return {'s': 'int%d_t', 'u': 'uint%d_t', 'f': None}[t[0]] % bits(t) if t[0] != 'f' else {'f32': 'float', 'f64': 'double'}[t]
def acle_scalar(t): return ct(t) if t[0] != 'f' else 'float%d_t' % bits(t)
def acle_base(t): return {'s': 'int', 'u': 'uint', 'f': 'float'}[t[0]] + str(bits(t))
def dl(t): return 64 // bits(t)
def ql(t): return 128 // bits(t)


class Ty:
    """role: v=vector register(s), s=scalar, i=immediate, r=read pointer, w=write pointer"""
    def __init__(self, role, t, n=1, k=1): self.role, self.t, self.n, self.k = role, t, n, k
    @property
    def elems(self): return self.n * self.k
    @property
    def nbytes(self): return 4 if self.role == 'i' else self.elems * size(self.t)
    def acle(self):
        if self.role == 'v': return '%sx%d%s_t' % (acle_base(self.t), self.n, '' if self.k == 1 else 'x%d' % self.k)
        if self.role == 's': return acle_scalar(self.t)
        if self.role == 'i': return 'int'
        return ('const ' if self.role == 'r' else '') + acle_scalar(self.t) + ' *'
    def cxx(self):
        if self.role == 'v':
            v = 'Vec<%s,%d>' % (ct(self.t), self.n)
            return v if self.k == 1 else 'Arr<%s,%d>' % (v, self.k)
        if self.role == 's': return ct(self.t)
        if self.role == 'i': return 'int'
        return ('const ' if self.role == 'r' else '') + ct(self.t) + '*'


def D(t, k=1): return Ty('v', t, dl(t), k)
def Q(t, k=1): return Ty('v', t, ql(t), k)
def V(t, q, k=1): return Q(t, k) if q else D(t, k)
def SC(t): return Ty('s', t)
IMM = Ty('i', 's32')


class Fn:
    def __init__(s, name, prop, ret, args, code, imm=None, fp=None, fam=None, lanewise=None):
        s.name, s.prop, s.ret, s.args, s.code, s.imm = name, prop, ret, args, code, imm
        s.fp = fp            # 'f32'/'f64': results compare with any NaN equal to any NaN
        s.fam = fam or name.split('_')[0]
        s.lanewise = lanewise  # lanes of the result depend only on same-index lanes of the inputs
    @property
    def isload(s): return any(a.role == 'r' for a in s.args)
    @property
    def isstore(s): return any(a.role == 'w' for a in s.args)
    @property
    def out(s):
        for a in s.args:
            if a.role == 'w': return a
        return s.ret
    @property
    def mem(s):
        for a in s.args:
            if a.role in 'rw': return a
        return None


FNS = []
BY = {}


def add(name, prop, ret, args, code, **kw):
    f = Fn(name, prop, ret, args, code, **kw)
    assert name not in BY, name
    FNS.append(f); BY[name] = f
    return f


def loop(n, body): return 'for(int i=0;i<%d;i++){%s}' % (n, body)


# ------------------------------------------------------------------ loads and stores
for t in ALL10:
    add('vld1_' + t, 'P01', D(t), [Ty('r', t, dl(t))], 'memcpy(o,a,8);')
    if t != 'f64':
        add('vld1q_' + t, 'P01', Q(t), [Ty('r', t, ql(t))], 'memcpy(o,a,16);')
add('vld1q_dup_f32', 'P01', Q('f32'), [Ty('r', 'f32', 1)], loop(4, 'memcpy(o+4*i,a,4);'))
for t in ['s8', 'u8']:
    add('vld1_lane_' + t, 'P01', D(t), [Ty('r', t, 1), D(t), IMM], 'memcpy(o,b,8);o[n]=a[0];', imm=(0, 7))


def structld(k, q, t):
    lanes = ql(t) if q else dl(t)
    es, rb = size(t), 16 if q else 8
    add('vld%d%s_%s' % (k, 'q' if q else '', t), 'P01', V(t, q, k), [Ty('r', t, lanes * k)],
        'for(int r=0;r<%d;r++)%s' % (k, loop(lanes, 'memcpy(o+r*%d+i*%d,a+(%d*i+r)*%d,%d);' % (rb, es, k, es, es))))


def structst(k, q, t):
    lanes = ql(t) if q else dl(t)
    es, rb = size(t), 16 if q else 8
    add('vst%d%s_%s' % (k, 'q' if q else '', t), 'P02', None, [Ty('w', t, lanes * k), V(t, q, k)],
        'for(int r=0;r<%d;r++)%s' % (k, loop(lanes, 'memcpy(o+(%d*i+r)*%d,b+r*%d+i*%d,%d);' % (k, es, rb, es, es))))


for k in (2, 3, 4):
    for t in N6 + ['f32']: structld(k, False, t)
    for t in N6: structld(k, True, t)
    add('vld%d_lane_u8' % k, 'P01', D('u8', k), [Ty('r', 'u8', k), D('u8', k), IMM],
        'memcpy(o,b,%d);for(int r=0;r<%d;r++)o[8*r+n]=a[r];' % (8 * k, k), imm=(0, 7))
    for t in N6:
        structst(k, False, t); structst(k, True, t)
for t in INTS: add('vst1_' + t, 'P02', None, [Ty('w', t, dl(t)), D(t)], 'memcpy(o,b,8);')
for t in INTS + ['f32']: add('vst1q_' + t, 'P02', None, [Ty('w', t, ql(t)), Q(t)], 'memcpy(o,b,16);')
add('vst4q_lane_f32', 'P02', None, [Ty('w', 'f32', 4), Q('f32', 4), IMM],
    'for(int r=0;r<4;r++)memcpy(o+4*r,b+16*r+4*n,4);', imm=(0, 3))


# ------------------------------------------------------------------ lane-wise helpers
def lw2(name, prop, t, q, expr, **kw):
    n = ql(t) if q else dl(t)
    add(name, prop, V(t, q), [V(t, q), V(t, q)],
        loop(n, 'auto x=L<%s>(a,i),y=L<%s>(b,i);S<%s>(o,i,%s);' % (ct(t), ct(t), ct(t), expr)), lanewise=True, **kw)


def lw3(name, prop, t, q, expr, **kw):
    n = ql(t) if q else dl(t)
    c = ct(t)
    add(name, prop, V(t, q), [V(t, q)] * 3,
        loop(n, 'auto x=L<%s>(a,i),y=L<%s>(b,i),z=L<%s>(c,i);S<%s>(o,i,%s);' % (c, c, c, c, expr)), lanewise=True, **kw)


# ------------------------------------------------------------------ P04 same-width
for q in (0, 1):
    qs = 'q' if q else ''
    for t in INTS:
        lw2('vadd%s_%s' % (qs, t), 'P04', t, q, 'x+y')
        lw2('vsub%s_%s' % (qs, t), 'P04', t, q, 'x-y')
    for t in N6: lw2('vmul%s_%s' % (qs, t), 'P04', t, q, 'x*y')
    for t in ['s16', 's32', 'u16', 'u32']:
        c = ct(t)
        add('vmul%s_n_%s' % (qs, t), 'P04', V(t, q), [V(t, q), SC(t)],
            loop(ql(t) if q else dl(t), 'S<%s>(o,i,L<%s>(a,i)*L<%s>(b,0));' % (c, c, c)), lanewise=True)
for t in N6: lw3('vmlaq_' + t, 'P04', t, 1, 'x+y*z')

# ------------------------------------------------------------------ P05 widening
for t in N6:
    w = wide(t); c, cw = ct(t), ct(w); n = dl(t)
    if t == 'u8':
        add('vaddl_u8', 'P05', Q(w), [D(t), D(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)+L<%s>(b,i));' % (cw, c, c)), lanewise=True)
        add('vpaddl_u8', 'P05', D('u16'), [D('u8')], loop(4, 'S<uint16_t>(o,i,L<uint8_t>(a,2*i)+L<uint8_t>(a,2*i+1));'))
        add('vpaddlq_u8', 'P05', Q('u16'), [Q('u8')], loop(8, 'S<uint16_t>(o,i,L<uint8_t>(a,2*i)+L<uint8_t>(a,2*i+1));'))
        add('vpaddlq_u16', 'P05', Q('u32'), [Q('u16')], loop(4, 'S<uint32_t>(o,i,L<uint16_t>(a,2*i)+L<uint16_t>(a,2*i+1));'))
    add('vaddl_high_' + t, 'P05', Q(w), [Q(t), Q(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i+%d)+L<%s>(b,i+%d));' % (cw, c, n, c, n)))
    add('vaddw_' + t, 'P05', Q(w), [Q(w), D(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)+L<%s>(b,i));' % (cw, cw, c)), lanewise=True)
    add('vaddw_high_' + t, 'P05', Q(w), [Q(w), Q(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)+L<%s>(b,i+%d));' % (cw, cw, c, n)))
    add('vsubl_' + t, 'P05', Q(w), [D(t), D(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)-L<%s>(b,i));' % (cw, c, c)), lanewise=True)
    add('vsubw_' + t, 'P05', Q(w), [Q(w), D(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)-L<%s>(b,i));' % (cw, cw, c)), lanewise=True)
    add('vmull_' + t, 'P05', Q(w), [D(t), D(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)*L<%s>(b,i));' % (cw, c, c)), lanewise=True)
    if t not in ('s8', 'u8'):
        add('vmull_n_' + t, 'P05', Q(w), [D(t), SC(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)*L<%s>(b,0));' % (cw, c, c)), lanewise=True)
    add('vmlal_' + t, 'P05', Q(w), [Q(w), D(t), D(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)+L<%s>(b,i)*L<%s>(c,i));' % (cw, cw, c, c)), lanewise=True)
    add('vmlsl_' + t, 'P05', Q(w), [Q(w), D(t), D(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i)-L<%s>(b,i)*L<%s>(c,i));' % (cw, cw, c, c)), lanewise=True)
    add('vmovl_' + t, 'P05', Q(w), [D(t)], loop(n, 'S<%s>(o,i,L<%s>(a,i));' % (cw, c)), lanewise=True)

# ------------------------------------------------------------------ P06 saturating
lw2('vqadd_u8', 'P06', 'u8', 0, 'sat<uint8_t>(x+y)')
lw2('vqaddq_u8', 'P06', 'u8', 1, 'sat<uint8_t>(x+y)')
for t in INTS:
    lw2('vqsub_' + t, 'P06', t, 0, 'sat<%s>(x-y)' % ct(t))
    lw2('vqsubq_' + t, 'P06', t, 1, 'sat<%s>(x-y)' % ct(t))
add('vqdmull_s16', 'P06', Q('s32'), [D('s16'), D('s16')], loop(4, 'S<int32_t>(o,i,sat<int32_t>(2*L<int16_t>(a,i)*L<int16_t>(b,i)));'), lanewise=True)
add('vqmovn_u16', 'P06', D('u8'), [Q('u16')], loop(8, 'S<uint8_t>(o,i,sat<uint8_t>(L<uint16_t>(a,i)));'), lanewise=True)
add('vqmovun_s16', 'P06', D('u8'), [Q('s16')], loop(8, 'S<uint8_t>(o,i,sat<uint8_t>(L<int16_t>(a,i)));'), lanewise=True)

# ------------------------------------------------------------------ P07 halving / narrowing
for t in N6:
    lw2('vhsub_' + t, 'P07', t, 0, '(x-y)>>1')
    lw2('vhsubq_' + t, 'P07', t, 1, '(x-y)>>1')
for t in ['s16', 's32', 's64', 'u16', 'u32', 'u64']:
    nt = narrow(t); h = bits(nt); c, cn = ct(t), ct(nt); n = ql(t)
    add('vaddhn_high_' + t, 'P07', Q(nt), [D(nt), Q(t), Q(t)],
        'memcpy(o,a,8);' + loop(n, 'S<%s>(o,i+%d,(L<%s>(b,i)+L<%s>(c,i))>>%d);' % (cn, n, c, c, h)))
    add('vsubhn_' + t, 'P07', D(nt), [Q(t), Q(t)], loop(n, 'S<%s>(o,i,(L<%s>(a,i)-L<%s>(b,i))>>%d);' % (cn, c, c, h)), lanewise=True)
    add('vrsubhn_' + t, 'P07', D(nt), [Q(t), Q(t)],
        loop(n, 'S<%s>(o,i,(L<%s>(a,i)-L<%s>(b,i)+((i128)1<<%d))>>%d);' % (cn, c, c, h - 1, h)), lanewise=True)
for t in ['s32', 'u16', 'u32']:
    add('vmovn_' + t, 'P07', D(narrow(t)), [Q(t)], loop(ql(t), 'S<%s>(o,i,L<%s>(a,i));' % (ct(narrow(t)), ct(t))), lanewise=True)

# ------------------------------------------------------------------ P08 immediate shifts
def nshift(name, t, rt, expr, hi):
    add(name, 'P08', D(rt), [Q(t), IMM], loop(ql(t), 'auto x=L<%s>(a,i);S<%s>(o,i,%s);' % (ct(t), ct(rt), expr)), imm=(1, hi), lanewise=True)


for t in ['s16', 's32', 's64', 'u16', 'u32', 'u64']:
    nt = narrow(t); h = bits(nt)
    nshift('vshrn_n_' + t, t, nt, 'x>>n', h)
    nshift('vqshrn_n_' + t, t, nt, 'sat<%s>(x>>n)' % ct(nt), h)
    if t[0] == 's':
        nshift('vqshrun_n_' + t, t, uns(nt), 'sat<%s>(x>>n)' % ct(uns(nt)), h)
nshift('vqrshrun_n_s16', 's16', 'u8', 'sat<uint8_t>((x+((i128)1<<(n-1)))>>n)', 8)
nshift('vrshrn_n_u16', 'u16', 'u8', '(x+((i128)1<<(n-1)))>>n', 8)
add('vshr_n_u16', 'P08', D('u16'), [D('u16'), IMM], loop(4, 'S<uint16_t>(o,i,L<uint16_t>(a,i)>>n);'), imm=(1, 16), lanewise=True)
add('vsraq_n_s32', 'P08', Q('s32'), [Q('s32'), Q('s32'), IMM], loop(4, 'S<int32_t>(o,i,L<int32_t>(a,i)+(L<int32_t>(b,i)>>n));'), imm=(1, 32), lanewise=True)
add('vshlq_n_s32', 'P08', Q('s32'), [Q('s32'), IMM], loop(4, 'S<int32_t>(o,i,L<int32_t>(a,i)*((i128)1<<n));'), imm=(0, 31), lanewise=True)
add('vshll_n_u8', 'P08', Q('u16'), [D('u8'), IMM], loop(8, 'S<uint16_t>(o,i,L<uint8_t>(a,i)<<n);'), imm=(0, 7), lanewise=True)

# ------------------------------------------------------------------ P09 bitwise
def bw2(name, t, q, op):
    nb = 16 if q else 8
    add(name, 'P09', V(t, q), [V(t, q), V(t, q)], loop(nb, 'o[i]=(uint8_t)(a[i]%sb[i]);' % op), lanewise=True)


for t in INTS:
    for q in (0, 1):
        qs = 'q' if q else ''
        bw2('vand%s_%s' % (qs, t), t, q, '&')
        bw2('vorr%s_%s' % (qs, t), t, q, '|')
        bw2('veor%s_%s' % (qs, t), t, q, '^')
for t in N6:
    for q in (0, 1):
        add('vmvn%s_%s' % ('q' if q else '', t), 'P09', V(t, q), [V(t, q)], loop(16 if q else 8, 'o[i]=(uint8_t)(0xff-a[i]);'), lanewise=True)
for t in ['u8', 'f32']:
    add('vbslq_' + t, 'P09', Q(t), [Q('u%d' % bits(t)), Q(t), Q(t)],
        loop(128, 'const uint8_t*s=(a[i>>3]>>(i&7)&1)?b:c;if((i&7)==0)o[i>>3]=0;o[i>>3]|=s[i>>3]&(1<<(i&7));'), lanewise=True)

# ------------------------------------------------------------------ P10 compare, min, max
for t in N6:
    lw2('vmaxq_' + t, 'P10', t, 1, 'x>y?x:y')
    lw2('vminq_' + t, 'P10', t, 1, 'x<y?x:y')
add('vmaxq_f32', 'P10', Q('f32'), [Q('f32'), Q('f32')], loop(4, 'S<float>(o,i,fmax_arm(L<float>(a,i),L<float>(b,i)));'), fp='f32', lanewise=True)
add('vminq_f32', 'P10', Q('f32'), [Q('f32'), Q('f32')], loop(4, 'S<float>(o,i,fmin_arm(L<float>(a,i),L<float>(b,i)));'), fp='f32', lanewise=True)
for m in ('max', 'min'):
    add('vp%s_f32' % m, 'P10', D('f32'), [D('f32'), D('f32')],
        'S<float>(o,0,f%s_arm(L<float>(a,0),L<float>(a,1)));S<float>(o,1,f%s_arm(L<float>(b,0),L<float>(b,1)));' % (m, m), fp='f32')
add('vcgtq_u8', 'P10', Q('u8'), [Q('u8'), Q('u8')], loop(16, 'o[i]=a[i]>b[i]?0xff:0;'), lanewise=True)
add('vcltq_f32', 'P10', Q('u32'), [Q('f32'), Q('f32')], loop(4, 'S<uint32_t>(o,i,flt_arm(L<float>(a,i),L<float>(b,i))?0xffffffffu:0u);'), lanewise=True)

# ------------------------------------------------------------------ P11 float arithmetic
def fl2(name, t, q, op):
    n = ql(t) if q else dl(t); c = ct(t)
    add(name, 'P11', V(t, q), [V(t, q), V(t, q)], loop(n, 'S<%s>(o,i,f_%s(L<%s>(a,i),L<%s>(b,i)));' % (c, op, c, c)), fp=t, lanewise=True)


fl2('vaddq_f32', 'f32', 1, 'add'); fl2('vsub_f32', 'f32', 0, 'sub'); fl2('vsubq_f32', 'f32', 1, 'sub')
fl2('vsub_f64', 'f64', 0, 'sub')
fl2('vmulq_f32', 'f32', 1, 'mul')
for q in (0, 1):
    for t in ('f32', 'f64'):
        qs = 'q' if q else ''
        fl2('vdiv%s_%s' % (qs, t), t, q, 'div')
        c = ct(t)
        add('vmul%s_n_%s' % (qs, t), 'P11', V(t, q), [V(t, q), SC(t)],
            loop(ql(t) if q else dl(t), 'S<%s>(o,i,f_mul(L<%s>(a,i),L<%s>(b,0)));' % (c, c, c)), fp=t, lanewise=True)
add('vmlaq_f32', 'P11', Q('f32'), [Q('f32')] * 3, loop(4, 'S<float>(o,i,f_add(L<float>(a,i),f_mul(L<float>(b,i),L<float>(c,i))));'), fp='f32', lanewise=True)
add('vmlaq_n_f32', 'P11', Q('f32'), [Q('f32'), Q('f32'), SC('f32')], loop(4, 'S<float>(o,i,f_add(L<float>(a,i),f_mul(L<float>(b,i),L<float>(c,0))));'), fp='f32', lanewise=True)

# ------------------------------------------------------------------ P12 conversions
add('vcvtnq_s32_f32', 'P12', Q('s32'), [Q('f32')], loop(4, 'S<int32_t>(o,i,cvt_ne(L<float>(a,i)));'), lanewise=True)
add('vcvtq_s32_f32', 'P12', Q('s32'), [Q('f32')], loop(4, 'S<int32_t>(o,i,cvt_z<int32_t>(L<float>(a,i)));'), lanewise=True)
add('vcvtq_u32_f32', 'P12', Q('u32'), [Q('f32')], loop(4, 'S<uint32_t>(o,i,cvt_z<uint32_t>(L<float>(a,i)));'), lanewise=True)
add('vcvtq_f32_s32', 'P12', Q('f32'), [Q('s32')], loop(4, 'S<float>(o,i,int_to_f32(L<int32_t>(a,i)));'), lanewise=True)

# ------------------------------------------------------------------ P13 reciprocal
add('vrecpeq_f32', 'P13', Q('f32'), [Q('f32')], loop(4, 'uint32_t v;memcpy(&v,a+4*i,4);v=recip_estimate32(v);memcpy(o+4*i,&v,4);'), fp='f32', lanewise=True)
add('vrecpsq_f32', 'P13', Q('f32'), [Q('f32'), Q('f32')], loop(4, 'S<float>(o,i,recip_step32(L<float>(a,i),L<float>(b,i)));'), fp='f32', lanewise=True)

# ------------------------------------------------------------------ P14 permutations
# model: list of (source arg, source lane) per result lane
def perm(name, t, q, args, rets, idx, imm=None):
    es = size(t)
    code = ''
    for j, (s, l) in enumerate(idx): code += 'memcpy(o+%d,%s+%s,%d);' % (j * es, 'abc'[s], (str(l * es) if isinstance(l, int) else '(%s)*%d' % (l, es)), es)
    add(name, 'P14', rets, args, code, imm=imm)


def pair(name, t, q, f0, f1):
    n = ql(t) if q else dl(t)
    perm('%s%s_%s' % (name, 'q' if q else '', t), t, q, [V(t, q), V(t, q)], V(t, q, 2),
         [f0(i, n) for i in range(n)] + [f1(i, n) for i in range(n)])


for t, q in [(t, 0) for t in N6] + [(t, 1) for t in ('s16', 'u16', 'u32')]:
    pair('vtrn', t, q, lambda i, n: (i & 1, i & ~1), lambda i, n: (i & 1, i | 1))
for t in ('s8', 'u8'):
    pair('vuzp', t, 0, lambda i, n: (0 if 2 * i < n else 1, 2 * i % n), lambda i, n: (0 if 2 * i < n else 1, (2 * i + 1) % n))
for t in ('s8', 's16', 'u8'):
    pair('vzip', t, 0, lambda i, n: (i & 1, i // 2), lambda i, n: (i & 1, n // 2 + i // 2))


def rev(g, t, q):
    n = ql(t) if q else dl(t); e = g // bits(t)
    perm('vrev%d%s_%s' % (g, 'q' if q else '', t), t, q, [V(t, q)], V(t, q), [(0, i // e * e + (e - 1 - i % e)) for i in range(n)])


for q in (0, 1):
    for t in ('s8', 'u8'): rev(16, t, q)
    for t in ('s8', 's16', 'u8', 'u16'): rev(32, t, q)
    for t in N6 + ['f32']: rev(64, t, q)
for t, q in [('s16', 0), ('u8', 0), ('u16', 0), ('u16', 1)]:
    n = ql(t) if q else dl(t); es = size(t)
    add('vext%s_%s' % ('q' if q else '', t), 'P14', V(t, q), [V(t, q), V(t, q), IMM],
        loop(n, 'int k=i+n;memcpy(o+i*%d,(k<%d?a+k*%d:b+(k-%d)*%d),%d);' % (es, n, es, n, es, es)), imm=(0, n - 1))
for t in N6: add('vcombine_' + t, 'P14', Q(t), [D(t), D(t)], 'memcpy(o,a,8);memcpy(o+8,b,8);')
for t in N6 + ['f32']:
    add('vget_low_' + t, 'P14', D(t), [Q(t)], 'memcpy(o,a,8);')
    add('vget_high_' + t, 'P14', D(t), [Q(t)], 'memcpy(o,a+8,8);')

# ------------------------------------------------------------------ P15 tables
for k in (1, 2, 4):
    add('vtbl%d_u8' % k, 'P15', D('u8'), [D('u8', k), D('u8')], loop(8, 'o[i]=b[i]<%d?a[b[i]]:0;' % (8 * k)))
add('vqtbl1_u8', 'P15', D('u8'), [Q('u8'), D('u8')], loop(8, 'o[i]=b[i]<16?a[b[i]]:0;'))

# ------------------------------------------------------------------ P16 dup / get lane / reinterpret
for t in INTS: add('vdup_n_' + t, 'P16', D(t), [SC(t)], loop(dl(t), 'memcpy(o+i*%d,a,%d);' % (size(t), size(t))))
for t in N6 + ['f32']: add('vdupq_n_' + t, 'P16', Q(t), [SC(t)], loop(ql(t), 'memcpy(o+i*%d,a,%d);' % (size(t), size(t))))
add('vmovq_n_f32', 'P16', Q('f32'), [SC('f32')], loop(4, 'memcpy(o+i*4,a,4);'))
add('vget_lane_f32', 'P16', SC('f32'), [D('f32'), IMM], 'memcpy(o,a+4*n,4);', imm=(0, 1))
for t in ALL10: add('vgetq_lane_' + t, 'P16', SC(t), [Q(t), IMM], 'memcpy(o,a+%d*n,%d);' % (size(t), size(t)), imm=(0, ql(t) - 1))
for d, s in [('s16', 's32'), ('s32', 's16'), ('s8', 'u8'), ('u16', 'u8'), ('u32', 'u8'), ('u32', 'u16'), ('u8', 's8'), ('u8', 'u32')]:
    add('vreinterpret_%s_%s' % (d, s), 'P16', D(d), [D(s)], 'memcpy(o,a,8);')
for d, s in [('s16', 'u16'), ('u16', 's16')] + [('u32', s) for s in 's8 s16 s32 f32 u8 u16 u64 s64 f64'.split()] + [('u8', s) for s in 's8 s16 s32 f32 u16 u32 u64 s64 f64'.split()]:
    add('vreinterpretq_%s_%s' % (d, s), 'P16', Q(d), [Q(s)], 'memcpy(o,a,16);')

# ------------------------------------------------------------------ cross-check against the Arm prototype table
ACLE = json.load(open(os.path.join(HERE, 'acle_prototypes.json')))


def norm(s): return s.replace('float32_t', 'float32_t').replace(' ', '')


def selfcheck():
    bad = []
    for f in FNS:
        if f.name not in ACLE: bad.append((f.name, 'not in table')); continue
        r, ps = ACLE[f.name]
        mine = [(f.ret.acle() if f.ret else 'void')] + [a.acle() for a in f.args]
        theirs = [r] + ps
        ok = len(mine) == len(theirs)
        if ok:
            for m, t in zip(mine, theirs):
                t2 = t.replace('const int', 'int') if t.startswith('const int') and '*' not in t and t.strip() == 'const int' else t
                if '*' in m:
                    base = m.replace('const ', '').replace(' *', '')
                    if base not in t or '*' not in t or ('const' in m) != ('const' in t): ok = False
                elif norm(m) != norm(t2): ok = False
        if not ok: bad.append((f.name, mine, theirs))
    return bad


if __name__ == '__main__':
    print(len(FNS), 'functions', selfcheck())

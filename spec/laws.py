"""Relational laws between intrinsics (P23 variants, P24 inverses, P25 identities, P13 refinement).
Each law is a C++ body over calls to the intrinsics themselves (written by name) and plain harness
helpers: lo/hi/cat split and join registers, as<V>(x) re-views bits, splat<V>(s) fills lanes,
EQ(x,y)/EQF(x,y) report a difference (EQF: any NaN equals any NaN)."""
from catalog import *

LAWS = []


class Law:
    def __init__(s, prop, name, args, code, imm=None, lanewise=False):
        s.prop, s.name, s.args, s.code, s.imm, s.lanewise = prop, name, args, code, imm, lanewise


def law(prop, name, args, code, imm=None, lanewise=False):
    LAWS.append(Law(prop, name, args, code, imm, lanewise))


def has(*ns): return all(n in BY for n in ns)
def suf(f): return f.name.split('_', 1)[1]
def MEMV(t, n): return Ty('v', t, n)


ab, abc = ['a', 'b'], ['a', 'b', 'c']

# ================================================================= P23
# Q form = D form on halves
for base in 'vadd vsub vmul vand vorr veor vmvn vhsub vqsub vqadd vdiv vrev16 vrev32 vrev64 vmul_n vdup_n vtrn vpaddl'.split():
    for t in ALL10:
        if base.endswith('_n'):
            d, q = '%s_%s' % (base, t), '%sq_n_%s' % (base[:-2], t)
        else:
            d, q = '%s_%s' % (base, t), '%sq_%s' % (base, t)
        if not has(d, q): continue
        fd, fq = BY[d], BY[q]
        E = 'EQF' if fq.fp else 'EQ'
        args = fq.args; names = [chr(97 + i) for i in range(len(args))]
        lo = ','.join(n if a.role == 's' else 'lo(%s)' % n for n, a in zip(names, args))
        hi = ','.join(n if a.role == 's' else 'hi(%s)' % n for n, a in zip(names, args))
        if fq.ret.k == 1:
            code = 'auto r=%s(%s); %s(lo(r),%s(%s)); %s(hi(r),%s(%s));' % (q, ','.join(names), E, d, lo, E, d, hi)
        else:
            code = 'auto r=%s(%s);auto p=%s(%s);auto s=%s(%s);' % (q, ','.join(names), d, lo, d, hi)
            for k in range(fq.ret.k): code += 'EQ(lo(r.val[%d]),p.val[%d]);EQ(hi(r.val[%d]),s.val[%d]);' % (k, k, k, k)
        law('P23', '%s=%s' % (q, d), args, code, lanewise=fq.lanewise)
for t in ALL10:
    if has('vld1_' + t, 'vld1q_' + t):
        law('P23', 'vld1q=vld1_' + t, [MEMV(t, ql(t))], 'auto r=vld1q_%s(a.val);EQ(lo(r),vld1_%s(a.val));EQ(hi(r),vld1_%s(a.val+%d));' % (t, t, t, dl(t)))
    if has('vst1_' + t, 'vst1q_' + t):
        law('P23', 'vst1q=vst1_' + t, [Q(t)], 'Vec<%s,%d> m,w;fillff(m);fillff(w);vst1q_%s(m.val,a);vst1_%s(w.val,lo(a));vst1_%s(w.val+%d,hi(a));EQ(m,w);' % (ct(t), ql(t), t, t, t, dl(t)))
    for k in (2, 3, 4):
        d, q = 'vld%d_%s' % (k, t), 'vld%dq_%s' % (k, t)
        if has(d, q):
            code = 'auto r=%s(a.val);auto p=%s(a.val);auto s=%s(a.val+%d);' % (q, d, d, k * dl(t))
            for i in range(k): code += 'EQ(lo(r.val[%d]),p.val[%d]);EQ(hi(r.val[%d]),s.val[%d]);' % (i, i, i, i)
            law('P23', '%s=%s' % (q, d), [MEMV(t, k * ql(t))], code)
        d, q = 'vst%d_%s' % (k, t), 'vst%dq_%s' % (k, t)
        if has(d, q):
            code = 'Vec<%s,%d> m,w;fillff(m);fillff(w);%s(m.val,a);%s(w.val,lok(a));%s(w.val+%d,hik(a));EQ(m,w);' % (ct(t), k * ql(t), q, d, d, k * dl(t))
            law('P23', '%s=%s' % (q, d), [Q(t, k)], code)
for k in (2, 3, 4):
    code = 'auto r=vld%d_lane_u8(a.val,b,n);' % k
    for i in range(k): code += 'EQ(r.val[%d],vld1_lane_u8(a.val+%d,b.val[%d],n));' % (i, i, i)
    law('P23', 'vld%d_lane=vld1_lane' % k, [MEMV('u8', k), D('u8', k), IMM], code, imm=(0, 7))
law('P23', 'vld1_lane_s8=u8', [MEMV('u8', 1), D('u8'), IMM], 'EQ(as<B8>(vld1_lane_u8(a.val,b,n)),as<B8>(vld1_lane_s8((int8_t*)a.val,as<%s>(b),n)));' % D('s8').cxx(), imm=(0, 7))
law('P23', 'vgetq_lane=vget_lane_f32', [Q('f32'), IMM], 'EQ(vgetq_lane_f32(a,n),n<2?vget_lane_f32(lo(a),n):vget_lane_f32(hi(a),n-2));', imm=(0, 3))
law('P23', 'vmovq_n=vdupq_n_f32', [SC('f32')], 'EQ(vmovq_n_f32(a),vdupq_n_f32(a));')
law('P23', 'vld1q_dup=vdupq_n_f32', [SC('f32')], 'EQ(vld1q_dup_f32(&a),vdupq_n_f32(a));')
# high forms
for t in N6:
    w = wide(t)
    if has('vaddl_' + t): law('P23', 'vaddl_high=vaddl_' + t, [Q(t), Q(t)], 'EQ(vaddl_high_%s(a,b),vaddl_%s(hi(a),hi(b)));' % (t, t), lanewise=True)
    law('P23', 'vaddl_high=vaddw_' + t, [Q(t), Q(t)], 'EQ(vaddl_high_%s(a,b),vaddw_%s(vmovl_%s(hi(a)),hi(b)));' % (t, t, t), lanewise=True)
    law('P23', 'vaddw_high=vaddw_' + t, [Q(w), Q(t)], 'EQ(vaddw_high_%s(a,b),vaddw_%s(a,hi(b)));' % (t, t), lanewise=True)
    # wide and long forms
    law('P23', 'vaddw=vaddq.vmovl_' + t, [Q(w), D(t)], 'EQ(vaddw_%s(a,b),vaddq_%s(a,vmovl_%s(b)));' % (t, w, t), lanewise=True)
    law('P23', 'vsubw=vsubq.vmovl_' + t, [Q(w), D(t)], 'EQ(vsubw_%s(a,b),vsubq_%s(a,vmovl_%s(b)));' % (t, w, t), lanewise=True)
    law('P23', 'vsubl=vsubw.vmovl_' + t, [D(t), D(t)], 'EQ(vsubl_%s(a,b),vsubw_%s(vmovl_%s(a),b));' % (t, t, t), lanewise=True)
    law('P23', 'vsubl=vsubq.vmovl_' + t, [D(t), D(t)], 'EQ(vsubl_%s(a,b),vsubq_%s(vmovl_%s(a),vmovl_%s(b)));' % (t, w, t, t), lanewise=True)
    if has('vmulq_' + w):
        law('P23', 'vmull=vmulq.vmovl_' + t, [D(t), D(t)], 'EQ(vmull_%s(a,b),vmulq_%s(vmovl_%s(a),vmovl_%s(b)));' % (t, w, t, t), lanewise=True)
        law('P23', 'vmlal=vmlaq.vmovl_' + t, [Q(w), D(t), D(t)], 'EQ(vmlal_%s(a,b,c),vmlaq_%s(a,vmovl_%s(b),vmovl_%s(c)));' % (t, w, t, t), lanewise=True)
    if has('vmull_n_' + t):
        law('P23', 'vmull_n=vmull_' + t, [D(t), SC(t)], 'EQ(vmull_n_%s(a,b),vmull_%s(a,vdup_n_%s(b)));' % (t, t, t), lanewise=True)
        law('P23', 'vmull_n=vmull.splat_' + t, [D(t), SC(t)], 'EQ(vmull_n_%s(a,b),vmull_%s(a,splat<%s>(b)));' % (t, t, D(t).cxx()), lanewise=True)
law('P23', 'vaddl=vaddw_u8', [D('u8'), D('u8')], 'EQ(vaddl_u8(a,b),vaddw_u8(vmovl_u8(a),b));', lanewise=True)
# scalar forms
for t in ['s16', 's32', 'u16', 'u32', 'f32']:
    for q in (0, 1):
        n, v = 'vmul%s_n_%s' % ('q' if q else '', t), 'vmul%s_%s' % ('q' if q else '', t)
        if has(n, v):
            law('P23', '%s=%s' % (n, v), [V(t, q), SC(t)], '%s(%s(a,b),%s(a,splat<%s>(b)));' % ('EQF' if t == 'f32' else 'EQ', n, v, V(t, q).cxx()), lanewise=True)
law('P23', 'vmul_n_f32=vmulq_f32', [D('f32'), SC('f32')], 'EQF(vmul_n_f32(a,b),lo(vmulq_f32(cat(a,a),splat<%s>(b))));' % Q('f32').cxx(), lanewise=True)
law('P23', 'vmlaq_n=vmlaq_f32', [Q('f32'), Q('f32'), SC('f32')], 'EQF(vmlaq_n_f32(a,b,c),vmlaq_f32(a,b,splat<%s>(c)));' % Q('f32').cxx(), lanewise=True)
# rounding / table variants
for t in ['s16', 's32', 's64', 'u16', 'u32', 'u64']:
    nt = narrow(t); h = bits(nt); v = Q(t).cxx()
    law('P23', 'vrsubhn=vsubhn+round_' + t, [Q(t), Q(t)], 'EQ(vrsubhn_%s(a,b),vsubhn_%s(vaddq_%s(a,splat<%s>((%s)1<<%d)),b));' % (t, t, t, v, ct(t), h - 1), lanewise=True)
    law('P23', 'vaddhn_high=vsubhn.neg_' + t, [D(nt), Q(t), Q(t)], 'auto r=vaddhn_high_%s(a,b,c);EQ(lo(r),a);EQ(hi(r),vsubhn_%s(b,vsubq_%s(splat<%s>(0),c)));' % (t, t, t, v), lanewise=True)
law('P23', 'vqtbl1=vtbl2', [Q('u8'), D('u8')], 'Arr<Vec<uint8_t,8>,2> t;t.val[0]=lo(a);t.val[1]=hi(a);EQ(vqtbl1_u8(a,b),vtbl2_u8(t,b));')
law('P23', 'vtbl1=vtbl2', [D('u8'), D('u8')], 'Arr<Vec<uint8_t,8>,2> t;t.val[0]=a;t.val[1]=splat<Vec<uint8_t,8>>(0);EQ(vtbl1_u8(a,b),vtbl2_u8(t,b));')
law('P23', 'vtbl2=vtbl4', [D('u8', 2), D('u8')], 'Arr<Vec<uint8_t,8>,4> t;t.val[0]=a.val[0];t.val[1]=a.val[1];t.val[2]=t.val[3]=splat<Vec<uint8_t,8>>(0);EQ(vtbl2_u8(a,b),vtbl4_u8(t,b));')
law('P23', 'vtbl4=vtbl2|vtbl2', [D('u8', 4), D('u8')],
    'Arr<Vec<uint8_t,8>,2> t,u;t.val[0]=a.val[0];t.val[1]=a.val[1];u.val[0]=a.val[2];u.val[1]=a.val[3];Vec<uint8_t,8> j;for(int i=0;i<8;i++)j.val[i]=(uint8_t)(b.val[i]-16);'
    'auto x=vtbl2_u8(t,b),y=vtbl2_u8(u,j);Vec<uint8_t,8> e;for(int i=0;i<8;i++)e.val[i]=b.val[i]<16?x.val[i]:y.val[i];EQ(vtbl4_u8(a,b),e);')
law('P23', 'vpmax=vmaxq_f32', [D('f32'), D('f32')], 'Vec<float,4> x={{a.val[0],b.val[0],0,0}},y={{a.val[1],b.val[1],0,0}};EQF(vpmax_f32(a,b),lo(vmaxq_f32(x,y)));EQF(vpmin_f32(a,b),lo(vminq_f32(x,y)));')
# signed = unsigned bits
for f in list(FNS):
    if f.fp or f.fam in ('vget_lane',): continue
    base = f.name
    parts = base.split('_')
    t = parts[-1]
    if t[0] != 's' or not t[1:].isdigit(): continue
    u = '_'.join(parts[:-1] + [uns(t)])
    stem = '_'.join(parts[:-1])
    modular = ('vadd vaddq vsub vsubq vmul vmulq vmul_n vmulq_n vmlaq vand vandq vorr vorrq veor veorq vmvn vmvnq vsubhn vrsubhn vaddhn_high vshrn_n vmovn '
               'vtrn vtrnq vzip vuzp vrev16 vrev16q vrev32 vrev32q vrev64 vrev64q vext vcombine vget_low vget_high vdup_n vdupq_n vgetq_lane '
               'vld1 vld1q vld2 vld2q vld3 vld3q vld4 vld4q vst1 vst1q vst2 vst2q vst3 vst3q vst4 vst4q').split()
    if stem not in modular or not has(u): continue
    fu = BY[u]
    if f.imm and f.imm != fu.imm: continue
    names = [chr(97 + i) for i in range(len(f.args))]
    if f.mem is None:
        args = f.args
        ua = []
        for n, a, b in zip(names, f.args, fu.args):
            ua.append('n' if a.role == 'i' else 'as<%s>(%s)' % (b.cxx(), n))
        sa = ['n' if a.role == 'i' else n for n, a in zip(names, f.args)]
        law('P23', '%s=%s' % (base, u), args, 'EQ(bytes(%s(%s)),bytes(%s(%s)));' % (base, ','.join(sa), u, ','.join(ua)), imm=f.imm, lanewise=f.lanewise)
    elif f.isload:
        m = f.mem
        law('P23', '%s=%s' % (base, u), [MEMV(t, m.n)], 'EQ(bytes(%s(a.val)),bytes(%s((%s*)a.val)));' % (base, u, ct(uns(t))))
    else:
        m = f.mem; b = fu.args[1]
        law('P23', '%s=%s' % (base, u), [f.args[1]], 'Vec<%s,%d> m,w;fillff(m);fillff(w);%s(m.val,a);%s((%s*)w.val,as<%s>(a));EQ(m,w);' % (ct(t), m.n, base, u, ct(uns(t)), b.cxx()))

# ================================================================= P24
for f in list(FNS):
    if f.fam.startswith('vst') and 'lane' not in f.name:
        l = 'vld' + f.name[3:]
        if not has(l): continue
        m, r = f.mem, f.args[1]
        law('P24', '%s.%s' % (l, f.name), [r], 'struct{uint64_t g0;Vec<%s,%d> m;uint64_t g1;} s;fillff(s);%s(s.m.val,a);EQ(%s(s.m.val),a);' % (ct(m.t), m.n, f.name, l))
        law('P24', '%s.%s' % (f.name, l), [MEMV(m.t, m.n)], 'Vec<%s,%d> m;fillff(m);%s(m.val,%s(a.val));EQ(m,a);' % (ct(m.t), m.n, f.name, l))
        law('P24', '%s.%s:inplace' % (f.name, l), [MEMV(m.t, m.n)], 'auto m=a;%s(m.val,%s(m.val));EQ(m,a);' % (f.name, l))
for t in ('s8', 'u8'):
    law('P24', 'vuzp.vzip_' + t, [D(t), D(t)], 'auto z=vzip_%s(a,b);auto u=vuzp_%s(z.val[0],z.val[1]);EQ(u.val[0],a);EQ(u.val[1],b);' % (t, t))
    law('P24', 'vzip.vuzp_' + t, [D(t), D(t)], 'auto z=vuzp_%s(a,b);auto u=vzip_%s(z.val[0],z.val[1]);EQ(u.val[0],a);EQ(u.val[1],b);' % (t, t))
for f in list(FNS):
    if f.fam in ('vtrn', 'vtrnq'):
        law('P24', '%s^2' % f.name, [f.args[0], f.args[1]], 'auto z=%s(a,b);auto u=%s(z.val[0],z.val[1]);EQ(u.val[0],a);EQ(u.val[1],b);' % (f.name, f.name))
    if f.fam.startswith('vrev') or f.fam in ('vmvn', 'vmvnq'):
        law('P24', '%s^2' % f.name, [f.args[0]], 'EQ(%s(%s(a)),a);' % (f.name, f.name))
for t in N6:
    law('P24', 'vcombine.vget_' + t, [Q(t)], 'EQ(vcombine_%s(vget_low_%s(a),vget_high_%s(a)),a);' % (t, t, t))
    law('P24', 'vget.vcombine_' + t, [D(t), D(t)], 'auto q=vcombine_%s(a,b);EQ(vget_low_%s(q),a);EQ(vget_high_%s(q),b);' % (t, t, t))
law('P24', 'vget_f32.halves', [Q('f32')], 'EQ(cat(vget_low_f32(a),vget_high_f32(a)),a);')
for f in list(FNS):
    if f.fam.startswith('vreinterpret'):
        _, d, s = f.name.split('_')
        back = '%s_%s_%s' % (f.fam, s, d)
        if has(back): law('P24', '%s.%s' % (back, f.name), [f.args[0]], 'EQ(%s(%s(a)),a);' % (back, f.name))
        if f.fam == 'vreinterpretq' and d == 'u32' and s != 'u8':
            law('P24', 'vreinterpretq_u8_u32.u32_%s' % s, [f.args[0]], 'EQ(vreinterpretq_u8_u32(vreinterpretq_u32_%s(a)),%s);' % (s, 'vreinterpretq_u8_%s(a)' % s))
            law('P24', 'vreinterpretq_u32_%s.bits' % s, [f.args[0]], 'EQ(as<%s>(vreinterpretq_u32_%s(a)),a);' % (f.args[0].cxx(), s))
            law('P24', 'vreinterpretq_u32_u8.u8_%s' % s, [f.args[0]], 'EQ(vreinterpretq_u32_u8(vreinterpretq_u8_%s(a)),vreinterpretq_u32_%s(a));' % (s, s))
for t, mv in [('s16', 'vmovn_s32'), ('u8', 'vmovn_u16'), ('u16', 'vmovn_u32'), ('u8', 'vqmovn_u16')]:
    law('P24', '%s.vmovl_%s' % (mv, t), [D(t)], 'EQ(%s(vmovl_%s(a)),a);' % (mv, t), lanewise=True)
law('P24', 'vqmovun.vmovl_u8', [D('u8')], 'EQ(vqmovun_s16(as<%s>(vmovl_u8(a))),a);' % Q('s16').cxx(), lanewise=True)
for t in N6 + ['f32']:
    law('P24', 'vgetq_lane.vdupq_' + t, [SC(t), IMM], 'EQ(vgetq_lane_%s(vdupq_n_%s(a),n),a);' % (t, t), imm=(0, ql(t) - 1))
for t in INTS:
    law('P24', 'vst1.vdup_' + t, [SC(t)], 'Vec<%s,%d> m;vst1_%s(m.val,vdup_n_%s(a));for(int i=0;i<%d;i++)EQ(m.val[i],a);' % (ct(t), dl(t), t, t, dl(t)))
law('P24', 'vget_lane.vget.vdupq_f32', [SC('f32'), IMM], 'EQ(vget_lane_f32(vget_low_f32(vdupq_n_f32(a)),n),a);EQ(vget_lane_f32(vget_high_f32(vmovq_n_f32(a)),n),a);', imm=(0, 1))
for t in ALL10:
    law('P24', 'vgetq_lane.all_' + t, [Q(t)], '%s r;for(int i=0;i<%d;i++)r.val[i]=vgetq_lane_%s(a,i);EQ(r,a);' % (Q(t).cxx(), ql(t), t))
for t, q in [('s16', 0), ('u8', 0), ('u16', 0), ('u16', 1)]:
    n = ql(t) if q else dl(t); v = 'vext%s_%s' % ('q' if q else '', t)
    law('P24', v + '.rotate', [V(t, q), V(t, q), IMM], 'EQ(%s(%s(a,b,n),%s(b,a,n),%d-n),b);' % (v, v, v, n), imm=(1, n - 1))
law('P24', 'vst4q_lane.vgetq_lane', [Q('f32', 4), IMM], 'Vec<float,4> m;fillff(m);vst4q_lane_f32(m.val,a,n);for(int r=0;r<4;r++)EQ(m.val[r],vgetq_lane_f32(a.val[r],n));', imm=(0, 3))
for t in ('s8', 'u8'):
    law('P24', 'vld1_lane.vst1_' + t, [D(t), IMM], 'Vec<%s,8> m;vst1_%s(m.val,a);EQ(vld1_lane_%s(m.val+n,a,n),a);' % (ct(t), t, t), imm=(0, 7))
for k in (2, 3, 4):
    law('P24', 'vld%d_lane.vst%d' % (k, k), [D('u8', k), D('u8', k)], 'Vec<uint8_t,%d> m;vst%d_u8(m.val,a);auto r=b;for(int i=0;i<8;i++)r=vld%d_lane_u8(m.val+%d*i,r,i);EQ(r,a);' % (8 * k, k, k, k))

# ================================================================= P25
for t in INTS:
    for q in (0, 1):
        s = ('q_' if q else '_') + t
        two, three = [V(t, q)] * 2, [V(t, q)] * 3
        law('P25', 'vadd%s.comm' % s, two, 'EQ(vadd%s(a,b),vadd%s(b,a));' % (s, s), lanewise=True)
        law('P25', 'vadd%s.assoc' % s, three, 'EQ(vadd%s(vadd%s(a,b),c),vadd%s(a,vadd%s(b,c)));' % (s, s, s, s), lanewise=True)
        law('P25', 'vsub%s.undo' % s, two, 'EQ(vsub%s(vadd%s(a,b),b),a);EQ(vadd%s(vsub%s(a,b),b),a);EQ(vsub%s(a,vsub%s(a,b)),b);' % ((s,) * 6), lanewise=True)
        law('P25', 'absorb%s' % s, two, 'EQ(vand%s(a,vorr%s(a,b)),a);EQ(vorr%s(a,vand%s(a,b)),a);' % ((s,) * 4), lanewise=True)
        law('P25', 'bitcomm%s' % s, two, 'EQ(vand%s(a,b),vand%s(b,a));EQ(vorr%s(a,b),vorr%s(b,a));EQ(veor%s(a,b),veor%s(b,a));' % ((s,) * 6), lanewise=True)
        law('P25', 'xor%s' % s, two, 'EQ(veor%s(veor%s(a,b),b),a);EQ(veor%s(a,b),vsub%s(vorr%s(a,b),vand%s(a,b)));EQ(vadd%s(vand%s(a,b),vorr%s(a,b)),vadd%s(a,b));' % ((s,) * 10), lanewise=True)
        if t in N6:
            law('P25', 'demorgan%s' % s, two, 'EQ(vmvn%s(vand%s(a,b)),vorr%s(vmvn%s(a),vmvn%s(b)));EQ(vmvn%s(vorr%s(a,b)),vand%s(vmvn%s(a),vmvn%s(b)));' % ((s,) * 10), lanewise=True)
            law('P25', 'neg%s' % s, two, 'EQ(vsub%s(a,b),vadd%s(vadd%s(a,vmvn%s(b)),splat<%s>(1)));' % (s, s, s, s, V(t, q).cxx()), lanewise=True)
            law('P25', 'vmul%s.comm' % s, two, 'EQ(vmul%s(a,b),vmul%s(b,a));' % (s, s), lanewise=True)
            law('P25', 'vmul%s.distr' % s, three, 'EQ(vmul%s(a,vadd%s(b,c)),vadd%s(vmul%s(a,b),vmul%s(a,c)));' % ((s,) * 5), lanewise=True)
        # saturating subtraction: plain when it fits, the bound otherwise (range decided by the harness in 128 bits)
        law('P25', 'vqsub%s.fits' % s, two, 'auto q=vqsub%s(a,b);auto p=vsub%s(a,b);for(int i=0;i<%d;i++){i128 d=(i128)a.val[i]-(i128)b.val[i];%s e=(sat<%s>(d)==d)?p.val[i]:(%s)sat<%s>(d);EQ(q.val[i],e);}'
            % (s, s, ql(t) if q else dl(t), ct(t), ct(t), ct(t), ct(t)), lanewise=True)
for t in N6:
    w = wide(t); nn = dl(t)
    law('P25', 'vqsub.vsubl_' + t, [D(t), D(t)], 'auto q=vqsub_%s(a,b);auto p=vsub_%s(a,b);auto l=vsubl_%s(a,b);for(int i=0;i<%d;i++){i128 d=(%s)l.val[i];%s e=(sat<%s>(d)==d)?p.val[i]:(%s)sat<%s>(d);EQ(q.val[i],e);}'
        % (t, t, t, nn, ct('s' + w[1:]), ct(t), ct(t), ct(t), ct(t)), lanewise=True)
    law('P25', 'vmlaq=vaddq.vmulq_' + t, [Q(t)] * 3, 'EQ(vmlaq_%s(a,b,c),vaddq_%s(a,vmulq_%s(b,c)));' % (t, t, t), lanewise=True)
    law('P25', 'vmlal=vaddq.vmull_' + t, [Q(w), D(t), D(t)], 'EQ(vmlal_%s(a,b,c),vaddq_%s(a,vmull_%s(b,c)));' % (t, w, t), lanewise=True)
    law('P25', 'vmlsl=vsubq.vmull_' + t, [Q(w), D(t), D(t)], 'EQ(vmlsl_%s(a,b,c),vsubq_%s(a,vmull_%s(b,c)));EQ(vmlsl_%s(vmlal_%s(a,b,c),b,c),a);' % (t, w, t, t, t), lanewise=True)
    law('P25', 'vmull.comm_' + t, [D(t), D(t)], 'EQ(vmull_%s(a,b),vmull_%s(b,a));' % (t, t), lanewise=True)
    law('P25', 'vhsub=vshrn.vsubl_' + t, [D(t), D(t)], 'EQ(vhsub_%s(a,b),vshrn_n_%s(vsubl_%s(a,b),1));' % (t, w, t), lanewise=True)
    law('P25', 'vhsubq=vshrn.vsubl_' + t, [Q(t), Q(t)], 'EQ(vhsubq_%s(a,b),cat(vshrn_n_%s(vsubl_%s(lo(a),lo(b)),1),vshrn_n_%s(vsubl_%s(hi(a),hi(b)),1)));' % (t, w, t, w, t), lanewise=True)
    law('P25', 'maxmin.pair_' + t, [Q(t), Q(t)], 'auto x=vmaxq_%s(a,b),m=vminq_%s(a,b);EQ(vaddq_%s(x,m),vaddq_%s(a,b));for(int i=0;i<%d;i++){CHECK((x.val[i]==a.val[i]&&m.val[i]==b.val[i])||(x.val[i]==b.val[i]&&m.val[i]==a.val[i]),x.val[i],m.val[i]);CHECK(x.val[i]>=m.val[i],x.val[i],m.val[i]);}EQ(vmaxq_%s(b,a),x);EQ(vminq_%s(b,a),m);'
        % (t, t, t, t, ql(t), t, t), lanewise=True)
for t, mv in [('s16', 'vmovn_s32'), ('u8', 'vmovn_u16'), ('u16', 'vmovn_u32')]:
    law('P25', 'vmul=vmovn.vmull_' + t, [D(t), D(t)], 'EQ(vmul_%s(a,b),%s(vmull_%s(a,b)));' % (t, mv, t), lanewise=True)
law('P25', 'maxmin.pair_f32', [Q('f32'), Q('f32')],
    'auto x=vmaxq_f32(a,b),m=vminq_f32(a,b);for(int i=0;i<4;i++){if(isnan32(a.val[i])||isnan32(b.val[i])){CHECK(isnan32(x.val[i])&&isnan32(m.val[i]),x.val[i],m.val[i]);}else{uint32_t p=fbits(a.val[i]),q=fbits(b.val[i]),X=fbits(x.val[i]),M=fbits(m.val[i]);CHECK((X==p&&M==q)||(X==q&&M==p),X,M);}}', lanewise=True)
law('P25', 'vbsl_u8.andor', [Q('u8')] * 3, 'EQ(vbslq_u8(a,b,c),vorrq_u8(vandq_u8(a,b),vandq_u8(vmvnq_u8(a),c)));', lanewise=True)
law('P25', 'vbsl_u8.mux', [Q('u8')] * 3, 'EQ(vbslq_u8(a,b,c),veorq_u8(c,vandq_u8(a,veorq_u8(b,c))));', lanewise=True)
qu32 = Q('u32').cxx()
law('P25', 'vbsl_f32.andor', [Q('u32'), Q('f32'), Q('f32')], 'EQ(as<%s>(vbslq_f32(a,b,c)),vorrq_u32(vandq_u32(a,as<%s>(b)),vandq_u32(vmvnq_u32(a),as<%s>(c))));' % (qu32, qu32, qu32), lanewise=True)
law('P25', 'vbsl_f32.vbsl_u8', [Q('u32'), Q('f32'), Q('f32')], 'EQ(as<B16>(vbslq_f32(a,b,c)),as<B16>(vbslq_u8(as<%s>(a),as<%s>(b),as<%s>(c))));' % ((Q('u8').cxx(),) * 3), lanewise=True)
law('P25', 'vqadd_u8.vaddl', [D('u8'), D('u8')], 'auto q=vqadd_u8(a,b),p=vadd_u8(a,b);auto l=vaddl_u8(a,b);for(int i=0;i<8;i++)EQ(q.val[i],(uint8_t)(l.val[i]>255?255:p.val[i]));EQ(vqadd_u8(a,b),vqmovn_u16(vaddl_u8(a,b)));', lanewise=True)
law('P25', 'vqaddq_u8.mvn', [Q('u8'), Q('u8')], 'EQ(vqaddq_u8(a,b),vmvnq_u8(vqsubq_u8(vmvnq_u8(a),b)));EQ(vqaddq_u8(a,b),vqaddq_u8(b,a));', lanewise=True)
law('P25', 'vcgt.vmax_u8', [Q('u8'), Q('u8')], 'EQ(vbslq_u8(vcgtq_u8(a,b),a,b),vmaxq_u8(a,b));EQ(vbslq_u8(vcgtq_u8(a,b),b,a),vminq_u8(a,b));for(int i=0;i<16;i++)CHECK(vcgtq_u8(a,b).val[i]==0||vcgtq_u8(a,b).val[i]==255,vcgtq_u8(a,b).val[i],0);', lanewise=True)
law('P25', 'vcgt.strict_u8', [Q('u8'), Q('u8')], 'auto x=vcgtq_u8(a,b),y=vcgtq_u8(b,a);for(int i=0;i<16;i++)EQ((uint8_t)(x.val[i]|y.val[i]),(uint8_t)(a.val[i]!=b.val[i]?255:0));EQ(vandq_u8(x,y),splat<%s>(0));' % Q('u8').cxx(), lanewise=True)
law('P25', 'vclt.vmin_f32', [Q('f32'), Q('f32')],
    'auto lt=vcltq_f32(a,b);auto m=vminq_f32(a,b),x=vmaxq_f32(a,b);auto sm=vbslq_f32(lt,a,b),sx=vbslq_f32(lt,b,a);for(int i=0;i<4;i++){bool nan=isnan32(a.val[i])||isnan32(b.val[i]);if(nan){EQ(lt.val[i],0u);}else if(a.val[i]!=0||b.val[i]!=0){EQ(fbits(m.val[i]),fbits(sm.val[i]));EQ(fbits(x.val[i]),fbits(sx.val[i]));}else EQ(lt.val[i],0u);}', lanewise=True)
for t in ['s16', 's32', 's64', 'u16', 'u32', 'u64']:
    nt = narrow(t); h = bits(nt); v = Q(t).cxx(); n = ql(t)
    law('P25', 'vsubhn=vshrn.vsubq_' + t, [Q(t), Q(t)], 'EQ(vsubhn_%s(a,b),vshrn_n_%s(vsubq_%s(a,b),%d));' % (t, t, t, h), lanewise=True)
    law('P25', 'vrsubhn=vshrn.round_' + t, [Q(t), Q(t)], 'EQ(vrsubhn_%s(a,b),vshrn_n_%s(vaddq_%s(vsubq_%s(a,b),splat<%s>((%s)1<<%d)),%d));' % (t, t, t, t, v, ct(t), h - 1, h), lanewise=True)
    law('P25', 'vaddhn_high=vshrn.vaddq_' + t, [D(nt), Q(t), Q(t)], 'EQ(vaddhn_high_%s(a,b,c),cat(a,vshrn_n_%s(vaddq_%s(b,c),%d)));' % (t, t, t, h), lanewise=True)
    law('P25', 'vshrn=narrow.shift_' + t, [Q(t), IMM], 'auto r=vshrn_n_%s(a,n);for(int i=0;i<%d;i++){i128 x=(i128)a.val[i]>>n;%s e;S<%s>((uint8_t*)&e,0,x);EQ(r.val[i],e);}' % (t, n, ct(nt), ct(nt)), imm=(1, h), lanewise=True)
    law('P25', 'vqshrn.fits_' + t, [Q(t), IMM], 'auto q=vqshrn_n_%s(a,n);auto p=vshrn_n_%s(a,n);for(int i=0;i<%d;i++){i128 x=(i128)a.val[i]>>n;%s e=sat<%s>(x)==x?p.val[i]:(%s)sat<%s>(x);EQ(q.val[i],e);}' % (t, t, n, ct(nt), ct(nt), ct(nt), ct(nt)), imm=(1, h), lanewise=True)
    if t[0] == 's':
        ut = uns(nt)
        law('P25', 'vqshrun.fits_' + t, [Q(t), IMM], 'auto q=vqshrun_n_%s(a,n);auto p=vshrn_n_%s(a,n);for(int i=0;i<%d;i++){i128 x=(i128)a.val[i]>>n;%s e=sat<%s>(x)==x?(%s)p.val[i]:(%s)sat<%s>(x);EQ(q.val[i],e);}' % (t, t, n, ct(ut), ct(ut), ct(ut), ct(ut), ct(ut)), imm=(1, h), lanewise=True)
law('P25', 'vshrn.vshr_u16', [Q('u16'), IMM], 'auto s=cat(vshr_n_u16(lo(a),n),vshr_n_u16(hi(a),n));EQ(vshrn_n_u16(a,n),vmovn_u16(s));EQ(vqshrn_n_u16(a,n),vqmovn_u16(s));', imm=(1, 8), lanewise=True)
law('P25', 'vrshrn.vshr_u16', [Q('u16'), IMM], 'auto s=cat(vshr_n_u16(lo(a),n),vshr_n_u16(hi(a),n));auto r=vrshrn_n_u16(a,n);for(int i=0;i<8;i++)EQ(r.val[i],(uint8_t)(s.val[i]+((a.val[i]>>(n-1))&1)));', imm=(1, 8), lanewise=True)
law('P25', 'vqrshrun.vqshrun_s16', [Q('s16'), IMM], 'auto r=vqrshrun_n_s16(a,n);auto x=vqshrun_n_s16(a,n);for(int i=0;i<8;i++){int v=((int)a.val[i]>>n)+((a.val[i]>>(n-1))&1);EQ(r.val[i],(uint8_t)(v<0?0:v>255?255:v));int d=r.val[i]-x.val[i];CHECK(d==0||d==1,r.val[i],x.val[i]);}', imm=(1, 8), lanewise=True)
law('P25', 'vshrn_s32.vsra', [Q('s32'), IMM], 'EQ(vshrn_n_s32(a,n),vmovn_s32(vsraq_n_s32(splat<%s>(0),a,n)));' % Q('s32').cxx(), imm=(1, 16), lanewise=True)
law('P25', 'vsraq=vaddq.vsra0', [Q('s32'), Q('s32'), IMM], 'EQ(vsraq_n_s32(a,b,n),vaddq_s32(a,vsraq_n_s32(splat<%s>(0),b,n)));' % Q('s32').cxx(), imm=(1, 32), lanewise=True)
law('P25', 'vshlq=vmulq', [Q('s32'), IMM], 'EQ(vshlq_n_s32(a,n),vmulq_s32(a,splat<%s>((int32_t)(1u<<n))));EQ(vshlq_n_s32(a,n),vmulq_n_s32(a,(int32_t)(1u<<n)));' % Q('s32').cxx(), imm=(0, 31), lanewise=True)
law('P25', 'vshll=vmulq.vmovl', [D('u8'), IMM], 'EQ(vshll_n_u8(a,n),vmulq_n_u16(vmovl_u8(a),(uint16_t)(1<<n)));', imm=(0, 7), lanewise=True)
law('P25', 'vshll.vshrn', [D('u8'), IMM], 'EQ(n?vshrn_n_u16(vshll_n_u8(a,n),n):vmovn_u16(vshll_n_u8(a,0)),a);', imm=(0, 7), lanewise=True)
law('P25', 'vpaddl=vaddl.vuzp', [D('u8'), D('u8')], 'auto u=vuzp_u8(a,b);EQ(vaddl_u8(u.val[0],u.val[1]),cat(vpaddl_u8(a),vpaddl_u8(b)));')
law('P25', 'vqdmull=2vmull', [D('s16'), D('s16')], 'auto q=vqdmull_s16(a,b);auto l=vmull_s16(a,b);for(int i=0;i<4;i++)EQ(q.val[i],(int32_t)sat<int32_t>((i128)2*l.val[i]));', lanewise=True)
law('P25', 'vaddq_f32.comm', [Q('f32'), Q('f32')], 'EQF(vaddq_f32(a,b),vaddq_f32(b,a));EQF(vmulq_f32(a,b),vmulq_f32(b,a));', lanewise=True)
law('P25', 'vmlaq_f32=vaddq.vmulq', [Q('f32')] * 3, 'EQF(vmlaq_f32(a,b,c),vaddq_f32(a,vmulq_f32(b,c)));EQF(vmlaq_n_f32(a,b,c.val[0]),vaddq_f32(a,vmulq_n_f32(b,c.val[0])));', lanewise=True)

# ================================================================= P13 refinement
law('P13', 'newton', [Q('f32')],
    'auto e=vrecpeq_f32(a);auto x=vmulq_f32(e,vrecpsq_f32(a,e));x=vmulq_f32(x,vrecpsq_f32(a,x));'
    'for(int i=0;i<4;i++){uint32_t u=fbits(a.val[i])&0x7fffffffu;if(u<0x00800000u||u>0x7e000000u)continue;'
    'double d=1.0/(double)a.val[i],r=x.val[i];double ulp=ldexp(1.0,ilogb(d)-23);CHECK(fabs(r-d)<=3.0*ulp,x.val[i],(float)d);'
    'double e0=e.val[i];CHECK(fabs(e0*(double)a.val[i]-1.0)<=1.0/256,e.val[i],(float)d);}', lanewise=True)

for l in LAWS:
    l.code = l.code.replace(';;', ';')
if __name__ == '__main__':
    import collections
    print(collections.Counter(l.prop for l in LAWS), len(LAWS))
    assert len({(l.name) for l in LAWS}) == len(LAWS), [n for n, c in collections.Counter(l.name for l in LAWS).items() if c > 1]

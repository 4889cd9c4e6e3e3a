"""Plans per property, execution of the monitors over 8 shards, verdicts and evidence."""
import os, sys, json, time, subprocess, glob, shutil, re, traceback
import builds
from builds import VERIF, BUILD, BuildError, HarnessError
from concurrent.futures import ThreadPoolExecutor

NSH = 8
VALUE = ['P01', 'P02', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P23', 'P24', 'P25']


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.viol = []           # dicts: case, kind, inputs, detail, mode, lib
        self.samples = []
        self.stat = {}
        self.evals = 0; self.distinct = 0
        self.notes = []
        self.work = os.path.join(VERIF, 'out', pid + ('' if builds.REPO == '/repo' else '-' + os.path.basename(builds.REPO)))
        shutil.rmtree(self.work, ignore_errors=True); os.makedirs(self.work)
        self.stages = []

    def violation(self, case, kind, detail, inputs='', **kw):
        self.viol.append(dict(case=case, kind=kind, detail=detail, inputs=inputs, **kw))

    def add(self, **kw):
        for k, v in kw.items(): self.stat[k] = self.stat.get(k, 0) + v


def run_sharded(ctx, runner, mode, libs, props, rand=0, guided=0, exh=0, extra=0, dic=None, env=None, nsh=NSH, timeout=3000, only=None, tag=None):
    """Run one mode over all shards; collect events. libs: list of (name, path)."""
    tag = tag or mode
    t0 = time.time()
    procs = []
    e = dict(os.environ, NS_ALIGN=builds.type_align() or '1'); e.update(env or {})
    for k in range(nsh):
        out = os.path.join(ctx.work, '%s.%d.jsonl' % (tag, k))
        cmd = [runner, mode]
        for n, p in libs: cmd += ['--lib', '%s=%s' % (n, p)]
        cmd += ['--props', props, '--shard', '%d/%d' % (k, nsh), '--seed', str(ctx.seed), '--tier', ctx.tier, '--random', str(int(rand)), '--guided', str(int(guided)),
                '--exh', str(int(exh)), '--extra', str(int(extra)), '--out', out]
        if dic: cmd += ['--dict', dic]
        if only: cmd += ['--only', only]
        log = open(os.path.join(ctx.work, '%s.%d.log' % (tag, k)), 'w')
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=e, cwd=ctx.work), out, cmd))
    rcs = []
    for p, out, cmd in procs:
        try: rcs.append(p.wait(timeout=timeout))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); raise HarnessError('%s shard timed out' % mode)
    st = {'calls': 0, 'distinct': 0, 'cases': 0}
    extra_sum = [0] * 32; stages = [0] * 8
    nstat = 0; hangs = []
    for (p, out, cmd), rc in zip(procs, rcs):
        if rc not in (0, 1):
            raise HarnessError('%s ended with %s: %s' % (mode, rc, open(out.replace('.jsonl', '.log')).read()[-800:] + ''.join(l for l in open(out) if '"error"' in l)[:500] if os.path.exists(out) else 'no output'))
        for l in open(out):
            try: j = json.loads(l)
            except ValueError: continue
            if j['ev'] == 'viol':
                j.update(mode=mode, runner=os.path.basename(runner).rsplit('-', 1)[0], libs=[[n, os.path.basename(os.path.dirname(q)).split('-')[0] if os.path.basename(q) == 'libns.so' else ''] for n, q in libs], tag=tag)
                if j['kind'] == 'hang' and not only: hangs.append(j)
                else: ctx.viol.append(j)
            elif j['ev'] == 'sample': ctx.samples.append(dict({k: v for k, v in j.items() if k != 'ev'}, stage=tag))
            elif j['ev'] == 'stat':
                nstat += 1
                for k in ('calls', 'distinct', 'cases', 'edges', 'edges_total', 'cmpfeat', 'corpus'): st[k] = st.get(k, 0) + j.get(k, 0)
                extra_sum = [a + b for a, b in zip(extra_sum, j['extra'])]; stages = [a + b for a, b in zip(stages, j['stages'])]
            elif j['ev'] == 'error': raise HarnessError(j['detail'])
    if nstat != nsh: raise HarnessError('%s: %d of %d shards reported' % (mode, nstat, nsh))
    for j in hangs[:4]:      # a hang is judged only when it happens again
        sub = Ctx.__new__(Ctx); sub.__dict__.update(ctx.__dict__); sub.viol = []; sub.samples = []
        run_sharded(sub, runner, mode, libs, props, rand, guided, exh, extra, dic, env, nsh, timeout, only=j['case'], tag=tag + '-again')
        if sub.viol: ctx.viol.append(j); break
        else: ctx.notes.append('a stall in %s (%s) did not repeat' % (j['case'], mode))
    st['stages'] = dict(zip(['', 'exhaustive', 'boundary', 'random', 'coverage_guided', 'replayed_corpus', 'x', 'y'], stages)); st['extra'] = extra_sum
    st['wall'] = round(time.time() - t0, 1)
    ctx.evals += st['calls']; ctx.distinct += st['distinct']
    ctx.stages.append({'stage': tag, 'evaluations': st['calls'], 'cases': st['cases'], 'distinct_inputs': st['distinct'],
                       'by_generator': {k: v for k, v in st['stages'].items() if v}, 'library_edges_covered': st.get('edges', 0), 'comparison_features': st.get('cmpfeat', 0),
                       'wall_s': st['wall']})
    if st['cases'] and not st['calls'] and not ctx.viol: raise HarnessError('%s observed nothing' % mode)
    return st


# ------------------------------------------------------------------------------------------------- plans
def plan_value(ctx):
    P = ctx.pid; laws = P in ('P13', 'P23', 'P24', 'P25')
    opt = ('gV3' if P == 'P11' else 'gV3n') if builds.wide_cpu() else 'gO3'
    L = builds_for(ctx, ['base', 'cov', opt], 'nslaw' if laws else 'nsrun')
    import catalog, laws as lawmod
    nc = sum(f.prop == P for f in catalog.FNS) + sum(l.prop == P for l in lawmod.LAWS)
    if ctx.thorough: r, g, x = max(4000000, min(200000000, 1200000000 // nc)), 600000 if nc < 200 else 150000, (1 << 33)
    else: r, g, x = max(600000, min(12000000, 240000000 // nc)), 120000 if nc < 200 else 40000, (1 << 33) if P in ('P12', 'P13') else 70000 if laws else 1 << 31
    run_sharded(ctx, L['run'], 'value', [('base', L['base']), ('cov', L['cov'])], P, rand=r, guided=g, exh=x, dic=L['dict'], timeout=20000)
    run_sharded(ctx, L['run'], 'value', [('base', L[opt])], P, rand=r // 3, guided=0, exh=70000, dic=L['dict'], timeout=20000, tag='value-' + opt)
    if not laws:
        st = run_sharded(ctx, L['run'], 'env', [('base', L['base']), ('cov', L['cov'])], P, rand=r // 20, guided=g // 20, dic=L['dict'])
        ctx.stat.update(calls_in_other_rounding_or_flush_modes=st['extra'][0], questions_to_the_process_answered_falsely=st['extra'][1])
    ctx.rule = ('Typed inputs per function or law: exhaustive lane values for pairs of 8 or 16 bits and single operands up to 32 bits (laws: 8-bit pairs and 16-bit singles; thorough: all), '
                'boundary-set products, biased random (related operands, dictionary constants of the built code, single special lane), and coverage/comparison-guided mutation; every legal immediate; a second stage repeats it on an optimised build for a newer machine. '
                'A case is non-trivial when its input is not all zero; distinct inputs are counted by a 26-bit hash per shard (a lower bound).')


def builds_for(ctx, libnames, runner, dic=True):
    """Build everything in parallel."""
    with ThreadPoolExecutor(12) as ex:
        fr = ex.submit(builds.runner, runner) if runner else None
        fl = {n: ex.submit(builds.library, n) for n in libnames}
        fd = ex.submit(builds.dictionary) if dic else None
        r = {n: f.result() for n, f in fl.items()}
        r['run'] = fr.result() if fr else None; r['dict'] = fd.result() if fd else None
    return r


PLANS = {p: plan_value for p in VALUE}
try:
    import plans
    plans.register(PLANS)
except ImportError:
    pass


# ------------------------------------------------------------------------------------------------- verdict
def known_findings():
    fs = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+(.*?)\s+::\s*(.*)', l)
            if m: fs.append((dict(x.split('=', 1) for x in m.group(1).split()), m.group(2)))
    return fs


def matches(f, pid, v):
    return f.get('property') == pid and f.get('case') == v['case'] and f.get('kind') == v['kind'] and ('inputs' not in f or f['inputs'] == v.get('inputs', ''))


def finish(ctx, t0):
    kf = known_findings(); real = []; seenk = set()
    for v in ctx.viol:
        hit = None
        for i, (f, d) in enumerate(kf):
            if matches(f, ctx.pid, v): hit = i
        if hit is None: real.append(v)
        else: seenk.add(hit)
    for i in sorted(seenk): print('KNOWN-FINDING: property=%s %s' % (ctx.pid, kf[i][1]))
    bycase = {}
    for v in real: bycase.setdefault((v['case'], v['kind']), v)
    n = 0
    for (c, k), v in bycase.items():
        n += 1
        rp = os.path.join(ctx.work, 'violation-%d.json' % n)
        json.dump(dict(v, property=ctx.pid, seed=ctx.seed, tier=ctx.tier, replay_cmd='python3 %s/run.py --replay %s' % (VERIF, rp)), open(rp, 'w'), indent=1)
        if n <= 20:
            print('%s: %s [%s] inputs=%s: %s' % (ctx.pid, c, k, v.get('inputs', '')[:400], v['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
    if n > 20: print('%d further violations under %s' % (n - 20, ctx.work))
    smp = ctx.samples[:6] + ctx.samples[6::max(1, len(ctx.samples) // 6)][:8]
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': n,
          'assumptions': ['x86-64 Linux, gcc 13 and clang 18, default floating-point environment unless the check says otherwise', 'the reference models and prototypes in /verif/spec state the Arm definitions'],
          'coverage': dict({'evaluations': ctx.evals, 'distinct_nontrivial': min(ctx.distinct, ctx.evals), 'rule': ctx.rule, 'samples': smp or ['none'], 'stages': ctx.stages, 'notes': ctx.notes}, **ctx.stat)}
    if builds.REPO == '/repo':
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w'), indent=1)
    if n: return 1
    print('%s held: %d evaluations, %d distinct non-trivial, %.1f s' % (ctx.pid, ctx.evals, ctx.distinct, time.time() - t0))
    return 0


def replay(path):
    v = json.load(open(path))
    print(json.dumps(v, indent=1))
    if v.get('mode') in ('value', 'cross', 'san', 'msan', 'umr', 'mem', 'imm', 'effects') and v.get('inputs'):
        r = builds.runner(v['runner'])
        cmd = [r, 'replay-' + v['mode']]
        for n, variant in v['libs']:
            if variant: cmd += ['--lib', '%s=%s' % (n, builds.library(variant))]
        cmd += ['--props', 'ALL', '--only', v['case'], '--hex', v['inputs'], '--seed', str(v['seed'])]
        rc = subprocess.run(cmd, env=dict(os.environ, NS_ALIGN=builds.type_align() or '1')).returncode
        print('replay exit', rc); return 1 if rc else 0
    print('re-running the whole check with its seed')
    os.environ['VERIF_SEED'] = str(v['seed'])
    return main([v['property'], '--tier', v['tier']])


def main(argv):
    t0 = time.time()
    if argv and argv[0] == '--replay': return replay(argv[1])
    if argv and argv[0] == '--setup':      # generates the harness sources and builds the harness programs; checks build them too when they are absent
        try:
            for r in builds.RUNNERS: builds.runner(r)
        except (BuildError, HarnessError) as e: print(e); return 2
        print('harness built'); return 0
    pid = argv[0]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = os.environ.get('VERIF_SEED', '1')
    for i, a in enumerate(argv):
        if a == '--tier': tier = argv[i + 1]
        if a == '--seed': seed = argv[i + 1]
    try: seed = int(seed)
    except ValueError: seed = int.from_bytes(seed.encode(), 'little') & 0x7fffffff
    seed &= 0x7fffffff
    try:
        ctx = Ctx(pid, 'thorough' if tier == 'thorough' else 'quick', seed)
        ctx.rule = ''
        PLANS[pid](ctx)
        if not ctx.evals and not ctx.viol: raise HarnessError('nothing was observed')
        return finish(ctx, t0)
    except (BuildError, HarnessError) as e:
        print('%s: no verdict: %s' % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); return 2

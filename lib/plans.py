"""Plans of the properties that need more than the value monitor."""
import os
from concurrent.futures import ThreadPoolExecutor
import builds, driver, dropin, iface, ilp32
from driver import run_sharded, builds_for

COMMON = 'Distinct inputs are counted by a 26-bit hash per shard (a lower bound); the all-zero input is trivial.'


def libs_of(L, names):
    """'cov' may be given as cov=sancov: the guided build under its role's name."""
    return [(n.split('=')[0], L[n.split('=')[-1]]) for n in names]


def build(ctx, names, runner):
    return builds_for(ctx, [n.split('=')[-1] for n in names], runner)


def p03(ctx):
    ctx.rule = ('Every load and store is called with its region at the start and end of an area between inaccessible pages, across a page boundary and at random element-aligned offsets; loads see a read-only mapping; all bytes of the area are compared with a shadow after every call, '
                'and in two further builds every single memory access of the library is recorded and checked against the addressed region. ' + COMMON)
    names = ['base', 'cov', 'trace', 'trace1'] + (['gO3', 'cO3', 'gO0'] if ctx.thorough else [])
    L = build(ctx, names, 'nsrun')
    st = run_sharded(ctx, L['run'], 'mem', libs_of(L, names), 'ALL', rand=1500000 if ctx.thorough else 100000, guided=100000 if ctx.thorough else 12000, dic=L['dict'])
    ctx.stat.update(at_area_end=st['extra'][0], at_area_start=st['extra'][1], across_page=st['extra'][2], elsewhere=st['extra'][3], recorded_region_accesses=st['extra'][4], areas_across_a_multiple_of_2_31_or_2_32=st['extra'][5])


def p17(ctx):
    ctx.rule = ('For every intrinsic with an immediate: each int in a wide window around the legal range, powers of two and legal values displaced by them, constants of the built code, and random ints must abort (SIGABRT raised, text on standard error, caller memory inaccessible and untouched), some of them in separate processes; '
                'every legal immediate over boundary, random and coverage-guided register contents must return silently. ' + COMMON)
    names = ['base', 'cov', 'gO0', 'gNDEBUG', 'cO2'] + (['gO3', 'gOs', 'cO3', 'gUCHAR'] if ctx.thorough else [])
    L = build(ctx, names, 'nsrun')
    # through the public header too, where a macro or an inline function could come between
    static = os.path.join(os.path.dirname(L['base']), 'libneon_sim.a'); nv = len(ctx.viol)
    with ThreadPoolExecutor(4) as ex: cl = dict(zip(iface.CLIENTS, ex.map(lambda n: iface.client(ctx, n, static, None) if ctx.thorough or n in ('c99', 'cxx17') else None, iface.CLIENTS)))
    with ThreadPoolExecutor(2) as ex: cl.update(zip(iface.CONST_CLIENTS, ex.map(lambda n: iface.const_client(ctx, n, static), iface.CONST_CLIENTS)))
    del ctx.viol[nv:]        # whether clients compile is P21
    ctx.stat['clients'] = [n for n, q in cl.items() if q]
    st = run_sharded(ctx, L['run'], 'imm', libs_of(L, names) + [('cl_' + n, q) for n, q in cl.items() if q], 'ALL', rand=400000 if ctx.thorough else 20000, guided=40000 if ctx.thorough else 4000, extra=2000000 if ctx.thorough else 60000, dic=L['dict'])
    ctx.stat.update(aborts_observed=st['extra'][0], separate_processes=st['extra'][1], illegal_values_tried=st['extra'][2])


def p18(ctx):
    ctx.rule = ('Every intrinsic runs in AddressSanitizer+UndefinedBehaviorSanitizer builds; pointer arguments address a region whose surroundings are poisoned, at element-aligned but otherwise arbitrary addresses; each sanitizer report is attributed to the call in progress. A MemorySanitizer build counts branches, addresses and divisors computed from uninitialised memory, confirmed by memcheck. ' + COMMON)
    env = {'ASAN_OPTIONS': 'halt_on_error=0:detect_leaks=0:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'halt_on_error=0'}
    L = build(ctx, ['san', 'sancov', 'san0', 'gsan'], 'nssan')
    run_sharded(ctx, L['run'], 'san', libs_of(L, ['san', 'cov=sancov']), 'ALL', rand=600000 if ctx.thorough else 80000, guided=60000 if ctx.thorough else 6000, exh=(1 << 24) if ctx.thorough else 0, dic=L['dict'], env=env)
    run_sharded(ctx, L['run'], 'san', libs_of(L, ['san0']), 'ALL', rand=200000 if ctx.thorough else 12000, guided=0, dic=L['dict'], env=env, tag='san-O0')
    run_sharded(ctx, L['run'], 'san', libs_of(L, ['gsan']), 'ALL', rand=400000 if ctx.thorough else 60000, guided=0, dic=L['dict'], env=env, tag='san-gcc')


    # decisions taken on uninitialised memory: found by MemorySanitizer, believed when memcheck (which also sees inside uninstrumented libraries) agrees
    M = build(ctx, ['umr', 'umrcov', 'gO0'], 'nsmsan'); nv = len(ctx.viol)
    st = run_sharded(ctx, M['run'], 'umr', libs_of(M, ['umr', 'cov=umrcov']), 'ALL', rand=200000 if ctx.thorough else 6000, guided=20000 if ctx.thorough else 1500, dic=M['dict'], env={'MSAN_OPTIONS': 'poison_in_malloc=0:halt_on_error=0:report_umrs=0:exitcode=77'})
    ctx.stat.update(calls_watched_for_decisions_on_uninitialised_memory=st['extra'][0])
    cand = [v for v in ctx.viol[nv:] if v['kind'] == 'uninitialized']; seen = set(); plain = None
    for v in cand:
        plain = plain or builds.runner('nsrun')
        if v['case'] in seen or len(seen) > 40 or not memcheck(plain, M['gO0'], v): ctx.viol.remove(v); ctx.notes.append('%s: memcheck does not confirm' % v['case'] if v['case'] not in seen else '%s again' % v['case'])
        else: seen.add(v['case'])


def memcheck(runner, lib, v):
    """Does memcheck, too, see a decision on uninitialised memory inside this call?"""
    r = builds.run(['valgrind', '-q', '--soname-synonyms=somalloc=NONE', '--num-callers=30', runner, 'replay-value', '--lib', 'base=' + lib, '--props', 'ALL', '--only', v['case'], '--hex', v.get('inputs', '')], env=dict(os.environ, NS_ALIGN=builds.type_align() or '1'))
    return any('uninitialised' in b and os.path.basename(lib) in b for b in r.stderr.split('== \n'))


def p19(ctx):
    ctx.rule = ('The same call is made in builds by gcc and clang at several optimisation levels and stack-initialisation settings, after filling stack, registers and fresh heap blocks with changing bytes; all results must be equal. '
                'MemorySanitizer builds report which result bytes are not computed from the arguments. ' + COMMON)
    names = ['base', 'cov', 'gO0', 'gO1', 'gO3', 'gOs', 'gNDEBUG', 'gUCHAR', 'cO0', 'cO2', 'cO3', 'cPAT', 'cZERO', 'gFORT', 'gCXX20', 'cCXX17', 'gSTRICT', 'gPLAIN', 'gDEBUG', 'gOMP'] + (['gV3', 'cV3'] if builds.wide_cpu() else []) + (['gV4', 'cV4'] if builds.wide_cpu(('avx512f', 'avx512bw', 'avx512cd', 'avx512dq', 'avx512vl')) else [])
    try: builds.library('gNOPIC'); names.append('gNOPIC')
    except builds.BuildError as e:      # code without position independence may not be linkable into a shared object (thread-local data)
        if not str(e).startswith('link'): raise
        ctx.notes.append('no build without position independence: ' + str(e)[:200])
    L = build(ctx, names, 'nsrun')
    st = run_sharded(ctx, L['run'], 'cross', libs_of(L, names), 'ALL', rand=500000 if ctx.thorough else 40000, guided=40000 if ctx.thorough else 3000, exh=70000 if ctx.thorough else 0, dic=L['dict'])
    ctx.stat.update(cross_build_calls=st['extra'][0], builds=[n for n in names if n != 'cov'])
    env = {'MSAN_OPTIONS': 'poison_in_malloc=0:halt_on_error=0:report_umrs=0:exitcode=77'}
    M = build(ctx, ['msan', 'msan0', 'msancov'], 'nsmsan')
    st = run_sharded(ctx, M['run'], 'msan', libs_of(M, ['msan', 'msan0', 'cov=msancov']), 'ALL', rand=200000 if ctx.thorough else 10000, guided=20000 if ctx.thorough else 1500, dic=M['dict'], env=env)
    ctx.stat.update(result_shadows_read=st['extra'][0])


def p20(ctx):
    ctx.rule = ('Baselines come from processes in which no other intrinsic was ever called; long runs of one function, all ordered pairs of functions, random histories, calls interrupted halfway by other calls (through coverage callbacks), and eight threads with injected delays must reproduce them bit for bit. '
                'ThreadSanitizer watches a build of the library under the same thread schedules. Distinct inputs are the pooled argument sets.')
    T = ctx.thorough
    L = build(ctx, ['base', 'cov', 'tsan'], 'nsrun')
    st = run_sharded(ctx, L['run'], 'hist', libs_of(L, ['base', 'cov']), 'ALL', rand=70000000 if T else 17000000, guided=40000000 if T else 1000000, extra=20000 if T else 400, dic=L['dict'])
    ctx.stat.update(nested_calls=st['extra'][0], calls_left_halfway=st['extra'][2], ordered_pairs_of_functions=len(iface.FNS) ** 2)
    st = run_sharded(ctx, L['run'], 'threads', libs_of(L, ['base', 'cov']), 'ALL', rand=400000 if T else 12000, guided=40000 if T else 1200, dic=L['dict'], nsh=1)
    ctx.stat.update(threads=8, functions_under_threads=st['extra'][0], processes_with_concurrent_first_calls=st['extra'][2], calls_in_children_forked_during_calls=st['extra'][3])
    st = run_sharded(ctx, L['run'], 'env', libs_of(L, ['base', 'cov']), 'ALL', rand=400000 if T else 60000, guided=40000 if T else 2000, dic=L['dict'])
    ctx.stat.update(calls_in_other_rounding_or_flush_modes=st['extra'][0], questions_to_the_process_answered_falsely=st['extra'][1])
    early = iface.early(ctx, ['base', 'gO0', 'cO2'])
    st = run_sharded(ctx, L['run'], 'early', libs_of(L, ['base']), 'ALL', dic=L['dict'], env={'NS_EARLY': ':'.join(early)})
    ctx.stat.update(calls_before_or_after_main=st['extra'][0])
    R = builds.runner('nstsan')
    st = run_sharded(ctx, R, 'threads', [('tsan', L['tsan']), ('cov', L['cov'])], 'ALL', rand=20000 if T else 600, dic=L['dict'], nsh=1, tag='threads-tsan',
                     env={'TSAN_OPTIONS': 'halt_on_error=0:exitcode=0:report_signal_unsafe=0'})
    ctx.stat.update(calls_watched_by_thread_sanitizer=st['calls'])


def p27(ctx):
    ctx.rule = ('Around every legal call the floating-point control words (all rounding modes, flush settings), heap balance and mappings, argument objects; around every run of calls standard output and error, descriptors, signal dispositions and mask, working directory and its files, locale, environment, threads, children, timers, limits, priority and affinity, prctl settings, standard streams, handlers and the state of rand(), drand48() and strtok() are compared; loading the library must change none of it. ' + COMMON)
    names = ['base', 'cov', 'gO0', 'cO2', 'gNDEBUG'] + (['gO3', 'cO0', 'gPLAIN'] if ctx.thorough else [])
    L = build(ctx, names, 'nsrun')
    st = run_sharded(ctx, L['run'], 'effects', libs_of(L, names), 'ALL', rand=900000 if ctx.thorough else 150000, guided=60000 if ctx.thorough else 8000, dic=L['dict'])
    ctx.stat.update(functions=st['extra'][0], heap_calls_seen=st['extra'][1], processes_ended_normally_under_watch=st['extra'][3])


def p26(ctx):
    import progs
    ctx.rule = ('Random programs over register files and memory: each step\'s operands come from earlier results, each result and all memory are compared with the reference model. Executed both call by call and as generated C++ programs compiled and link-time optimised together with the library; '
                'kernels written with the intrinsics are compared with their scalar definitions. Distinct = distinct programs times distinct data.')
    T = ctx.thorough
    L = build(ctx, ['base'], 'nsrun')
    st = run_sharded(ctx, L['run'], 'prog', libs_of(L, ['base']), 'ALL', rand=1500000 if T else 12000, dic=L['dict'])
    ctx.stat.update(ordered_pairs_of_steps=st['extra'][0], functions_in_programs=st['extra'][1] // 8)
    progs.compiled(ctx, L)
    progs.kernels(ctx)


def register(P):
    P.update(P03=p03, P17=p17, P18=p18, P19=p19, P20=p20, P21=iface.plan_p21, P22=iface.plan_p22, P28=dropin.plan_p28, P29=ilp32.plan_p29, P26=p26, P27=p27)

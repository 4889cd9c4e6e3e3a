"""Writes MANIFEST.json from the table below."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = 'runtime oracle: every call compared with an executable Arm reference model; exhaustive, boundary, random and coverage-guided inputs'
LAW = 'runtime oracle: algebraic relation monitor over executed calls; exhaustive, boundary, random and coverage-guided inputs'
N_MODEL = 'Dynamic exploration, not proof: 8-bit pairs and 16-bit single lanes are exhausted (thorough: 16-bit pairs and single floats), everything else sampled by biased and coverage-guided generation. Trusts the reference models in spec/catalog.py, gcc/clang and x86-64 arithmetic.'
N_LAW = 'Independent of the reference models: only relations between results are judged. Sampled as for the value properties.'
T = {
 'P01': (MODEL, N_MODEL), 'P02': (MODEL, N_MODEL),
 'P03': ('memory-access recorder (instrumented build), guard pages and shadow memory around every load and store', 'Every region placement class and all element-aligned page offsets are sampled; the recorder sees every access of an -O0 and an -O1 clang build, guard pages and shadow judge the gcc build. Accesses outside the watched area that neither fault nor write it are not seen.'),
 'P04': (MODEL, N_MODEL), 'P05': (MODEL, N_MODEL), 'P06': (MODEL, N_MODEL), 'P07': (MODEL, N_MODEL), 'P08': (MODEL, N_MODEL), 'P09': (MODEL, N_MODEL), 'P10': (MODEL, N_MODEL),
 'P11': (MODEL, N_MODEL + ' Default rounding mode; any NaN counts as any other.'), 'P12': (MODEL, N_MODEL), 'P13': (MODEL, N_MODEL), 'P14': (MODEL, N_MODEL), 'P15': (MODEL, N_MODEL), 'P16': (MODEL, N_MODEL),
 'P17': ('abort monitor: signal, diagnostic and untouched-memory observer around calls with illegal immediates, silence observer around legal ones', 'Illegal immediates: a contiguous window, all powers-of-two displacements, code constants and random ints, in five builds, also with SIGABRT ignored, blocked or handled and stderr closed; not all 2^32 ints per function.'),
 'P18': ('AddressSanitizer, UndefinedBehaviorSanitizer (clang and gcc) and MemorySanitizer over generated calls with poisoned surroundings', 'Detects what clang 18 ASan/UBSan (incl. float-cast-overflow), gcc 13 UBSan and MemorySanitizer/memcheck (decisions on uninitialised data) detect on executed paths; type-based aliasing and unsequenced side effects have no sanitizer here (the cross-build and link-time-optimised comparisons of P19 and P26 would show their effects).'),
 'P19': ('cross-build result comparison under poisoned stack, registers and heap; MemorySanitizer shadow of every result', '22 to 26 builds of two compilers (those the processor can run); MemorySanitizer judges result bytes only (branches on uninitialised data surface through the comparison).'),
 'P20': ('history, re-entrancy and thread stress against fresh-process baselines; ThreadSanitizer', 'Schedules are sampled (eight threads, injected yields and delays at coverage points); histories reach millions of calls, all ordered function pairs and nested calls.'),
 'P21': ('executed C and C++ clients built through the public header, compared with the exported symbols', '14 client dialects over gcc and clang, C99 to C2x and C++11 to C++23, and two clients with literal immediates; operands sampled.'),
 'P22': ('executed reflection probes (layout, type identity, convertibility, prototypes) checked against the Arm tables', 'Complete for the 80 vector types, all ordered pairs and 1944 declared intrinsics; initialiser values and wrong-argument choices are sampled.'),
 'P23': (LAW, N_LAW), 'P24': (LAW, N_LAW), 'P25': (LAW, N_LAW),
 'P26': ('step-by-step replay of generated programs (interpreted, compiled and link-time optimised) and kernels against reference models', 'Random programs, not all programs; each step is judged from its observed operands, so one wrong step cannot hide another.'),
 'P27': ('state observers around every call: floating-point control, heap, descriptors, signals, output, process state', 'Process-wide state is compared after runs of calls, not after each; time and power side effects are out of scope.'),
 'P28': ('executed client programs: every standard header before and after, every dialect, many translation units, programs over ordinary names; printed facts compared with the language rules', 'Programs are a fixed family over two compilers (748 header orders, 26 dialects, about 550 names in six roles), not all programs.'),
 'P29': ('differential execution of generated calls in 32-bit x86 processes and WebAssembly instances (own runtimes, no system library) and in the 64-bit build', 'Two other platforms (i386 ABI with SSE arithmetic, gcc and clang; WebAssembly by clang, run by node); big-endian machines cannot run here.'),
}


def main():
    props = [json.loads(l)['id'] for l in open(VERIF + '/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks build the unmodified sources with their own compiler flags', 'source_commits': []},
         'checks': [{'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p, 'technique': T[p][0], 'level': 'exploration', 'level_note': T[p][1]} for p in props if p in T],
         'not_applicable': [{'property': p, 'reason': 'no check yet'} for p in props if p not in T]}
    json.dump(m, open(VERIF + '/MANIFEST.json', 'w'), indent=1); open(VERIF + '/MANIFEST.json', 'a').write('\n')


if __name__ == '__main__': main()

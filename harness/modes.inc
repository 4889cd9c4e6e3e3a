// Monitors that need more than one call at a time: memory footprint, illegal immediates, histories, threads, effects, programs.
#include <dirent.h>
#include <fenv.h>
#include <locale.h>
#include <malloc.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <stdio_ext.h>
#include <syslog.h>
#include <atomic>
#include <mutex>
#include <thread>
#include <exception>
#include <iostream>
#include <locale>
#include <new>

// ------------------------------------------------------------------------------------------ faults
static sigjmp_buf fault_jmp; static volatile sig_atomic_t fault_armed; static volatile int fault_sig; static void* volatile fault_addr;
static void on_fault(int s, siginfo_t* si, void*) {
    if (fault_armed) { fault_armed = 0; fault_sig = s; fault_addr = si->si_addr; siglongjmp(fault_jmp, 1); }
    signal(s, SIG_DFL); raise(s);
}
static void catch_faults(bool abrt) {
    static char st[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = st; ss.ss_size = sizeof st; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    if (abrt) { sa.sa_flags = SA_SIGINFO; sigaction(SIGABRT, &sa, nullptr); }
}

// ------------------------------------------------------------------------------------------ recorder behind the "trace" builds
// These builds are compiled with -fsanitize=address in outlined mode, without the sanitizer's runtime: every load, store
// and memory intrinsic of the library calls one of the functions below, which check it against the addressed region.
static struct { bool on; uintptr_t lo, hi, alo, ahi; bool store; uint64_t n; int bad; uintptr_t badaddr; size_t badsize; bool badwrite; uint64_t gwrites; } tr;
static inline void tr_access(uintptr_t a, size_t n, bool w) {
    if (!tr.on) return;
    if (a + n <= tr.lo || a >= tr.hi) return;
    tr.n++;
    if (a < tr.alo || a + n > tr.ahi || (w && !tr.store)) { if (!tr.bad++) { tr.badaddr = a; tr.badsize = n; tr.badwrite = w; } }
}
extern "C" {
#define TR(n) VIS void __asan_load##n(uintptr_t a) { tr_access(a, n, false); } VIS void __asan_store##n(uintptr_t a) { tr_access(a, n, true); }
TR(1) TR(2) TR(4) TR(8) TR(16)
VIS void __asan_loadN(uintptr_t a, size_t n) { tr_access(a, n, false); }
VIS void __asan_storeN(uintptr_t a, size_t n) { tr_access(a, n, true); }
VIS void* __asan_memcpy(void* d, const void* s, size_t n) { if (n) { tr_access((uintptr_t)s, n, false); tr_access((uintptr_t)d, n, true); } return memmove(d, s, n); }
VIS void* __asan_memmove(void* d, const void* s, size_t n) { if (n) { tr_access((uintptr_t)s, n, false); tr_access((uintptr_t)d, n, true); } return memmove(d, s, n); }
VIS void* __asan_memset(void* d, int c, size_t n) { if (n) tr_access((uintptr_t)d, n, true); return memset(d, c, n); }
VIS void __asan_init() {} VIS void __asan_version_mismatch_check_v8() {} VIS void __asan_handle_no_return() {}
VIS void __asan_register_globals(void*, size_t) {} VIS void __asan_unregister_globals(void*, size_t) {}
VIS void __asan_register_elf_globals(void*, void*, void*) {} VIS void __asan_unregister_elf_globals(void*, void*, void*) {}
VIS void __asan_before_dynamic_init(const void*) {} VIS void __asan_after_dynamic_init() {}
VIS void __asan_poison_cxx_array_cookie(uintptr_t) {} VIS uintptr_t __asan_load_cxx_array_cookie(uintptr_t* p) { return *p; }
VIS int __asan_option_detect_stack_use_after_return = 0;
VIS uintptr_t __asan_shadow_memory_dynamic_address = 0;
}
static bool is_trace(Lib* l) { return !strncmp(l->name, "trace", 5); }
static bool judged(Lib* l) { return strcmp(l->name, "cov") && !is_trace(l); }

// ------------------------------------------------------------------------------------------ mem: the exact footprint of loads and stores
enum { PG = 4096, AREA = 2 * PG };
static uint8_t *m_rw, *m_ro, *m_rws[2], *m_ros[2], *m_shadow, *m_noise;
static void mem_setup() {
    if (m_rw) return;
    int fd = memfd_create("area", MFD_CLOEXEC); if (fd < 0 || ftruncate(fd, AREA)) _exit(3);
    for (int i = 0; i < 2; i++) {      // two views of the same memory; the boundary between the two pages is a multiple of 2^32 in one, of 2^31 in the other
        uint8_t *a = map_across(2 * PG, AREA + 2 * PG, PROT_NONE, i), *b = map_across(2 * PG, AREA + 2 * PG, PROT_NONE, i);
        m_rws[i] = (uint8_t*)mmap(a + PG, AREA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
        m_ros[i] = (uint8_t*)mmap(b + PG, AREA, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
        if (m_rws[i] == MAP_FAILED || m_ros[i] == MAP_FAILED) _exit(3);
        if (!((uintptr_t)(m_ros[i] + PG) & 0x7fffffff) && !((uintptr_t)(m_rws[i] + PG) & 0x7fffffff)) sh->extra[5]++;
    }
    m_rw = m_rws[0]; m_ro = m_ros[0];
    m_shadow = (uint8_t*)malloc(AREA); m_noise = (uint8_t*)malloc(2 * AREA);
}
struct MemMon : Monitor {
    Rng r{opt.seed * 31 + 7 + opt.shard}; uint64_t k = 0; bool seen[64];
    MemMon() { mem_setup(); catch_faults(false); noise(); }
    void noise() { for (int i = 0; i < 2 * AREA; i += 8) { uint64_t v = r.next(); memcpy(m_noise + i, &v, 8); } memcpy(m_shadow, m_noise, AREA); memcpy(m_rw, m_shadow, AREA); }
    bool one(const CaseV& c, uint8_t (*in)[SLOT], const Fn& f, void* fp, const char* ln, int off, bool trace) {
        const Arg& a = f.arg[f.memarg]; bool wr = a.role == R_WR; int len = a.bytes;
        const uint8_t* p[MAXARG]; ptrs(in, p); alignas(64) uint8_t out[SLOT], ref[SLOT];
        memset(out, 0, sizeof out); memset(ref, 0, sizeof ref);
        if (!wr) { memcpy(m_rw + off, in[f.memarg], len); memcpy(m_shadow + off, in[f.memarg], len); }
        uint8_t* ptr = (wr || trace ? m_rw : m_ro) + off;
        if (trace) { tr.lo = (uintptr_t)m_rw - PG; tr.hi = (uintptr_t)m_rw + AREA + PG; tr.alo = (uintptr_t)ptr; tr.ahi = tr.alo + len; tr.store = wr; tr.bad = 0; }
        if (sigsetjmp(fault_jmp, 1)) {
            tr.on = false; cov_on = false; char what[64] = ""; uintptr_t fa = (uintptr_t)fault_addr;
            uintptr_t area = (uintptr_t)(ptr - off);
            if (fa >= area - PG && fa < area + AREA + PG) snprintf(what, sizeof what, "%ld bytes from the region's start", (long)(fa - (uintptr_t)ptr));
            violation(c, "fault", in, "signal %d accessing memory %s; region of %d bytes at page offset %d, %s, build %s", fault_sig, what[0] ? what : "elsewhere", len, off % PG, wr ? "store" : "load from read-only page", ln);
            memcpy(m_rw, m_shadow, AREA);
            return false;
        }
        fault_armed = 1; tr.on = trace; callx(f, fp, p, out, ptr); tr.on = false; fault_armed = 0;
        sh->extra[4] += trace ? tr.n : 0; tr.n = 0;
        f.model(p, ref);
        if (trace && tr.bad) {
            violation(c, "access", in, "%s of %zu bytes at %ld bytes from the region's start (region %d bytes at page offset %d), build %s", tr.badwrite ? "write" : "read", tr.badsize, (long)(tr.badaddr - (uintptr_t)ptr), len, off % PG, ln);
            memcpy(m_rw, m_shadow, AREA); return false;
        }
        if (wr) memcpy(m_shadow + off, ref, len);
        bool ok = !memcmp(m_rw, m_shadow, AREA);
        if (!ok) {
            int x = 0; while (m_rw[x] == m_shadow[x]) x++;
            // an error in the addressed elements belongs to the value properties; report it only when outside
            int y = 0; for (y = 0; y < AREA; y++) if ((y < off || y >= off + len) && m_rw[y] != m_shadow[y]) break;
            if (y < AREA) violation(c, "footprint", in, "byte at %d from the region's start changed (%02x to %02x); region %d bytes at page offset %d, build %s", y - off, m_shadow[y], m_rw[y], len, off % PG, ln);
            else { violation(c, "value", in, "byte %d of the stored region is %02x, expected %02x; page offset %d, build %s", x - off, m_rw[x], m_shadow[x], off % PG, ln); }
        } else if (!wr && memcmp(out, ref, f.out.bytes)) { ok = false; violation(c, "value", in, "got %s expected %s; region at page offset %d, build %s", hex(out, f.out.bytes).c_str(), hex(ref, f.out.bytes).c_str(), off % PG, ln); }
        memcpy(m_shadow + off, m_noise + off, len); memcpy(m_rw + off, m_noise + off, len);
        if (!ok) { memcpy(m_shadow, m_noise, AREA); memcpy(m_rw, m_shadow, AREA); }
        return ok;
    }
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        const Fn& f = FNS[c.fn]; const Arg& a = f.arg[f.memarg]; int es = a.esz(), len = a.bytes;
        if (++k % 512 == 0) noise();
        m_rw = m_rws[k >> 3 & 1]; m_ro = m_ros[k >> 3 & 1];
        int off;
        switch (k % 8) {
            case 0: case 1: off = AREA - len; sh->extra[0]++; break;
            case 2: off = 0; sh->extra[1]++; break;
            case 3: off = len > es ? PG - es * (1 + (int)r.u(len / es - 1)) : PG - len; sh->extra[2]++; break;
            case 4: off = r.p(1, 2) ? PG - len : PG; sh->extra[2]++; break;
            default: off = es * (int)r.u((AREA - len) / es + 1); sh->extra[3]++; break;
        }
        if (oncov) { cov_on = true; bool ok = one(c, in, f, FPT[c.fn], "cov", off, false); cov_on = false; return ok; }
        for (Lib* l : libs) {
            if (!strcmp(l->name, "cov") || !l->fp[c.fn]) continue;
            if (!one(c, in, f, l->fp[c.fn], l->name, off, is_trace(l))) return false;
        }
        return true;
    }
};
static int work_mem(uint32_t from) { MemMon m; return run_cases(from, m); }

// ------------------------------------------------------------------------------------------ imm: illegal immediates abort, legal ones return
static int errfd = -1; static uint8_t* noaccess;
static void capture_std() {
    if (errfd < 0) { errfd = memfd_create("err", MFD_CLOEXEC); fcntl(errfd, F_SETFL, O_APPEND); }
    dup2(errfd, 2);
}
static off_t errsize() { struct stat s; fstat(errfd, &s); return s.st_size; }
static std::string errtext() { char b[200]; ssize_t n = pread(errfd, b, sizeof b - 1, 0); if (n < 0) n = 0; b[n] = 0; return b; }
static void errreset() { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }

// a client's function takes the same arguments and calls the library through the public header
static inline bool is_client(Lib* l) { return !strncmp(l->name, "cl_", 3); }
static inline void invoke(Lib* l, const Fn& f, void* fp, const uint8_t* const* p, uint8_t* out, void* mem) {
    if (is_client(l)) ((void (*)(const uint8_t* const*, uint8_t*, void*))fp)(p, out, mem); else f.call(fp, p, out, mem);
}
struct LegalMon : Monitor {
    uint64_t k = 0;
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT];
        if (sigsetjmp(fault_jmp, 1)) {
            cov_on = false; int n; memcpy(&n, in[f.immarg], 4);
            violation(c, "legal-abort", in, "legal immediate %d: signal %d, stderr: %s", n, fault_sig, errtext().c_str()); errreset();
            return false;
        }
        for (Lib* l : libs) {
            if (oncov ? strcmp(l->name, "cov") != 0 : !judged(l)) continue;
            if (!l->fp[c.fn]) continue;
            snprintf(sh->curlib, sizeof sh->curlib, "%s", l->name);
            fault_armed = 1;
            if (is_client(l)) { const uint8_t* p[MAXARG]; ptrs(in, p); if (f.memarg >= 0) memcpy(arena + 256, in[f.memarg], f.arg[f.memarg].bytes); invoke(l, f, l->fp[c.fn], p, out, arena + 256); }
            else { if (oncov) cov_on = true; docall(f, l->fp[c.fn], in, out, arena + 256); cov_on = false; }
            fault_armed = 0;
            if (!oncov && &*l == libs[0] && !sh->extra[20]) sh->extra[20] = 1;
        }
        if ((++k & 255) == 0 && errsize()) { int n; memcpy(&n, in[f.immarg], 4); violation(c, "legal-diagnostic", in, "text on standard error during legal calls (immediate near %d): %s", n, errtext().c_str()); errreset(); return false; }
        return true;
    }
};
static bool illegal_once(const CaseV& c, Lib* l, int n, uint8_t (*in)[SLOT], int fill) {
    const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT]; const uint8_t* p[MAXARG]; ptrs(in, p);
    memcpy(in[f.immarg], &n, 4); sh->calls++; sh->stagecalls[6]++;
    off_t before = errsize();
    if (sigsetjmp(fault_jmp, 1)) {
        if (fault_sig != SIGABRT) { violation(c, "illegal-touches", in, "illegal immediate %d: caller memory accessed before the diagnostic (signal %d), build %s", n, fault_sig, l->name); return false; }
        sh->extra[0]++;
        if (errsize() <= before) { violation(c, "illegal-silent", in, "illegal immediate %d: aborted without a diagnostic on standard error, build %s", n, l->name); return false; }
        if (before > (1 << 20)) errreset();
        return true;
    }
    fault_armed = 1;
    try { invoke(l, f, l->fp[c.fn], p, out, noaccess + (fill & 1 ? 2048 : 0)); }
    catch (...) { fault_armed = 0; violation(c, "illegal-throws", in, "illegal immediate %d (legal %d..%d): an exception reached the caller, build %s", n, f.immlo, f.immhi, l->name); return false; }
    fault_armed = 0;
    violation(c, "illegal-returns", in, "illegal immediate %d (legal %d..%d): the call returned, build %s", n, f.immlo, f.immhi, l->name);
    return false;
}
// a real process: it must die of SIGABRT with text on its standard error
enum { PLAINLY, ABRT_IGNORED, ABRT_BLOCKED, ABRT_HANDLED, STDERR_CLOSED, OTHER_THREAD, NWAYS };
static const char* const ways[] = {"", " that ignores SIGABRT", " that blocks SIGABRT", " with a SIGABRT handler that returns", " without standard error", " from a thread of its own"};
static bool illegal_fork(const CaseV& c, Lib* l, int n, uint8_t (*in)[SLOT], int way) {
    const Fn& f = FNS[c.fn]; memcpy(in[f.immarg], &n, 4); errreset(); sh->calls++; sh->extra[1]++;
    pid_t p = fork();
    if (!p) {
        signal(SIGABRT, way == ABRT_IGNORED ? SIG_IGN : way == ABRT_HANDLED ? [](int) {} : SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); alarm(60);
        sigset_t m; sigemptyset(&m); sigaddset(&m, SIGABRT); sigprocmask(way == ABRT_BLOCKED ? SIG_BLOCK : SIG_UNBLOCK, &m, nullptr);
        if (way == STDERR_CLOSED) close(2);
        alignas(64) uint8_t out[SLOT]; const uint8_t* q[MAXARG]; ptrs(in, q);
        auto call = [&]() { try { invoke(l, f, l->fp[c.fn], q, out, noaccess); } catch (abi::__forced_unwind&) { throw; } catch (...) { _exit(3); } };
        if (way == OTHER_THREAD) { std::thread t(call); t.join(); } else call();
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    bool ok = true;
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) { violation(c, WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "illegal-returns" : "illegal-other-end", in, "illegal immediate %d in a fresh process%s, build %s: expected SIGABRT, wait status %x", n, ways[way], l->name, st); ok = false; }
    else if (way != STDERR_CLOSED && !errsize()) { violation(c, "illegal-silent", in, "illegal immediate %d in a fresh process%s: no diagnostic on standard error, build %s", n, ways[way], l->name); ok = false; }
    errreset(); return ok;
}
static int work_imm(uint32_t from) {
    capture_std(); catch_faults(true); noaccess = (uint8_t*)mmap(nullptr, 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    LegalMon m; FPT = libs[0]->fp.data();
    for (uint32_t i = from; i < cases.size(); i++) {
        sh->pos = i; const CaseV& c = cases[i]; const Fn& f = FNS[c.fn]; sh->curfn = c.fn;
        if (missing(c, libs[0])) { report_missing(c); continue; }
        Gen g(opt.seed * 91 + c.key, &c);
        std::vector<int> vals; auto put = [&](int64_t v) { int x = (int)v; if (x < f.immlo || x > f.immhi) vals.push_back(x); };
        long wide = opt.extra;
        bool ok = true;
        for (Lib* l : libs) {
            if (!judged(l) || !l->fp[c.fn]) continue;
            long w = l == libs[0] ? wide : wide / 16;
            vals.clear();
            for (long v = -w; v <= w; v++) put(v);
            for (int b = 1; b < 32; b++) for (int d = -3; d <= f.immhi + 3; d++) { put((1ll << b) + d); put(-(1ll << b) + d); put((int64_t)INT32_MAX - d - 3); put((int64_t)INT32_MIN + d + 3); }
            for (int v = f.immlo; v <= f.immhi; v++) for (int b = 5; b < 32; b++) { put(v + (1ll << b)); put(v - (1ll << b)); put(~v); put(-v); put(v * 2); put(v * 8); put((int64_t)v << b); }
            for (auto v : g_fdict[c.fn].v) { put(v); put(v + 1); put(v - 1); put(-(int64_t)v); }
            for (auto v : g_dict.v) put(v);
            for (long q = 0; q < w; q++) put(g.r.next());
            for (size_t q = 0; q < vals.size() && ok; q++) {
                if (q % 8 == 0) memset(sh->in, 0, sizeof sh->in); else if (q % 8 == 1) memset(sh->in, 0xff, sizeof sh->in); else g.fill(sh->in);
                ok = illegal_once(c, l, vals[q], sh->in, (int)q);
            }
            int nf = l == libs[0] ? 40 : 10;
            for (int q = 0; q < nf && ok; q++) { int n = q < NWAYS ? (q & 1 ? f.immhi + 1 : f.immlo - 1) : q == NWAYS ? f.immlo - 1 : q == NWAYS + 1 ? f.immhi + 1 : q == NWAYS + 2 ? INT32_MAX : q == NWAYS + 3 ? INT32_MIN : vals[g.r.u(vals.size())]; g.fill(sh->in); ok = illegal_fork(c, l, n, sh->in, q % NWAYS); }
            sh->extra[2] += vals.size();
            if (!ok) break;
        }
        errreset();
        if (ok) { explore(c, m); if (errsize()) { violation(c, "legal-diagnostic", sh->in, "text on standard error during legal calls: %s", errtext().c_str()); errreset(); } }
        if (i % 8 == 0) sample(c, sh->in);
    }
    return 0;
}

// ------------------------------------------------------------------------------------------ hist: the result of a call depends on its arguments only
#ifdef NS_TSAN
enum { POOL = 96, PLAIN = 32 };
#else
enum { POOL = 40, PLAIN = 24 };
#endif
struct Pool { uint8_t in[POOL][MAXARG][SLOT]; uint8_t out[POOL][SLOT]; bool have; };
static Pool* pools;                                      // shared with the children that compute the baselines
static void make_pool(int fi, uint64_t seed) {
    const CaseV& c = allfn[fi]; Pool& P = pools[fi]; Gen g(seed + c.key, &c);
    for (int k = 0; k < POOL; k++) {
        if (k % 4 == 0 || k < 2 || k >= PLAIN) g.fill(P.in[k]);
        else { memcpy(P.in[k], P.in[k - 1], sizeof P.in[k]); g.mutate(P.in[k], nullptr, 0); if (c.immarg >= 0 && k % 4 == 3) g.setimm(P.in[k]); }   // shares most arguments with its neighbour
    }
}
// the rest of the pool: inputs that reach code the others may not, found with the coverage build in a process of its own
struct QuietMon : Monitor { bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override { alignas(64) uint8_t o[SLOT]; cov_on = oncov; docall(FNS[c.fn], FPT[c.fn], in, o, arena + 256); cov_on = false; return true; } };
static void enrich(int fi) {
    Lib* cv = lib("cov"); if (!cv || !cv->fp[fi]) return;
    pid_t p = fork();
    if (!p) {
        QuietMon m; std::vector<In> corpus; bool alive = true; opt.n_guided = opt.thorough ? 20000 : 3000; opt.sseed += opt.shard * 7919 + 5;
        guided(allfn[fi], m, corpus, alive);
        int k = PLAIN; for (auto* v : {&edge_inputs, &corpus}) for (size_t i = 0; i < v->size() && k < POOL; i++) memcpy(pools[fi].in[k++], (*v)[v->size() - 1 - i].b, sizeof pools[fi].in[0]);
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
}
// every baseline comes from a process in which no other intrinsic was ever called
static bool baselines(Lib* l, int fi) {
    const Fn& f = FNS[fi];
    for (int k = 0; k < POOL; k++) {
#ifdef NS_TSAN
        { const uint8_t* p[MAXARG]; ptrs(pools[fi].in[k], p); f.model(p, pools[fi].out[k]); continue; }      // so that the first calls of the process are concurrent ones
#endif
        pid_t p = fork();
        if (!p) { docall(f, l->fp[fi], pools[fi].in[k], pools[fi].out[k], arena + 256); _exit(0); }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st)) return false;
    }
    return pools[fi].have = true;
}
static void pools_setup(bool fresh, Lib* l) {
    pools = (Pool*)mmap(nullptr, sizeof(Pool) * NFN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < NFN; i++) { if (!l->fp[i]) continue; make_pool(i, opt.seed * 5 + opt.shard); enrich(i); if (fresh) baselines(l, i); }
}
static std::mutex vmx; static std::atomic<int> vcount;
// a call that is never finished: a signal handler (here a coverage callback) leaves it with siglongjmp
static sigjmp_buf aband_jmp; static Rng* aband_rng; static uint64_t aband_n;
static void aband_hook(uint32_t) { if (!aband_rng->p(1, 6)) return; aband_n++; cov_in_hook = false; siglongjmp(aband_jmp, 1); }
static __attribute__((noinline)) void abandon(const Fn& f, int fi, void* fp, int k, uint8_t* o) { if (!sigsetjmp(aband_jmp, 0)) { cov_hook = aband_hook; docall(f, fp, pools[fi].in[k], o, arena + 256); } cov_hook = nullptr; }
static bool hist_check(int fi, int k, const uint8_t* out, const char* ctxt, int fp) {
    const Fn& f = FNS[fi];
    if (same_bits(out, pools[fi].out[k], f.out.bytes, fp)) return true;
    std::lock_guard<std::mutex> g(vmx);
    if (vcount++ < 40) violation(allfn[fi], "history", pools[fi].in[k], "%s: got %s, a fresh process gives %s", ctxt, hex(out, f.out.bytes).c_str(), hex(pools[fi].out[k], f.out.bytes).c_str());
    return false;
}
static Rng* nest_rng; static std::vector<int> nest_fns; static int nest_outer; static uint64_t nest_n; static void** nest_fp; static bool nest_bad;
enum { NEST = 12 };
static int nest_depth, nest_max, nest_left;                // how deep calls may interrupt each other, and how many calls may be made inside the outermost one
static void nest_hook(uint32_t) {
    if (nest_depth >= nest_max || nest_left <= 0 || !nest_rng->p(1, nest_depth ? 4 : 6)) return;
    int fi = nest_rng->p(2, 3) ? nest_outer : nest_fns[nest_rng->u(nest_fns.size())]; int k = nest_rng->u(POOL); alignas(64) uint8_t o[SLOT];
    nest_depth++; nest_left--; cov_in_hook = nest_depth >= nest_max;
    docall(FNS[fi], nest_fp[fi], pools[fi].in[k], o, arena + 256 + nest_depth * 1024); nest_n++;
    nest_depth--; cov_in_hook = true;
    if (!hist_check(fi, k, o, "call made while another call was interrupted halfway", FNS[fi].fp)) nest_bad = true;
}
static int work_hist(uint32_t from) {
    Lib* b = libs[0]; Lib* cv = lib("cov"); pools_setup(true, b);
    std::vector<int> fns; for (int i = 0; i < NFN; i++) if (pools[i].have) fns.push_back(i);
    if (fns.empty()) return 1;
    alignas(64) uint8_t o[SLOT]; Rng r(opt.seed * 131 + opt.shard);
    auto call = [&](int fi, int k, const char* w) { sh->calls++; sh->curfn = fi; uint8_t* m = arena + 256 + (r.p(1, 4) ? FNS[fi].memarg >= 0 ? FNS[fi].arg[FNS[fi].memarg].esz() * r.u(200) : 0 : 0); docall(FNS[fi], b->fp[fi], pools[fi].in[k], o, m); return hist_check(fi, k, o, w, 0); };
    long tight = opt.n_random, hist = opt.n_guided;
    // 1. long runs of one function
    for (uint32_t i = from; i < cases.size(); i++) {
        sh->pos = i; int fi = cases[i].fn; if (missing(cases[i], b)) { report_missing(cases[i]); continue; } if (!pools[fi].have) continue;
        sh->curfn = fi; const Fn& f = FNS[fi]; bool ok = true;
        for (long q = 0; q < tight && ok; q += POOL) { memcpy(sh->in, pools[fi].in[0], sizeof sh->in);
            for (int k = 0; k < POOL; k++) { docall(f, b->fp[fi], pools[fi].in[k], o, arena + 256); if (!hist_check(fi, k, o, "long run of the same function", 0)) { ok = false; break; } }
            sh->calls += POOL; sh->stagecalls[1] += POOL; }
        sh->distinct += POOL;
        // 2. its calls interleaved with each other function
        for (size_t j = 0; j < fns.size() && ok; j++) { int g = fns[j]; for (int t = 0; t < 6 && ok; t++) { call(g, r.u(POOL), "after another function"); ok = call(fi, r.u(POOL), "after a call to another function"); if (r.p(1, 3)) call(g, r.u(POOL), "after another function"); } sh->stagecalls[2] += 12; }
        // 3. interrupted halfway by calls of itself and of others
        if (cv && cv->fp[fi]) {
            Rng nr(opt.seed + fi); nest_rng = &nr; nest_fns = fns; nest_outer = fi; nest_fp = cv->fp.data(); nest_bad = false; cov_hook = nest_hook;
            for (int t = 0; t < opt.extra && !nest_bad; t++) { int k = r.u(POOL); nest_max = t % 3 ? 1 : 2 + nr.u(NEST - 1); nest_left = t % 3 ? 1000000 : 40; docall(f, cv->fp[fi], pools[fi].in[k], o, arena + 256); sh->calls++; if (!hist_check(fi, k, o, "interrupted halfway by other calls", f.fp)) break; }
            cov_hook = nullptr; sh->calls += nest_n; sh->stagecalls[3] += nest_n; sh->extra[0] += nest_n; nest_n = 0;
            docall(f, cv->fp[fi], pools[fi].in[0], o, arena + 256); aband_rng = &nr; aband_n = 0;
            for (int t = 0; t < opt.extra && !nest_bad; t++) { abandon(f, fi, cv->fp[fi], (int)nr.u(POOL), o); int k = nr.u(POOL); docall(f, cv->fp[fi], pools[fi].in[k], o, arena + 256); sh->calls++; if (!hist_check(fi, k, o, "after calls that were left halfway and never finished (siglongjmp out of a signal handler)", f.fp)) break; }
            sh->stagecalls[6] += aband_n; sh->extra[2] += aband_n;
        }
        if (i % 16 == 0) sample(cases[i], pools[fi].in[3]);
    }
    sh->pos = cases.size() ? cases.size() - 1 : 0;
    // 4. random histories over all functions, and bursts over a few
    for (long q = 0; q < hist && vcount < 40; q++) { call(fns[r.u(fns.size())], r.u(POOL), "random history over all functions"); sh->stagecalls[4]++; }
    for (long q = 0; q < hist / 512 && vcount < 40; q++) { int few[6]; for (int& x : few) x = fns[r.u(fns.size())]; for (int t = 0; t < 512; t++) call(few[r.u(6)], r.u(POOL), "burst over six functions"); sh->stagecalls[5] += 512; }
    sh->extra[1] += fns.size();
    return 0;
}

// ------------------------------------------------------------------------------------------ threads
static std::atomic<uint32_t> bar_n, bar_gen; static int nthr = 8;
static void barrier() { uint32_t g = bar_gen; if (++bar_n == (uint32_t)nthr) { bar_n = 0; bar_gen++; } else { int spins = 0; while (bar_gen == g) { if (++spins > 2000) sched_yield(); } } }
static __thread uint64_t yl_state; static std::atomic<uint64_t> yields;
static void yield_hook(uint32_t) { yl_state = yl_state * 6364136223846793005ull + 1442695040888963407ull; uint32_t x = (uint32_t)(yl_state >> 33); if ((x & 15) == 0) { sched_yield(); } else if ((x & 15) == 1) { for (volatile int i = 0; i < (int)((x >> 4) & 255); i++) {} } }
static uint8_t* sharedbuf;
#ifdef NS_TSAN
static std::atomic<int> tsan_reports;
extern "C" VIS void __tsan_on_report(void*) { tsan_reports++; }
#endif
struct ThreadPlan { Lib* l; const std::vector<int>* fns, *idx; long per; long mixed; bool hook; };
static std::atomic<int> cur_burst; static std::atomic<bool> skip_fn;
static void thread_body(int t, ThreadPlan pl, uint64_t* calls) {
    yl_state = opt.seed * 977 + t * 131 + opt.shard; uint64_t n = 0; alignas(64) uint8_t o[SLOT]; Rng r(opt.seed * 17 + t + opt.shard * 100);
    for (size_t i = 0; i < pl.fns->size(); i++) {
        int fi = (*pl.fns)[i]; const Fn& f = FNS[fi];
        if (t == 0) { cur_burst = fi; skip_fn = false; sh->curfn = fi; sh->pos = (*pl.idx)[i]; }
        barrier();
        int len = f.memarg >= 0 ? f.arg[f.memarg].bytes : 0;
        for (long q = 0; q < pl.per && !skip_fn; q++) {
            int k = r.u(POOL);
            docall(f, pl.l->fp[fi], pools[fi].in[k], o, len ? sharedbuf + 256 + t * len : sharedbuf);   // neighbouring threads own neighbouring regions
            n++;
            if (!hist_check(fi, k, o, "eight threads calling the same function", f.fp)) skip_fn = true;
            if (len && f.arg[f.memarg].role == R_WR && (q & 3) == 0) { if (memcmp(sharedbuf + 256 + t * len, pools[fi].out[k], len)) { hist_check(fi, k, sharedbuf + 256 + t * len, "another thread's store disturbed the adjacent region", f.fp); skip_fn = true; } }
        }
        barrier();
#ifdef NS_TSAN
        if (t == 0 && tsan_reports) { std::lock_guard<std::mutex> g(vmx); violation(allfn[fi], "race", nullptr, "ThreadSanitizer reported %d data race(s) while eight threads called this function", (int)tsan_reports); tsan_reports = 0; }
#endif
    }
    uint8_t* mine = sharedbuf + 8192 + t * 256;
    for (long q = 0; q < pl.mixed && vcount < 40; q++) { int fi = (*pl.fns)[r.u(pl.fns->size())]; int k = r.u(POOL); docall(FNS[fi], pl.l->fp[fi], pools[fi].in[k], o, mine); n++; hist_check(fi, k, o, "eight threads calling different functions", FNS[fi].fp); }
    barrier();
#ifdef NS_TSAN
    if (t == 0 && tsan_reports) { std::lock_guard<std::mutex> g(vmx); violation(allfn[0], "race", nullptr, "ThreadSanitizer reported %d data race(s) while eight threads called different functions", (int)tsan_reports); tsan_reports = 0; }
#endif
    *calls = n;
}
static void run_threads(ThreadPlan pl, int stage) {
    std::vector<std::thread> th; uint64_t calls[64] = {0}; bar_n = 0;
    for (int t = 0; t < nthr; t++) th.emplace_back(thread_body, t, pl, &calls[t]);
    for (auto& x : th) x.join();
    for (int t = 0; t < nthr; t++) { sh->calls += calls[t]; sh->stagecalls[stage] += calls[t]; }
}
#ifndef NS_TSAN
// the first calls of a process made by all threads at once
static void first_calls(Lib* l, int fi, int rep) {
    const Fn& f = FNS[fi]; sh->curfn = fi; sharedbuf = sharedbuf ? sharedbuf : (uint8_t*)mmap(nullptr, 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p) {
        static std::atomic<int> ready; static std::atomic<bool> go; std::vector<std::thread> th; ready = 0; go = false; int len = f.memarg >= 0 ? f.arg[f.memarg].bytes : 0;
        for (int t = 0; t < nthr; t++) th.emplace_back([=] {
            alignas(64) uint8_t o[SLOT]; yl_state = opt.seed * 31 + t * 7 + rep; Rng r(opt.seed * 1001 + t * 17 + rep); ready++; while (!go) {}
            for (int q = 0; q < 2 * POOL; q++) { int k = r.u(POOL); docall(f, l->fp[fi], pools[fi].in[k], o, sharedbuf + 256 + t * len); if (!hist_check(fi, k, o, "first calls of the process, made by eight threads at once", f.fp)) break; }
        });
        while (ready < nthr) {}
        go = true; for (auto& x : th) x.join();
        _exit(vcount ? 9 : 0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    sh->calls += nthr * 2 * POOL; sh->stagecalls[6] += nthr * 2 * POOL;
    if (WIFSIGNALED(st)) { violation(allfn[fi], "crash", nullptr, "signal %d in first calls of the process made by eight threads at once", WTERMSIG(st)); vcount++; }
    else if (WEXITSTATUS(st) == 9) vcount++;
}
// a child process forked while other threads are inside calls: the copy of the process holds whatever they held, and nobody to release it
static void fork_calls(Lib* l, int fi, int rounds) {
    const Fn& f = FNS[fi]; sh->curfn = fi; sharedbuf = sharedbuf ? sharedbuf : (uint8_t*)mmap(nullptr, 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p) {
        static std::atomic<bool> stop; static std::atomic<int> ready; std::vector<std::thread> th; stop = false; ready = 0; alignas(64) uint8_t o[SLOT]; int len = f.memarg >= 0 ? f.arg[f.memarg].bytes : 0, rc = 0; Rng r(opt.seed * 77 + fi);
        docall(f, l->fp[fi], pools[fi].in[0], o, sharedbuf);
        for (int t = 0; t < 2; t++) th.emplace_back([=] { alignas(64) uint8_t o[SLOT]; yl_state = opt.seed * 31 + t * 7; ready++; for (int k = 0; !stop; k++) docall(f, l->fp[fi], pools[fi].in[k % POOL], o, sharedbuf + 256 + t * len); });
        while (ready < 2) sched_yield();
        for (int q = 0; q < rounds && !rc; q++) {
            usleep(r.u(300)); int k = r.u(POOL); pid_t c = fork(); if (c < 0) break;
            if (!c) { cov_hook = nullptr; signal(SIGALRM, SIG_DFL); alarm(30); docall(f, l->fp[fi], pools[fi].in[k], o, sharedbuf); _exit(same_bits(o, pools[fi].out[k], f.out.bytes, f.fp) ? 0 : 9); }
            int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
            if (WIFSIGNALED(st)) rc = WTERMSIG(st) == SIGALRM ? 8 : 7; else rc = WEXITSTATUS(st);
        }
        stop = true; for (auto& x : th) x.join();
        _exit(rc);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    sh->calls += rounds; sh->stagecalls[7] += rounds; sh->extra[3] += rounds;
    if (st) { violation(allfn[fi], "fork", nullptr, "in a child process forked while two threads were inside calls of this function, a call %s", WIFSIGNALED(st) ? "crashes" : WEXITSTATUS(st) == 8 ? "does not return" : WEXITSTATUS(st) == 7 ? "crashes" : "gives another result"); vcount++; }
}
#endif
static int work_threads(uint32_t from) {
#ifndef NS_TSAN
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 10); pthread_setattr_default_np(&at);      // threads of real programs often have small stacks
#endif
    Lib* b = libs[0]; Lib* cv = lib("cov"); pools_setup(true, b);
#ifndef NS_TSAN
    for (uint32_t i = from; i < cases.size() && vcount == 0; i++) { sh->pos = i; int fi = cases[i].fn; if (!pools[fi].have) continue; for (int rep = 0; rep < (opt.thorough ? 40 : 3) && vcount == 0; rep++) { first_calls(b, fi, rep); if (cv && cv->fp[fi]) { cov_hook = yield_hook; first_calls(cv, fi, rep + 100); cov_hook = nullptr; } sh->extra[2] += 2; } if (cv && cv->fp[fi] && vcount == 0) { cov_hook = yield_hook; fork_calls(cv, fi, opt.thorough ? 100 : 8); cov_hook = nullptr; } }
#endif
    sharedbuf = (uint8_t*)mmap(nullptr, 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    std::vector<int> fns, idx; for (uint32_t i = from; i < cases.size(); i++) { if (missing(cases[i], b)) report_missing(cases[i]); else if (pools[cases[i].fn].have) fns.push_back(cases[i].fn), idx.push_back(i); }
    sh->distinct += fns.size() * POOL;
    if (fns.empty()) return 0;
    run_threads({b, &fns, &idx, opt.n_random, opt.n_random * 20, false}, 1);
#ifndef NS_TSAN
    if (cv && vcount == 0) {
        std::vector<int> f2, i2; for (size_t q = 0; q < fns.size(); q++) if (cv->fp[fns[q]]) f2.push_back(fns[q]), i2.push_back(idx[q]);
        cov_hook = yield_hook; run_threads({cv, &f2, &i2, opt.n_guided, opt.n_guided * 20, true}, 2); cov_hook = nullptr;
    }
#endif
    sh->extra[0] += fns.size();
    return 0;
}

#ifndef NS_TSAN
// ------------------------------------------------------------------------------------------ effects
static __thread bool in_call; static struct { long live, bytes, maps, calls; } al;
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
VIS void* malloc(size_t n) { void* p = __libc_malloc(n); if (malloc_fill && p) { static unsigned char x; memset(p, x += 0x35, n); } if (in_call && p) { al.live++; al.calls++; } return p; }
VIS void free(void* p) { if (in_call && p) al.live--; __libc_free(p); }
VIS void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (in_call && p) { al.live++; al.calls++; } return p; }
VIS void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (in_call) { al.calls++; if (!q && p) al.live++; else if (q && !n) al.live--; } return p; }
VIS void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (in_call && p) al.live++; return p; }
VIS void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
VIS int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
VIS void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { void* p = (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o); if (in_call && p != MAP_FAILED) al.maps++; return p; }
VIS int munmap(void* a, size_t n) { if (in_call) al.maps--; return (int)syscall(SYS_munmap, a, n); }
}
// what a call must not ask of the system; counted, then carried out
static char acted[128]; static inline void act(const char* what, const char* arg) { if (in_call && !acted[0]) snprintf(acted, sizeof acted, "%s(%.80s)", what, arg ? arg : ""); }
template <class F> static F real(const char* n) { F f; void* p = dlsym(RTLD_NEXT, n); memcpy(&f, &p, sizeof f); return f; }
#define REAL(n, ...) static __typeof__(&n) f; if (!f) f = real<__typeof__(&n)>(#n); return f(__VA_ARGS__)
static inline bool wmode(const char* m) { return m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')); }
extern "C" {
VIS FILE* fopen(const char* n, const char* m) { if (wmode(m)) act("fopen for writing", n); REAL(fopen, n, m); }
VIS FILE* fopen64(const char* n, const char* m) { if (wmode(m)) act("fopen for writing", n); REAL(fopen64, n, m); }
VIS int open(const char* n, int fl, ...) { va_list ap; va_start(ap, fl); int md = (fl & (O_CREAT | 020000000)) ? va_arg(ap, int) : 0; va_end(ap); if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))) act("open for writing", n); return (int)syscall(SYS_openat, AT_FDCWD, n, fl, md); }
VIS int open64(const char* n, int fl, ...) { va_list ap; va_start(ap, fl); int md = (fl & (O_CREAT | 020000000)) ? va_arg(ap, int) : 0; va_end(ap); if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))) act("open for writing", n); return (int)syscall(SYS_openat, AT_FDCWD, n, fl, md); }
VIS int creat(const char* n, mode_t m) { act("creat", n); REAL(creat, n, m); }
VIS int unlink(const char* n) __THROW { act("unlink", n); REAL(unlink, n); }
VIS int remove(const char* n) __THROW { act("remove", n); REAL(remove, n); }
VIS int rename(const char* a, const char* b) __THROW { act("rename", a); REAL(rename, a, b); }
VIS int system(const char* n) { act("system", n); REAL(system, n); }
VIS FILE* popen(const char* n, const char* m) { act("popen", n); REAL(popen, n, m); }
VIS pid_t fork() __THROW { act("fork", ""); REAL(fork); }
VIS int kill(pid_t p, int s) __THROW { act("kill", ""); REAL(kill, p, s); }
VIS int socket(int a, int b, int c) __THROW { act("socket", ""); REAL(socket, a, b, c); }
VIS unsigned sleep(unsigned n) { act("sleep", ""); REAL(sleep, n); }
VIS int usleep(useconds_t n) { act("usleep", ""); REAL(usleep, n); }
VIS int nanosleep(const struct timespec* a, struct timespec* b) { act("nanosleep", ""); REAL(nanosleep, a, b); }
VIS int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*g)(void*), void* x) __THROWNL { act("pthread_create", ""); REAL(pthread_create, t, a, g, x); }
VIS void openlog(const char* n, int o, int fa) { act("openlog", n); REAL(openlog, n, o, fa); }
VIS void syslog(int pr, const char* m, ...) { act("syslog", m); }
int __cxa_atexit(void (*)(void*), void*, void*) throw();
VIS int __cxa_atexit(void (*g)(void*), void* a, void* d) throw() { if (in_call) al.live++; REAL(__cxa_atexit, g, a, d); }
}
static inline uint32_t get_mxcsr() { uint32_t v; __asm__ volatile("stmxcsr %0" : "=m"(v)); return v; }
static inline void set_mxcsr(uint32_t v) { __asm__ volatile("ldmxcsr %0" : : "m"(v)); }
static inline uint16_t get_x87() { uint16_t v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
static inline void set_x87(uint16_t v) { __asm__ volatile("fldcw %0" : : "m"(v)); }
static int outcap = -1;
struct ProcState {
    std::vector<unsigned char> sig; uint64_t mask; std::string cwd, loc; uint64_t env; int fd; int tasks; mode_t um; struct itimerval it[3]; int files; rlim_t rl[RLIM_NLIMITS]; int nice_, policy, kids; cpu_set_t cpus; char name[16]; long pr[8]; stack_t alt; std::terminate_handler term; std::new_handler nh; long ios[9]; pid_t sid, pgrp; std::string status; pthread_key_t key;
    static int ntasks() { int n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return -1; while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
    static int nfiles() { int n = 0; DIR* d = opendir("."); if (!d) return -1; while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
    void take() {
        sig.clear(); for (int s = 1; s < 65; s++) { struct sigaction sa; memset(&sa, 0, sizeof sa); if (sigaction(s, nullptr, &sa)) continue; const unsigned char* p = (unsigned char*)&sa.sa_handler; sig.insert(sig.end(), p, p + sizeof sa.sa_handler); sig.push_back((unsigned char)sa.sa_flags); }
        sigset_t sm; sigemptyset(&sm); sigprocmask(SIG_SETMASK, nullptr, &sm); mask = 0; for (int s = 1; s < 64; s++) mask |= (uint64_t)(sigismember(&sm, s) == 1) << s;
        char b[4096]; cwd = getcwd(b, sizeof b) ? b : ""; const char* l = setlocale(LC_ALL, nullptr); loc = l ? l : "";
        env = 7; for (char** e = environ; e && *e; e++) env = env * 31 + hstr(*e);
        fd = dup(0); if (fd >= 0) close(fd); if (!pthread_key_create(&key, nullptr)) pthread_key_delete(key); else key = ~0u; tasks = ntasks(); um = umask(0); umask(um); files = nfiles();
        for (int i = 0; i < 3; i++) { getitimer((__itimer_which_t)i, &it[i]); it[i].it_value.tv_usec = it[i].it_value.tv_usec != 0; }
        for (int i = 0; i < RLIM_NLIMITS; i++) { struct rlimit q = {0, 0}; getrlimit((__rlimit_resource_t)i, &q); rl[i] = q.rlim_cur; }
        errno = 0; nice_ = getpriority(PRIO_PROCESS, 0); policy = sched_getscheduler(0); CPU_ZERO(&cpus); sched_getaffinity(0, sizeof cpus, &cpus);
        memset(name, 0, sizeof name); prctl(PR_GET_NAME, name);
        memset(pr, 0, sizeof pr); pr[0] = prctl(PR_GET_DUMPABLE, 0, 0, 0, 0); int v = 0; prctl(PR_GET_PDEATHSIG, &v); pr[1] = v; pr[2] = prctl(PR_GET_NO_NEW_PRIVS, 0, 0, 0, 0); pr[3] = prctl(PR_GET_KEEPCAPS, 0, 0, 0, 0); pr[4] = prctl(PR_GET_TIMERSLACK, 0, 0, 0, 0); v = 0; prctl(PR_GET_TSC, &v); pr[5] = v; pr[6] = prctl(PR_GET_CHILD_SUBREAPER, &v, 0, 0, 0) == 0 ? v : -1; pr[7] = prctl(PR_GET_THP_DISABLE, 0, 0, 0, 0);
        memset(&alt, 0, sizeof alt); sigaltstack(nullptr, &alt); term = std::get_terminate(); nh = std::get_new_handler();
        long* o = ios; for (std::ios* q : {(std::ios*)&std::cout, (std::ios*)&std::cerr, (std::ios*)&std::clog}) { *o++ = (long)q->flags(); *o++ = (long)q->precision(); *o++ = (long)q->fill() << 8 | q->rdstate(); }
        ios[0] ^= (long)std::cin.tie() ^ (long)std::cerr.tie() << 1 ^ (long)std::cout.rdbuf(); ios[1] += std::ios::sync_with_stdio(true) ? 1000 : 0; ios[2] += (long)__flbf(stdout) * 1000 + (long)__flbf(stderr) * 2000 + (long)(__fbufsize(stdout) > 0) * 4000;
        siginfo_t si; memset(&si, 0, sizeof si); kids = waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 || errno != ECHILD; sid = getsid(0); pgrp = getpgrp();
        status = std::locale().name(); if (FILE* f = fopen("/proc/self/status", "re")) { char ln[512]; while (fgets(ln, sizeof ln, f)) for (const char* k : {"VmLck", "VmPin", "Cap", "Uid", "Gid", "Groups", "Seccomp:", "TracerPid", "Mems_allowed_list"}) if (!strncmp(ln, k, strlen(k))) status += ln; fclose(f); }
        if (FILE* f = fopen("/proc/self/maps", "re")) { char ln[4500]; int wx = 0; while (fgets(ln, sizeof ln, f)) { const char* q = strchr(ln, ' '); if (q && q[2] == 'w' && q[3] == 'x') wx++; if (q && q[3] == 'x' && strstr(ln, "[stack]")) wx += 1000; } fclose(f); status += std::to_string(wx); }
        errno = 0;
    }
    const char* diff(const ProcState& o) const {
        if (sig != o.sig) return "a signal disposition"; if (mask != o.mask) return "the signal mask"; if (cwd != o.cwd) return "the working directory"; if (loc != o.loc) return "the locale";
        if (env != o.env) return "the environment"; if (fd != o.fd) return "the open file descriptors"; if (tasks != o.tasks) return "the number of threads"; if (um != o.um) return "the umask"; if (files != o.files) return "the files in the working directory";
        for (int i = 0; i < 3; i++) if (!!it[i].it_value.tv_sec != !!o.it[i].it_value.tv_sec || it[i].it_value.tv_usec != o.it[i].it_value.tv_usec) return "an interval timer";
        if (memcmp(rl, o.rl, sizeof rl)) return "a resource limit"; if (nice_ != o.nice_ || policy != o.policy) return "the scheduling priority"; if (!CPU_EQUAL(&cpus, &o.cpus)) return "the processors the thread may run on";
        if (memcmp(name, o.name, sizeof name)) return "the thread's name"; if (memcmp(pr, o.pr, sizeof pr)) return "a process control setting (prctl)"; if (alt.ss_sp != o.alt.ss_sp || alt.ss_flags != o.alt.ss_flags) return "the alternate signal stack";
        if (term != o.term || nh != o.nh) return "the terminate or new handler"; if (memcmp(ios, o.ios, sizeof ios)) return "formatting or state of a standard stream"; if (kids != o.kids) return "the child processes"; if (key != o.key) return "the thread-specific keys in use"; if (sid != o.sid || pgrp != o.pgrp) return "the session or process group";
        if (status != o.status) return "the global C++ locale, locked or writable-and-executable memory, or credentials"; return nullptr;
    }
};
// hidden state of the C library that a program may be relying on between two calls
static char tokbuf[8];
static void seed_all() { srand(12345); srand48(777); strcpy(tokbuf, "a b c"); strtok(tokbuf, " "); }
static uint64_t draw_all() { const char* t = strtok(nullptr, " "); return (uint64_t)rand() * 1000003 + (uint64_t)random() * 31 + (uint64_t)lrand48() * 7 + (t ? (unsigned char)*t : 999); }
static ProcState* before_load; static const char* load_diff;
static char load_dir[64];
// The end of the process is the program's: handlers and destructors the library left behind may not act on it. This handler is registered
// before the library is loaded, so it runs after everything the library registered; then the library is unloaded as well.
static bool exit_armed; static ProcState* exit_base;
static void exit_probe() {
    if (!exit_armed) return;
    for (int k = 0; k < 2; k++) {
        ProcState n; n.take(); const char* d = exit_base->diff(n); struct stat s; fflush(stdout); if (!d && (fstat(outcap, &s) || s.st_size)) d = "text on standard output"; if (!d && errsize()) d = "text on standard error";
        if (!d && (printf("?") != 1 || fflush(stdout) || fstat(outcap, &s) || s.st_size != 1)) d = "standard output (it can no longer be written)";
        if (!d && ftruncate(outcap, 0)) d = "standard output";
        if (d) _exit(43);
        if (!k) for (Lib* l : libs) dlclose(l->h);
    }
    _exit(42);
}
static int exit_child(uint32_t lo, uint32_t hi) {
    fflush(stdout); pid_t p = fork();
    if (!p) {
        for (uint32_t i = lo; i < hi; i++) {
            const CaseV& c = cases[i]; Gen g(opt.seed * 17 + c.key, &c);
            for (Lib* l : libs) if (strcmp(l->name, "cov") && l->fp[c.fn]) for (int k = 0; k < 20; k++) { g.fill(sh->in); alignas(64) uint8_t out[SLOT]; docall(FNS[c.fn], l->fp[c.fn], sh->in, out, arena + 256); }
        }
        printf("?"); fflush(stdout); if (ftruncate(outcap, 0)) {}      // so that the stream has its buffer
        exit_base = new ProcState; exit_base->take(); exit_armed = true; in_call = false; exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    errreset(); if (ftruncate(outcap, 0)) {}
    sh->extra[3]++; return st;
}
static void exit_test() {
    uint32_t n = cases.size(); int st = exit_child(0, n), bad = -1; auto good = [](int s) { return WIFEXITED(s) && WEXITSTATUS(s) == 42; };
    if (good(st)) return;
    for (uint32_t i = 0; i < n && bad < 0; i++) { int s = exit_child(i, i + 1); if (!good(s)) { bad = i; st = s; } }
    char what[80]; if (!WIFEXITED(st)) snprintf(what, sizeof what, "signal %d", WTERMSIG(st)); else if (WEXITSTATUS(st) == 43) snprintf(what, sizeof what, "the state of the process changed, or text was written"); else snprintf(what, sizeof what, "exit status %d", WEXITSTATUS(st));
    CaseV c = cases[bad < 0 ? 0 : bad]; violation(c, "process-end", nullptr, "after legal calls the normal end of the process does not go as the program means it to: %s%s", what, bad < 0 ? " (after calls of several functions)" : "");
}
void effects_before_load() { atexit(exit_probe); snprintf(load_dir, sizeof load_dir, "load.%d.%d", opt.shard, (int)getpid()); if (mkdir(load_dir, 0755) || chdir(load_dir)) _exit(3); before_load = new ProcState; before_load->take(); }
void effects_after_load() { ProcState n; n.take(); load_diff = n.diff(*before_load); delete before_load; if (chdir("..")) {} rmdir(load_dir); }
// What the process could tell a library about itself: clocks, random numbers, environment variables. During these calls they say something else every time.
static __thread bool hostile; static uint64_t hostile_n, hostile_asked;
static inline bool lie() { if (!hostile) return false; hostile_n++; __atomic_fetch_add(&hostile_asked, 1, __ATOMIC_RELAXED); return true; }
static const char* const lies[4] = {"1", "0", "", nullptr};
extern "C" {
VIS char* getenv(const char* n) __THROW { if (lie()) return (char*)lies[(hostile_n + opt.shard) & 3]; REAL(getenv, n); }
VIS char* secure_getenv(const char* n) __THROW { if (lie()) return (char*)lies[(hostile_n + opt.shard) & 3]; REAL(secure_getenv, n); }
VIS time_t time(time_t* t) __THROW { if (lie()) { time_t v = (time_t)(hostile_n * 0x9e3779b97f4a7c15ull >> (hostile_n & 1 ? 34 : 20)); if (t) *t = v; return v; } REAL(time, t); }
VIS int clock_gettime(clockid_t c, struct timespec* t) __THROW { if (lie()) { t->tv_sec = (time_t)(hostile_n * 0x9e3779b97f4a7c15ull >> 33); t->tv_nsec = (long)(hostile_n * 7777777 % 1000000000); return 0; } REAL(clock_gettime, c, t); }
VIS clock_t clock() __THROW { if (lie()) return (clock_t)(hostile_n * 0x9e3779b97f4a7c15ull >> 20); REAL(clock); }
VIS int rand() __THROW { if (lie()) return (int)(hostile_n * 0x9e3779b97f4a7c15ull >> 33); REAL(rand); }
VIS long random() __THROW { if (lie()) return (long)(hostile_n * 0x9e3779b97f4a7c15ull >> 33); REAL(random); }
VIS int sched_getcpu() __THROW { if (lie()) return (int)(hostile_n & 63); REAL(sched_getcpu); }
VIS pid_t getpid() __THROW { if (lie()) return (pid_t)(hostile_n * 0x9e3779b97f4a7c15ull >> 44); return (pid_t)syscall(SYS_getpid); }
}
struct EffMon : Monitor {
    Rng r{opt.seed * 3 + 1}; uint64_t k = 0; ProcState base; uint8_t copy[MAXARG][SLOT]; int curfn = -1; bool warm;
    void fail(const CaseV& c, uint8_t (*in)[SLOT], const char* kind, const std::string& d) { violation(c, kind, in, "%s", d.c_str()); }
    bool outputs(const CaseV& c, uint8_t (*in)[SLOT]) {
        fflush(stdout);
        if (errsize()) { fail(c, in, "output", "text on standard error during legal calls: " + errtext()); errreset(); return false; }
        struct stat s; fstat(outcap, &s); if (s.st_size) { fail(c, in, "output", "text on standard output during legal calls"); if (ftruncate(outcap, 0)) {} lseek(outcap, 0, SEEK_SET); return false; }
        int d = dup(0); if (d >= 0) close(d); if (d != base.fd) { fail(c, in, "fd", "a file descriptor stayed open"); base.fd = d; return false; }
        return true;
    }
    bool process(const CaseV& c, uint8_t (*in)[SLOT]) { ProcState n; n.take(); const char* d = base.diff(n); if (!d) return true; fail(c, in, "process", std::string("changed during legal calls: ") + d); base = n; return false; }
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT]; const uint8_t* p[MAXARG]; ptrs(in, p);
        if (c.fn != curfn) { if (curfn >= 0) { } base.take(); seed_all(); curfn = c.fn; warm = false; }
        memcpy(copy, in, sizeof copy); ++k;
        static const uint32_t mx[8] = {0x1f80, 0x3f80, 0x5f80, 0x7f80, 0x9f80, 0x1fc0, 0xffc0, 0x1f80}; static const uint16_t xc[8] = {0x37f, 0x77f, 0xb7f, 0xf7f, 0x37f, 0x27f, 0x37f, 0x37f};
        int mode = k & 7; uint32_t m0 = get_mxcsr(); uint16_t x0 = get_x87();
        if (f.memarg >= 0) memcpy(arena + 256, in[f.memarg], f.arg[f.memarg].bytes);
        al.live = al.maps = 0;
        errno = 4242; set_mxcsr(mx[mode]); set_x87(xc[mode]);
        void* fp = FPT[c.fn]; if (!oncov) fp = judged[k / 8 % judged.size()]->fp[c.fn];
        hostile = ((k >> 3) ^ k) & 1;      // half of the calls: what the program says about itself is something else each time
        in_call = true; if (oncov) cov_on = true; callx(f, fp, p, out, arena + 256); cov_on = false; in_call = false; hostile = false;
        uint32_t m1 = get_mxcsr(); uint16_t x1 = get_x87(); struct { uint16_t w[14]; } xe; __asm__ volatile("fnstenv %0" : "=m"(xe)); uint64_t fl = __builtin_ia32_readeflags_u64();
        if (xe.w[4] != 0xffff) __asm__ volatile("emms" : : : "memory");
        if (fl & 0x400) __asm__ volatile("cld");
        set_mxcsr(m0); set_x87(x0);
        if (xe.w[4] != 0xffff) { fail(c, in, "fpcontrol", "the x87 registers are left in use after the call (MMX without emms, or an unbalanced stack)"); return false; }
        if (fl & 0x40400) { fail(c, in, "fpcontrol", "the direction or alignment-check flag is left set after the call"); return false; }
        sh->extra[1] += al.calls; al.calls = 0;
        if (acted[0]) { std::string a = acted; acted[0] = 0; fail(c, in, "system", "the call acts on the system: " + a); return false; }
        if ((m1 ^ mx[mode]) & ~0x3fu) { char b[100]; snprintf(b, sizeof b, "MXCSR control bits %04x before, %04x after the call", mx[mode], m1 & ~0x3fu); fail(c, in, "fpcontrol", b); return false; }
        if (x1 != xc[mode]) { char b[100]; snprintf(b, sizeof b, "x87 control word %04x before, %04x after the call", xc[mode], x1); fail(c, in, "fpcontrol", b); return false; }
        if (errno != 4242) { char b[60]; snprintf(b, sizeof b, "errno became %d", errno); fail(c, in, "errno", b); return false; }
        // the first calls of a function may set up process-wide tables once; a call that keeps memory again and again leaks
        if (al.live > 0 || al.maps > 0) { if (++leaks[c.fn] >= 8) { fail(c, in, "leak", "calls keep heap memory or mappings (seen in 8 calls)"); return false; } }
        if (memcmp(copy, in, sizeof copy)) { fail(c, in, "argument", "an argument object of the caller changed"); memcpy(in, copy, sizeof copy); return false; }
        if ((k & 63) == 0 && !outputs(c, in)) return false;
        if ((k & 0x3fff) == 0 && !process(c, in)) return false;
        return true;
    }
    std::vector<int> leaks = std::vector<int>(NFN, 0); std::vector<Lib*> judged;
};
static int work_effects(uint32_t from) {
    if (outcap < 0) { outcap = memfd_create("out", MFD_CLOEXEC); fcntl(outcap, F_SETFL, O_APPEND); }
    fflush(stdout); capture_std(); dup2(outcap, 1);
    char dir[64]; snprintf(dir, sizeof dir, "eff.%d.%d", opt.shard, (int)getpid()); if (mkdir(dir, 0755) || chdir(dir)) _exit(3);
    EffMon m; Lib* base = libs[0]; FPT = base->fp.data(); seed_all(); uint64_t rexp = draw_all();
    for (Lib* l : libs) if (strcmp(l->name, "cov")) m.judged.push_back(l);
    if (load_diff) { CaseV l = allfn[0]; violation(l, "process", sh->in, "loading the library changed: %s", load_diff); load_diff = nullptr; }
    for (uint32_t i = from; i < cases.size(); i++) {
        sh->pos = i; const CaseV& c = cases[i]; sh->curfn = c.fn;
        if (missing(c, base)) { report_missing(c); continue; }
        m.curfn = -1;
        explore(c, m);
        if (m.curfn >= 0) { m.outputs(c, sh->in); m.process(c, sh->in); if (draw_all() != rexp) violation(c, "process", sh->in, "the state of rand(), random(), drand48() or strtok() changed during legal calls"); }
        sh->extra[0]++;
        if (i % 16 == 0) sample(c, sh->in);
    }
    if (!cases.empty()) exit_test();
    if (chdir("..")) {} rmdir(dir);
    return 0;
}

// ------------------------------------------------------------------------------------------ env: the caller's floating-point environment is not an argument
// Moves, integer operations, comparisons and conversions with a rounding of their own give the same bits in every rounding mode and flush setting.
static int env_modes(const Fn& f) {
    if (!strcmp(f.prop, "P11") || !strcmp(f.prop, "P13") || !strncmp(f.name, "vcvtq_f32_", 10)) return 0;
    if (!strcmp(f.prop, "P10") && f.narg && f.arg[0].kind == 'f') return 4;     // rounding modes only: flushing is meant to reach these
    return 8;
}
struct EnvMon : Monitor {
    uint64_t k = 0;
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT], ref[SLOT]; const uint8_t* p[MAXARG]; ptrs(in, p);
        static const uint32_t mx[8] = {0x1f80, 0x3f80, 0x5f80, 0x7f80, 0x9f80, 0x1fc0, 0xffc0, 0xbfc0}; static const uint16_t xc[8] = {0x37f, 0x77f, 0xb7f, 0xf7f, 0x07f, 0x37f, 0xc7f, 0x67f};      // rounding and, in some, the precision of the x87 unit
        int em = env_modes(f), mode = em ? (int)(++k % em) : 0;
        f.model(p, ref);
        uint32_t m0 = get_mxcsr(); uint16_t x0 = get_x87(); set_mxcsr(mx[mode]); set_x87(xc[mode]);
        if (oncov) cov_on = true; hostile = true; docall(f, FPT[c.fn], in, out, arena + 256); hostile = false; cov_on = false;
        set_mxcsr(m0); set_x87(x0); sh->extra[0] += mode != 0; sh->extra[1] += hostile_asked; hostile_asked = 0;
        if (same_bits(out, ref, f.out.bytes, f.fp)) return true;
        violation(c, "environment", in, "with MXCSR %04x and changing clocks, random numbers and environment variables: got %s expected %s", mx[mode], hex(out, f.out.bytes).c_str(), hex(ref, f.out.bytes).c_str());
        return false;
    }
};
static int work_env(uint32_t from) { std::vector<CaseV> s; for (auto& c : cases) if (c.fn >= 0) s.push_back(c); cases = s; EnvMon m; return run_cases(from, m); }

// ------------------------------------------------------------------------------------------ early: calls made before main and after it, from constructors and destructors of the client
static bool early_on; static const char* early_lib = "";
static int fnindex(const char* n);
extern "C" VIS void ns_early(const char* const* names, void* const* ptrs, int n, int when) {
    if (!early_on) return;
    alignas(64) uint8_t o[SLOT]; char w[120]; snprintf(w, sizeof w, when ? "called from a destructor after main, build %s" : "called from a constructor before main, build %s", early_lib);
    for (int i = opt.shard; i < n; i += opt.nshard) {
        int fi = fnindex(names[i]); if (fi < 0 || !pools[fi].have) continue; sh->curfn = fi;
        for (int k = 0; k < POOL; k++) { docall(FNS[fi], ptrs[i], pools[fi].in[k], o, arena + 256); sh->calls++; sh->extra[0]++; sh->stagecalls[when + 1]++; if (!hist_check(fi, k, o, w, FNS[fi].fp)) break; }
    }
}
static int work_early(uint32_t from) {
    if (from) return 0;                                      // a crash has been reported
    pools_setup(true, libs[0]); early_on = true;
    std::string b = getenv("NS_EARLY") ? getenv("NS_EARLY") : ""; size_t q = 0;
    while (q < b.size()) {
        size_t e = b.find(':', q); if (e == std::string::npos) e = b.size(); std::string path = b.substr(q, e - q); q = e + 1;
        std::string nm = path.substr(path.rfind('/') + 1); early_lib = nm.c_str(); snprintf(sh->curlib, sizeof sh->curlib, "%s", nm.c_str());
        void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 1; }
        dlclose(h); sh->extra[1]++; sh->distinct += 1;
    }
    return sh->extra[0] ? 0 : 1;
}

// ------------------------------------------------------------------------------------------ prog: random programs over registers and memory
struct RegKey { char kind; uint8_t bits, n, k; bool operator==(const RegKey& o) const { return kind == o.kind && bits == o.bits && n == o.n && k == o.k; } };
static int work_prog(uint32_t from) {
    Lib* b = libs[0]; Rng r(opt.seed * 271 + opt.shard);
    std::vector<RegKey> keys; auto key = [&](const Arg& a) { RegKey q{a.kind, a.bits, a.n, a.k}; for (size_t i = 0; i < keys.size(); i++) if (keys[i] == q) return (int)i; keys.push_back(q); return (int)keys.size() - 1; };
    enum { NR = 4, MEM = 768 };
    std::vector<int> fns; for (uint32_t i = from; i < cases.size(); i++) { if (missing(cases[i], b)) report_missing(cases[i]); else fns.push_back(cases[i].fn); }
    // every shard runs programs over all functions; the shard's own cases only decide who reports missing ones
    fns.clear(); for (int i = 0; i < NFN; i++) if (b->fp[i]) fns.push_back(i);
    std::vector<std::vector<int>> ak(NFN), ok(NFN);
    for (int fi : fns) { const Fn& f = FNS[fi]; for (int i = 0; i < f.narg; i++) ak[fi].push_back(f.arg[i].role == R_IMM || i == f.memarg ? -1 : key(f.arg[i])); ok[fi].push_back(f.memarg >= 0 && f.arg[f.memarg].role == R_WR ? -1 : key(f.out)); }
    struct Reg { uint8_t b[SLOT]; }; std::vector<Reg> regs(keys.size() * NR); uint8_t mem[MEM + SLOT], memx[MEM + SLOT];
    std::vector<uint64_t> percall(NFN, 0); std::vector<uint64_t> pairs; uint64_t npairs = 0; std::vector<bool> pairbit((size_t)NFN * NFN, false);
    CaseV dummy = allfn[0]; uint64_t trace[32]; int tn = 0;
    for (long prog = 0; prog < opt.n_random; prog++) {
        // fresh state; the function mix of a program is a random subset so that chains repeat
        Gen g(r.next(), &dummy); g.c = &allfn[fns[r.u(fns.size())]];
        auto reseed = [&](int q) { const RegKey& kk = keys[q / NR]; Arg a{R_VEC, kk.kind, kk.bits, kk.n, kk.k, (uint16_t)(kk.n * kk.k * kk.bits / 8)}; for (int j = 0; j < a.elems(); j++) putel(regs[q].b, a, j, g.pick(a)); };
        for (size_t q = 0; q < regs.size(); q++) reseed(q);
        for (int q = 0; q < MEM; q += 8) { uint64_t v = r.next(); memcpy(mem + q, &v, 8); }
        std::vector<int> mix; int nm = r.p(1, 3) ? 0 : 4 + r.u(24); for (int q = 0; q < nm; q++) mix.push_back(fns[r.u(fns.size())]);
        int steps = 8 + r.u(r.p(1, 8) ? 2000 : 200), last = -1; tn = 0;
        for (int s = 0; s < steps; s++) {
            int fi = nm && r.p(3, 4) ? mix[r.u(nm)] : fns[r.u(fns.size())]; const Fn& f = FNS[fi]; sh->curfn = fi;
            uint8_t (*in)[SLOT] = sh->in; int off = 0, ro = -1;
            for (int i = 0; i < f.narg; i++) {
                if (f.arg[i].role == R_IMM) { int n = f.immlo + (int)r.u(f.immhi - f.immlo + 1); memcpy(in[i], &n, 4); }
                else if (i == f.memarg) { off = f.arg[i].esz() * r.u((MEM - f.arg[i].bytes) / f.arg[i].esz() + 1); memcpy(in[i], mem + off, f.arg[i].bytes); }
                else { int q = ak[fi][i] * NR + r.u(NR); if (r.p(1, 24)) reseed(q); memcpy(in[i], regs[q].b, SLOT); ro = q; }
            }
            alignas(64) uint8_t out[SLOT], ref[SLOT]; const uint8_t* p[MAXARG]; ptrs(in, p);
            bool wr = f.memarg >= 0 && f.arg[f.memarg].role == R_WR; bool good;
            f.model(p, ref);
            if (wr) { memcpy(memx, mem, MEM); memcpy(memx + off, ref, f.out.bytes); }
            callx(f, b->fp[fi], p, out, mem + off); sh->calls++;
            if (wr) { memcpy(out, mem + off, f.out.bytes); good = !memcmp(mem, memx, MEM); } else good = same_bits(out, ref, f.out.bytes, f.fp);
            trace[tn++ & 31] = (uint64_t)fi;
            if (last >= 0 && !pairbit[(size_t)last * NFN + fi]) { pairbit[(size_t)last * NFN + fi] = true; npairs++; }
            last = fi;
            if (!good) {
                std::string t; for (int q = tn > 12 ? tn - 12 : 0; q < tn; q++) { t += FNS[trace[q & 31]].name; t += ' '; }
                violation(allfn[fi], "program", in, "step %d of program %ld: got %s expected %s; last steps: %s", s, prog, hex(out, f.out.bytes).c_str(), hex(ref, f.out.bytes).c_str(), t.c_str());
                if (vcount++ >= 12) return 0;
                break;
            }
            if (!wr) { int q = ok[fi][0] * NR + r.u(NR); memcpy(regs[q].b, out, f.out.bytes); }
            else if (r.p(1, 8)) { int w = 8 * r.u(MEM / 8); uint64_t v = r.next(); memcpy(mem + w, &v, 8); }
        }
        sh->distinct++; sh->stagecalls[1] = prog;
        if (prog == 3) { std::string t; for (int q = tn > 12 ? tn - 12 : 0; q < tn; q++) { t += FNS[trace[q & 31]].name; t += ' '; } emit("{\"ev\":\"sample\",\"case\":\"program\",\"length\":%d,\"last_steps\":\"%s\"}", steps, t.c_str()); }
    }
    sh->extra[0] += npairs; sh->extra[1] += fns.size();
    return 0;
}
#endif

#ifndef NS_TSAN
// ------------------------------------------------------------------------------------------ client: calls made by compiled C and C++ clients
struct ClientMon : Monitor {
    Rng place_r{opt.seed + 5};
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT], o[SLOT]; uint8_t* mem = place(f, place_r); const uint8_t* p[MAXARG]; ptrs(in, p);
        if (oncov) { cov_on = true; docall(f, FPT[c.fn], in, out, mem); cov_on = false; return true; }
        docall(f, libs[0]->fp[c.fn], in, out, mem);
        bool wr = f.memarg >= 0 && f.arg[f.memarg].role == R_WR;
        for (Lib* l : libs) {
            if (strncmp(l->name, "cl_", 3) || !l->fp[c.fn]) continue;
            if (f.memarg >= 0) memcpy(mem, in[f.memarg], f.arg[f.memarg].bytes);
            ((void (*)(const uint8_t* const*, uint8_t*, void*))l->fp[c.fn])(p, o, mem); sh->extra[0]++;
            if (wr) memcpy(o, mem, f.out.bytes);
            if (!same_bits(out, o, f.out.bytes, f.fp)) { violation(c, "client", in, "client %s gets %s, the plain C symbol with the specified types gives %s", l->name, hex(o, f.out.bytes).c_str(), hex(out, f.out.bytes).c_str()); return false; }
        }
        return true;
    }
};

// ------------------------------------------------------------------------------------------ ilp32: the same calls in 32-bit processes
struct Call32 { uint32_t fn, status, memoff, pad; uint8_t in[4][SLOT]; uint8_t out[SLOT]; uint8_t mem[192]; };
struct Shm32 { uint32_t count, at, ready, pad; Call32 c[512]; };
struct Proc32 { std::string name, path; pid_t pid = 0; int to = -1, from = -1; Shm32* shm = nullptr; bool dead = false; };
struct Ilp32Mon : Monitor {
    std::vector<Proc32> procs; std::vector<Call32> batch; const CaseV* cur = nullptr; Rng r{opt.seed + 3}; bool strict = false; int bad = 0;
    Ilp32Mon() {
        std::string s = getenv("NS_ILP32") ? getenv("NS_ILP32") : ""; strict = getenv("NS_ILP32_STRICT") && *getenv("NS_ILP32_STRICT"); size_t q = 0;
        signal(SIGPIPE, SIG_IGN);
        while (q < s.size()) { size_t e = s.find(':', q); if (e == std::string::npos) e = s.size(); std::string x = s.substr(q, e - q); size_t k = x.find('='); Proc32 p; p.name = x.substr(0, k); p.path = x.substr(k + 1); procs.push_back(p); q = e + 1; }
        for (auto& p : procs) start(p);
        batch.reserve(512);
    }
    ~Ilp32Mon() { for (auto& p : procs) stop(p); }
    void stop(Proc32& p) { if (p.pid > 0) { close(p.to); close(p.from); int st; while (waitpid(p.pid, &st, 0) < 0 && errno == EINTR) {} munmap(p.shm, sizeof(Shm32)); p.pid = 0; } }
    void start(Proc32& p) {
        int fd = memfd_create("ns32", 0), a[2], b[2]; if (fd < 0 || ftruncate(fd, sizeof(Shm32)) || pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { p.dead = true; return; }
        p.shm = (Shm32*)mmap(nullptr, sizeof(Shm32), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        p.pid = fork();
        if (!p.pid) { int k = fcntl(fd, F_DUPFD, 10), i = fcntl(a[0], F_DUPFD, 10), o = fcntl(b[1], F_DUPFD, 10); dup2(i, 0); dup2(o, 1); dup2(k, 3); close(k); close(i); close(o); prctl(PR_SET_PDEATHSIG, SIGKILL); execl(p.path.c_str(), p.path.c_str(), (char*)nullptr); _exit(77); }
        close(fd); close(a[0]); close(b[1]); p.to = a[1]; p.from = b[0]; char c;
        if (read(p.from, &c, 1) != 1 || p.shm->ready != 32) { stop(p); p.dead = true; }      // cannot run here, or its constructors need a system library
    }
    bool flush() {
        bool ok = true; if (batch.empty()) return true;
        const CaseV& c = *cur; const Fn& f = FNS[c.fn]; bool wr = f.memarg >= 0 && f.arg[f.memarg].role == R_WR; uint8_t in[MAXARG][SLOT]; memset(in, 0, sizeof in);
        for (auto& p : procs) {
            if (p.dead) { sh->extra[1] += batch.size(); continue; }
            for (size_t i = 0; i < batch.size(); i++) { Call32& d = p.shm->c[i]; d = batch[i]; memset(d.out, 0xa5, SLOT); d.status = 0; }
            p.shm->count = batch.size(); char b = 0; struct pollfd pf = {p.from, POLLIN, 0};
            bool alive = write(p.to, &b, 1) == 1 && poll(&pf, 1, 60000) > 0 && read(p.from, &b, 1) == 1;
            for (size_t i = 0; i < batch.size(); i++) {
                Call32 &d = p.shm->c[i], &e = batch[i]; memcpy(in, e.in, sizeof e.in);
                if (d.status == 1) {
                    sh->extra[0]++; const uint8_t* o = wr ? d.mem + d.memoff : d.out;
                    if (!same_bits(o, e.out, f.out.bytes, f.out.kind == 'f' ? f.out.bits : f.fp)) { ok = false; violation(c, "ilp32", in, "the build %s returns %s, the 64-bit x86 one %s", p.name.c_str(), hex(o, f.out.bytes).c_str(), hex(e.out, f.out.bytes).c_str()); break; }
                    if (f.memarg >= 0) { uint8_t m[192]; memcpy(m, e.mem, 192); if (wr) memcpy(m + e.memoff, o, f.out.bytes); if (memcmp(m, d.mem, 192)) { ok = false; violation(c, "ilp32", in, "the build %s writes other memory than the 64-bit x86 one", p.name.c_str()); break; } }
                } else if (d.status == 3) { ok = false; violation(c, "ilp32", in, "the 32-bit build %s stops the program", p.name.c_str()); break; }
                else if (d.status == 4) { if (strict) { ok = false; violation(c, "ilp32", in, "the WebAssembly build %s traps", p.name.c_str()); break; } sh->extra[1]++; }
                else {
                    sh->extra[1]++;
                    if (!alive && i == p.shm->at) { if (strict) { ok = false; violation(c, "ilp32", in, "the 32-bit build %s crashes or hangs", p.name.c_str()); } break; }
                }
            }
            if (!alive) { if (p.pid > 0) kill(p.pid, SIGKILL); stop(p); start(p); if (++bad > 200) p.dead = true; }
        }
        batch.clear(); return ok;
    }
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        const Fn& f = FNS[c.fn]; bool ok = true;
        if (cur != &c) { flush(); cur = &c; }
        Call32 e; e.fn = c.fn; e.status = 0; e.pad = 0; e.memoff = 0; memcpy(e.in, in, sizeof e.in); memset(e.mem, 0x5a, sizeof e.mem);
        if (f.memarg >= 0) { const Arg& a = f.arg[f.memarg]; e.memoff = 64 + a.esz() * r.u(8); memcpy(e.mem + e.memoff, in[f.memarg], a.bytes); }
        if (oncov) cov_on = true; docall(f, FPT[c.fn], in, e.out, arena + 256); cov_on = false;
        batch.push_back(e); if (batch.size() == 512) ok = flush();
        return ok;
    }
};
static int work_ilp32(uint32_t from) {
    Ilp32Mon m; Lib* base = libs[0]; FPT = base->fp.data();
    for (uint32_t i = from; i < cases.size(); i++) { sh->pos = i; const CaseV& c = cases[i]; sh->curfn = c.fn; if (missing(c, base)) continue; explore(c, m); m.flush(); if (i % 16 == 0) sample(c, sh->in); }
    return 0;
}

// ------------------------------------------------------------------------------------------ cprog: compiled programs, replayed step by step against the models
enum { CP_IN = 4096, CP_AR = 512, CP_GUARD = 64, CP_TR = 1 << 17 };
struct CStep { char k; int fi, id; bool tr; int n; struct { char k; int v, off; } a[4]; int off, bytes; Arg arg; uint8_t c[SLOT]; };
struct CProg { int k, nid; std::vector<CStep> s; std::vector<std::pair<int, int>> j; char name[24]; };
typedef void (*prog_fn)(const uint8_t*, const int*, void*, void*, void*, void*, void*, void*, uint8_t*);
static std::vector<CProg> cprogs;
static int fnindex(const char* n) { static std::vector<std::pair<std::string, int>> m; if (m.empty()) { for (int i = 0; i < NFN; i++) m.push_back({FNS[i].name, i}); std::sort(m.begin(), m.end()); } auto it = std::lower_bound(m.begin(), m.end(), std::make_pair(std::string(n), 0)); return it != m.end() && it->first == n ? it->second : -1; }
static bool load_progs(const char* path) {
    FILE* f = fopen(path, "r"); if (!f) return false; static char line[4096]; CProg p;
    while (fgets(line, sizeof line, f)) {
        char* t = strtok(line, " \n"); if (!t) continue; CStep st; memset(&st, 0, sizeof st); st.k = *t;
        auto num = [&]() { char* q = strtok(nullptr, " \n"); return q ? atoi(q) : 0; };
        if (*t == 'P') { p = CProg(); p.k = num(); p.nid = num(); snprintf(p.name, sizeof p.name, "program_%d", p.k); continue; }
        if (*t == 'E') { cprogs.push_back(p); continue; }
        if (*t == 'J') { int a = num(), b = num(); p.j.push_back({a, b}); continue; }
        if (*t == 'C') { st.id = num(); char* h = strtok(nullptr, " \n"); st.bytes = unhex(h, st.c); }
        if (*t == 'I') { st.id = num(); st.off = num(); char* kd = strtok(nullptr, " \n"); int bits = num(), by = num(); st.bytes = by; st.arg = Arg{R_VEC, *kd, (uint8_t)bits, (uint8_t)(by * 8 / bits), 1, (uint16_t)by}; }
        if (*t == 'N') st.id = num();
        if (*t == 'Z' || *t == 'F') { st.id = num(); st.off = num(); }
        if (*t == 'W') { st.id = num(); st.off = num(); char* h = strtok(nullptr, " \n"); st.bytes = unhex(h, st.c); }
        if (*t == 'R') { st.id = num(); st.off = num(); st.bytes = num(); }
        if (*t == 'S') {
            char* n = strtok(nullptr, " \n"); st.fi = fnindex(n); if (st.fi < 0) return false; st.id = num(); st.tr = num();
            while (char* q = strtok(nullptr, " \n")) { st.a[st.n].k = *q; st.a[st.n].v = atoi(q + 1); char* cl = strchr(q, ':'); st.a[st.n].off = cl ? atoi(cl + 1) : 0; st.n++; }
        }
        p.s.push_back(st);
    }
    fclose(f); return true;
}
static int work_cprog(uint32_t from) {
    const char* dir = getenv("NS_PROGDIR"); const char* bl = getenv("NS_PROGBUILDS"); std::vector<std::pair<std::string, void*>> so;
    std::string b = bl ? bl : ""; size_t q0 = 0;
    while (q0 < b.size()) { size_t e = b.find(',', q0); if (e == std::string::npos) e = b.size(); std::string n = b.substr(q0, e - q0), path = std::string(dir) + "/prog_" + std::to_string(opt.shard) + "." + n + ".so"; void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 1; } so.push_back({n, h}); q0 = e + 1; }
    uint8_t* in = (uint8_t*)malloc(CP_IN); uint8_t* tr = (uint8_t*)malloc(CP_TR); uint8_t *ar[6], *sw[6];
    for (int i = 0; i < 6; i++) { ar[i] = (uint8_t*)malloc(CP_AR + 2 * CP_GUARD); sw[i] = (uint8_t*)malloc(CP_AR + 2 * CP_GUARD); }
    struct V { uint8_t b[SLOT]; }; std::vector<V> val;
    for (uint32_t pi = from; pi < cprogs.size(); pi++) {
        CProg& P = cprogs[pi]; sh->pos = pi; Rng r(opt.seed * 77 + opt.shard * 1009 + P.k); std::vector<int> prm(P.j.size() + 1); val.resize(P.nid + 1);
        char sym[32]; snprintf(sym, sizeof sym, "prog_%d", P.k); sh->extra[0]++; int nbad = 0;
        for (long run = 0; run < opt.n_random && nbad == 0; run++) {
            Gen g(r.next(), &allfn[r.u(NFN)]);
            for (int i = 0; i < CP_IN; i += 8) { uint64_t v = r.next(); memcpy(in + i, &v, 8); }
            for (CStep& s : P.s) if (s.k == 'I' && r.p(3, 4)) for (int e = 0; e < s.arg.n; e++) putel(in + s.off, s.arg, e, g.pick(s.arg));
            for (size_t i = 0; i < P.j.size(); i++) prm[i] = P.j[i].first + (int)r.u(P.j[i].second - P.j[i].first + 1);
            uint64_t mseed = r.next();
            for (auto& lb : so) {
                prog_fn fn = (prog_fn)dlsym(lb.second, sym); if (!fn) return 1;
                Rng mr(mseed); for (int i = 0; i < 6; i++) { for (int x = 0; x < CP_AR + 2 * CP_GUARD; x += 8) { uint64_t v = mr.next(); memcpy(ar[i] + x, &v, 8); } memcpy(sw[i], ar[i], CP_AR + 2 * CP_GUARD); }
                snprintf(sh->curlib, sizeof sh->curlib, "%s", lb.first.c_str());
                fn(in, prm.data(), ar[0] + CP_GUARD, ar[1] + CP_GUARD, ar[2] + CP_GUARD, ar[3] + CP_GUARD, ar[4] + CP_GUARD, ar[5] + CP_GUARD, tr);
                sh->calls++; sh->extra[1]++;
                size_t to = 0; int sn = 0; bool ok = true; const char* lastf = "";
                for (CStep& s : P.s) {
                    sn++;
                    if (s.k == 'C') memcpy(val[s.id].b, s.c, s.bytes);
                    else if (s.k == 'I') memcpy(val[s.id].b, in + s.off, s.bytes);
                    else if (s.k == 'Z') memset(val[s.id].b, 0, SLOT);
                    else if (s.k == 'W') memcpy(sw[s.id] + CP_GUARD + s.off, s.c, s.bytes);
                    else if (s.k == 'R') {
                        const uint8_t* e = sw[s.id] + CP_GUARD + s.off;
                        if (memcmp(tr + to, e, s.bytes)) { violation(allfn[0], "program-read", nullptr, "program %d of shard %d (build %s), step %d: an element of memory area %d read after %s is %s, expected %s", P.k, opt.shard, lb.first.c_str(), sn, s.id, lastf, hex(tr + to, s.bytes).c_str(), hex(e, s.bytes).c_str()); ok = false; break; }
                        to += s.bytes; sh->extra[3]++;
                    }
                    else if (s.k == 'N') { int n; memcpy(&n, tr + to, 4); if (n != s.id) { violation(allfn[0], "program-arguments", nullptr, "program %d of shard %d (build %s): %d evaluations of arguments with a side effect, expected %d", P.k, opt.shard, lb.first.c_str(), n, s.id); ok = false; break; } to += 4; }
                    if (s.k != 'S') continue;
                    const Fn& f = FNS[s.fi]; lastf = f.name; sh->extra[2]++;
                    alignas(64) uint8_t im[MAXARG][SLOT]; const uint8_t* p[MAXARG] = {0}; uint8_t* mp = nullptr;
                    for (int i = 0; i < s.n; i++) {
                        if (s.a[i].k == 'v') p[i] = val[s.a[i].v].b;
                        else if (s.a[i].k == 'i') { memcpy(im[i], &s.a[i].v, 4); p[i] = im[i]; }
                        else if (s.a[i].k == 'j') { memcpy(im[i], &prm[s.a[i].v], 4); p[i] = im[i]; }
                        else { mp = sw[s.a[i].v] + CP_GUARD + s.a[i].off; memcpy(im[i], mp, f.arg[i].bytes); p[i] = im[i]; }
                    }
                    alignas(64) uint8_t ref[SLOT]; f.model(p, ref);
                    if (s.id < 0) { memcpy(mp, ref, f.out.bytes); continue; }
                    if (s.tr) {
                        if (!same_bits(tr + to, ref, f.out.bytes, f.fp)) {
                            std::string ops; for (int i = 0; i < s.n; i++) { if (i) ops += ","; ops += hex(p[i], f.arg[i].bytes); }
                            CaseV c = allfn[s.fi]; violation(c, "program", nullptr, "program %d of shard %d (build %s), step %d: %s(%s) observed as %s, expected %s", P.k, opt.shard, lb.first.c_str(), sn, f.name, ops.c_str(), hex(tr + to, f.out.bytes).c_str(), hex(ref, f.out.bytes).c_str());
                            ok = false; break;
                        }
                        memcpy(val[s.id].b, tr + to, f.out.bytes); to += f.out.bytes;
                    } else memcpy(val[s.id].b, ref, f.out.bytes);
                }
                if (ok) for (CStep& s : P.s) if (s.k == 'F') { if (memcmp(tr + to, val[s.id].b, s.off)) { violation(allfn[0], "program-final", nullptr, "program %d of shard %d (build %s): the final content of a variable is %s, expected %s", P.k, opt.shard, lb.first.c_str(), hex(tr + to, s.off).c_str(), hex(val[s.id].b, s.off).c_str()); ok = false; break; } to += s.off; }
                if (ok) for (int i = 0; i < 6 && ok; i++) if (memcmp(ar[i], sw[i], CP_AR + 2 * CP_GUARD)) { int x = 0; while (ar[i][x] == sw[i][x]) x++; violation(allfn[0], "program-memory", nullptr, "program %d of shard %d (build %s): byte %d of memory area %d is %02x, expected %02x (last step %s)", P.k, opt.shard, lb.first.c_str(), x - CP_GUARD, i, ar[i][x], sw[i][x], lastf); ok = false; }
                if (!ok) nbad++;
            }
        }
    }
    return 0;
}
static int work_client(uint32_t from) { ClientMon m; return run_cases(from, m); }
#endif
static int replay_mode(const CaseV& c) {
    FPT = libs[0]->fp.data();
    if (opt.mode == "replay-mem") { MemMon m; for (int i = 0; i < 4096; i++) { if (!m.run(c, sh->in, false)) return 1; } return 0; }
#ifndef NS_TSAN
    if (opt.mode == "replay-effects") { outcap = memfd_create("out", MFD_CLOEXEC); capture_std(); dup2(outcap, 1); EffMon m; int rc = 0; for (int i = 0; i < 65536 && !rc; i++) rc = !m.run(c, sh->in, false); return rc; }
#endif
    if (opt.mode == "replay-imm") {
        capture_std(); catch_faults(true); noaccess = (uint8_t*)mmap(nullptr, 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        int n; memcpy(&n, sh->in[c.immarg], 4); LegalMon m;
        if (n >= c.immlo && n <= c.immhi) { for (int i = 0; i < 512; i++) if (!m.run(c, sh->in, false)) return 1; return 0; }
        for (Lib* l : libs) if (judged(l)) { if (!illegal_once(c, l, n, sh->in, 0)) return 1; for (int w = 0; w < NWAYS; w++) if (!illegal_fork(c, l, n, sh->in, w)) return 1; }
        return 0;
    }
    return 0;
}
int other_modes() {
    std::vector<CaseV> s;
    if (opt.mode == "mem") { for (auto& c : cases) if (c.memarg >= 0) s.push_back(c); cases = s; return supervise(work_mem, "mem"); }
    if (opt.mode == "imm") { for (auto& c : cases) if (c.immarg >= 0) s.push_back(c); cases = s; return supervise(work_imm, "imm"); }
    if (opt.mode == "hist") return supervise(work_hist, "hist");
    if (opt.mode == "threads") return supervise(work_threads, "threads");
#ifndef NS_TSAN
    if (opt.mode == "env") return supervise(work_env, "env");
    if (opt.mode == "ilp32") return supervise(work_ilp32, "ilp32");
    if (opt.mode == "early") return supervise(work_early, "early");
    if (opt.mode == "effects") return supervise(work_effects, "effects");
    if (opt.mode == "prog") return supervise(work_prog, "prog");
    if (opt.mode == "cprog") {
        const char* d = getenv("NS_PROGDIR"); if (!d || !load_progs((std::string(d) + "/prog_" + std::to_string(opt.shard) + ".txt").c_str())) { fprintf(stderr, "no program table\n"); return 2; }
        cases.clear(); for (auto& p : cprogs) { CaseV c = allfn[0]; c.name = p.name; c.narg = 0; c.fn = -1; c.law = -1; cases.push_back(c); }
        return supervise(work_cprog, "cprog");
    }
    if (opt.mode == "client") return supervise(work_client, "client");
#endif
    fprintf(stderr, "unknown mode %s\n", opt.mode.c_str()); return 2;
}

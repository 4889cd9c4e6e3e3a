#include "runner.hpp"
#ifdef NS_MSAN
// call thunks and library are instrumented, this file is not: shadow is set by hand around every call
#include <sanitizer/msan_interface.h>
extern "C" void __msan_unpoison_param(size_t n);
#endif
static bool malloc_fill;                 // cross mode: new heap blocks obtained during a call hold changing bytes
#ifdef NS_ASAN
#include <sanitizer/asan_interface.h>
#endif

std::vector<Lib*> libs; Shared* sh; Opt opt; std::vector<CaseV> cases, allfn; uint8_t *arena, *arena2;
std::vector<Dict> g_fdict; Dict g_dict; std::vector<std::vector<int>> g_lawfns;
static int outfd = 1;

Lib* lib(const char* name) { for (Lib* l : libs) if (!strcmp(l->name, name)) return l; return nullptr; }

void emit(const char* fmt, ...) {
    char buf[16384]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n'; for (int o = 0; o < n;) { int w = write(outfd, buf + o, n - o); if (w <= 0) break; o += w; }
}
std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[((const uint8_t*)p)[i] >> 4]; s += d[((const uint8_t*)p)[i] & 15]; } return s; }
std::string inputs_str(const CaseV& c, const uint8_t (*in)[SLOT]) { std::string s; for (int i = 0; i < c.narg; i++) { if (i) s += ","; s += hex(in[i], c.arg[i].bytes); } return s; }
static std::string jesc(const char* s) { std::string r; for (; *s; s++) { unsigned char ch = *s; if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }
void violation(const CaseV& c, const char* kind, const uint8_t (*in)[SLOT], const char* fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    sh->violations++;
    emit("{\"ev\":\"viol\",\"case\":\"%s\",\"kind\":\"%s\",\"inputs\":\"%s\",\"detail\":\"%s\"}", c.name, kind, in ? inputs_str(c, in).c_str() : "", jesc(buf).c_str());
}

CaseV case_of_fn(int i) { Fn& f = FNS[i]; CaseV c; c.name = f.name; c.prop = f.prop; c.narg = f.narg; c.arg = f.arg; c.immarg = f.immarg; c.immlo = f.immlo; c.immhi = f.immhi; c.lanewise = f.lanewise; c.fn = i; c.law = -1; c.memarg = f.memarg; c.key = hstr(f.name); return c; }
CaseV case_of_law(int j) { Law& f = LAWS[j]; CaseV c; c.name = f.name; c.prop = f.prop; c.narg = f.narg; c.arg = f.arg; c.immarg = f.immarg; c.immlo = f.immlo; c.immhi = f.immhi; c.lanewise = f.lanewise; c.fn = -1; c.law = j; c.memarg = -1; c.key = hstr(f.name); return c; }

// ------------------------------------------------------------------------------------------ coverage callbacks
bool cov_on; uint32_t cov_nguards; CovState cov; void (*cov_hook)(uint32_t);
__thread bool cov_in_hook;
extern "C" {
__attribute__((visibility("default"), no_sanitize("memory"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; for (uint32_t* x = a; x < b; x++) *x = ++cov_nguards; }
__attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (cov_hook) { if (!cov_in_hook) { cov_in_hook = true; cov_hook(*g); cov_in_hook = false; } return; }
    if (!cov_on) return;
    uint32_t i = *g; if (cov.hit[i] != cov.epoch) { cov.hit[i] = cov.epoch; cov.list.push_back(i); }
}
static inline void cmpf(uintptr_t pc, uint64_t a, uint64_t b, int size) {
    if (!cov_on) return;
    int d = __builtin_popcountll(a ^ b); uint64_t df = a > b ? a - b : b - a; int lg = df ? 64 - __builtin_clzll(df) : 0;
    uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 40);
    uint32_t i1 = (h + d * 131u) & 0xffff, i2 = (h * 7 + 0x5555 + lg * 257u) & 0xffff;
    if (!cov.feat[i1]) { cov.feat[i1] = 1; cov.newfeat++; }
    if (!cov.feat[i2]) { cov.feat[i2] = 1; cov.newfeat++; }
    if (a != b && cov.ncmp < 256) { cov.cmp[cov.ncmp][0] = a; cov.cmp[cov.ncmp][1] = b; cov.ncmp++; }
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define VIS __attribute__((visibility("default")))
VIS void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmpf(PC, a, b, 1); }
VIS void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmpf(PC, a, b, 2); }
VIS void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmpf(PC, a, b, 4); }
VIS void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmpf(PC, a, b, 8); }
VIS void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmpf(PC, a, b, 1); }
VIS void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmpf(PC, a, b, 2); }
VIS void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmpf(PC, a, b, 4); }
VIS void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmpf(PC, a, b, 8); }
VIS void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* cs) { for (uint64_t i = 0; i < cs[0]; i++) cmpf(PC + i, v, cs[2 + i], (int)(cs[1] / 8)); }
VIS void __sanitizer_cov_trace_div4(uint32_t) {}
VIS void __sanitizer_cov_trace_div8(uint64_t) {}
VIS void __sanitizer_cov_trace_gep(uintptr_t) {}
}

// ------------------------------------------------------------------------------------------ exploration
static inline void count(const CaseV& c, const uint8_t (*in)[SLOT], int stage) {
    sh->calls++; sh->stagecalls[stage]++;
    uint64_t h = c.key, nz = 0;
    for (int i = 0; i < c.narg; i++) for (int j = 0; j < c.arg[i].bytes; j += 8) { uint64_t v = 0; int n = c.arg[i].bytes - j; memcpy(&v, in[i] + j, n < 8 ? n : 8); nz |= v; h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; }
    if (!nz) return;                         // the all-zero input is trivial
    h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32; uint32_t b = (uint32_t)h & ((1u << 26) - 1);
    if (!(sh->bitmap[b >> 3] & (1 << (b & 7)))) { sh->bitmap[b >> 3] |= 1 << (b & 7); sh->distinct++; }
}
static std::vector<std::vector<std::string>> dummy;

static bool step(const CaseV& c, Monitor& m, int stage, bool oncov = false) { sh->stage = stage; count(c, sh->in, stage); return m.run(c, sh->in, oncov); }

// number of element combinations when every lane is driven independently
static bool lane_sets(const CaseV& c, std::vector<int>& idx, int& lanes) {
    lanes = 0; idx.clear();
    for (int i = 0; i < c.narg; i++) { const Arg& a = c.arg[i]; if (a.role == R_IMM) continue; if (a.k != 1) return false; idx.push_back(i); if (a.role == R_VEC) { if (!lanes || a.elems() < lanes) lanes = a.elems(); } }
    if (!lanes) lanes = 1;
    return !idx.empty();
}
static void fill_combo(const CaseV& c, const std::vector<int>& idx, const std::vector<const uint64_t*>& vals, const std::vector<uint64_t>& cnt, uint64_t total, uint64_t j, uint64_t stride, int lanes) {
    for (int l = 0; l < lanes; l++) {
        uint64_t q = (j + (uint64_t)l * stride) % total;
        for (size_t t = 0; t < idx.size(); t++) {
            const Arg& a = c.arg[idx[t]]; uint64_t k = q % cnt[t]; q /= cnt[t];
            uint64_t v = vals[t] ? vals[t][k] : k;
            if (a.role == R_SCALAR) { if (l == 0) putel(sh->in[idx[t]], a, 0, v); }
            else for (int x = l; x < a.elems(); x += lanes) putel(sh->in[idx[t]], a, x, v);
        }
    }
}

// the same for operands whose values are all enumerated, fast
static void fill_big(const CaseV& c, const std::vector<int>& idx, uint64_t mask, uint64_t j, uint64_t stride, int lanes, bool whole) {
    int sft = 0;
    for (int i : idx) {
        const Arg& a = c.arg[i]; int b = a.bits; uint64_t vm = b < 64 ? (1ull << b) - 1 : ~0ull;
        if (a.role == R_SCALAR) putel(sh->in[i], a, 0, (j & mask) >> sft & vm);
        else if (whole && b == 16) for (int l = 0; l < lanes; l += 4) { uint64_t q = j + l * stride, w = (q & mask) >> sft & vm; w |= ((q + stride & mask) >> sft & vm) << 16; w |= ((q + 2 * stride & mask) >> sft & vm) << 32; w |= ((q + 3 * stride & mask) >> sft) << 48; memcpy(sh->in[i] + l * 2, &w, 8); }
        else if (whole && b == 32) for (int l = 0; l < lanes; l += 2) { uint64_t q = j + l * stride, w = (q & mask) >> sft & vm; w |= ((q + stride & mask) >> sft) << 32; memcpy(sh->in[i] + l * 4, &w, 8); }
        else for (int l = 0; l < lanes; l++) for (int x = l; x < a.elems(); x += lanes) putel(sh->in[i], a, x, ((j + l * stride) & mask) >> sft & vm);
        sft += b;
    }
}
static void slice(uint64_t total, uint64_t& lo, uint64_t& hi) { if (opt.split) { lo = total / opt.nshard * opt.shard; hi = opt.shard == opt.nshard - 1 ? total : total / opt.nshard * (opt.shard + 1); } else { lo = 0; hi = total; } }
static bool stage_exhaustive(const CaseV& c, Monitor& m) {      // returns true if the value space of a lane was enumerated
    std::vector<int> idx; int lanes; if (!c.lanewise || !lane_sets(c, idx, lanes)) return false;
    int bits = 0; for (int i : idx) bits += c.arg[i].bits;
    int nimm = c.immarg >= 0 ? c.immhi - c.immlo + 1 : 1;
    if (bits > 40 || ((1ull << bits) * nimm) > (uint64_t)opt.exh_limit * (bits > 24 ? lanes : 1)) return false;
    if (bits > 24 && c.law >= 0 && !opt.thorough) return false;
    std::vector<const uint64_t*> vals(idx.size(), nullptr); std::vector<uint64_t> cnt; for (int i : idx) cnt.push_back(1ull << c.arg[i].bits);
    uint64_t total = 1ull << bits, stride = total > 64 ? (total / lanes) | 1 : 1, lim = total;
    uint64_t part = 0; bool whole = true; const uint8_t* bp[MAXARG]; ptrs(sh->in, bp);
    if (bits > 24) {            // each combination in one lane
        stride = total / lanes; lim = total / lanes;
        for (int i : idx) { const Arg& a = c.arg[i]; if (a.role == R_SCALAR) { if (idx[0] == i || c.arg[idx[0]].role == R_SCALAR) return false; part = (1ull << c.arg[idx[0]].bits) / lanes; } else if (a.elems() != lanes) whole = false; }
    }
    for (int n = 0; n < nimm; n++) {
        if (c.immarg >= 0) { int v = c.immlo + n; memcpy(sh->in[c.immarg], &v, 4); }
        uint64_t lo, hi; slice(lim, lo, hi);
        bool big = bits > 24; sh->stage = 1;
        for (uint64_t j = lo; j < hi; j++) {
            if (!big) { fill_combo(c, idx, vals, cnt, total, j, stride, lanes); if (!step(c, m, 1)) return true; continue; }
            fill_big(c, idx, total - 1, part ? j % part | j / part * part * lanes : j, part ? part : stride, lanes, whole);
            sh->calls++; sh->stagecalls[1]++; sh->distinct++; if (!m.quick(c, bp) && !m.run(c, sh->in, false)) return true;     // all of them distinct
        }
    }
    return bits <= 24;    // beyond that each value was seen in one lane only
}
static bool stage_boundary(const CaseV& c, Monitor& m) {
    std::vector<int> idx; int lanes; if (!c.lanewise || !lane_sets(c, idx, lanes)) return true;
    Rng r(opt.seed * 77 + c.key);
    int nimm = c.immarg >= 0 ? c.immhi - c.immlo + 1 : 1;
    std::vector<std::vector<uint64_t>> sets;
    for (int i : idx) { std::vector<uint64_t> s = bset(c.arg[i]); size_t cap = idx.size() >= 3 ? 64 : 400; if (opt.n_random < 20000) cap = idx.size() >= 3 ? 24 : idx.size() == 2 ? 80 : 400; while (s.size() > cap) { size_t k = 16 + r.u(s.size() - 16); s[k] = s.back(); s.pop_back(); } sets.push_back(s); }
    std::vector<const uint64_t*> vals; std::vector<uint64_t> cnt; uint64_t total = 1;
    for (auto& s : sets) { vals.push_back(s.data()); cnt.push_back(s.size()); total *= s.size(); }
    uint64_t stride = total > 64 ? (total / lanes) | 1 : 1;
    for (int n = 0; n < nimm; n++) {
        if (c.immarg >= 0) { int v = c.immlo + n; memcpy(sh->in[c.immarg], &v, 4); }
        uint64_t lo, hi; slice(total, lo, hi);
        for (uint64_t j = lo; j < hi; j++) { fill_combo(c, idx, vals, cnt, total, j, stride, lanes); if (!step(c, m, 2)) return false; }
    }
    return true;
}
struct In { uint8_t b[MAXARG][SLOT]; };
static std::vector<In> edge_inputs;      // those of the last guided run that reached new code
static void guided(const CaseV& c, Monitor& m, std::vector<In>& corpus, bool& alive) {
    Lib* lc = lib("cov"); if (!lc || opt.n_guided <= 0) return;
    if (cov.hit.size() < cov_nguards + 1) { cov.hit.assign(cov_nguards + 1, 0); cov.ever.assign(cov_nguards + 1, 0); }
    cov.feat.assign(1 << 16, 0);
    std::vector<uint8_t> seen(cov_nguards + 1, 0); edge_inputs.clear();
    Gen g(opt.sseed * 1000003 + c.key + 17, &c);
    void** save = FPT; FPT = lc->fp.data();
    static uint64_t ring[256][2]; int nring = 0;
    for (long it = 0; it < opt.n_guided; it++) {
        if (corpus.empty() || g.r.p(1, 4)) g.fill(sh->in);
        else { memcpy(sh->in, corpus[g.r.p(1, 3) ? corpus.size() - 1 : g.r.u(corpus.size())].b, sizeof sh->in); g.mutate(sh->in, ring, nring); }
        cov.epoch++; cov.list.clear(); cov.newfeat = 0; cov.ncmp = 0;
        bool ok = step(c, m, 4, true);
        int nw = cov.newfeat;
        for (uint32_t x : cov.list) { if (!seen[x]) { seen[x] = 1; nw += 4; } if (!cov.ever[x]) { cov.ever[x] = 1; sh->edges++; } }
        if (cov.ncmp) {
            if (nring < 256) { int k = g.r.u(cov.ncmp); ring[nring][0] = cov.cmp[k][0]; ring[nring][1] = cov.cmp[k][1]; nring++; }
            else if (g.r.p(1, 4)) { int k = g.r.u(cov.ncmp), q = g.r.u(256); ring[q][0] = cov.cmp[k][0]; ring[q][1] = cov.cmp[k][1]; }
            if (nw && g.local.size() < 64) for (int k = 0; k < cov.ncmp && g.local.size() < 64; k++) for (int q = 0; q < 2; q++) { uint64_t v = cov.cmp[k][q]; if (v > 64 && std::find(g.local.begin(), g.local.end(), v) == g.local.end()) g.local.push_back(v); }
        }
        if (nw > (int)cov.newfeat) { In e; memcpy(e.b, sh->in, sizeof e.b); edge_inputs.push_back(e); }
        sh->cmpfeat += cov.newfeat;
        if (nw) { In e; memcpy(e.b, sh->in, sizeof e.b); if (corpus.size() < 96) corpus.push_back(e); else corpus[g.r.u(96)] = e; sh->corpus++; }
        if (!ok) { alive = false; break; }
    }
    FPT = save; sh->edges_total = cov_nguards;
}
void explore(const CaseV& c, Monitor& m) {
    bool alive = true; uint64_t before = sh->violations;
    auto stop = [&]() { return !alive || sh->violations - before >= 2; };
    bool full = stage_exhaustive(c, m);
    if (sh->violations - before >= 2) return;
    if (!full) { alive = stage_boundary(c, m); if (stop()) return; }
    Gen g(opt.sseed * 7919 + c.key, &c);
    long nr = full ? opt.n_random / 4 : opt.n_random;
    for (long i = 0; i < nr; i++) { g.fill(sh->in); if (!step(c, m, 3)) return; }
    std::vector<In> corpus; guided(c, m, corpus, alive);
    if (stop()) return;
    // replay what the guided stage found on the judged build, with mutations around it
    for (size_t k = 0; k < corpus.size(); k++) {
        for (int q = 0; q < 24; q++) { memcpy(sh->in, corpus[k].b, sizeof sh->in); if (q) g.mutate(sh->in, nullptr, 0); sh->replayed++; if (!step(c, m, 5)) return; }
    }
}

// ------------------------------------------------------------------------------------------ supervision of a worker process
// The worker runs in a child; when it dies the parent reports the call in progress and restarts it behind the failing case.
static void child_limits() { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); }
static char task_state(const char* path) {       // the state letter of /proc/<pid>/stat, and the parent in *pp
    int fd = open(path, O_RDONLY | O_CLOEXEC); if (fd < 0) return 0;
    char b[512]; ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return 0;
    b[n] = 0; char* e = strrchr(b, ')'); return e && e[1] ? e[2] : 0;
}
// Every thread of the process sleeps and it has no live child it could be waiting for.
static bool all_asleep(pid_t p) {
    char b[64]; snprintf(b, sizeof b, "/proc/%d/task", (int)p); DIR* d = opendir(b); if (!d) return false;
    bool asleep = true; int n = 0;
    while (dirent* e = readdir(d)) {
        if (e->d_name[0] == '.') continue;
        char q[400]; snprintf(q, sizeof q, "%s/%s/stat", b, e->d_name); char st = task_state(q); n++;
        if (st != 'S') asleep = false;
        snprintf(q, sizeof q, "%s/%s/children", b, e->d_name); int fd = open(q, O_RDONLY | O_CLOEXEC);
        if (fd < 0) asleep = false; else { char k[64]; if (read(fd, k, sizeof k) > 0) asleep = false; close(fd); }
    }
    closedir(d); return asleep && n;
}
// fresh memory whose byte `before` lies at a multiple of 2^32 (or, for odd n, 2^31 further): an address computed in 32 bits shows there
uint8_t* map_across(size_t before, size_t total, int prot, int n) {
    uint8_t* any = (uint8_t*)mmap(nullptr, total, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (any == MAP_FAILED) _exit(3);
    uintptr_t at = ((uintptr_t)any & ~0xffffffffull) + (n & 1 ? 0x80000000ull : 0);
    for (int t = 0; t < 8; t++, at -= 0x100000000ull) {
        uint8_t* want = (uint8_t*)at - before, *p = (uint8_t*)mmap(want, total, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == want) { munmap(any, total); return p; }
        if (p != MAP_FAILED) munmap(p, total);
    }
    return any;
}
int supervise(int (*work)(uint32_t from), const char* what) {
    uint32_t from = 0; int deaths = 0, hangs = 0; auto now = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }; double t0 = now();
    for (;;) {
        fflush(stdout); pid_t p = fork();
        if (p == 0) { child_limits(); sh->pos = from; int rc = work(from); fflush(stdout); sh->done = 1; _exit(rc ? 3 : 0); }
        int st; uint64_t last = ~0ull; double idle = 0; bool hung = false, stuck = false; int tick = 0, asleep = 0; uint64_t asleep_calls = ~0ull;
        clockid_t clk; bool haveclk = clock_getcpuclockid(p, &clk) == 0; double cpu_at = 0;
        for (;;) {
            pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break;
            usleep(2000); 
            if (sh->calls != last) { last = sh->calls; struct timespec ts; if (haveclk && clock_gettime(clk, &ts) == 0) cpu_at = ts.tv_sec + ts.tv_nsec * 1e-9; idle = 0; }
            else { struct timespec ts; if (haveclk && clock_gettime(clk, &ts) == 0) idle = ts.tv_sec + ts.tv_nsec * 1e-9 - cpu_at; }
            if (idle > 25) { hung = true; kill(p, SIGKILL); }     // 25 s of processor time without finishing one call
            if (++tick % 250 == 0) { asleep = sh->calls == asleep_calls && all_asleep(p) ? asleep + 1 : 0; asleep_calls = sh->calls; }
            if (!hung && asleep >= 40) { hung = stuck = true; kill(p, SIGKILL); }     // some 20 s in which every thread slept and no call finished
        }
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) return deaths ? 1 : 0;
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 3 && sh->done) { emit("{\"ev\":\"error\",\"detail\":\"worker error in %s\"}", what); return 2; }
        if (sh->pos >= cases.size()) { emit("{\"ev\":\"error\",\"detail\":\"worker died outside a case in %s, status %x\"}", what, st); return 2; }
        const CaseV& c = cases[sh->pos];
        sh->violations++;
        char d[200];
        if (stuck) snprintf(d, sizeof d, "call did not return: every thread of the process sleeps (deadlock)");
        else if (hung) snprintf(d, sizeof d, "call did not return within 25 s of processor time");
        else if (WIFSIGNALED(st)) snprintf(d, sizeof d, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else snprintf(d, sizeof d, "process ended with status %d during the call (sanitizer report or exit)", WEXITSTATUS(st));
        const char* fnn = (sh->curfn >= 0 && sh->curfn < NFN) ? FNS[sh->curfn].name : "";
        emit("{\"ev\":\"viol\",\"case\":\"%s\",\"kind\":\"%s\",\"inputs\":\"%s\",\"detail\":\"%s; in %s stage %u\"}", c.name, hung ? "hang" : "crash", inputs_str(c, sh->in).c_str(), d, fnn, sh->stage);
        from = sh->pos + 1; deaths++;
        if (hung) hangs++;
        if (from >= cases.size() || deaths > 600 || hangs >= 3 || now() - t0 > 240) return 1;     // enough is known
    }
}

// ------------------------------------------------------------------------------------------ monitors
static int unhex(const char* s, uint8_t* o) { int n = 0; while (isxdigit(s[0]) && isxdigit(s[1])) { unsigned v; sscanf(s, "%2x", &v); o[n++] = v; s += 2; } return n; }
static bool missing(const CaseV& c, Lib* l) {
    if (c.fn >= 0) return !l->fp[c.fn];
    for (int f : g_lawfns[c.law]) if (!l->fp[f]) return true;
    return false;
}
static void report_missing(const CaseV& c) {
    if (c.fn >= 0) violation(c, "missing", nullptr, "%s is not exported by the library under its C name", c.name);
    else sh->extra[31]++;     // laws over a missing function are P21's business and the value checks'
}

struct ValueMon : Monitor {
    Rng place_r{opt.seed + 99};
    Lib* base = lib("base"); Lib* covl = lib("cov");
    std::vector<uint8_t> bad;
    bool quick(const CaseV& c, const uint8_t* const* p) override {       // the shortest way to the usual verdict; any doubt goes to run()
        if (c.law >= 0) return false;
        const Fn& f = FNS[c.fn]; if (f.memarg >= 0 || f.out.bytes > 16 || f.out.bytes & 7) return false;
        alignas(16) uint64_t o[2], r[2]; f.call(FPT[c.fn], p, (uint8_t*)o, arena); f.model(p, (uint8_t*)r);
        return o[0] == r[0] && (f.out.bytes == 8 || o[1] == r[1]);
    }
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        if (c.law >= 0) {
            LawResult res; res.bad = 0; const uint8_t* p[MAXARG]; ptrs(in, p);
            if (oncov) cov_on = true; LAWS[c.law].eval(p, &res); cov_on = false;
            if (!res.bad) return true;
            violation(c, "law", in, "%s: left %s right %s", res.what, hex(res.l, res.nb).c_str(), hex(res.r, res.nb).c_str());
            return false;
        }
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT], ref[SLOT]; uint8_t* mem = place(f, place_r);
        const uint8_t* p[MAXARG]; ptrs(in, p);
        if (oncov) cov_on = true;
        docall(f, FPT[c.fn], in, out, mem);
        cov_on = false;
        f.model(p, ref);
        if (same_bits(out, ref, f.out.bytes, f.fp)) {
            return true;
        }
        if (f.memarg >= 0) violation(c, "value", in, "got %s expected %s (pointer at offset %ld of a 64-byte line)%s", hex(out, f.out.bytes).c_str(), hex(ref, f.out.bytes).c_str(), (long)((uintptr_t)mem & 63), oncov ? " [instrumented build]" : "");
        else violation(c, "value", in, "got %s expected %s%s", hex(out, f.out.bytes).c_str(), hex(ref, f.out.bytes).c_str(), oncov ? " [instrumented build]" : "");
        return false;
    }
};
static uint64_t start_ns; static uint64_t now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

static void sample(const CaseV& c, const uint8_t (*in)[SLOT]) {
    if (c.fn >= 0 && opt.mode != "msan") {
        const Fn& f = FNS[c.fn]; uint8_t ref[SLOT]; const uint8_t* p[MAXARG]; ptrs(in, p); f.model(p, ref);
        emit("{\"ev\":\"sample\",\"case\":\"%s\",\"inputs\":\"%s\",\"result\":\"%s\"}", c.name, inputs_str(c, in).c_str(), hex(ref, f.out.bytes).c_str());
    } else emit("{\"ev\":\"sample\",\"case\":\"%s\",\"inputs\":\"%s\"}", c.name, inputs_str(c, in).c_str());
}
template <class M> static int run_cases(uint32_t from, M& m) {
    Lib* base = libs[0]; FPT = base->fp.data();
    for (uint32_t i = from; i < cases.size(); i++) {
        sh->pos = i; const CaseV& c = cases[i]; sh->curfn = c.fn;
        if (missing(c, base)) { report_missing(c); continue; }
        uint64_t b = sh->calls;
        explore(c, m);
        sh->percase[i & 2047] = sh->calls - b;
        if (i % 16 == 0) sample(c, sh->in);
    }
    return 0;
}
static int work_value(uint32_t from) { ValueMon m; return run_cases(from, m); }
int mode_value() { return supervise(work_value, "value"); }

// ---- cross-build agreement: every build gets the same call; the stack is filled differently before each
static __attribute__((noinline)) void dirty_stack(unsigned char v) { volatile unsigned char b[3072]; memset((void*)b, v, sizeof b); __asm__ volatile("" : : "r"(b) : "memory"); }
static __attribute__((noinline)) void dirty_regs(uint64_t v) {
#if defined(__x86_64__)
    __asm__ volatile("movq %0,%%xmm0\n movq %0,%%xmm1\n punpcklqdq %%xmm0,%%xmm0\n punpcklqdq %%xmm1,%%xmm1\n movdqa %%xmm0,%%xmm2\n movdqa %%xmm0,%%xmm3\n movdqa %%xmm0,%%xmm4\n movdqa %%xmm0,%%xmm5\n movdqa %%xmm0,%%xmm6\n movdqa %%xmm0,%%xmm7\n movq %0,%%rax\n movq %0,%%rcx\n movq %0,%%rdx\n movq %0,%%rsi\n movq %0,%%rdi\n movq %0,%%r8\n movq %0,%%r9\n movq %0,%%r10\n movq %0,%%r11\n" : : "r"(v) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11");
#endif
}
struct CrossMon : Monitor {
    Rng place_r{opt.seed + 99}; Rng r{opt.seed + 5};
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t o0[SLOT], o[SLOT]; uint8_t* mem = place(f, place_r);
        if (oncov) { cov_on = true; docall(f, FPT[c.fn], in, o0, mem); cov_on = false; }
        const char* n0 = nullptr;
        for (Lib* l : libs) {
            if (!strcmp(l->name, "cov")) continue;
            int reps = n0 ? 1 : 2;
            for (int k = 0; k < reps; k++) {
                uint64_t fill = r.next(); dirty_stack((unsigned char)fill); dirty_regs(fill);
                malloc_fill = true; docall(f, l->fp[c.fn], in, o, mem); malloc_fill = false;
                sh->extra[0]++;
                if (!n0) { n0 = l->name; memcpy(o0, o, SLOT); }
                else if (!same_bits(o0, o, f.out.bytes, f.fp)) {
                    violation(c, "cross", in, "build %s returns %s, build %s returns %s", n0, hex(o0, f.out.bytes).c_str(), l->name, hex(o, f.out.bytes).c_str());
                    return false;
                }
            }
        }
        return true;
    }
};
static int work_cross(uint32_t from) { CrossMon m; return run_cases(from, m); }
int mode_cross() { return supervise(work_cross, "cross"); }

// ---- sanitizers: the call runs in an instrumented build; the sanitizer's own report is the verdict
static volatile int san_reports; static char san_text[1024];
extern "C" VIS void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** mem) __attribute__((weak));
extern "C" VIS void __ubsan_on_report(void) {
    const char *k = "", *m = "", *f = ""; unsigned l = 0, co = 0; char* me = nullptr;
    if (__ubsan_get_current_report_data) __ubsan_get_current_report_data(&k, &m, &f, &l, &co, &me);
    const char* b = f ? strrchr(f, '/') : nullptr;
    snprintf(san_text, sizeof san_text, "UndefinedBehaviorSanitizer: %s (%s) at %s:%u", m, k, b ? b + 1 : f, l); san_reports++;
}
#ifdef NS_ASAN
extern "C" VIS void __asan_on_error() { snprintf(san_text, sizeof san_text, "AddressSanitizer: %s at address offset", __asan_get_report_description()); san_reports++; }
#endif
struct SanMon : Monitor {
    Rng place_r{opt.seed + 99};
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT]; uint8_t* mem = arena;
        const uint8_t* p[MAXARG]; ptrs(in, p);
        san_reports = 0;
        if (f.memarg >= 0) {
            const Arg& a = f.arg[f.memarg]; mem = place(f, place_r);
            memcpy(mem, in[f.memarg], a.bytes);
#ifdef NS_ASAN
            // only the addressed elements are accessible while the call runs
            uint8_t* e = mem + a.bytes; uint8_t* lo8 = (uint8_t*)((uintptr_t)mem & ~7ull);
            __asan_poison_memory_region(lo8 - 64, 64); __asan_poison_memory_region(e, 64 + (8 - ((uintptr_t)e & 7)) % 8);
#endif
            if (oncov) cov_on = true; callx(f, FPT[c.fn], p, out, mem); cov_on = false;
#ifdef NS_ASAN
            __asan_unpoison_memory_region(lo8 - 64, 64 + 8 + a.bytes + 64 + 8);
#endif
        } else { if (oncov) cov_on = true; callx(f, FPT[c.fn], p, out, mem); cov_on = false; }
        if (san_reports) {
            int n = san_reports; san_reports = 0;
            violation(c, "sanitizer", in, "%s (%d reports in this call)", san_text, n);
            return false;
        }
        return true;
    }
};
static int work_san(uint32_t from) { SanMon m; return run_cases(from, m); }
int mode_san() { return supervise(work_san, "san"); }

struct MsanMon : Monitor {
    Rng place_r{opt.seed + 99};
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
#ifdef NS_MSAN
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT]; uint8_t* mem = place(f, place_r); const uint8_t* p[MAXARG]; ptrs(in, p);
        for (Lib* l : libs) {
            if (oncov != !strcmp(l->name, "cov")) continue;
            __msan_unpoison(p, sizeof p); __msan_unpoison(in, sizeof sh->in);
            bool wr = f.memarg >= 0 && f.arg[f.memarg].role == R_WR;
            if (f.memarg >= 0) { memcpy(mem, in[f.memarg], f.arg[f.memarg].bytes); __msan_unpoison(mem, SLOT); }
            if (wr) __msan_poison(mem, f.out.bytes);
            __msan_poison(out, sizeof out); __msan_unpoison_param(4);
            if (oncov) cov_on = true; f.call(l->fp[c.fn], p, out, mem); cov_on = false;
            const uint8_t* q = wr ? mem : out; sh->extra[0]++;
            intptr_t k = __msan_test_shadow(q, f.out.bytes);
            __msan_unpoison(out, sizeof out); __msan_unpoison(mem, SLOT);
            if (k >= 0) { violation(c, "uninitialized", in, "byte %ld of the result (lane %ld) is uninitialised, build %s", (long)k, (long)k / f.out.esz(), l->name); return false; }
        }
#endif
        return true;
    }
};
#ifdef NS_MSAN
// the umr builds of the library report here instead of to the MemorySanitizer runtime
static uint64_t umr_n; static void* umr_pc;
#define UMR __attribute__((no_sanitize("memory"))) static inline void
UMR umr_hit(void* pc) { if (!umr_n++) umr_pc = pc; }
extern "C" {
VIS __attribute__((no_sanitize("memory"))) void ns_umr_warning() { umr_hit(__builtin_return_address(0)); }
VIS __attribute__((no_sanitize("memory"))) void ns_umr_warning_with_origin(uint32_t) { umr_hit(__builtin_return_address(0)); }
VIS __attribute__((no_sanitize("memory"))) void ns_umr_maybe_warning_1(uint8_t s, uint32_t) { if (s) umr_hit(__builtin_return_address(0)); }
VIS __attribute__((no_sanitize("memory"))) void ns_umr_maybe_warning_2(uint16_t s, uint32_t) { if (s) umr_hit(__builtin_return_address(0)); }
VIS __attribute__((no_sanitize("memory"))) void ns_umr_maybe_warning_4(uint32_t s, uint32_t) { if (s) umr_hit(__builtin_return_address(0)); }
VIS __attribute__((no_sanitize("memory"))) void ns_umr_maybe_warning_8(uint64_t s, uint32_t) { if (s) umr_hit(__builtin_return_address(0)); }
}
#endif
struct UmrMon : Monitor {
    Rng place_r{opt.seed + 99};
    bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) override {
#ifdef NS_MSAN
        const Fn& f = FNS[c.fn]; alignas(64) uint8_t out[SLOT]; uint8_t* mem = place(f, place_r); const uint8_t* p[MAXARG]; ptrs(in, p);
        Lib* l = oncov ? lib("cov") : libs[0];
        __msan_unpoison(p, sizeof p); __msan_unpoison(in, sizeof sh->in);
        bool wr = f.memarg >= 0 && f.arg[f.memarg].role == R_WR;
        if (f.memarg >= 0) { memcpy(mem, in[f.memarg], f.arg[f.memarg].bytes); __msan_unpoison(mem, SLOT); }
        if (wr) __msan_poison(mem, f.out.bytes);
        __msan_unpoison_param(4); umr_n = 0;
        if (oncov) cov_on = true; f.call(l->fp[c.fn], p, out, mem); cov_on = false; sh->extra[0]++;
        __msan_unpoison(out, sizeof out); __msan_unpoison(mem, SLOT);
        if (umr_n) { violation(c, "uninitialized", in, "a branch, address or divisor depends on uninitialised memory (%lu times in this call)", (unsigned long)umr_n); return false; }
#endif
        return true;
    }
};
static int work_umr(uint32_t from) { UmrMon m; return run_cases(from, m); }
int mode_umr() { return supervise(work_umr, "umr"); }
static int work_msan(uint32_t from) { MsanMon m; return run_cases(from, m); }
int mode_msan() { return supervise(work_msan, "msan"); }

#ifdef NS_FULL
#include "modes.inc"
#endif
static void ask_lies(bool on) {
#if defined(NS_FULL) && !defined(NS_TSAN)
    hostile = on && opt.mode == "env";
#endif
    (void)on;
}

// ------------------------------------------------------------------------------------------ main
static void load_dict(const char* path) {
    g_fdict.assign(NFN, Dict()); FILE* f = fopen(path, "r"); if (!f) return;
    static char line[1 << 18];
    while (fgets(line, sizeof line, f)) {
        char* s = strtok(line, " \n"); if (!s) continue; Dict* d = nullptr;
        if (!strcmp(s, "*")) d = &g_dict; else for (int i = 0; i < NFN; i++) if (!strcmp(FNS[i].name, s)) d = &g_fdict[i];
        if (!d) continue;
        while ((s = strtok(nullptr, " \n"))) d->v.push_back(strtoull(s, nullptr, 16));
    }
    fclose(f);
}
static bool wanted(const char* prop) { for (auto& p : opt.props) if (p == "ALL" || p == prop) return true; return false; }

static int replay() {
    int rc = 0;
    for (auto& c : cases) {
        if (opt.only != c.name) continue;
        const char* s = opt.hex.c_str(); memset(sh->in, 0, sizeof sh->in);
        for (int i = 0; i < c.narg && *s; i++) { int n = unhex(s, sh->in[i]); s += 2 * n; if (*s == ',') s++; }
        FPT = libs[0]->fp.data();
        if (opt.mode == "replay-value") { ValueMon m; rc |= !m.run(c, sh->in, false); }
        if (opt.mode == "replay-cross") { CrossMon m; rc |= !m.run(c, sh->in, false); }
        if (opt.mode == "replay-san") { SanMon m; rc |= !m.run(c, sh->in, false); }
        if (opt.mode == "replay-umr") { UmrMon m; rc |= !m.run(c, sh->in, false); }
        if (opt.mode == "replay-msan") { MsanMon m; rc |= !m.run(c, sh->in, false); }
#ifdef NS_FULL
        rc |= replay_mode(c);
#endif
    }
    return rc;
}

int main(int argc, char** argv) {
    start_ns = now_ns();
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->curfn = -1;
    arena = map_across(4096, ARENA + 4096, PROT_READ | PROT_WRITE, 0) + 4096 - 2304; arena2 = map_across(4096, ARENA + 4096, PROT_READ | PROT_WRITE, 1) + 4096 - 2304;     // place() then puts regions on both sides of the boundary
    register_all(); init_sets();
    std::vector<std::pair<std::string, std::string>> lp; std::string dict;
    if (argc < 2) return 2;
    opt.mode = argv[1]; if (getenv("NS_ALIGN")) opt.align = atoi(getenv("NS_ALIGN"));
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--lib") { size_t e = v.find('='); lp.push_back({v.substr(0, e), v.substr(e + 1)}); }
        else if (k == "--shard") sscanf(v.c_str(), "%d/%d", &opt.shard, &opt.nshard);
        else if (k == "--seed") opt.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--tier") opt.thorough = v == "thorough";
        else if (k == "--out") { opt.out = v; outfd = open(v.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644); if (outfd < 0) return 2; }
        else if (k == "--props") { size_t p = 0; while (p <= v.size()) { size_t e = v.find(',', p); if (e == std::string::npos) e = v.size(); opt.props.push_back(v.substr(p, e - p)); p = e + 1; } }
        else if (k == "--dict") dict = v;
        else if (k == "--random") opt.n_random = atol(v.c_str());
        else if (k == "--guided") opt.n_guided = atol(v.c_str());
        else if (k == "--exh") opt.exh_limit = atol(v.c_str());
        else if (k == "--only") opt.only = v;
        else if (k == "--hex") opt.hex = v;
        else if (k == "--extra") opt.extra = atoi(v.c_str());
        else if (k == "--corpus") opt.corpus = v;
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    load_dict(dict.c_str());
    g_lawfns.assign(NLAW, std::vector<int>());
    for (int j = 0; j < NLAW; j++) if (LAWS[j].uses) { const char* s = LAWS[j].uses; while (*s) { const char* e = strchr(s, ' '); size_t n = e ? (size_t)(e - s) : strlen(s); for (int i = 0; i < NFN; i++) if (strlen(FNS[i].name) == n && !memcmp(FNS[i].name, s, n)) g_lawfns[j].push_back(i); s += n; if (*s == ' ') s++; } }
#if defined(NS_FULL) && !defined(NS_TSAN)
    if (opt.mode == "effects") effects_before_load();
#endif
    for (auto& p : lp) {
        Lib* l = new Lib; snprintf(l->name, sizeof l->name, "%s", p.first.c_str()); snprintf(l->path, sizeof l->path, "%s", p.second.c_str());
        ask_lies(true); l->h = dlopen(l->path, RTLD_NOW | RTLD_LOCAL); ask_lies(false);
        if (!l->h) { emit("{\"ev\":\"error\",\"detail\":\"dlopen %s\"}", l->name); fprintf(stderr, "%s\n", dlerror()); return 2; }
        for (int i = 0; i < NFN; i++) l->fp.push_back(dlsym(l->h, strncmp(l->name, "cl_", 3) ? FNS[i].name : (std::string("thunk_") + FNS[i].name).c_str()));
        libs.push_back(l);
    }
    if (libs.empty()) { fprintf(stderr, "no --lib\n"); return 2; }
#if defined(NS_FULL) && !defined(NS_TSAN)
    if (opt.mode == "effects") effects_after_load();
#endif
    FPT = libs[0]->fp.data();
    int k = 0;
    for (int i = 0; i < NFN; i++) allfn.push_back(case_of_fn(i));
    bool noflaws = opt.mode != "value" && opt.mode != "replay-value";
    std::vector<CaseV> sel;
    for (int i = 0; i < NFN; i++) if (wanted(FNS[i].prop) && !((opt.mode == "mem" && FNS[i].memarg < 0) || (opt.mode == "imm" && FNS[i].immarg < 0))) sel.push_back(allfn[i]);
    if (!noflaws) for (int j = 0; j < NLAW; j++) if (LAWS[j].eval && wanted(LAWS[j].prop)) sel.push_back(case_of_law(j));
    // few cases: every shard takes part in every case (its own random inputs, its part of the enumerations); many: shards divide the cases
    if (opt.mode == "value" && opt.nshard > 1 && sel.size() < 6u * opt.nshard) { opt.split = true; cases = sel; opt.n_random = opt.n_random / opt.nshard + 1; opt.n_guided = opt.n_guided / opt.nshard * 2 + 1; }
    else for (auto& c : sel) if (k++ % opt.nshard == opt.shard) cases.push_back(c);
    uint64_t part = opt.split ? opt.shard : 0; opt.sseed = opt.seed + part * 0x51ed270b;
    if (!opt.only.empty() && opt.mode.compare(0, 6, "replay")) { std::vector<CaseV> s; for (auto& c : cases) if (opt.only == c.name) s.push_back(c); cases = s; }
    if (opt.mode.compare(0, 6, "replay") == 0) return replay();
    int rc = 2;
    if (opt.mode == "value") rc = mode_value();
    else if (opt.mode == "cross") rc = mode_cross();
    else if (opt.mode == "san") rc = mode_san();
    else if (opt.mode == "msan") rc = mode_msan();
    else if (opt.mode == "umr") rc = mode_umr();
#ifdef NS_FULL
    else rc = other_modes();
#endif
    std::string ex; for (int i = 0; i < 32; i++) { ex += (i ? "," : "") + std::to_string((unsigned long long)sh->extra[i]); }
    std::string sc; for (int i = 0; i < 8; i++) { sc += (i ? "," : "") + std::to_string((unsigned long long)sh->stagecalls[i]); }
    std::string pc; for (size_t i = 0; i < cases.size() && i < 2048; i++) if (!sh->percase[i]) { pc += (pc.empty() ? "\"" : ",\"") + std::string(cases[i].name) + "\""; }
    emit("{\"ev\":\"stat\",\"mode\":\"%s\",\"rc\":%d,\"cases\":%zu,\"calls\":%llu,\"distinct\":%llu,\"violations\":%llu,\"corpus\":%llu,\"edges\":%llu,\"edges_total\":%llu,\"cmpfeat\":%llu,\"stages\":[%s],\"extra\":[%s],\"wall\":%.2f}", opt.mode.c_str(), rc, cases.size(),
         (unsigned long long)sh->calls, (unsigned long long)sh->distinct, (unsigned long long)sh->violations, (unsigned long long)sh->corpus, (unsigned long long)sh->edges, (unsigned long long)sh->edges_total, (unsigned long long)sh->cmpfeat, sc.c_str(), ex.c_str(), (now_ns() - start_ns) * 1e-9);
    return rc;
}

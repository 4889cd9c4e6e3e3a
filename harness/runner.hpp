#pragma once
#include "gen.hpp"
#include "model.hpp"
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <string>

struct Lib { char name[24]; char path[256]; void* h; std::vector<void*> fp; };
extern std::vector<Lib*> libs;
Lib* lib(const char* name);                 // null when absent

struct Shared {                             // survives the death of a worker
    uint32_t pos;                           // position in the case list
    uint32_t stage; volatile uint32_t done;
    volatile uint64_t calls;                // evaluations so far
    uint64_t distinct, nontrivial, violations, replayed, corpus;
    uint64_t stagecalls[16];
    uint64_t edges, edges_total, cmpfeat;
    uint64_t extra[32];                     // mode specific counters
    int32_t curfn; int32_t curmisc; char curlib[24];
    int32_t misaligned_off;
    alignas(64) uint8_t in[MAXARG][SLOT];
    alignas(64) uint8_t in2[MAXARG][SLOT];
    uint8_t bitmap[1 << 23];
    uint64_t percase[2048];
};
extern Shared* sh;

struct Opt {
    std::string mode, out, only, hex, corpus;
    int shard = 0, nshard = 1; uint64_t seed = 1; bool thorough = false;
    std::vector<std::string> props;
    double scale = 1.0;                     // multiplies the budgets
    long n_random = 0, n_guided = 0, exh_limit = 0; // per case
    int extra = 0; unsigned align = 1;
    bool split = false; uint64_t sseed = 1;   // shards share every case; seed of this shard's part
};
extern Opt opt;

void emit(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void* p, size_t n);
std::string inputs_str(const CaseV& c, const uint8_t (*in)[SLOT]);
void violation(const CaseV& c, const char* kind, const uint8_t (*in)[SLOT], const char* fmt, ...) __attribute__((format(printf, 4, 5)));
extern std::vector<CaseV> cases;            // selected cases of this shard
extern std::vector<CaseV> allfn;            // every function as a case
CaseV case_of_fn(int i);
CaseV case_of_law(int j);

// ---- calls
extern uint8_t *arena, *arena2;                      // memory the pointer argument points into
enum { ARENA = 16384 };
uint8_t* map_across(size_t before, size_t total, int prot, int n);
static inline const uint8_t* const* ptrs(const uint8_t (*in)[SLOT], const uint8_t** p) { for (int i = 0; i < MAXARG; i++) p[i] = in[i]; return p; }
// the object that receives a large result has the alignment of its type, not more
static inline void callx(const Fn& f, void* fp, const uint8_t* const* p, uint8_t* out, void* mem) {
    if (f.out.bytes <= 16 || f.memarg >= 0 && f.arg[f.memarg].role == R_WR) { f.call(fp, p, out, mem); return; }
    static __thread uint32_t n; alignas(64) uint8_t o[2 * SLOT]; uint8_t* q = o + (n++ * (f.align > opt.align ? f.align : opt.align) & 63);
    f.call(fp, p, q, mem); memcpy(out, q, f.out.bytes);
}
// perform one call of function f through table fp, memory placed at mem (contents copied in / out)
static inline void docall(const Fn& f, void* fp, const uint8_t (*in)[SLOT], uint8_t* out, uint8_t* mem) {
    const uint8_t* p[MAXARG]; ptrs(in, p);
    if (f.memarg >= 0) {
        memcpy(mem, in[f.memarg], f.arg[f.memarg].bytes);
        callx(f, fp, p, out, mem);
        if (f.arg[f.memarg].role == R_WR) memcpy(out, mem, f.out.bytes);
    } else callx(f, fp, p, out, mem);
}
static inline uint8_t* place(const Fn& f, Rng& r) {
    if (f.memarg < 0) return arena;
    const Arg& a = f.arg[f.memarg];
    uint32_t x = r.u(8192 / a.esz());
    return (x & 1 ? arena2 : arena) + 256 + (size_t)(x >> 1) * a.esz();
}

// ---- coverage
extern bool cov_on;
extern uint32_t cov_nguards;
struct CovState { uint32_t epoch; std::vector<uint32_t> hit; std::vector<uint32_t> list; std::vector<uint8_t> ever; std::vector<uint8_t> feat; uint64_t cmp[256][2]; int ncmp; int newfeat; };
extern CovState cov;
extern void (*cov_hook)(uint32_t guard);    // extra action at every guard (schedule and re-entrance injection)

// ---- exploration: drive mon(in) -> bool (false stops the case) over all stages
struct Monitor { virtual bool run(const CaseV& c, uint8_t (*in)[SLOT], bool oncov) = 0; virtual bool quick(const CaseV&, const uint8_t* const*) { return false; } virtual ~Monitor() {} };
void explore(const CaseV& c, Monitor& m);

int mode_value(); int mode_mem(); int mode_imm(); int mode_cross(); int mode_hist(); int mode_effects(); int mode_prog(); int mode_san(); int mode_msan(); int mode_tsan();
int supervise(int (*work)(uint32_t from), const char* what);

// Simulator runtime.  Compiled WITHOUT instrumentation.  It owns
//  - the heap used by library code (arena with redzones, shadow, quarantine, leak scan)
//  - every memory access of library code (callbacks emitted by -fsanitize=thread; the
//    tsan runtime itself is NOT linked, these functions take its place)
//  - the simulated callers (fibers), their interleaving, and locks/atomics/static guards
//  - fault points (allocation, callable, element copy, iterator, stream)
//  - seeds, replay plans, trace hash, statistics
#include "simrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <new>
#include <exception>
#include <map>
#include <set>
#include <algorithm>
#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" { extern char __start_simexcl[]; extern char __stop_simexcl[]; extern char __data_start[]; extern char _end[]; extern char __libc_single_threaded; }
extern char **environ;

namespace sim {
const char *fault_names[FK_N] = {"none", "alloc", "callable", "copy", "iterator", "stream"};
SIM_EXCL int g_inlib = 0;
RunCfg g_cfg;

// ------------------------------------------------------------------ shared stats
enum { NPROBE = 160, BM_BITS = 1 << 22 };
struct Shared {
    uint64_t runs, evals, steps, switches, ops, conc_runs;
    uint64_t fired[FK_N], planned[FK_N];
    uint64_t max_live;
    struct { char name[48]; uint64_t n; } probes[NPROBE];
    int violated;
    uint64_t trace_hash;
    char cls[64];
    char msg[6000];
    int nsched, nfault;
    struct { int client, op; uint64_t step; int target; } sched[4000];
    struct { int client, op, kind; uint64_t at; int sticky; } faults[400];
    int max_op[MAXC];
    unsigned char bm_eval[BM_BITS / 8];
    unsigned char bm_sched[BM_BITS / 8];
};
static Shared *sh;
static bool g_log = false;

bool want_log() { return g_log; }
void note(const std::string &l) { if (g_log) { fprintf(stdout, "%s\n", l.c_str()); } }
void trace(uint64_t v) { sh->trace_hash = mix(sh->trace_hash, v); }
void eval(uint64_t sig) { sh->evals++; uint64_t h = mix64(sig) % BM_BITS; sh->bm_eval[h >> 3] |= 1 << (h & 7); }
void probe(const char *name, uint64_t n) {
    for (int i = 0; i < NPROBE; ++i) {
        if (!sh->probes[i].name[0]) strncpy(sh->probes[i].name, name, 47);
        if (!strncmp(sh->probes[i].name, name, 47)) { sh->probes[i].n += n; return; }
    }
}
[[noreturn]] void violation(const char *cls, const std::string &msg) {
    g_inlib = 0;
    if (!sh->violated) {
        sh->violated = 1;
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    }
    fflush(stdout);
    _exit(3);
}
static std::string fmt(const char *f, ...) {
    char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// ------------------------------------------------------------------ callers
struct VC { uint32_t c[MAXC]; };
struct Ctx {
    int id = 0;
    int op = -1;
    bool in_op = false;
    uint64_t steps = 0, next_preempt = ~0ull;
    FaultPlan plan; uint64_t pts[FK_N] = {}; bool fired = false; bool count = false;
    int inlib_saved = 0;
    void *sp = nullptr;
    char *tls = nullptr;
    char eh[16] = {};
    bool done = false;
    VC vc{};
    const void *blocked_on = nullptr;
};
static Ctx ctxs[MAXC], mainctx;
static Ctx *cur = &mainctx;
static bool g_conc = false;
static int g_n = 0;
static Rng srng(1);
static int g_mean = 0;
static uint64_t sched_hash;
static const uint64_t STEP_BUDGET = 120ull * 1000 * 1000;
static const std::function<void(int)> *g_body;

int current_client() { return g_conc ? cur->id : 0; }

// ------------------------------------------------------------------ arena
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SZ = 1ull << 30;
static unsigned char *shadow;                 // one byte per 8 bytes: number of accessible bytes
static uintptr_t bump;
static int lifo_mode = 0;
struct Hdr { uint32_t magic; uint32_t cls; uint64_t size; };      // directly before user data
struct BlkInfo { uintptr_t user; };
enum : uint32_t { LIVE = 0x11fe11fe, DEAD = 0xdeaddead };
static const int NCLS = 64 + 40;
struct FreeQ { uintptr_t *v; size_t head, n, cap; };
static FreeQ fq[NCLS];
static size_t live_blocks = 0; static uint64_t quarantined = 0;
static const uint64_t QUAR = 1 << 20;
static uintptr_t *blk; static size_t nblk, blkcap;                 // all blocks ever carved

static int size_class(size_t n, size_t &rounded) {
    if (n <= 1024) { size_t k = (n + 15) / 16; if (!k) k = 1; rounded = k * 16; return (int)k - 1; }
    int b = 64 - __builtin_clzll(n - 1); rounded = 1ull << b; return 64 + b - 11;
}
static void arena_init() {
    void *p = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ARENA) { perror("arena"); _exit(2); }
    shadow = (unsigned char *)mmap((void *)0x180000000000ull, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    blkcap = 1 << 22;
    blk = (uintptr_t *)mmap(nullptr, blkcap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < NCLS; ++i) {
        fq[i].cap = i < 64 ? (1 << 20) : (1 << 14);
        fq[i].v = (uintptr_t *)mmap(nullptr, fq[i].cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    bump = ARENA + 4096;
}
void arena_mode(int lifo) { lifo_mode = lifo; }
uint64_t arena_live() { return live_blocks; }
static void set_shadow(uintptr_t u, size_t n, size_t rounded, bool live) {
    unsigned char *s = shadow + ((u - ARENA) >> 3);
    if (!live) { memset(s, 0, rounded / 8); return; }
    memset(s, 8, n / 8);
    size_t rest = rounded / 8 - n / 8;
    if (rest) { memset(s + n / 8, 0, rest); if (n & 7) s[n / 8] = n & 7; }
}
struct RaceCell;
static void race_clear(uintptr_t u, size_t n);
static void *arena_new(size_t n, size_t align = 16) {
    size_t rounded; int c = size_class(n, rounded);
    uintptr_t u = 0;
    FreeQ &q = fq[c];
    if (align <= 16 && q.n) {
        if (lifo_mode) { u = q.v[(q.head + q.n - 1) % q.cap]; q.n--; }
        else if (quarantined > QUAR) { u = q.v[q.head]; q.head = (q.head + 1) % q.cap; q.n--; quarantined -= rounded; }
    }
    if (!u) {
        uintptr_t p = bump + 32;
        p = (p + align - 1) / align * align;
        u = p;
        bump = u + rounded + 16;
        if (bump + 4096 > ARENA + ARENA_SZ || nblk >= blkcap) return nullptr;
        blk[nblk++] = u;
    }
    Hdr *h = (Hdr *)(u - sizeof(Hdr));
    h->magic = LIVE; h->cls = c; h->size = n;
    set_shadow(u, n, rounded, true);
    memset((void *)u, 0xA5, n);
    if (g_conc) race_clear(u, rounded);
    live_blocks++;
    if (live_blocks > sh->max_live) sh->max_live = live_blocks;
    return (void *)u;
}
static bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
static void arena_free(void *p, const char *how) {
    uintptr_t u = (uintptr_t)p;
    Hdr *h = (Hdr *)(u - sizeof(Hdr));
    if ((u & 15) || h->magic != LIVE) {
        if (!(u & 15) && h->magic == DEAD) violation("double-free", fmt("double free of a block (size %zu, %s)", (size_t)h->size, how));
        violation("invalid-free", fmt("free of a pointer that is not the start of a live block (%s)", how));
    }
    h->magic = DEAD;
    size_t rounded; int c = size_class(h->size, rounded);
    memset(p, 0xDD, h->size);
    set_shadow(u, 0, rounded, false);
    live_blocks--;
    FreeQ &q = fq[c];
    if (q.n < q.cap) { q.v[(q.head + q.n) % q.cap] = u; q.n++; quarantined += rounded; }
}
void *lib_alloc(size_t n) { return arena_new(n); }

struct TlsInfo { char *start; size_t size; };
static TlsInfo tlsi;
static int tls_cb(struct dl_phdr_info *i, size_t, void *) {
    if (i->dlpi_name[0] == 0 && !tlsi.size)
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_TLS) { tlsi.size = i->dlpi_phdr[k].p_memsz; tlsi.start = (char *)i->dlpi_tls_data; }
    return 0;
}

std::string leak_check() {
    // blocks still live and not reachable from the program's static storage / TLS
    std::vector<uintptr_t> live;
    for (size_t i = 0; i < nblk; ++i) { Hdr *h = (Hdr *)(blk[i] - sizeof(Hdr)); if (h->magic == LIVE) live.push_back(blk[i]); }
    if (live.empty()) return "";
    std::sort(live.begin(), live.end());
    std::vector<char> mark(live.size(), 0);
    std::vector<size_t> work;
    auto scan = [&](uintptr_t a, uintptr_t b) {
        for (a = (a + 7) & ~7ull; a + 8 <= b; a += 8) {
            uintptr_t v = *(uintptr_t *)a;
            if (!in_arena(v)) continue;
            auto it = std::upper_bound(live.begin(), live.end(), v);
            if (it == live.begin()) continue;
            size_t k = it - live.begin() - 1;
            Hdr *h = (Hdr *)(live[k] - sizeof(Hdr));
            if (v <= live[k] + h->size && !mark[k]) { mark[k] = 1; work.push_back(k); }
        }
    };
    scan((uintptr_t)__data_start, (uintptr_t)_end);
    if (tlsi.size) scan((uintptr_t)tlsi.start, (uintptr_t)tlsi.start + tlsi.size);
    for (int i = 0; i < MAXC; ++i) if (ctxs[i].tls) scan((uintptr_t)ctxs[i].tls, (uintptr_t)ctxs[i].tls + tlsi.size);
    while (!work.empty()) { size_t k = work.back(); work.pop_back(); scan(live[k], live[k] + ((Hdr *)(live[k] - 16))->size); }
    size_t n = 0, bytes = 0; std::string sizes;
    for (size_t i = 0; i < live.size(); ++i) if (!mark[i]) { n++; size_t s = ((Hdr *)(live[i] - 16))->size; bytes += s; if (n <= 5) sizes += fmt(" %zu", s); }
    if (!n) return "";
    return fmt("%zu unreachable block(s), %zu bytes (sizes:%s)", n, bytes, sizes.c_str());
}

// ------------------------------------------------------------------ race detector
struct RaceCell { uint32_t w[MAXC], r[MAXC]; uint8_t wm[MAXC], rm[MAXC]; };
static RaceCell *acells, *gcells;
static void race_init() {
    acells = (RaceCell *)mmap((void *)0x200000000000ull, ARENA_SZ / 8 * sizeof(RaceCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    size_t gs = (size_t)(_end - __data_start) / 8 + 2;
    gcells = (RaceCell *)mmap(nullptr, gs * sizeof(RaceCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void race_clear(uintptr_t u, size_t n) {
    memset(acells + ((u - ARENA) >> 3), 0, (n / 8) * sizeof(RaceCell));
}
static std::string g_race_what;
// returns true when another caller has touched the granule (hot spot)
static bool race_access(RaceCell &c, uint8_t mask, bool w, uintptr_t addr) {
    int f = cur->id; bool hot = false;
    for (int g = 0; g < g_n; ++g) if (g != f) {
        if (c.w[g]) hot = true; else if (c.r[g] && w) hot = true;
        if (c.w[g] && (c.wm[g] & mask) && c.w[g] > cur->vc.c[g])
            violation("race", fmt("data race: caller %d %s %s memory at offset %#lx that caller %d wrote, unordered (call #%d of caller %d)", f, w ? "writes" : "reads", in_arena(addr) ? "heap" : "static", (unsigned long)(in_arena(addr) ? addr - ARENA : addr - (uintptr_t)__data_start), g, cur->op, f));
        if (w && c.r[g] && (c.rm[g] & mask) && c.r[g] > cur->vc.c[g])
            violation("race", fmt("data race: caller %d writes %s memory at offset %#lx that caller %d read, unordered (call #%d of caller %d)", f, in_arena(addr) ? "heap" : "static", (unsigned long)(in_arena(addr) ? addr - ARENA : addr - (uintptr_t)__data_start), g, cur->op, f));
    }
    uint32_t me = cur->vc.c[f];
    if (w) { if (c.w[f] == me) c.wm[f] |= mask; else { c.w[f] = me; c.wm[f] = mask; } }
    else { if (c.r[f] == me) c.rm[f] |= mask; else { c.r[f] = me; c.rm[f] = mask; } }
    return hot;
}
static std::map<uintptr_t, VC> *syncs;
static void hb_acquire(uintptr_t a) { if (!g_conc) return; auto it = syncs->find(a); if (it == syncs->end()) return;
    for (int g = 0; g < g_n; ++g) cur->vc.c[g] = std::max(cur->vc.c[g], it->second.c[g]); }
static void hb_release(uintptr_t a) { if (!g_conc) return; VC &v = (*syncs)[a];
    for (int g = 0; g < g_n; ++g) v.c[g] = std::max(v.c[g], cur->vc.c[g]); cur->vc.c[cur->id]++; }

// ------------------------------------------------------------------ scheduler
extern "C" void sim_switch_asm(void **save, void *to);
__asm__(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_asm,.-sim_switch_asm
)");
static void switch_to(Ctx *t) {
    if (t == cur) return;
    Ctx *o = cur;
    o->inlib_saved = g_inlib; g_inlib = 0;
    if (tlsi.size && o->tls) memcpy(o->tls, tlsi.start, tlsi.size);
    memcpy(o->eh, abi::__cxa_get_globals(), 16);
    cur = t;
    if (tlsi.size && t->tls) memcpy(tlsi.start, t->tls, tlsi.size);
    memcpy(abi::__cxa_get_globals(), t->eh, 16);
    sh->switches++;
    sim_switch_asm(&o->sp, t->sp);
    g_inlib = cur->inlib_saved;
}
static bool runnable(int i) { return i < g_n && !ctxs[i].done && !ctxs[i].blocked_on; }
static int pick_other(int self) {
    int c[MAXC], n = 0;
    for (int i = 0; i < g_n; ++i) if (i != self && runnable(i)) c[n++] = i;
    if (!n) return -1;
    return c[srng.below(n)];
}
static void log_sched(int client, int op, uint64_t step, int target) {
    sched_hash = mix(sched_hash, ((uint64_t)client << 56) ^ ((uint64_t)(op + 1) << 40) ^ step ^ ((uint64_t)target << 60));
    trace(sched_hash);
    if (sh->nsched < 4000) { auto &s = sh->sched[sh->nsched++]; s.client = client; s.op = op; s.step = step; s.target = target; }
}
static void arm_preempt() {
    Ctx &c = *cur;
    if (!g_conc) { c.next_preempt = ~0ull; return; }
    if (g_cfg.explicit_sched) {
        c.next_preempt = ~0ull;
        for (auto &s : g_cfg.sched) if (s.client == c.id && s.op == c.op && s.step > c.steps) c.next_preempt = std::min(c.next_preempt, s.step);
    } else c.next_preempt = g_mean ? c.steps + 1 + srng.below(2 * (uint64_t)g_mean) : ~0ull;
}
static void do_preempt() {
    Ctx &c = *cur; int t = -1;
    if (g_cfg.explicit_sched) {
        for (auto &s : g_cfg.sched) if (s.client == c.id && s.op == c.op && s.step == c.steps) { t = s.target; break; }
        if (t >= 0 && !runnable(t)) t = -1;
    } else t = pick_other(c.id);
    if (t >= 0 && t != c.id) { log_sched(c.id, c.op, c.steps, t); switch_to(&ctxs[t]); }
    arm_preempt();
}
static void block_on(const void *what) {       // current caller waits; someone else runs
    Ctx &c = *cur; c.blocked_on = what;
    int t = -1;
    for (int i = 0; i < g_n; ++i) if (runnable(i)) { t = i; break; }
    if (t < 0) violation("deadlock", fmt("all callers blocked (call #%d of caller %d)", c.op, c.id));
    log_sched(c.id, c.op, c.steps, t);
    switch_to(&ctxs[t]);
}
static void wake(const void *what) { for (int i = 0; i < g_n; ++i) if (ctxs[i].blocked_on == what) ctxs[i].blocked_on = nullptr; }

static void fiber_main() {
    Ctx &c = *cur;
    arm_preempt();
    try { (*g_body)(c.id); }
    catch (...) { violation("harness-exception", fmt("exception escaped caller %d", c.id)); }
    c.done = true;
    int t = -1;
    if (g_cfg.explicit_sched) { for (auto &s : g_cfg.sched) if (s.client == c.id && s.op == -1 && s.step == 0) t = s.target; if (t >= 0 && !runnable(t)) t = -1;
        if (t < 0) for (int i = 0; i < g_n; ++i) if (runnable(i)) { t = i; break; } }
    else t = pick_other(c.id);
    if (t < 0) {
        for (int i = 0; i < g_n; ++i) if (!ctxs[i].done) violation("deadlock", "remaining callers blocked for ever");
        switch_to(&mainctx);
    } else { log_sched(c.id, -1, 0, t); switch_to(&ctxs[t]); }
    abort();
}
static char *stacks;
static const size_t STK = 1 << 20;
void run_clients(int n, const std::function<void(int)> &body, uint64_t seed, int mean) {
    g_n = n; srng = Rng(seed); g_mean = mean; g_body = &body; sched_hash = 1;
    if (!stacks) stacks = (char *)mmap((void *)0x300000000000ull, STK * MAXC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    static std::map<uintptr_t, VC> sy; syncs = &sy; sy.clear();
    for (int i = 0; i < n; ++i) {
        Ctx &c = ctxs[i]; char *tls = c.tls; c = Ctx(); c.tls = tls; c.id = i;
        if (tlsi.size) { if (!c.tls) c.tls = (char *)malloc(tlsi.size); memcpy(c.tls, tlsi.start, tlsi.size); }
        uintptr_t top = (uintptr_t)(stacks + STK * (i + 1)) - 64;
        top &= ~15ull;
        void **sp = (void **)top;
        *--sp = nullptr;                      // fake return address keeps alignment
        *--sp = (void *)fiber_main;
        for (int k = 0; k < 6; ++k) *--sp = nullptr;
        c.sp = sp;
        for (int g = 0; g < n; ++g) c.vc.c[g] = 0;
        c.vc.c[i] = 1;
    }
    if (tlsi.size && !mainctx.tls) mainctx.tls = (char *)malloc(tlsi.size);
    g_conc = true; sh->conc_runs++;
    int first = g_cfg.explicit_sched ? 0 : (int)srng.below(n);
    if (g_cfg.explicit_sched) for (auto &s : g_cfg.sched) if (s.client == -1 && s.target < n) first = s.target;
    log_sched(-1, -1, 0, first);
    switch_to(&ctxs[first]);
    g_conc = false;
    uint64_t h = mix64(sched_hash) % BM_BITS; sh->bm_sched[h >> 3] |= 1 << (h & 7);
}

// ------------------------------------------------------------------ calls and fault points
bool skipped(int client, int op) {
    if (op > sh->max_op[client]) sh->max_op[client] = op;
    if (g_cfg.maxops && op >= g_cfg.maxops) return true;
    for (auto &p : g_cfg.skip) if (p.first == client && p.second == op) return true;
    return false;
}
FaultPlan plan_fault(int client, int op, FaultPlan gen) {
    if (g_cfg.explicit_faults) { gen = FaultPlan(); for (auto &f : g_cfg.faults) if (f.client == client && f.op == op) gen = f.f; }
    return gen;
}
void op_begin(int client, int opidx, FaultPlan f, bool cnt) {
    Ctx &c = *cur;
    c.op = opidx; c.steps = 0; c.plan = f; c.fired = false; c.count = cnt; c.in_op = true;
    memset(c.pts, 0, sizeof c.pts);
    sh->ops++;
    if (f.kind) { sh->planned[f.kind]++;
        if (sh->nfault < 400) { auto &x = sh->faults[sh->nfault++]; x.client = client; x.op = opidx; x.kind = f.kind; x.at = f.at; x.sticky = f.sticky; } }
    arm_preempt();
}
void op_end() {
    Ctx &c = *cur;
    c.in_op = false; sh->steps += c.steps;
    trace(c.steps); trace(c.fired);
    for (int k = 1; k < FK_N; ++k) trace(c.pts[k]);
}
uint64_t op_points(int k) { return cur->pts[k]; }
bool op_fired() { return cur->fired; }
uint64_t op_steps() { return cur->steps; }
bool fault_point(int kind) {
    Ctx &c = *cur;
    if (!c.in_op || !c.count) return false;
    uint64_t n = ++c.pts[kind];
    if (c.plan.kind == kind && (n == c.plan.at || (c.plan.sticky && n > c.plan.at))) {
        if (!c.fired) sh->fired[kind]++;
        c.fired = true; return true;
    }
    return false;
}

// ------------------------------------------------------------------ memory accesses
static void heap_bad(uintptr_t a, size_t n, bool w) {
    // find the enclosing / neighbouring block
    std::string where = "outside any block";
    uintptr_t best = 0;
    for (size_t i = 0; i < nblk; ++i) if (blk[i] <= a && blk[i] > best) best = blk[i];
    if (best) {
        Hdr *h = (Hdr *)(best - 16);
        if (a < best + h->size && h->magic == DEAD) where = fmt("inside a freed block of %zu bytes at offset %zu", (size_t)h->size, (size_t)(a - best));
        else where = fmt("%zu bytes past the start of a %s block of %zu bytes", (size_t)(a - best), h->magic == LIVE ? "live" : "freed", (size_t)h->size);
    }
    violation(where[0] == 'i' ? "heap-use-after-free" : "heap-out-of-bounds",
              fmt("%zu-byte %s %s (call #%d of caller %d)", n, w ? "write" : "read", where.c_str(), cur->op, cur->id));
}
static inline bool shadow_ok(uintptr_t a, size_t n) {
    size_t off = a & 7; unsigned char s = shadow[(a - ARENA) >> 3];
    if (off + n <= 8) return off + n <= s;
    size_t first = 8 - off; if (s < 8) return false;
    a += first; n -= first;
    while (n >= 8) { if (shadow[(a - ARENA) >> 3] < 8) return false; a += 8; n -= 8; }
    return !n || shadow[(a - ARENA) >> 3] >= n;
}
static void race_range(uintptr_t a, size_t n, bool w, bool &hot) {
    RaceCell *base; uintptr_t o;
    if (in_arena(a)) { base = acells; o = ARENA; }
    else if (a >= (uintptr_t)__start_simexcl && a < (uintptr_t)__stop_simexcl) return;
    else if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) { base = gcells; o = (uintptr_t)__data_start & ~7ull; }
    else return;
    while (n) {
        size_t off = a & 7, k = std::min<size_t>(8 - off, n);
        uint8_t m = (uint8_t)(((1u << k) - 1) << off);
        hot |= race_access(base[(a - o) >> 3], m, w, a);
        a += k; n -= k;
    }
}
static __attribute__((noinline)) void acc_slow(uintptr_t a, size_t n, bool w) {
    Ctx &c = *cur;
    g_inlib = 0;
    if (++c.steps > STEP_BUDGET && c.in_op) violation("no-progress", fmt("call #%d of caller %d did not finish within %llu memory accesses", c.op, c.id, (unsigned long long)STEP_BUDGET));
    if (in_arena(a) && !shadow_ok(a, n)) heap_bad(a, n, w);
    if (g_conc) {
        // give others a chance first: the access itself happens after we are resumed
        if (c.steps >= c.next_preempt) do_preempt();
        bool hot = false;
        race_range(a, n, w, hot);
        if (hot && !g_cfg.explicit_sched && g_mean && srng.below(8) == 0) c.next_preempt = c.steps + 1;
    }
    g_inlib = 1;
}
static inline void acc(const void *p, size_t n, bool w) { if (g_inlib) acc_slow((uintptr_t)p, n, w); }
} // namespace sim
using namespace sim;

extern "C" {
#define ACC(N) \
void __tsan_read##N(void *p) { acc(p, N, false); } \
void __tsan_write##N(void *p) { acc(p, N, true); } \
void __tsan_unaligned_read##N(void *p) { acc(p, N, false); } \
void __tsan_unaligned_write##N(void *p) { acc(p, N, true); } \
void __tsan_volatile_read##N(void *p) { acc(p, N, false); } \
void __tsan_volatile_write##N(void *p) { acc(p, N, true); } \
void __tsan_read_write##N(void *p) { acc(p, N, true); } \
void __tsan_unaligned_read_write##N(void *p) { acc(p, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }
void __tsan_read_range(void *p, size_t n) { if (n) acc(p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (n) acc(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { acc(s, n, false); acc(d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { acc(s, n, false); acc(d, n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) acc(d, n, true); return memset(d, c, n); }

static void atomic_pt(const volatile void *p) {
    if (!g_inlib) return;
    if (in_arena((uintptr_t)p)) acc((void *)p, 1, false);   // heap validity + scheduling point; ordering below
}
#define ATOM(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int) { atomic_pt(a); T v = __atomic_load_n(a, 5); hb_acquire((uintptr_t)a); return v; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int) { atomic_pt(a); hb_release((uintptr_t)a); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_xor(a, v, 5); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atomic_pt(a); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- locks and one-time initialisation: simulated, there is only one real thread
static std::map<const void *, int> *g_locks;
static int lock_ex(void *m) {
    if (!g_conc || !g_inlib) return 0;
    int il = g_inlib; g_inlib = 0;
    if (!g_locks) g_locks = new std::map<const void *, int>;
    while ((*g_locks)[m]) { block_on(m); }
    (*g_locks)[m] = cur->id + 1; hb_acquire((uintptr_t)m);
    g_inlib = il; return 0;
}
static int unlock_ex(void *m) {
    if (!g_conc || !g_locks) return 0;
    int il = g_inlib; g_inlib = 0;
    auto it = g_locks->find(m);
    if (it != g_locks->end() && it->second) { it->second = 0; hb_release((uintptr_t)m); wake(m); }
    g_inlib = il; return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return lock_ex(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return unlock_ex(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (g_conc && g_inlib && g_locks && (*g_locks)[m]) return EBUSY; return lock_ex(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock_ex(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lock_ex(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlock_ex(m); }

int abi_ga(uint64_t *g) __asm__("__cxa_guard_acquire");
int abi_ga(uint64_t *g) {
    unsigned char *b = (unsigned char *)g;
    int il = g_inlib; g_inlib = 0;
    if (b[0]) { hb_acquire((uintptr_t)g); g_inlib = il; return 0; }
    while (b[1]) {
        if (!g_conc) violation("deadlock", "recursive initialisation of a function-local static");
        block_on(g);
        if (b[0]) { hb_acquire((uintptr_t)g); g_inlib = il; return 0; }
    }
    b[1] = 1; hb_acquire((uintptr_t)g);
    g_inlib = il; return 1;
}
void abi_gr(uint64_t *g) __asm__("__cxa_guard_release");
void abi_gr(uint64_t *g) {
    unsigned char *b = (unsigned char *)g; int il = g_inlib; g_inlib = 0;
    b[1] = 0; hb_release((uintptr_t)g); b[0] = 1; if (g_conc) wake(g); g_inlib = il;
}
void abi_gb(uint64_t *g) __asm__("__cxa_guard_abort");
void abi_gb(uint64_t *g) { unsigned char *b = (unsigned char *)g; b[1] = 0; if (g_conc) wake(g); }
int __cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }
} // extern "C"

// ------------------------------------------------------------------ operator new/delete
static void *do_new(size_t n, size_t align) {
    if (g_inlib) {
        int il = g_inlib; g_inlib = 0;
        if (fault_point(FK_ALLOC)) { g_inlib = il; throw std::bad_alloc(); }
        if (n > (256ull << 20)) { g_inlib = il; throw std::bad_alloc(); }
        void *p = arena_new(n, align);
        g_inlib = il;
        if (!p) { sh->violated = 2; snprintf(sh->cls, 64, "arena-exhausted"); _exit(4); }
        return p;
    }
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_delete(void *p) {
    if (!p) return;
    if (in_arena((uintptr_t)p)) { int il = g_inlib; g_inlib = 0; arena_free(p, il ? "library code" : "caller code"); g_inlib = il; }
    else {
        free(p);
    }
}
void *operator new(size_t n) { return do_new(n, 16); }
void *operator new[](size_t n) { return do_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return do_new(n, 16); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return do_new(n, 16); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }

// ------------------------------------------------------------------ driver
static void on_signal(int s) {
    int il = g_inlib; g_inlib = 0;
    const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : "SIGNAL";
    if (s == SIGVTALRM) violation("no-progress", fmt("call #%d of caller %d used up its processor time limit", cur->op, cur->id));
    violation("crash", fmt("%s in %s code (call #%d of caller %d)", n, il ? "library" : "caller", cur->op, cur->id));
}
static void child_setup() {
    stack_t ss{}; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
    struct itimerval it{}; it.it_value.tv_sec = 40; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void reset_run() {
    sh->violated = 0; sh->trace_hash = 7; sh->nsched = sh->nfault = 0; sh->cls[0] = sh->msg[0] = 0;
    for (int i = 0; i < MAXC; ++i) sh->max_op[i] = -1;
}
// forks a child which executes one run from pristine process state
static int run_child() {
    reset_run();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        child_setup();
        sim_run_one();
        sh->runs++;
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) {
        int e = WEXITSTATUS(st);
        if (e == 0) return 0;
        if (e == 3) return 1;
        return 2;
    }
    if (WIFSIGNALED(st) && !sh->violated) {
        sh->violated = 1; snprintf(sh->cls, 64, "crash"); snprintf(sh->msg, sizeof sh->msg, "killed by signal %d", WTERMSIG(st));
    }
    return 1;
}
static std::string jesc(const char *s) { std::string o; for (; *s; ++s) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if (*s == '\n') o += "\\n"; else if ((unsigned char)*s < 32) o += ' '; else o += *s; } return o; }
static void dump_plan(FILE *f) {     // the complete, explicit plan of the last run
    fprintf(f, "seed %llu\ncfg %s\nmaxdim %d\nmaxops %d\n", (unsigned long long)g_cfg.seed, g_cfg.cfg.c_str(), g_cfg.maxdim, g_cfg.maxops);
    for (int c = 0; c < MAXC; ++c) if (sh->max_op[c] >= 0) fprintf(f, "ops %d %d\n", c, sh->max_op[c] + 1);
    for (auto &s : g_cfg.skip) fprintf(f, "skip %d %d\n", s.first, s.second);
    fprintf(f, "explicit\n");
    for (int i = 0; i < sh->nfault; ++i) fprintf(f, "fault %d %d %s %llu %d\n", sh->faults[i].client, sh->faults[i].op, fault_names[sh->faults[i].kind], (unsigned long long)sh->faults[i].at, sh->faults[i].sticky);
    for (int i = 0; i < sh->nsched; ++i) fprintf(f, "sched %d %d %llu %d\n", sh->sched[i].client, sh->sched[i].op, (unsigned long long)sh->sched[i].step, sh->sched[i].target);
    fprintf(f, "class %s\nhash %016llx\n", sh->violated ? sh->cls : "none", (unsigned long long)sh->trace_hash);
    fprintf(f, "message %s\n", jesc(sh->msg).c_str());
}
static void load_plan(const char *fn) {
    FILE *f = fopen(fn, "r"); if (!f) { perror(fn); exit(2); }
    char line[8192];
    while (fgets(line, sizeof line, f)) {
        char a[64] = "", k[32]; unsigned long long u; int x, y, z, t;
        sscanf(line, "%63s", a);
        if (!strcmp(a, "seed")) { sscanf(line, "seed %llu", &u); g_cfg.seed = u; }
        else if (!strcmp(a, "cfg")) { char b[128]; sscanf(line, "cfg %127s", b); g_cfg.cfg = b; }
        else if (!strcmp(a, "maxdim")) sscanf(line, "maxdim %d", &g_cfg.maxdim);
        else if (!strcmp(a, "maxops")) sscanf(line, "maxops %d", &g_cfg.maxops);
        else if (!strcmp(a, "skip")) { sscanf(line, "skip %d %d", &x, &y); g_cfg.skip.push_back({x, y}); }
        else if (!strcmp(a, "explicit")) { g_cfg.explicit_faults = g_cfg.explicit_sched = true; }
        else if (!strcmp(a, "fault")) { RunCfg::F F; if (sscanf(line, "fault %d %d %31s %llu %d", &x, &y, k, &u, &z) == 5) { F.client = x; F.op = y; F.f.at = u; F.f.sticky = z; for (int i = 0; i < FK_N; ++i) if (!strcmp(k, fault_names[i])) F.f.kind = i; g_cfg.faults.push_back(F); } }
        else if (!strcmp(a, "sched")) { if (sscanf(line, "sched %d %d %llu %d", &x, &y, &u, &t) == 4) g_cfg.sched.push_back({x, y, (uint64_t)u, t}); }
    }
    fclose(f);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOPERS")) {
        setenv("SIM_NOPERS", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execve("/proc/self/exe", argv, environ);
    }
    __libc_single_threaded = 0;
    std::string plan, out, cfgs; uint64_t seed = 1; int start = 0, stride = 1, maxdim = 0; double tlim = 10; long maxruns = 0; bool hashes = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--plan") plan = nx(); else if (a == "--out") out = nx(); else if (a == "--cfg") cfgs = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--start") start = atoi(nx().c_str());
        else if (a == "--stride") stride = atoi(nx().c_str()); else if (a == "--time") tlim = atof(nx().c_str());
        else if (a == "--maxruns") maxruns = atol(nx().c_str()); else if (a == "--hashes") hashes = true; else if (a == "--log") g_log = true;
        else if (a == "--maxdim") maxdim = atoi(nx().c_str());
    }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    arena_init(); race_init();
    dl_iterate_phdr(tls_cb, nullptr);
    if (!plan.empty()) {
        load_plan(plan.c_str());
        if (maxdim) g_cfg.maxdim = maxdim;
        int r = run_child();
        FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
        dump_plan(f); fprintf(f, "result %d\n", r);
        if (f != stdout) fclose(f);
        return r == 0 ? 0 : r == 1 ? 1 : 2;
    }
    std::vector<std::string> cl; { std::string t; for (char c : cfgs + ",") if (c == ',') { if (!t.empty()) cl.push_back(t); t.clear(); } else t += c; }
    double t0 = now(); long n = 0; int rc = 0;
    for (uint64_t i = start; ; i += stride) {
        if (maxruns ? n >= maxruns : now() - t0 > tlim) break;
        g_cfg = RunCfg(); g_cfg.seed = mix(seed, i) >> 1; g_cfg.cfg = cl[(mix(seed, i) >> 20) % cl.size()]; g_cfg.maxdim = maxdim;
        rc = run_child(); ++n;
        if (hashes) printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)sh->trace_hash);
        if (rc) break;
    }
    double wall = now() - t0;
    if (!out.empty()) {
        FILE *f = fopen((out + ".json").c_str(), "w");
        fprintf(f, "{\"runs\":%llu,\"evals\":%llu,\"steps\":%llu,\"switches\":%llu,\"ops\":%llu,\"conc_runs\":%llu,\"max_live_blocks\":%llu,\"wall\":%.3f,\"rc\":%d,\"fired\":{",
            (unsigned long long)sh->runs, (unsigned long long)sh->evals, (unsigned long long)sh->steps, (unsigned long long)sh->switches, (unsigned long long)sh->ops, (unsigned long long)sh->conc_runs, (unsigned long long)sh->max_live, wall, rc);
        for (int k = 1; k < FK_N; ++k) fprintf(f, "%s\"%s\":%llu", k > 1 ? "," : "", fault_names[k], (unsigned long long)sh->fired[k]);
        fprintf(f, "},\"planned\":{");
        for (int k = 1; k < FK_N; ++k) fprintf(f, "%s\"%s\":%llu", k > 1 ? "," : "", fault_names[k], (unsigned long long)sh->planned[k]);
        fprintf(f, "},\"probes\":{");
        bool first = true;
        for (int k = 0; k < NPROBE && sh->probes[k].name[0]; ++k) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", sh->probes[k].name, (unsigned long long)sh->probes[k].n); first = false; }
        fprintf(f, "}}\n"); fclose(f);
        f = fopen((out + ".bm").c_str(), "wb"); fwrite(sh->bm_eval, 1, sizeof sh->bm_eval, f); fwrite(sh->bm_sched, 1, sizeof sh->bm_sched, f); fclose(f);
        if (rc == 1) { f = fopen((out + ".plan").c_str(), "w"); dump_plan(f); fclose(f); }
    }
    if (rc == 2) { fprintf(stderr, "harness error seed %llu cfg %s: %s %s\n", (unsigned long long)g_cfg.seed, g_cfg.cfg.c_str(), sh->cls, sh->msg); return 2; }
    return rc;
}

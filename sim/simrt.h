// Interface between the simulator runtime (simrt.cpp, uninstrumented) and the
// harness translation units (instrumented, contain the real GBTL code).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- PRNG: splitmix/xorshift, everything is derived from one seed --------
inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b + 0x51ed27)); }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    bool coin() { return next() & 1; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

enum FaultKind { FK_NONE = 0, FK_ALLOC = 1, FK_CALL = 2, FK_COPY = 3, FK_ITER = 4, FK_STREAM = 5, FK_N = 6 };
extern const char *fault_names[FK_N];

struct UserFault { int kind; uint64_t id; };   // what a failing callable/copy/iterator throws

struct FaultPlan { int kind = FK_NONE; uint64_t at = 0; int sticky = 0; };

enum { MAXC = 4 };

// ---- state of the current simulated caller -------------------------------
// harness-side globals that instrumented code touches: not part of the system under test
#define SIM_EXCL __attribute__((section("simexcl")))
extern int g_inlib;                  // 1 while library code runs for the current caller
struct LibScope { int old; LibScope() : old(g_inlib) { g_inlib = 1; __asm__ volatile("" ::: "memory"); }
    ~LibScope() { __asm__ volatile("" ::: "memory"); g_inlib = old; } };
struct HarnessScope { int old; HarnessScope() : old(g_inlib) { g_inlib = 0; __asm__ volatile("" ::: "memory"); }
    ~HarnessScope() { __asm__ volatile("" ::: "memory"); g_inlib = old; } };

// begin/end of one library call of the current caller
void op_begin(int client, int opidx, FaultPlan f, bool count_faults);
void op_end();
uint64_t op_points(int kind);        // fault points of that kind passed in the current/last call
bool op_fired();                     // did the planned fault fire in the current/last call
uint64_t op_steps();                 // memory accesses in the current/last call
bool fault_point(int kind);          // true: fail here

void *lib_alloc(size_t n);           // arena allocation on behalf of a caller (no fault)

// ---- reporting -----------------------------------------------------------
[[noreturn]] void violation(const char *cls, const std::string &msg);
void note(const std::string &line);  // op log of the run (not the PRNG, not the clock)
void probe(const char *name, uint64_t n = 1);
void trace(uint64_t v);              // folded into the run's trace hash
void eval(uint64_t signature);       // one checked evaluation with its distinctness signature
bool want_log();

// ---- arena / leak --------------------------------------------------------
void arena_mode(int lifo);           // 0: FIFO with quarantine, 1: immediate LIFO address reuse
std::string leak_check();            // "" or a description of unreachable live blocks
uint64_t arena_live();

// ---- concurrency ---------------------------------------------------------
// runs the clients as fibers until all finish; every interleaving decision is the simulator's
void run_clients(int n, const std::function<void(int)> &body, uint64_t sched_seed, int preempt_mean);
int  current_client();

// ---- run configuration ---------------------------------------------------
struct RunCfg {
    uint64_t seed = 0;
    std::string cfg;                 // configuration name (mode)
    int maxdim = 0;                  // 0: generator's choice
    int maxops = 0;                  // 0: all
    std::vector<std::pair<int,int>> skip;           // (client, op) not to be executed
    bool explicit_faults = false;
    struct F { int client, op; FaultPlan f; };
    std::vector<F> faults;
    bool explicit_sched = false;
    struct S { int client, op; uint64_t step; int target; };
    std::vector<S> sched;
};
extern RunCfg g_cfg;
bool skipped(int client, int op);
// the fault to inject in this call: `gen` unless the run is replayed from an explicit plan
FaultPlan plan_fault(int client, int op, FaultPlan gen);

// provided by the harness: executes one complete simulated run described by g_cfg
} // namespace sim
void sim_run_one();
const char *sim_harness_name();

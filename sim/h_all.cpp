// Every operation and container call over one shared pool of objects (cross-cutting properties).
// Compiled in parts (SIM_PART), linked together.
#define SIM_LITE 1   // fewer index-sequence combinations; the extract and assign groups have them all
#include "ops2.hpp"
#include "cont.hpp"
namespace sim {
#define DECL(n) void part##n(NamedClient &c, int idx);
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7)
#define BOTH(f) { if (c.r.chance(60)) f<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx); else f<Sx, Sx, Sx, bool, Sx>(c, idx); }
#define BOTHX(f, ...) { if (c.r.chance(60)) f<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx, __VA_ARGS__); else f<Sx, Sx, Sx, bool, Sx>(c, idx, __VA_ARGS__); }
#define BOTH3(f) { if (c.r.chance(60)) f<int64_t, int64_t, int64_t>(c, idx); else f<Sx, Sx, bool>(c, idx); }
#define BOTH3X(f, ...) { if (c.r.chance(60)) f<int64_t, int64_t, int64_t>(c, idx, __VA_ARGS__); else f<Sx, Sx, bool>(c, idx, __VA_ARGS__); }
#define BOTH4(f) { if (c.r.chance(60)) f<int64_t, int64_t, int64_t, int64_t>(c, idx); else f<Sx, Sx, bool, Sx>(c, idx); }
#if SIM_PART == 0
void part0(NamedClient &c, int idx) { BOTH(step_mxm) }
const char *group_name = "all";
void group_params(Rng &r) { P.maxslots = (size_t)r.range(6, 18); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, int32_t, double, Sx>(c, s); }
void group_shared(NamedClient &c) {
    size_t a = rdim(c), b = rdim(c);
    newM<int64_t>(c, a, b); newM<int64_t>(c, b, b); newM<bool>(c, a, b); newV<int64_t>(c, a); newV<bool>(c, b);
    if (c.r.coin()) { newM<Sx>(c, a, a); newV<Sx>(c, a); newM<int32_t>(c, a, b); newV<int32_t>(c, a); }
}
void group_step(NamedClient &c, int idx) {
    static const int w[] = {15, 11, 13, 11, 15, 13, 10, 12};
    int k = (int)c.r.below(100), q = 0;
    while (k >= w[q]) k -= w[q++];
    switch (q) { case 0: part0(c, idx); break; case 1: part1(c, idx); break; case 2: part2(c, idx); break; case 3: part3(c, idx); break; case 4: part4(c, idx); break; case 5: part5(c, idx); break; case 6: part6(c, idx); break; default: part7(c, idx); }
}
#elif SIM_PART == 1
void part1(NamedClient &c, int idx) { bool x = c.r.coin(); BOTHX(step_mxv, x) }
#elif SIM_PART == 2
void part2(NamedClient &c, int idx) { bool x = c.r.coin(); if (c.r.chance(60)) BOTHX(step_ew_m, x) else BOTHX(step_ew_v, x) }
#elif SIM_PART == 3
void part3(NamedClient &c, int idx) { switch (c.r.below(4)) { case 0: BOTH3(step_ex_v) break; case 1: BOTH3(step_ex_col) break; default: BOTH3(step_ex_m) } }
#elif SIM_PART == 4
void part4(NamedClient &c, int idx) { switch (c.r.below(7)) { case 0: BOTH3(step_as_v) break; case 1: BOTH3X(step_as_rc, true) break; case 2: BOTH3X(step_as_rc, false) break; case 3: BOTH3(step_as_cv) break; case 4: BOTH3(step_as_cm) break; default: BOTH3(step_as_m) } }
#elif SIM_PART == 5
void part5(NamedClient &c, int idx) { switch (c.r.below(7)) { case 0: BOTH(step_ap_v) break; case 1: { bool x = c.r.coin(); if (c.r.coin()) step_re_s<int64_t, int64_t, int64_t>(c, idx, x); else step_re_s<Sx, Sx, Sx>(c, idx, x); break; } case 2: case 3: BOTH4(step_re_v) break; default: BOTH(step_ap_m) } }
#elif SIM_PART == 6
void part6(NamedClient &c, int idx) { if (c.r.coin()) BOTH3(step_tr) else BOTH(step_kr) }
#else
void part7(NamedClient &c, int idx) { if (g_mode.repeat && c.r.chance(60)) { if (c.r.coin()) step_copy<int64_t>(c, idx); else step_copy<Sx>(c, idx); return; } bool v = c.r.coin(); if (c.r.chance(60)) v ? step_vector<int64_t>(c, idx) : step_matrix<int64_t>(c, idx); else v ? step_vector<Sx>(c, idx) : step_matrix<Sx>(c, idx); }
#endif
}

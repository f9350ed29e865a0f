#include "ops2.hpp"
// compiled in two parts (SIM_PART), linked together
namespace sim {
template <class TA, class TC, class TM> void st(NamedClient &c, int idx) {
    switch (c.r.below(4)) { case 0: step_ex_v<TA, TC, TM>(c, idx); break; case 1: step_ex_col<TA, TC, TM>(c, idx); break; default: step_ex_m<TA, TC, TM>(c, idx); }
}
void part0(NamedClient &c, int idx, int k); void part1(NamedClient &c, int idx, int k);
#if SIM_PART == 0
void part0(NamedClient &c, int idx, int k) { if (k) st<int32_t, double, bool>(c, idx); else st<int64_t, int64_t, int64_t>(c, idx); }
const char *group_name = "extract";
void group_params(Rng &r) { allow_wide(r); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, int32_t, double, Sx>(c, s); }
void group_shared(NamedClient &c) { for (int i = 0; i < 2; ++i) { newM<int64_t>(c, rdim(c), rdim(c)); newM<bool>(c, rdim(c), rdim(c)); newV<int64_t>(c, rdim(c)); newV<bool>(c, rdim(c)); } }
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(5)) {
    default: part0(c, idx, 0); break;
    case 1: part0(c, idx, 1); break;
    case 2: part1(c, idx, 0); break;
    case 3: part1(c, idx, 1); break;
    }
}
#else
void part1(NamedClient &c, int idx, int k) { if (k) st<int64_t, bool, double>(c, idx); else st<Sx, Sx, bool>(c, idx); }
#endif
}

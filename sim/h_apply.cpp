#include "ops2.hpp"
namespace sim {
const char *group_name = "apply";
void group_params(Rng &) {}
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, int32_t, double, Sx>(c, s); }
void group_shared(NamedClient &c) { for (int i = 0; i < 2; ++i) { newM<int64_t>(c, rdim(c), rdim(c)); newM<bool>(c, rdim(c), rdim(c)); newV<int64_t>(c, rdim(c)); newV<bool>(c, rdim(c)); } }
template <class TA, class TS, class TC, class TM, class D3> void st(NamedClient &c, int idx) {
    switch (c.r.below(7)) { case 0: step_ap_v<TA, TS, TC, TM, D3>(c, idx); break; case 1: step_re_s<TA, TC, D3>(c, idx, true); break; case 2: step_re_s<TA, TC, D3>(c, idx, false); break;
    case 3: case 4: step_re_v<TA, TC, TM, D3>(c, idx); break; default: step_ap_m<TA, TS, TC, TM, D3>(c, idx); }
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(5)) {
    default: st<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx); break;
    case 1: st<int32_t, double, double, bool, double>(c, idx); break;
    case 2: st<Sx, Sx, Sx, bool, Sx>(c, idx); break;
    case 3: st<int64_t, bool, bool, double, int64_t>(c, idx); break;
    }
}
}

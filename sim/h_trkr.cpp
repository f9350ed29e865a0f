#include "ops2.hpp"
namespace sim {
const char *group_name = "trkr";
void group_params(Rng &r) { allow_wide(r); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, int32_t, double, Sx>(c, s); }
void group_shared(NamedClient &c) { for (int i = 0; i < 3; ++i) { newM<int64_t>(c, rdim(c), rdim(c)); newM<bool>(c, rdim(c), rdim(c)); } }
template <class TA, class TB, class TC, class TM, class D3> void st(NamedClient &c, int idx) {
    if (c.r.coin()) step_tr<TA, TC, TM>(c, idx); else step_kr<TA, TB, TC, TM, D3>(c, idx);
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(5)) {
    default: st<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx); break;
    case 1: st<int32_t, double, double, bool, double>(c, idx); break;
    case 2: st<Sx, Sx, Sx, bool, Sx>(c, idx); break;
    case 3: st<int64_t, bool, bool, double, int64_t>(c, idx); break;
    }
}
}

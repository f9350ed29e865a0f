#include "ops.hpp"
namespace sim {
const char *group_name = "mxm";
void group_params(Rng &) {}
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, int32_t, double, Sx>(c, s); }
void group_shared(NamedClient &c) { for (int i = 0; i < 3; ++i) { newM<int64_t>(c, rdim(c), rdim(c)); newM<bool>(c, rdim(c), rdim(c)); } }
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(6)) {
    default: step_mxm<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx); break;
    case 1: step_mxm<int32_t, double, double, bool, double>(c, idx); break;
    case 2: step_mxm<double, int32_t, int32_t, double, double>(c, idx); break;
    case 3: step_mxm<Sx, Sx, Sx, bool, Sx>(c, idx); break;
    case 4: step_mxm<bool, bool, bool, bool, bool>(c, idx); break;
    }
}
}

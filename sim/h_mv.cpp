#include "ops.hpp"
namespace sim {
const char *group_name = "mv";
void group_params(Rng &) {}
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, int32_t, double, Sx>(c, s); }
void group_shared(NamedClient &c) { for (int i = 0; i < 3; ++i) { newM<int64_t>(c, rdim(c), rdim(c)); newV<int64_t>(c, rdim(c)); newV<bool>(c, rdim(c)); } }
void group_step(NamedClient &c, int idx) {
    bool vxm = c.r.coin();
    switch (c.r.below(6)) {
    default: step_mxv<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx, vxm); break;
    case 1: step_mxv<int32_t, double, double, bool, double>(c, idx, vxm); break;
    case 2: step_mxv<double, int32_t, int32_t, double, double>(c, idx, vxm); break;
    case 3: step_mxv<Sx, Sx, Sx, bool, Sx>(c, idx, vxm); break;
    case 4: step_mxv<bool, bool, bool, bool, bool>(c, idx, vxm); break;
    }
}
}

// Containers: Matrix (C02) and Vector (C03) as finite maps under any history.
#include "cont.hpp"
namespace sim {
const char *group_name = "container";
void group_params(Rng &r) { P.nops = (int)r.range(4, g_mode.faults ? 14 : 36); P.maxslots = (size_t)r.range(2, 8); allow_wide(r);
    if (cfg_has("gvec") && !g_mode.faults && !g_mode.conc && r.chance(1)) { P.huge = 65530 + r.below(600); P.nops = (int)r.range(2, 5); } }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, double, Sx>(c, s); }
void group_shared(NamedClient &c) { for (int i = 0; i < 2; ++i) { newM<int64_t>(c, rdim(c), rdim(c)); newV<int64_t>(c, rdim(c)); newM<bool>(c, rdim(c), rdim(c)); newV<Sx>(c, rdim(c)); } }

void group_step(NamedClient &c, int idx) {
    bool v = cfg_has("gvec") || (!cfg_has("gmat") && c.r.coin());
    switch (c.r.below(5)) {
    default: v ? step_vector<int64_t>(c, idx) : step_matrix<int64_t>(c, idx); break;
    case 1: v ? step_vector<double>(c, idx) : step_matrix<double>(c, idx); break;
    case 2: v ? step_vector<Sx>(c, idx) : step_matrix<Sx>(c, idx); break;
    case 3: v ? step_vector<bool>(c, idx) : step_matrix<bool>(c, idx); break;
    }
}
}

// C21: breadth-first search, every variant.
#include "graphs.hpp"
#include <algorithms/appendix_algorithms.hpp>
namespace sim {
const char *group_name = "bfs";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::min<size_t>(d, r.chance(75) ? 12 : 40); P.churn = 20 + (int)r.below(60); P.maxslots = (size_t)r.range(4, 12); if (g_mode.faults) P.nops = std::min(P.nops, 4); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_gs<bool, int64_t, int8_t, uint32_t, uint64_t, double>(c, s); }
enum { KIND = W_UNIT * G_W, KINDW = W_NZ * G_W };
void group_shared(NamedClient &c) { newG<bool>(c, gdim(c, 20), KIND); newG<int64_t>(c, gdim(c, 20), KIND); newG<int64_t>(c, gdim(c, 20), KINDW); newG<int8_t>(c, gdim(c, 20), KINDW); }

template <class TG, class TO> DM<TO> ref_parents(DM<TG> const &g, vector<size_t> const &src) {
    auto h = ref_hops(g, src); DM<TO> o(g.r, 1);
    for (size_t v = 0; v < g.r; ++v) if (h[v] == 0) o.set(v, 0, (TO)v); else if (h[v] != UNREACHED) for (size_t u = 0; u < g.r; ++u) if (h[u] != UNREACHED && h[u] + 1 == h[v] && g.at(u, v).has) { o.set(v, 0, (TO)u); break; }
    return o;
}
template <class TG, class TO> DM<TO> ref_levels(DM<TG> const &g, vector<size_t> const &src) {
    auto h = ref_hops(g, src); DM<TO> o(g.r, 1); for (size_t v = 0; v < g.r; ++v) if (h[v] != UNREACHED) o.set(v, 0, (TO)(h[v] + 1)); return o;
}
inline vector<size_t> sources(NamedClient &c, size_t N) { vector<size_t> s; size_t k = c.r.chance(60) ? 1 : c.r.below(4); for (size_t i = 0; i < k; ++i) { size_t x = c.r.below(N); if (std::find(s.begin(), s.end(), x) == s.end()) s.push_back(x); } return s; }
inline string lst(vector<size_t> const &v) { string s = "{"; for (auto x : v) s += " " + std::to_string(x); return s + " }"; }

// vector-valued variants
template <class TG, class TO, class TW> void vec_step(NamedClient &c, int idx) {
    int var = (int)c.r.below(8); bool parents = var < 2 || var == 7;
    auto *g = getG<TG>(c, c.r.coin() ? KIND : KINDW, hcap(40)); size_t N = g->m.r;
    auto src = sources(c, N); bool single = var == 0 || var == 2 || var > 4; if (single && src.size() != 1) src.assign(1, c.r.below(N));
    static const char *nm[] = {"bfs", "bfs (wavefront)", "bfs_level", "bfs_level_masked", "bfs_level_masked_v2", "bfs_level_appendixB1", "bfs_level_appendixB2", "bfs_parent_appendixB3"};
    Op op; op.kind = nm[var]; op.desc = string(nm[var]) + "<" + TN<TG>::n() + "->" + TN<TO>::n() + "> from " + lst(src); op.sig = mix(var, mix(g->hash(), src.empty() ? 0 : src[0]));
    op.s[0] = getOV<TO>(c, N); op.s[2] = g;
    VSlot<TW> *w = nullptr;
    if (!single) { w = newV<TW>(c, N); w->m = DM<TW>(N, 1); for (auto s : src) w->m.set(s, 0, (TW)1); w->rebuild(); op.s[3] = w; }
    op.model = [=](SlotBase **s) { auto *o = (VSlot<TO> *)s[0]; o->exp = parents ? ref_parents<TG, TO>(graph_of<TG>(s[2]), src) : ref_levels<TG, TO>(graph_of<TG>(s[2]), src); };
    op.exec = [=](SlotBase **s) {
        auto &o = vlib_of<TO>(s[0]); auto &G = lib_of<TG>(s[2]);
        if (!parents) o.clear();
        switch (var) {
        case 0: algorithms::bfs(G, src[0], o); break;
        case 1: algorithms::bfs(G, vlib_of<TW>(s[3]), o); break;
        case 2: algorithms::bfs_level(G, src[0], o); break;
        case 3: algorithms::bfs_level_masked(G, vlib_of<TW>(s[3]), o); break;
        case 4: algorithms::bfs_level_masked_v2(G, vlib_of<TW>(s[3]), o); break;
        case 5: algorithms::bfs_level_appendixB1(o, G, src[0]); break;
        case 6: algorithms::bfs_level_appendixB2(o, G, src[0]); break;
        default: algorithms::bfs_parent_appendixB3(o, G, src[0]); break;
        }
    };
    run_op(c, idx, op);
    if (w && !c.own.empty()) { c.own.erase(std::find(c.own.begin(), c.own.end(), w)); delete w; }
}
// one search per row of a wavefront matrix
template <class TG, class TO, class TW> void mat_step(NamedClient &c, int idx) {
    int var = (int)c.r.below(3);
    auto *g = getG<TG>(c, c.r.coin() ? KIND : KINDW, 24); size_t N = g->m.r, R = c.r.chance(40) ? N : 1 + c.r.below(5);
    vector<vector<size_t>> src(R); string d; for (auto &s : src) { s = sources(c, N); d += lst(s); }
    static const char *nm[] = {"bfs_batch", "bfs_level (matrix)", "batch_bfs_level_masked"};
    Op op; op.kind = nm[var]; op.desc = string(nm[var]) + "<" + TN<TG>::n() + "->" + TN<TO>::n() + "> from " + d.substr(0, 300); op.sig = mix(20 + var, mix(g->hash(), R));
    op.s[0] = getOM<TO>(c, R, N); op.s[2] = g;
    auto *w = newM<TW>(c, R, N); w->m = DM<TW>(R, N); for (size_t q = 0; q < R; ++q) for (auto s : src[q]) w->m.set(q, s, (TW)1); w->rebuild(); op.s[3] = w;
    op.model = [=](SlotBase **s) { auto *o = (MSlot<TO> *)s[0]; o->exp = DM<TO>(R, N);
        for (size_t q = 0; q < R; ++q) { auto v = var == 0 ? ref_parents<TG, TO>(graph_of<TG>(s[2]), src[q]) : ref_levels<TG, TO>(graph_of<TG>(s[2]), src[q]); for (size_t i = 0; i < N; ++i) o->exp.at(q, i) = v.at(i, 0); } };
    op.exec = [=](SlotBase **s) {
        auto &o = lib_of<TO>(s[0]); auto &G = lib_of<TG>(s[2]); auto &W = lib_of<TW>(s[3]);
        if (var) o.clear();
        if (var == 0) algorithms::bfs_batch(G, W, o); else if (var == 1) algorithms::bfs_level(G, W, o); else algorithms::batch_bfs_level_masked(G, W, o);
    };
    run_op(c, idx, op);
    c.own.erase(std::find(c.own.begin(), c.own.end(), w)); delete w;
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(8)) {
    case 0: vec_step<bool, uint64_t, uint64_t>(c, idx); break;
    case 1: case 2: vec_step<int64_t, uint64_t, uint64_t>(c, idx); break;
    case 3: vec_step<int8_t, uint32_t, uint64_t>(c, idx); break;
    case 4: vec_step<double, int64_t, int64_t>(c, idx); break;
    case 5: mat_step<int64_t, uint64_t, uint64_t>(c, idx); break;
    case 6: mat_step<int8_t, uint32_t, uint64_t>(c, idx); break;
    default: mat_step<bool, int64_t, uint64_t>(c, idx); break;
    }
}
}

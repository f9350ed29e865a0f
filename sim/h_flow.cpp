// C24: minimum spanning tree and maximum flow.
#include "graphs.hpp"
namespace sim {
const char *group_name = "flow";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::max<size_t>(2, std::min<size_t>(d, r.chance(75) ? 8 : 18)); P.churn = 20 + (int)r.below(60); P.maxslots = (size_t)r.range(4, 12); if (g_mode.faults) P.nops = std::min(P.nops, 3); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_gs<int64_t, int32_t, uint32_t, uint64_t, double>(c, s); }
enum { MG = G_UND | G_NOLOOP | G_CONN, CAP = W_NONNEG * G_W, CAPB = W_BIG * G_W };
void group_shared(NamedClient &c) { newG<int64_t>(c, gdim(c, 12), MG | W_POS * G_W); newG<double>(c, gdim(c, 12), CAP); newG<int32_t>(c, gdim(c, 12), CAPB); newG<int64_t>(c, gdim(c, 12), CAP); }

template <class T> int64_t ref_mst(DM<T> const &g) {           // Kruskal
    vector<std::array<int64_t, 3>> e; for (size_t i = 0; i < g.r; ++i) for (size_t j = i + 1; j < g.r; ++j) if (g.at(i, j).has) e.push_back({(int64_t)g.at(i, j).v, (int64_t)i, (int64_t)j});
    std::sort(e.begin(), e.end()); vector<int64_t> p(g.r); for (size_t i = 0; i < g.r; ++i) p[i] = i;
    std::function<int64_t(int64_t)> f = [&](int64_t x) { while (p[x] != x) x = p[x]; return x; };
    int64_t w = 0; for (auto &x : e) { auto a = f(x[1]), b = f(x[2]); if (a != b) { p[a] = b; w += x[0]; } } return w;
}
template <class T> int64_t ref_flow(DM<T> const &g, size_t s, size_t t) {
    size_t N = g.r; vector<vector<int64_t>> r(N, vector<int64_t>(N, 0)); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (i != j && g.at(i, j).has) r[i][j] = (int64_t)g.at(i, j).v;
    int64_t flow = 0;
    for (;;) { vector<size_t> par(N, UNREACHED), q{s}; par[s] = s; for (size_t h = 0; h < q.size(); ++h) for (size_t v = 0; v < N; ++v) if (r[q[h]][v] > 0 && par[v] == UNREACHED) { par[v] = q[h]; q.push_back(v); }
        if (par[t] == UNREACHED) return flow;
        int64_t m = INT64_MAX; for (size_t v = t; v != s; v = par[v]) m = std::min(m, r[par[v]][v]); for (size_t v = t; v != s; v = par[v]) { r[par[v]][v] -= m; r[v][par[v]] += m; } flow += m; }
}
template <class T> void mst_step(NamedClient &c, int idx) {
    int w[] = {W_POS, W_NONNEG, W_SIGNED, W_BIG}; auto *g = getG<T>(c, MG | w[c.r.below(4)] * G_W, 18); size_t N = g->m.r;
    Op op; op.kind = "mst"; op.desc = string("mst<") + TN<T>::n() + ">"; op.sig = mix(50, g->hash()); op.s[2] = g;
    struct R { int64_t w = 0; vector<std::pair<size_t, size_t>> p; size_t n = 0; }; auto ret = std::make_shared<R>(); bool dirty = c.r.coin();
    op.pre = [=] { *ret = R(); };
    op.exec = [=](SlotBase **s) {
        grb::Vector<grb::IndexType> par(N); if (dirty) par.setElement(N - 1, 7);
        T w = algorithms::mst(lib_of<T>(s[2]), par);
        grb::IndexArrayType I(par.nvals()), V(par.nvals()); par.extractTuples(I.begin(), V.begin());
        HarnessScope h; ret->w = (int64_t)w; ret->n = I.size(); for (size_t i = 0; i < I.size(); ++i) ret->p.push_back({I[i], V[i]});
    };
    op.digest = [=]() -> string { return digest_of(ret->w) + digest_of(ret->p); };
    op.post = [=]() -> string {
        int64_t w = ref_mst(g->m); if (ret->w != w) return "tree weight is " + std::to_string(ret->w) + " instead of " + std::to_string(w);
        vector<size_t> par(N, UNREACHED); int64_t sum = 0;
        for (auto &x : ret->p) { if (x.first >= N || x.second >= N) return "a parent is no vertex"; par[x.first] = x.second; if (x.first == 0 && x.second == 0) continue; if (!g->m.at(x.second, x.first).has) return "tree edge " + std::to_string(x.second) + "-" + std::to_string(x.first) + " is no edge of the graph"; sum += (int64_t)g->m.at(x.second, x.first).v; }
        for (size_t v = 1; v < N; ++v) { size_t u = v; for (size_t k = 0; k < N && u != 0; ++k) { u = par[u]; if (u == UNREACHED) return "vertex " + std::to_string(v) + " is not connected to the root by the parents"; } if (u) return "the parents contain a cycle"; }
        return sum == w ? "" : "the edges of the tree weigh " + std::to_string(sum) + " instead of " + std::to_string(w);
    };
    run_op(c, idx, op);
}
// networks on which shortest augmenting paths are needed more often than there are edges (found by annealing)
const int HARD0[][3] = {{11,13,60},{0,8,25},{7,5,15},{12,2,26},{10,9,63},{0,3,94},{1,9,44},{8,13,54},{12,4,68},{9,13,100},{4,1,75},{8,6,42},{3,1,1},{5,4,5},{0,4,38},{3,8,36},{11,2,11},{3,11,23},{8,4,1},{6,12,6},{2,13,35},{6,2,10},{1,2,3},{1,8,3},{3,10,6},{6,11,54},{0,1,32},{7,12,84},{0,7,83},{10,2,1},{4,11,45},{6,10,51},{0,6,34},{3,13,33},{5,2,2},{6,1,31},{1,5,5},{4,6,3},{6,5,7},{5,13,14}};
const int HARD1[][3] = {{1,11,55},{2,3,7},{10,11,73},{1,4,5},{8,7,87},{5,10,81},{2,1,9},{0,2,55},{7,4,26},{5,4,4},{5,3,28},{9,1,26},{7,6,23},{0,9,96},{5,1,41},{6,11,30},{4,11,71},{0,7,7},{6,4,54},{0,5,79},{9,8,66},{2,11,31},{9,3,27},{7,2,1},{0,6,46},{1,6,1},{6,3,4},{7,1,1},{3,11,79},{2,10,15},{8,3,26},{7,3,2},{8,6,21},{2,4,12},{0,8,42}};
const int HARD2[][3] = {{9,1,31},{1,11,29},{2,7,11},{9,7,3},{6,1,3},{3,7,4},{2,5,3},{0,2,36},{0,9,58},{6,5,73},{6,4,36},{4,7,60},{9,5,4},{7,11,17},{4,11,40},{5,11,88},{2,8,75},{3,2,32},{0,10,96},{9,6,1},{2,1,17},{0,6,71},{9,3,35},{3,6,8},{10,4,82},{9,4,2},{1,7,5},{8,11,86},{7,5,85},{1,5,1}};
template <class T> GSlot<T> *hard_net(NamedClient &c, int kind) {
    int k = (int)c.r.below(3), f = 1 + (int)c.r.below(3); size_t nn[] = {14, 12, 12}; DM<T> m(nn[k], nn[k]);
    auto fill = [&](auto const &h) { for (auto &e : h) m.set(e[0], e[1], (T)(e[2] * f)); };
    if (k == 0) fill(HARD0); else if (k == 1) fill(HARD1); else fill(HARD2);
    for (size_t q = c.r.coin() ? 0 : 1 + c.r.below(3); q; --q) gset(m, c.r.below(nn[k]), c.r.below(nn[k]), kind | G_NOLOOP, c.r);
    auto *s = new GSlot<T>(m, newname(c, "G"), newbs(c), kind); c.own.push_back(s); return s;
}
template <class T> void flow_step(NamedClient &c, int idx) {
    int var = (int)c.r.below(2); int kind = c.r.chance(40) ? CAP : c.r.coin() ? CAPB : G_NOLOOP | W_UNIT * G_W;
    bool hard = kind == CAPB && c.r.chance(25);
    auto *g = hard ? hard_net<T>(c, kind) : getG<T>(c, kind, 18); size_t N = g->m.r; if (N < 2) return;
    size_t s = c.r.below(N), t = c.r.below(N - 1); if (t >= s) ++t;
    if (hard && c.r.chance(85)) { s = 0; t = N - 1; }
    const char *nm = var ? "maxflow_ford_fulk" : "maxflow_push_relabel";
    value_op<int64_t>(c, idx, nm, string(nm) + "<" + TN<T>::n() + "> from " + std::to_string(s) + " to " + std::to_string(t), g,
        [=](SlotBase *x) -> int64_t { auto const &G = lib_of<T>(x); return var ? (int64_t)algorithms::maxflow_ford_fulk(G, s, t) : (int64_t)algorithms::maxflow_push_relabel(G, s, t); },
        [=](int64_t got) -> string { int64_t w = ref_flow(g->m, s, t); return got == w ? "" : "maximum flow is " + std::to_string(got) + " instead of " + std::to_string(w); });
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(7)) {
    case 0: mst_step<int64_t>(c, idx); break; case 1: mst_step<double>(c, idx); break; case 2: mst_step<uint32_t>(c, idx); break;
    case 3: flow_step<int64_t>(c, idx); break; case 4: flow_step<int32_t>(c, idx); break; case 5: flow_step<double>(c, idx); break;
    default: mst_step<int32_t>(c, idx); break;
    }
}
}

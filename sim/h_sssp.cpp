// C22: shortest paths and distance metrics.
#include "graphs.hpp"
namespace sim {
const char *group_name = "sssp";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::min<size_t>(d, r.chance(75) ? 9 : 24); P.churn = 20 + (int)r.below(60); P.maxslots = (size_t)r.range(4, 12); if (g_mode.faults) P.nops = std::min(P.nops, 4); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_gs<int64_t, int32_t, uint32_t, uint64_t, double>(c, s); }
enum { SGN = W_SIGNED * G_W, NNEG = W_NONNEG * G_W, POS = W_POS * G_W, BIGW = W_BIG * G_W };
void group_shared(NamedClient &c) { newG<int64_t>(c, gdim(c, 16), SGN); newG<double>(c, gdim(c, 16), NNEG); newG<int32_t>(c, gdim(c, 16), POS); newG<uint32_t>(c, gdim(c, 16), NNEG); }

template <class T> DM<T> ref_row(DM<T> const &g, vector<std::pair<size_t, int64_t>> const &src, bool &ok) {
    vector<Cell<int64_t>> d(g.r); for (auto &s : src) { d[s.first].has = true; d[s.first].v = s.second; }
    ok = ref_dist(g, d); DM<T> o(g.r, 1); for (size_t i = 0; i < g.r; ++i) if (d[i].has) o.set(i, 0, (T)d[i].v); return o;
}
template <class T> DM<T> ref_all(DM<T> const &g) { DM<T> o(g.r, g.r); bool ok; for (size_t i = 0; i < g.r; ++i) { auto v = ref_row<T>(g, {{i, 0}}, ok); for (size_t j = 0; j < g.r; ++j) o.at(i, j) = v.at(j, 0); } return o; }
template <class T> vector<std::pair<size_t, int64_t>> roots(NamedClient &c, size_t N) {
    vector<std::pair<size_t, int64_t>> s; size_t k = c.r.chance(70) ? 1 : c.r.below(4);
    for (size_t i = 0; i < k; ++i) s.push_back({c.r.below(N), 0});
    return s;
}
inline string lst(vector<std::pair<size_t, int64_t>> const &v) { string s = "{"; for (auto &x : v) s += " " + std::to_string(x.first); return s + " }"; }

template <class T> void path_step(NamedClient &c, int idx) {
    int var = (int)c.r.below(4);                       // 0 sssp 1 filtered 2 delta 3 graph_distance
    int kind; if (var <= 1) kind = c.r.chance(40) ? SGN : c.r.coin() ? NNEG : BIGW; else kind = c.r.chance(60) ? NNEG : c.r.coin() ? POS : BIGW;
    auto *g = getG<T>(c, kind, P.huge ? 60 : 24); size_t N = g->m.r; auto src = roots<T>(c, N); if (var >= 2) src.assign(1, {c.r.below(N), 0});
    int64_t delta = c.r.chance(50) ? c.r.range(1, 4) : c.r.range(1, 120);
    static const char *nm[] = {"sssp", "filtered_sssp", "sssp_delta_step", "graph_distance"};
    bool ok; ref_row<T>(g->m, src, ok);
    Op op; op.kind = nm[var]; op.desc = string(nm[var]) + "<" + TN<T>::n() + "> from " + lst(src) + (var == 2 ? " delta " + std::to_string(delta) : ""); op.sig = mix(var, mix(g->hash(), mix(src.empty() ? 0 : src[0].first, delta)));
    op.s[2] = g; auto ret = std::make_shared<int>(-1);
    auto run = [=](grb::Vector<T> &o, grb::Matrix<T> const &G) {
        bool r = true;
        if (var < 2) { o.clear(); for (auto &x : src) o.setElement(x.first, (T)x.second); }
        switch (var) { case 0: r = algorithms::sssp(G, o); break; case 1: r = algorithms::filtered_sssp(G, o); break; case 2: algorithms::sssp_delta_step(G, (T)delta, src[0].first, o); break; default: algorithms::graph_distance(G, src[0].first, o); }
        HarnessScope h; *ret = r;
    };
    op.pre = [=] { *ret = -1; };
    if (!ok) {                                         // reachable negative cycle: only the answer is specified
        op.desc += " (negative cycle)"; auto seed = c.r.next(); (void)seed;
        op.exec = [=](SlotBase **s) { grb::Vector<T> o(N); run(o, lib_of<T>(s[2])); };
        op.digest = [=]() -> string { return std::to_string(*ret); };
        op.post = [=]() -> string { return *ret == 0 ? "" : "a reachable negative cycle is not reported"; };
    } else {
        op.s[0] = getOV<T>(c, N);
        op.model = [=](SlotBase **s) { bool k; ((VSlot<T> *)s[0])->exp = ref_row<T>(graph_of<T>(s[2]), src, k); };
        op.exec = [=](SlotBase **s) { run(vlib_of<T>(s[0]), lib_of<T>(s[2])); };
        op.digest = [=]() -> string { return std::to_string(*ret); };
        op.post = [=]() -> string { return *ret == 1 ? "" : "a negative cycle is reported although there is none"; };
    }
    run_op(c, idx, op);
}
template <class T> void all_step(NamedClient &c, int idx) {
    int var = (int)c.r.below(3);                       // 0 batch_sssp 1 apsp 2 graph_distance_matrix
    int kind = c.r.chance(40) ? SGN : c.r.coin() ? NNEG : BIGW;
    auto *g = getG<T>(c, kind, 16); size_t N = g->m.r, R = var ? N : 1 + c.r.below(5);
    vector<vector<std::pair<size_t, int64_t>>> src(R); string d; bool ok = true;
    for (size_t i = 0; i < R; ++i) { src[i] = roots<T>(c, N); if (var) src[i].assign(1, {i, 0}); bool k; ref_row<T>(g->m, src[i], k); ok = ok && k; if (!var) d += lst(src[i]); }
    if (!ok && var) { g = getG<T>(c, NNEG, 16); N = R = g->m.r; src.resize(R); for (size_t i = 0; i < R; ++i) src[i].assign(1, {i, 0}); ok = true; }
    static const char *nm[] = {"batch_sssp", "apsp", "graph_distance_matrix"};
    Op op; op.kind = nm[var]; op.desc = string(nm[var]) + "<" + TN<T>::n() + ">" + (var ? "" : " from " + d.substr(0, 300)); op.sig = mix(10 + var, mix(g->hash(), R)); op.s[2] = g;
    auto ret = std::make_shared<int>(-1); op.pre = [=] { *ret = -1; };
    auto run = [=](grb::Matrix<T> &o, grb::Matrix<T> const &G) {
        bool r = true;
        if (var == 0) { o.clear(); for (size_t i = 0; i < R; ++i) for (auto &x : src[i]) o.setElement(i, x.first, (T)x.second); r = algorithms::batch_sssp(G, o); }
        else if (var == 1) o = algorithms::apsp(G); else algorithms::graph_distance_matrix(G, o);
        HarnessScope h; *ret = r;
    };
    if (!ok) {
        op.desc += " (negative cycle)";
        op.exec = [=](SlotBase **s) { grb::Matrix<T> o(R, N); run(o, lib_of<T>(s[2])); };
        op.digest = [=]() -> string { return std::to_string(*ret); };
        op.post = [=]() -> string { return *ret == 0 ? "" : "a reachable negative cycle is not reported"; };
    } else {
        op.s[0] = getOM<T>(c, R, N);
        op.model = [=](SlotBase **s) { auto *o = (MSlot<T> *)s[0]; o->exp = DM<T>(R, N); bool k; for (size_t i = 0; i < R; ++i) { auto v = ref_row<T>(graph_of<T>(s[2]), src[i], k); for (size_t j = 0; j < N; ++j) o->exp.at(i, j) = v.at(j, 0); } };
        op.exec = [=](SlotBase **s) { run(lib_of<T>(s[0]), lib_of<T>(s[2])); };
        op.digest = [=]() -> string { return std::to_string(*ret); };
        op.post = [=]() -> string { return *ret == 1 ? "" : "a negative cycle is reported although there is none"; };
    }
    run_op(c, idx, op);
}
template <class T> void metric_step(NamedClient &c, int idx) {
    int var = 2 + (int)c.r.below(7);
    auto *g = getG<T>(c, c.r.coin() ? NNEG : BIGW, 16); size_t N = g->m.r, v = c.r.below(N);
    static const char *nm[] = {"", "", "vertex_in_degree", "vertex_out_degree", "vertex_degree", "vertex_eccentricity", "graph_radius", "graph_diameter", "closeness_centrality"};
    value_op<T>(c, idx, nm[var], string(nm[var]) + "<" + TN<T>::n() + "> vertex " + std::to_string(v), g, [=](SlotBase *s) -> T {
        auto const &G = lib_of<T>(s);
        switch (var) {
        case 2: return algorithms::vertex_in_degree(G, v); case 3: return algorithms::vertex_out_degree(G, v); case 4: return algorithms::vertex_degree(G, v);
        case 5: return algorithms::vertex_eccentricity(G, v); case 6: return algorithms::graph_radius(G); case 7: return algorithms::graph_diameter(G); default: return algorithms::closeness_centrality(G, v);
        }
    }, [=](T got) -> string {
        auto const &m = g->m; int64_t in = 0, out = 0; for (size_t i = 0; i < N; ++i) { in += m.at(i, v).has; out += m.at(v, i).has; }
        auto D = ref_all<T>(m); auto ecc = [&](size_t q) { T x = 0; for (size_t j = 0; j < N; ++j) if (D.at(q, j).has) x = std::max(x, D.at(q, j).v); return x; };
        T w = 0;
        switch (var) {
        case 2: w = (T)in; break; case 3: w = (T)out; break; case 4: w = (T)(in + out); break;
        case 5: w = ecc(v); break; case 6: w = ecc(0); for (size_t q = 1; q < N; ++q) w = std::min(w, ecc(q)); break;
        case 7: for (size_t q = 0; q < N; ++q) w = std::max(w, ecc(q)); break;
        default: for (size_t j = 0; j < N; ++j) if (D.at(v, j).has) w = (T)(w + D.at(v, j).v);
        }
        return got == w ? "" : string(nm[var]) + " is " + str(got) + " instead of " + str(w);
    });
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(12)) {
    case 0: case 1: path_step<int64_t>(c, idx); break;
    case 2: path_step<uint32_t>(c, idx); break;
    case 3: path_step<double>(c, idx); break;
    case 4: path_step<int32_t>(c, idx); break;
    case 5: all_step<int64_t>(c, idx); break;
    case 6: all_step<uint32_t>(c, idx); break;
    case 7: all_step<double>(c, idx); break;
    case 8: all_step<int32_t>(c, idx); break;
    case 9: metric_step<int64_t>(c, idx); break;
    case 10: metric_step<double>(c, idx); break;
    default: metric_step<uint32_t>(c, idx); break;
    }
}
}

// C23: triangle counting and k-truss.
#include "graphs.hpp"
#include <algorithms/appendix_algorithms.hpp>
namespace sim {
const char *group_name = "tri";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::min<size_t>(d, r.chance(75) ? 9 : 22); P.churn = 20 + (int)r.below(60); P.maxslots = (size_t)r.range(4, 12); if (g_mode.faults) P.nops = std::min(P.nops, 4); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_gs<int64_t, int32_t, uint32_t, double>(c, s); }
enum { UG = G_UND | G_NOLOOP | W_UNIT * G_W };
void group_shared(NamedClient &c) { newG<int64_t>(c, gdim(c, 16), UG); newG<double>(c, gdim(c, 16), UG); newG<int32_t>(c, gdim(c, 16), UG); newG<uint32_t>(c, gdim(c, 16), UG); }

template <class T> size_t ref_triangles(DM<T> const &g) { size_t n = 0; for (size_t i = 0; i < g.r; ++i) for (size_t j = i + 1; j < g.r; ++j) if (g.at(i, j).has) for (size_t k = j + 1; k < g.r; ++k) n += g.at(i, k).has && g.at(j, k).has; return n; }
// edges of the k-truss
template <class T> DM<T> ref_truss(DM<T> g, size_t k) {
    for (bool ch = true; ch;) { ch = false;
        for (size_t i = 0; i < g.r; ++i) for (size_t j = i + 1; j < g.r; ++j) if (g.at(i, j).has) { size_t s = 0; for (size_t w = 0; w < g.r; ++w) s += g.at(i, w).has && g.at(j, w).has; if (s + 2 < k) { g.at(i, j) = g.at(j, i) = Cell<T>(); ch = true; } } }
    return g;
}
// an undirected graph whose trusses are not trivial: overlapping cliques more often than not
template <class T> GSlot<T> *truss_graph(NamedClient &c) {
    auto *g = getG<T>(c, UG, 22); if (c.r.chance(40)) return g;
    g = newG<T>(c, gdim(c, 14), UG); size_t N = g->m.r;
    for (int q = 0; q < 3; ++q) { size_t sz = 2 + c.r.below(5); vector<size_t> v; for (size_t i = 0; i < sz; ++i) v.push_back(c.r.below(N)); for (auto a : v) for (auto b : v) if (a != b) gset(g->m, a, b, UG, c.r); }
    g->rebuild(); return g;
}
template <class T> void tri_step(NamedClient &c, int idx) {
    int var = (int)c.r.below(7); auto *g = P.huge && c.r.coin() ? getG<T>(c, UG, 300) : truss_graph<T>(c);
    static const char *nm[] = {"triangle_count", "triangle_count_masked", "triangle_count_masked (L)", "triangle_count_masked_noT", "triangle_count_newGBTL", "triangle_count_appendixB7", "triangle_count_masked (U)"};
    value_op<int64_t>(c, idx, nm[var], string(nm[var]) + "<" + TN<T>::n() + ">", g, [=](SlotBase *s) -> int64_t {
        auto const &G = lib_of<T>(s);
        if (var == 0) return (int64_t)algorithms::triangle_count(G);
        grb::Matrix<T> L(G.nrows(), G.ncols()), U(G.nrows(), G.ncols()); grb::split(G, L, U);
        switch (var) {
        case 1: return (int64_t)algorithms::triangle_count_masked(L, U);
        case 2: return (int64_t)algorithms::triangle_count_masked(L);
        case 3: return (int64_t)algorithms::triangle_count_masked_noT(L);
        case 4: return (int64_t)algorithms::triangle_count_newGBTL(L, U);
        case 5: return (int64_t)algorithms::triangle_count_appendixB7(L);
        default: return (int64_t)algorithms::triangle_count_masked_noT(U);
        }
    }, [=](int64_t got) -> string { int64_t w = (int64_t)ref_triangles(g->m); return got == w ? "" : string(nm[var]) + " counts " + std::to_string(got) + " triangles instead of " + std::to_string(w); });
}
inline size_t rnd_k(NamedClient &c) { return 3 + (c.r.chance(50) ? 0 : c.r.below(4)); }
template <class T> void truss2_step(NamedClient &c, int idx) {
    auto *g = truss_graph<T>(c); size_t N = g->m.r, k = rnd_k(c);
    Op op; op.kind = "k_truss2"; op.desc = string("k_truss2<") + TN<T>::n() + "> k=" + std::to_string(k); op.sig = mix(30 + k, g->hash());
    op.s[0] = getOM<T>(c, N, N); op.s[2] = g;
    op.model = [=](SlotBase **s) { ((MSlot<T> *)s[0])->exp = ref_truss<T>(graph_of<T>(s[2]), k); };
    op.exec = [=](SlotBase **s) { lib_of<T>(s[0]) = algorithms::k_truss2(lib_of<T>(s[2]), k); };
    run_op(c, idx, op);
}
template <class T> void truss_step(NamedClient &c, int idx) {
    auto *g = truss_graph<T>(c); size_t N = g->m.r, k = rnd_k(c);
    vector<std::pair<size_t, size_t>> e; for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) if (g->m.at(i, j).has) e.push_back({i, j});
    if (e.empty()) return;
    for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[c.r.below(i)]);
    auto *inc = newM<T>(c, e.size(), N); inc->m = DM<T>(e.size(), N); for (size_t i = 0; i < e.size(); ++i) { inc->m.set(i, e[i].first, (T)1); inc->m.set(i, e[i].second, (T)1); } inc->rebuild();
    Op op; op.kind = "k_truss"; op.desc = string("k_truss<") + TN<T>::n() + "> k=" + std::to_string(k); op.sig = mix(40 + k, g->hash()); op.s[2] = inc; op.s[3] = g;
    auto got = std::make_shared<vector<std::pair<size_t, size_t>>>(); auto bad = std::make_shared<string>();
    op.pre = [=] { got->clear(); bad->clear(); };
    op.exec = [=](SlotBase **s) {
        auto E = algorithms::k_truss(lib_of<T>(s[2]), k);
        grb::IndexArrayType I(E.nvals()), J(E.nvals()); vector<T> V(E.nvals()); E.extractTuples(I.begin(), J.begin(), V.begin()); size_t R = E.nrows();
        HarnessScope h; std::map<size_t, vector<size_t>> rows; for (size_t i = 0; i < I.size(); ++i) { rows[I[i]].push_back(J[i]); if (!(V[i] == (T)1)) *bad = "an edge end has value " + str(V[i]); }
        for (auto &r : rows) if (r.second.size() == 2) got->push_back({std::min(r.second[0], r.second[1]), std::max(r.second[0], r.second[1])}); else *bad = "row " + std::to_string(r.first) + " of the result has " + std::to_string(r.second.size()) + " ends";
        if (!rows.empty() && rows.size() != R) *bad = "the result has rows that are no edges";
    };
    op.digest = [=]() -> string { return digest_of(*got); };
    op.post = [=]() -> string {
        if (!bad->empty()) return *bad;
        auto t = ref_truss<T>(g->m, k); vector<std::pair<size_t, size_t>> w; for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) if (t.at(i, j).has) w.push_back({i, j});
        auto x = *got; std::sort(x.begin(), x.end()); if (x == w) return "";
        string s = "edges of the " + std::to_string(k) + "-truss:"; for (auto &p : x) s += " " + std::to_string(p.first) + "-" + std::to_string(p.second); s += " instead of"; for (auto &p : w) s += " " + std::to_string(p.first) + "-" + std::to_string(p.second); return s;
    };
    run_op(c, idx, op);
    c.own.erase(std::find(c.own.begin(), c.own.end(), inc)); delete inc;
}
template <class T> void any(NamedClient &c, int idx) { switch (c.r.below(4)) { case 0: truss_step<T>(c, idx); break; case 1: truss2_step<T>(c, idx); break; default: tri_step<T>(c, idx); } }
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(4)) { case 0: any<int64_t>(c, idx); break; case 1: any<int32_t>(c, idx); break; case 2: any<uint32_t>(c, idx); break; default: any<double>(c, idx); }
}
}

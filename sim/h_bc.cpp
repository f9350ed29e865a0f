// C25: betweenness centrality and PageRank.
#include "graphs.hpp"
#include <algorithms/appendix_algorithms.hpp>
namespace sim {
const char *group_name = "bc";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::min<size_t>(d, r.chance(75) ? 9 : 22); P.churn = 20 + (int)r.below(60); P.maxslots = (size_t)r.range(4, 12); if (g_mode.faults) P.nops = std::min(P.nops, 3); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_gs<bool, int32_t, float, double>(c, s); }
enum { UNIT = W_UNIT * G_W, POS = W_POS * G_W };
void group_shared(NamedClient &c) { newG<double>(c, gdim(c, 16), UNIT); newG<bool>(c, gdim(c, 16), UNIT); newG<int32_t>(c, gdim(c, 16), UNIT); newG<double>(c, gdim(c, 16), POS); }
typedef vector<double> VD;

// shortest-path counts and levels from s (self-loops lie on no shortest path)
struct Sweep { vector<size_t> h; VD sg; vector<size_t> order; };
template <class T> Sweep sweep(DM<T> const &g, size_t s) {
    Sweep w; w.h = ref_hops(g, {s}); w.sg.assign(g.r, 0.0); w.sg[s] = 1; size_t mx = 0;
    for (auto x : w.h) if (x != UNREACHED) mx = std::max(mx, x);
    for (size_t l = 0; l <= mx; ++l) for (size_t v = 0; v < g.r; ++v) if (w.h[v] == l) { w.order.push_back(v); for (size_t u = 0; u < g.r; ++u) if (l && w.h[u] == l - 1 && g.at(u, v).has) w.sg[v] += w.sg[u]; }
    return w;
}
template <class T> VD ref_bc(DM<T> const &g, vector<size_t> const &src) {
    VD o(g.r, 0.0);
    for (auto s : src) { auto w = sweep(g, s); VD d(g.r, 0.0);
        for (size_t k = w.order.size(); k-- > 0;) { size_t v = w.order[k]; for (size_t u = 0; u < g.r; ++u) if (w.h[v] && w.h[u] == w.h[v] - 1 && g.at(u, v).has) d[u] += w.sg[u] / w.sg[v] * (1 + d[v]); if (v != s) o[v] += d[v]; } }
    return o;
}
// number of shortest paths that use an edge
template <class T> VD ref_edge(DM<T> const &g) {
    size_t N = g.r; VD o(N * N, 0.0);
    for (size_t s = 0; s < N; ++s) { auto w = sweep(g, s); VD cont(N, 1.0);
        for (size_t k = w.order.size(); k-- > 0;) { size_t v = w.order[k]; for (size_t u = 0; u < N; ++u) if (w.h[v] && w.h[u] == w.h[v] - 1 && g.at(u, v).has) { o[u * N + v] += w.sg[u] * cont[v]; cont[u] += cont[v]; } } }
    return o;
}
inline string near(VD const &got, VD const &want, double rel, const char *what) {
    if (got.size() != want.size()) return string(what) + " has " + std::to_string(got.size()) + " entries instead of " + std::to_string(want.size());
    for (size_t i = 0; i < got.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= rel * (1 + std::fabs(want[i])))) return string(what) + " " + std::to_string(i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]);
    return "";
}
template <class V> VD dense(V const &v) { VD o(v.size(), 0.0); for (size_t i = 0; i < v.size(); ++i) if (v.hasElement(i)) o[i] = (double)v.extractElement(i); return o; }
// a graph deeper than 8-bit level counters, with few shortest paths between any two vertices
template <class T> GSlot<T> *deep_graph(NamedClient &c) {
    size_t N = 130 + c.r.below(160); auto *g = newG<T>(c, 1, UNIT); g->m = DM<T>(N, N);
    vector<size_t> p(N); for (size_t i = 0; i < N; ++i) p[i] = i;
    if (c.r.coin()) for (size_t i = N; i > 1; --i) std::swap(p[i - 1], p[c.r.below(i)]);
    for (size_t i = 0; i + 1 < N; ++i) if (i % 9 == 4 && c.r.chance(30) && i + 2 < N) { g->m.set(p[i], p[i + 2], (T)1); g->m.set(p[i], p[i + 1], (T)1); g->m.set(p[i + 1], p[i + 2], (T)1); } else g->m.set(p[i], p[i + 1], (T)1);
    for (size_t q = c.r.below(4); q-- > 0;) { size_t a = c.r.below(N), b = c.r.below(N); g->m.set(p[std::max(a, b)], p[std::min(a, b)], (T)1); }
    g->rebuild(); return g;
}
template <class T> void bc_step(NamedClient &c, int idx) {
    constexpr bool fl = std::is_floating_point_v<T>; bool deep = P.huge && c.r.chance(60);
    int var = (int)c.r.below(fl && !deep ? 9 : 7); auto *g = deep ? deep_graph<T>(c) : getG<T>(c, UNIT, 22); size_t N = g->m.r;
    vector<size_t> src; if (var == 7 || var == 8) for (size_t i = 0; i < N; ++i) src.push_back(i);
    else { size_t k = var == 5 ? 1 : deep ? 1 + c.r.below(2) : c.r.chance(25) ? N : 1 + c.r.below(4); for (size_t i = 0; i < k; ++i) src.push_back(k == N && c.r.chance(80) ? i : c.r.below(N)); }
    static const char *nm[] = {"vertex_betweenness_centrality_batch_alt_trans_v2", "vertex_betweenness_centrality_batch_alt_trans", "vertex_betweenness_centrality_batch_alt", "vertex_betweenness_centrality_batch", "vertex_betweenness_centrality_batch_old", "BC_appendixB4", "BC_update_appendixB5", "vertex_betweenness_centrality", "edge_betweenness_centrality"};
    string l; for (auto s : src) l += " " + std::to_string(s);
    bool twice = c.r.coin();
    value_op<VD>(c, idx, nm[var], string(nm[var]) + "<" + TN<T>::n() + ">" + (var < 7 ? " from" + l : ""), g,
        [=](SlotBase *x) -> VD { auto const &A = lib_of<T>(x); grb::IndexArrayType s(src.begin(), src.end());
            auto W = [](auto const &v) { VD o; for (auto e : v) o.push_back((double)e); return o; };
            switch (var) {
            case 0: return W(algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(A, s));
            case 1: return W(algorithms::vertex_betweenness_centrality_batch_alt_trans(A, s));
            case 2: return W(algorithms::vertex_betweenness_centrality_batch_alt(A, s));
            case 3: return W(algorithms::vertex_betweenness_centrality_batch(A, s));
            case 4: return W(algorithms::vertex_betweenness_centrality_batch_old(A, s));
            case 5: { grb::Vector<float> d(N); algorithms::BC_appendixB4(d, A, s[0]); if (twice) algorithms::BC_appendixB4(d, A, s[0]); return dense(d); }
            case 6: { grb::Vector<float> d(N); if (twice) d.setElement(0, 77); algorithms::BC_update_appendixB5(d, A, s); return dense(d); }
            default: if constexpr (fl) { if (var == 7) return W(algorithms::vertex_betweenness_centrality(A)); auto E = algorithms::edge_betweenness_centrality(A); VD o(N * N, 0.0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (E.hasElement(i, j)) o[i * N + j] = (double)E.extractElement(i, j); return o; }
            } return VD(); },
        [=](VD const &got) -> string { if (var == 8) return near(got, ref_edge(g->m), 1e-4, "the score of edge"); auto w = ref_bc(g->m, src); if (var == 5 && twice) for (auto &e : w) e *= 2; return near(got, w, 2e-4 * (double)src.size(), "the centrality of vertex"); });
    if (deep) for (size_t i = 0; i < c.own.size(); ++i) if (c.own[i] == g) { c.own.erase(c.own.begin() + i); delete g; break; }
}
template <class T, class R> void pr_step(NamedClient &c, int idx) {
    auto *g = getG<T>(c, c.r.coin() ? UNIT : POS, 22); size_t N = g->m.r;
    double df[] = {0.85, 0.5, 0.25, 0.95}; int dk = (int)c.r.below(4); double damp = df[dk]; bool deflt = dk == 0 && c.r.coin(); bool dirty = c.r.coin();
    double thr = deflt ? 1e-5 : std::is_same_v<R, float> ? 1e-9 : 1e-14; if (!deflt && c.r.coin()) { double tt[] = {1e-2, 1e-3, 1e-4, 1e-6, 1e-8}; thr = tt[c.r.below(5)]; }
    value_op<VD>(c, idx, "page_rank", string("page_rank<") + TN<T>::n() + "," + (std::is_same_v<R, float> ? "float" : "double") + "> damping " + std::to_string(damp) + " threshold " + std::to_string(thr), g,
        [=](SlotBase *x) -> VD { grb::Vector<R> p(N); if (dirty) p.setElement(N - 1, 3); if (deflt) algorithms::page_rank(lib_of<T>(x), p); else algorithms::page_rank(lib_of<T>(x), p, (R)damp, (R)thr); if (p.nvals() != N) return VD{-1.0}; return dense(p); },
        [=](VD const &got) -> string {
            if (got.size() != N) return "some vertex has no rank";
            auto const &m = g->m; VD os(N, 0.0); bool sink = false; for (size_t i = 0; i < N; ++i) { bool any = false; for (size_t j = 0; j < N; ++j) if (m.at(i, j).has) { os[i] += (double)m.at(i, j).v; any = true; } sink |= !any; }
            VD x(N, 1.0 / (double)N); for (int k = 0; k < 3000; ++k) { VD y(N, (1 - damp) / (double)N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (m.at(i, j).has) y[j] += damp * x[i] * (double)m.at(i, j).v / os[i]; double e = 0; for (size_t i = 0; i < N; ++i) e += std::fabs(x[i] - y[i]); x = y; if (e < 1e-15) break; }
            // the step to the next iterate is no longer than damp times the last one, whose mean square is below the threshold
            { VD y(N, (1 - damp) / (double)N); double st = 0; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (m.at(i, j).has) y[j] += damp * got[i] * (double)m.at(i, j).v / os[i];
              for (size_t i = 0; i < N; ++i) st += std::fabs(y[i] - got[i]); double lim = damp * (double)N * std::sqrt(thr) + (std::is_same_v<R, float> ? 1e-4 : 1e-9); if (st > lim) return "the ranks miss the PageRank equation by " + std::to_string(st) + " in total, more than the tolerance allows (" + std::to_string(lim) + ")"; }
            double bound = damp / (1 - damp) * (double)N * std::sqrt(thr) + (std::is_same_v<R, float> ? 1e-4 : 1e-9), e = 0, sum = 0; for (size_t i = 0; i < N; ++i) { e += std::fabs(x[i] - got[i]); sum += got[i]; if (got[i] < 0) return "a rank is negative"; }
            if (!sink && std::fabs(sum - 1) > 1e-4) return "the ranks sum to " + std::to_string(sum);
            if (e <= bound) return "";
            string s = "the ranks are off by " + std::to_string(e) + " in total (bound " + std::to_string(bound) + "):"; for (size_t i = 0; i < N; ++i) s += " " + std::to_string(got[i]) + "/" + std::to_string(x[i]); return s; });
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(8)) {
    case 0: case 1: bc_step<double>(c, idx); break; case 2: bc_step<float>(c, idx); break; case 3: bc_step<bool>(c, idx); break; case 4: bc_step<int32_t>(c, idx); break;
    case 5: pr_step<double, double>(c, idx); break; case 6: pr_step<bool, double>(c, idx); break; default: pr_step<int32_t, float>(c, idx); break;
    }
}
}

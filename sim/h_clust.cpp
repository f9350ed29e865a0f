// C20: peer-pressure, Markov and Louvain clustering under a simulated random stream.
#include "graphs.hpp"
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
namespace sim {
const char *group_name = "clust";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::min<size_t>(d, r.chance(75) ? 8 : 16); P.churn = 20 + (int)r.below(60); P.maxslots = (size_t)r.range(4, 12); if (g_mode.faults) P.nops = std::min(P.nops, 3); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_gs<bool, int32_t, int64_t, double>(c, s); }
enum { DPOS = W_POS * G_W, UPOS = G_UND | W_POS * G_W, UUNIT = G_UND | W_UNIT * G_W, DUNIT = W_UNIT * G_W };
inline int pick_kind(NamedClient &c) { int k[] = {DPOS, UPOS, UUNIT, DUNIT}; return k[c.r.below(4)]; }
void group_shared(NamedClient &c) { newG<double>(c, gdim(c, 12), UPOS); newG<int32_t>(c, gdim(c, 12), UUNIT); newG<double>(c, gdim(c, 12), DPOS); }

// one caller's votes: every vertex joins the cluster with most votes of its in-neighbours, the highest-numbered on ties
template <class T> DM<bool> ref_pp(DM<T> const &g, DM<bool> C, unsigned iters, bool norm, bool &conv) {
    size_t N = g.r; vector<double> os(N, 0.0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (g.at(i, j).has) os[i] += (double)g.at(i, j).v;
    conv = false;
    for (unsigned it = 0; it < iters; ++it) {
        DM<bool> n(N, N);
        for (size_t j = 0; j < N; ++j) { bool any = false; double best = 0; size_t bi = 0;
            for (size_t i = 0; i < N; ++i) { bool has = false; double t = 0; for (size_t k = 0; k < N; ++k) if (C.at(i, k).has && g.at(k, j).has) { has = true; if (C.at(i, k).v) t += norm ? (double)g.at(k, j).v / os[k] : (double)g.at(k, j).v; }
                if (has && (!any || t >= best)) { any = true; best = t; bi = i; } }
            if (any) n.set(bi, j, true); }
        if (n == C) { conv = true; return C; }
        C = n;
    }
    return C;
}
template <class T> void pp_step(NamedClient &c, int idx) {
    bool norm = c.r.coin(), ret2 = norm && c.r.chance(30);
    MSlot<T> *g; bool tmp = false;
    if (!norm) g = getG<T>(c, pick_kind(c), 16);
    else {           // weights of each vertex's out-edges add up to a power of two: every vote is exact
        size_t N = gdim(c, 16); DM<T> m = rnd_graph<T>(c.r, N, c.r.coin() ? DPOS : UPOS); if (c.r.coin()) for (size_t i = 0; i < N; ++i) if (c.r.chance(70)) m.set(i, i, (T)1);
        for (size_t i = 0; i < N; ++i) { int64_t s = 0, t = 1; size_t l = N; for (size_t j = 0; j < N; ++j) if (m.at(i, j).has) { s += (int64_t)m.at(i, j).v; l = j; } if (l == N) continue; s -= (int64_t)m.at(i, l).v; while (t <= s) t *= 2; m.set(i, l, (T)(t - s)); }
        g = new MSlot<T>(m, newname(c, "G"), newbs(c)); c.own.push_back(g); tmp = true; }
    size_t N = g->m.r; DM<bool> c0(N, N); bool ident = ret2 || c.r.chance(60);
    for (size_t j = 0; j < N; ++j) if (ident) c0.set(j, j, true); else if (c.r.chance(85)) c0.set(c.r.below(N), j, !c.r.chance(10));
    auto *C = newM<bool>(c, N, N); C->m = c0; C->rebuild();
    unsigned mi = (unsigned)c.r.below(9); bool conv; ref_pp(g->m, c0, 60, norm, conv); bool unl = conv && c.r.coin();
    const char *nm = norm ? "peer_pressure_cluster" : "peer_pressure_cluster_v2";
    Op op; op.kind = nm; op.desc = string(nm) + "<" + TN<T>::n() + "> at most " + (unl ? "any number of" : std::to_string(mi)) + " rounds"; op.sig = mix(norm, mix(g->hash(), mi)); op.s[0] = C; op.s[2] = g; op.retry_ok = false;
    op.model = [=](SlotBase **s) { auto *o = (MSlot<bool> *)s[0]; bool q; o->exp = ref_pp(graph_of<T>(s[2]), o->m, unl ? ~0u : mi, norm, q); };
    op.exec = [=](SlotBase **s) { auto &o = lib_of<bool>(s[0]); auto &G = lib_of<T>(s[2]);
        if (ret2) { if (unl) o = algorithms::peer_pressure_cluster(G); else o = algorithms::peer_pressure_cluster(G, mi); }
        else if (norm) { if (unl) algorithms::peer_pressure_cluster(G, o); else algorithms::peer_pressure_cluster(G, o, mi); }
        else { if (unl) algorithms::peer_pressure_cluster_v2(G, o); else algorithms::peer_pressure_cluster_v2(G, o, mi); } };
    run_op(c, idx, op);
    for (SlotBase *s : {(SlotBase *)C, tmp ? (SlotBase *)g : nullptr}) if (s) { auto it = std::find(c.own.begin(), c.own.end(), s); if (it != c.own.end()) { c.own.erase(it); delete s; } }
}
// cluster of each vertex from a cluster matrix
template <class T> void ids_step(NamedClient &c, int idx) {
    bool v2 = c.r.coin(); size_t K = gdim(c, 16), N = gdim(c, 16);
    auto *m = newM<T>(c, K, N); for (auto &x : m->m.d) if (x.has) x.v = (T)c.r.range(0, 4); m->rebuild();
    typedef vector<size_t> R; const char *nm = v2 ? "get_cluster_assignments_v2" : "get_cluster_assignments";
    value_op<R>(c, idx, nm, string(nm) + "<" + TN<T>::n() + ">", m,
        [=](SlotBase *x) -> R { R o; if (!v2) { auto a = algorithms::get_cluster_assignments(lib_of<T>(x)); HarnessScope h; o.assign(a.begin(), a.end()); } else { auto a = algorithms::get_cluster_assignments_v2(lib_of<T>(x)); for (size_t j = 0; j < a.size(); ++j) { size_t y = a.hasElement(j) ? a.extractElement(j) : ~(size_t)0; HarnessScope h; o.push_back(y); } } return o; },
        [=](R const &got) -> string { if (got.size() != N) return "there are " + std::to_string(got.size()) + " assignments for " + std::to_string(N) + " vertices";
            for (size_t j = 0; j < N; ++j) { size_t w = ~(size_t)0; T best{}; for (size_t i = 0; i < K; ++i) if (m->m.at(i, j).has && (v2 || w == ~(size_t)0 || m->m.at(i, j).v > best)) { w = i; best = m->m.at(i, j).v; } if (got[j] != w) return "vertex " + std::to_string(j) + " is assigned to " + std::to_string((int64_t)got[j]) + " instead of " + std::to_string((int64_t)w); }
            return ""; });
    auto it = std::find(c.own.begin(), c.own.end(), (SlotBase *)m); if (it != c.own.end()) { c.own.erase(it); delete m; }
}
inline vector<size_t> weak_comp(size_t N, std::function<bool(size_t, size_t)> e) {
    vector<size_t> p(N); for (size_t i = 0; i < N; ++i) p[i] = i;
    for (size_t k = 0; k < N; ++k) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (e(i, j)) { size_t a = std::min(p[i], p[j]); p[i] = p[j] = a; }
    return p;
}
template <class T> vector<double> ref_markov(DM<T> const &g, unsigned e, unsigned r, unsigned iters) {
    size_t N = g.r; vector<double> A(N * N, 0.0); auto norm = [&](vector<double> &x) { for (size_t j = 0; j < N; ++j) { double s = 0; for (size_t i = 0; i < N; ++i) s += x[i * N + j]; if (s != 0) for (size_t i = 0; i < N; ++i) x[i * N + j] /= s; } };
    for (size_t i = 0; i < N * N; ++i) if (g.d[i].has) A[i] = (double)g.d[i].v; norm(A);
    for (unsigned it = 0; it < iters; ++it) { auto B = A;
        for (unsigned k = 1; k < e; ++k) { vector<double> n(N * N, 0.0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (B[i * N + j] != 0) for (size_t l = 0; l < N; ++l) n[i * N + j] += B[i * N + l] * A[l * N + j]; B = n; }
        auto F = B; for (unsigned k = 1; k < r; ++k) for (size_t i = 0; i < N * N; ++i) F[i] *= B[i];
        norm(F); double ms = 0; for (size_t i = 0; i < N * N; ++i) ms += (A[i] - F[i]) * (A[i] - F[i]); A = F; if (ms / (double)(N * N) < 1e-16) break; }
    return A;
}
template <class T> void markov_step(NamedClient &c, int idx) {
    auto *g = getG<T>(c, pick_kind(c), 16); size_t N = g->m.r; bool deflt = c.r.chance(40);
    unsigned e = deflt ? 2 : 1 + (unsigned)c.r.below(3), r = deflt ? 2 : 1 + (unsigned)c.r.below(3); bool exact = c.r.chance(60); unsigned mi = exact ? (unsigned)c.r.below(e * r > 4 ? 3 : 4) : 4 + (unsigned)c.r.below(30);
    typedef vector<double> R;
    value_op<R>(c, idx, "markov_cluster", string("markov_cluster<") + TN<T>::n() + "> e=" + std::to_string(e) + " r=" + std::to_string(r) + " at most " + std::to_string(mi) + " rounds", g,
        [=](SlotBase *x) -> R { auto M = algorithms::markov_cluster(lib_of<T>(x), e, r, 1e-16, mi); R o(N * N, 0.0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (M.hasElement(i, j)) o[i * N + j] = M.extractElement(i, j); if (M.nrows() != N || M.ncols() != N) o.clear(); return o; },
        [=](R const &got) -> string { if (got.size() != N * N) return "the result has other dimensions than the graph";
            auto S = [](size_t i, size_t j) { return "(" + std::to_string(i) + "," + std::to_string(j) + ")"; };
            for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { double v = got[i * N + j]; if (!g->m.at(i, j).has && v != 0) return "an entry at " + S(i, j) + " where the graph has no edge"; if (exact && !(v >= 0 && v <= 1 + 1e-9)) return "entry " + S(i, j) + " is " + std::to_string(v); }
            if (!exact) return "";
            auto w = ref_markov(g->m, e, r, mi); for (size_t k = 0; k < N * N; ++k) if (std::fabs(w[k] - got[k]) > 1e-6) return "entry " + S(k / N, k % N) + " is " + std::to_string(got[k]) + " instead of " + std::to_string(w[k]);
            for (size_t j = 0; j < N; ++j) { double s = 0; for (size_t i = 0; i < N; ++i) s += got[i * N + j]; if (s != 0 && std::fabs(s - 1) > 1e-6) return "column " + std::to_string(j) + " sums to " + std::to_string(s); }
            return ""; });
}
template <class T> void louvain_step(NamedClient &c, int idx) {
    auto *g = getG<T>(c, c.r.chance(80) ? c.r.coin() ? UPOS : UUNIT : c.r.coin() ? DPOS : DUNIT, 16); size_t N = g->m.r; bool masked = c.r.coin(); unsigned mi = 1 + (unsigned)c.r.below(25);
    uint64_t es = c.r.next(); int mode = (int)c.r.below(4) % 3, tie = mode ? (int)c.r.below(30) : 0;
    const char *nm = masked ? "louvain_cluster_masked" : "louvain_cluster";
    struct R { vector<size_t> cl; string err; bool stopped = false; }; auto ret = std::make_shared<R>();
    Op op; op.kind = nm; op.desc = string(nm) + "<" + TN<T>::n() + "> at most " + std::to_string(mi) + " rounds, random stream " + std::to_string(es) + (mode ? mode == 1 ? ", tied for " : ", extreme for " : "") + (mode ? std::to_string(tie) + " draws" : ""); op.sig = mix(60 + mode * 2 + masked, mix(g->hash(), es)); op.s[2] = g;
    op.pre = [=] { *ret = R(); SimEngine::use(es, mode, tie); };
    op.exec = [=](SlotBase **s) {
        try {
            grb::Matrix<bool> S = masked ? algorithms::louvain_cluster_masked(lib_of<T>(s[2]), 11.0, mi) : algorithms::louvain_cluster(lib_of<T>(s[2]), 11.0, mi);
            auto a = algorithms::get_louvain_cluster_assignments(S);
            grb::IndexArrayType I(S.nvals()), J(S.nvals()); vector<bool> V(S.nvals()); S.extractTuples(I.begin(), J.begin(), V.begin());
            HarnessScope h; ret->cl.assign(N, UNREACHED);
            for (size_t k = 0; k < I.size(); ++k) if (V[k]) { if (ret->cl[I[k]] != UNREACHED) ret->err = "vertex " + std::to_string(I[k]) + " is in two clusters"; ret->cl[I[k]] = J[k]; }
            for (size_t i = 0; i < N; ++i) if (ret->cl[i] == UNREACHED) ret->err = "vertex " + std::to_string(i) + " is in no cluster"; else if (ret->err.empty() && (!a.hasElement(i) || a.extractElement(i) != ret->cl[i])) ret->err = "get_louvain_cluster_assignments disagrees with the cluster matrix at vertex " + std::to_string(i);
        } catch (unsigned int n) { HarnessScope h; ret->stopped = true; if (n != mi) ret->err = "gave up after " + std::to_string(n) + " rounds"; }
    };
    op.digest = [=]() -> string { return digest_of(ret->cl) + (ret->stopped ? " stopped" : ""); };
    op.post = [=]() -> string {
        if (!ret->err.empty()) return ret->err;
        if (ret->stopped) { probe("rounds exhausted"); return ""; }
        probe("converged");
        auto const &m = g->m; vector<double> k(N, 0.0); vector<char> hk(N, 0); double tot = 0; auto W = [&](size_t i, size_t j) { return (m.at(i, j).has ? (double)m.at(i, j).v : 0) + (m.at(j, i).has ? (double)m.at(j, i).v : 0); }; auto H = [&](size_t i, size_t j) { return m.at(i, j).has || m.at(j, i).has; };
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (m.at(i, j).has) { k[i] += (double)m.at(i, j).v; hk[i] = 1; tot += (double)m.at(i, j).v; }
        for (size_t i = 0; i < N; ++i) { if (!hk[i]) { if (ret->cl[i] != i) return "vertex " + std::to_string(i) + " without out-edges left its own cluster"; continue; }
            vector<double> q(N, 0.0); vector<char> ok(N, 0); bool any = false;
            for (size_t j = 0; j < N; ++j) if (j != i) { size_t cj = ret->cl[j]; if (H(i, j) || hk[j]) { q[cj] += W(i, j) - k[i] / (tot / 2) * k[j]; if (!masked) ok[cj] = 1; } }
            if (masked) for (size_t j = 0; j < N; ++j) if (j != i && H(i, j)) ok[ret->cl[j]] = 1;
            double best = 0; for (size_t x = 0; x < N; ++x) if (ok[x] && (!any || q[x] > best)) { any = true; best = q[x]; }
            if (!any) continue;
            size_t x = ret->cl[i]; if (!ok[x] || q[x] < best - 1e-7 * (1 + std::fabs(best))) return "vertex " + std::to_string(i) + " stays in cluster " + std::to_string(x) + " although another one is better"; }
        if (masked) { auto p = weak_comp(N, H); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) if (ret->cl[i] == ret->cl[j] && p[i] != p[j]) return "vertices " + std::to_string(i) + " and " + std::to_string(j) + " of different components share a cluster"; }
        return ""; };
    run_op(c, idx, op);
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(12)) {
    case 0: case 1: pp_step<double>(c, idx); break; case 2: case 3: pp_step<int32_t>(c, idx); break;
    case 4: ids_step<double>(c, idx); break; case 5: ids_step<bool>(c, idx); break;
    case 6: markov_step<double>(c, idx); break; case 7: markov_step<int32_t>(c, idx); break;
    case 8: case 9: louvain_step<double>(c, idx); break; default: louvain_step<int32_t>(c, idx); break;
    }
}
}

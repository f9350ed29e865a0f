// C19: maximal independent set under a simulated random stream.
#include "graphs.hpp"
#include <algorithms/appendix_algorithms.hpp>
namespace sim {
const char *group_name = "mis";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::min<size_t>(d, r.chance(75) ? 12 : 36); P.churn = 20 + (int)r.below(60); P.maxslots = (size_t)r.range(4, 12); if (g_mode.faults) P.nops = std::min(P.nops, 4); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_gs<bool, int32_t, double>(c, s); }
enum { KIND = G_UND | G_NOLOOP | W_UNIT * G_W };
void group_shared(NamedClient &c) { newG<bool>(c, gdim(c, 20), KIND); newG<int32_t>(c, gdim(c, 20), KIND); newG<double>(c, gdim(c, 20), KIND); }
template <class T> void mis_step(NamedClient &c, int idx) {
    auto *g = getG<T>(c, KIND, hcap(36)); size_t N = g->m.r; bool app = c.r.chance(40), dirty = c.r.coin(); double seed = (double)c.r.range(-3, 1000);
    uint64_t es = c.r.next(); int mode = (int)c.r.below(4) % 3, tie = mode ? (int)c.r.below(4 * N + 2) : 0;
    Op op; op.kind = app ? "mis_appendixB6" : "mis"; op.desc = string(op.kind) + "<" + TN<T>::n() + ">, random stream " + std::to_string(es) + (mode ? mode == 1 ? ", tied for " : ", extreme for " : "") + (mode ? std::to_string(tie) + " draws" : ""); op.sig = mix(mode * 2 + app, mix(g->hash(), es)); op.s[2] = g;
    struct R { vector<char> in; string err; }; auto ret = std::make_shared<R>();
    op.pre = [=] { *ret = R(); SimEngine::use(es, mode, tie); };
    op.exec = [=](SlotBase **s) {
        grb::Vector<bool> set(N); if (dirty) { set.setElement(N - 1, true); set.setElement(0, false); }
        if (app) algorithms::mis_appendixB6(set, lib_of<T>(s[2]), seed); else algorithms::mis(lib_of<T>(s[2]), set, seed);
        grb::IndexArrayType I(set.nvals()); vector<bool> V(set.nvals()); set.extractTuples(I.begin(), V.begin());
        auto ids = algorithms::get_vertex_IDs(set);
        HarnessScope h; ret->in.assign(N, 0); for (size_t k = 0; k < I.size(); ++k) if (V[k]) ret->in[I[k]] = 1; else ret->err = "the set stores a false for vertex " + std::to_string(I[k]);
        if (ids != I) ret->err = "get_vertex_IDs lists other vertices than the set holds";
    };
    op.digest = [=]() -> string { return digest_of(ret->in); };
    op.post = [=]() -> string {
        if (!ret->err.empty()) return ret->err;
        if (mode) probe(mode == 1 ? "tied random streams" : "extreme random streams"); else probe("fair random streams");
        for (size_t i = 0; i < N; ++i) { bool cov = ret->in[i];
            for (size_t j = 0; j < N; ++j) if (g->m.at(i, j).has) { if (ret->in[i] && ret->in[j]) return "vertices " + std::to_string(i) + " and " + std::to_string(j) + " of the set are adjacent"; cov |= ret->in[j]; }
            if (!cov) return "vertex " + std::to_string(i) + " could be added to the set"; }
        return ""; };
    run_op(c, idx, op);
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(4)) { case 0: mis_step<bool>(c, idx); break; case 1: mis_step<int32_t>(c, idx); break; default: mis_step<double>(c, idx); break; }
}
}

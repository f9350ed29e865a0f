// Graphs for the algorithm groups: generators, in-place edits, and plain-loop references.
#pragma once
#include "world.hpp"
// the algorithms' random engine belongs to the simulator
namespace std { using sim_engine = sim::SimEngine; }
#define default_random_engine sim_engine
#include <algorithms/algorithms.hpp>

namespace sim {
// graph kinds: structure bits and weight class
enum { G_UND = 1, G_NOLOOP = 2, G_CONN = 4, G_W = 8 /* weight class * G_W */ };
enum { W_UNIT = 0, W_POS = 1, W_NONNEG = 2, W_SIGNED = 3, W_NZ = 4, W_BIG = 5 };
template <class T> T gw(Rng &r, int w) {
    if constexpr (std::is_same_v<T, bool>) return w == W_NONNEG ? !r.chance(20) : true;
    else switch (w) {
        case W_UNIT: return (T)1;
        case W_POS: return (T)r.range(1, 9);
        case W_NONNEG: return (T)(r.chance(35) ? 0 : r.range(0, 9));
        case W_SIGNED: if constexpr (std::is_unsigned_v<T>) return (T)r.range(0, 9); else return (T)(r.chance(70) ? r.range(0, 9) : r.range(-3, -1));
        case W_BIG: return (T)r.range(1, 100);
        default: { int64_t k = r.range(1, 9); if constexpr (!std::is_unsigned_v<T>) if (r.coin()) k = -k; return (T)k; }
    }
}
template <class T> void gset(DM<T> &m, size_t i, size_t j, int kind, Rng &r) {
    if (i == j && (kind & G_NOLOOP)) return;
    T v = gw<T>(r, kind / G_W); m.set(i, j, v); if (kind & G_UND) m.set(j, i, v);
}
template <class T> DM<T> rnd_graph(Rng &r, size_t N, int kind) {
    DM<T> m(N, N); int sh = (int)r.below(13);
    vector<size_t> p(N); for (size_t i = 0; i < N; ++i) p[i] = i;
    if (r.chance(70)) for (size_t i = N; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
    auto E = [&](size_t a, size_t b) { gset(m, p[a], p[b], kind, r); };
    int d; { int dd[] = {4, 10, 20, 35, 60, 90}; d = dd[r.below(6)]; if (N > 20 && d > 35) d = 20; }
    switch (sh) {
    case 0: case 1: case 2: for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (r.chance(d)) E(i, j); break;
    case 3: for (size_t i = 0; i + 1 < N; ++i) E(i, i + 1); break;                                  // path
    case 4: for (size_t i = 0; i < N; ++i) E(i, (i + 1) % N); break;                                // cycle
    case 5: for (size_t i = 1; i < N; ++i) { E(0, i); if (r.coin()) E(i, 0); } break;               // star
    case 6: for (size_t i = 1; i < N; ++i) { size_t q = r.below(i); if (r.coin()) E(q, i); else E(i, q); } break;        // tree
    case 7: for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) if (r.chance(d)) E(i, j); break;           // DAG
    case 8: { size_t k = 1 + r.below(4); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (i % k == j % k && i != j) E(i, j); break; }   // disjoint cliques
    case 9: { size_t w = 1 + r.below(4); for (size_t i = 0; i < N; ++i) { if (i % w + 1 < w && i + 1 < N) E(i, i + 1); if (i + w < N) E(i, i + w); } break; }   // grid
    case 10: { size_t w = 1 + r.below(3); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (j / w == i / w + 1) E(i, j); break; }        // layered, all shortest paths tie
    case 11: for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if ((i < N / 2) != (j < N / 2) && r.chance(d)) E(i, j); break;               // bipartite
    default: for (size_t q = 0; q < 2 * N; ++q) E(r.below(N), r.below(N));
    }
    if (r.chance(30)) for (size_t q = 0; q < 3; ++q) E(r.below(N), r.below(N));
    if (r.chance(15)) { size_t x = r.below(N); for (size_t j = 0; j < N; ++j) { m.at(x, j) = Cell<T>(); if ((kind & G_UND) || r.coin()) m.at(j, x) = Cell<T>(); } }   // isolate a vertex
    if (kind & G_CONN) for (size_t i = 1; i < N; ++i) { bool c = false; for (size_t j = 0; j < i; ++j) c |= m.at(p[i], p[j]).has; if (!c) E(r.below(i), i); }
    return m;
}
template <class T> struct GSlot : MSlot<T> { int kind; GSlot(DM<T> const &m, string n, uint64_t b, int k) : MSlot<T>(m, n, b), kind(k) {} bool big() const override { return false; } };
// 8-bit sizes do not bound the larger graphs of some runs
inline size_t hcap(size_t cap) { return P.huge ? 300 : cap; }
inline size_t gdim(NamedClient &c, size_t cap) { return std::min(cap, rdim(c)); }
template <class T> GSlot<T> *newG(NamedClient &c, size_t N, int kind) { auto *s = new GSlot<T>(rnd_graph<T>(c.r, N, kind), newname(c, "G"), newbs(c), kind); c.own.push_back(s); return s; }
// some graph of this kind: an earlier one (possibly edited since) or a new one
template <class T> GSlot<T> *getG(NamedClient &c, int kind, size_t cap) {
    vector<GSlot<T> *> v;
    for (auto s : c.own) if (auto p = dynamic_cast<GSlot<T> *>(s)) if (p->kind == kind && p->m.r <= cap) v.push_back(p);
    if (c.shared) for (auto s : *c.shared) if (auto p = dynamic_cast<GSlot<T> *>(s)) if (p->kind == kind && p->m.r <= cap) v.push_back(p);
    if (!v.empty() && (c.own.size() >= P.maxslots || c.r.chance(60))) return v[c.r.below(v.size())];
    return newG<T>(c, gdim(c, cap), kind);
}
// output objects of the caller: kept across calls, contents arbitrary
template <class T> VSlot<T> *getOV(NamedClient &c, size_t n) { return getV<T>(c, n, true); }
template <class T> MSlot<T> *getOM(NamedClient &c, size_t R, size_t C) {
    vector<MSlot<T> *> v; for (auto s : c.own) if (s->nr() == R && s->nc() == C) if (auto p = dynamic_cast<MSlot<T> *>(s)) if (!dynamic_cast<GSlot<T> *>(s)) v.push_back(p);
    if (!v.empty() && (c.own.size() >= P.maxslots || c.r.chance(60))) return v[c.r.below(v.size())];
    return newM<T>(c, R, C);
}
template <class T> bool mutate_g(NamedClient &c, SlotBase *s) {
    auto *g = dynamic_cast<GSlot<T> *>(s); if (!g) return false;
    size_t N = g->m.r, i = c.r.below(N), j = c.r.below(N);
    if (want_log()) note("caller " + std::to_string(c.id) + ": edits " + s->name);
    if (g->kind & G_CONN) {                                        // reweigh or add an edge, never disconnect
        gset(g->m, i, j, g->kind, c.r);
        if (g->m.at(i, j).has) { LibScope l; g->lib->setElement(i, j, g->m.at(i, j).v); if (g->kind & G_UND) g->lib->setElement(j, i, g->m.at(j, i).v); }
        return true;
    }
    int k = (int)c.r.below(8);
    if (k < 4) { gset(g->m, i, j, g->kind, c.r); if (g->m.at(i, j).has) { LibScope l; g->lib->setElement(i, j, g->m.at(i, j).v); if (g->kind & G_UND) g->lib->setElement(j, i, g->m.at(j, i).v); } }
    else if (k < 7) { g->m.at(i, j) = Cell<T>(); if (g->kind & G_UND) g->m.at(j, i) = Cell<T>(); LibScope l; g->lib->removeElement(i, j); if (g->kind & G_UND) g->lib->removeElement(j, i); }
    else { g->m = rnd_graph<T>(c.r, N, g->kind); g->rebuild(); }
    return true;
}
template <class... Ts> bool mutate_gs(NamedClient &c, SlotBase *s) { return (mutate_g<Ts>(c, s) || ...) || (mutate_m<Ts>(c, s) || ...); }
template <class T> DM<T> const &graph_of(SlotBase *s) { return ((MSlot<T> *)s)->m; }
template <class T> grb::Matrix<T> &lib_of(SlotBase *s) { return *((MSlot<T> *)s)->lib; }
template <class T> grb::Vector<T> &vlib_of(SlotBase *s) { return *((VSlot<T> *)s)->lib; }

// references
enum : size_t { UNREACHED = ~(size_t)0 };
template <class T> vector<size_t> ref_hops(DM<T> const &g, vector<size_t> const &src) {
    vector<size_t> d(g.r, UNREACHED), q; for (auto s : src) if (d[s] == UNREACHED) { d[s] = 0; q.push_back(s); }
    for (size_t h = 0; h < q.size(); ++h) for (size_t v = 0; v < g.r; ++v) if (g.at(q[h], v).has && d[v] == UNREACHED) { d[v] = d[q[h]] + 1; q.push_back(v); }
    return d;
}
// Bellman-Ford over int64 (weights are integers); false on a reachable negative cycle
template <class T> bool ref_dist(DM<T> const &g, vector<Cell<int64_t>> &d) {
    size_t N = g.r;
    for (size_t k = 0; k <= N; ++k) { bool ch = false;
        for (size_t i = 0; i < N; ++i) if (d[i].has) for (size_t j = 0; j < N; ++j) if (g.at(i, j).has) { int64_t x = d[i].v + (int64_t)g.at(i, j).v; if (!d[j].has || x < d[j].v) { d[j].has = true; d[j].v = x; ch = true; } }
        if (!ch) return true; }
    return false;
}
template <class T> uint64_t gsig(DM<T> const &g) { return hmodel(g); }
// a call that yields a plain value, compared with `want` afterwards
template <class R> struct Ret { R v{}; };
template <class R, class F, class W> void value_op(NamedClient &c, int idx, const char *kind, string const &desc, SlotBase *g, F f, W want) {
    Op op; op.kind = kind; op.desc = desc; op.s[2] = g; op.sig = mix((uint64_t)(unsigned char)kind[0] * 256 + kind[1], g ? g->hash() : 0);
    auto r = std::make_shared<Ret<R>>();
    op.pre = [=] { r->v = R(); };
    op.exec = [=](SlotBase **x) { R v = f(x[2]); HarnessScope h; r->v = v; };
    op.post = [=]() -> string { return want(r->v); }; op.digest = [=]() -> string { return digest_of(r->v); };
    run_op(c, idx, op);
}
} // namespace sim

// C15: algorithm calls whose operands do not fit.
#include "graphs.hpp"
#include "ops.hpp"
#include <algorithms/bfs.hpp>
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
#include <algorithms/metrics.hpp>
#include <algorithms/bc.hpp>
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
#include <algorithms/mis.hpp>
#include <algorithms/mst.hpp>
#include <algorithms/page_rank.hpp>
#include <algorithms/triangle_count.hpp>
#include <algorithms/maxflow.hpp>
#include <algorithms/k_truss.hpp>
namespace sim {
const char *group_name = "algrej";
void group_params(Rng &) { for (auto &d : P.dims) d = 1 + (d - 1) % 12; P.huge = 0; }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int32_t, double, bool, grb::IndexType>(c, s); }
void group_shared(NamedClient &) {}
// operands: s[2] the graph, s[0]/s[3] what the call would write
template <class T> void rej_step(NamedClient &c, int idx) {
    size_t N = rdim(c), gr = N, gc = N, on = N; bool square = true;
    int k = (int)c.r.below(50); bool swap56 = c.r.coin();
    bool has_out = k <= 15 || (k >= 33 && k <= 37), idx_only = (k >= 28 && k <= 32) || k == 41 || k == 42;
    if (idx_only) ; else if (has_out && c.r.coin()) on = wrong(c, N); else { square = false; if (c.r.coin()) gr = wrong(c, N); else gc = wrong(c, N); if (has_out && c.r.chance(30)) on = wrong(c, N); }
    if (k == 16 || k == 17) { gr = N; gc = N; square = true; }   // the degree functions accept any shape and check the vertex
    size_t src = N + c.r.below(3), ok = c.r.below(std::min(gr, gc));
    Op op; op.s[2] = getM<T>(c, gr, gc); op.expect = X_DIM; op.sig = mix(k, mix(gr, mix(gc, on)));
    auto &s = op.s; string ty = string("<") + TN<T>::n() + ">"; (void)square;
    auto name = [&](const char *n) { op.kind = "algorithm rejections"; op.desc = n + ty + " graph " + std::to_string(gr) + "x" + std::to_string(gc); };
#define G lib_of<T>(x[2])
#define VO(U) vlib_of<U>(x[0])
#define MO(U) lib_of<U>(x[0])
#define RUN(...) op.exec = [=](SlotBase **x) { __VA_ARGS__; }
    typedef grb::IndexType I;
    switch (k) {
    case 0: if (c.r.coin()) { name("sssp_delta_step"); s[0] = getV<T>(c, on, true); RUN(algorithms::sssp_delta_step(G, (T)2, ok, VO(T))); break; }
        name("sssp"); s[0] = getV<T>(c, on, true); RUN(algorithms::sssp(G, VO(T))); break;
    case 1: name("filtered_sssp"); s[0] = getV<T>(c, on, true); RUN(algorithms::filtered_sssp(G, VO(T))); break;
    case 2: name("batch_sssp"); s[0] = getM<T>(c, 1 + c.r.below(3), on, true); if (op.s[0] == op.s[2]) return; RUN(algorithms::batch_sssp(G, MO(T))); break;
    case 3: name("graph_distance"); s[0] = getV<T>(c, on, true); RUN(algorithms::graph_distance(G, ok, VO(T))); break;
    case 4: name("graph_distance_matrix"); { size_t a = N, b = N; if (on != N) (c.r.coin() ? a : b) = on; s[0] = newM<T>(c, a, b); } RUN(algorithms::graph_distance_matrix(G, MO(T))); break;
    case 5: name("bfs_level_masked"); s[0] = getV<I>(c, swap56 ? on : N, true); s[3] = getV<bool>(c, swap56 ? N : on); RUN(algorithms::bfs_level_masked(G, vlib_of<bool>(x[3]), VO(I))); break;
    case 6: name("bfs_level_masked_v2"); s[0] = getV<I>(c, swap56 ? on : N, true); s[3] = getV<bool>(c, swap56 ? N : on); RUN(algorithms::bfs_level_masked_v2(G, vlib_of<bool>(x[3]), VO(I))); break;
    case 7: { name("batch_bfs_level_masked"); size_t b = 1 + c.r.below(3); s[0] = newM<I>(c, b, swap56 ? on : N); s[3] = newM<bool>(c, b, swap56 ? N : on); RUN(algorithms::batch_bfs_level_masked(G, lib_of<bool>(x[3]), MO(I))); break; }
    case 8: name("peer_pressure_cluster"); { size_t a = N, b = N; if (on != N) (c.r.coin() ? a : b) = on; s[0] = newM<bool>(c, a, b); } RUN(algorithms::peer_pressure_cluster(G, MO(bool), 3u)); break;
    case 9: name("peer_pressure_cluster_v2"); { size_t a = N, b = N; if (on != N) (c.r.coin() ? a : b) = on; s[0] = newM<bool>(c, a, b); } RUN(algorithms::peer_pressure_cluster_v2(G, MO(bool), 3u)); break;
    case 10: case 11: name("mis"); s[0] = getV<bool>(c, on, true); RUN(algorithms::mis(G, VO(bool), 1.0)); break;
    case 12: case 13: name("mst"); s[0] = getV<I>(c, on, true); RUN(algorithms::mst(G, VO(I))); break;
    case 14: case 15: name("page_rank"); s[0] = getV<double>(c, on, true); RUN(algorithms::page_rank(G, VO(double), 0.85, 1e-5, 3u)); break;
    case 16: name("vertex_in_degree"); RUN(algorithms::vertex_in_degree(G, src)); break;
    case 17: name("vertex_out_degree"); RUN(algorithms::vertex_out_degree(G, src)); break;
    case 18: name("vertex_eccentricity"); RUN(algorithms::vertex_eccentricity(G, ok)); break;
    case 19: name("apsp"); RUN(algorithms::apsp(G)); break;
    case 20: name("markov_cluster"); RUN(algorithms::markov_cluster(G, 2, 2, 1e-16, 3u)); break;
    case 21: name("louvain_cluster"); RUN(algorithms::louvain_cluster(G, 11.0, 3u)); break;
    case 22: name("louvain_cluster_masked"); RUN(algorithms::louvain_cluster_masked(G, 11.0, 3u)); break;
    case 23: name("vertex_betweenness_centrality_batch_alt_trans_v2"); RUN(algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(G, grb::IndexArrayType{ok})); break;
    case 24: name("vertex_betweenness_centrality_batch_alt_trans"); RUN(algorithms::vertex_betweenness_centrality_batch_alt_trans(G, grb::IndexArrayType{ok})); break;
    case 25: { name("vertex_betweenness_centrality_batch(_alt,_old)"); int w = (int)c.r.below(3); RUN(grb::IndexArrayType a{ok}; if (w == 0) algorithms::vertex_betweenness_centrality_batch_alt(G, a); else if (w == 1) algorithms::vertex_betweenness_centrality_batch(G, a); else algorithms::vertex_betweenness_centrality_batch_old(G, a)); break; }
    case 26: name("vertex_betweenness_centrality"); RUN(algorithms::vertex_betweenness_centrality(G)); break;
    case 27: name("edge_betweenness_centrality"); RUN(algorithms::edge_betweenness_centrality(G)); break;
    case 28: { name("betweenness without sources"); int w = (int)c.r.below(5); RUN(grb::IndexArrayType a; if (w == 0) algorithms::vertex_betweenness_centrality_batch_alt(G, a); else if (w == 1) algorithms::vertex_betweenness_centrality_batch(G, a); else if (w == 2) algorithms::vertex_betweenness_centrality_batch_old(G, a); else if (w == 3) algorithms::vertex_betweenness_centrality_batch_alt_trans(G, a); else algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(G, a)); break; }
    case 29: name("vertex_eccentricity, vertex out of range"); op.expect = X_OOB | X_INDEX | X_DIM; RUN(algorithms::vertex_eccentricity(G, src)); break;
    case 30: name("bfs, source out of range"); op.expect = X_OOB | X_INDEX | X_DIM; s[0] = getV<I>(c, N, true); RUN(algorithms::bfs(G, src, VO(I))); break;
    case 31: name("bfs_level, source out of range"); op.expect = X_OOB | X_INDEX | X_DIM; s[0] = getV<I>(c, N, true); RUN(algorithms::bfs_level(G, src, VO(I))); break;
    case 33: name("bfs"); s[0] = getV<I>(c, on, true); RUN(algorithms::bfs(G, ok, VO(I))); break;
    case 34: name("bfs(wavefront)"); s[0] = getV<I>(c, swap56 ? on : N, true); s[3] = getV<I>(c, swap56 ? N : on); if (s[0] == s[3]) return; RUN(algorithms::bfs(G, vlib_of<I>(x[3]), VO(I))); break;
    case 35: { name("bfs_batch"); size_t b = 1 + c.r.below(3); s[0] = newM<I>(c, b, swap56 ? on : N); s[3] = newM<I>(c, b, swap56 ? N : on); RUN(algorithms::bfs_batch(G, lib_of<I>(x[3]), MO(I))); break; }
    case 36: name("bfs_level"); s[0] = getV<I>(c, on, true); RUN(algorithms::bfs_level(G, ok, VO(I))); break;
    case 37: { name("bfs_level(wavefronts)"); size_t b = 1 + c.r.below(3); s[0] = newM<unsigned>(c, b, swap56 ? on : N); s[3] = newM<bool>(c, b, swap56 ? N : on); RUN(algorithms::bfs_level(G, lib_of<bool>(x[3]), MO(unsigned))); break; }
    case 38: name("triangle_count"); RUN(algorithms::triangle_count(G)); break;
    case 39: name("triangle_count_masked"); RUN(algorithms::triangle_count_masked(G)); break;
    case 40: name("triangle_count_masked_noT"); RUN(algorithms::triangle_count_masked_noT(G)); break;
    case 43: name("maxflow"); RUN(if (swap56) algorithms::maxflow_push_relabel(G, 0, 0); else algorithms::maxflow_ford_fulk(G, 0, 0)); break;
    case 44: { name("split"); size_t a = N, b = N; op.s[2] = getM<T>(c, N, N); (c.r.coin() ? a : b) = wrong(c, N); s[0] = newM<T>(c, swap56 ? a : N, swap56 ? b : N); s[3] = newM<T>(c, swap56 ? N : a, swap56 ? N : b); RUN(grb::split(G, lib_of<T>(x[3]), MO(T))); break; }
    case 45: name("graph_radius"); RUN(algorithms::graph_radius(G)); break;
    case 46: name("graph_diameter"); RUN(algorithms::graph_diameter(G)); break;
    case 47: name("closeness_centrality"); RUN(algorithms::closeness_centrality(G, ok)); break;
    case 48: name("triangle_count_masked(L, U)"); op.s[2] = getM<T>(c, N, N); s[3] = newM<T>(c, gr, gc); RUN(algorithms::triangle_count_masked(G, lib_of<T>(x[3]))); break;
    case 49: name("k_truss2"); RUN(algorithms::k_truss2(G, 3)); break;
    case 41: name("maxflow_push_relabel, source or sink out of range"); op.expect = X_OOB | X_INDEX | X_DIM; RUN(if (swap56) algorithms::maxflow_push_relabel(G, src, ok); else algorithms::maxflow_push_relabel(G, ok, src)); break;
    case 42: name("maxflow_ford_fulkerson, source or sink out of range"); op.expect = X_OOB | X_INDEX | X_DIM; RUN(if (swap56) algorithms::maxflow_ford_fulk(G, src, ok); else algorithms::maxflow_ford_fulk(G, ok, src)); break;
    default: { int w = (int)c.r.below(2); name(w ? "graph_distance, source out of range" : "sssp_delta_step, source out of range"); op.expect = X_OOB | X_INDEX | X_DIM; s[0] = getV<T>(c, N, true); if (w) RUN(algorithms::graph_distance(G, src, VO(T))); else RUN(algorithms::sssp_delta_step(G, (T)2, src, VO(T))); }
    }
    if (op.s[0]) op.desc += ", output " + std::to_string(op.s[0]->nr()) + "x" + std::to_string(op.s[0]->nc());
    run_op(c, idx, op);
}
void group_step(NamedClient &c, int idx) { if (c.r.coin()) rej_step<int32_t>(c, idx); else rej_step<double>(c, idx); }
}

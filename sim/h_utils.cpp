// C26: matrix utilities.
#include "graphs.hpp"
namespace sim {
const char *group_name = "utils";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::min<size_t>(d, 30); P.churn = 20 + (int)r.below(60); P.maxslots = (size_t)r.range(4, 14); if (g_mode.faults) P.nops = std::min(P.nops, 5); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<bool, int8_t, int32_t, uint64_t, float, double, Sx>(c, s); }
void group_shared(NamedClient &c) { for (int k = 0; k < 3; ++k) { newM<double>(c, rdim(c), rdim(c)); newM<int32_t>(c, rdim(c), rdim(c)); newV<double>(c, rdim(c)); newV<bool>(c, rdim(c)); } }

template <class TM, class TV> void diag_step(NamedClient &c, int idx) {
    size_t n = rdim(c); auto *v = getV<TV>(c, n); auto *o = getM<TM>(c, n, n, true);
    Op op; op.kind = "diag"; op.desc = string("diag<") + TN<TM>::n() + ">(" + TN<TV>::n() + ")"; op.sig = mix(1, v->hash()); op.s[0] = o; op.s[2] = v;
    op.model = [=](SlotBase **s) { auto *q = (MSlot<TM> *)s[0]; auto *a = (VSlot<TV> *)s[2]; q->exp = DM<TM>(n, n); for (size_t i = 0; i < n; ++i) if (a->m.at(i, 0).has) q->exp.set(i, i, (TM)a->m.at(i, 0).v); };
    op.exec = [=](SlotBase **s) { lib_of<TM>(s[0]) = grb::diag<grb::Matrix<TM>>(vlib_of<TV>(s[2])); };
    run_op(c, idx, op);
}
template <class T> void ident_step(NamedClient &c, int idx) {
    size_t n = rdim(c); auto *o = getM<T>(c, n, n, true); bool deflt = c.r.chance(30); T val = deflt ? (T)1 : rnd<T>(c.r, P.style);
    Op op; op.kind = "scaled_identity"; op.desc = string("scaled_identity<") + TN<T>::n() + ">(" + std::to_string(n) + ", " + str(val) + ")"; op.sig = mix(2, n); op.s[0] = o;
    op.model = [=](SlotBase **s) { auto *q = (MSlot<T> *)s[0]; q->exp = DM<T>(n, n); for (size_t i = 0; i < n; ++i) q->exp.set(i, i, val); };
    op.exec = [=](SlotBase **s) { if (deflt) lib_of<T>(s[0]) = grb::scaled_identity<grb::Matrix<T>>(n); else lib_of<T>(s[0]) = grb::scaled_identity<grb::Matrix<T>>(n, val); };
    run_op(c, idx, op);
}
template <class T> void split_step(NamedClient &c, int idx) {
    size_t R = rdim(c), C = rdim(c); auto *a = getM<T>(c, R, C); auto *o = getM<T>(c, R, C, true); bool lower = c.r.coin(), dirty = c.r.chance(40);
    if (o == a) return;
    Op op; op.kind = "split"; op.desc = string("split<") + TN<T>::n() + ">, out is " + (lower ? "L" : "U"); op.sig = mix(3 + lower, a->hash()); op.s[0] = o; op.s[2] = a;
    op.model = [=](SlotBase **s) { auto *q = (MSlot<T> *)s[0]; auto *x = (MSlot<T> *)s[2]; q->exp = DM<T>(R, C); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (x->m.at(i, j).has && (j <= i) == lower) q->exp.at(i, j) = x->m.at(i, j); };
    auto other = std::make_shared<DM<T>>(); auto err = std::make_shared<string>();
    op.pre = [=] { *other = DM<T>(R, C); err->clear(); };
    op.exec = [=](SlotBase **s) { grb::Matrix<T> x(R, C); if (dirty) x.setElement(R - 1, 0, T(1));
        if (lower) grb::split(lib_of<T>(s[2]), lib_of<T>(s[0]), x); else grb::split(lib_of<T>(s[2]), x, lib_of<T>(s[0]));
        grb::IndexArrayType I(x.nvals()), J(x.nvals()); vector<T> V(x.nvals()); x.extractTuples(I, J, V);
        HarnessScope h; for (size_t k = 0; k < I.size(); ++k) other->set(I[k], J[k], V[k]); };
    op.digest = [=]() -> string { return std::to_string(hmodel(*other)); };
    op.post = [=]() -> string { DM<T> w(R, C); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (a->m.at(i, j).has && (j <= i) != lower) w.at(i, j) = a->m.at(i, j); string d = diff(w, *other); return d.empty() ? "" : string(lower ? "U: " : "L: ") + d; };
    run_op(c, idx, op);
}
// sums are powers of two, so every quotient is exact
template <class T> void norm_exact_step(NamedClient &c, int idx) {
    bool rows = c.r.coin(); size_t R = rdim(c), C = rdim(c); DM<T> m = rnd_model<T>(c.r, R, C);
    size_t outer = rows ? R : C, inner = rows ? C : R;
    auto at = [&](size_t i, size_t j) -> Cell<T> & { return rows ? m.at(i, j) : m.at(j, i); };
    bool sgn = c.r.chance(30);
    for (size_t i = 0; i < outer; ++i) { int64_t sum = 0; size_t last = inner; for (size_t j = 0; j < inner; ++j) if (at(i, j).has) { int64_t v = c.r.range(sgn ? -9 : 0, 9); at(i, j).v = (T)v; sum += v; last = j; }
        if (last == inner) continue; sum -= (int64_t)at(i, last).v; int64_t t = 1; int sh = (int)c.r.below(8); t <<= sh; if (!sgn) while (t < sum) t *= 2; if (sgn && c.r.coin()) t = -t; at(i, last).v = (T)(t - sum); }
    auto *a = new MSlot<T>(m, newname(c, "M"), newbs(c)); c.own.push_back(a);
    Op op; op.kind = rows ? "normalize_rows" : "normalize_cols"; op.desc = string(op.kind) + "<" + TN<T>::n() + ">"; op.sig = mix(5 + rows, a->hash()); op.s[0] = a; op.retry_ok = false;
    op.model = [=](SlotBase **s) { auto *q = (MSlot<T> *)s[0]; q->exp = DM<T>(R, C);
        for (size_t i = 0; i < outer; ++i) { int64_t sum = 0; for (size_t j = 0; j < inner; ++j) { auto &x = rows ? q->m.at(i, j) : q->m.at(j, i); if (x.has) sum += (int64_t)x.v; }
            for (size_t j = 0; j < inner; ++j) { auto &x = rows ? q->m.at(i, j) : q->m.at(j, i); if (x.has) { if (rows) q->exp.set(i, j, (T)((double)x.v / (double)sum)); else q->exp.set(j, i, (T)((double)x.v / (double)sum)); } } } };
    op.exec = [=](SlotBase **s) { if (rows) grb::normalize_rows(lib_of<T>(s[0])); else grb::normalize_cols(lib_of<T>(s[0])); };
    run_op(c, idx, op);
    auto it = std::find(c.own.begin(), c.own.end(), a); if (it != c.own.end()) { c.own.erase(it); delete a; }
}
// arbitrary values: each non-empty row (column) sums to one, pattern kept
template <class T> void norm_any_step(NamedClient &c, int idx) {
    bool rows = c.r.coin(); size_t R = rdim(c), C = rdim(c);
    DM<T> m = rnd_model<T>(c.r, R, C); for (auto &x : m.d) if (x.has) x.v = (T)((double)c.r.range(1, 9999) / 7.0);
    auto *a = new MSlot<T>(m, newname(c, "M"), newbs(c)); c.own.push_back(a);
    struct X { DM<T> o; string err; }; auto res = std::make_shared<X>();
    Op op; op.kind = rows ? "normalize_rows" : "normalize_cols"; op.desc = string(op.kind) + "<" + TN<T>::n() + "> of a copy"; op.sig = mix(7 + rows, a->hash()); op.s[2] = a;
    op.pre = [=] { *res = X(); };
    op.exec = [=](SlotBase **s) { grb::Matrix<T> x(lib_of<T>(s[2])); if (rows) grb::normalize_rows(x); else grb::normalize_cols(x);
        grb::IndexArrayType I(x.nvals()), J(x.nvals()); vector<T> V(x.nvals()); x.extractTuples(I, J, V); HarnessScope h; res->o = DM<T>(R, C); for (size_t k = 0; k < I.size(); ++k) res->o.set(I[k], J[k], V[k]); };
    op.digest = [=]() -> string { return std::to_string(hmodel(res->o)); };
    op.post = [=]() -> string {
        for (size_t i = 0; i < (rows ? R : C); ++i) { double sum = 0, w = 0; bool any = false;
            for (size_t j = 0; j < (rows ? C : R); ++j) { auto &x = rows ? a->m.at(i, j) : a->m.at(j, i); auto &y = rows ? res->o.at(i, j) : res->o.at(j, i); if (x.has != y.has) return "the pattern changed in line " + std::to_string(i); if (x.has) { sum += (double)y.v; w += (double)x.v; any = true; } }
            if (any && std::fabs(sum - 1) > 1e-4) return "line " + std::to_string(i) + " sums to " + std::to_string(sum);
            for (size_t j = 0; j < (rows ? C : R); ++j) { auto &x = rows ? a->m.at(i, j) : a->m.at(j, i); auto &y = rows ? res->o.at(i, j) : res->o.at(j, i); if (x.has && std::fabs((double)y.v - (double)x.v / w) > 1e-5) return "line " + std::to_string(i) + " is not scaled evenly"; } }
        return ""; };
    run_op(c, idx, op);
    auto it = std::find(c.own.begin(), c.own.end(), a); if (it != c.own.end()) { c.own.erase(it); delete a; }
}
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(16)) {
    case 0: diag_step<double, double>(c, idx); break; case 1: diag_step<int32_t, bool>(c, idx); break; case 2: diag_step<bool, bool>(c, idx); break; case 3: diag_step<int64_t, int8_t>(c, idx); break;
    case 4: ident_step<double>(c, idx); break; case 5: ident_step<bool>(c, idx); break; case 6: ident_step<int8_t>(c, idx); break;
    case 7: split_step<double>(c, idx); break; case 8: split_step<bool>(c, idx); break; case 9: split_step<int32_t>(c, idx); break; case 10: split_step<Sx>(c, idx); break;
    case 11: case 12: norm_exact_step<double>(c, idx); break; case 13: norm_exact_step<float>(c, idx); break;
    case 14: norm_any_step<double>(c, idx); break; default: norm_any_step<float>(c, idx); break;
    }
}
}

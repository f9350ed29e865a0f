// Operation generators: element-wise, extract, assign, apply, reduce, transpose, kronecker.
#pragma once
#include "ops.hpp"

namespace sim {
template <class... Ts> string tns() { string s; ((s += s.empty() ? TN<Ts>::n() : string(",") + TN<Ts>::n()), ...); return s; }
template <class... Ts> uint64_t tsig() { uint64_t h = 7; ((h = mix(h, (uint64_t)TN<Ts>::n()[0] * 256 + TN<Ts>::n()[1])), ...); return h; }

// ------------------------------------------------------------------ element-wise
template <class TA, class TB, class D3> DM<D3> ew_model(DM<TA> const &a, DM<TB> const &b, int k, bool add) {
    DM<D3> t(a.r, a.c);
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) {
        auto &x = a.at(i, j); auto &y = b.at(i, j);
        if (x.has && y.has) t.set(i, j, bin_eval<D3>(k, x.v, y.v));
        else if (add && x.has) t.set(i, j, cast<D3>(x.v));
        else if (add && y.has) t.set(i, j, cast<D3>(y.v));
    }
    return t;
}
template <class TU, class TV, class TC, class TM, class D3> void step_ew_v(NamedClient &c, int idx, bool add) {
    Op op; op.kind = add ? "eWiseAdd(vec)" : "eWiseMult(vec)"; Desc d = rnd_desc(c.r); d.ta = d.tb = false;
    size_t n = rdim(c), us = n, vs = n, ms = n; int k = rnd_bink(c.r);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 3 : 2); (w == 0 ? us : w == 1 ? vs : ms) = wrong(c, n); op.expect = X_DIM; }
    op.s[0] = getV<TC>(c, n, true); if (d.mk) op.s[1] = getV<TM>(c, ms); op.s[2] = getV<TU>(c, us); op.s[3] = getV<TV>(c, vs);
    if (!rej) { maybe_alias<VSlot<TU>>(c, op.s[2], op.s[0]); maybe_alias<VSlot<TV>>(c, op.s[3], op.s[0]); if (d.mk) { maybe_alias<VSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<VSlot<TM>>(c, op.s[1], op.s[2]); } maybe_alias<VSlot<TV>>(c, op.s[3], op.s[2]); }
    op.desc = string(op.kind) + "<" + tns<TU, TV, TC>() + "> " + dstr(d) + " op=" + bname[k];
    op.sig = mix(mix(10 + add, dsig(d)), mix(k, tsig<TU, TV, TC, TM>()));
    op.model = [=](SlotBase **s) { set_v<TC, D3, TM>(s, d, ew_model<TU, TV, D3>(vdl<TU>(s[2]), vdl<TV>(s[3]), k, add)); };
    op.exec = [=](SlotBase **s) {
        DynBin<TU, TV, D3> f; f.kind = k; auto &w = *((VSlot<TC> *)s[0])->lib; auto &u = *((VSlot<TU> *)s[2])->lib; auto &v = *((VSlot<TV> *)s[3])->lib;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, D3>(d.acc, [&](auto const &acc) {
            if (add) grb::eWiseAdd(w, M, acc, f, u, v, oc(d.rep)); else grb::eWiseMult(w, M, acc, f, u, v, oc(d.rep)); }); });
    };
    run_op(c, idx, op);
}
template <class TA, class TB, class TC, class TM, class D3> void step_ew_m(NamedClient &c, int idx, bool add) {
    Op op; op.kind = add ? "eWiseAdd(mat)" : "eWiseMult(mat)"; Desc d = rnd_desc(c.r);
    size_t m = rdim(c), n = rdim(c), ar = m, ac = n, br = m, bc = n, mr = m, mc = n; int k = rnd_bink(c.r);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 6 : 4); size_t *p[] = {&ar, &ac, &br, &bc, &mr, &mc}; *p[w] = wrong(c, *p[w]); op.expect = X_DIM; }
    op.s[0] = getM<TC>(c, m, n, true); if (d.mk) op.s[1] = getM<TM>(c, mr, mc);
    op.s[2] = d.ta ? getM<TA>(c, ac, ar) : getM<TA>(c, ar, ac); op.s[3] = d.tb ? getM<TB>(c, bc, br) : getM<TB>(c, br, bc);
    if (!rej) { maybe_alias<MSlot<TA>>(c, op.s[2], op.s[0]); maybe_alias<MSlot<TB>>(c, op.s[3], op.s[0]); if (d.mk) { maybe_alias<MSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<MSlot<TM>>(c, op.s[1], op.s[2]); } maybe_alias<MSlot<TB>>(c, op.s[3], op.s[2]); }
    op.desc = string(op.kind) + "<" + tns<TA, TB, TC>() + "> " + dstr(d) + " op=" + bname[k];
    op.sig = mix(mix(12 + add, dsig(d)), mix(k, tsig<TA, TB, TC, TM>()));
    op.model = [=](SlotBase **s) { set_m<TC, D3, TM>(s, d, ew_model<TA, TB, D3>(tmodel<TA>(s[2], d.ta), tmodel<TB>(s[3], d.tb), k, add)); };
    op.exec = [=](SlotBase **s) {
        DynBin<TA, TB, D3> f; f.kind = k; auto &C = *((MSlot<TC> *)s[0])->lib;
        disp_mmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, D3>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) { disp_t<TB>(d.tb, s[3], [&](auto const &B) {
            if (add) grb::eWiseAdd(C, M, acc, f, A, B, oc(d.rep)); else grb::eWiseMult(C, M, acc, f, A, B, oc(d.rep)); }); }); }); });
    };
    run_op(c, idx, op);
}

// ------------------------------------------------------------------ index sequences
struct Idx {
    int kind = 0; vector<IndexType> v;         // 0 list, 1 range, 2 all; v always holds the meaning
    template <class F> void with(F &&f) const {
#ifdef SIM_LITE
        if (kind == 2) f(grb::AllIndices()); else f(v); return;
#endif
        if (kind == 0) f(v); else if (kind == 1) f(grb::IndexSequenceRange(v[0], v[0] + v.size())); else f(grb::AllIndices());
    }
    string s() const { if (kind == 2) return "all"; if (kind == 1) return "[" + std::to_string(v[0]) + ".." + std::to_string(v[0] + v.size()) + ")"; string r = "["; for (size_t i = 0; i < v.size() && i < 30; ++i) r += (i ? " " : "") + std::to_string(v[i]); return r + "]"; }
    uint64_t sig() const { uint64_t h = kind; for (auto x : v) h = mix(h, x); return h; }
};
// len positions out of [0,n); distinct for assignment targets. n >= 1
inline Idx rnd_idx(NamedClient &c, size_t n, bool distinct, bool sorted_dup_ok = false) {
    Idx x; int k = (int)c.r.below(10);
    if (k < 2) { x.kind = 2; x.v.resize(n); std::iota(x.v.begin(), x.v.end(), 0); return x; }
    if (k < 4) { x.kind = 1; size_t b = c.r.below(n), l = 1 + c.r.below(n - b); x.v.resize(l); std::iota(x.v.begin(), x.v.end(), b); return x; }
    x.kind = 0;
    if (distinct) {
        vector<IndexType> p(n); std::iota(p.begin(), p.end(), 0); for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[c.r.below(i)]);
        size_t l = c.r.chance(25) ? n : 1 + c.r.below(n); p.resize(l); if (c.r.chance(30)) std::sort(p.begin(), p.end()); else if (c.r.chance(15)) std::sort(p.rbegin(), p.rend());
        x.v = p;
    } else {
        size_t l = 1 + c.r.below(std::min<size_t>(n + 3, 40)); int m = (int)c.r.below(4);
        for (size_t i = 0; i < l; ++i) x.v.push_back(m == 0 ? c.r.below(n) : m == 1 ? n - 1 - c.r.below(std::min<size_t>(n, 2)) : m == 2 ? std::min<size_t>(i, n - 1) : c.r.below(std::min<size_t>(n, 3)));
        if (c.r.chance(25)) std::sort(x.v.begin(), x.v.end());
    }
    return x;
}
inline void spoil(NamedClient &c, Idx &x, size_t n) { if (x.kind == 2) { x.kind = 0; } size_t off = c.r.chance(70) ? 0 : c.r.below(6);
    if (x.kind == 1) { x.v.resize(x.v.size()); size_t b = n - x.v.size() + 1 + off; std::iota(x.v.begin(), x.v.end(), b); } else x.v[c.r.below(x.v.size())] = c.r.chance(10) ? (~0ull / 4) : n + off; }

#ifdef SIM_LITE
constexpr bool LITE = true;
#else
constexpr bool LITE = false;
#endif
// ------------------------------------------------------------------ extract
template <class TA> DM<TA> ex_model(DM<TA> const &a, vector<IndexType> const &I, vector<IndexType> const &J) {
    DM<TA> t(I.size(), J.size()); for (size_t i = 0; i < I.size(); ++i) for (size_t j = 0; j < J.size(); ++j) t.at(i, j) = a.at(I[i], J[j]); return t;
}
template <class TU, class TC, class TM> void step_ex_v(NamedClient &c, int idx) {
    Op op; op.kind = "extract(vec)"; Desc d = rnd_desc(c.r); d.ta = d.tb = false;
    size_t n = rdim(c); Idx I = rnd_idx(c, n, false); size_t m = I.v.size(), ms = m;
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 3 : 2); if (w == 0) { spoil(c, I, n); op.expect = X_OOB; } else if (w == 1) { if (I.kind == 2) I.kind = 0; m = wrong(c, m); ms = m; op.expect = X_DIM; } else { ms = wrong(c, m); op.expect = X_DIM; } }
    op.s[0] = getV<TC>(c, m, true); if (d.mk) op.s[1] = getV<TM>(c, ms); op.s[2] = getV<TU>(c, n);
    if (!rej) { maybe_alias<VSlot<TU>>(c, op.s[2], op.s[0]); if (d.mk) { maybe_alias<VSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<VSlot<TM>>(c, op.s[1], op.s[2]); } }
    op.desc = string(op.kind) + "<" + tns<TU, TC>() + "> " + dstr(d) + " indices " + I.s();
    op.sig = mix(mix(14, dsig(d)), mix(I.sig(), tsig<TU, TC, TM>()));
    op.model = [=](SlotBase **s) { set_v<TC, TU, TM>(s, d, ex_model<TU>(vdl<TU>(s[2]), I.v, {0})); };
    op.exec = [=](SlotBase **s) { auto &w = *((VSlot<TC> *)s[0])->lib; auto &u = *((VSlot<TU> *)s[2])->lib;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TU>(d.acc, [&](auto const &acc) { I.with([&](auto const &seq) { grb::extract(w, M, acc, u, seq, oc(d.rep)); }); }); }); };
    run_op(c, idx, op);
}
template <class TA, class TC, class TM> void step_ex_m(NamedClient &c, int idx) {
    Op op; op.kind = "extract(mat)"; Desc d = rnd_desc(c.r); d.tb = false;
    size_t r = rdim(c), q = rdim(c); Idx I = rnd_idx(c, r, false), J = rnd_idx(c, q, false); size_t m = I.v.size(), n = J.v.size(), mr = m, mc = n;
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 6 : 4);
        if (w == 0) { spoil(c, I, r); op.expect = X_OOB; } else if (w == 1) { spoil(c, J, q); op.expect = X_OOB; }
        else if (w == 2) { if (I.kind == 2) I.kind = 0; m = mr = wrong(c, m); op.expect = X_DIM; } else if (w == 3) { if (J.kind == 2) J.kind = 0; n = mc = wrong(c, n); op.expect = X_DIM; }
        else if (w == 4) { mr = wrong(c, m); op.expect = X_DIM; } else { mc = wrong(c, n); op.expect = X_DIM; } }
    op.s[0] = getM<TC>(c, m, n, true); if (d.mk) op.s[1] = getM<TM>(c, mr, mc); op.s[2] = d.ta ? getM<TA>(c, q, r) : getM<TA>(c, r, q);
    if (!rej) { maybe_alias<MSlot<TA>>(c, op.s[2], op.s[0]); if (d.mk) { maybe_alias<MSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<MSlot<TM>>(c, op.s[1], op.s[2]); } }
    op.desc = string(op.kind) + "<" + tns<TA, TC>() + "> " + dstr(d) + " rows " + I.s() + " columns " + J.s();
    op.sig = mix(mix(15, dsig(d)), mix(mix(I.sig(), J.sig()), tsig<TA, TC, TM>()));
    op.model = [=](SlotBase **s) { set_m<TC, TA, TM>(s, d, ex_model<TA>(tmodel<TA>(s[2], d.ta), I.v, J.v)); };
    op.exec = [=](SlotBase **s) { auto &C = *((MSlot<TC> *)s[0])->lib;
        disp_mmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TA>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) {
            if (LITE) { if (I.kind == 2 && J.kind == 2) grb::extract(C, M, acc, A, grb::AllIndices(), grb::AllIndices(), oc(d.rep)); else grb::extract(C, M, acc, A, I.v, J.v, oc(d.rep)); return; }
#ifndef SIM_LITE
            if (I.kind == 2) J.with([&](auto const &sj) { grb::extract(C, M, acc, A, grb::AllIndices(), sj, oc(d.rep)); });
            else if (I.kind == 1) { grb::IndexSequenceRange si(I.v[0], I.v[0] + I.v.size()); if (J.kind == 2) grb::extract(C, M, acc, A, si, grb::AllIndices(), oc(d.rep)); else if (J.kind == 1) grb::extract(C, M, acc, A, si, grb::IndexSequenceRange(J.v[0], J.v[0] + J.v.size()), oc(d.rep)); else grb::extract(C, M, acc, A, I.v, J.v, oc(d.rep)); }
            else if (J.kind == 2) grb::extract(C, M, acc, A, I.v, grb::AllIndices(), oc(d.rep)); else grb::extract(C, M, acc, A, I.v, J.v, oc(d.rep));
#endif
            }); }); }); };
    run_op(c, idx, op);
}
template <class TA, class TC, class TM> void step_ex_col(NamedClient &c, int idx) {
    Op op; op.kind = "extract(col)"; Desc d = rnd_desc(c.r); d.tb = false;
    size_t r = rdim(c), q = rdim(c); Idx I = rnd_idx(c, r, false); size_t m = I.v.size(), ms = m, col = c.r.below(q);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 4 : 3); if (w == 0) { spoil(c, I, r); op.expect = X_OOB; } else if (w == 1) { if (I.kind == 2) I.kind = 0; m = ms = wrong(c, m); op.expect = X_DIM; } else if (w == 2) { col = q + c.r.below(3); op.expect = X_INDEX; } else { ms = wrong(c, m); op.expect = X_DIM; } }
    op.s[0] = getV<TC>(c, m, true); if (d.mk) op.s[1] = getV<TM>(c, ms); op.s[2] = d.ta ? getM<TA>(c, q, r) : getM<TA>(c, r, q);
    if (!rej && d.mk) maybe_alias<VSlot<TM>>(c, op.s[1], op.s[0]);
    op.desc = string(op.kind) + "<" + tns<TA, TC>() + "> " + dstr(d) + " rows " + I.s() + " of column " + std::to_string(col);
    op.sig = mix(mix(16, dsig(d)), mix(mix(I.sig(), col), tsig<TA, TC, TM>()));
    op.model = [=](SlotBase **s) { set_v<TC, TA, TM>(s, d, ex_model<TA>(tmodel<TA>(s[2], d.ta), I.v, {col})); };
    op.exec = [=](SlotBase **s) { auto &w = *((VSlot<TC> *)s[0])->lib;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TA>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) { I.with([&](auto const &seq) { grb::extract(w, M, acc, A, seq, col, oc(d.rep)); }); }); }); }); };
    run_op(c, idx, op);
}

// ------------------------------------------------------------------ assign
// Z = C with the region overwritten (no accumulator: missing source elements delete), then mask and replace.
// rows/cols restrict where the mask and REPLACE act (single row / column variants).
template <class TC, class TS, class TM> DM<TC> as_model(DM<TC> const &c, DM<TS> const &src, vector<IndexType> const &I, vector<IndexType> const &J, int mk, DM<TM> const *mask, int acc, bool rep, long only_r = -1, long only_c = -1) {
    DM<TC> z = c;
    for (size_t i = 0; i < I.size(); ++i) for (size_t j = 0; j < J.size(); ++j) {
        auto &o = c.at(I[i], J[j]); auto t = src.at(i, j); auto &x = z.at(I[i], J[j]);
        if constexpr (std::is_same_v<TC, TS>) if (g_T) { g_T_used = true; t = ((DM<TC> const *)g_T)->at(I[i], J[j]); }
        if (acc < 0) { x = Cell<TC>(); if (t.has) { x.has = true; x.v = cast<TC>(t.v); } }
        else if (o.has && t.has) { x.has = true; x.v = bin_eval<TC>(acc, o.v, t.v); }
        else if (t.has) { x.has = true; x.v = cast<TC>(t.v); }
        else x = o;
    }
    DM<TC> w = c;
    for (size_t i = 0; i < c.r; ++i) for (size_t j = 0; j < c.c; ++j) {
        if (only_r >= 0 && i != (size_t)only_r) continue;
        if (only_c >= 0 && j != (size_t)only_c) continue;
        size_t mi = only_r >= 0 ? j : i, mj = (only_r >= 0 || only_c >= 0) ? 0 : j;
        if (mask_at(mk, mask, mi, mj)) w.at(i, j) = z.at(i, j); else if (rep) w.at(i, j) = Cell<TC>();
    }
    return w;
}
template <class TU, class TC, class TM> void step_as_v(NamedClient &c, int idx) {
    Op op; op.kind = "assign(vec)"; Desc d = rnd_desc(c.r); d.ta = d.tb = false;
    size_t n = rdim(c); Idx I = rnd_idx(c, n, true); size_t us = I.v.size(), ms = n;
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 3 : 2); if (w == 0) { spoil(c, I, n); op.expect = X_OOB; } else if (w == 1) { us = wrong(c, us); op.expect = X_DIM; } else { ms = wrong(c, n); op.expect = X_DIM; } }
    op.s[0] = getV<TC>(c, n, true); if (d.mk) op.s[1] = getV<TM>(c, ms); op.s[2] = getV<TU>(c, us);
    if (!rej) { maybe_alias<VSlot<TU>>(c, op.s[2], op.s[0]); if (d.mk) { maybe_alias<VSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<VSlot<TM>>(c, op.s[1], op.s[2]); } }
    op.desc = string(op.kind) + "<" + tns<TU, TC>() + "> " + dstr(d) + " indices " + I.s();
    op.sig = mix(mix(17, dsig(d)), mix(I.sig(), tsig<TU, TC, TM>()));
    op.model = [=](SlotBase **s) { auto *o = (VSlot<TC> *)s[0]; o->exp = as_model<TC, TU, TM>(o->m, vdl<TU>(s[2]), I.v, {0}, d.mk, d.mk ? &vdl<TM>(s[1]) : nullptr, d.acc, d.rep); };
    op.exec = [=](SlotBase **s) { auto &w = *((VSlot<TC> *)s[0])->lib; auto &u = *((VSlot<TU> *)s[2])->lib;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TU>(d.acc, [&](auto const &acc) { I.with([&](auto const &seq) { grb::assign(w, M, acc, u, seq, oc(d.rep)); }); }); }); };
    run_op(c, idx, op);
}
template <class TA, class TC, class TM> void step_as_m(NamedClient &c, int idx) {
    Op op; op.kind = "assign(mat)"; Desc d = rnd_desc(c.r); d.tb = false;
    size_t m = rdim(c), n = rdim(c); Idx I = rnd_idx(c, m, true), J = rnd_idx(c, n, true); size_t ar = I.v.size(), ac = J.v.size(), mr = m, mc = n;
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 6 : 4);
        if (w == 0) { spoil(c, I, m); op.expect = X_OOB; } else if (w == 1) { spoil(c, J, n); op.expect = X_OOB; }
        else if (w == 2) { ar = wrong(c, ar); op.expect = X_DIM; } else if (w == 3) { ac = wrong(c, ac); op.expect = X_DIM; }
        else if (w == 4) { mr = wrong(c, m); op.expect = X_DIM; } else { mc = wrong(c, n); op.expect = X_DIM; } }
    op.s[0] = getM<TC>(c, m, n, true); if (d.mk) op.s[1] = getM<TM>(c, mr, mc); op.s[2] = d.ta ? getM<TA>(c, ac, ar) : getM<TA>(c, ar, ac);
    if (!rej) { maybe_alias<MSlot<TA>>(c, op.s[2], op.s[0]); if (d.mk) { maybe_alias<MSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<MSlot<TM>>(c, op.s[1], op.s[2]); } }
    op.desc = string(op.kind) + "<" + tns<TA, TC>() + "> " + dstr(d) + " rows " + I.s() + " columns " + J.s();
    op.sig = mix(mix(18, dsig(d)), mix(mix(I.sig(), J.sig()), tsig<TA, TC, TM>()));
    op.model = [=](SlotBase **s) { auto *o = (MSlot<TC> *)s[0]; o->exp = as_model<TC, TA, TM>(o->m, tmodel<TA>(s[2], d.ta), I.v, J.v, d.mk, d.mk ? &mdl<TM>(s[1]) : nullptr, d.acc, d.rep); };
    op.exec = [=](SlotBase **s) { auto &C = *((MSlot<TC> *)s[0])->lib;
        disp_mmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TA>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) {
            if (LITE) { if (I.kind == 2 && J.kind == 2) grb::assign(C, M, acc, A, grb::AllIndices(), grb::AllIndices(), oc(d.rep)); else grb::assign(C, M, acc, A, I.v, J.v, oc(d.rep)); return; }
#ifndef SIM_LITE
            if (I.kind == 2) J.with([&](auto const &sj) { grb::assign(C, M, acc, A, grb::AllIndices(), sj, oc(d.rep)); });
            else if (I.kind == 1 && J.kind == 1) grb::assign(C, M, acc, A, grb::IndexSequenceRange(I.v[0], I.v[0] + I.v.size()), grb::IndexSequenceRange(J.v[0], J.v[0] + J.v.size()), oc(d.rep));
            else if (J.kind == 2) grb::assign(C, M, acc, A, I.v, grb::AllIndices(), oc(d.rep)); else grb::assign(C, M, acc, A, I.v, J.v, oc(d.rep));
#endif
            }); }); }); };
    run_op(c, idx, op);
}
// single row or column
template <class TU, class TC, class TM> void step_as_rc(NamedClient &c, int idx, bool row) {
    Op op; op.kind = row ? "assign(row)" : "assign(col)"; Desc d = rnd_desc(c.r); d.ta = d.tb = false;
    size_t m = rdim(c), n = rdim(c), len = row ? n : m; Idx I = rnd_idx(c, len, true); size_t us = I.v.size(), ms = len, at = c.r.below(row ? m : n);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 4 : 3); if (w == 0) { spoil(c, I, len); op.expect = X_OOB; } else if (w == 1) { us = wrong(c, us); op.expect = X_DIM; } else if (w == 2) { at = (row ? m : n) + c.r.below(3); op.expect = X_INDEX; } else { ms = wrong(c, len); op.expect = X_DIM; } }
    op.s[0] = getM<TC>(c, m, n, true); if (d.mk) op.s[1] = getV<TM>(c, ms); op.s[2] = getV<TU>(c, us);
    if (!rej && d.mk) maybe_alias<VSlot<TM>>(c, op.s[1], op.s[2]);
    op.desc = string(op.kind) + "<" + tns<TU, TC>() + "> " + dstr(d) + " at " + std::to_string(at) + " indices " + I.s();
    op.sig = mix(mix(19 + row, dsig(d)), mix(mix(I.sig(), at), tsig<TU, TC, TM>()));
    op.model = [=](SlotBase **s) { auto *o = (MSlot<TC> *)s[0]; auto *mk = d.mk ? &vdl<TM>(s[1]) : nullptr;
        if (row) o->exp = as_model<TC, TU, TM>(o->m, transposed(vdl<TU>(s[2])), {at}, I.v, d.mk, mk, d.acc, d.rep, (long)at, -1);
        else o->exp = as_model<TC, TU, TM>(o->m, vdl<TU>(s[2]), I.v, {at}, d.mk, mk, d.acc, d.rep, -1, (long)at); };
    op.exec = [=](SlotBase **s) { auto &C = *((MSlot<TC> *)s[0])->lib; auto &u = *((VSlot<TU> *)s[2])->lib;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TU>(d.acc, [&](auto const &acc) { I.with([&](auto const &seq) {
            if (row) grb::assign(C, M, acc, u, at, seq, oc(d.rep)); else grb::assign(C, M, acc, u, seq, at, oc(d.rep)); }); }); }); };
    run_op(c, idx, op);
}
template <class TS, class TC, class TM> void step_as_cv(NamedClient &c, int idx) {
    Op op; op.kind = "assign(const vec)"; Desc d = rnd_desc(c.r); d.ta = d.tb = false;
    size_t n = rdim(c); Idx I = rnd_idx(c, n, c.r.chance(60)); size_t ms = n; if (I.v.size() > n) I.v.resize(n);
    TS val = rnd<TS>(c.r, P.style);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 3 : 2); if (w == 0) { spoil(c, I, n); op.expect = X_OOB; } else if (w == 1) { if (I.kind != 0) I.kind = 0; while (I.v.size() <= n) I.v.push_back(c.r.below(n)); op.expect = X_DIM; } else { ms = wrong(c, n); op.expect = X_DIM; } }
    op.s[0] = getV<TC>(c, n, true); if (d.mk) op.s[1] = getV<TM>(c, ms);
    if (!rej && d.mk) maybe_alias<VSlot<TM>>(c, op.s[1], op.s[0]);
    op.desc = string(op.kind) + "<" + tns<TS, TC>() + "> " + dstr(d) + " value " + str(val) + " indices " + I.s();
    op.sig = mix(mix(21, dsig(d)), mix(I.sig(), tsig<TS, TC, TM>()));
    op.model = [=](SlotBase **s) { auto *o = (VSlot<TC> *)s[0]; DM<TS> src(I.v.size(), 1); for (size_t i = 0; i < I.v.size(); ++i) src.set(i, 0, val);
        o->exp = as_model<TC, TS, TM>(o->m, src, I.v, {0}, d.mk, d.mk ? &vdl<TM>(s[1]) : nullptr, d.acc, d.rep); };
    op.exec = [=](SlotBase **s) { auto &w = *((VSlot<TC> *)s[0])->lib; TS v = val;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TS>(d.acc, [&](auto const &acc) { I.with([&](auto const &seq) { grb::assign(w, M, acc, v, seq, oc(d.rep)); }); }); }); };
    run_op(c, idx, op);
}
template <class TS, class TC, class TM> void step_as_cm(NamedClient &c, int idx) {
    Op op; op.kind = "assign(const mat)"; Desc d = rnd_desc(c.r); d.ta = d.tb = false;
    size_t m = rdim(c), n = rdim(c); Idx I = rnd_idx(c, m, c.r.chance(60)), J = rnd_idx(c, n, c.r.chance(60)); size_t mr = m, mc = n;
    if (I.v.size() > m) I.v.resize(m); if (J.v.size() > n) J.v.resize(n);
    TS val = rnd<TS>(c.r, P.style);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 6 : 4);
        if (w == 0) { spoil(c, I, m); op.expect = X_OOB; } else if (w == 1) { spoil(c, J, n); op.expect = X_OOB; }
        else if (w == 2) { I.kind = 0; while (I.v.size() <= m) I.v.push_back(c.r.below(m)); op.expect = X_DIM; } else if (w == 3) { J.kind = 0; while (J.v.size() <= n) J.v.push_back(c.r.below(n)); op.expect = X_DIM; }
        else if (w == 4) { mr = wrong(c, m); op.expect = X_DIM; } else { mc = wrong(c, n); op.expect = X_DIM; } }
    op.s[0] = getM<TC>(c, m, n, true); if (d.mk) op.s[1] = getM<TM>(c, mr, mc);
    if (!rej && d.mk) maybe_alias<MSlot<TM>>(c, op.s[1], op.s[0]);
    op.desc = string(op.kind) + "<" + tns<TS, TC>() + "> " + dstr(d) + " value " + str(val) + " rows " + I.s() + " columns " + J.s();
    op.sig = mix(mix(22, dsig(d)), mix(mix(I.sig(), J.sig()), tsig<TS, TC, TM>()));
    op.model = [=](SlotBase **s) { auto *o = (MSlot<TC> *)s[0]; DM<TS> src(I.v.size(), J.v.size()); for (size_t i = 0; i < I.v.size(); ++i) for (size_t j = 0; j < J.v.size(); ++j) src.set(i, j, val);
        o->exp = as_model<TC, TS, TM>(o->m, src, I.v, J.v, d.mk, d.mk ? &mdl<TM>(s[1]) : nullptr, d.acc, d.rep); };
    op.exec = [=](SlotBase **s) { auto &C = *((MSlot<TC> *)s[0])->lib; TS v = val;
        disp_mmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TS>(d.acc, [&](auto const &acc) {
            if (LITE) { if (I.kind == 2 && J.kind == 2) grb::assign(C, M, acc, v, grb::AllIndices(), grb::AllIndices(), oc(d.rep)); else grb::assign(C, M, acc, v, I.v, J.v, oc(d.rep)); return; }
#ifndef SIM_LITE
            if (I.kind == 2) J.with([&](auto const &sj) { grb::assign(C, M, acc, v, grb::AllIndices(), sj, oc(d.rep)); });
            else if (I.kind == 1 && J.kind == 1) grb::assign(C, M, acc, v, grb::IndexSequenceRange(I.v[0], I.v[0] + I.v.size()), grb::IndexSequenceRange(J.v[0], J.v[0] + J.v.size()), oc(d.rep));
            else if (J.kind == 2) grb::assign(C, M, acc, v, I.v, grb::AllIndices(), oc(d.rep)); else grb::assign(C, M, acc, v, I.v, J.v, oc(d.rep));
#endif
            }); }); };
    run_op(c, idx, op);
}

// ------------------------------------------------------------------ apply
// form: 0 unary, 1 bound first argument, 2 bound second argument
template <class TU, class TS, class TC, class TM, class D3> void step_ap_v(NamedClient &c, int idx) {
    Op op; Desc d = rnd_desc(c.r); d.ta = d.tb = false; int form = (int)c.r.below(3);
    op.kind = form == 0 ? "apply(vec)" : form == 1 ? "apply(vec,bind1st)" : "apply(vec,bind2nd)";
    size_t n = rdim(c), us = n, ms = n; int k = form ? rnd_bink(c.r) : (int)c.r.below(5); TS val = rnd<TS>(c.r, P.style);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { (d.mk && c.r.coin() ? ms : us) = wrong(c, n); op.expect = X_DIM; }
    op.s[0] = getV<TC>(c, n, true); if (d.mk) op.s[1] = getV<TM>(c, ms); op.s[2] = getV<TU>(c, us);
    if (!rej) { maybe_alias<VSlot<TU>>(c, op.s[2], op.s[0]); if (d.mk) { maybe_alias<VSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<VSlot<TM>>(c, op.s[1], op.s[2]); } }
    op.desc = string(op.kind) + "<" + tns<TU, TC>() + "> " + dstr(d) + (form ? string(" op=") + bname[k] + " bound " + str(val) : " unary " + std::to_string(k));
    op.sig = mix(mix(23 + form, dsig(d)), mix(k, tsig<TU, TC, TM>()));
    op.model = [=](SlotBase **s) { auto &u = vdl<TU>(s[2]); DM<D3> t(u.r, 1);
        for (size_t i = 0; i < u.r; ++i) if (u.at(i, 0).has) { auto &x = u.at(i, 0).v; t.set(i, 0, form == 0 ? DynUn<TU, D3>::ev(k, x) : form == 1 ? bin_eval<D3>(k, val, x) : bin_eval<D3>(k, x, val)); }
        set_v<TC, D3, TM>(s, d, t); };
    op.exec = [=](SlotBase **s) { auto &w = *((VSlot<TC> *)s[0])->lib; auto &u = *((VSlot<TU> *)s[2])->lib;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, D3>(d.acc, [&](auto const &acc) {
            if (form == 0) { DynUn<TU, D3> f; f.kind = k; grb::apply(w, M, acc, f, u, oc(d.rep)); }
            else if (form == 1) { DynBin<TS, TU, D3> f; f.kind = k; grb::apply(w, M, acc, f, val, u, oc(d.rep)); }
            else { DynBin<TU, TS, D3> f; f.kind = k; grb::apply(w, M, acc, f, u, val, oc(d.rep)); } }); }); };
    run_op(c, idx, op);
}
template <class TA, class TS, class TC, class TM, class D3> void step_ap_m(NamedClient &c, int idx) {
    Op op; Desc d = rnd_desc(c.r); d.tb = false; int form = (int)c.r.below(3);
    op.kind = form == 0 ? "apply(mat)" : form == 1 ? "apply(mat,bind1st)" : "apply(mat,bind2nd)";
    size_t m = rdim(c), n = rdim(c), ar = m, ac = n, mr = m, mc = n; int k = form ? rnd_bink(c.r) : (int)c.r.below(5); TS val = rnd<TS>(c.r, P.style);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 4 : 2); size_t *p[] = {&ar, &ac, &mr, &mc}; *p[w] = wrong(c, *p[w]); op.expect = X_DIM; }
    op.s[0] = getM<TC>(c, m, n, true); if (d.mk) op.s[1] = getM<TM>(c, mr, mc); op.s[2] = d.ta ? getM<TA>(c, ac, ar) : getM<TA>(c, ar, ac);
    if (!rej) { maybe_alias<MSlot<TA>>(c, op.s[2], op.s[0]); if (d.mk) { maybe_alias<MSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<MSlot<TM>>(c, op.s[1], op.s[2]); } }
    op.desc = string(op.kind) + "<" + tns<TA, TC>() + "> " + dstr(d) + (form ? string(" op=") + bname[k] + " bound " + str(val) : " unary " + std::to_string(k));
    op.sig = mix(mix(26 + form, dsig(d)), mix(k, tsig<TA, TC, TM>()));
    op.model = [=](SlotBase **s) { DM<TA> u = tmodel<TA>(s[2], d.ta); DM<D3> t(u.r, u.c);
        for (size_t i = 0; i < u.d.size(); ++i) if (u.d[i].has) { auto &x = u.d[i].v; t.d[i].has = true; t.d[i].v = form == 0 ? DynUn<TA, D3>::ev(k, x) : form == 1 ? bin_eval<D3>(k, val, x) : bin_eval<D3>(k, x, val); }
        set_m<TC, D3, TM>(s, d, t); };
    op.exec = [=](SlotBase **s) { auto &C = *((MSlot<TC> *)s[0])->lib;
        disp_mmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, D3>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) {
            if (form == 0) { DynUn<TA, D3> f; f.kind = k; grb::apply(C, M, acc, f, A, oc(d.rep)); }
            else if (form == 1) { DynBin<TS, TA, D3> f; f.kind = k; grb::apply(C, M, acc, f, val, A, oc(d.rep)); }
            else { DynBin<TA, TS, D3> f; f.kind = k; grb::apply(C, M, acc, f, A, val, oc(d.rep)); } }); }); }); };
    run_op(c, idx, op);
}

// ------------------------------------------------------------------ reduce
template <class TA, class TC, class TM, class D3> void step_re_v(NamedClient &c, int idx) {
    Op op; op.kind = "reduce(mat->vec)"; Desc d = rnd_desc(c.r); d.tb = false;
    size_t m = rdim(c), n = rdim(c), ar = m, ms = m; int k = rnd_addk<D3>(c.r);
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { (d.mk && c.r.coin() ? ms : ar) = wrong(c, m); op.expect = X_DIM; }
    op.s[0] = getV<TC>(c, m, true); if (d.mk) op.s[1] = getV<TM>(c, ms); op.s[2] = d.ta ? getM<TA>(c, n, ar) : getM<TA>(c, ar, n);
    if (!rej && d.mk) maybe_alias<VSlot<TM>>(c, op.s[1], op.s[0]);
    op.desc = string(op.kind) + "<" + tns<TA, TC>() + "> " + dstr(d) + " monoid " + bname[k];
    op.sig = mix(mix(29, dsig(d)), mix(k, tsig<TA, TC, TM>()));
    op.model = [=](SlotBase **s) { DM<TA> a = tmodel<TA>(s[2], d.ta); DM<D3> t(a.r, 1);
        for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) if (a.at(i, j).has) { D3 x = cast<D3>(a.at(i, j).v); auto &y = t.at(i, 0); if (!y.has) { y.has = true; y.v = x; } else y.v = bin_eval<D3>(k, y.v, x); }
        set_v<TC, D3, TM>(s, d, t); };
    op.exec = [=](SlotBase **s) { auto &w = *((VSlot<TC> *)s[0])->lib; DynMonoid<D3> f; f.kind = k;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, D3>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) { grb::reduce(w, M, acc, f, A, oc(d.rep)); }); }); }); };
    run_op(c, idx, op);
}
template <class TA, class TC, class D3> void step_re_s(NamedClient &c, int idx, bool vec) {
    Op op; op.kind = vec ? "reduce(vec->scalar)" : "reduce(mat->scalar)"; int acc = c.r.coin() ? -1 : rnd_acck(c.r);
    int k = rnd_addk<D3>(c.r);
    if (std::is_floating_point_v<D3> && (k == B_MIN || k == B_MAX) && (acc == B_HASH || acc == B_TIMES || acc == B_MINUS)) acc = B_SECOND;   // keep clear of overflow
    SSlot<TC> *o = nullptr; for (auto s : c.own) if (auto p = dynamic_cast<SSlot<TC> *>(s)) o = p;
    if (!o || (c.own.size() < P.maxslots && c.r.chance(20))) { o = new SSlot<TC>(rnd<TC>(c.r, P.style), newname(c, "s")); c.own.push_back(o); }
    if (toD(o->m.at(0, 0).v) > 1000 || toD(o->m.at(0, 0).v) < -1000) { o->val = o->m.at(0, 0).v = rnd<TC>(c.r, 0); }
    op.s[0] = o; op.s[2] = vec ? (SlotBase *)getV<TA>(c, rdim(c)) : (SlotBase *)getM<TA>(c, rdim(c), rdim(c));
    op.desc = string(op.kind) + "<" + tns<TA, TC>() + "> accum=" + (acc < 0 ? "none" : bname[acc]) + " monoid " + bname[k];
    op.sig = mix(mix(30 + vec, acc + 1), mix(k, tsig<TA, TC>()));
    op.model = [=](SlotBase **s) { auto &a = vec ? vdl<TA>(s[2]) : mdl<TA>(s[2]); D3 t = monoid_id<D3>(k); bool any = false;
        for (auto &x : a.d) if (x.has) { t = any ? bin_eval<D3>(k, t, cast<D3>(x.v)) : cast<D3>(x.v); any = true; }
        auto *z = (SSlot<TC> *)s[0]; z->exp = DM<TC>(1, 1); z->exp.set(0, 0, acc < 0 ? cast<TC>(t) : bin_eval<TC>(acc, z->m.at(0, 0).v, t)); };
    op.exec = [=](SlotBase **s) { DynMonoid<D3> f; f.kind = k; auto &val = ((SSlot<TC> *)s[0])->val;
        disp_acc<TC, D3>(acc, [&](auto const &a) { if (vec) grb::reduce(val, a, f, *((VSlot<TA> *)s[2])->lib); else grb::reduce(val, a, f, *((MSlot<TA> *)s[2])->lib); }); };
    run_op(c, idx, op);
}

// ------------------------------------------------------------------ transpose, kronecker
template <class TA, class TC, class TM> void step_tr(NamedClient &c, int idx) {
    Op op; op.kind = "transpose"; Desc d = rnd_desc(c.r); d.tb = false;
    size_t m = rdim(c), n = rdim(c), ar = n, ac = m, mr = m, mc = n;
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 4 : 2); size_t *p[] = {&ar, &ac, &mr, &mc}; *p[w] = wrong(c, *p[w]); op.expect = X_DIM; }
    op.s[0] = getM<TC>(c, m, n, true); if (d.mk) op.s[1] = getM<TM>(c, mr, mc); op.s[2] = d.ta ? getM<TA>(c, ac, ar) : getM<TA>(c, ar, ac);
    if (!rej) { maybe_alias<MSlot<TA>>(c, op.s[2], op.s[0]); if (d.mk) { maybe_alias<MSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<MSlot<TM>>(c, op.s[1], op.s[2]); } }
    op.desc = string(op.kind) + "<" + tns<TA, TC>() + "> " + dstr(d);
    op.sig = mix(mix(32, dsig(d)), tsig<TA, TC, TM>());
    op.model = [=](SlotBase **s) { set_m<TC, TA, TM>(s, d, transposed(tmodel<TA>(s[2], d.ta))); };
    op.exec = [=](SlotBase **s) { auto &C = *((MSlot<TC> *)s[0])->lib;
        disp_mmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, TA>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) { grb::transpose(C, M, acc, A, oc(d.rep)); }); }); }); };
    run_op(c, idx, op);
}
template <class TA, class TB, class TC, class TM, class D3> void step_kr(NamedClient &c, int idx) {
    Op op; op.kind = "kronecker"; Desc d = rnd_desc(c.r); int k = rnd_bink(c.r);
    auto sd = [&](size_t lim) { size_t x = rdim(c); return x > lim ? 1 + x % lim : x; };
    size_t ar = sd(7), ac = sd(7), br = sd(7), bc = sd(7), m = ar * br, n = ac * bc, mr = m, mc = n;
    bool rej = g_mode.reject && c.r.chance(80);
    if (rej) { int w = (int)c.r.below(d.mk ? 4 : 2); if (w == 0) m = mr = wrong(c, m); else if (w == 1) n = mc = wrong(c, n); else if (w == 2) mr = wrong(c, m); else mc = wrong(c, n); op.expect = X_DIM; }
    op.s[0] = getM<TC>(c, m, n, true); if (d.mk) op.s[1] = getM<TM>(c, mr, mc);
    op.s[2] = d.ta ? getM<TA>(c, ac, ar) : getM<TA>(c, ar, ac); op.s[3] = d.tb ? getM<TB>(c, bc, br) : getM<TB>(c, br, bc);
    if (!rej) { maybe_alias<MSlot<TA>>(c, op.s[2], op.s[0]); maybe_alias<MSlot<TB>>(c, op.s[3], op.s[0]); if (d.mk) maybe_alias<MSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<MSlot<TB>>(c, op.s[3], op.s[2]); }
    op.desc = string(op.kind) + "<" + tns<TA, TB, TC>() + "> " + dstr(d) + " op=" + bname[k];
    op.sig = mix(mix(33, dsig(d)), mix(k, tsig<TA, TB, TC, TM>()));
    op.model = [=](SlotBase **s) { DM<TA> a = tmodel<TA>(s[2], d.ta); DM<TB> b = tmodel<TB>(s[3], d.tb); DM<D3> t(a.r * b.r, a.c * b.c);
        for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) if (a.at(i, j).has) for (size_t p = 0; p < b.r; ++p) for (size_t q = 0; q < b.c; ++q) if (b.at(p, q).has) t.set(i * b.r + p, j * b.c + q, bin_eval<D3>(k, a.at(i, j).v, b.at(p, q).v));
        set_m<TC, D3, TM>(s, d, t); };
    op.exec = [=](SlotBase **s) { DynBin<TA, TB, D3> f; f.kind = k; auto &C = *((MSlot<TC> *)s[0])->lib;
        disp_mmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, D3>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) { disp_t<TB>(d.tb, s[3], [&](auto const &B) { grb::kronecker(C, M, acc, f, A, B, oc(d.rep)); }); }); }); }); };
    run_op(c, idx, op);
}
} // namespace sim

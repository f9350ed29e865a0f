// Operation generators shared by the groups: descriptor choices and static dispatch.
#pragma once
#include "world.hpp"

namespace sim {
struct Desc { int mk = 0; int acc = -1; bool rep = false, ta = false, tb = false; };
inline const char *mkname[] = {"none", "value", "complement", "structure", "struct-complement"};
inline Desc rnd_desc(Rng &r) {
    Desc d; d.mk = (int)r.below(5); if (r.chance(15)) d.mk = 0; d.acc = r.coin() ? -1 : rnd_acck(r); d.rep = r.coin(); d.ta = r.chance(40); d.tb = r.chance(40); return d;
}
inline string dstr(Desc const &d) { return string("mask=") + mkname[d.mk] + " accum=" + (d.acc < 0 ? "none" : bname[d.acc]) + (d.rep ? " REPLACE" : " MERGE") + (d.ta ? " A^T" : "") + (d.tb ? " B^T" : ""); }
inline uint64_t dsig(Desc const &d) { return d.mk + 8 * (d.acc + 1) + 256 * d.rep + 512 * d.ta + 1024 * d.tb; }

// views: made for the one call, or (in the views group) held by the caller from some earlier time on
#ifdef SIM_HELD_VIEWS
template <class V> V const &held(std::shared_ptr<void> &h, V const &fresh) { HarnessScope hs; if (!h) { h = std::make_shared<V>(fresh); probe("views created"); } else probe("uses of a view held from earlier"); return *(V const *)h.get(); }
#else
template <class V> V const &held(std::shared_ptr<void> &, V const &fresh) { return fresh; }
#endif
template <class TM, class F> void disp_mmask(int k, SlotBase *s, F &&f) {
    auto *m = (MSlot<TM> *)s; if (g_plain) k = 0;
#ifdef SIM_HELD_VIEWS
    if (g_mat && k > 1) { grb::Matrix<bool> x(m->m.r, m->m.c); for (size_t i = 0; i < m->m.r; ++i) for (size_t j = 0; j < m->m.c; ++j) if (mask_at(k, &m->m, i, j)) x.setElement(i, j, true); f(x); return; }
#endif
    switch (k) {
    case 0: f(grb::NoMask()); break;
    case 1: f(*m->lib); break;
    case 2: f(held(m->hv[0], grb::complement(*m->lib))); break;
    case 3: f(held(m->hv[1], grb::structure(*m->lib))); break;
    default: f(held(m->hv[2], grb::complement(grb::structure(*m->lib))));
    }
}
template <class TM, class F> void disp_vmask(int k, SlotBase *s, F &&f) {
    auto *m = (VSlot<TM> *)s; if (g_plain) k = 0;
#ifdef SIM_HELD_VIEWS
    if (g_mat && k > 1) { grb::Vector<bool> x(m->m.r); for (size_t i = 0; i < m->m.r; ++i) if (mask_at(k, &m->m, i, 0)) x.setElement(i, true); f(x); return; }
#endif
    switch (k) {
    case 0: f(grb::NoMask()); break;
    case 1: f(*m->lib); break;
    case 2: f(held(m->hv[0], grb::complement(*m->lib))); break;
    case 3: f(held(m->hv[1], grb::structure(*m->lib))); break;
    default: f(held(m->hv[2], grb::complement(grb::structure(*m->lib))));
    }
}
template <class C, class D, class F> void disp_acc(int k, F &&f) { if (k < 0 || g_plain) f(grb::NoAccumulate()); else { DynBin<C, D, C> a; a.kind = k; f(a); } }
template <class T, class F> void disp_t(bool t, SlotBase *s, F &&f) {
    auto *sl = (MSlot<T> *)s; auto &m = *sl->lib;
#ifdef SIM_HELD_VIEWS
    if (g_mat && t) { grb::Matrix<T> x(sl->m.c, sl->m.r); for (size_t i = 0; i < sl->m.r; ++i) for (size_t j = 0; j < sl->m.c; ++j) if (sl->m.at(i, j).has) x.setElement(j, i, sl->m.at(i, j).v); f(x); return; }
#endif
    if (t) f(held(sl->hv[3], grb::transpose(m))); else f(m);
}
inline grb::OutputControlEnum oc(bool rep) { return rep ? grb::REPLACE : grb::MERGE; }
template <class T> DM<T> const &mdl(SlotBase *s) { return ((MSlot<T> *)s)->m; }
template <class T> DM<T> const &vdl(SlotBase *s) { return ((VSlot<T> *)s)->m; }
template <class T> DM<T> tmodel(SlotBase *s, bool t) { return t ? transposed(mdl<T>(s)) : mdl<T>(s); }
template <class TC, class D> DM<D> const &own_T(DM<D> const &t) { if constexpr (std::is_same_v<TC, D>) if (g_T) { g_T_used = true; return *(DM<D> const *)g_T; } return t; }
template <class TC, class D, class TM> void set_m(SlotBase **s, Desc const &d, DM<D> const &t) { auto *c = (MSlot<TC> *)s[0]; c->exp = write_back<TC, D, TM>(c->m, own_T<TC, D>(t), d.mk, d.mk ? &mdl<TM>(s[1]) : nullptr, d.acc, d.rep); }
template <class TC, class D, class TM> void set_v(SlotBase **s, Desc const &d, DM<D> const &t) { auto *c = (VSlot<TC> *)s[0]; c->exp = write_back<TC, D, TM>(c->m, own_T<TC, D>(t), d.mk, d.mk ? &vdl<TM>(s[1]) : nullptr, d.acc, d.rep); }

// In aliasing runs: with good probability replace an operand by the output (or the mask by an
// operand) when type and shape allow it.
template <class S> void maybe_alias(NamedClient &c, SlotBase *&x, SlotBase *with) {
    if (!x || !with || x == with) return;
    if (!(g_mode.alias ? c.r.chance(60) : c.r.chance(6))) return;
    if (x->nr() == with->nr() && x->nc() == with->nc() && dynamic_cast<S *>(with)) x = with;
}
// rejected calls: a dimension different from d
inline size_t wrong(NamedClient &c, size_t d) { size_t w = d + 1 + c.r.below(2); if (d > 1 && c.r.coin()) w = d - 1; return w; }

template <class DA, class DB, class D3> DM<D3> mx_model(DM<DA> const &a, DM<DB> const &b, int addk, int mulk) {
    DM<D3> t(a.r, b.c);
    for (size_t i = 0; i < a.r; ++i) for (size_t k = 0; k < a.c; ++k) if (a.at(i, k).has) for (size_t j = 0; j < b.c; ++j) if (b.at(k, j).has) {
        D3 p = bin_eval<D3>(mulk, a.at(i, k).v, b.at(k, j).v);
        auto &x = t.at(i, j);
        if (!x.has) { x.has = true; x.v = p; } else x.v = bin_eval<D3>(addk, x.v, p);
    }
    return t;
}
template <class TA, class TB, class TC, class TM, class D3> void step_mxm(NamedClient &c, int idx) {
    Op op; op.kind = "mxm"; Desc d = rnd_desc(c.r);
    size_t m = rdim(c), n = rdim(c), k = rdim(c);
    bool rej = g_mode.reject && c.r.chance(80);
    size_t ar = m, ac = k, br = k, bc = n, mr = m, mc = n;
    if (rej) { int w = (int)c.r.below(d.mk ? 5 : 3); if (w == 0) ar = wrong(c, ar); else if (w == 1) { if (c.r.coin()) ac = wrong(c, ac); else br = wrong(c, br); } else if (w == 2) bc = wrong(c, bc); else if (w == 3) mr = wrong(c, mr); else mc = wrong(c, mc); op.expect = X_DIM; }
    int addk = rnd_addk<D3>(c.r), mulk = rnd_mulk(c.r); pre_pair<D3>(c.r, addk, mulk);
    op.s[0] = getM<TC>(c, m, n, true);
    if (d.mk) op.s[1] = getM<TM>(c, mr, mc);
    op.s[2] = d.ta ? getM<TA>(c, ac, ar) : getM<TA>(c, ar, ac);
    op.s[3] = d.tb ? getM<TB>(c, bc, br) : getM<TB>(c, br, bc);
    if (!rej) { maybe_alias<MSlot<TA>>(c, op.s[2], op.s[0]); maybe_alias<MSlot<TB>>(c, op.s[3], op.s[0]); if (d.mk) { maybe_alias<MSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<MSlot<TM>>(c, op.s[1], op.s[2]); } maybe_alias<MSlot<TB>>(c, op.s[3], op.s[2]); }
    op.desc = string("mxm<") + TN<TA>::n() + "," + TN<TB>::n() + "->" + TN<TC>::n() + "> " + dstr(d) + (g_pre ? " predefined" : "") + " add=" + bname[addk] + " mul=" + bname[mulk];
    op.sig = mix(mix(1, dsig(d)), mix(addk * 16 + mulk, (uint64_t)TN<TC>::n()[0] * 256 + TN<TA>::n()[0]));
    op.model = [=](SlotBase **s) { set_m<TC, D3, TM>(s, d, mx_model<TA, TB, D3>(tmodel<TA>(s[2], d.ta), tmodel<TB>(s[3], d.tb), addk, mulk)); };
    op.exec = [=](SlotBase **s) {
        DynSR<TA, TB, D3> sr; sr.addk = addk; sr.mulk = mulk; auto &C = *((MSlot<TC> *)s[0])->lib;
        disp_mmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, D3>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) { disp_t<TB>(d.tb, s[3], [&](auto const &B) {
            grb::mxm(C, M, acc, sr, A, B, oc(d.rep)); }); }); }); });
    };
    run_op(c, idx, op);
}
// mxv: w = A u ; vxm: w = u A
template <class TA, class TU, class TC, class TM, class D3> void step_mxv(NamedClient &c, int idx, bool vxm) {
    Op op; op.kind = vxm ? "vxm" : "mxv"; Desc d = rnd_desc(c.r); d.tb = false;
    size_t m = rdim(c), k = rdim(c);                     // effective A (after transpose): mxv m x k ; vxm k x m
    bool rej = g_mode.reject && c.r.chance(80);
    size_t ar = vxm ? k : m, ac = vxm ? m : k, us = k, ms = m;
    if (rej) { int w = (int)c.r.below(d.mk ? 3 : 2); if (w == 0) { if (c.r.coin()) ar = wrong(c, ar); else ac = wrong(c, ac); } else if (w == 1) us = wrong(c, us); else ms = wrong(c, ms); op.expect = X_DIM; }
    int addk = rnd_addk<D3>(c.r), mulk = rnd_mulk(c.r); pre_pair<D3>(c.r, addk, mulk);
    op.s[0] = getV<TC>(c, m, true);
    if (d.mk) op.s[1] = getV<TM>(c, ms);
    op.s[2] = d.ta ? getM<TA>(c, ac, ar) : getM<TA>(c, ar, ac);
    op.s[3] = getV<TU>(c, us);
    if (!rej) { maybe_alias<VSlot<TU>>(c, op.s[3], op.s[0]); if (d.mk) { maybe_alias<VSlot<TM>>(c, op.s[1], op.s[0]); maybe_alias<VSlot<TM>>(c, op.s[1], op.s[3]); } }
    op.desc = string(op.kind) + "<" + TN<TA>::n() + "," + TN<TU>::n() + "->" + TN<TC>::n() + "> " + dstr(d) + (g_pre ? " predefined" : "") + " add=" + bname[addk] + " mul=" + bname[mulk];
    op.sig = mix(mix(2 + vxm, dsig(d)), mix(addk * 16 + mulk, (uint64_t)TN<TC>::n()[0] * 256 + TN<TA>::n()[0]));
    op.model = [=](SlotBase **s) {
        if (!vxm) set_v<TC, D3, TM>(s, d, mx_model<TA, TU, D3>(tmodel<TA>(s[2], d.ta), vdl<TU>(s[3]), addk, mulk));
        else set_v<TC, D3, TM>(s, d, transposed(mx_model<TU, TA, D3>(transposed(vdl<TU>(s[3])), tmodel<TA>(s[2], d.ta), addk, mulk)));
    };
    op.exec = [=](SlotBase **s) {
        auto &w = *((VSlot<TC> *)s[0])->lib; auto &u = *((VSlot<TU> *)s[3])->lib;
        disp_vmask<TM>(d.mk, s[1], [&](auto const &M) { disp_acc<TC, D3>(d.acc, [&](auto const &acc) { disp_t<TA>(d.ta, s[2], [&](auto const &A) {
            if (!vxm) { DynSR<TA, TU, D3> sr; sr.addk = addk; sr.mulk = mulk; grb::mxv(w, M, acc, sr, A, u, oc(d.rep)); }
            else { DynSR<TU, TA, D3> sr; sr.addk = addk; sr.mulk = mulk; grb::vxm(w, M, acc, sr, u, A, oc(d.rep)); } }); }); });
    };
    run_op(c, idx, op);
}
} // namespace sim

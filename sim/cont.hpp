// Container calls: Matrix (C02) and Vector (C03) as finite maps under any history.
#pragma once
#include "ops.hpp"
namespace sim {
template <class O> struct Hold { O *p = nullptr; void reset() { if (p) { LibScope l; delete p; p = nullptr; } } ~Hold() { reset(); } };
template <class T> SlotBase *anyM(NamedClient &c, bool out) {
    vector<MSlot<T> *> v; for (auto s : c.own) if (auto p = dynamic_cast<MSlot<T> *>(s)) v.push_back(p);
    if (!out && c.shared) for (auto s : *c.shared) if (auto p = dynamic_cast<MSlot<T> *>(s)) v.push_back(p);
    if (v.empty() || (c.own.size() < P.maxslots && c.r.chance(15))) return newM<T>(c, rdim(c), rdim(c));
    return v[c.r.below(v.size())];
}
template <class T> SlotBase *anyV(NamedClient &c, bool out) {
    vector<VSlot<T> *> v; for (auto s : c.own) if (auto p = dynamic_cast<VSlot<T> *>(s)) v.push_back(p);
    if (!out && c.shared) for (auto s : *c.shared) if (auto p = dynamic_cast<VSlot<T> *>(s)) v.push_back(p);
    if (v.empty() || (c.own.size() < P.maxslots && c.r.chance(15))) return newV<T>(c, rdim(c));
    return v[c.r.below(v.size())];
}
// verify a library object that is not (yet) in a slot
template <class T> string check_obj(grb::Matrix<T> *p, DM<T> const &want) { MSlot<T> t(DM<T>(1, 1), "tmp", 1); t.destroy(); t.lib = p; t.m = want; string e = t.verify(true); t.lib = nullptr; return e; }
template <class T> string check_obj(grb::Vector<T> *p, DM<T> const &want) { VSlot<T> t(DM<T>(1, 1), "tmp", 1); t.destroy(); t.lib = p; t.m = want; string e = t.verify(true); t.lib = nullptr; return e; }

// tuples with duplicates, in arbitrary order
template <class T> struct Tuples { vector<IndexType> i, j; vector<T> v; };
template <class T> Tuples<T> rnd_tuples(NamedClient &c, size_t R, size_t C) {
    Tuples<T> t; size_t n = c.r.chance(10) ? 0 : c.r.below(std::min<size_t>(R * C * 2 + 3, 60));
    int cl = (int)c.r.below(3);
    for (size_t k = 0; k < n; ++k) {
        size_t i = c.r.below(R), j = c.r.below(C);
        if (cl == 1 && k && c.r.coin()) { size_t q = c.r.below(k); i = t.i[q]; j = t.j[q]; }
        if (cl == 2) { i = i / 2; j = j / 2; }
        t.i.push_back(i); t.j.push_back(j); t.v.push_back(rnd<T>(c.r, P.style));
    }
    return t;
}
template <class T> void step_matrix(NamedClient &c, int idx) {
    Op op; string ty = string("Matrix<") + TN<T>::n() + ">";
    SlotBase *sb = anyM<T>(c, true); auto *s = (MSlot<T> *)sb; size_t R = s->m.r, C = s->m.c;
    bool rej = g_mode.reject && c.r.chance(70);
    int k = (int)c.r.below(rej ? 9 : 17);
    size_t i = c.r.below(R), j = c.r.below(C);
    if (rej) {
        op.retry_ok = false;
        size_t bi = i, bj = j; int w = (int)c.r.below(3); size_t off = c.r.chance(70) ? 0 : c.r.below(5); if (c.r.chance(10)) off = ~0ull / 2;
        if (w != 1) bi = R + off; if (w != 0) bj = C + off;
        op.s[0] = s; op.model = [](SlotBase **) {};
        auto L = [=](SlotBase **x) -> grb::Matrix<T> & { return *((MSlot<T> *)x[0])->lib; };
        string at = "(" + std::to_string(bi) + "," + std::to_string(bj) + ")";
        if (k == 0) { op.kind = "Matrix rejections"; op.desc = ty + ".setElement" + at; op.expect = X_OOB; T v = rnd<T>(c.r, 0); op.exec = [=](SlotBase **x) { L(x).setElement(bi, bj, v); }; }
        else if (k == 1) { op.kind = "Matrix rejections"; op.desc = ty + ".removeElement" + at; op.expect = X_OOB; op.exec = [=](SlotBase **x) { L(x).removeElement(bi, bj); }; }
        else if (k == 2) { op.kind = "Matrix rejections"; op.desc = ty + ".hasElement" + at; op.expect = X_OOB; op.exec = [=](SlotBase **x) { (void)L(x).hasElement(bi, bj); }; }
        else if (k == 3) { op.kind = "Matrix rejections";
            if (c.r.coin()) { op.desc = ty + ".extractElement" + at; op.expect = X_OOB; op.exec = [=](SlotBase **x) { (void)L(x).extractElement(bi, bj); }; }
            else { if (s->m.at(i, j).has) { { LibScope l; s->lib->removeElement(i, j); } s->m.at(i, j) = Cell<T>(); }
                op.desc = ty + ".extractElement(absent)"; op.expect = X_NOVAL; op.exec = [=](SlotBase **x) { (void)L(x).extractElement(i, j); }; } }
        else if (k == 4) { op.kind = "Matrix rejections"; size_t a = c.r.coin() ? 0 : 3, b = a ? 0 : c.r.below(3); op.desc = ty + ".resize(" + std::to_string(a) + "," + std::to_string(b) + ")"; op.expect = X_INVAL; op.exec = [=](SlotBase **x) { L(x).resize(a, b); }; }
        else if (k == 5) { op.kind = "Matrix rejections"; Tuples<T> t = rnd_tuples<T>(c, R, C); size_t p = c.r.below(t.i.size() + 1); t.i.insert(t.i.begin() + p, bi); t.j.insert(t.j.begin() + p, bj); t.v.insert(t.v.begin() + p, rnd<T>(c.r, 0));
            op.desc = ty + ".build(" + std::to_string(t.i.size()) + " tuples, one at " + at + ")"; op.expect = X_OOB; op.exec = [=](SlotBase **x) { L(x).build(t.i.begin(), t.j.begin(), t.v.begin(), t.i.size()); }; }
        else if (k == 6) { op.kind = "Matrix rejections"; Tuples<T> t = rnd_tuples<T>(c, R, C); int q = (int)c.r.below(3); if (q == 0) t.i.push_back(0); else if (q == 1) t.j.push_back(0); else t.v.push_back(T());
            if constexpr (!std::is_same_v<T, bool>) { op.desc = ty + ".build(arrays of different lengths)"; op.expect = X_DIM; op.exec = [=](SlotBase **x) { L(x).build(t.i, t.j, t.v); }; } else return; }
        else if (k == 7) { int q = (int)c.r.below(6); op.kind = "Matrix rejections"; op.s[0] = nullptr; op.s[2] = s; auto h = std::make_shared<Hold<grb::Matrix<T>>>(); auto d = std::make_shared<vector<vector<T>>>();
            if (q < 2) { if (c.r.coin()) d->resize(3); op.desc = ty + " from empty dense data"; op.expect = X_INVAL; }
            else { size_t a = 2 + c.r.below(4), b = 1 + c.r.below(5); d->assign(a, vector<T>(b)); (*d)[1 + c.r.below(a - 1)].resize(wrong(c, b)); op.desc = ty + " from ragged dense data"; op.expect = X_DIM; }
            op.exec = [=](SlotBase **) { h->p = (q & 1) ? new grb::Matrix<T>(*d, fromI<T>(1)) : new grb::Matrix<T>(*d); }; }
        else { size_t r2 = c.r.coin() ? R : wrong(c, R), c2 = r2 != R ? C : wrong(c, C); op.kind = "Matrix rejections"; op.s[2] = getM<T>(c, r2, c2); op.desc = ty + " = (other dimensions)"; op.expect = X_DIM; op.exec = [=](SlotBase **x) { L(x) = *((MSlot<T> *)x[2])->lib; }; }
        op.sig = mix(k, mix(R, C));
        run_op(c, idx, op); return;
    }
    op.s[0] = s; op.sig = mix(100 + k, (uint64_t)TN<T>::n()[0]);
    auto L = [](SlotBase **x) -> MSlot<T> & { return *(MSlot<T> *)x[0]; };
    auto same = [=](SlotBase **x) { L(x).exp = L(x).m; };
    auto hb = std::make_shared<vector<int>>(); auto hv = std::make_shared<Hold<T>>();
    string at = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
    switch (k) {
    case 0: case 1: { T v = rnd<T>(c.r, P.style); op.kind = "Matrix.setElement"; op.strong = true; op.desc = ty + ".setElement" + at + "=" + str(v);
        op.model = [=](SlotBase **x) { same(x); L(x).exp.set(i, j, v); }; op.exec = [=](SlotBase **x) { L(x).lib->setElement(i, j, v); }; break; }
    case 2: case 3: op.kind = "Matrix.removeElement"; op.strong = true; op.desc = ty + ".removeElement" + at;
        op.model = [=](SlotBase **x) { same(x); L(x).exp.at(i, j) = Cell<T>(); }; op.exec = [=](SlotBase **x) { L(x).lib->removeElement(i, j); }; break;
    case 4: { op.kind = "Matrix.extractElement"; op.model = same;
        if (!s->m.at(i, j).has) { op.expect = X_NOVAL; } op.desc = ty + ".extractElement" + at;
        op.pre = [=] { hv->reset(); }; op.exec = [=](SlotBase **x) { hv->p = new T(L(x).lib->extractElement(i, j)); };
        op.post = [=]() -> string { T w = s->m.at(i, j).v; if (hv->p && !(*hv->p == w)) return "extractElement gave " + str(*hv->p) + " instead of " + str(w); return ""; }; break; }
    case 5: op.kind = "Matrix.clear"; op.desc = ty + ".clear()"; op.model = [=](SlotBase **x) { L(x).exp = DM<T>(L(x).m.r, L(x).m.c); }; op.exec = [=](SlotBase **x) { L(x).lib->clear(); }; break;
    case 6: { size_t a = c.r.chance(30) ? R : (size_t)c.r.range(1, R + 4), b = c.r.chance(30) ? C : (size_t)c.r.range(1, C + 4); op.kind = "Matrix.resize"; op.out_may_resize = true; op.desc = ty + ".resize(" + std::to_string(a) + "," + std::to_string(b) + ")";
        op.model = [=](SlotBase **x) { auto &m = L(x).m; DM<T> n(a, b); for (size_t q = 0; q < std::min(a, m.r); ++q) for (size_t w = 0; w < std::min(b, m.c); ++w) n.at(q, w) = m.at(q, w); L(x).exp = n; };
        op.exec = [=](SlotBase **x) { L(x).lib->resize(a, b); }; break; }
    case 7: case 8: { op.kind = "Matrix.build"; Tuples<T> t = rnd_tuples<T>(c, R, C); int dk = c.r.chance(30) ? -1 : rnd_bink(c.r); bool arr = c.r.coin(); bool clr = c.r.chance(60);
        op.desc = ty + (clr ? ".clear()" : "") + ".build(" + std::to_string(t.i.size()) + (arr ? " tuples as arrays, dup=" : " tuples, dup=") + (dk < 0 ? "default" : bname[dk]) + ")";
        op.model = [=](SlotBase **x) { same(x); auto &e = L(x).exp; if (clr) e = DM<T>(e.r, e.c); for (size_t q = 0; q < t.i.size(); ++q) { auto &z = e.at(t.i[q], t.j[q]); if (z.has) z.v = dk < 0 ? t.v[q] : bin_eval<T>(dk, z.v, t.v[q]); else e.set(t.i[q], t.j[q], t.v[q]); } };
        op.exec = [=](SlotBase **x) { auto &m = *L(x).lib; DynBin<T, T, T> d; d.kind = dk; if (clr) m.clear();
            if (arr) { if constexpr (!std::is_same_v<T, bool>) { if (dk < 0) m.build(t.i, t.j, t.v); else m.build(t.i, t.j, t.v, d); return; } }
            if (dk < 0) m.build(t.i.begin(), t.j.begin(), t.v.begin(), t.i.size()); else m.build(t.i.begin(), t.j.begin(), t.v.begin(), t.i.size(), d); };
        break; }
    case 9: case 10: { SlotBase *b = getM<T>(c, R, C); op.kind = "Matrix="; op.s[2] = b; op.desc = ty + " assignment";
        op.model = [=](SlotBase **x) { L(x).exp = mdl<T>(x[2]); }; op.exec = [=](SlotBase **x) { *L(x).lib = *((MSlot<T> *)x[2])->lib; }; break; }
    case 11: { SlotBase *b = c.r.chance(50) ? (SlotBase *)getM<T>(c, R, C) : anyM<T>(c, false); bool copy = c.r.chance(40);
        if (copy) { auto *n = new MSlot<T>(s->m, newname(c, "M"), newbs(c)); c.own.push_back(n); b = n; if (c.r.coin()) { size_t q = c.r.below(R), w = c.r.below(C); T v = rnd<T>(c.r, 0); { LibScope l; n->lib->setElement(q, w, v); } n->m.set(q, w, v); } }
        op.kind = "Matrix=="; op.s[2] = b; op.desc = ty + " comparison"; op.model = same; op.pre = [=] { hb->clear(); };
        op.exec = [=](SlotBase **x) { auto &m = *L(x).lib; auto &n = *((MSlot<T> *)x[2])->lib; bool e = m == n, f = m != n, g = n == m; HarnessScope h; hb->push_back(e); hb->push_back(f); hb->push_back(g); };
        op.post = [=]() -> string { bool want = s->m == ((MSlot<T> *)b)->m; if (hb->size() == 3 && ((*hb)[0] != want || (*hb)[1] == want || (*hb)[2] != want)) return string("comparison gave ") + ((*hb)[0] ? "equal" : "different"); return ""; }; break; }
    case 12: { auto h = std::make_shared<Hold<grb::Matrix<T>>>(); op.kind = "Matrix copy"; op.desc = ty + " copy construction"; op.model = same; op.pre = [=] { h->reset(); };
        op.exec = [=](SlotBase **x) { h->p = new grb::Matrix<T>(*L(x).lib); };
        op.post = [=]() -> string { if (!h->p) return ""; string e = check_obj(h->p, s->m); if (!e.empty()) return "copy: " + e;
            T v = fromI<T>(7); { LibScope l; h->p->setElement(i, j, v); h->p->removeElement(0, 0); } return ""; }; break; }
    case 13: case 14: { bool zero = c.r.coin(); size_t r2 = rdim(c), c2 = rdim(c); if (r2 * c2 > 900) r2 = 3; T z = rnd<T>(c.r, 0); auto h = std::make_shared<Hold<grb::Matrix<T>>>();
        auto v = std::make_shared<vector<vector<T>>>(r2, vector<T>(c2)); DM<T> w(r2, c2);
        for (size_t q = 0; q < r2; ++q) for (size_t u = 0; u < c2; ++u) { T y = c.r.chance(35) ? z : rnd<T>(c.r, P.style); (*v)[q][u] = y; if (!zero || !(y == z)) w.set(q, u, y); }
        op.s[0] = nullptr; op.kind = "Matrix dense ctor"; op.desc = ty + (zero ? " from dense data, implied zero " + str(z) : " from dense data");
        op.pre = [=] { h->reset(); }; op.exec = [=](SlotBase **) { h->p = zero ? new grb::Matrix<T>(*v, z) : new grb::Matrix<T>(*v); };
        op.post = [=]() -> string { return h->p ? check_obj(h->p, w) : ""; }; break; }
    case 15: { op.kind = "Matrix.extractTuples"; op.desc = ty + ".extractTuples(containers)"; op.model = same; size_t n = s->m.nvals();
        auto I = std::make_shared<vector<IndexType>>(n), J = std::make_shared<vector<IndexType>>(n); auto V = std::make_shared<vector<T>>(n);
        op.pre = [=] { std::fill(I->begin(), I->end(), ~0ull); };
        op.exec = [=](SlotBase **x) { if constexpr (!std::is_same_v<T, bool>) L(x).lib->extractTuples(*I, *J, *V); else L(x).lib->extractTuples(I->begin(), J->begin(), V->begin()); };
        op.post = [=]() -> string { DM<T> o(s->m.r, s->m.c); for (size_t q = 0; q < n; ++q) { if ((*I)[q] >= o.r || (*J)[q] >= o.c || o.at((*I)[q], (*J)[q]).has) return "extractTuples: bad or duplicate tuple"; o.set((*I)[q], (*J)[q], (*V)[q]); } return diff(s->m, o); }; break; }
    default: { op.kind = "Matrix queries"; op.desc = ty + " nvals/nrows/ncols/hasElement" + at; op.model = same; op.pre = [=] { hb->clear(); };
        op.exec = [=](SlotBase **x) { auto const &m = *L(x).lib; IndexType a = m.nvals(), b = m.nrows(), d = m.ncols(); bool e = m.hasElement(i, j); HarnessScope h; hb->assign({(int)a, (int)b, (int)d, (int)e}); };
        op.post = [=]() -> string { if (hb->size() == 4) { vector<int> w{(int)s->m.nvals(), (int)s->m.r, (int)s->m.c, (int)s->m.at(i, j).has}; if (*hb != w) return "queries: nvals " + std::to_string((*hb)[0]) + " instead of " + std::to_string(w[0]) + ", membership " + std::to_string((*hb)[3]) + " instead of " + std::to_string(w[3]); } return ""; }; break; }
    }
    run_op(c, idx, op);
}
template <class T> void step_vector(NamedClient &c, int idx) {
    Op op; string ty = string("Vector<") + TN<T>::n() + ">";
    SlotBase *sb = anyV<T>(c, true); auto *s = (VSlot<T> *)sb; size_t R = s->m.r;
    bool rej = g_mode.reject && c.r.chance(70);
    int k = (int)c.r.below(rej ? 9 : 19);
    size_t i = c.r.below(R);
    if (rej) {
        op.retry_ok = false; op.kind = "Vector rejections";
        size_t off = c.r.chance(70) ? 0 : c.r.below(5); if (c.r.chance(10)) off = ~0ull / 2;
        size_t bi = R + off; op.s[0] = s; op.model = [](SlotBase **) {};
        auto L = [=](SlotBase **x) -> grb::Vector<T> & { return *((VSlot<T> *)x[0])->lib; };
        string at = "(" + std::to_string(bi) + ")";
        switch (k) {
        case 0: { op.desc = ty + ".setElement" + at; op.expect = X_OOB; T v = rnd<T>(c.r, 0); op.exec = [=](SlotBase **x) { L(x).setElement(bi, v); }; break; }
        case 1: op.desc = ty + ".removeElement" + at; op.expect = X_OOB; op.exec = [=](SlotBase **x) { L(x).removeElement(bi); }; break;
        case 2: op.desc = ty + ".hasElement" + at; op.expect = X_OOB; op.exec = [=](SlotBase **x) { (void)L(x).hasElement(bi); }; break;
        case 3: if (c.r.coin()) { op.desc = ty + ".extractElement" + at; op.expect = X_OOB; op.exec = [=](SlotBase **x) { (void)L(x).extractElement(bi); }; }
            else { if (s->m.at(i, 0).has) { { LibScope l; s->lib->removeElement(i); } s->m.at(i, 0) = Cell<T>(); } op.desc = ty + ".extractElement(absent)"; op.expect = X_NOVAL; op.exec = [=](SlotBase **x) { (void)L(x).extractElement(i); }; } break;
        case 4: op.desc = ty + ".resize(0)"; op.expect = X_INVAL; op.exec = [=](SlotBase **x) { L(x).resize(0); }; break;
        case 5: { Tuples<T> t = rnd_tuples<T>(c, R, 1); size_t p = c.r.below(t.i.size() + 1); t.i.insert(t.i.begin() + p, bi); t.v.insert(t.v.begin() + p, rnd<T>(c.r, 0));
            op.desc = ty + ".build(" + std::to_string(t.i.size()) + " tuples, one at " + at + ")"; op.expect = X_OOB; op.exec = [=](SlotBase **x) { L(x).build(t.i.begin(), t.v.begin(), t.i.size()); }; break; }
        case 6: { Tuples<T> t = rnd_tuples<T>(c, R, 1); if (c.r.coin()) t.i.push_back(0); else t.v.push_back(T());
            if constexpr (!std::is_same_v<T, bool>) { op.desc = ty + ".build(arrays of different lengths)"; op.expect = X_DIM; op.exec = [=](SlotBase **x) { L(x).build(t.i, t.v); }; } else return; break; }
        case 7: { size_t r2 = wrong(c, R); if (c.r.coin()) { op.s[2] = getV<T>(c, r2); op.desc = ty + " = (other size)"; op.expect = X_DIM; op.exec = [=](SlotBase **x) { L(x) = *((VSlot<T> *)x[2])->lib; }; }
            else { auto d = std::make_shared<vector<T>>(r2); op.desc = ty + " = dense data of another size"; op.expect = X_DIM; op.exec = [=](SlotBase **x) { L(x) = *d; }; } break; }
        default: { int q = (int)c.r.below(4); op.s[0] = nullptr; op.s[2] = s; op.desc = ty + " of size zero"; op.expect = X_INVAL; auto d = std::make_shared<vector<T>>(); auto h = std::make_shared<Hold<grb::Vector<T>>>();
            op.exec = [=](SlotBase **) { T z = fromI<T>(1); h->p = q == 0 ? new grb::Vector<T>(0) : q == 1 ? new grb::Vector<T>(0, z) : q == 2 ? new grb::Vector<T>(*d) : new grb::Vector<T>(*d, z); }; }
        }
        op.sig = mix(50 + k, R);
        run_op(c, idx, op); return;
    }
    op.s[0] = s; op.sig = mix(200 + k, (uint64_t)TN<T>::n()[0]);
    auto L = [](SlotBase **x) -> VSlot<T> & { return *(VSlot<T> *)x[0]; };
    auto same = [=](SlotBase **x) { L(x).exp = L(x).m; };
    auto hb = std::make_shared<vector<int>>(); auto hv = std::make_shared<Hold<T>>();
    string at = "(" + std::to_string(i) + ")";
    switch (k) {
    case 0: case 1: { T v = rnd<T>(c.r, P.style); op.kind = "Vector.setElement"; op.strong = true; op.desc = ty + ".setElement" + at + "=" + str(v);
        op.model = [=](SlotBase **x) { same(x); L(x).exp.set(i, 0, v); }; op.exec = [=](SlotBase **x) { L(x).lib->setElement(i, v); }; break; }
    case 2: case 3: op.kind = "Vector.removeElement"; op.strong = true; op.desc = ty + ".removeElement" + at;
        op.model = [=](SlotBase **x) { same(x); L(x).exp.at(i, 0) = Cell<T>(); }; op.exec = [=](SlotBase **x) { L(x).lib->removeElement(i); }; break;
    case 4: { op.kind = "Vector.extractElement"; op.model = same; if (!s->m.at(i, 0).has) op.expect = X_NOVAL; op.desc = ty + ".extractElement" + at;
        op.pre = [=] { hv->reset(); }; op.exec = [=](SlotBase **x) { hv->p = new T(L(x).lib->extractElement(i)); };
        op.post = [=]() -> string { T w = s->m.at(i, 0).v; if (hv->p && !(*hv->p == w)) return "extractElement gave " + str(*hv->p) + " instead of " + str(w); return ""; }; break; }
    case 5: op.kind = "Vector.clear"; op.desc = ty + ".clear()"; op.model = [=](SlotBase **x) { L(x).exp = DM<T>(L(x).m.r, 1); }; op.exec = [=](SlotBase **x) { L(x).lib->clear(); }; break;
    case 6: case 7: { size_t a = (size_t)c.r.range(1, R + 6); if (c.r.coin() && R > 2) a = R - 1 - c.r.below(R / 2); op.kind = "Vector.resize"; op.out_may_resize = true; op.desc = ty + ".resize(" + std::to_string(a) + ")";
        op.model = [=](SlotBase **x) { auto &m = L(x).m; DM<T> n(a, 1); for (size_t q = 0; q < std::min(a, m.r); ++q) n.at(q, 0) = m.at(q, 0); L(x).exp = n; };
        op.exec = [=](SlotBase **x) { L(x).lib->resize(a); }; break; }
    case 8: case 9: { op.kind = "Vector.build"; Tuples<T> t = rnd_tuples<T>(c, R, 1); int dk = c.r.chance(30) ? -1 : rnd_bink(c.r); bool arr = c.r.coin();
        op.desc = ty + ".build(" + std::to_string(t.i.size()) + (arr ? " tuples as arrays, dup=" : " tuples, dup=") + (dk < 0 ? "default" : bname[dk]) + ")";
        op.model = [=](SlotBase **x) { DM<T> e(L(x).m.r, 1); for (size_t q = 0; q < t.i.size(); ++q) { auto &z = e.at(t.i[q], 0); if (z.has) z.v = dk < 0 ? t.v[q] : bin_eval<T>(dk, z.v, t.v[q]); else e.set(t.i[q], 0, t.v[q]); } L(x).exp = e; };
        op.exec = [=](SlotBase **x) { auto &m = *L(x).lib; DynBin<T, T, T> d; d.kind = dk;
            if (arr) { if constexpr (!std::is_same_v<T, bool>) { if (dk < 0) m.build(t.i, t.v); else m.build(t.i, t.v, d); return; } }
            if (dk < 0) m.build(t.i.begin(), t.v.begin(), t.i.size()); else m.build(t.i.begin(), t.v.begin(), t.i.size(), d); };
        break; }
    case 10: case 11: { SlotBase *b = getV<T>(c, R); op.kind = "Vector="; op.s[2] = b; op.desc = ty + " assignment";
        op.model = [=](SlotBase **x) { L(x).exp = vdl<T>(x[2]); }; op.exec = [=](SlotBase **x) { *L(x).lib = *((VSlot<T> *)x[2])->lib; }; break; }
    case 12: { auto d = std::make_shared<vector<T>>(R); for (size_t q = 0; q < R; ++q) (*d)[q] = rnd<T>(c.r, P.style); op.kind = "Vector= dense"; op.desc = ty + " = dense data";
        op.model = [=](SlotBase **x) { DM<T> e(R, 1); for (size_t q = 0; q < R; ++q) e.set(q, 0, (*d)[q]); L(x).exp = e; }; op.exec = [=](SlotBase **x) { *L(x).lib = *d; }; break; }
    case 13: { SlotBase *b = c.r.chance(50) ? (SlotBase *)getV<T>(c, R) : anyV<T>(c, false);
        if (c.r.chance(40)) { auto *n = new VSlot<T>(s->m, newname(c, "v"), newbs(c)); c.own.push_back(n); b = n; if (c.r.coin()) { size_t q = c.r.below(R); T v = rnd<T>(c.r, 0); { LibScope l; n->lib->setElement(q, v); } n->m.set(q, 0, v); } }
        op.kind = "Vector=="; op.s[2] = b; op.desc = ty + " comparison"; op.model = same; op.pre = [=] { hb->clear(); };
        op.exec = [=](SlotBase **x) { auto &m = *L(x).lib; auto &n = *((VSlot<T> *)x[2])->lib; bool e = m == n, f = m != n, g = n == m; HarnessScope h; hb->push_back(e); hb->push_back(f); hb->push_back(g); };
        op.post = [=]() -> string { bool want = s->m == ((VSlot<T> *)b)->m; if (hb->size() == 3 && ((*hb)[0] != want || (*hb)[1] == want || (*hb)[2] != want)) return string("comparison gave ") + ((*hb)[0] ? "equal" : "different"); return ""; }; break; }
    case 14: { auto h = std::make_shared<Hold<grb::Vector<T>>>(); op.kind = "Vector copy"; op.desc = ty + " copy construction"; op.model = same; op.pre = [=] { h->reset(); };
        op.exec = [=](SlotBase **x) { h->p = new grb::Vector<T>(*L(x).lib); };
        op.post = [=]() -> string { if (!h->p) return ""; string e = check_obj(h->p, s->m); if (!e.empty()) return "copy: " + e; T v = fromI<T>(7); { LibScope l; h->p->setElement(i, v); h->p->removeElement(0); } return ""; }; break; }
    case 15: case 16: { int q = (int)c.r.below(3); size_t r2 = rdim(c); T z = rnd<T>(c.r, 0); auto h = std::make_shared<Hold<grb::Vector<T>>>(); auto v = std::make_shared<vector<T>>(r2); DM<T> w(r2, 1);
        for (size_t u = 0; u < r2; ++u) { T y = q == 2 ? z : c.r.chance(35) ? z : rnd<T>(c.r, P.style); (*v)[u] = y; if (q != 1 || !(y == z)) w.set(u, 0, y); }
        op.s[0] = nullptr; op.kind = "Vector ctor"; op.desc = ty + (q == 0 ? " from dense data" : q == 1 ? " from dense data, implied zero " + str(z) : " filled with " + str(z));
        op.pre = [=] { h->reset(); }; op.exec = [=](SlotBase **) { h->p = q == 0 ? new grb::Vector<T>(*v) : q == 1 ? new grb::Vector<T>(*v, z) : new grb::Vector<T>(r2, z); };
        op.post = [=]() -> string { return h->p ? check_obj(h->p, w) : ""; }; break; }
    case 17: { op.kind = "Vector.extractTuples"; op.desc = ty + ".extractTuples(containers)"; op.model = same; size_t n = s->m.nvals();
        auto I = std::make_shared<vector<IndexType>>(n); auto V = std::make_shared<vector<T>>(n); op.pre = [=] { std::fill(I->begin(), I->end(), ~0ull); };
        op.exec = [=](SlotBase **x) { L(x).lib->extractTuples(*I, *V); };
        op.post = [=]() -> string { if (I->size() != n || V->size() != n) return "extractTuples changed the number of tuples"; DM<T> o(s->m.r, 1); for (size_t q = 0; q < n; ++q) { if ((*I)[q] >= o.r || o.at((*I)[q], 0).has) return "extractTuples: bad or duplicate tuple"; o.set((*I)[q], 0, (*V)[q]); } return diff(s->m, o); }; break; }
    default: { op.kind = "Vector queries"; op.desc = ty + " nvals/size/hasElement" + at; op.model = same; op.pre = [=] { hb->clear(); };
        op.exec = [=](SlotBase **x) { auto const &m = *L(x).lib; IndexType a = m.nvals(), b = m.size(); bool e = m.hasElement(i); HarnessScope h; hb->assign({(int)a, (int)b, (int)e}); };
        op.post = [=]() -> string { if (hb->size() == 3) { vector<int> w{(int)s->m.nvals(), (int)s->m.r, (int)s->m.at(i, 0).has}; if (*hb != w) return "queries: nvals " + std::to_string((*hb)[0]) + " instead of " + std::to_string(w[0]); } return ""; }; break; }
    }
    run_op(c, idx, op);
}

// copies are independent of their origin, whichever is changed afterwards
template <class O, class S, class A, class B> void copy_indep(NamedClient &c, int idx, S *s, string ty, A &&change, B &&read) {
    if (want_log()) note("caller " + std::to_string(c.id) + " call #" + std::to_string(idx) + ": copies " + s->name + " and changes one of the two");
    probe("copy independence");
    bool orig = c.r.coin(), assign = c.r.coin(); int n = 1 + (int)c.r.below(4);
    O *cp = nullptr; 
    { LibScope l; if (assign) { cp = new O(*s->lib); change(*cp); *cp = *s->lib; } else cp = new O(*s->lib); }
    auto before = s->m;
    for (int i = 0; i < n; ++i) { LibScope l; change(orig ? *s->lib : *cp); }
    string e = orig ? read(cp, before) : s->verify(true);
    if (!e.empty()) violation("copy-not-independent", string("changing ") + (orig ? "the original changed its copy" : "a copy changed the original") + " (" + ty + (assign ? " assignment" : " copy construction") + "): " + e + "\n  caller " + std::to_string(c.id) + " call #" + std::to_string(idx));
    if (orig) { string r = s->read_into_exp(); if (!r.empty()) violation("inconsistent", s->name + ": " + r); s->adopt(); e = ""; }
    if (orig && c.r.coin()) { LibScope l; delete s->lib; s->lib = cp; cp = nullptr; HarnessScope h; s->m = before; }   // the copy outlives its origin
    { LibScope l; delete cp; }
    eval(mix(before.r * 131 + before.c, (orig * 2 + assign) * 8 + n));
    e = s->verify(true); if (!e.empty()) violation("copy-not-independent", "after its origin or copy is gone: " + e);
}
template <class T> void step_copy(NamedClient &c, int idx) {
    if (c.r.coin()) { auto *s = (MSlot<T> *)anyM<T>(c, true); auto &r = c.r; size_t R = s->m.r, C = s->m.c;
        copy_indep<grb::Matrix<T>>(c, idx, s, string("Matrix<") + TN<T>::n() + ">", [&](grb::Matrix<T> &x) { size_t i, j; T v; int k; { HarnessScope h; i = r.below(R); j = r.below(C); k = (int)r.below(10); v = rnd<T>(r, 0); }
            if (i < x.nrows() && j < x.ncols()) { if (k < 6) x.setElement(i, j, v); else if (k < 8) x.removeElement(i, j); else x.clear(); } }, [](grb::Matrix<T> *p, DM<T> const &w) { return check_obj(p, w); });
    } else { auto *s = (VSlot<T> *)anyV<T>(c, true); auto &r = c.r; size_t R = s->m.r;
        copy_indep<grb::Vector<T>>(c, idx, s, string("Vector<") + TN<T>::n() + ">", [&](grb::Vector<T> &x) { size_t i; T v; int k; { HarnessScope h; i = r.below(R); k = (int)r.below(10); v = rnd<T>(r, 0); }
            if (k < 6) x.setElement(i, v); else if (k < 8) x.removeElement(i); else x.clear(); }, [](grb::Vector<T> *p, DM<T> const &w) { return check_obj(p, w); });
    }
}
}

// C17: transpose and mask views held by the caller while the underlying objects keep changing.
// Compiled in parts (SIM_PART), linked together.
#define SIM_LITE 1
#define SIM_HELD_VIEWS 1
#include "ops2.hpp"
#include <sstream>
namespace sim {
void part0(NamedClient &c, int idx); void part1(NamedClient &c, int idx); void part2(NamedClient &c, int idx); void part3(NamedClient &c, int idx); void part4(NamedClient &c, int idx);
#if SIM_PART == 0
const char *group_name = "views";
void group_params(Rng &r) { P.maxslots = (size_t)r.range(3, 9); P.churn = 30 + (int)r.below(60); P.dims.resize(std::min<size_t>(P.dims.size(), r.chance(70) ? 1 : 2)); }
// in-place changes only: the caller's views stay valid
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, int32_t, double, Sx>(c, s); }
void group_shared(NamedClient &c) { size_t a = rdim(c), b = rdim(c); newM<int64_t>(c, a, b); newM<int64_t>(c, b, b); newM<bool>(c, a, b); newV<int64_t>(c, a); newV<bool>(c, b); }
void group_step(NamedClient &c, int idx) {
    switch (c.r.below(14)) { case 0: case 1: case 2: part0(c, idx); break; case 3: case 4: case 5: part1(c, idx); break; case 6: case 7: case 8: part2(c, idx); break; case 9: case 10: part3(c, idx); break; default: part4(c, idx); }
}
void part0(NamedClient &c, int idx) { if (c.r.coin()) step_mxm<int64_t, int64_t, int64_t, bool, int64_t>(c, idx); else step_mxm<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx); }
#elif SIM_PART == 1
void part1(NamedClient &c, int idx) { bool x = c.r.coin(); if (c.r.coin()) step_mxv<int64_t, int64_t, int64_t, bool, int64_t>(c, idx, x); else if (c.r.coin()) step_ew_v<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx, x); else step_re_v<int64_t, int64_t, bool, int64_t>(c, idx); }
#elif SIM_PART == 2
void part2(NamedClient &c, int idx) { bool x = c.r.coin(); switch (c.r.below(3)) { case 0: step_ew_m<int64_t, int64_t, int64_t, bool, int64_t>(c, idx, x); break; case 1: step_tr<int64_t, int64_t, int64_t>(c, idx); break; default: step_kr<int64_t, int64_t, int64_t, bool, int64_t>(c, idx); } }
#elif SIM_PART == 3
void part3(NamedClient &c, int idx) { switch (c.r.below(4)) { case 0: step_ap_m<int64_t, int64_t, int64_t, int64_t, int64_t>(c, idx); break; case 1: step_ex_m<int64_t, int64_t, bool>(c, idx); break; case 2: step_as_m<int64_t, int64_t, bool>(c, idx); break; default: step_as_v<int64_t, int64_t, bool>(c, idx); } }
#else
// queries of views
template <class T> void qm(NamedClient &c, int idx) {
    vector<MSlot<T> *> v; for (auto s : c.own) if (auto p = dynamic_cast<MSlot<T> *>(s)) v.push_back(p);
    if (c.shared) for (auto s : *c.shared) if (auto p = dynamic_cast<MSlot<T> *>(s)) v.push_back(p);
    MSlot<T> *s = v.empty() ? newM<T>(c, rdim(c), rdim(c)) : v[c.r.below(v.size())];
    bool sh = c.shared && std::find(c.own.begin(), c.own.end(), s) == c.own.end();
    probe("view queries");
    if (want_log()) note("caller " + std::to_string(c.id) + " call #" + std::to_string(idx) + ": queries the views of " + s->name);
    size_t R = s->m.r, C = s->m.c, N = s->m.nvals(); string e;
    auto chk = [&](const char *what, size_t got, size_t want) { if (got != want && e.empty()) e = string(what) + " is " + std::to_string(got) + " instead of " + std::to_string(want); };
    std::shared_ptr<void> tmp[4]; auto *h = sh ? tmp : s->hv;          // shared objects: views made for this query
    { LibScope l;
        auto const &t = held(h[3], grb::transpose(*s->lib)); auto const &cv = held(h[0], grb::complement(*s->lib)); auto const &st = held(h[1], grb::structure(*s->lib)); auto const &sc = held(h[2], grb::complement(grb::structure(*s->lib)));
        size_t a[] = {t.nrows(), t.ncols(), cv.nrows(), cv.ncols(), st.nrows(), st.ncols(), sc.nrows(), sc.ncols(), st.nvals(), sc.nvals()};
        HarnessScope hs; size_t w[] = {C, R, R, C, R, C, R, C, N, R * C - N};
        const char *n[] = {"rows of the transpose", "columns of the transpose", "rows of the complement", "columns of the complement", "rows of the structure", "columns of the structure", "rows of the structural complement", "columns of the structural complement", "stored values of the structure", "stored values of the structural complement"};
        for (int i = 0; i < 10; ++i) chk(n[i], a[i], w[i]); }
    eval(mix(mix(R, C), mix(N, 1000 + c.r.below(2))));
    if (e.empty()) e = s->verify(false);
    if (!e.empty()) violation("wrong-view", e + "\n  object " + s->name + " = " + s->show_model().substr(0, 600) + "\n  caller " + std::to_string(c.id) + " call #" + std::to_string(idx));
}
template <class T> void qv(NamedClient &c, int idx) {
    vector<VSlot<T> *> v; for (auto s : c.own) if (auto p = dynamic_cast<VSlot<T> *>(s)) v.push_back(p);
    VSlot<T> *s = v.empty() ? newV<T>(c, rdim(c)) : v[c.r.below(v.size())];
    probe("view queries");
    if (want_log()) note("caller " + std::to_string(c.id) + " call #" + std::to_string(idx) + ": queries the views of " + s->name);
    size_t R = s->m.r, N = s->m.nvals(); string e;
    { LibScope l;
        auto const &cv = held(s->hv[0], grb::complement(*s->lib)); auto const &st = held(s->hv[1], grb::structure(*s->lib)); auto const &sc = held(s->hv[2], grb::complement(grb::structure(*s->lib)));
        size_t a[] = {cv.size(), st.size(), sc.size(), st.nvals(), sc.nvals()};
        HarnessScope hs; size_t w[] = {R, R, R, N, R - N};
        const char *n[] = {"size of the complement", "size of the structure", "size of the structural complement", "stored values of the structure", "stored values of the structural complement"};
        for (int i = 0; i < 5; ++i) if (a[i] != w[i] && e.empty()) e = string(n[i]) + " is " + std::to_string(a[i]) + " instead of " + std::to_string(w[i]); }
    eval(mix(R, mix(N, 2000)));
    if (e.empty()) e = s->verify(false);
    if (!e.empty()) violation("wrong-view", e + "\n  object " + s->name + " = " + s->show_model().substr(0, 600) + "\n  caller " + std::to_string(c.id) + " call #" + std::to_string(idx));
}
// the owner resizes, assigns or swaps contents under its views
template <class T> void resize_under(NamedClient &c, int idx) {
    vector<MSlot<T> *> v; vector<VSlot<T> *> u; for (auto s : c.own) { if (auto p = dynamic_cast<MSlot<T> *>(s)) v.push_back(p); else if (auto q = dynamic_cast<VSlot<T> *>(s)) u.push_back(q); }
    probe("objects resized or assigned under their views");
    if (!v.empty() && c.r.coin()) {
        auto *s = v[c.r.below(v.size())];
        if (c.r.coin()) { MSlot<T> *o = newM<T>(c, s->m.r, s->m.c); if (want_log()) note("caller " + std::to_string(c.id) + ": " + s->name + " = " + o->name); { LibScope l; *s->lib = *o->lib; } s->m = o->m; }
        else { size_t a = 1 + c.r.below(s->m.r + 2), b = 1 + c.r.below(s->m.c + 2); if (want_log()) note("caller " + std::to_string(c.id) + ": resizes " + s->name); { LibScope l; s->lib->resize(a, b); }
            DM<T> n(a, b); for (size_t i = 0; i < std::min(a, s->m.r); ++i) for (size_t j = 0; j < std::min(b, s->m.c); ++j) n.at(i, j) = s->m.at(i, j); s->m = n; }
        qm<T>(c, idx);
    } else if (!u.empty()) {
        auto *s = u[c.r.below(u.size())]; size_t a = 1 + c.r.below(s->m.r + 3); if (want_log()) note("caller " + std::to_string(c.id) + ": resizes " + s->name);
        { LibScope l; s->lib->resize(a); } DM<T> n(a, 1); for (size_t i = 0; i < std::min(a, s->m.r); ++i) n.at(i, 0) = s->m.at(i, 0); s->m = n;
        qv<T>(c, idx);
    }
}
void part4(NamedClient &c, int idx) { switch (c.r.below(6)) { case 0: qm<int64_t>(c, idx); break; case 1: qm<bool>(c, idx); break; case 2: qv<int64_t>(c, idx); break; case 3: qv<bool>(c, idx); break; case 4: resize_under<int64_t>(c, idx); break; default: resize_under<bool>(c, idx); } }
#endif
}

// One simulated run: callers, their objects, swarm-style run parameters, the step loop.
#pragma once
#include "sim.hpp"

namespace sim {
struct Params {                    // swarm choices of a run
    vector<size_t> dims; int style = 0; int density = 50; int nops = 8; size_t maxslots = 14; int stale = 30; int churn = 25; int repeat = 15;
    unsigned typemask = ~0u; size_t huge = 0; int thin = 0;   // one extent beyond 8-bit range, used now and then
};
inline Params P;
struct NamedClient : Client { int nid = 0; uint64_t bcount = 0; uint64_t bseed = 0; };

inline string newname(NamedClient &c, const char *k) { return string(k) + std::to_string(c.id) + "." + std::to_string(c.nid++); }
inline uint64_t newbs(NamedClient &c) { return mix(c.bseed, c.bcount++); }

template <class T> DM<T> rnd_model(Rng &r, size_t R, size_t C) {
    DM<T> m(R, C);
    int d = P.density; int f = (int)r.below(12);
    if (f == 0) d = 0; else if (f == 1) d = 100; else if (f == 2) d = 8; else if (f == 3) d = 75;
    int st = P.style == 4 || r.chance(70) ? P.style : (int)r.below(4);
    if (R * C > 3000 && d > 20) d = 4 + (int)r.below(14);
    if (f == 4) { for (size_t i = 0; i < std::min(R, C); ++i) m.set(i, i, rnd<T>(r, st)); return m; }
    vector<char> er(R), ec(C);
    if (r.coin()) { for (auto &x : er) x = r.chance(25); for (auto &x : ec) x = C > 1 && r.chance(20); }
    if (d == 0 || R * C < 3000 || d >= 20) { for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!er[i] && !ec[j] && r.chance(d)) m.set(i, j, rnd<T>(r, st)); }
    else { size_t n = R * C * d / 100; for (size_t q = 0; q < n; ++q) { size_t i = r.below(R), j = r.below(C); if (!er[i]) m.set(i, j, rnd<T>(r, st)); } }
    return m;
}
template <class T> MSlot<T> *newM(NamedClient &c, size_t R, size_t C) { auto *s = new MSlot<T>(rnd_model<T>(c.r, R, C), newname(c, "M"), newbs(c)); c.own.push_back(s); return s; }
template <class T> VSlot<T> *newV(NamedClient &c, size_t n) { auto *s = new VSlot<T>(rnd_model<T>(c.r, n, 1), newname(c, "v"), newbs(c)); c.own.push_back(s); return s; }
template <class S> vector<S *> candidates(NamedClient &c, size_t R, size_t C, bool out) {
    vector<S *> v;
    for (auto s : c.own) if (s->nr() == R && s->nc() == C) if (auto p = dynamic_cast<S *>(s)) v.push_back(p);
    if (!out && c.shared) for (auto s : *c.shared) if (s->nr() == R && s->nc() == C) if (auto p = dynamic_cast<S *>(s)) v.push_back(p);
    return v;
}
template <class T> MSlot<T> *getM(NamedClient &c, size_t R, size_t C, bool out = false, int reuse = 60) {
    auto v = candidates<MSlot<T>>(c, R, C, out);
    if (!v.empty() && (c.own.size() >= P.maxslots || c.r.chance(reuse))) return v[c.r.below(v.size())];
    return newM<T>(c, R, C);
}
template <class T> VSlot<T> *getV(NamedClient &c, size_t n, bool out = false, int reuse = 60) {
    auto v = candidates<VSlot<T>>(c, n, 1, out);
    if (!v.empty() && (c.own.size() >= P.maxslots || c.r.chance(reuse))) return v[c.r.below(v.size())];
    return newV<T>(c, n);
}
inline size_t rdim(NamedClient &c) { if (P.huge > 400 && P.huge < 2000) { if (P.thin) --P.thin; else if (c.r.chance(18)) { P.thin = 3; return P.huge; } }   // such extents only in one direction
    else if (P.huge && c.r.chance(18)) return P.huge;
    return P.dims[c.r.below(P.dims.size())]; }
inline void allow_wide(Rng &r) { if (r.chance(14)) P.style = 4; }

// ---- one caller-visible change of an owned object, outside any operation under test
template <class T> bool mutate_m(NamedClient &c, SlotBase *s) {
    auto *m = dynamic_cast<MSlot<T> *>(s);
    if (m) {
        size_t i = c.r.below(m->m.r), j = c.r.below(m->m.c);
        if (want_log()) note("caller " + std::to_string(c.id) + ": changes " + s->name);
        int k = (int)c.r.below(8);
        if (k < 4) { T v = rnd<T>(c.r, P.style); { LibScope l; m->lib->setElement(i, j, v); } m->m.set(i, j, v); }
        else if (k < 6) { { LibScope l; m->lib->removeElement(i, j); } m->m.at(i, j) = Cell<T>(); }
        else if (k == 6) { { LibScope l; m->lib->clear(); } m->m = DM<T>(m->m.r, m->m.c); }
        else { DM<T> n = rnd_model<T>(c.r, m->m.r, m->m.c); m->m = n; m->rebuild(); }
        return true;
    }
    auto *v = dynamic_cast<VSlot<T> *>(s);
    if (v) {
        size_t i = c.r.below(v->m.r);
        if (want_log()) note("caller " + std::to_string(c.id) + ": changes " + s->name);
        int k = (int)c.r.below(8);
        if (k < 4) { T x = rnd<T>(c.r, P.style); { LibScope l; v->lib->setElement(i, x); } v->m.set(i, 0, x); }
        else if (k < 6) { { LibScope l; v->lib->removeElement(i); } v->m.at(i, 0) = Cell<T>(); }
        else if (k == 6) { { LibScope l; v->lib->clear(); } v->m = DM<T>(v->m.r, 1); }
        else { v->m = rnd_model<T>(c.r, v->m.r, 1); v->rebuild(); }
        return true;
    }
    return false;
}
template <class... Ts> bool mutate_any(NamedClient &c, SlotBase *s) { return (mutate_m<Ts>(c, s) || ...); }
} // namespace sim

// provided by the group
namespace sim {
void group_params(Rng &r);                         // may adjust P
void group_step(NamedClient &c, int idx);          // generate and run one call
bool group_mutate(NamedClient &c, SlotBase *s);
void group_shared(NamedClient &c);                 // create shared read-only objects (concurrent runs)
extern const char *group_name;

inline void parse_mode(string const &s) {
    g_mode = Mode();
    std::istringstream in(s); string t;
    while (std::getline(in, t, '+')) {
        if (t == "seq") ; else if (t == "fault") g_mode.faults = true; else if (t == "sweep") g_mode.faults = g_mode.sweep = true;
        else if (t == "conc") g_mode.conc = true; else if (t == "alias") g_mode.alias = true; else if (t == "reject") g_mode.reject = true;
        else if (t == "lifo") g_mode.lifo = true; else if (t == "leak") g_mode.leak = true; else if (t == "nores") g_mode.results = false;
        else if (t == "solo") g_mode.diffsolo = true; else if (t == "unalias") g_mode.diffsolo = g_mode.unalias = true;
        else if (t == "text") g_mode.inspect = true; else if (t == "nowf") g_mode.wellformed = false;
        else if (t == "repeat") g_mode.repeat = true; else if (t == "frame") g_mode.frame = true; else if (t == "view") g_mode.view = true; else if (t == "lite") g_mode.fault_pct = 25;
        else if (t.substr(0, 1) == "g") ; // group-specific token
    }
}
inline bool cfg_has(const char *tok) { string s = "+" + g_cfg.cfg + "+"; return s.find(string("+") + tok + "+") != string::npos; }
inline void pick_dims(Rng &r) {
    int k = (int)r.below(100);
    size_t n = 1 + r.below(3);
    auto one = [&](int cls) -> size_t { return cls == 0 ? (size_t)r.range(1, 6) : cls == 1 ? (size_t)r.range(2, 14) : cls == 2 ? (size_t)r.range(12, 40) : (size_t)r.range(40, 140); };
    int cls = k < 62 ? 0 : k < 88 ? 1 : k < 97 ? 2 : k < 99 ? 3 : 0;
    P.dims.clear();
    for (size_t i = 0; i < n; ++i) { size_t d = one(r.chance(80) ? cls : 0); P.dims.push_back(d); }
    if (cls == 3) { P.nops = std::min(P.nops, 4); }
    if (k == 99) { P.huge = (size_t)r.range(250, 300); P.nops = std::min(P.nops, 4); if (r.chance(15)) { P.huge = r.coin() ? (size_t)r.range(505, 530) : (size_t)r.range(1015, 1040); P.density = 1 + (int)r.below(8); } }
}
} // namespace sim

void sim_run_one() {
    using namespace sim;
    parse_mode(g_cfg.cfg);
    Rng top(g_cfg.seed);
    P = Params();
    P.style = (int)top.below(4); int dd[] = {15, 30, 50, 70, 90}; P.density = dd[top.below(5)];
    P.nops = (int)top.range(2, g_mode.faults ? 7 : 14); P.churn = (int)top.below(60); P.repeat = (int)top.below(40);
    P.maxslots = (size_t)top.range(6, 24);
    P.typemask = (unsigned)top.next() | (unsigned)top.next();
    pick_dims(top);
    if (g_mode.faults || g_mode.conc) P.huge = 0;
    if (g_mode.faults) for (auto &d : P.dims) if (d > 30) d = 2 + d % 28;
    if (g_mode.conc) for (auto &d : P.dims) if (d > 40) d = 2 + d % 38;
    group_params(top);
    if (P.huge > 400 && P.huge < 2000) { bool ok = false; for (const char *g : {"ewise", "extract", "assign", "apply", "mv", "trkr", "container"}) ok = ok || string(group_name) == g; if (!ok) P.huge = 280; else probe("runs with an extent beyond 500"); }
    g_wide = P.style == 4; g_pre = top.chance(30); if (g_pre) probe("runs with the library's predefined operators");
    if (g_cfg.maxdim) { P.huge = 0; }
    if (g_cfg.maxdim) for (auto &d : P.dims) d = std::min<size_t>(d, g_cfg.maxdim);
    arena_mode(g_mode.lifo || top.chance(30));
    if (want_log()) { string s = string("run of ") + group_name + " cfg " + g_cfg.cfg + " dims"; for (auto d : P.dims) s += " " + std::to_string(d); note(s); }
    NamedClient shared; shared.id = 9; shared.r = Rng(mix(g_cfg.seed, 99)); shared.bseed = mix(g_cfg.seed, 991);
    NamedClient cl[MAXC];
    int n = 1;
    if (g_mode.conc) { n = (int)top.range(2, MAXC); P.maxslots = 8; P.nops = (int)top.range(1, 5); group_shared(shared); }
    for (int i = 0; i < n; ++i) { cl[i].id = i; cl[i].bseed = mix(g_cfg.seed, 500 + i); if (g_mode.conc) cl[i].shared = &shared.own; }
    bool twin = g_mode.conc && top.chance(65);
    auto body = [&](int i) {
        NamedClient &c = cl[i];
        for (int k = 0; k < P.nops; ++k) {
            bool skip = skipped(i, k);
            // callers often do the same thing at the same time (same template instantiation, same shared operands)
            c.r = Rng(mix(g_cfg.seed, mix(twin && Rng(mix(g_cfg.seed, mix(i + 31, k + 1))).chance(85) ? 1 : i + 1, k + 1)));
            if (skip) continue;
            if (!c.own.empty() && c.r.chance(P.churn)) group_mutate(c, c.own[c.r.below(c.own.size())]);
            if (c.own.size() > 3 && c.r.chance(g_mode.lifo ? 35 : 8)) { size_t q = c.r.below(c.own.size()); if (want_log()) note("caller " + std::to_string(i) + ": destroys " + c.own[q]->name); delete c.own[q]; c.own.erase(c.own.begin() + q); }
            group_step(c, k);
            if (g_mode.repeat && !c.kept.empty() && c.r.chance(60)) { size_t q = c.r.below(c.kept.size()); repeat_call(c, q, k); if (c.r.chance(40)) drop_kept(c, q); }
            for (auto s : c.own) if (s->big()) { group_mutate(c, s); if (s->big()) { delete s; c.own.erase(std::find(c.own.begin(), c.own.end(), s)); } break; }
        }
    };
    if (g_mode.conc) {
        int means[] = {3, 20, 120, 800}; int mean = means[top.below(4)];
        run_clients(n, body, mix(g_cfg.seed, 4242), mean);
    } else body(0);
    // final check of everything, then destruction
    auto fin = [&](NamedClient &c, const char *who) {
        for (auto s : c.own) { string e = s->verify(false); if (!e.empty() && g_mode.results) violation("object-changed", string(who) + " object " + s->name + " changed although no call used it as output: " + e); }
        while (!c.kept.empty()) { if (g_mode.repeat) { c.r = Rng(mix(g_cfg.seed, mix(777, c.kept.size()))); repeat_call(c, c.kept.size() - 1, 999); } drop_kept(c, c.kept.size() - 1); }
        for (auto s : c.own) delete s;
        c.own.clear();
    };
    for (int i = 0; i < n; ++i) fin(cl[i], "caller's");
    fin(shared, "shared read-only");
    if (g_mode.leak) {
        string l = leak_check();
        if (!l.empty()) violation("leak", "memory obtained by the library is lost: " + l);
        if (Sx::live != 0) violation("element-lifetime", std::to_string(Sx::live) + " element(s) constructed but never destroyed (or destroyed twice)");
        probe("leak scans");
    }
}
const char *sim_harness_name() { return sim::group_name; }

// Harness core: scalar types, caller-supplied functors with fault points, dense reference
// model, live objects ("slots") paired with their model, and the call runner.
#pragma once
#include "simrt.h"
#include <random>
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstring>
#include <deque>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <tuple>
#include <utility>
#include <vector>

namespace sim {
// the random engine the algorithms use, owned by the simulator (see PRE_ALGO in h_algo.cpp)
struct SimEngine {
    using result_type = uint64_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0ull; }
    struct St { uint64_t seed = 1; int tie = 0, mode = 0; };   // per caller: stream, number of tied draws, kind of tie
    static St g_st[MAXC + 1]; static St &st() { return g_st[current_client() % MAXC]; }
    static uint64_t g_draws;
    static void use(uint64_t seed, int mode, int tie) { St &x = st(); x.seed = seed; x.mode = mode; x.tie = tie; }     // mode 0 fair, 1 all ties at the start, 2 extremes at the start
    uint64_t s = 0, n = 0;
    SimEngine() : s(mix64(st().seed)) {}
    template <class T> explicit SimEngine(T const &x) : s(mix64(st().seed)) {}
    template <class T> void seed(T const &) {}
    void seed() {}
    result_type operator()() {
        HarnessScope h; ++n; ++g_draws;
        St &q = st();
        if ((long)n <= q.tie) { if (q.mode == 1) return 1ull << 62; if (q.mode == 2) return (mix(q.seed, n) & 1) ? ~0ull : 0; }
        s += 0x9e3779b97f4a7c15ull; return mix64(s);
    }
};
SIM_EXCL SimEngine::St SimEngine::g_st[MAXC + 1]; SIM_EXCL uint64_t SimEngine::g_draws = 0;
}
#include <graphblas/graphblas.hpp>
#include <graphblas/matrix_utils.hpp>

namespace sim {
using grb::IndexType;
using std::string;
using std::vector;

// ---------------------------------------------------------------- scalar types
// user-defined scalar: copying may fail, lifetime is checked
struct Sx {
    int64_t v; uint32_t tag;
    static int64_t live;
    enum : uint32_t { OK = 0x5e5e5e5e };
    void chk() const { if (tag != OK) { HarnessScope h; violation("element-lifetime", "an element that was never constructed (or already destroyed) is used"); } }
    static void pt() { if (g_inlib) { HarnessScope h; if (fault_point(FK_COPY)) throw UserFault{FK_COPY, op_points(FK_COPY)}; } }
    Sx() : v(0), tag(OK) { ++live; }
    Sx(int64_t x) : v(x), tag(OK) { ++live; }
    Sx(Sx const &o) : v(o.v), tag(OK) { o.chk(); pt(); ++live; }
    Sx(Sx &&o) noexcept : v(o.v), tag(OK) { o.chk(); ++live; }          // moving never fails, copying may
    Sx &operator=(Sx &&o) noexcept { o.chk(); chk(); v = o.v; return *this; }
    Sx &operator=(Sx const &o) { o.chk(); chk(); pt(); v = o.v; return *this; }
    ~Sx() { chk(); tag = 0; --live; }
    bool operator==(Sx const &o) const { return v == o.v; }
    bool operator!=(Sx const &o) const { return v != o.v; }
    bool operator<(Sx const &o) const { return v < o.v; }
};
SIM_EXCL int64_t Sx::live = 0;
inline std::ostream &operator<<(std::ostream &o, Sx const &s) { if (g_inlib) { HarnessScope h; if (fault_point(FK_CALL)) throw UserFault{FK_CALL, op_points(FK_CALL)}; } return o << "<" << s.v << ">"; }

template <class T> struct TN;
template <> struct TN<bool> { static const char *n() { return "bool"; } };
template <> struct TN<int64_t> { static const char *n() { return "i64"; } };
template <> struct TN<int32_t> { static const char *n() { return "i32"; } };
template <> struct TN<int8_t> { static const char *n() { return "i8"; } };
template <> struct TN<uint64_t> { static const char *n() { return "u64"; } };
template <> struct TN<uint32_t> { static const char *n() { return "u32"; } };
template <> struct TN<double> { static const char *n() { return "f64"; } };
template <> struct TN<float> { static const char *n() { return "f32"; } };
template <> struct TN<Sx> { static const char *n() { return "udt"; } };

template <class T> int64_t toI(T const &x) { return (int64_t)x; }
template <> inline int64_t toI<Sx>(Sx const &x) { return x.v; }
template <class T> double toD(T const &x) { return (double)x; }
template <> inline double toD<Sx>(Sx const &x) { return (double)x.v; }
template <class T> T fromI(int64_t x) { if constexpr (std::is_same_v<T, bool>) return x != 0; else return (T)x; }
template <class T> string str(T const &x) { std::ostringstream o; o << std::setprecision(17); if constexpr (std::is_same_v<T, int8_t>) o << (int)x; else o << x; return o.str(); }

// random value: small, often colliding, sometimes stored zero, halves for floating point
inline bool g_wide = false;        // this run uses values from the whole range of their type
template <class T> T rnd(Rng &r, int style) {
    if constexpr (std::is_same_v<T, bool>) return !r.chance(30);
    else {
        int64_t k;
        if (style == 4) {
            if constexpr (std::is_floating_point_v<T>) return (T)r.range(-9, 40) + (T)(r.coin() ? std::ldexp(1.0, std::is_same_v<T, float> ? -17 : -34) : 0);
            else if constexpr (std::is_integral_v<T>) {
                int b = 8 * sizeof(T);
                switch (r.below(8)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::lowest(); case 2: return (T)0; case 3: return (T)(1 + r.below(3));
                case 4: return (T)(((uint64_t)1 << (b > 32 ? r.range(30, 34) : b / 2)) + r.below(3)); case 5: return (T)((1 << 8) + r.below(4)); default: return (T)r.next(); }
            } else { int64_t x[] = {INT64_MAX, INT64_MIN, 0, 1, (int64_t)1 << 33, 256, (int64_t)r.next(), -1}; return T(x[r.below(8)]); }
        }
        if (style == 1) k = r.range(1, 3);
        else if (style == 2) k = r.range(-40, 40);
        else if (style == 3) k = r.range(0, 1);
        else k = r.range(-4, 9);
        if constexpr (std::is_same_v<T, Sx>) return Sx(k);
        else if constexpr (std::is_unsigned_v<T>) return (T)(k < 0 ? -k : k);
        else if constexpr (std::is_floating_point_v<T>) return (T)k + (r.chance(30) ? (T)0.5 : (T)0);
        else return (T)k;
    }
}

// ---------------------------------------------------------------- functors (caller code with fault points)
struct CallScope : HarnessScope { CallScope() { if (old && fault_point(FK_CALL)) { throw_it(); } }
    [[noreturn]] void throw_it() { g_inlib = old; throw UserFault{FK_CALL, op_points(FK_CALL)}; } };
enum { B_PLUS, B_TIMES, B_MIN, B_MAX, B_FIRST, B_SECOND, B_MINUS, B_HASH, B_NE, B_EQ, B_AND, B_OR, B_N };
inline const char *bname[] = {"plus", "times", "min", "max", "first", "second", "minus", "hash", "ne", "eq", "and", "or"};

template <class D3, class D1, class D2> D3 bin_eval(int k, D1 const &a, D2 const &b) {
    if constexpr (std::is_floating_point_v<D1> || std::is_floating_point_v<D2> || std::is_floating_point_v<D3>) {
        double x = toD(a), y = toD(b), z = 0;
        switch (k) {
        case B_PLUS: z = x + y; break; case B_TIMES: z = x * y; break;
        case B_MIN: z = x < y ? x : y; break; case B_MAX: z = x < y ? y : x; break;
        case B_FIRST: z = x; break; case B_SECOND: z = y; break; case B_MINUS: z = x - y; break;
        case B_HASH: z = std::fmod(3 * x + 7 * y, 101); break;
        case B_NE: z = x != y; break; case B_EQ: z = x == y; break;
        case B_AND: z = x != 0 && y != 0; break; case B_OR: z = x != 0 || y != 0; break;
        }
        return (D3)z;
    } else {
        int64_t x = toI(a), y = toI(b), z = 0;
        switch (k) {
        case B_PLUS: z = (int64_t)((uint64_t)x + (uint64_t)y); break; case B_TIMES: z = (int64_t)((uint64_t)x * (uint64_t)y); break;
        case B_MIN: z = x < y ? x : y; break; case B_MAX: z = x < y ? y : x; break;
        case B_FIRST: z = x; break; case B_SECOND: z = y; break; case B_MINUS: z = (int64_t)((uint64_t)x - (uint64_t)y); break;
        case B_HASH: z = (int64_t)(3 * (uint64_t)x + 7 * (uint64_t)y) % 101; break;
        case B_NE: z = x != y; break; case B_EQ: z = x == y; break;
        case B_AND: z = x != 0 && y != 0; break; case B_OR: z = x != 0 || y != 0; break;
        }
        return fromI<D3>(z);
    }
}
// In some runs the caller passes the operators, monoids and semirings that the library predefines instead of
// its own; the model goes on using bin_eval.
inline bool g_pre = false;
template <class... D> constexpr bool all_num = (std::is_arithmetic_v<D> && ...);
template <class D3, class D1, class D2> D3 bin_call(int k, D1 const &a, D2 const &b) {
    if constexpr (all_num<D1, D2, D3>) if (g_pre) switch (k) {
    case B_PLUS: return grb::Plus<D1, D2, D3>()(a, b); case B_TIMES: return grb::Times<D1, D2, D3>()(a, b);
    case B_MIN: return grb::Min<D1, D2, D3>()(a, b); case B_MAX: return grb::Max<D1, D2, D3>()(a, b);
    case B_FIRST: return grb::First<D1, D2, D3>()(a, b); case B_SECOND: return grb::Second<D1, D2, D3>()(a, b);
    case B_MINUS: return grb::Minus<D1, D2, D3>()(a, b);
    case B_NE: if constexpr (std::is_same_v<D1, bool> && std::is_same_v<D2, bool>) return grb::LogicalXor<D1, D2, D3>()(a, b); else return grb::NotEqual<D1, D2, D3>()(a, b);
    case B_EQ: if constexpr (std::is_same_v<D1, bool> && std::is_same_v<D2, bool>) return grb::LogicalXnor<D1, D2, D3>()(a, b); else return grb::Equal<D1, D2, D3>()(a, b);
    case B_AND: return grb::LogicalAnd<D1, D2, D3>()(a, b); case B_OR: return grb::LogicalOr<D1, D2, D3>()(a, b);
    }
    return bin_eval<D3>(k, a, b);
}
template <class D, class F> bool with_monoid(int k, F &&f) {
    if constexpr (all_num<D>) if (g_pre) switch (k) {
    case B_PLUS: f(grb::PlusMonoid<D>()); return true; case B_TIMES: f(grb::TimesMonoid<D>()); return true;
    case B_MIN: f(grb::MinMonoid<D>()); return true; case B_MAX: f(grb::MaxMonoid<D>()); return true;
    default: if constexpr (std::is_same_v<D, bool>) switch (k) {
        case B_OR: f(grb::LogicalOrMonoid<D>()); return true; case B_AND: f(grb::LogicalAndMonoid<D>()); return true;
        case B_NE: f(grb::LogicalXorMonoid<D>()); return true; case B_EQ: f(grb::LogicalXnorMonoid<D>()); return true; }
    }
    return false;
}
template <class D> D fin(D x) { if constexpr (std::is_floating_point_v<D>) { if (std::isinf(x)) return x > 0 ? std::numeric_limits<D>::max() : std::numeric_limits<D>::lowest(); } return x; }
template <class D1, class D2, class D3, class F> bool with_semiring(int ak, int mk, F &&f) {
    if constexpr (all_num<D1, D2, D3>) if (g_pre) switch (ak * 16 + mk) {
#define PRE_SR(a, m, n) case (a) * 16 + (m): f(grb::n<D1, D2, D3>()); return true;
    PRE_SR(B_PLUS, B_TIMES, ArithmeticSemiring) PRE_SR(B_MIN, B_PLUS, MinPlusSemiring) PRE_SR(B_MAX, B_PLUS, MaxPlusSemiring) PRE_SR(B_MIN, B_TIMES, MinTimesSemiring)
    PRE_SR(B_MAX, B_TIMES, MaxTimesSemiring) PRE_SR(B_MIN, B_MAX, MinMaxSemiring) PRE_SR(B_MAX, B_MIN, MaxMinSemiring) PRE_SR(B_PLUS, B_MIN, PlusMinSemiring)
    PRE_SR(B_MIN, B_FIRST, MinFirstSemiring) PRE_SR(B_MIN, B_SECOND, MinSecondSemiring) PRE_SR(B_MAX, B_FIRST, MaxFirstSemiring) PRE_SR(B_MAX, B_SECOND, MaxSecondSemiring)
    default: if constexpr (std::is_same_v<D3, bool>) switch (ak * 16 + mk) {
        PRE_SR(B_OR, B_AND, LogicalSemiring) PRE_SR(B_AND, B_OR, AndOrSemiring) PRE_SR(B_NE, B_AND, XorAndSemiring) PRE_SR(B_EQ, B_OR, XnorOrSemiring) }
#undef PRE_SR
    }
    return false;
}
template <class D1, class D2, class D3> struct DynBin {
    using first_argument_type = D1; using second_argument_type = D2; using result_type = D3;
    int kind = B_SECOND;
    __attribute__((noinline)) D3 operator()(D1 const &a, D2 const &b) const { CallScope c; return bin_call<D3>(kind, a, b); }
};
template <class D1, class D3> struct DynUn {
    using argument_type = D1; using result_type = D3;
    int kind = 0;
    static D3 ev(int k, D1 const &a) {
        if constexpr (std::is_floating_point_v<D1> || std::is_floating_point_v<D3>) {
            double x = toD(a); return (D3)(k == 0 ? x : k == 1 ? -x : k == 2 ? x * 2 + 1 : k == 3 ? (x == 0) : (x < 0 ? -x : x));
        } else { int64_t x = toI(a); return fromI<D3>(k == 0 ? x : k == 1 ? -x : k == 2 ? x * 2 + 1 : k == 3 ? (x == 0) : (x < 0 ? -x : x)); }
    }
    __attribute__((noinline)) D3 operator()(D1 const &a) const {
        CallScope c;
        if constexpr (all_num<D1, D3>) if (g_pre) switch (kind) {
        case 0: return grb::Identity<D1, D3>()(a); case 1: return grb::AdditiveInverse<D1, D3>()(a); case 3: return grb::LogicalNot<D1, D3>()(a); case 4: return grb::Abs<D1, D3>()(a); }
        return ev(kind, a);
    }
};
template <class D> D monoid_id(int k) {
    if constexpr (std::is_same_v<D, bool>) return k == B_TIMES || k == B_MIN || k == B_AND;
    else if constexpr (std::is_same_v<D, Sx>) return Sx(k == B_TIMES ? 1 : k == B_MIN ? INT64_MAX : k == B_MAX ? INT64_MIN : 0);
    else return k == B_TIMES ? (D)1 : k == B_MIN ? std::numeric_limits<D>::max() : k == B_MAX ? std::numeric_limits<D>::lowest() : (D)0;
}
template <class D> struct DynMonoid {
    using ScalarType = D; using result_type = D; using first_argument_type = D; using second_argument_type = D;
    int kind = B_PLUS;
    D identity() const { HarnessScope c; D z{}; if (with_monoid<D>(kind, [&](auto const &m) { z = fin<D>(m.identity()); })) return z; return monoid_id<D>(kind); }
    __attribute__((noinline)) D operator()(D const &a, D const &b) const { CallScope c; D z{}; if (with_monoid<D>(kind, [&](auto const &m) { z = m(a, b); })) return z; return bin_call<D>(kind, a, b); }
};
template <class D1, class D2, class D3> struct DynSR {
    using first_argument_type = D1; using second_argument_type = D2; using result_type = D3; using ScalarType = D3;
    int addk = B_PLUS, mulk = B_TIMES;
    __attribute__((noinline)) D3 add(D3 const &a, D3 const &b) const {
        CallScope c; D3 z{};
        if (with_semiring<D1, D2, D3>(addk, mulk, [&](auto const &sr) { z = sr.add(a, b); })) return z;
        if (with_monoid<D3>(addk, [&](auto const &m) { z = m(a, b); })) return z;
        return bin_eval<D3>(addk, a, b);
    }
    __attribute__((noinline)) D3 mult(D1 const &a, D2 const &b) const {
        CallScope c; D3 z{};
        if (with_semiring<D1, D2, D3>(addk, mulk, [&](auto const &sr) { z = sr.mult(a, b); })) return z;
        return bin_call<D3>(mulk, a, b);
    }
    D3 zero() const { HarnessScope c; return monoid_id<D3>(addk); }
};
template <class D> void pre_pair(Rng &r, int &ak, int &mk) {   // prefer a predefined semiring
    static const int t[][2] = {{B_PLUS, B_TIMES}, {B_MIN, B_PLUS}, {B_MAX, B_PLUS}, {B_MIN, B_TIMES}, {B_MAX, B_TIMES}, {B_MIN, B_MAX}, {B_MAX, B_MIN}, {B_PLUS, B_MIN}, {B_MIN, B_FIRST}, {B_MIN, B_SECOND}, {B_MAX, B_FIRST}, {B_MAX, B_SECOND},
        {B_OR, B_AND}, {B_AND, B_OR}, {B_NE, B_AND}, {B_EQ, B_OR}};
    if (!g_pre || r.chance(20)) return;
    size_t q = std::is_same_v<D, bool> ? r.below(16) : r.below(12); ak = t[q][0]; mk = t[q][1];
}
template <class D> int rnd_addk(Rng &r) {
    if (std::is_same_v<D, bool>) { int t[] = {B_OR, B_AND, B_NE, B_PLUS}; return t[r.below(4)]; }
    int t[] = {B_PLUS, B_PLUS, B_MIN, B_MAX, B_PLUS}; return t[r.below(5)];
}
inline int rnd_mulk(Rng &r) { int t[] = {B_TIMES, B_TIMES, B_HASH, B_HASH, B_MINUS, B_FIRST, B_SECOND, B_PLUS, B_MIN, B_AND}; return t[r.below(10)]; }
inline int rnd_bink(Rng &r) { int t[] = {B_PLUS, B_TIMES, B_MIN, B_MAX, B_FIRST, B_SECOND, B_MINUS, B_HASH, B_NE, B_HASH, B_MINUS}; return t[r.below(11)]; }
inline int rnd_acck(Rng &r) { int t[] = {B_PLUS, B_SECOND, B_MINUS, B_FIRST, B_MIN, B_HASH, B_TIMES, B_HASH}; return t[r.below(8)]; }

// ---------------------------------------------------------------- dense model
template <class T> struct Cell { bool has = false; T v{}; };
template <class T> struct DM {       // also used for vectors with c == 1
    size_t r = 0, c = 0; vector<Cell<T>> d;
    DM() {} DM(size_t r_, size_t c_) : r(r_), c(c_), d(r_ * c_) {}
    Cell<T> &at(size_t i, size_t j) { return d[i * c + j]; }
    Cell<T> const &at(size_t i, size_t j) const { return d[i * c + j]; }
    void set(size_t i, size_t j, T const &v) { auto &x = at(i, j); x.has = true; x.v = v; }
    size_t nvals() const { size_t n = 0; for (auto &x : d) n += x.has; return n; }
    bool operator==(DM const &o) const { if (r != o.r || c != o.c) return false; for (size_t i = 0; i < d.size(); ++i) if (d[i].has != o.d[i].has || (d[i].has && !(d[i].v == o.d[i].v))) return false; return true; }
};
template <class T> string show(DM<T> const &m) {
    std::ostringstream o; o << m.r << "x" << m.c << "{"; int n = 0;
    for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (m.at(i, j).has) { if (++n > 40) { o << "..."; i = m.r; break; } o << " (" << i; if (m.c != 1) o << "," << j; o << ")=" << str(m.at(i, j).v); }
    o << " }"; return o.str();
}
template <class T> string diff(DM<T> const &exp, DM<T> const &got) {
    if (exp.r != got.r || exp.c != got.c) return "dimensions " + std::to_string(got.r) + "x" + std::to_string(got.c) + " instead of " + std::to_string(exp.r) + "x" + std::to_string(exp.c);
    for (size_t i = 0; i < exp.r; ++i) for (size_t j = 0; j < exp.c; ++j) {
        auto &a = exp.at(i, j); auto &b = got.at(i, j);
        if (a.has != b.has || (a.has && !(a.v == b.v))) return "at (" + std::to_string(i) + "," + std::to_string(j) + "): " + (b.has ? str(b.v) : "nothing") + " instead of " + (a.has ? str(a.v) : "nothing");
    }
    return "";
}
template <class T> DM<T> transposed(DM<T> const &a) { DM<T> t(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) if (a.at(i, j).has) t.set(j, i, a.at(i, j).v); return t; }
template <class T> uint64_t hval(T const &x) { if constexpr (std::is_floating_point_v<T>) { double d = x; uint64_t u; memcpy(&u, &d, 8); return u; } else return (uint64_t)toI(x); }
template <class T> uint64_t hmodel(DM<T> const &m) { uint64_t h = mix(m.r, m.c); for (size_t i = 0; i < m.d.size(); ++i) if (m.d[i].has) h = mix(h, mix(i, hval(m.d[i].v))); return h; }

template <class T> bool truth(T const &x) { return (bool)x; }
template <> inline bool truth<Sx>(Sx const &x) { return x.v != 0; }
// effective mask: kinds 0 none, 1 value, 2 complement, 3 structure, 4 structural complement
template <class M> bool mask_at(int kind, DM<M> const *m, size_t i, size_t j) {
    if (kind == 0) return true;
    auto &x = m->at(i, j);
    switch (kind) { case 1: return x.has && truth(x.v); case 2: return !(x.has && truth(x.v)); case 3: return x.has; default: return !x.has; }
}
template <class C, class S> C cast(S const &s) { if constexpr (std::is_same_v<C, S>) return s; else return static_cast<C>(s); }
// GraphBLAS write-back: C<M, replace> = C accum T
template <class C, class T, class M>
DM<C> write_back(DM<C> const &c, DM<T> const &t, int mk, DM<M> const *m, int acc /* -1 none */, bool replace) {
    DM<C> o(c.r, c.c);
    for (size_t i = 0; i < c.r; ++i) for (size_t j = 0; j < c.c; ++j) {
        auto &x = c.at(i, j); auto &y = t.at(i, j);
        if (mask_at(mk, m, i, j)) {
            if (acc < 0) { if (y.has) o.set(i, j, cast<C>(y.v)); }
            else if (x.has && y.has) o.set(i, j, bin_eval<C>(acc, x.v, y.v));
            else if (x.has) o.set(i, j, x.v);
            else if (y.has) o.set(i, j, cast<C>(y.v));
        } else if (!replace && x.has) o.set(i, j, x.v);
    }
    return o;
}

// ---------------------------------------------------------------- slots
struct SlotBase {
    string name; bool is_vec = false;
    virtual ~SlotBase() {}
    virtual size_t nr() const = 0; virtual size_t nc() const = 0;
    virtual string verify(bool full) = 0;          // library object against model, through the public API
    virtual string read_into_exp() = 0;            // reads the object; returns an inconsistency or ""
    virtual void adopt() = 0;                      // model := exp
    virtual void push() = 0; virtual void pop() = 0; virtual void dup_push() = 0; virtual void drop() = 0;   // model save stack
    virtual void rebuild() = 0;                    // fresh library object from the model
    virtual SlotBase *clone() const = 0;           // fresh slot holding the same model
    virtual bool same_content(SlotBase *o) = 0;    // exp of both equal (after read_into_exp)
    virtual string show_model() const = 0; virtual string show_exp() const = 0;
    virtual uint64_t hash() const = 0;
    virtual bool big() const { return false; }     // holds values too large to keep exact
    virtual bool exp_differs(string &) const = 0;
    virtual void set_exp_from_model() = 0;
    virtual void const *expptr() const = 0;
    virtual void make_empty() = 0;
};

template <class T> struct MSlot : SlotBase {
    std::shared_ptr<void> hv[4];   // views of lib held by the caller across calls
    grb::Matrix<T> *lib = nullptr; DM<T> m, exp; vector<DM<T>> st; uint64_t bs;   // bs: how the object is brought into being
    MSlot(DM<T> const &mm, string nm, uint64_t b) : m(mm), bs(b) { name = nm; build_lib(); }
    ~MSlot() { destroy(); }
    void destroy() { for (auto &h : hv) h.reset(); if (lib) { LibScope l; delete lib; lib = nullptr; } }
    void build_lib() {
        Rng r(bs = mix64(bs));
        vector<std::array<size_t, 2>> pos; for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (m.at(i, j).has) pos.push_back({i, j});
        int how = (int)r.below(4);
        for (size_t i = pos.size(); i > 1; --i) std::swap(pos[i - 1], pos[r.below(i)]);
        if (how == 3 && pos.size() == m.r * m.c && m.r > 0) {       // dense constructor
            vector<vector<T>> v(m.r, vector<T>(m.c)); for (auto &p : pos) v[p[0]][p[1]] = m.at(p[0], p[1]).v;
            LibScope l; lib = new grb::Matrix<T>(v); return;
        }
        { LibScope l; lib = new grb::Matrix<T>(m.r, m.c); }
        if (how == 0 && pos.size() < 4000) {
            if (r.coin()) { int k = (int)r.range(1, 4); for (int q = 0; q < k; ++q) { size_t i = r.below(m.r), j = r.below(m.c); T v = rnd<T>(r, 0); { LibScope l; lib->setElement(i, j, v); } if (!m.at(i, j).has) { LibScope l; lib->removeElement(i, j); } } }
            for (auto &p : pos) { LibScope l; lib->setElement(p[0], p[1], m.at(p[0], p[1]).v); }
            if (r.chance(20) && !pos.empty()) { auto p = pos[r.below(pos.size())]; LibScope l; lib->removeElement(p[0], p[1]); lib->setElement(p[0], p[1], m.at(p[0], p[1]).v); }
        } else {
            if (r.chance(25)) { size_t i = r.below(m.r), j = r.below(m.c); T v = rnd<T>(r, 0); LibScope l; lib->setElement(i, j, v); lib->clear(); }
            vector<IndexType> I, J; vector<T> V; for (auto &p : pos) { I.push_back(p[0]); J.push_back(p[1]); V.push_back(m.at(p[0], p[1]).v); }
            LibScope l; lib->build(I.begin(), J.begin(), V.begin(), I.size());
        }
    }
    size_t nr() const override { return m.r; } size_t nc() const override { return m.c; }
    string read(DM<T> &o, bool full) {
        size_t R, C, N; { LibScope l; R = lib->nrows(); C = lib->ncols(); N = lib->nvals(); }
        o = DM<T>();
        if (R > 100000 || C > 100000 || R * C > 4000000) return "reports absurd dimensions " + std::to_string(R) + "x" + std::to_string(C);
        if (N > R * C) return "reports " + std::to_string(N) + " stored values in a " + std::to_string(R) + "x" + std::to_string(C) + " matrix";
        o = DM<T>(R, C);
        IndexType *I = (IndexType *)lib_alloc(8 * N), *J = (IndexType *)lib_alloc(8 * N); T *V;
        { LibScope l; V = new T[N]; }
        for (size_t k = 0; k < N; ++k) I[k] = J[k] = ~0ull;
        string err;
        { LibScope l; lib->extractTuples(I, J, V); }
        for (size_t k = 0; k < N && err.empty(); ++k) {
            if (I[k] == ~0ull) { err = "stored-value count " + std::to_string(N) + " but only " + std::to_string(k) + " tuples"; break; }
            if (I[k] >= R || J[k] >= C) { err = "tuple at (" + std::to_string(I[k]) + "," + std::to_string(J[k]) + ") outside " + std::to_string(R) + "x" + std::to_string(C); break; }
            if (o.at(I[k], J[k]).has) { err = "two tuples at (" + std::to_string(I[k]) + "," + std::to_string(J[k]) + ")"; break; }
            o.set(I[k], J[k], V[k]);
        }
        { LibScope l; delete[] V; ::operator delete(I); ::operator delete(J); }
        if (!err.empty()) return err;
        size_t step = full || R * C <= 64 ? 1 : R * C / 24 + 1;
        for (size_t x = 0; x < R * C; x += step) {
            size_t i = x / C, j = x % C; bool h; { LibScope l; h = lib->hasElement(i, j); }
            if (h != o.at(i, j).has) return "membership at (" + std::to_string(i) + "," + std::to_string(j) + ") disagrees with the tuples";
            if (h) { bool same; { LibScope l; T v(lib->extractElement(i, j)); HarnessScope hs; same = v == o.at(i, j).v; } if (!same) return "element read at (" + std::to_string(i) + "," + std::to_string(j) + ") disagrees with the tuples"; }
        }
        return "";
    }
    string verify(bool full) override { DM<T> o; string e = read(o, full); return e.empty() ? diff(m, o) : e; }
    string read_into_exp() override { return read(exp, true); }
    void adopt() override { m = exp; }
    void push() override { st.push_back(m); } void pop() override { m = st.back(); st.pop_back(); } void dup_push() override { m = st.back(); } void drop() override { st.pop_back(); }
    void rebuild() override { destroy(); build_lib(); }
    SlotBase *clone() const override { return new MSlot(m, name + "'", mix(bs, 1)); }
    bool same_content(SlotBase *o) override { return exp == ((MSlot *)o)->exp; }
    string show_model() const override { return show(m); } string show_exp() const override { return show(exp); }
    uint64_t hash() const override { return hmodel(m); }
    bool big() const override { if constexpr (std::is_same_v<T, bool>) return false; else if (g_wide) { if constexpr (std::is_floating_point_v<T>) { for (auto &x : m.d) if (x.has && !(toD(x.v) < 1e7 && toD(x.v) > -1e7)) return true; } return false; } else { for (auto &x : m.d) if (x.has && (toD(x.v) > 100 || toD(x.v) < -100 || (std::is_floating_point_v<T> && toD(x.v) * 16 != std::floor(toD(x.v) * 16)))) return true; return false; } }
    bool exp_differs(string &s) const override { s = diff(m, exp); return !s.empty(); }
    void set_exp_from_model() override { exp = m; }
    void const *expptr() const override { return &exp; }
    void make_empty() override { m = DM<T>(m.r, m.c); rebuild(); }
};
template <class T> struct VSlot : SlotBase {
    std::shared_ptr<void> hv[4];   // views of lib held by the caller across calls
    grb::Vector<T> *lib = nullptr; DM<T> m, exp; vector<DM<T>> st; uint64_t bs;   // bs: how the object is brought into being
    VSlot(DM<T> const &mm, string nm, uint64_t b) : m(mm), bs(b) { is_vec = true; name = nm; build_lib(); }
    ~VSlot() { destroy(); }
    void destroy() { for (auto &h : hv) h.reset(); if (lib) { LibScope l; delete lib; lib = nullptr; } }
    void build_lib() {
        Rng r(bs = mix64(bs));
        vector<size_t> pos; for (size_t i = 0; i < m.r; ++i) if (m.at(i, 0).has) pos.push_back(i);
        for (size_t i = pos.size(); i > 1; --i) std::swap(pos[i - 1], pos[r.below(i)]);
        int how = (int)r.below(4);
        if (how == 3 && pos.size() == m.r) { vector<T> v(m.r); for (auto p : pos) v[p] = m.at(p, 0).v; LibScope l; lib = new grb::Vector<T>(v); return; }
        { LibScope l; lib = new grb::Vector<T>(m.r); }
        if (how == 0) {
            if (r.coin()) { int k = (int)r.range(1, 4); for (int q = 0; q < k; ++q) { size_t i = r.below(m.r); T v = rnd<T>(r, 0); { LibScope l; lib->setElement(i, v); } if (!m.at(i, 0).has) { LibScope l; lib->removeElement(i); } } }
            for (auto p : pos) { LibScope l; lib->setElement(p, m.at(p, 0).v); }
        } else {
            if (r.chance(40)) { for (size_t i = 0; i < m.r; ++i) { T v = rnd<T>(r, 0); LibScope l; lib->setElement(i, v); } LibScope l; lib->clear(); }
            if (how == 1) for (auto p : pos) { LibScope l; lib->setElement(p, m.at(p, 0).v); }
            else { vector<IndexType> I; vector<T> V; for (auto p : pos) { I.push_back(p); V.push_back(m.at(p, 0).v); } LibScope l; lib->build(I.begin(), V.begin(), I.size()); }
        }
    }
    size_t nr() const override { return m.r; } size_t nc() const override { return 1; }
    string read(DM<T> &o, bool full) {
        size_t R, N; { LibScope l; R = lib->size(); N = lib->nvals(); }
        o = DM<T>();
        if (R > 4000000) return "reports absurd size " + std::to_string(R);
        if (N > R) return "reports " + std::to_string(N) + " stored values in a vector of size " + std::to_string(R);
        o = DM<T>(R, 1);
        IndexType *I = (IndexType *)lib_alloc(8 * N); T *V;
        { LibScope l; V = new T[N]; }
        for (size_t k = 0; k < N; ++k) I[k] = ~0ull;
        string err;
        { LibScope l; lib->extractTuples(I, V); }
        for (size_t k = 0; k < N && err.empty(); ++k) {
            if (I[k] == ~0ull) { err = "stored-value count " + std::to_string(N) + " but only " + std::to_string(k) + " tuples"; break; }
            if (I[k] >= R) { err = "tuple at " + std::to_string(I[k]) + " outside size " + std::to_string(R); break; }
            if (o.at(I[k], 0).has) { err = "two tuples at " + std::to_string(I[k]); break; }
            o.set(I[k], 0, V[k]);
        }
        { LibScope l; delete[] V; ::operator delete(I); }
        if (!err.empty()) return err;
        size_t step = full || R <= 64 ? 1 : R / 24 + 1;
        for (size_t i = 0; i < R; i += step) {
            bool h; { LibScope l; h = lib->hasElement(i); }
            if (h != o.at(i, 0).has) return "membership at " + std::to_string(i) + " disagrees with the tuples";
            if (h) { bool same; { LibScope l; T v(lib->extractElement(i)); HarnessScope hs; same = v == o.at(i, 0).v; } if (!same) return "element read at " + std::to_string(i) + " disagrees with the tuples"; }
        }
        return "";
    }
    string verify(bool full) override { DM<T> o; string e = read(o, full); return e.empty() ? diff(m, o) : e; }
    string read_into_exp() override { return read(exp, true); }
    void adopt() override { m = exp; }
    void push() override { st.push_back(m); } void pop() override { m = st.back(); st.pop_back(); } void dup_push() override { m = st.back(); } void drop() override { st.pop_back(); }
    void rebuild() override { destroy(); build_lib(); }
    SlotBase *clone() const override { return new VSlot(m, name + "'", mix(bs, 1)); }
    bool same_content(SlotBase *o) override { return exp == ((VSlot *)o)->exp; }
    string show_model() const override { return show(m); } string show_exp() const override { return show(exp); }
    uint64_t hash() const override { return hmodel(m); }
    bool big() const override { if constexpr (std::is_same_v<T, bool>) return false; else if (g_wide) { if constexpr (std::is_floating_point_v<T>) { for (auto &x : m.d) if (x.has && !(toD(x.v) < 1e7 && toD(x.v) > -1e7)) return true; } return false; } else { for (auto &x : m.d) if (x.has && (toD(x.v) > 100 || toD(x.v) < -100 || (std::is_floating_point_v<T> && toD(x.v) * 16 != std::floor(toD(x.v) * 16)))) return true; return false; } }
    bool exp_differs(string &s) const override { s = diff(m, exp); return !s.empty(); }
    void set_exp_from_model() override { exp = m; }
    void const *expptr() const override { return &exp; }
    void make_empty() override { m = DM<T>(m.r, 1); rebuild(); }
};
// a caller's scalar (reduce output): 1x1, always present
template <class T> struct SSlot : SlotBase {
    T val; DM<T> m, exp; vector<DM<T>> st;
    SSlot(T v, string nm) : val(v), m(1, 1) { m.set(0, 0, v); name = nm; }
    size_t nr() const override { return 1; } size_t nc() const override { return 1; }
    string verify(bool) override { DM<T> o(1, 1); o.set(0, 0, val); return diff(m, o); }
    string read_into_exp() override { exp = DM<T>(1, 1); exp.set(0, 0, val); return ""; }
    void adopt() override { m = exp; }
    void push() override { st.push_back(m); } void pop() override { m = st.back(); st.pop_back(); } void dup_push() override { m = st.back(); } void drop() override { st.pop_back(); }
    void rebuild() override { val = m.at(0, 0).v; }
    SlotBase *clone() const override { return new SSlot(m.at(0, 0).v, name + "'"); }
    bool same_content(SlotBase *o) override { return exp == ((SSlot *)o)->exp; }
    string show_model() const override { return str(m.at(0, 0).v); } string show_exp() const override { return str(exp.at(0, 0).v); }
    uint64_t hash() const override { return hmodel(m); }
    bool exp_differs(string &s) const override { s = diff(m, exp); return !s.empty(); }
    void set_exp_from_model() override { exp = m; }
    void const *expptr() const override { return &exp; }
    void make_empty() override {  }
};

// ---------------------------------------------------------------- exceptions as observed
enum { X_NONE = 0, X_DIM = 1, X_INDEX = 2, X_OOB = 4, X_NOVAL = 8, X_INVAL = 16, X_ALLOC = 32, X_USER = 64, X_OTHERSTD = 128, X_OTHER = 256 };
inline string xname(int k) { string s; const char *n[] = {"DimensionException", "InvalidIndexException", "IndexOutOfBoundsException", "NoValueException", "InvalidValueException", "bad_alloc", "caller's exception", "another std::exception", "an unknown exception"};
    if (!k) return "none"; for (int i = 0; i < 9; ++i) if (k & (1 << i)) s += (s.empty() ? "" : " or ") + string(n[i]); return s; }
struct Outcome { int kind = X_NONE; UserFault uf{0, 0}; bool fired = false; string what; string bad_what; };
inline const char *xkindname(int k) { switch (k) { case X_DIM: return "DimensionException"; case X_INDEX: return "InvalidIndexException"; case X_OOB: return "IndexOutOfBoundsException"; case X_NOVAL: return "NoValueException"; case X_INVAL: return "InvalidValueException"; } return ""; }
inline void check_what(std::exception const &e, Outcome &o, int kind) {
    // an independent use of the heap between throw and read; then the text must still be there
    const char *w; { LibScope l; w = e.what(); }
    if (!w) { o.bad_what = "what() returned a null pointer"; return; }
    { LibScope l; char *p = new char[48]; memset(p, 'x', 47); char *q = new char[96]; memset(q, 'y', 95); delete[] p; delete[] q; }
    string text; bool ok = true;
    { LibScope l; for (int i = 0; i < 400; ++i) { char ch = *(const volatile char *)(w + i); if (!ch) break; { HarnessScope h; text += ch; } if (i == 399) ok = false; } }
    o.what = text;
    if (!ok) o.bad_what = "message does not end";
    for (char ch : text) if ((unsigned char)ch < 9 || (unsigned char)ch > 126) { o.bad_what = "message is not readable text"; return; }
    if (text.empty()) o.bad_what = "message is empty";
    else if (text.find(xkindname(kind)) == string::npos) o.bad_what = "message \"" + text.substr(0, 60) + "\" does not name " + xkindname(kind);
}
template <class F> Outcome call(int client, int opid, FaultPlan f, bool count, bool inspect, F &&fn) {
    Outcome o;
    op_begin(client, opid, f, count);
    { LibScope l;
        try { fn(); }
        catch (grb::DimensionException &e) { HarnessScope h; o.kind = X_DIM; if (inspect) check_what(e, o, X_DIM); }
        catch (grb::InvalidIndexException &e) { HarnessScope h; o.kind = X_INDEX; if (inspect) check_what(e, o, X_INDEX); }
        catch (grb::IndexOutOfBoundsException &e) { HarnessScope h; o.kind = X_OOB; if (inspect) check_what(e, o, X_OOB); }
        catch (grb::NoValueException &e) { HarnessScope h; o.kind = X_NOVAL; if (inspect) check_what(e, o, X_NOVAL); }
        catch (grb::InvalidValueException &e) { HarnessScope h; o.kind = X_INVAL; if (inspect) check_what(e, o, X_INVAL); }
        catch (std::bad_alloc &) { HarnessScope h; o.kind = X_ALLOC; }
        catch (UserFault &u) { HarnessScope h; o.kind = X_USER; o.uf = u; }
        catch (std::exception &) { HarnessScope h; o.kind = X_OTHERSTD; }
        catch (...) { HarnessScope h; o.kind = X_OTHER; }
    }
    o.fired = op_fired();
    op_end();
    trace(o.kind);
    return o;
}

// ---------------------------------------------------------------- calls
enum { NS = 5 };
struct Op {
    string desc; const char *kind = "";
    SlotBase *s[NS] = {nullptr, nullptr, nullptr, nullptr, nullptr};   // s[0] is the output (or null)
    std::function<void(SlotBase **)> model;          // sets s[0]->exp (expected contents)
    std::function<void(SlotBase **)> exec;           // the library call
    std::function<string()> post;                    // extra check after a successful call
    std::function<string()> digest;                  // for calls that return values: what the last execution returned
    std::function<void()> pre;                       // re-arm harness-side outputs before each execution
    int expect = 0;                                  // rejection expected: set of acceptable exception kinds
    uint64_t sig = 0;
    bool out_may_resize = false, no_fault = false, retry_ok = true;
    bool strong = false;                             // a failure must leave the output as it was
    bool prints = false; int stream_kinds = 0;       // printing: how a failing stream may reach the caller (none: its state only)
};

struct Mode {
    bool faults = false, sweep = false, conc = false, alias = false, reject = false, lifo = false, leak = false;
    bool results = true;         // wrong results are violations (else: adopted silently)
    bool diffsolo = false;       // wrong results count only if a solo call on copies differs
    bool unalias = false;        // ... where the copies are also un-aliased
    bool inspect = false;        // check exception texts
    bool wellformed = true;      // torn outputs after faults are violations
    bool repeat = false;         // repeat calls later (history independence)
    bool view = false;           // wrong results count only if the same call with explicit objects instead of views differs
    bool frame = false;          // wrong results count only against the write-back rules applied to the library's own unmasked result
    int fault_pct = 50;
};
inline Mode g_mode;
inline bool g_plain = false;             // dispatchers drop mask and accumulator (frame mode)
inline void const *g_T = nullptr;        // library's own unmasked result, used by models instead of theirs (frame mode)
inline bool g_T_used = false;
inline bool g_mat = false;               // dispatchers replace every view by an explicit object with the same meaning (views mode)
struct Repeatable { Op op; vector<SlotBase *> clones; std::array<int, NS> map; SlotBase *result; int at; string digest; };

struct Client {
    int id = 0; Rng r{1};
    vector<SlotBase *> own;              // everything this caller owns
    vector<SlotBase *> *shared = nullptr;
    vector<Repeatable> kept;             // earlier calls to be repeated (history independence)
};

inline string describe(Op const &op, SlotBase **s) {
    string d = op.desc; const char *role[] = {"out", "mask", "a", "b", "x"};
    for (int i = 0; i < NS; ++i) if (s[i]) d += "\n    " + string(role[i]) + " " + s[i]->name + " = " + s[i]->show_model().substr(0, 700);
    return d;
}
inline void uniq(SlotBase *const *s, vector<SlotBase *> &u) { for (int i = 0; i < NS; ++i) if (s[i] && std::find(u.begin(), u.end(), s[i]) == u.end()) u.push_back(s[i]); }

template <class R> string digest_of(R const &v) { if constexpr (std::is_floating_point_v<R>) { char b[40]; snprintf(b, sizeof b, "%a", (double)v); return b; } else return std::to_string((int64_t)v); }
template <class A, class B> string digest_of(std::pair<A, B> const &p) { return digest_of(p.first) + "-" + digest_of(p.second); }
template <class R> string digest_of(vector<R> const &v) { string s = "{"; for (auto const &x : v) s += " " + digest_of(x); return s + " }"; }

// what a fresh, unshared, undisturbed execution of the same call gives; true if equal to s[0]->exp as just read
inline bool solo_agrees(Client &c, Op &op, vector<std::pair<SlotBase *, SlotBase *>> const &pre /*orig -> clone of pre-state*/, int opid) {
    SlotBase *s2[NS] = {nullptr}; vector<SlotBase *> extra;
    for (int i = 0; i < NS; ++i) if (op.s[i]) {
        SlotBase *cl = nullptr; for (auto &p : pre) if (p.first == op.s[i]) cl = p.second;
        if (i > 0 && g_mode.unalias && cl) { bool used = false; for (int k = 0; k < i; ++k) if (s2[k] == cl) used = true; if (used) { cl = cl->clone(); extra.push_back(cl); } }
        s2[i] = cl;
    }
    if (op.pre) op.pre();
    Outcome o = call(c.id, opid, FaultPlan(), false, false, [&] { op.exec(s2); });
    bool same = false;
    if (o.kind == X_NONE && s2[0]) { string e = s2[0]->read_into_exp(); same = e.empty() && s2[0]->same_content(op.s[0]); }
    for (auto x : extra) delete x;
    return same;
}
// The write-back rules alone: the library's own unmasked, unaccumulated result on an empty output,
// pushed through the reference rules, must give what the call gave. True if it does (or if the
// call has no frame to check): then the mismatch is about the computed values, another property.
inline bool frame_agrees(Client &c, Op &op, vector<std::pair<SlotBase *, SlotBase *>> const &pre, int opid) {
    SlotBase *s2[NS] = {nullptr}, *s3[NS] = {nullptr}; vector<SlotBase *> mine;
    for (int i = 0; i < NS; ++i) if (op.s[i]) for (auto &p : pre) if (p.first == op.s[i]) { s2[i] = p.second->clone(); s3[i] = p.second->clone(); mine.push_back(s2[i]); mine.push_back(s3[i]); }
    s2[0]->make_empty();
    if (op.pre) op.pre();
    g_plain = true; Outcome o = call(c.id, opid, FaultPlan(), false, false, [&] { op.exec(s2); }); g_plain = false;
    bool same = false;
    if (o.kind == X_NONE && s2[0]->read_into_exp().empty()) {
        g_T = s2[0]->expptr(); g_T_used = false; op.model(s3); g_T = nullptr;
        same = !g_T_used || s3[0]->same_content(op.s[0]);
    }
    for (auto x : mine) delete x;
    return same;
}
// The same call with every view replaced by an explicit matrix/vector of the same meaning. True if that
// gives the same (then the mismatch is not about views).
inline bool explicit_agrees(Client &c, Op &op, vector<std::pair<SlotBase *, SlotBase *>> const &pre, int opid) {
    SlotBase *s2[NS] = {nullptr}; vector<SlotBase *> mine;
    for (int i = 0; i < NS; ++i) if (op.s[i]) for (auto &p : pre) if (p.first == op.s[i]) { s2[i] = p.second->clone(); mine.push_back(s2[i]); }
    if (op.pre) op.pre();
    g_mat = true; Outcome o = call(c.id, opid, FaultPlan(), false, false, [&] { op.exec(s2); }); g_mat = false;
    bool same = o.kind == X_NONE && s2[0]->read_into_exp().empty() && s2[0]->same_content(op.s[0]);
    for (auto x : mine) delete x;
    return same;
}
inline void keep_call(Client &c, Op &op, vector<std::pair<SlotBase *, SlotBase *>> const &pre, int idx) {
    if (c.kept.size() >= 8) return;
    Repeatable q; q.op = op; q.at = idx; q.map.fill(-1);
    for (auto &p : pre) { for (int i = 0; i < NS; ++i) if (op.s[i] == p.first) q.map[i] = (int)q.clones.size(); q.clones.push_back(p.second->clone()); }
    q.result = op.s[0] ? op.s[0]->clone() : nullptr; if (op.digest) q.digest = op.digest();
    c.kept.push_back(q);
}
inline void drop_kept(Client &c, size_t q) { for (auto x : c.kept[q].clones) delete x; delete c.kept[q].result; c.kept.erase(c.kept.begin() + q); }
inline void repeat_call(Client &c, size_t qi, int idx) {
    Repeatable &q = c.kept[qi];
    if (want_log()) note("caller " + std::to_string(c.id) + ": repeats call #" + std::to_string(q.at) + " on equal operands");
    SlotBase *s2[NS] = {nullptr};
    vector<SlotBase *> f; for (auto x : q.clones) f.push_back(x->clone());      // other objects, other addresses, equal contents
    { LibScope l; int n = (int)c.r.below(4); for (int i = 0; i < n; ++i) { size_t z = 8 + c.r.below(120); char *p = new char[z]; memset(p, 0x11 + i, z); delete[] p; } }
    for (int i = 0; i < NS; ++i) if (q.map[i] >= 0) s2[i] = f[q.map[i]];
    if (q.op.pre) q.op.pre();
    string d = describe(q.op, s2);
    Outcome o = call(c.id, idx * 4 + 3, FaultPlan(), false, false, [&] { q.op.exec(s2); });
    probe("repeated calls"); eval(mix(q.op.sig, mix(3, s2[0] ? s2[0]->hash() : std::hash<string>()(q.digest))));
    string e; if (o.kind != X_NONE) e = "raised " + xname(o.kind); else if (s2[0]) e = s2[0]->read_into_exp();
    if (e.empty() && q.op.digest) { string g = q.op.digest(); if (g != q.digest) e = "returned " + g.substr(0, 700) + " instead of " + q.digest.substr(0, 700); }
    if (!s2[0]) { if (!e.empty()) violation("history-dependent", "the same call on equal operands gave another result when repeated later: " + e + "\n  first (call #" + std::to_string(q.at) + ")\n  in caller " + std::to_string(c.id) + ": " + d); for (auto x : f) delete x; return; }
    q.result->set_exp_from_model();
    if (!e.empty() || !s2[0]->same_content(q.result))
        violation("history-dependent", "the same call on equal operands gave another result when repeated later: " + e + "\n  first (call #" + std::to_string(q.at) + ") " + q.result->show_model().substr(0, 700) + "\n  later " + (o.kind == X_NONE ? s2[0]->show_exp().substr(0, 700) : "") + "\n  in caller " + std::to_string(c.id) + ": " + d);
    for (auto x : f) delete x;
}

// Runs one call of one caller: fault-free execution checked against the model, and - in fault
// modes - executions with a failure at chosen points, each followed by consistency checks.
inline void run_op(Client &c, int idx, Op &op) {
    if (want_log()) note("caller " + std::to_string(c.id) + " call #" + std::to_string(idx) + ": " + describe(op, op.s));
    int id = idx * 4;
    vector<SlotBase *> used; uniq(op.s, used);
    probe(op.kind);
    auto bad = [&](const char *cls, string const &what, string const &pre) { violation(cls, what + "\n  in caller " + std::to_string(c.id) + " call #" + std::to_string(idx) + ": " + pre); };

    if (op.expect) {             // must be rejected, nothing may change
        Outcome o = call(c.id, id, FaultPlan(), true, g_mode.inspect, [&] { op.exec(op.s); });
        eval(mix(op.sig, 77));
        probe("rejections");
        if (!(o.kind & op.expect)) {
            if (g_mode.reject) bad("not-rejected", "invalid call: expected " + xname(op.expect) + ", got " + xname(o.kind), describe(op, op.s));
            for (auto s : used) { string e = s->read_into_exp(); if (!e.empty()) bad("inconsistent", s->name + ": " + e, op.desc); s->adopt(); }
            return;
        }
        if (g_mode.inspect && !o.bad_what.empty()) bad("unreadable-exception", xname(o.kind) + ": " + o.bad_what, describe(op, op.s));
        for (auto s : used) { string e = s->verify(true); if (!e.empty()) bad("rejected-call-modified", s->name + " changed by a rejected call: " + e, describe(op, op.s)); }
        return;
    }

    bool need_pre = (g_mode.diffsolo || g_mode.repeat || g_mode.frame || g_mode.view) && (op.s[0] || (g_mode.repeat && op.digest));
    vector<std::pair<SlotBase *, SlotBase *>> pre;
    if (need_pre) for (auto s : used) pre.push_back({s, s->clone()});
    if (op.s[0]) op.model(op.s);
    string predesc; auto D = [&] { if (predesc.empty()) predesc = describe(op, op.s); return predesc; };
    bool do_fault = g_mode.faults && !op.no_fault && (g_cfg.explicit_faults || c.r.chance(g_mode.fault_pct));
    if (op.s[0]) op.s[0]->push();            // pre-state of the output
    if (op.pre) op.pre();
    Outcome o = call(c.id, id, FaultPlan(), true, false, [&] { op.exec(op.s); });
    uint64_t pts[FK_N]; for (int k = 0; k < FK_N; ++k) pts[k] = op_points(k);
    auto check_success = [&](const char *when) {
        string e;
        if (op.s[0]) {
            // op.s[0]->exp holds the expectation
            SlotBase *out = op.s[0];
            string before = out->show_exp();
            uint64_t sg = op.sig;
            out->pop(); out->push();                         // model = pre-state
            string exps = before;
            // compare: adopt expectation as model, then verify
            out->adopt();
            e = out->verify(false);
            if (!e.empty()) {
                out->pop(); out->push();
                string dd = D();
                if (g_mode.results) {
                    bool foreign = false;
                    if (g_mode.diffsolo) {
                        string r = out->read_into_exp();
                        if (r.empty()) foreign = solo_agrees(c, op, pre, id + 3);
                    }
                    if (g_mode.frame) { string r = out->read_into_exp(); if (r.empty()) foreign = frame_agrees(c, op, pre, id + 3); }
                    if (g_mode.view) { string r = out->read_into_exp(); if (r.empty()) foreign = explicit_agrees(c, op, pre, id + 3); }
                    if (!foreign) bad("wrong-result", string(when) + "output " + out->name + ": " + e + "\n  expected " + exps.substr(0, 700), dd);
                    probe("foreign mismatches");
                }
                string r = out->read_into_exp();
                if (!r.empty()) bad("inconsistent", out->name + ": " + r, dd);
                out->adopt();
            }
            trace(out->hash());
            eval(mix(sg, out->hash()));
        } else eval(op.sig);
        for (auto s : used) if (s != op.s[0]) { string e2 = s->verify(false); if (!e2.empty()) bad("input-modified", string(when) + "input " + s->name + " changed: " + e2, D()); }
        if (op.post) { string e3 = op.post();
            if (!e3.empty() && g_mode.diffsolo && !op.s[0]) { if (op.pre) op.pre(); Outcome q = call(c.id, id + 3, FaultPlan(), false, false, [&] { op.exec(op.s); }); if (q.kind == X_NONE && !op.post().empty()) { e3.clear(); probe("foreign mismatches"); } }
            if (!e3.empty()) { if (g_mode.results) bad("wrong-result", string(when) + e3, D()); } }
    };
    if (o.kind != X_NONE) {
        if (g_mode.results) bad("unexpected-exception", "valid call raised " + xname(o.kind), D());
        if (op.s[0]) { op.s[0]->drop(); string r = op.s[0]->read_into_exp(); if (r.empty()) op.s[0]->adopt(); else op.s[0]->rebuild(); }
        for (auto &p : pre) delete p.second;
        return;
    }
    check_success("");
    bool kept_here = false;      // decided without the caller's stream, so that a replay with an explicit fault list decides alike
    if (g_mode.repeat && (op.digest || (op.s[0] && !op.post)) && op.retry_ok && mix(g_cfg.seed, mix(c.id, idx)) % 100 < 60) { size_t n = c.kept.size(); keep_call(c, op, pre, idx); kept_here = c.kept.size() > n; }
    if (do_fault) {
        // choose failure points
        vector<FaultPlan> plans;
        if (g_cfg.explicit_faults) { for (auto &f : g_cfg.faults) if (f.client == c.id && f.op / 4 == idx) plans.push_back(f.f); }
        else {
            vector<int> kinds; for (int k = 1; k < FK_N; ++k) if (pts[k]) kinds.push_back(k);
            if (!kinds.empty()) {
                if (g_mode.sweep) { for (int k : kinds) { size_t n = pts[k], lim = k == FK_STREAM ? 160 : 48, stp = n <= lim ? 1 : n / lim + 1; for (size_t a = 1 + (stp > 1 ? c.r.below(stp) : 0); a <= n; a += stp) plans.push_back({k, a, 0}); } }
                else { int nf = 1 + (int)c.r.below(2); for (int q = 0; q < nf; ++q) { int k = kinds[c.r.below(kinds.size())];
                        uint64_t a = c.r.chance(35) ? (c.r.coin() ? 1 : pts[k]) : 1 + c.r.below(pts[k]); plans.push_back({k, a, (int)c.r.chance(25)}); } }
            }
        }
        for (size_t pi = 0; pi < plans.size(); ++pi) {
            FaultPlan f = plans[pi];
            if (op.s[0]) { op.s[0]->pop(); op.s[0]->push(); op.s[0]->rebuild(); op.model(op.s); }
            if (op.pre) op.pre();
            predesc.clear(); string dd = D() + "\n    with failing " + fault_names[f.kind] + " number " + std::to_string(f.at) + (f.sticky ? " and all later ones" : "");
            if (want_log()) note("   failing " + string(fault_names[f.kind]) + " #" + std::to_string(f.at));
            Outcome q = call(c.id, id + 1, f, true, false, [&] { op.exec(op.s); });
            if (!q.fired) { if (q.kind != X_NONE) { if (g_mode.results) bad("unexpected-exception", "valid call raised " + xname(q.kind), dd); } else check_success(""); continue; }
            eval(mix(op.sig, mix(f.kind, f.at)));
            if (q.kind == X_NONE) {        // failure absorbed: only allowed if the result is right all the same
                if (g_mode.results || g_mode.wellformed) {
                    string e; if (op.s[0]) { op.s[0]->pop(); op.s[0]->push(); op.s[0]->adopt(); e = op.s[0]->verify(true); } else if (op.post) e = op.post();
                    if (!e.empty()) bad("swallowed-failure", "the failure did not reach the caller and the result is wrong: " + e, dd);
                } else if (op.s[0]) { string r = op.s[0]->read_into_exp(); if (r.empty()) op.s[0]->adopt(); }
                continue;
            }
            bool right = f.kind == FK_STREAM ? (q.kind & op.stream_kinds) != 0 : f.kind == FK_ALLOC ? q.kind == X_ALLOC || (op.prints && (q.kind & op.stream_kinds)) : (q.kind == X_USER && q.uf.kind == f.kind);
            if (!right && g_mode.wellformed) bad("failure-changed", string("a failing ") + fault_names[f.kind] + " reached the caller as " + xname(q.kind), dd);
            if (g_mode.wellformed) {
                for (auto s : used) if (s != op.s[0]) { string e = s->verify(true); if (!e.empty()) bad("operand-changed-by-failure", "operand " + s->name + " changed by a failed call: " + e, dd); }
                for (auto s : c.own) if (s != op.s[0] && c.own.size() <= 24) { string e = s->verify(false); if (!e.empty()) bad("bystander-changed-by-failure", "unrelated object " + s->name + " changed by a failed call: " + e, dd); }
            }
            if (op.s[0]) {
                SlotBase *out = op.s[0]; out->pop(); out->push();      // model = pre-state
                string e = out->read_into_exp();
                if (!e.empty()) {
                    if (g_mode.wellformed) bad("torn-output", "output " + out->name + " is inconsistent after a failed call: " + e, dd);
                    probe("foreign mismatches"); out->rebuild(); continue;
                }
                if (op.strong && g_mode.wellformed) { string v = out->verify(true); if (!v.empty()) bad("partial-update", "output " + out->name + " was changed by a failed single-element update: " + v, dd); }
                bool dims_ok = true; { size_t r0 = out->nr(), c0 = out->nc(); out->adopt(); if (!op.out_may_resize && (out->nr() != r0 || out->nc() != c0)) dims_ok = false; }
                if (!dims_ok && g_mode.wellformed) bad("torn-output", "output " + out->name + " changed its dimensions in a failed call", dd);
            }
            if (kept_here) repeat_call(c, c.kept.size() - 1, idx);      // what the failed call left behind must not show
            // retry: on the torn state (as adopted) or on the original state
            if (op.retry_ok && (pi + 1 == plans.size() || c.r.chance(30))) {
                if (op.s[0]) {
                    op.s[0]->drop();
                    op.s[0]->push();
                    if (need_pre) { for (auto &p : pre) delete p.second; pre.clear(); for (auto s : used) pre.push_back({s, s->clone()}); }
                    op.model(op.s);
                }
                if (op.pre) op.pre();
                predesc.clear(); D();
                Outcome z = call(c.id, id + 2, FaultPlan(), true, false, [&] { op.exec(op.s); });
                if (z.kind != X_NONE) { if (g_mode.results) bad("unexpected-exception", "retry after a failure raised " + xname(z.kind), D()); }
                else check_success("retry after a failure: ");
                probe("retries after failure");
            }
        }
    }
    if (op.s[0]) { op.s[0]->drop(); }
    for (auto &p : pre) delete p.second;
}
} // namespace sim

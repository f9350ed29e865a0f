// C18: printing to streams that fail at any byte.
#include "ops.hpp"
#include <sstream>
#include <streambuf>
namespace sim {
const char *group_name = "print";
void group_params(Rng &r) { for (auto &d : P.dims) d = std::min<size_t>(d, r.chance(80) ? 6 : 14); P.nops = (int)r.range(2, 8); P.maxslots = 6; allow_wide(r); }
bool group_mutate(NamedClient &c, SlotBase *s) { return mutate_any<int64_t, bool, double, Sx>(c, s); }
void group_shared(NamedClient &c) { newM<int64_t>(c, rdim(c), rdim(c)); newV<int64_t>(c, rdim(c)); newM<bool>(c, rdim(c), rdim(c)); newV<Sx>(c, rdim(c)); }

// The caller's stream: an in-memory device that can be full, lose the rest of a write, fail a flush or throw.
struct SimBuf : std::streambuf {
    string text; bool failed = false, full = false; uint64_t seed = 0; size_t pos = 0, flushes = 0;
    // true: this byte is lost
    bool lost() {
        if (full) return true;
        if (!fault_point(FK_STREAM)) return false;
        failed = true; uint64_t k = mix(seed, pos + 1);
        if (k % 8 < 4) full = true;                        // device full from here on; otherwise a transient error
        if (k % 5 < 2) throw UserFault{FK_STREAM, op_points(FK_STREAM)};
        return true;
    }
    int_type overflow(int_type ch) override { HarnessScope h; if (ch == traits_type::eof()) return 0; ++pos; if (lost()) return traits_type::eof(); text += (char)ch; return ch; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { HarnessScope h; for (std::streamsize i = 0; i < n; ++i) { ++pos; if (lost()) return i; text += s[i]; } return n; }
    int sync() override { HarnessScope h; ++flushes; ++pos; return lost() ? -1 : 0; }
};
struct Printed { SimBuf buf; string full; bool good = true; bool excs = false, prefail = false, fmtkept = true; int fmt = 0; };
// the formatting the caller chose for its stream
inline void set_fmt(std::ostream &o, int k) { switch (k) { case 1: o.precision(15); break; case 2: o << std::boolalpha; break; case 3: o << std::fixed; o.precision(2); break; case 4: o << std::scientific; break; case 5: o << std::showpos; } }

template <class F> void print_to(Printed &p, F &&f) {          // runs inside LibScope
    HarnessScope h; SimBuf &b = p.buf; uint64_t sd = b.seed; b.~SimBuf(); new (&b) SimBuf; b.seed = sd; p.good = false;
    std::ostream os(&b); set_fmt(os, p.fmt); auto fl = os.flags(); auto pr = os.precision(); auto fc = os.fill();
    if (p.prefail) os.setstate(std::ios::badbit);
    if (p.excs) { os.exceptions(std::ios::badbit | std::ios::failbit); }
    struct G { Printed &p; std::ostream &o; std::ios::fmtflags fl; std::streamsize pr; char fc; ~G() { p.good = o.good(); p.fmtkept = o.flags() == fl && o.precision() == pr && o.fill() == fc && o.width() == 0; } } g{p, os, fl, pr, fc};
    LibScope l; f(os);
}
template <class T> string cellstr(T const &v, int fmt) { std::ostringstream o; set_fmt(o, fmt); o << v; return o.str(); }
inline vector<string> split(string const &s, char c) { vector<string> v(1); for (char x : s) if (x == c) v.emplace_back(); else v.back() += x; return v; }
inline string trim(string s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
// dimensions, stored-value count and every stored value at its place
template <class T> string check_text(string t, DM<T> const &m, bool vec, int fmt) {
    size_t h = t.find("nvals"); if (h == string::npos) return "the text does not show the stored-value count";
    size_t e = t.find('\n', h); if (e == string::npos) return "the text has no body";
    size_t b = t.rfind('\n', h); b = b == string::npos ? 0 : b + 1;
    string head = t.substr(b, e - b); size_t g = head.rfind('>'); if (g != string::npos) head = head.substr(g + 1);
    vector<string> nums(1); for (char ch : head) if (isdigit((unsigned char)ch)) nums.back() += ch; else if (!nums.back().empty()) nums.emplace_back(); if (nums.back().empty()) nums.pop_back();
    vector<string> want; if (vec) want = {std::to_string(m.r), std::to_string(m.nvals())}; else want = {std::to_string(m.r), std::to_string(m.c), std::to_string(m.nvals())};
    if (nums != want) return "the text does not show the dimensions and the stored-value count: " + head;
    string body = t.substr(e + 1); while (!body.empty() && body.back() == '\n') body.pop_back();
    auto rows = vec ? vector<string>(1, body) : split(body, '\n');
    if (!vec && rows.size() != m.r) return "the text shows " + std::to_string(rows.size()) + " rows instead of " + std::to_string(m.r);
    for (size_t i = 0; i < rows.size(); ++i) {
        size_t a = rows[i].rfind('['), z = rows[i].find(']'); if (a == string::npos || z == string::npos || z < a) return "row " + std::to_string(i) + " is not complete";
        auto cells = split(rows[i].substr(a + 1, z - a - 1), ','); size_t n = vec ? m.r : m.c;
        if (cells.size() != n) return "the text shows " + std::to_string(cells.size()) + " cells instead of " + std::to_string(n);
        for (size_t j = 0; j < n; ++j) { auto const &x = vec ? m.at(j, 0) : m.at(i, j); string w = x.has ? cellstr(x.v, fmt) : vec ? "-" : "", got = trim(cells[j]); if (got != w) return "the text shows \"" + got + "\" instead of \"" + w + "\" at (" + std::to_string(vec ? j : i) + (vec ? "" : "," + std::to_string(j)) + ")"; }
    }
    return "";
}
template <class T, class Slot, class F> void print_step(NamedClient &c, int idx, Slot *s, const char *what, bool content, F show_obj) {
    Op op; op.kind = "print"; op.s[2] = s; op.prints = true; op.retry_ok = true;
    auto p = std::make_shared<Printed>(); p->buf.seed = c.r.next(); p->excs = c.r.chance(35); p->prefail = !p->excs && c.r.chance(5); p->fmt = c.r.chance(50) ? 0 : 1 + (int)c.r.below(5);
    op.stream_kinds = p->excs ? X_USER | X_OTHERSTD : 0;
    op.desc = string("prints ") + what + " of " + s->name + (p->excs ? " to a stream that raises exceptions" : "") + (p->prefail ? " to a stream in failed state" : "");
    op.sig = mix(mix(what[0] * 256 + what[5], s->hash()), p->excs * 2 + p->prefail + 4 * p->fmt);
    op.exec = [=](SlotBase **x) { auto *o = (Slot *)x[2]; print_to(*p, [&](std::ostream &os) { show_obj(os, *o->lib); }); };
    op.post = [=]() -> string {
        if (p->prefail) { if (p->good) return "the failed state of the stream was lost"; return p->buf.text.empty() ? "" : "wrote to a stream in failed state"; }
        if (p->buf.failed) {
            if (p->good) return "the stream failed but reports good() after printing";
            if (p->full.compare(0, p->buf.text.size(), p->buf.text) != 0) return "the part that reached the failing stream is not a prefix of the text: " + p->buf.text;
            return "";
        }
        if (!p->fmtkept) return "printing changed the formatting of the caller's stream";
        if (!p->good) return "printing to a healthy stream left it in a failed state";
        p->full = p->buf.text;
        if (content) { string e = check_text(p->full, s->m, s->is_vec, p->fmt); if (!e.empty()) return e + "\n  text: " + p->full; }
        if (p->full.empty()) return "nothing was printed";
        // an equal object with another history prints the same
        std::unique_ptr<SlotBase> q(s->clone()); Printed o; o.fmt = p->fmt; { LibScope l; print_to(o, [&](std::ostream &os) { show_obj(os, *((Slot *)q.get())->lib); }); }
        if (o.buf.text != p->full) return "two equal objects print differently:\n" + p->full + "\n---\n" + o.buf.text;
        return "";
    };
    run_op(c, idx, op);
}
template <class T> void pm(NamedClient &c, int idx) {
    auto *s = getM<T>(c, rdim(c), rdim(c)); using M = grb::Matrix<T>;
    switch (c.r.below(7)) {
    case 0: print_step<T>(c, idx, s, "the matrix", true, [](std::ostream &o, M const &m) { o << m; }); break;
    case 1: print_step<T>(c, idx, s, "printInfo", true, [](std::ostream &o, M const &m) { m.printInfo(o); }); break;
    case 2: print_step<T>(c, idx, s, "labelled matrix", true, [](std::ostream &o, M const &m) { grb::print_matrix(o, m, "some label"); }); break;
    case 3: print_step<T>(c, idx, s, "the transpose view", true, [](std::ostream &o, M const &m) { o << grb::transpose(m); }); break;
    case 4: print_step<T>(c, idx, s, "the complement view", true, [](std::ostream &o, M const &m) { if (m.nrows() % 2) grb::complement(m).printInfo(o); else o << grb::complement(m); }); break;
    case 5: print_step<T>(c, idx, s, "the structure view", true, [](std::ostream &o, M const &m) { o << grb::structure(m); }); break;
    default: print_step<T>(c, idx, s, "the structural complement view", true, [](std::ostream &o, M const &m) { o << grb::complement(grb::structure(m)); });
    }
}
template <class T> void pv(NamedClient &c, int idx) {
    auto *s = getV<T>(c, rdim(c)); using V = grb::Vector<T>;
    switch (c.r.below(7)) {
    case 0: print_step<T>(c, idx, s, "the vector", true, [](std::ostream &o, V const &m) { o << m; }); break;
    case 1: print_step<T>(c, idx, s, "printInfo", true, [](std::ostream &o, V const &m) { m.printInfo(o); }); break;
    case 2: print_step<T>(c, idx, s, "labelled vector", true, [](std::ostream &o, V const &m) { grb::print_vector(o, m, "some label"); }); break;
    case 3: print_step<T>(c, idx, s, "the complement view", true, [](std::ostream &o, V const &m) { o << grb::complement(m); }); break;
    case 4: print_step<T>(c, idx, s, "the structure view", true, [](std::ostream &o, V const &m) { o << grb::structure(m); }); break;
    case 5: print_step<T>(c, idx, s, "index sequence and mask", false, [](std::ostream &o, V const &m) { o << grb::AllIndices() << grb::NoMask() << m.size(); }); break;
    default: print_step<T>(c, idx, s, "the structural complement view", true, [](std::ostream &o, V const &m) { o << grb::complement(grb::structure(m)); });
    }
}
void group_step(NamedClient &c, int idx) {
    bool m = c.r.coin();
    switch (c.r.below(5)) {
    default: m ? pm<int64_t>(c, idx) : pv<int64_t>(c, idx); break;
    case 1: m ? pm<double>(c, idx) : pv<double>(c, idx); break;
    case 2: m ? pm<bool>(c, idx) : pv<bool>(c, idx); break;
    case 3: m ? pm<Sx>(c, idx) : pv<Sx>(c, idx); break;
    }
}
}

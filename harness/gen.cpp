// Seeded generators: one per property. A generated case is plain text; all
// randomness of an execution (inputs, operations, team sizes, schedule,
// faults, crash point) is drawn here or from the seeds written into the case.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>
#include <errno.h>
#include "adapters/api.hpp"
#include "case.hpp"
#include "model.hpp"
using std::string; using std::vector; using std::to_string;
using sim::Rng;
typedef const ad::VarInfo& VI;

namespace {

struct Style { string sep; bool lead, trail, cm, blank, tail, zeros, exp, wide; int fs; };
struct TextOpt { bool edge = false; uint64_t limit = ~0ull; bool bad_header = true; uint64_t n = ~0ull; double lead = 0; };
struct G {
    Case& c; Rng r; bool big;
    int nobj = 0, nfile = 0;
    G(Case& c, uint64_t s, bool big) : c(c), r(s), big(big) {}

    bool p(double x) { return r.chance(x); }
    template <class T> const T& pick(const vector<T>& v) { return v[r.below(v.size())]; }
    template <class F> VI var(F f) {
        vector<ad::Variant*> v;
        for (auto* x : ad::variants()) if (f(x->vi)) v.push_back(x);
        if (v.empty()) abort();
        return v[r.below(v.size())]->vi;
    }
    VI byname(const string& n) { ad::Variant* v = ad::variant(n); if (!v) { fprintf(stderr, "no variant %s\n", n.c_str()); abort(); } return v->vi; }
    VI coo(bool flagged_ok = false) { return var([&](VI v) { return v.kind == ad::K_COO && (flagged_ok || (!v.sym && !v.ut && !v.sl)); }); }
    VI csr() { return var([&](VI v) { return v.kind == ad::K_CSR; }); }

    uint64_t size() {
        if (big && r.chance(0.03)) return r.loguni(66000, 90000);
        if (big && r.chance(0.3)) return r.loguni(2000, 40000);
        double u = r.unit();
        if (u < 0.12) return r.below(4);
        if (u < 0.55) return 1 + r.below(24);
        if (u < 0.88) return r.loguni(8, 200);
        if (u < 0.985) return r.loguni(100, 1200);
        return r.loguni(1000, 5000);
    }
    int team() {
        // at most 255: GCC divides a loop over 8-bit labels in 8-bit arithmetic
        if (r.chance(0.015)) { static const int many[] = {65, 96, 100, 127, 128, 129, 192, 254, 255}; return many[r.below(9)]; }
        static const int t[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 48, 64};
        return t[r.below(sizeof t / sizeof *t)];
    }
    void cfg(int tm = 0, int levels = 0) {
        Rec& x = c.add("cfg");
        x.set("team", tm ? tm : team());
        if (p(0.2)) x.set("dyn", 1);
        x.set("lev", levels ? levels : (p(0.8) ? 1 : 2));
        if (p(0.6)) x.set("chunk", (uint64_t)r.loguni(1, 64));
        if (p(0.3)) x.set("reuse", 0);
        x.set("fill", r.below(1000));
    }
    void sched(double len = 1) {
        Rec& x = c.add("sched");
        static const int pol[] = {sim::P_RANDOM, sim::P_RANDOM, sim::P_PCT, sim::P_RTB, sim::P_STALL, sim::P_RR, sim::P_SYNC, sim::P_SYNC, sim::P_HOT, sim::P_HOT, sim::P_HOT};
        x.set("policy", sim::policy_name[pol[r.below(sizeof pol / sizeof *pol)]]);
        x.set("seed", r.below(1u << 30));
        x.set("q", (uint64_t)r.loguni(2, 3000));
        x.set("depth", (int)r.range(1, 6));
        x.set("klen", (uint64_t)r.loguni(500, 200000));
        (void)len;
    }
    std::map<string, uint64_t> leads; // files whose contents start behind other bytes
    uint64_t hole() { uint64_t h = (p(0.6) ? 1ull << 32 : 1ull << 31) + 4096 * (r.below(40) - 20 * (uint64_t)p(0.5)); return h / 4096 * 4096; }
    void maybe_lead(Rec& f, VI v, double q) {
        if (v.kind == ad::K_MATRIX || !p(q)) return;
        uint64_t n = 1 + (p(0.3) ? r.below(9000) : r.below(40));
        f.set("lead", n).set("lseed", r.below(1u << 30));
        if (p(0.06)) { uint64_t h = hole(); f.set("hole", h); n += h; }
        leads[f.str("name")] = n;
    }
    Rec& op(const char* k) { Rec& x = c.add("op"); x.set("k", k); return x; }
    string fname(const char* ext) { return "f" + to_string(nfile++) + ext; }
    // what is written to may exist already, and hold more than is written
    void maybe_old(const string& f, double q = 0.15) {
        if (!p(q) || f.find('/') != string::npos) return;
        c.add("file").set("name", f).set("fmt", "bytes").set("n", 1 + (p(0.5) ? r.below(100) : r.below(20000))).set("seed", r.below(1u << 30)).set("al", p(0.5) ? "0123456789" : "");
    }
    void maybe_threads() { if (p(0.35)) op("threads").set("n", team()); }

    // ---------------------------------------------------------------- text
    Style style() {
        Style s;
        static const char* seps[] = {" ", " ", " ", "\t", "  ", " \t ", ",", ";"};
        s.sep = seps[r.below(8)];
        s.lead = p(0.12); s.trail = p(0.2); s.cm = p(0.35); s.blank = p(0.25); s.tail = p(0.15); s.zeros = p(0.08); s.exp = p(0.3); s.wide = p(0.3);
        s.fs = (int)r.below(3);
        return s;
    }
    string label(uint64_t v, const Style& s) { string t = to_string(v); if (s.zeros && p(0.3)) t = string(1 + r.below(3), '0') + t; return t; }
    string weight(char wt, const Style& s) {
        char b[64];
        switch (wt) {
        case 'f': case 'd': {
            if (s.fs == 0) { snprintf(b, 64, "%.6g", (double)((int64_t)r.below(20001) - 10000) / 64); string t = b; if (t.find('e') != string::npos) t = "0.5"; return t; }
            if (s.fs == 1) { snprintf(b, 64, "%.*f", (int)r.below(6), ((double)r.below(2000001) - 1000000) / 997); return b; }
            string t = p(0.4) ? "-" : p(0.15) ? "+" : "";
            if (p(0.06)) { // many digits before and behind the point, large exponents
                uint64_t a = 1 + r.below(16), k = r.below(20);
                for (uint64_t i = 0; i < a; ++i) t += (char)('0' + (i ? r.below(10) : 1 + r.below(9)));
                if (k) { t += "."; for (uint64_t i = 0; i < k; ++i) t += (char)('0' + r.below(10)); }
                if (p(0.3)) { t += p(0.5) ? "e" : "E"; if (p(0.5)) t += "-"; t += to_string(r.below(wt == 'f' ? 20 : 250)); }
                return t;
            }
            if (p(0.04)) { t += "." + to_string(r.below(1000)); return t; }
            t += to_string(r.below(p(0.5) ? 10 : 9999));
            if (p(0.7)) { t += "."; uint64_t k = r.below(5); for (uint64_t i = 0; i < k; ++i) t += (char)('0' + r.below(10)); if (!k && p(0.8)) t += "5"; }
            if (s.exp && p(0.5)) { t += p(0.5) ? "e" : "E"; t += p(0.4) ? "-" : p(0.3) ? "+" : ""; t += to_string(r.below(13)); }
            return t;
        }
        case 'i': { int64_t v = s.wide && p(0.2) ? (p(0.5) ? 2147483647ll : -2147483647ll) : (int64_t)r.below(2001) - 1000; return (v >= 0 && p(0.1) ? "+" : "") + to_string(v); }
        case 'u': return to_string(s.wide && p(0.2) ? 4294967295ull : r.below(2000));
        }
        return to_string(r.below(100));
    }
    string comment(const Style&) {
        static const char* body[] = {"", " a comment", " 12 34", " 7 8 9 10", "%% x # y", " x=3 y=-4.5e2", "#", " 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25"};
        string t = string(p(0.5) ? "#" : "%") + body[r.below(8)];
        if (p(0.02)) { uint64_t n = r.loguni(100, 9000); const char* al = p(0.5) ? "1234567890 " : "%# 12e-+."; size_t k = strlen(al); for (uint64_t i = 0; i < n; ++i) t += al[r.below(k)]; }
        return t;
    }
    // order of a tensor of n entries: now and then a high one, of fewer entries
    uint64_t pick_order(VI v, uint64_t& n) {
        uint64_t o = 1 + r.below(p(0.8) ? 4 : 9);
        if (p(0.04)) o = 1 + r.below(p(0.5) ? 40 : 400);
        unsigned b = v.obits - (v.osigned ? 1 : 0);
        if (b < 32) o = std::min<uint64_t>(o, (1ull << b) - 1);
        if (o > 9) n = std::min<uint64_t>(n, std::max<uint64_t>(1, 4000 / o));
        if (b == 16 && n > 300 && p(0.1)) o = (1ull << b) / n + 1 + r.below(3); // more coordinates than the ordinal type can count
        return o;
    }
    // number of entries the ordinal type can count
    uint64_t fit(VI v, uint64_t n, uint64_t per = 1) {
        uint64_t b = v.obits - (v.osigned ? 1 : 0);
        if (b >= 32) return n;
        return std::min<uint64_t>(n, ((1ull << b) - 1) / (v.sym ? 2 : 1) / per);
    }
    // a number with a digit count or width at its limit
    uint64_t border(uint64_t cap) {
        uint64_t t = 1; int k = (int)r.below(20);
        for (int i = 0; i < k; ++i) t *= 10;
        if (p(0.25)) t = 1ull << r.below(64);
        t += r.below(3) - 1;
        return std::min(t, cap);
    }
    // another number up to cap that has the same lowest 8, 16 or 32 bits, or differs in one bit only
    uint64_t alike(uint64_t x, uint64_t cap) {
        uint64_t b = 1ull << (p(0.5) ? 32 : p(0.5) ? 16 : 8);
        uint64_t up = cap > x ? (cap - x) / b : 0, down = x / b;
        if (p(0.2) || (!up && !down)) return std::min<uint64_t>(cap, x ^ (1ull << r.below(64)));
        if (up && (!down || p(0.5))) return x + b * (1 + (p(0.5) ? r.below(std::min<uint64_t>(up, 3)) : r.below(up)));
        return x - b * (1 + (p(0.5) ? r.below(std::min<uint64_t>(down, 3)) : r.below(down)));
    }
    // a weight that is close to another one
    string near_weight(VI v, const string& w) {
        char b[64];
        if (v.wt == 'f') { snprintf(b, 64, "%.9g", (double)std::nextafterf(strtof(w.c_str(), 0), p(0.5) ? 1e30f : -1e30f)); return b; }
        if (v.wt == 'd') { double x = strtod(w.c_str(), 0); x = p(0.5) ? std::nextafter(x, p(0.5) ? 1e300 : -1e300) : x * (1 + (p(0.5) ? 1e-9 : -1e-9)); snprintf(b, 64, "%.17g", x); return b; }
        if (v.wt == 'u') { uint64_t x = strtoull(w.c_str(), 0, 10); return to_string(p(0.5) ? alike(x, 4294967295ull) : x ? x - 1 : 1); }
        int64_t x = strtoll(w.c_str(), 0, 10);
        return to_string(x > 0 ? (p(0.5) ? x - 1 : -x) : x + 1);
    }
    uint64_t label_cap(VI v) { // largest label whose successor is representable
        unsigned b = v.lbits - (v.lsigned ? 1 : 0);
        return b >= 64 ? ~0ull - 1 : (1ull << b) - 2;
    }
    // how many rows there can be: sometimes far more than there are entries
    uint64_t rows_limit(uint64_t usual) { return p(big ? 0.08 : 0.012) ? r.loguni(10300, 140000) : usual; }
    uint64_t pick_max(VI v, uint64_t n, uint64_t limit) {
        uint64_t cap = std::min(label_cap(v), limit), m;
        if (limit >= 10300 && limit <= 140000 && p(0.7)) return p(0.7) ? cap : std::min<uint64_t>(cap, r.loguni(10000, limit));
        switch (r.below(6)) {
        case 0: m = r.below(4); break;
        case 1: m = 1 + r.below(12); break;
        case 2: case 3: m = n + 1; break;
        case 4: m = r.loguni(10, 3000); break;
        default: m = limit == ~0ull ? (p(0.5) ? cap : r.loguni(1000, 1ull << 62)) : r.loguni(10, std::max<uint64_t>(11, limit)); break;
        }
        return std::min(m, cap);
    }
    string el_line(VI v, uint64_t x, uint64_t y, const Style& s, bool more) {
        string l;
        if (s.lead && p(0.4)) l += string(p(0.02) ? r.loguni(100, 5000) : 1 + r.below(3), ' ');
        l += label(x, s) + s.sep + label(y, s);
        if (v.wgt || more) {
            string sp = s.sep;
            l += sp + weight(v.wgt ? v.wt : (p(0.5) ? 'f' : 'u'), s);
        }
        if (s.trail && p(0.4)) l += string(1 + r.below(3), ' ');
        if (s.tail && p(0.3)) l += p(0.5) ? "  # note 5 6" : (v.wgt ? " abc 77 8" : " x 3.5 note");
        return l;
    }
    // writes file + lines; returns its name
    string coord_file(VI v, bool mm, TextOpt o = TextOpt()) {
        uint64_t n = fit(v, o.n != ~0ull ? o.n : size());
        Style s = style();
        string name = fname(mm ? ".mtx" : (p(0.8) ? ".el" : p(0.5) ? "" : ".txt"));
        uint64_t mx = pick_max(v, n, o.limit);
        Rec& f = c.add("file");
        f.set("name", name).set("fmt", mm ? "mm" : "el");
        maybe_lead(f, v, o.lead);
        if (p(0.15)) f.set("crlf", 1);
        if (o.edge ? p(0.45) : p(0.2)) f.set("nl", 0);
        if (o.edge ? p(0.5) : p(0.04)) f.set("page", 1 + (int)r.below(3));
        if (mm) {
            static const char* ban[] = {"%%MatrixMarket_matrix_coordinate_real_general", "%%MatrixMarket_matrix_coordinate_pattern_general", "%%MatrixMarket_matrix_coordinate_integer_symmetric"};
            f.set("banner", ban[r.below(3)]);
            if (o.bad_header && p(0.03)) { static const char* other[] = {"%%MatrixMarket_matrix_array_real_general", "%%MatrixMarket_matrix_array", "%MatrixMarket_matrix_coordinate_real_general", "%%MatrixMarket_vector_coordinate_real_general", "%%MatrixMarket_matrix_coordinat"}; f.set("banner", other[r.below(5)]); }
            uint64_t room = std::min<uint64_t>(4, label_cap(v) - mx + 1);
            if (p(0.3)) f.set("xr", (uint64_t)r.below(room));
            if (p(0.3)) f.set("xc", (uint64_t)r.below(room));
            if (o.bad_header && n > 0 && p(0.08)) { int64_t d = p(0.5) ? 1 + r.below(3) : -(int64_t)(1 + r.below(std::min<uint64_t>(n, 2))); f.set("xn", to_string(d)); }
            if (o.bad_header && n > 0 && mx > 2 && p(0.05)) f.set(p(0.5) ? "xr" : "xc", "-1");
            if (p(0.2)) f.set("hsep", 1 + r.below(5));
            int k = (int)r.below(3);
            for (int i = 0; i < k; ++i) c.line("h", "%" + comment(s).substr(1));
        }
        bool diag = p(0.15), odd = mx > 256 && p(0.25), sorted = p(0.2), more = !v.wgt && p(0.15);
        uint64_t cur = 0, skiprun = 0, lastx = 0, lasty = 0;
        for (uint64_t i = 0; i < n; ++i) {
            if (s.cm && p(0.08)) c.line("l", comment(s));
            if (s.blank && p(0.06)) c.line("l", p(0.5) ? "" : "  ");
            uint64_t x, y;
            if (sorted) { cur += r.below(2); x = std::min(cur, mx); } else x = mx == ~0ull ? r.next() : r.below(mx + 1);
            y = mx == ~0ull ? r.next() : r.below(mx + 1);
            if (p(0.05)) x = mx;
            if (p(0.05)) y = mx;
            if (p(0.03)) x = 0;
            if (diag && p(0.3)) y = x;
            if (odd && p(0.2)) y = alike(x, mx);
            if (p(0.06)) { x = lastx; y = lasty; }
            x = std::min(x, mx); y = std::min(y, mx);
            // a bounded number of entries dropped in a row
            if (v.sl || v.ut) { if ((v.sl && x == y) || (v.ut && !v.sym && x > y)) { if (++skiprun > 40 && mx > 0) { x = 0; y = mx; skiprun = 0; } } else skiprun = 0; }
            lastx = x; lasty = y;
            string l = el_line(v, x, y, s, more);
            c.line("l", l);
        }
        if (s.cm && p(0.4)) c.line("l", comment(s));
        if (p(0.05)) c.line("l", "");
        return name;
    }
    string graph_file(TextOpt o = TextOpt(), int base = 0 /*0 zero, 1 one, 2 either*/, bool errs = true, const ad::VarInfo* v = nullptr, uint64_t far = 0) {
        bool roomy = v && label_cap(*v) > 100000 && v->obits - (v->osigned ? 1 : 0) > 18; // many rows and entries can be counted
        uint64_t n = std::min<uint64_t>(o.n != ~0ull ? o.n : 1 + size(), big && roomy && p(0.5) ? 90000 : 6000);
        bool one = base == 1 || (base == 2 && p(0.35));
        string name = fname(".graph");
        Rec& f = c.add("file");
        f.set("name", name).set("fmt", "graph");
        if (o.lead) { VI any = byname("csr0"); maybe_lead(f, any, o.lead); }
        if (p(0.1)) f.set("crlf", 1);
        if (p(0.4)) f.set("half", errs && p(0.1) ? 2 + (int)r.below(2) : 1);
        if (p(0.2)) f.set("htail", p(0.5) ? "0" : "abc");
        if (o.edge ? p(0.5) : p(0.04)) f.set("page", p(0.5) ? 1 : 3);
        if (errs && p(0.05)) f.set("xm", p(0.4) ? -1 - (int)r.below(3) : 1 + (int)r.below(3));
        if (errs && p(0.05)) f.set("xn", 1 + (int)r.below(3));
        else if (p(0.12)) f.set("trail", 1);
        if (p(0.2)) f.set("hsep", 1 + r.below(5));
        int hk = (int)r.below(3);
        for (int i = 0; i < hk; ++i) c.line("h", comment(Style()));
        double dens = r.unit() * 4;
        if (far <= n || p(0.85)) far = 0; // labels can lie beyond the rows
        bool cm = p(0.3), icm = p(0.25), pad = p(0.25), anyblank = p(0.4);
        bool lone = !one && n > 1 && p(0.15); // the only zero is the last number
        bool nl = p(lone ? 0.6 : 0.08); // no newline at the end of the last row
        size_t fi = c.recs.size() - 1;
        while (c.recs[fi].type != "file") --fi;
        bool zero_seen = false;
        uint64_t tot = 0;
        size_t last_line = 0;
        for (uint64_t i = 0; i < n; ++i) {
            if (cm && p(0.1)) c.line("l", comment(Style()));
            uint64_t deg = anyblank && p(0.3) ? 0 : (uint64_t)(r.unit() * 2 * dens);
            if (p(0.01)) deg += r.below(60);
            if (!anyblank && deg == 0) deg = 1;
            if (i + 1 == n && !one && !zero_seen && deg == 0) deg = 1;
            string l;
            if (pad && p(0.2)) l += " ";
            for (uint64_t k = 0; k < deg; ++k) {
                uint64_t y = one ? 1 + r.below(n) : r.below(n);
                if (far && p(0.3)) y = p(0.3) ? far : p(0.5) ? std::max<uint64_t>(one, border(far)) : 1 + r.below(far);
                if (lone) y = i + 1 == n && k + 1 == deg ? 0 : std::max<uint64_t>(y, 1);
                else if (i + 1 == n && !one && !zero_seen) y = 0;
                if (y == 0) zero_seen = true;
                if (k) l += p(0.9) ? " " : "  ";
                l += to_string(y);
                ++tot;
            }
            if (pad && p(0.3)) l += "  ";
            if (icm && p(0.2)) l += p(0.5) ? " % note 1 2" : " # x";
            c.line("l", l);
            last_line = c.recs.size();
            if (i + 1 == n && deg && nl) c.recs[fi].set("nl", 0);
        }
        (void)last_line; (void)tot;
        return name;
    }
    string tensor_file(VI v, TextOpt o = TextOpt()) {
        uint64_t n = fit(v, std::max<uint64_t>(1, o.n != ~0ull ? o.n : size())), order = pick_order(v, n);
        Style s = style();
        string name = fname(p(0.7) ? ".tns" : "");
        Rec& f = c.add("file");
        f.set("name", name).set("fmt", "el");
        maybe_lead(f, v, o.lead);
        if (p(0.15)) f.set("crlf", 1);
        if (o.edge ? p(0.45) : p(0.2)) f.set("nl", 0);
        if (o.edge && p(0.5)) f.set("page", 1 + (int)r.below(3));
        uint64_t mx = pick_max(v, n, o.limit);
        for (uint64_t i = 0; i < n; ++i) {
            if (s.cm && p(0.08)) c.line("l", comment(s));
            if (s.blank && p(0.06)) c.line("l", "");
            string l;
            if (s.lead && i && p(0.4)) l += "  ";
            for (uint64_t k = 0; k < order; ++k) { if (k) l += s.sep; l += label(p(0.05) ? mx : r.below(mx + 1), s); }
            if (v.wgt) l += s.sep + weight(v.wt, s);
            if (s.trail && p(0.3)) l += "  ";
            if (s.tail && p(0.2)) l += "  # note 5";
            c.line("l", l);
        }
        if (s.cm && p(0.4)) c.line("l", comment(s));
        return name;
    }
    void ft_mode(Rec& l, VI v, int ft) {
        int mode = v.kind == ad::K_MATRIX ? 0 : (int)r.below(3);
        l.set("mode", mode);
        if (mode) l.set("ft", p(0.4) ? 7 : ft);
    }
    int load_text(VI v, const string& file, int ft) {
        int o = nobj++;
        Rec& l = op("load");
        l.set("o", o).set("var", v.name).set("file", file);
        if (leads.count(file)) { l.set("mode", 2).set("pos", leads[file]).set("ft", (ft == 0 && file.find(".mtx") == string::npos) || (ft == 6 && file.find(".graph") == string::npos) || p(0.6) ? ft : 7); return o; }
        if ((ft == 0 && (file.size() < 4 || file.substr(file.size() - 4) != ".mtx")) || (ft == 6 && file.find(".graph") == string::npos)) l.set("mode", 1).set("ft", ft);
        else ft_mode(l, v, ft);
        return o;
    }
    // ---------------------------------------------------------------- objects from parts
    uint64_t wn = 0; // how many entries the object being made has
    string wtok(VI v, int style) {
        switch (v.wt) {
        case 'f': case 'd':
            if (p(0.04)) { // one that the rounding to six decimals carries to a power of ten, or to zero
                char b[64]; double k = std::pow(10.0, v.wt == 'f' ? -(double)r.below(3) : (double)r.range(-3, 8)), t = (1 + r.below(4)) * 1e-7;
                double x = p(0.3) ? t : k - t;
                if (p(0.5)) x = -x;
                if (v.wt == 'f') x = (double)(float)x;
                snprintf(b, 64, "%.17g", x); return b;
            }
            if (wn < 1500 && p(0.03)) { // many digits in front of the point, or none at all before the sixth behind it
                char b[64]; double x = (1 + r.unit() * 8.9) * std::pow(10.0, v.wt == 'f' ? (double)r.range(8, 14) : (double)(p(0.5) ? r.range(8, 307) : r.range(-300, 30)));
                if (p(0.4)) x = -x;
                snprintf(b, 64, "%.17g", v.wt == 'f' ? (double)(float)x : x); return b;
            }
            if (style == 0) { char b[64]; snprintf(b, 64, "%.9g", (double)((int64_t)r.below(200001) - 100000) / 64); return b; }
            else { char b[64]; double m = ((double)r.below(2000001) - 1000000) / 1000003.0 * std::pow(10.0, (double)r.range(-3, 8)); snprintf(b, 64, v.wt == 'f' ? "%.9g" : "%.17g", v.wt == 'f' ? (double)(float)m : m); return b; }
        case 'i': if (p(0.06)) { int64_t b = (int64_t)border(2147483647ull); return to_string(p(0.5) ? -b : b); }
            return to_string(p(0.05) ? (p(0.5) ? 2147483647ll : p(0.5) ? -2147483648ll : -2147483647ll) : (int64_t)r.below(20001) - 10000);
        case 'u': return to_string(p(0.06) ? border(4294967295ull) : p(0.05) ? 4294967295ull : r.below(20000));
        }
        return to_string(r.below(1000));
    }
    int make_coo(VI v, uint64_t n, uint64_t limit, bool free_labels = false) {
        int o = nobj++;
        wn = n = fit(v, n);
        uint64_t mr = pick_max(v, n, limit), mc = p(0.6) ? mr : pick_max(v, n, limit);
        uint64_t nr = mr + 1, nc = mc + 1;
        if (p(0.15) && nr < limit) nr = std::min(label_cap(v), nr + r.below(5));
        uint64_t nn = std::max(nr, nc);
        if (p(0.06)) nn = std::min(std::max(nn, label_cap(v)), nn + r.below(9)); // isolated vertices
        Rec& m = op("make");
        m.set("o", o).set("var", v.name).set("nrows", nr).set("ncols", nc).set("n", nn);
        int ws = (int)r.below(2);
        uint64_t lx = 0, ly = 0;
        bool skew = p(0.2), edges = free_labels && p(0.4);
        // rows in ascending order, or in a few ascending runs, and the last ones perhaps out of order
        uint64_t runs = p(0.15) ? (p(0.4) ? 1 : 2 + r.below(15)) : 0, rl = runs ? (n + runs - 1) / runs : 1, late = p(0.3) ? 1 + r.below(2) : 0;
        uint64_t top = label_cap(v) + 1;
        for (uint64_t i = 0; i < n; ++i) {
            uint64_t x = r.below(mr + 1), y = r.below(mc + 1);
            if (skew && p(0.7)) x = mr / 2;
            if (runs) { if (i + late < n && mr < 1ull << 40) x = (i % rl) * (mr + 1) / rl; }
            else if (p(0.08)) { x = lx; y = ly; }
            else if (p(0.04)) x = mr;
            if (p(0.04)) y = mc;
            if (p(0.05) && x <= mc) y = x;
            if (p(0.03)) y = p(0.5) ? alike(std::min(x, mc), mc) : alike(ly, mc);
            if (p(0.01)) x = alike(lx, mr);
            if (runs && !skew && x == lx && i && y < ly) y = ly;
            lx = x; ly = y;
            string l;
            if (free_labels && v.lsigned && p(0.15)) l = to_string(-(int64_t)r.below(1000)) + " " + (p(0.5) ? to_string(-(int64_t)r.below(100000)) : to_string(y));
            else if (edges && p(0.5)) l = (v.lsigned && p(0.3) ? "-" : "") + to_string(border(top)) + " " + to_string(p(0.5) ? border(top) : y);
            else if (free_labels && p(0.05)) { l = to_string(top) + " " + to_string(y); }
            else l = to_string(x) + " " + to_string(y);
            if (v.wgt) l += " " + wtok(v, ws);
            c.line("e", l);
        }
        return o;
    }
    int make_csr(VI v, uint64_t m, uint64_t limit, uint64_t far = 0) { // far: the greatest label of a column, if it can lie beyond the rows
        int o = nobj++;
        wn = m = fit(v, m);
        uint64_t n = 1 + pick_max(v, m, std::min<uint64_t>(limit, 140000));
        uint64_t nr = p(0.6) ? n : 1 + r.below(n), nc = nr == n && p(0.3) ? 1 + r.below(n) : n;
        // the dimensions are the user's to give: n need not be the larger one
        uint64_t nn = p(0.15) ? r.below(n + 1) : n;
        far = std::min(far, label_cap(v));
        if (far > n && p(0.15)) nc = 1 + (p(0.4) ? far : p(0.5) ? n + r.below(far - n) : r.loguni(n, far));
        if (m == 0 && p(0.4)) { if (p(0.6)) nc = 0; if (p(0.3)) nr = 0; if (p(0.2)) nn = 0; }
        Rec& k = op("make");
        k.set("o", o).set("var", v.name).set("n", nn).set("nrows", nr).set("ncols", nc);
        int ws = (int)r.below(2);
        uint64_t lx = 0, ly = 0; string lw = "1";
        bool skew = p(0.3), asc = p(0.2), few = p(0.3);
        for (uint64_t i = 0; i < m; ++i) {
            uint64_t x = r.below(nr), y = r.below(nc);
            if (skew && p(0.7)) x = nr / 2;
            if (few) y = y % 4 % nc;
            if (asc) y = nc > 1ull << 40 ? nc / (m + 1) * i : std::min(nc - 1, i * nc / (m + 1));
            else if (nc > n && p(0.2)) y = std::min(nc - 1, border(nc - 1));
            string w = wtok(v, ws);
            if (few && p(0.3)) w = v.wt == 'u' ? "1" : p(0.5) ? "-1" : "2";
            if (p(0.15)) { x = lx; y = ly; if (p(0.4)) w = lw; else if (v.wgt && p(0.4)) w = near_weight(v, lw); }
            else if (p(0.06)) { x = lx; y = alike(ly, nc - 1); }
            lx = x; ly = y; lw = w;
            c.line("e", to_string(x) + " " + to_string(y) + (v.wgt ? " " + w : ""));
        }
        return o;
    }
    int make_tensor(VI v, uint64_t m, bool free_labels = true) {
        int o = nobj++;
        m = fit(v, m);
        uint64_t order = pick_order(v, m), mx = pick_max(v, m, ~0ull);
        wn = m;
        bool edges = free_labels && p(0.4);
        op("make").set("o", o).set("var", v.name).set("order", order);
        int ws = (int)r.below(2);
        for (uint64_t i = 0; i < m; ++i) {
            string l;
            for (uint64_t k = 0; k < order; ++k) {
                if (k) l += " ";
                if (edges && p(0.4)) l += to_string(border(label_cap(v) + 1));
                else if (free_labels && v.lsigned && p(0.1)) l += to_string(-(int64_t)r.below(1000));
                else l += to_string(p(0.04) ? mx : r.below(mx + 1));
            }
            if (v.wgt) l += " " + wtok(v, ws);
            c.line("e", l);
        }
        return o;
    }
    string bin_file(VI v, uint64_t n, uint64_t limit, double lead = 0) {
        wn = n = fit(v, n);
        string name = fname(".bin");
        Rec& f = c.add("file");
        f.set("name", name).set("fmt", "bin").set("var", v.name);
        maybe_lead(f, v, lead);
        uint64_t mx = pick_max(v, n, limit);
        uint64_t rows = mx + 1, cols = p(0.6) ? rows : 1 + r.below(rows);
        uint64_t order = v.kind == ad::K_TENSOR ? pick_order(v, n) : 1;
        wn = n;
        if (v.kind == ad::K_TENSOR) f.set("order", order);
        else f.set("n", p(0.08) ? r.below(rows + 1) : rows).set("nrows", rows).set("ncols", cols);
        int ws = (int)r.below(2);
        for (uint64_t i = 0; i < n; ++i) {
            string l;
            if (v.kind == ad::K_TENSOR) { for (uint64_t k = 0; k < order; ++k) l += (k ? " " : "") + to_string(r.below(mx + 1)); }
            else l = to_string(r.below(rows)) + " " + to_string(r.below(cols));
            if (v.wgt) l += " " + wtok(v, ws);
            c.line("e", l);
        }
        return name;
    }
    vector<string> conv_targets(const string& from) { vector<string> v; for (auto& k : ad::converters()) if (k.first.first == from) v.push_back(k.first.second); return v; }
    vector<string> dedup_targets(const string& from) { vector<string> v; for (auto& k : ad::dedups()) if (k.first.first == from) v.push_back(k.first.second); return v; }
    uint64_t narrow_limit(const string& to, uint64_t lim) { return std::min(lim, label_cap(byname(to))); }
    bool fits(const string& from, const string& to) { return label_cap(byname(to)) >= std::min<uint64_t>(4000, label_cap(byname(from))) && byname(to).obits >= std::min(32u, byname(from).obits); }
    int conv(int from, const string& to) { int o = nobj++; op("conv").set("o", o).set("from", from).set("var", to); return o; }
    void end() { op("end"); }

    // ---------------------------------------------------------------- programs
    void p_el(bool mm, bool flagged, TextOpt o = TextOpt()) {
        VI v = var([&](VI x) { return x.kind == ad::K_COO && (flagged ? (x.sym || x.ut || x.sl) : !(x.sym || x.ut || x.sl)); });
        if (!o.lead) o.lead = 0.08;
        string f = coord_file(v, mm, o);
        maybe_threads();
        load_text(v, f, mm ? 0 : 1);
        if (p(0.25)) { op("threads").set("n", team()); load_text(v, f, mm ? 0 : 1); }
        if (mm && p(0.05)) { Rec& x = c.add("op"); (void)x; c.recs.pop_back(); }
    }
    void p_coo_csr() {
        uint64_t lim = rows_limit(p(0.1) ? 10000 : 2500);
        VI v = coo(p(0.25));
        auto t = conv_targets(v.name);
        string to = pick(t);
        uint64_t l2 = narrow_limit(to, lim);
        int src;
        double u = r.unit();
        maybe_threads();
        if (u < 0.55) src = make_coo(v, size(), l2);
        else if (u < 0.8) {
            // straight from a text file into the compressed form
            VI w = var([&](VI x) { return x.kind == ad::K_CSR || x.kind == ad::K_GRAPH || x.kind == ad::K_DIGRAPH || x.kind == ad::K_MATRIX; });
            bool mm = p(0.35);
            TextOpt o; o.limit = std::min(lim, label_cap(w)); o.bad_header = false;
            string f = coord_file(w, mm, o);
            load_text(w, f, mm ? 0 : 1);
            return;
        } else {
            TextOpt o; o.limit = l2; o.bad_header = false;
            string f = coord_file(v, false, o);
            src = load_text(v, f, 1);
        }
        if (p(0.2)) op("transpose").set("o", src);
        conv(src, to);
        if (p(0.2)) { op("threads").set("n", team()); conv(src, pick(t)); }
    }
    void p_csr_coo() {
        VI v = csr();
        auto t = conv_targets(v.name);
        string to = pick(t);
        double u = r.unit();
        maybe_threads();
        if (u < 0.7) {
            string to2 = p(0.3) ? pick(t) : "";
            int s = make_csr(v, size(), narrow_limit(to, rows_limit(4000)), std::min(label_cap(byname(to)), label_cap(byname(to2.empty() ? to : to2))));
            conv(s, to);
            if (!to2.empty()) { op("threads").set("n", team()); conv(s, to2); }
        } else if (u < 0.85) {
            string f = bin_file(v, size(), 3000);
            VI w = var([&](VI x) { return x.kind == ad::K_COO && x.fam == v.fam; });
            load_text(w, f, 3);
        } else {
            TextOpt o;
            VI w = var([&](VI x) { return x.kind == ad::K_COO && !x.wgt && !x.sl && !(x.ut && !x.sym); });
            string f = graph_file(o, 2, false, &w, label_cap(w));
            load_text(w, f, 6);
        }
    }
    int any_csrlike(uint64_t m) {
        if (p(0.55)) return make_csr(csr(), m, rows_limit(4000), ~0ull);
        if (p(0.5)) return make_csr(var([](VI x) { return x.kind == ad::K_GRAPH; }), m, rows_limit(4000), ~0ull);
        VI v = coo();
        auto t = conv_targets(v.name); string to = pick(t);
        int s = make_coo(v, m, narrow_limit(to, rows_limit(3000)));
        return conv(s, to);
    }
    void p_sort() {
        maybe_threads();
        int o = any_csrlike(size());
        if (p(0.2)) op("threads").set("n", team());
        op("sort").set("o", o).set("part", (int)r.below(2));
        if (p(0.3)) op("sort").set("o", o).set("part", (int)r.below(2));
    }
    void p_dedup() {
        VI v = csr();
        auto t = dedup_targets(v.name); string to = pick(t);
        maybe_threads();
        string to2 = p(0.25) ? pick(dedup_targets(to)) : "";
        int s = make_csr(v, size(), narrow_limit(to, rows_limit(4000)), std::min(label_cap(byname(to)), label_cap(byname(to2.empty() ? to : to2))));
        if (p(0.2)) op("sort").set("o", s);
        int o = nobj++;
        op("dedup").set("o", o).set("from", s).set("var", to);
        if (!to2.empty()) { int o2 = nobj++; if (fits(to, to2)) op("dedup").set("o", o2).set("from", o).set("var", to2); }
    }
    void p_graph() {
        TextOpt o; o.lead = 0.08;
        VI v = var([&](VI x) { return (x.kind == ad::K_CSR || x.kind == ad::K_GRAPH) && (!x.wgt || p(0.05)); });
        string f = graph_file(o, 2, true, &v, label_cap(v));
        maybe_threads();
        load_text(v, f, 6);
        if (p(0.2)) { op("threads").set("n", team()); load_text(v, f, 6); }
    }
    void p_tensor() {
        VI v = var([](VI x) { return x.kind == ad::K_TENSOR; });
        maybe_threads();
        int o;
        if (p(0.7)) { TextOpt t; t.lead = 0.08; string f = tensor_file(v, t); o = load_text(v, f, 1); } else o = make_tensor(v, size());
        if (p(0.2)) op("threads").set("n", team());
        if (p(0.6)) op("maxlab").set("o", o);
    }
    void p_write() {
        maybe_threads();
        VI v = var([](VI x) { return (x.kind == ad::K_COO && !x.sym && !x.ut && !x.sl) || x.kind == ad::K_TENSOR; });
        uint64_t m = p(0.05) ? 0 : std::max<uint64_t>(1, size());
        int o = v.kind == ad::K_TENSOR ? make_tensor(v, m) : p(0.3) ? make_coo(v, m, std::min<uint64_t>(label_cap(v), 5000)) : make_coo(v, m, ~0ull, true);
        string f = fname(p(0.8) ? ".txt" : ".el");
        if (p(0.1)) f = "nodir/" + f;
        maybe_old(f);
        op("write").set("o", o).set("file", f);
        if (p(0.35)) { op("threads").set("n", team()); op("write").set("o", o).set("file", p(0.5) ? f : fname(".txt")); }
        if (f[0] != 'n' && m && p(0.35)) { // read back what was written
            if (p(0.3)) op("threads").set("n", team());
            int q = load_text(v, f, 1);
            if (p(0.3)) op("write").set("o", q).set("file", fname(".txt"));
        }
    }
    void p_binary() {
        maybe_threads();
        double u = r.unit();
        string f = fname(p(0.8) ? ".bin" : p(0.5) ? ".mtx" : ".graph");
        if (u < 0.45) {
            VI v = var([](VI x) { return x.kind == ad::K_COO || x.kind == ad::K_TENSOR || x.kind == ad::K_CSR || x.kind == ad::K_GRAPH; });
            uint64_t m = size();
            int o = v.kind == ad::K_TENSOR ? make_tensor(v, m) : v.kind == ad::K_COO ? make_coo(v, m, ~0ull, true) : make_csr(v, m, rows_limit(4000), ~0ull);
            maybe_old(f);
            op("save").set("o", o).set("file", f);
            if (p(0.3)) op("threads").set("n", team());
            int ft = v.kind == ad::K_TENSOR ? 5 : v.kind == ad::K_COO ? 2 : 3;
            load_text(v, f, ft);
            if (p(0.3)) { int k = nobj - 1; op("save").set("o", k).set("file", p(0.5) ? f : fname(".bin")); }
        } else if (u < 0.62) {
            VI v = coo();
            auto t = conv_targets(v.name);
            vector<string> d; for (auto& x : t) if (byname(x).kind == ad::K_DIGRAPH) d.push_back(x);
            if (d.empty()) { VI w = byname("coo0"); int s = make_coo(w, size(), 2000); int k = conv(s, "di0"); op("save").set("o", k).set("file", f); load_text(byname("di0"), f, 4); }
            else { int s = make_coo(v, size(), 2000); int k = conv(s, d[0]); op("save").set("o", k).set("file", f); if (p(0.3)) op("threads").set("n", team()); load_text(byname(d[0]), f, 4); }
        } else if (u < 0.75) {
            VI v = var([](VI x) { return x.kind == ad::K_CSR || x.kind == ad::K_GRAPH; });
            int o = make_csr(v, size(), 3000);
            uint64_t lead = r.below(p(0.5) ? 20 : 5000);
            maybe_old(f);
            op("savein").set("o", o).set("file", f).set("lead", lead).set("tail", 1 + r.below(10));
            if (p(0.7)) { int k = nobj++; op("load").set("o", k).set("var", v.name).set("file", f).set("mode", 2).set("pos", lead).set("ft", p(0.5) ? 3 : 7); }
        } else {
            // golden file of the documented layout, and files of other widths or kinds
            VI v = var([](VI x) { return x.kind != ad::K_MATRIX; });
            string g = bin_file(v, size(), 3000, 0.2);
            int ft = v.kind == ad::K_TENSOR ? 5 : v.kind == ad::K_COO ? 2 : v.kind == ad::K_DIGRAPH ? 4 : 3;
            VI w = p(0.7) ? v : var([&](VI x) { return x.kind == v.kind; });
            load_text(w, g, ft);
            if (!leads.count(g) && p(0.2)) { VI z = var([&](VI x) { return x.kind != ad::K_TENSOR && x.fam == v.fam && !(x.sym || x.ut || x.sl); }); int o = nobj++; op("load").set("o", o).set("var", z.name).set("file", g).set("mode", 0); }
        }
    }
    void p_dual() {
        maybe_threads();
        bool graph = p(0.3);
        bool fl = p(0.45);
        VI v = var([&](VI x) {
            if (x.kind != ad::K_COO || (x.sym || x.ut || x.sl) != fl) return false;
            for (auto& t : conv_targets(x.name)) if (byname(t).kind != ad::K_CSR) return true;
            return false;
        });
        vector<string> t; for (auto& x : conv_targets(v.name)) { auto k = byname(x).kind; if (graph ? k == ad::K_GRAPH : k == ad::K_DIGRAPH || k == ad::K_MATRIX) t.push_back(x); }
        int o;
        if (t.empty() || p(0.35)) {
            VI w = var([&](VI x) { return graph ? x.kind == ad::K_GRAPH : x.kind == ad::K_DIGRAPH || x.kind == ad::K_MATRIX; });
            TextOpt to; to.limit = rows_limit(1500); to.bad_header = false;
            double u = r.unit();
            if (u < 0.45) { string f = coord_file(w, false, to); o = load_text(w, f, 1); }
            else if (u < 0.7) { string f = coord_file(w, true, to); o = load_text(w, f, 0); }
            else if (u < 0.85 && !w.wgt) { string f = graph_file(to, 2, false, &w, std::min<uint64_t>(label_cap(w), 3000)); o = load_text(w, f, 6); }
            else { VI b = var([&](VI x) { return x.fam == w.fam && (x.kind == ad::K_COO || x.kind == ad::K_CSR) && !(x.sym || x.ut || x.sl); }); string f = bin_file(b, size(), 1500); o = load_text(w, f, b.kind == ad::K_COO ? 2 : 3); }
        } else {
            string to = pick(t); int s;
            if (p(0.3)) { TextOpt x; x.limit = narrow_limit(to, rows_limit(1500)); x.bad_header = false; string f = coord_file(v, false, x); s = load_text(v, f, 1); }
            else s = make_coo(v, size(), 1500);
            if (p(0.15)) op("transpose").set("o", s);
            o = conv(s, to);
        }
        op("nbr").set("o", o).set("part", 0);
        op("nbr").set("o", o).set("part", 1);
        if (p(0.3)) { op("sort").set("o", o).set("part", (int)r.below(2)); op("nbr").set("o", o).set("part", (int)r.below(2)); }
    }
    string bytes_file(uint64_t n, const char* al, const char* ext = ".dat") {
        string name = fname(ext);
        Rec& f = c.add("file");
        f.set("name", name).set("fmt", "bytes").set("n", n).set("seed", r.below(1u << 30));
        if (al && *al) f.set("al", al);
        return name;
    }
    void p_find() {
        static const char* als[] = {"ab", "aab", "abc;", "xyzw", "aaaaaaab", ""};
        uint64_t n = p(0.15) ? 4096 * (1 + r.below(2)) : std::max<uint64_t>(1, size() * (p(0.3) ? 4 : 1));
        string f = bytes_file(n, als[r.below(6)]);
        maybe_threads();
        op("fopen").set("h", 0).set("file", f).set("cls", (int)r.below(2));
        int k = 1 + (int)r.below(3);
        for (int i = 0; i < k; ++i) {
            if (p(0.4)) op("fseek").set("h", 0).set("p", r.below(n));
            if (p(0.3)) op("threads").set("n", team());
            static const char cs[] = {'a', 'b', 'a', 'b', 'x', 'z', '\n', 0, 'q'};
            op("ffind").set("h", 0).set("ch", p(0.25) ? (int)(signed char)r.below(256) : (int)cs[r.below(9)]).set("type", (int)r.below(3));
        }
        op("fclose").set("h", 0);
    }
    // a position that is not in a file of n bytes
    uint64_t far(uint64_t n) {
        switch (r.below(5)) {
        case 0: return (1ull << 32) + r.below(n);
        case 1: return (1ull << 31) * (2 * r.below(3) + 2);
        case 2: return p(0.5) ? (1ull << 62) + r.below(n) : (1ull << 63) - 1;
        default: return n + r.below(3);
        }
    }
    void p_cursor() {
        maybe_threads();
        bool wr = p(0.5);
        uint64_t n = std::max<uint64_t>(1, p(0.2) ? 4096 * (1 + r.below(3)) : size() * (p(0.3) ? 8 : 1));
        string f = wr ? fname(".out") : bytes_file(n, p(0.5) ? "abcdefgh" : "");
        uint64_t hl = 0;
        if (!wr && p(0.12)) { hl = hole(); c.recs.back().set("hole", hl); }
        { Rec& o = op("fopen"); o.set("h", 0).set("file", f).set("cls", (int)r.below(2)); if (wr) o.set("write", 1).set("size", n); }
        if (hl) op("fseek").set("h", 0).set("p", hl - std::min<uint64_t>(hl, r.below(40)));
        int k = 2 + (int)r.below(12);
        for (int i = 0; i < k; ++i) {
            if (p(0.2)) op("threads").set("n", team());
            if (p(0.02)) op("frenew").set("file", f).set("v", r.below(1u << 30));
            double u = r.unit();
            if (u < 0.2) op("fseek").set("h", 0).set("p", hl ? (p(0.7) ? hl - r.below(20) + r.below(n) : p(0.5) ? r.below(n) : far(hl + n)) : p(0.85) ? r.below(n) : far(n));
            else if (u < 0.35) op("fread").set("h", 0).set("b", 1 << r.below(4));
            else if (u < 0.5 && wr) op("fwrite").set("h", 0).set("b", 1 << r.below(4)).set("v", r.next());
            else if (u < 0.55 && wr) { Rec& o = op("fwrites").set("h", 0); if (p(0.5)) o.set("n", r.below(p(0.2) ? 300 : 12)).set("v", r.below(1u << 30)); else o.set("s", "PIGO-abc"); }
            else if (u < 0.65) op("freads").set("h", 0).set("n", 1 + r.below(9)).set("wrong", p(0.3) ? 1 : 0).set("at", r.below(9));
            else if (u < 0.82 || !wr) op("fpread").set("h", 0).set("n", p(0.3) ? n : r.below(n + 1)).set("free", p(0.3) ? 1 : 0).set("over", p(0.3) ? 1 : 0);
            else op("fpwrite").set("h", 0).set("n", p(0.3) ? n : r.below(n + 1)).set("v", r.below(1u << 30)).set("free", p(0.3) ? 1 : 0);
        }
        op("fclose").set("h", 0);
        if (wr) { op("fopen").set("h", 1).set("file", f); op("fpread").set("h", 1).set("n", n); op("fclose").set("h", 1); }
    }
    // several threads with their own readers and positions in one file
    void p_parts(bool edge = false) { // edge: reading only, texts that end at the end of a page in the middle of something
        maybe_threads();
        int rounds = 1 + (int)r.below(2);
        for (int k = 0; k < rounds; ++k) {
            bool wr = !edge && p(0.4);
            if (wr) {
                string f = fname(".out");
                Rec& o = op("writers"); o.set("file", f).set("n", team()).set("cls", (int)r.below(2));
                int n = 1 + (int)r.below(p(0.2) ? 40 : 8);
                static const char* as[] = {"au8", "ai8", "au16", "ai16", "au32", "ai32", "au64", "ai64"};
                for (int i = 0; i < n; ++i) {
                    string l;
                    int m = 1 + (int)r.below(p(0.2) ? 60 : 10);
                    bool text = p(0.6);
                    for (int j = 0; j < m; ++j) {
                        double u = r.unit();
                        if (text && u < 0.7) {
                            int t = (int)r.below(10);
                            if (t < 8) { uint64_t v = p(0.5) ? border(~0ull) : p(0.5) ? r.next() : r.below(1000); if (p(0.4)) v = 0 - v; l += string(as[t]) + ":" + to_string(v); }
                            else { int64_t v = (int64_t)r.below(p(0.5) ? 2000 : 1ull << 30); if (p(0.2)) v = (int64_t)border(1ull << 30); if (p(0.4)) v = -v; l += string(t == 8 ? "af" : "ad") + ":" + to_string(v); }
                            l += " p1:" + to_string(p(0.3) ? 10 : 32) + " ";
                        } else if (u < 0.85) l += "p" + to_string(1 << r.below(4)) + ":" + to_string(r.next()) + " ";
                        else if (u < 0.93) l += "ps:" + to_string(r.below(p(0.2) ? 300 : 12)) + ":" + to_string(r.below(1u << 30)) + " ";
                        else l += "pb:" + to_string(r.below(p(0.2) ? 3000 : 40)) + ":" + to_string(r.below(1u << 30)) + " ";
                    }
                    c.line("e", l);
                }
                if (p(0.3)) { string g2 = f; Rec& q = op("readers"); q.set("file", g2).set("n", team()).set("cls", (int)r.below(2)); for (int i = 0; i < n; ++i) c.line("e", "P " + to_string(r.below(2000)) + " " + to_string(r.below(3000)) + pos_steps()); }
                continue;
            }
            string f; uint64_t len = 0;
            double u = edge ? 1 : r.unit();
            if (u < 0.45) { VI v = coo(); TextOpt t; t.bad_header = false; t.n = std::min<uint64_t>(size(), 300); f = coord_file(v, p(0.25), t); len = t.n * 12 + 40; }
            else if (u < 0.55) { len = 1 + size() * 4; f = bytes_file(len, p(0.5) ? "0123456789#%-+.eE" : "", ".dat"); }
            else {
                f = fname(".txt");
                Rec& x = c.add("file"); x.set("name", f).set("fmt", "raw"); if (edge || p(0.5)) x.set("nl", 0); if (edge) x.set("page", 3); else if (p(0.4)) x.set("page", r.below(4));
                static const char* als[] = {"0123456789 ", "0019 \t", "12 #%", "0123456789 -+.eE", "5 7,;\t\r-", "01 %#\t \r-+.eExyz"};
                string al = als[r.below(6)]; int n = 1 + (int)r.below(p(0.2) ? 80 : 12); bool same = p(0.5);
                for (int i = 0; i < n; ++i) {
                    if (!same) al = als[r.below(6)];
                    string l; uint64_t z = p(0.1) ? 0 : r.below(24);
                    for (uint64_t j = 0; j < z; ++j) l += al[r.below(al.size())];
                    if (edge && i + 1 == n) { static const char* last[] = {"1", "-", "+", "1.", "1e", "1E-", "7 1e+", "-0", " ", "#", "1 %", "\r", "3 4", "00", ".5", "e"}; l += last[r.below(16)]; }
                    len += l.size() + 1;
                    c.line("l", l);
                }
                if (edge) len = (len - 1 + 2) / 4096 * 4096 + 4096; // (the size of the file)
            }
            Rec& o = op("readers"); o.set("file", f).set("n", team()).set("cls", (int)r.below(2)); if (p(0.15)) o.set("seek", 1 + r.below(len + 1));
            int n = 1 + (int)r.below(p(0.15) ? 40 : 8);
            bool split = p(0.5);
            for (int i = 0; i < n; ++i) {
                bool tail = edge && p(0.5);
                uint64_t a = tail ? len - 1 - r.below(12) : split ? i * len / n : p(0.3) ? 0 : r.below(len + 1), e = tail ? len : split ? (i + 1) * len / n : p(0.5) ? a + (1u << 20) : a + r.below(len + 1 - std::min(a, len));
                bool pos = p(0.2);
                c.line("e", string(pos ? "P " : "R ") + to_string(a) + " " + to_string(e - a) + (pos ? pos_steps() : read_steps()));
            }
        }
        end();
    }
    string pos_steps() {
        string l; int m = 1 + (int)r.below(20);
        static const char* g[] = {"g1", "g2", "g4", "g8", "gi"};
        for (int j = 0; j < m; ++j) l += p(0.15) ? " gb:" + to_string(1 + r.below(p(0.2) ? 3000 : 30)) : string(" ") + g[r.below(5)];
        return l;
    }
    string read_steps() {
        string l;
        static const char* any[] = {"ri8", "ri16", "ri32", "ri64", "rs", "ff", "fd", "fi", "ni", "nn", "nf", "tf", "si", "ip", "cs", "sc", "el", "eo", "nl", "z", "pk", "gd", "mt", "st", "pl", "pe"};
        static const char* loops[] = {" fi ri64 nn", " ri32 ni", " ri64 el ni", " z ip nl", " si rs ri64", " tf fd nf", " ff", " nl eo pk ip", " fi cs el", " mt st", " sc el eo", " ni eo nn z"};
        auto add = [&](const string& t) {
            l += " " + t;
            if (t == "mt") { static const int cs[] = {'\n', ' ', '#', '%', '5', '0', '-', 'e', 0}; l += ":" + to_string(cs[r.below(9)]); }
            else if (t == "st") { l += ":" + to_string(r.below(p(0.1) ? 100 : 6)); if (p(0.4)) l += ":" + to_string(r.below(6)); }
            else if (t == "pl" || t == "pe") l += ":" + to_string(r.below(p(0.1) ? 100000 : 9));
        };
        int m = 1 + (int)r.below(30);
        if (p(0.5)) {
            string lp = loops[r.below(12)]; std::istringstream is(lp); vector<string> ts; string t; while (is >> t) ts.push_back(t);
            for (int j = 0; j < m; ++j) for (auto& x : ts) add(x);
        } else for (int j = 0; j < m; ++j) add(any[r.below(26)]);
        return l;
    }
    void p_handles() {
        int nf = 2 + (int)r.below(3);
        vector<string> in, out;
        for (int i = 0; i < nf; ++i) in.push_back(bytes_file(1 + r.below(p(0.2) ? 9000 : 300), p(0.5) ? "abcPIGO-" : ""));
        if (p(0.3)) in.push_back(bytes_file(0, ""));
        if (p(0.4)) { // a file starting with some header
            string name = fname(p(0.3) ? ".mtx" : p(0.4) ? ".graph" : ".bin");
            Rec& f = c.add("file"); f.set("name", name).set("fmt", "raw");
            static const char* hs[] = {"PIGO-COO-v1 ...", "PIGO-CSR-v2 ...", "PIGO-DiGraph-v1 ...", "PIGO-Tensor-2 ...", "PIGO-CSR-v1 ...", "PIGO", "PIGO-", "1 2", "%%MatrixMarket matrix coordinate"};
            c.line("l", hs[r.below(9)]);
            in.push_back(name);
        }
        for (int i = 0; i < 2; ++i) out.push_back(fname(".out"));
        int k = 4 + (int)r.below(22), H = 4;
        for (int i = 0; i < k; ++i) {
            int h = (int)r.below(H);
            double u = r.unit();
            if (u < 0.04) { Rec& o = op("frenew"); o.set("file", pick(p(0.75) ? in : out)).set("v", r.below(1u << 30)); if (p(0.3)) o.set("n", 1 + r.below(400)); }
            else if (u < 0.3) {
                Rec& o = op("fopen");
                o.set("h", h).set("cls", (int)r.below(2));
                if (p(0.35)) o.set("file", p(0.08) ? "nodir/x" : pick(out)).set("write", 1).set("size", p(0.08) ? 0 : p(0.03) ? far(1ull << 33) : 1 + r.below(p(0.2) ? 9000 : 200));
                else { o.set("file", p(0.06) ? "missing" : pick(in)); if (p(0.04)) o.set("size", 5).set("cls", 0); }
            } else if (u < 0.42) op("fclose").set("h", h);
            else if (u < 0.55) op("fmove").set("h", h).set("from", r.below(H));
            else if (u < 0.68) op("fmassign").set("h", h).set("from", r.below(H));
            else if (u < 0.74) op("fguess").set("h", h);
            else if (u < 0.8) op("fread").set("h", h).set("b", 1 << r.below(4));
            else if (u < 0.86) op("fwrite").set("h", h).set("b", 1 << r.below(4)).set("v", r.next());
            else if (u < 0.93) op("fpread").set("h", h).set("n", r.below(400));
            else op("fseek").set("h", h).set("p", p(0.9) ? r.below(300) : far(300));
        }
    }
    void p_copy() {
        maybe_threads();
        VI v = var([](VI x) { return x.kind == ad::K_COO || x.kind == ad::K_TENSOR; });
        auto mk = [&]() { return v.kind == ad::K_TENSOR ? make_tensor(v, size()) : make_coo(v, size(), ~0ull, true); };
        vector<int> os; os.push_back(mk());
        if (p(0.6)) os.push_back(mk());
        int k = 2 + (int)r.below(9);
        for (int i = 0; i < k; ++i) {
            int a = pick(os), b = pick(os);
            double u = r.unit();
            if (p(0.15)) op("threads").set("n", team());
            if (u < 0.3) { int o = nobj++; op("copy").set("o", o).set("from", a); os.push_back(o); }
            else if (u < 0.52) op("assign").set("o", a).set("from", b);
            else if (u < 0.62) op("transpose").set("o", a);
            else if (u < 0.74) op("poke").set("o", a).set("a", p(0.4) ? "w" : p(0.5) ? "x" : "y").set("i", r.below(5000)).set("j", r.below(5000)).set("v", r.below(1000));
            else if (u < 0.8) op("dim").set("o", a).set("which", p(0.5) ? "n" : p(0.5) ? "r" : "c").set("v", p(0.3) ? border(label_cap(v)) : std::min(label_cap(v), r.below(50000)));
            else if (u < 0.92 && os.size() > 1) op("free").set("o", a);
            else { op("end"); }
        }
    }
    void p_text_edges() {
        TextOpt o; o.edge = true; o.bad_header = false; o.lead = 0.15;
        double u = r.unit();
        bool cut = false;
        if (u < 0.1) return p_parts(true);
        if (u < 0.4) p_el(false, false, o);
        else if (u < 0.53) p_el(false, true, o);
        else if (u < 0.67) p_el(true, p(0.3), o);
        else if (u < 0.85) { VI v = var([](VI x) { return x.kind == ad::K_TENSOR; }); string f = tensor_file(v, o); load_text(v, f, 1); }
        else { string f = graph_file(o, 2, false); VI v = var([](VI x) { return (x.kind == ad::K_CSR || x.kind == ad::K_GRAPH) && !x.wgt; }); load_text(v, f, 6); }
        (void)cut;
    }
    // one random stateful program over several objects and files
    void p_pipeline(int len, int caller = 0, uint64_t szcap = ~0ull) {
        struct O { int id; string var; bool dead = false; bool tr = false; };
        struct F { string name; string var; char kind; }; // kind: t text coordinates of var, b binary of var, e tensor text
        vector<O> os; vector<F> fs;
        auto sz = [&]() { return std::min(size(), szcap); };
        size_t from = c.recs.size();
        auto newobj = [&]() {
            double u = r.unit();
            if (u < 0.4) { VI v = coo(p(0.3)); int o = make_coo(v, sz(), std::min<uint64_t>(label_cap(v), 1500)); os.push_back({o, v.name}); }
            else if (u < 0.65) { VI v = csr(); int o = make_csr(v, sz(), 1500); os.push_back({o, v.name}); }
            else if (u < 0.8) { VI v = var([](VI x) { return x.kind == ad::K_TENSOR; }); int o = make_tensor(v, sz(), false); os.push_back({o, v.name}); }
            else { VI v = var([](VI x) { return x.kind == ad::K_GRAPH; }); int o = make_csr(v, sz(), 1500); os.push_back({o, v.name}); }
        };
        newobj();
        for (int i = 0; i < len; ++i) {
            double u = r.unit();
            if (p(0.12)) op("threads").set("n", team());
            if (u < 0.12) { newobj(); continue; }
            if (u < 0.2 && !fs.empty()) {
                F f = pick(fs);
                VI v = byname(f.var);
                if (f.kind == 'b') {
                    VI w = p(0.6) ? v : var([&](VI x) { return x.fam == v.fam && !(x.sym || x.ut || x.sl) && (x.kind == ad::K_TENSOR) == (v.kind == ad::K_TENSOR); });
                    int o = nobj++;
                    op("load").set("o", o).set("var", w.name).set("file", f.name).set("mode", 0);
                    os.push_back({o, w.name});
                } else { int o = load_text(v, f.name, 1); os.push_back({o, v.name}); }
                continue;
            }
            O& a = os[r.below(os.size())];
            VI v = byname(a.var);
            string n = "c" + to_string(caller) + "f" + to_string(r.below(4));
            if (u < 0.4) {
                auto t = conv_targets(a.var);
                if (t.empty()) continue;
                string to = pick(t);
                if (!fits(a.var, to)) continue;
                int o = conv(a.id, to); os.push_back({o, to});
            } else if (u < 0.5) op("sort").set("o", a.id).set("part", (int)r.below(2));
            else if (u < 0.58) {
                auto t = dedup_targets(a.var);
                if (t.empty()) continue;
                string to = pick(t); if (!fits(a.var, to)) continue;
                int o = nobj++; op("dedup").set("o", o).set("from", a.id).set("var", to); os.push_back({o, to});
            } else if (u < 0.62) op("transpose").set("o", a.id);
            else if (u < 0.66) op("poke").set("o", a.id).set("part", (int)r.below(2)).set("a", p(0.4) ? "w" : p(0.5) ? "x" : "y").set("i", r.below(5000)).set("j", r.below(5000)).set("v", r.below(1000));
            else if (u < 0.68 && (v.kind == ad::K_COO || v.kind == ad::K_TENSOR)) {
                // assignment between objects of one type, also onto released ones
                vector<int> same; for (auto& x : os) if (x.var == a.var) same.push_back(x.id);
                op("assign").set("o", pick(same)).set("from", a.id);
            } else if (u < 0.72) { int o = nobj++; op("copy").set("o", o).set("from", a.id); os.push_back({o, a.var}); }
            else if (u < 0.82) {
                n += ".bin";
                op("save").set("o", a.id).set("file", n);
                for (size_t k = 0; k < fs.size(); ++k) if (fs[k].name == n) { fs.erase(fs.begin() + k); --k; }
                if (v.kind != ad::K_MATRIX) fs.push_back({n, a.var, 'b'});
            } else if (u < 0.9 && (v.kind == ad::K_COO || v.kind == ad::K_TENSOR)) {
                n += ".txt";
                op("write").set("o", a.id).set("file", n);
                for (size_t k = 0; k < fs.size(); ++k) if (fs[k].name == n) { fs.erase(fs.begin() + k); --k; }
                if (v.kind == ad::K_COO && !v.lsigned && !v.wgt) fs.push_back({n, a.var, 't'});
            } else if (u < 0.94) op("nbr").set("o", a.id).set("part", (int)r.below(2));
            else if (u < 0.97) op("maxlab").set("o", a.id);
            else if (os.size() > 1 || p(0.2)) {
                op("free").set("o", a.id);
                if (v.kind == ad::K_COO || v.kind == ad::K_TENSOR) {
                    if (p(0.2)) op("free").set("o", a.id);
                    if (p(0.5)) { // give it new contents
                        int o = v.kind == ad::K_TENSOR ? make_tensor(v, sz(), false) : make_coo(v, sz(), std::min<uint64_t>(label_cap(v), 1500));
                        op("assign").set("o", a.id).set("from", o);
                        os.push_back({o, os[0].var}); os.back().var = v.name;
                    }
                }
            }
        }
        if (caller) for (size_t k = from; k < c.recs.size(); ++k) if (c.recs[k].type == "op") c.recs[k].set("c", caller);
    }
    // callers that read the same objects at the same time
    void p_shared() {
        maybe_threads();
        struct O { int id; string var; };
        vector<O> base;
        auto cap = [&](VI v) { return std::min<uint64_t>(label_cap(v), 1500); };
        int nb = 1 + (int)r.below(3);
        for (int i = 0; i < nb; ++i) {
            double u = r.unit();
            uint64_t n = std::min<uint64_t>(size(), 300);
            VI v = u < 0.45 ? coo(p(0.3)) : u < 0.65 ? csr() : u < 0.8 ? var([](VI x) { return x.kind == ad::K_TENSOR; }) : var([](VI x) { return x.kind == ad::K_GRAPH; });
            int o = v.kind == ad::K_COO ? make_coo(v, n, cap(v)) : v.kind == ad::K_TENSOR ? make_tensor(v, n, false) : make_csr(v, n, 1500);
            base.push_back({o, v.name});
            if (p(0.4)) {
                auto t = conv_targets(v.name);
                if (!t.empty()) { string to = pick(t); if (fits(v.name, to)) { int q = conv(o, to); base.push_back({q, to}); } }
            }
        }
        int n = 2 + (int)r.below(3);
        op("fork").set("mode", p(0.4) ? "par" : "spawn").set("n", n);
        bool same = p(0.5); O hot = pick(base); // all callers on one object
        for (int k = 1; k <= n; ++k) {
            size_t from = c.recs.size();
            vector<O> own; int files = 0;
            int m = 1 + (int)r.below(5);
            for (int i = 0; i < m; ++i) {
                O a = same ? hot : pick(base);
                VI v = byname(a.var);
                bool data = v.kind == ad::K_COO || v.kind == ad::K_TENSOR;
                double u = r.unit();
                string f = "c" + to_string(k) + "f" + to_string(files);
                if (u < 0.4) {
                    auto t = conv_targets(a.var);
                    if (t.empty()) continue;
                    string to = pick(t); if (!fits(a.var, to)) continue;
                    int o = conv(a.id, to); own.push_back({o, to});
                } else if (u < 0.55 && v.kind != ad::K_MATRIX) {
                    ++files; f += ".bin";
                    op("save").set("o", a.id).set("file", f);
                    if (p(0.4)) { int o = nobj++; op("load").set("o", o).set("var", a.var).set("file", f).set("mode", 0); own.push_back({o, a.var}); }
                } else if (u < 0.6 && (v.kind == ad::K_CSR || v.kind == ad::K_GRAPH)) { ++files; op("savein").set("o", a.id).set("file", f + ".bin").set("lead", r.below(20)).set("tail", 1 + r.below(9)); }
                else if (u < 0.72 && data) { ++files; op("write").set("o", a.id).set("file", f + ".txt"); }
                else if (u < 0.85 && data) { int o = nobj++; op("copy").set("o", o).set("from", a.id); own.push_back({o, a.var}); }
                else if (v.kind == ad::K_TENSOR) op("maxlab").set("o", a.id);
                else if (!data) op("nbr").set("o", a.id).set("part", (int)r.below(2));
                // and goes on with objects of its own
                if (!own.empty() && p(0.3)) {
                    O b = pick(own); VI w = byname(b.var); double z = r.unit();
                    if (z < 0.3) op("sort").set("o", b.id).set("part", (int)r.below(2));
                    else if (z < 0.5) op("transpose").set("o", b.id);
                    else if (z < 0.7) op("poke").set("o", b.id).set("part", (int)r.below(2)).set("a", p(0.4) ? "w" : p(0.5) ? "x" : "y").set("i", r.below(5000)).set("j", r.below(5000)).set("v", r.below(1000));
                    else if (z < 0.85 && w.name == a.var && data) op("assign").set("o", b.id).set("from", a.id);
                    else { op("free").set("o", b.id); for (size_t j = 0; j < own.size(); ++j) if (own[j].id == b.id) { own.erase(own.begin() + j); break; } }
                }
            }
            for (size_t j = from; j < c.recs.size(); ++j) if (c.recs[j].type == "op") c.recs[j].set("c", k);
        }
        op("end");
    }
    // programs of independent callers
    void p_concurrent() {
        int n = 2 + (int)r.below(3);
        bool par = p(0.4);
        // shared read-only input
        vector<std::pair<string, string>> shared;
        VI v = coo(p(0.3));
        TextOpt o; o.bad_header = false; o.n = std::min<uint64_t>(size(), 300);
        string f = coord_file(v, false, o);
        op("fork").set("mode", par ? "par" : "spawn").set("n", n);
        for (int k = 1; k <= n; ++k) {
            size_t from = c.recs.size();
            int sel = (int)r.below(4);
            if (sel == 0) { load_text(v, f, 1); load_text(v, f, 1); }
            else if (sel == 1) { int ob = load_text(v, f, 1); op("save").set("o", ob).set("file", "s" + to_string(k) + ".bin"); load_text(v, "s" + to_string(k) + ".bin", 2); }
            else if (sel == 2 && p(0.5)) {
                int h = 10 * k;
                op("fopen").set("h", h).set("file", f).set("cls", (int)r.below(2));
                op("ffind").set("h", h).set("ch", p(0.5) ? 10 : 49).set("type", (int)r.below(3));
                op("fpread").set("h", h).set("n", r.below(400));
                op("fclose").set("h", h);
                uint64_t sz = 1 + r.below(300);
                op("fopen").set("h", h + 1).set("file", "h" + to_string(k) + ".out").set("write", 1).set("size", sz).set("cls", (int)r.below(2));
                op("fpwrite").set("h", h + 1).set("n", r.below(sz + 1)).set("v", r.below(1u << 30));
                op("fclose").set("h", h + 1);
            }
            else { p_pipeline(2 + (int)r.below(5), k, 60); }
            for (size_t j = from; j < c.recs.size(); ++j) if (c.recs[j].type == "op") c.recs[j].set("c", k);
        }
        op("end");
    }
};

const char* fault_fns[] = {"fopen", "open", "fdopen", "fclose", "fseeko", "ftello", "fputc", "mmap", "madvise", "alloc", "fstat", "stat", "ftruncate", "fallocate", "msync", "fsync", "write", "pwrite", "read", "pread", "lseek", "fwrite", "fread", "fflush", "close", "dup"};

int err_of(const string& fn, Rng& r) {
    if (fn == "alloc") return ENOMEM;
    if (fn == "mmap") { int e[] = {ENOMEM, ENOMEM, EAGAIN, ENODEV}; return e[r.below(4)]; }
    if (fn == "madvise") { int e[] = {EIO, ENOMEM, EAGAIN}; return e[r.below(3)]; }
    if (fn == "open" || fn == "fopen") { int e[] = {EMFILE, ENFILE, EACCES, EIO, ENOSPC, EINTR, ENOMEM}; return e[r.below(7)]; }
    if (fn == "fallocate") { int e[] = {ENOSPC, EIO, EFBIG, EINTR, EINTR}; return e[r.below(5)]; }
    if (fn == "fclose" || fn == "fputc" || fn == "fseeko" || fn == "ftruncate" || fn == "fflush") { int e[] = {ENOSPC, EIO, EINTR}; return e[r.below(3)]; }
    return EIO;
}

typedef void (*Gen)(G&);
struct PropGen { const char* id; Gen g; };

void std_case(G& g, void (*prog)(G&)) { g.cfg(); g.sched(); prog(g); }

void g_small_any(G& g) {
    switch (g.r.below(15)) {
    case 0: g.p_el(false, false); break;
    case 1: g.p_el(true, g.p(0.4)); break;
    case 2: g.p_el(false, true); break;
    case 3: case 4: g.p_coo_csr(); break;
    case 5: g.p_csr_coo(); break;
    case 6: g.p_sort(); break;
    case 7: g.p_dedup(); break;
    case 8: g.p_graph(); break;
    case 9: g.p_tensor(); break;
    case 10: g.p_write(); break;
    case 11: g.p_binary(); break;
    case 12: g.p_find(); break;
    case 13: g.p_parts(); break;
    default: g.p_cursor(); break;
    }
}

#define STD(name, call) void name(G& g) { std_case(g, [](G& g) { call; }); }
STD(g_el, g.p_el(false, false))
STD(g_mm, g.p_el(true, g.p(0.25)))
STD(g_flags, g.p_el(g.p(0.3), true))
STD(g_coo_csr, g.p_coo_csr())
STD(g_csr_coo, g.p_csr_coo())
STD(g_sort, g.p_sort())
STD(g_dedup, g.p_dedup())
STD(g_graph, g.p_graph())
STD(g_tensor, g.p_tensor())
STD(g_write, g.p_write())
STD(g_binary, g.p_binary())
STD(g_dual, g.p_dual())
STD(g_find, g.p_find())
STD(g_cursor, g.p_cursor())
void with_fault(G& g);
void g_parts(G& g) { std_case(g, [](G& g) { g.p_parts(); if (g.p(0.05)) with_fault(g); }); for (auto& r : g.c.recs) if (r.type == "cfg" && g.p(0.25)) r.set("race", 1); }
void with_fault(G& g);
void g_handles(G& g) { std_case(g, [](G& g) { g.p_handles(); if (g.p(0.1)) with_fault(g); }); }
void g_copy(G& g) { std_case(g, [](G& g) { g.p_copy(); if (g.p(0.1)) with_fault(g); }); }
STD(g_edges, g.p_text_edges())

// one injected failure (or a row of them) at a call the program really makes
void with_fault(G& g) {
    RunOut probe = run_case(g.c);
    if (probe.violation || probe.calls.empty()) return;
    vector<std::pair<string, uint64_t>> av;
    for (auto* fn : fault_fns) { auto it = probe.calls[0].find(fn); if (it != probe.calls[0].end() && it->second) av.push_back({fn, it->second}); }
    if (av.empty()) return;
    auto& x = av[g.r.below(av.size())];
    Rec f("fault"); f.set("fn", x.first).set("nth", 1 + g.r.below(x.second)).set("err", err_of(x.first, g.r));
    if (g.p(0.25)) f.set("rep", 1 + (uint64_t)g.r.loguni(1, 100));
    size_t at = 0; while (at < g.c.recs.size() && (g.c.recs[at].type == "cfg" || g.c.recs[at].type == "sched")) ++at;
    g.c.recs.insert(g.c.recs.begin() + at, f);
}
void g_damaged(G& g);
void g_race(G& g) {
    int t = g.team(); if (t < 2) t = 2; if (t > 16) t = 4;
    bool dmg = g.p(0.06);
    if (dmg) g_damaged(g);
    else { g.cfg(t, g.p(0.7) ? 1 : 2); g.sched(); }
    for (auto& r : g.c.recs) if (r.type == "cfg") { r.set("race", 1); if (dmg) r.set("team", t); }
    if (dmg) return;
    if (g.p(0.08)) { if (g.p(0.3)) g.p_copy(); else g_small_any(g); with_fault(g); return; }
    if (g.p(0.15)) g.p_concurrent();
    else if (g.p(0.07)) g.p_shared();
    else if (g.p(0.12)) g.p_copy();
    else if (g.p(0.1)) g.p_dual();
    else if (g.p(0.1)) g.p_pipeline(6);
    else g_small_any(g);
}
void g_pipeline(G& g) { g.cfg(); g.sched(); bool f = g.p(0.08); g.p_pipeline(4 + (int)g.r.below(g.big && !f ? 30 : 16), 0, f || g.p(0.8) ? 120 : ~0ull); if (f) with_fault(g); }
void g_concurrent(G& g) { g.cfg(1 + (int)g.r.below(5), 1 + (int)g.r.below(3)); g.sched(); g.p_concurrent(); if (g.p(0.1)) with_fault(g); }
void g_shared(G& g) {
    g.cfg(1 + (int)g.r.below(5), 1 + (int)g.r.below(3));
    if (g.p(0.3)) g.c.recs.back().set("race", 1);
    g.sched(); g.p_shared();
    if (g.p(0.1)) with_fault(g);
}
void g_progress(G& g) {
    static const int t[] = {2, 3, 8, 16, 33, 64, 100, 128};
    g.cfg(t[g.r.below(8)], 1 + (int)g.r.below(2));
    Rec& x = g.c.add("sched");
    static const int pol[] = {sim::P_STALL, sim::P_STALL, sim::P_RTB, sim::P_PCT, sim::P_RR, sim::P_SYNC};
    x.set("policy", sim::policy_name[pol[g.r.below(6)]]).set("seed", g.r.below(1u << 30)).set("q", (uint64_t)g.r.loguni(10, 5000)).set("depth", 4).set("klen", 50000);
    double u = g.r.unit();
    if (u < 0.2) g.p_concurrent(); else if (u < 0.3) g.p_handles();
    else if (u < 0.37) { g_small_any(g); with_fault(g); }
    else if (u < 0.43) { vector<Rec> was; was.swap(g.c.recs); g_damaged(g); for (auto& r : g.c.recs) if (r.type != "cfg" && r.type != "sched") was.push_back(r); was.swap(g.c.recs); }
    else g_small_any(g);
}
void g_resources(G& g) {
    g.cfg(); g.sched();
    for (auto& r : g.c.recs) if (r.type == "cfg") r.set("leak", 1);
    if (g.p(0.2)) { if (g.p(0.2)) g.p_handles(); else if (g.p(0.1)) g.p_dual(); else g_small_any(g); with_fault(g); return; }
    double u = g.r.unit();
    if (u < 0.18) g.p_pipeline(6, 0, 100); else if (u < 0.3) g.p_copy(); else if (u < 0.42) g.p_dual(); else if (u < 0.57) g.p_handles(); else g_small_any(g);
}
void g_faults(G& g) {
    g.cfg(); g.sched();
    double u = g.r.unit();
    if (u < 0.15) g.p_dual();
    else if (u < 0.25) g.p_handles();
    else if (u < 0.32) g.p_copy();
    else if (u < 0.40) g.p_pipeline(5, 0, 100);
    else g_small_any(g);
    with_fault(g);
}
void g_diskfull(G& g) {
    g.cfg();
    g.c.recs.back().set("disk", 1 + g.r.below(12));
    g.sched();
}
void g_damaged(G& g) {
    g.cfg(); g.sched();
    VI v = g.var([](VI x) { return x.kind != ad::K_MATRIX; });
    string f = g.bin_file(v, std::min<uint64_t>(g.size(), 200), 500);
    // find the file record
    Rec* fr = nullptr;
    for (auto& r : g.c.recs) if (r.type == "file") fr = &r;
    uint64_t entries = 0; for (auto& r : g.c.recs) if (r.type == "e") ++entries;
    unsigned wb = v.wgt ? (v.wt == 'd' || v.wt == 'l' ? 8 : 4) : 0;
    uint64_t hdr = (v.kind == ad::K_TENSOR ? 13 + 2 + (v.wgt ? 1 : 0) + 2 * v.obits / 8 : 11 + 2 + 3 * v.lbits / 8 + v.obits / 8);
    uint64_t est = hdr + entries * (2 * v.lbits / 8 + wb) + (v.kind == ad::K_COO ? 0 : 64);
    uint64_t lo = hdr, ob = v.obits / 8, offs = 0; // where the offsets start, and how many there are
    if (v.kind != ad::K_COO && v.kind != ad::K_TENSOR) { offs = std::max(fr->u("n"), fr->u("nrows")) + 1; est += offs * ob; }
    if (v.kind == ad::K_DIGRAPH) { hdr += 15; lo = hdr; est *= 2; }
    fr->set("dmg", 1);
    double u = g.r.unit();
    if (u < 0.12) { // a count whose size in bytes is beyond 32 or 64 bits, and may wrap around to a small one
        uint64_t lb = v.lbits / 8, at, w;
        if (v.kind == ad::K_TENSOR) { w = ob; at = hdr - (g.p(0.5) ? ob : 2 * ob); }
        else if (v.kind == ad::K_COO) { bool m = g.p(0.6); w = m ? ob : lb; at = m ? hdr - ob : hdr - ob - lb * (1 + g.r.below(3)); }
        else { bool m = g.p(0.6); w = m ? ob : lb; uint64_t k = g.r.below(3); at = m ? hdr - ob - 2 * lb : k == 2 ? hdr - ob - 3 * lb : hdr - (1 + k) * lb; }
        uint64_t ord = std::max<uint64_t>(1, fr->u("order"));
        uint64_t es = v.kind == ad::K_TENSOR ? (g.p(0.5) ? ord * ob + (g.p(0.5) ? wb : 0) : ord) : v.kind == ad::K_COO ? 2 * lb + wb : w == ob ? lb + wb : ob;
        if (g.p(0.2)) es = lb;
        int bits = g.p(0.2) ? 32 : (int)(8 * w);
        if (w == 8 && g.p(0.6)) bits = 64;
        unsigned __int128 z = ((((unsigned __int128)1 << bits) * (1 + g.r.below(3)) + es - 1) / es) + (g.p(0.4) ? 0 : g.p(0.5) ? entries : g.r.below(40));
        if (g.p(0.15)) z -= 1 + g.r.below(40);
        for (uint64_t i = 0; i < w; ++i) fr->set("poke" + to_string(10 + i), to_string(at + i) + ":" + to_string((int)((uint64_t)z >> (8 * i) & 255)));
    } else if (u < 0.45) fr->set("cut", g.p(0.5) ? g.r.below(hdr + 8) : g.r.below(est + 1));
    else {
        int k = 1 + (int)g.r.below(3);
        for (int i = 0; i < k; ++i) {
            uint64_t off = g.p(0.75) ? g.r.below(hdr) : g.r.below(est);
            static const int vals[] = {0, 1, 255, 127, 128, 254, 2, 16};
            if (g.p(0.3)) { // a stored number that is a little off
                uint64_t z = offs && g.p(0.6) ? lo + ob * (g.p(0.4) ? 0 : g.p(0.3) ? offs - 1 : g.r.below(offs)) : g.r.below(hdr);
                fr->set("bump" + to_string(i), to_string(z) + ":" + to_string(g.p(0.5) ? 1 : g.p(0.5) ? -1 : (int)g.r.below(9) - 4));
                continue;
            }
            fr->set("poke" + to_string(i), to_string(off) + ":" + to_string(vals[g.r.below(8)]));
        }
        if (g.p(0.2)) fr->set("cut", g.r.below(est + 1));
    }
    if (g.p(0.15)) fr->set("grow", (uint64_t)1 + g.r.below(5000)).set("growc", (int)g.r.below(256));
    g.maybe_threads();
    int ft = v.kind == ad::K_TENSOR ? 5 : v.kind == ad::K_COO ? 2 : v.kind == ad::K_DIGRAPH ? 4 : 3;
    g.load_text(v, f, ft);
    if (g.p(0.2)) { VI w = g.var([&](VI x) { return x.kind == v.kind; }); g.load_text(w, f, ft); }
}
void g_crash(G& g) {
    // life 1: store something, die in the middle; life 2: look at the rest, do it again
    g.cfg();
    g.sched();
    VI v = g.var([](VI x) { return x.kind == ad::K_COO || x.kind == ad::K_TENSOR || x.kind == ad::K_CSR || x.kind == ad::K_GRAPH; });
    uint64_t m = std::max<uint64_t>(1, std::min<uint64_t>(g.size(), 600));
    string other = g.bytes_file(1 + g.r.below(6000), "abc", ".oth");
    bool text = (v.kind == ad::K_COO || v.kind == ad::K_TENSOR) && !(v.sym || v.ut || v.sl) && g.p(0.35);
    string f = text ? "out.txt" : "out.bin";
    size_t from = g.c.recs.size();
    auto build = [&]() { return v.kind == ad::K_TENSOR ? g.make_tensor(v, m, false) : v.kind == ad::K_COO ? g.make_coo(v, m, std::min<uint64_t>(g.label_cap(v), 3000)) : g.make_csr(v, m, 2000); };
    int o = build();
    string target = v.name; int tid = o;
    if (v.kind == ad::K_COO && !text && g.p(0.4)) {
        for (auto& t : g.conv_targets(v.name)) if (g.byname(t).kind == ad::K_DIGRAPH) { tid = g.conv(o, t); target = t; }
    }
    size_t to = g.c.recs.size();
    bool earlier = g.p(0.5);
    if (earlier) g.op(text ? "write" : "save").set("o", tid).set("file", g.p(0.3) ? f : string(text ? "old.txt" : "old.bin"));
    g.maybe_threads();
    g.op(text ? "write" : "save").set("o", tid).set("file", f);
    RunOut probe = run_case(g.c);
    if (probe.violation || probe.crash_points.empty() || !probe.crash_points[0]) return;
    uint64_t at = 1 + g.r.below(probe.crash_points[0]);
    if (g.p(0.3)) at = std::max<uint64_t>(1, probe.crash_points[0] - g.r.below(std::min<uint64_t>(20, probe.crash_points[0])));
    vector<Rec> prog(g.c.recs.begin() + from, g.c.recs.begin() + to);
    { Rec cr("crash"); cr.set("kind", g.p(0.5) ? "power" : "kill").set("at", at); size_t k = 0; while (k < g.c.recs.size() && (g.c.recs[k].type == "cfg" || g.c.recs[k].type == "sched")) ++k; g.c.recs.insert(g.c.recs.begin() + k, cr); }
    g.c.add("phase");
    g.cfg(); g.sched();
    VI tv = g.byname(target);
    int ft = tv.kind == ad::K_TENSOR ? 5 : tv.kind == ad::K_COO ? 2 : tv.kind == ad::K_DIGRAPH ? 4 : 3;
    g.nobj = 20;
    { Rec& l = g.op("load"); l.set("o", g.nobj++).set("var", target).set("file", f); if (text) l.set("mode", 1).set("ft", 1); else if (g.p(0.5)) l.set("mode", 1).set("ft", ft); }
    if (earlier && !text) { Rec& l = g.op("load"); l.set("o", g.nobj++).set("var", target).set("file", "old.bin"); }
    for (auto& r : prog) g.c.recs.push_back(r);
    g.op(text ? "write" : "save").set("o", tid).set("file", f);
    if (!text) g.op("load").set("o", g.nobj++).set("var", target).set("file", f).set("mode", 0);
    g.op("end");
}
void g_full(G& g) {
    // a nearly full disk: stores must report failure, not kill the process
    g.cfg();
    int disk_at = (int)g.c.recs.size() - 1;
    g.sched();
    double u = g.r.unit();
    if (u < 0.4) g.p_write(); else if (u < 0.8) g.p_binary(); else g.p_handles();
    g.c.recs[disk_at].set("disk", 1 + g.r.below(g.p(0.5) ? 3 : 10));
    if (g.p(0.2)) { // reserving the space is interrupted
        Rec f("fault"); f.set("fn", "fallocate").set("nth", 1 + g.r.below(3)).set("err", EINTR).set("rep", 1 + g.r.below(3));
        g.c.recs.insert(g.c.recs.begin() + disk_at + 1, f);
    }
}
// labels so large that the rows of a CSR do not fit into memory
void g_huge(G& g) {
    g.cfg(); g.sched();
    g.maybe_threads();
    if (g.p(0.3)) g.make_coo(g.coo(), g.r.below(20), ~0ull); // must survive
    VI v = g.var([](VI x) { return x.kind == ad::K_COO && x.lbits - x.lsigned >= 31 && !x.sym && !x.sl && !x.ut; });
    auto t = g.conv_targets(v.name);
    vector<string> d;
    for (auto& x : t) { VI w = g.byname(x); if (w.kind != ad::K_COO && w.lbits - w.lsigned >= 31) d.push_back(x); }
    if (d.empty()) return;
    VI w = g.byname(g.pick(d));
    uint64_t least = (700ull << 20) / (w.obits / 8), most = std::min<uint64_t>(std::min(g.label_cap(v), g.label_cap(w)), 1ull << 34);
    uint64_t big = g.p(0.3) ? most : least + g.r.below(most - least);
    uint64_t n = 1 + g.r.below(40), at = g.r.below(n);
    bool text = g.p(0.5), mm = text && g.p(0.3);
    Style s = g.style(); s.zeros = false;
    string name = g.fname(mm ? ".mtx" : ".el");
    if (text) g.c.add("file").set("name", name).set("fmt", mm ? "mm" : "el");
    else g.op("make").set("o", g.nobj).set("var", v.name).set("nrows", big + 1).set("ncols", big + 1).set("n", big + 1);
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t x = g.r.below(30), y = g.r.below(30);
        if (i == at) x = big;
        if (text) g.c.line("l", g.el_line(w, x, y, s, false)); else g.c.line("e", to_string(x) + " " + to_string(y) + (v.wgt ? " 1" : ""));
    }
    if (text) g.load_text(w, name, mm ? 0 : 1);
    else { g.conv(g.nobj++, w.name); }
    if (g.p(0.3)) { string f = g.coord_file(g.byname("coo0"), false); g.load_text(g.byname("coo0"), f, 1); } // life goes on
    g.end();
}
void g_fault_or_full(G& g) { double u = g.r.unit(); if (u < 0.13) g_full(g); else if (u < 0.18) g_huge(g); else g_faults(g); }

PropGen props[] = {
    {"edge-list-load", g_el}, {"matrix-market-load", g_mm}, {"read-options", g_flags}, {"coo-to-csr", g_coo_csr}, {"csr-to-coo", g_csr_coo},
    {"row-sort", g_sort}, {"duplicate-removal", g_dedup}, {"adjacency-load", g_graph}, {"tensor-load", g_tensor}, {"ascii-write", g_write},
    {"binary-roundtrip", g_binary}, {"in-out-duality", g_dual}, {"find-offsets", g_find}, {"cursor-io", g_cursor}, {"race-freedom", g_race},
    {"failure-reporting", g_fault_or_full}, {"damaged-binary", g_damaged}, {"file-ownership", g_handles}, {"independent-callers", g_concurrent}, {"deep-copies", g_copy},
    {"text-boundaries", g_edges}, {"pipelines", g_pipeline}, {"crash-safety", g_crash}, {"progress", g_progress}, {"resource-release", g_resources},
    {"shared-positions", g_parts}, {"shared-objects", g_shared},
};
} // namespace

std::vector<string> all_props() { vector<string> v; for (auto& p : props) v.push_back(p.id); return v; }
bool gen_case(const string& prop, uint64_t seed, bool big, Case& out) {
    for (auto& p : props)
        if (prop == p.id) {
            out = Case(); out.prop = prop; out.seed = seed;
            G g(out, seed ^ sim::fnvs(prop), big);
            p.g(g);
            // these claim that nothing outside the file's bytes is touched
            if (prop == "text-boundaries" || prop == "damaged-binary" || prop == "race-freedom")
                for (auto& x : out.recs) if (x.type == "cfg") x.set("tail", 1);
            return true;
        }
    return false;
}

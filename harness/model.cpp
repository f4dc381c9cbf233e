#include "model.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
namespace model {
using std::string; using std::vector; using std::to_string;

static bool dig(char c) { return c >= '0' && c <= '9'; }
vector<string> split_lines(const string& b) {
    vector<string> v; string cur;
    for (char c : b) { if (c == '\n') { v.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) v.push_back(cur);
    return v;
}
static string strip(const string& l0) {
    string l = l0;
    size_t p = l.find_first_of("#%");
    if (p != string::npos) l.resize(p);
    return l;
}
bool is_comment_or_blank(const string& l) {
    for (char c : strip(l)) if (dig(c)) return false;
    return true;
}
// maximal runs of characters that can be part of a number
vector<string> tokens(const string& l0) {
    string l = strip(l0);
    vector<string> t; string cur;
    for (char c : l) {
        if (dig(c) || c == '.' || c == '-' || c == '+' || ((c == 'e' || c == 'E') && !cur.empty())) cur += c;
        else { if (!cur.empty()) t.push_back(cur); cur.clear(); }
    }
    if (!cur.empty()) t.push_back(cur);
    return t;
}
long double narrow_w(char wt, long double v) {
    switch (wt) {
    case 'f': return (float)v;
    case 'd': return (double)v;
    case 'i': return (int)(int64_t)v;
    case 'u': return (unsigned)(int64_t)v;
    case 'l': return (int64_t)v;
    }
    return v;
}
uint64_t mask_bits(uint64_t v, unsigned bits) { return bits >= 64 ? v : v & ((1ull << bits) - 1); }
double text_tol(char wt) { return wt == 'f' ? 2e-6 : wt == 'd' ? 1e-12 : 0; }

uint64_t max_label(unsigned bits, bool is_signed) {
    unsigned b = bits - (is_signed ? 1 : 0);
    return b >= 64 ? ~0ull : (1ull << b) - 1;
}
static bool label_ok(const string& t, uint64_t max) {
    for (char c : t) if (!dig(c)) return false;
    __uint128_t v = 0;
    for (char c : t) if ((v = v * 10 + (unsigned)(c - '0')) > max) return false;
    return true;
}
static bool weight_ok(const string& t, char wt) {
    if (wt == 'u' && (t[0] == '-' || t[0] == '+')) return false;
    char* e = nullptr;
    (void)strtold(t.c_str(), &e);
    return e == t.c_str() + t.size();
}
ParsedEL parse_el(const string& bytes, bool weighted, char wt, bool mm, uint64_t max) {
    ParsedEL r; r.mm = mm;
    bool hdr = mm;
    auto lines = split_lines(bytes);
    for (auto& l : lines) {
        if (is_comment_or_blank(l)) continue;
        auto t = tokens(l);
        if (hdr) {
            hdr = false;
            if (t.size() >= 3) { r.hr = strtoull(t[0].c_str(), 0, 10); r.hc = strtoull(t[1].c_str(), 0, 10); r.hn = strtoull(t[2].c_str(), 0, 10); }
            continue;
        }
        bool last = &l == &lines.back() && bytes.back() != '\n'; // can be cut off
        if (t.size() < 2 ? !last : !label_ok(t[0], max - 1) || !label_ok(t[1], max - 1)) r.odd = true;
        if (weighted && (t.size() < 3 ? !last : !weight_ok(t[2], wt))) r.odd = true;
        if (t.size() < 2) continue;
        Ent e; e.x = strtoull(t[0].c_str(), 0, 10); e.y = strtoull(t[1].c_str(), 0, 10); e.w = 0;
        if (weighted && t.size() >= 3) e.w = narrow_w(wt, strtold(t[2].c_str(), 0));
        r.ents.push_back(e);
    }
    return r;
}
ParsedGraph parse_graph(const string& bytes, uint64_t max) {
    ParsedGraph g; bool hdr = true;
    for (auto& l : split_lines(bytes)) {
        bool comment_line = !l.empty() && (l[0] == '#' || l[0] == '%');
        if (hdr) {
            if (is_comment_or_blank(l)) continue;
            auto t = tokens(l);
            g.n = strtoull(t[0].c_str(), 0, 10);
            if (t.size() > 1) g.m = strtoull(t[1].c_str(), 0, 10);
            hdr = false;
            continue;
        }
        if (comment_line) continue;
        vector<uint64_t> row;
        for (auto& t : tokens(l)) { uint64_t v = strtoull(t.c_str(), 0, 10); if (!label_ok(t, max - 1)) g.odd = true; if (t == "0") g.zero = true; row.push_back(v); }
        g.rows.push_back(row);
    }
    return g;
}
ParsedTensor parse_tensor(const string& bytes, bool weighted, char wt, uint64_t max) {
    ParsedTensor r;
    auto lines = split_lines(bytes);
    for (auto& l : lines) {
        if (is_comment_or_blank(l)) continue;
        auto t = tokens(l);
        size_t ord = t.size() - (weighted ? 1 : 0);
        if (!r.m) r.order = ord;
        bool last = &l == &lines.back() && bytes.back() != '\n';
        if (t.size() < r.order + (weighted ? 1 : 0) && !last) r.odd = true;
        for (size_t i = 0; i < r.order && i < t.size(); ++i) if (!label_ok(t[i], max)) r.odd = true;
        if (weighted && t.size() > r.order && !weight_ok(t[r.order], wt)) r.odd = true;
        for (size_t i = 0; i < r.order && i < t.size(); ++i) r.c.push_back(strtoull(t[i].c_str(), 0, 10));
        if (weighted && t.size() > r.order) r.w.push_back(narrow_w(wt, strtold(t[r.order].c_str(), 0)));
        r.m++;
    }
    return r;
}
Ents apply_flags(const Ents& in, bool sym, bool ut, bool sl) {
    Ents o;
    for (Ent e : in) {
        if (sl && e.x == e.y) continue;
        if (ut && !sym && e.x > e.y) continue;
        if (sym && ut && e.x > e.y) std::swap(e.x, e.y);
        o.push_back(e);
        if (sym && !ut && e.x != e.y) o.push_back(Ent{e.y, e.x, e.w});
    }
    return o;
}
int64_t sext(uint64_t v, unsigned bits) {
    if (bits >= 64) return (int64_t)v;
    uint64_t m = 1ull << (bits - 1);
    return (int64_t)((v ^ m) - m);
}
static void le(string& s, uint64_t v, unsigned bits) { for (unsigned i = 0; i < bits; i += 8) s += (char)(v >> i); }
static void lew(string& s, char wt, long double w) {
    switch (wt) {
    case 'f': { float f = (float)w; s.append((char*)&f, 4); break; }
    case 'd': { double f = (double)w; s.append((char*)&f, 8); break; }
    case 'i': { int f = (int)w; s.append((char*)&f, 4); break; }
    case 'u': { unsigned f = (unsigned)w; s.append((char*)&f, 4); break; }
    default: { int64_t f = (int64_t)w; s.append((char*)&f, 8); break; }
    }
}
string enc_coo(const VarInfo& v, const Dump& d) {
    string s = "PIGO-COO-v1";
    le(s, v.lbits / 8, 8); le(s, v.obits / 8, 8);
    le(s, d.nrows, v.lbits); le(s, d.ncols, v.lbits); le(s, d.n, v.lbits); le(s, d.m, v.obits);
    for (auto x : d.x) le(s, x, v.lbits);
    for (auto x : d.y) le(s, x, v.lbits);
    if (v.wgt) for (auto w : d.w) lew(s, v.wt, w);
    return s;
}
string enc_csr(const VarInfo& v, const Dump& d) {
    string s = "PIGO-CSR-v2";
    le(s, v.lbits / 8, 8); le(s, v.obits / 8, 8);
    le(s, d.n, v.lbits); le(s, d.m, v.obits); le(s, d.nrows, v.lbits); le(s, d.ncols, v.lbits);
    for (auto x : d.x) le(s, x, v.obits);
    for (auto x : d.y) le(s, x, v.lbits);
    if (v.wgt) for (auto w : d.w) lew(s, v.wt, w);
    return s;
}
string enc_di(const VarInfo& v, const Dump& in, const Dump& out) { return "PIGO-DiGraph-v1" + enc_csr(v, in) + enc_csr(v, out); }
string enc_tensor(const VarInfo& v, const Dump& d) {
    string s = "PIGO-Tensor-2";
    // the header constant of the format
    le(s, v.lbits / 8, 8); le(s, v.obits / 8, 8);
    if (v.wgt) le(s, v.wt == 'd' || v.wt == 'l' ? 8 : 4, 8);
    le(s, d.order, v.obits); le(s, d.m, v.obits);
    for (auto x : d.x) le(s, x, v.lbits);
    if (v.wgt) for (auto w : d.w) lew(s, v.wt, w);
    return s;
}
static string num(const VarInfo& v, uint64_t x) { return v.lsigned ? to_string(sext(x, v.lbits)) : to_string(mask_bits(x, v.lbits)); }
static string wnum(const VarInfo& v, long double w, bool& exact) {
    if (v.wt == 'f' || v.wt == 'd') {
        long double q = w * 64;
        if (!(std::fabs((double)w) < 1e9) || q != std::floor((double)q)) exact = false;
        char b[512]; snprintf(b, sizeof b, "%.6f", (double)w);
        return b;
    }
    return to_string((long long)w);
}
string write_text(const VarInfo& v, const Dump& d, bool& exact) {
    string s; exact = true;
    for (uint64_t i = 0; i < d.m; ++i) {
        if (v.kind == ad::K_TENSOR) {
            for (uint64_t k = 0; k < d.order; ++k) { if (k) s += ' '; s += num(v, d.x[i * d.order + k]); }
        } else s += num(v, d.x[i]) + " " + num(v, d.y[i]);
        if (v.wgt) s += " " + wnum(v, d.w[i], exact);
        s += "\n";
    }
    return s;
}
string cmp_text(const VarInfo& v, const Dump& d, const string& got) {
    bool exact;
    string want = write_text(v, d, exact);
    if (want == got) return "";
    if (exact) {
        size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
        auto ctx = [&](const string& s) { string r; for (size_t k = i > 12 ? i - 12 : 0; k < s.size() && k < i + 12; ++k) { char c = s[k]; if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)c); r += b; } else r += c; } return r; };
        return "text differs from the exact rendering at byte " + to_string(i) + " (sizes " + to_string(got.size()) + "/" + to_string(want.size()) + "): got '" + ctx(got) + "' want '" + ctx(want) + "'";
    }
    auto gl = split_lines(got), wl = split_lines(want);
    if (got.empty() || got.back() != '\n') return "text does not end in a newline";
    if (gl.size() != wl.size()) return "text has " + to_string(gl.size()) + " lines, want " + to_string(wl.size());
    for (size_t i = 0; i < gl.size(); ++i) {
        size_t a = gl[i].rfind(' '), b = wl[i].rfind(' ');
        if (a == string::npos || gl[i].substr(0, a) != wl[i].substr(0, b)) return "line " + to_string(i + 1) + " is '" + gl[i] + "', want '" + wl[i] + "'";
        char* e; long double gw = strtold(gl[i].c_str() + a + 1, &e);
        if (*e || e == gl[i].c_str() + a + 1) return "line " + to_string(i + 1) + ": '" + gl[i] + "' does not end in a number";
        long double ww = d.w[i];
        if (std::fabs((double)(gw - ww)) > 1e-6 + 1e-9 * std::fabs((double)ww)) return "line " + to_string(i + 1) + " is '" + gl[i] + "', want '" + wl[i] + "'";
    }
    return "";
}
static bool weq(long double a, long double b, double tol) {
    if (a == b) return true;
    if (tol == 0) return false;
    long double m = std::max(std::fabs((double)a), std::fabs((double)b));
    return std::fabs((double)(a - b)) <= tol * m + 1e-30;
}
static string es(const Ent& e, bool wgt) {
    string s = "(" + to_string(e.x) + "," + to_string(e.y);
    if (wgt) { char b[64]; snprintf(b, 64, ",%.9g", (double)e.w); s += b; }
    return s + ")";
}
static string cmp_dims(const Dump& g, const Dims& d) {
    if (!d.known) return "";
    if (g.nrows != d.nrows || g.ncols != d.ncols)
        return "dimensions are " + to_string(g.nrows) + "x" + to_string(g.ncols) + ", want " + to_string(d.nrows) + "x" + to_string(d.ncols);
    if (g.n != d.n) return "n is " + to_string(g.n) + ", want " + to_string(d.n);
    return "";
}
static bool lt(const Ent& a, const Ent& b) { return a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.w < b.w; }
static string cmp_ents(Ents a, Ents b, bool wgt, double tol, bool ordered, const char* what) {
    if (a.size() != b.size()) return string(what) + " has " + to_string(a.size()) + " entries, want " + to_string(b.size());
    if (!ordered) { std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); }
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].x != b[i].x || a[i].y != b[i].y || (wgt && !weq(a[i].w, b[i].w, tol)))
            return string(what) + (ordered ? ": entry " : ": entry (in sorted order) ") + to_string(i) + " of " + to_string(a.size()) + " is " + es(a[i], wgt) + ", want " + es(b[i], wgt);
    return "";
}
Ents coo_ents(const Dump& d) {
    Ents e(d.x.size());
    for (size_t i = 0; i < d.x.size(); ++i) e[i] = Ent{d.x[i], d.y[i], d.w.empty() ? 0 : d.w[i]};
    return e;
}
Ents csr_ents(const Dump& d) {
    Ents e; e.reserve(d.m);
    for (uint64_t v = 0; v < d.rows(); ++v)
        for (uint64_t p = d.x[v]; p < d.x[v + 1]; ++p) e.push_back(Ent{v, d.y[p], d.w.empty() ? 0 : d.w[p]});
    return e;
}
Ents swapped(const Ents& in) { Ents e = in; for (auto& x : e) std::swap(x.x, x.y); return e; }
string cmp_coo(const Dump& g, const Ents& e, const Dims& dims, bool wgt, double tol, bool ordered) {
    if (!g.bad.empty()) return g.bad;
    if (g.m != e.size()) return "m is " + to_string(g.m) + ", want " + to_string(e.size());
    string r = cmp_ents(coo_ents(g), e, wgt, tol, ordered, "COO");
    if (!r.empty()) return r;
    return cmp_dims(g, dims);
}
string check_csr_shape(const Dump& g) {
    if (!g.bad.empty()) return g.bad;
    if (g.x.empty() || g.x[0] != 0) return "offsets[0] is " + (g.x.empty() ? string("missing") : to_string(g.x[0])) + ", want 0";
    for (uint64_t v = 0; v < g.rows(); ++v) if (g.x[v] > g.x[v + 1]) return "offsets decrease at vertex " + to_string(v) + " (" + to_string(g.x[v]) + " then " + to_string(g.x[v + 1]) + ")";
    if (g.x[g.rows()] != g.m) return "the last offset is " + to_string(g.x[g.rows()]) + ", want m=" + to_string(g.m);
    return "";
}
string cmp_csr(const Dump& g, uint64_t n, const Ents& e, const Dims& dims, bool wgt, double tol) {
    if (!g.bad.empty()) return g.bad;
    if (g.n != n) return "n is " + to_string(g.n) + ", want " + to_string(n);
    if (g.m != e.size()) return "m is " + to_string(g.m) + ", want " + to_string(e.size());
    string r = check_csr_shape(g);
    if (!r.empty()) return r;
    // per-row multisets
    r = cmp_ents(csr_ents(g), e, wgt, tol, false, "CSR");
    if (!r.empty()) return r;
    return cmp_dims(g, dims);
}
string cmp_same(const Dump& a, const Dump& b) {
    if (!a.bad.empty()) return a.bad;
    if (a.n != b.n || a.nrows != b.nrows || a.ncols != b.ncols || a.m != b.m || a.order != b.order)
        return "counts are n=" + to_string(a.n) + " " + to_string(a.nrows) + "x" + to_string(a.ncols) + " m=" + to_string(a.m) + " order=" + to_string(a.order) +
            ", want n=" + to_string(b.n) + " " + to_string(b.nrows) + "x" + to_string(b.ncols) + " m=" + to_string(b.m) + " order=" + to_string(b.order);
    auto diff = [](const char* nm, const auto& p, const auto& q) -> string {
        if (p.size() != q.size()) return string(nm) + " has " + to_string(p.size()) + " elements, want " + to_string(q.size());
        for (size_t i = 0; i < p.size(); ++i) if (!(p[i] == q[i]) && (p[i] == p[i] || q[i] == q[i])) return string(nm) + "[" + to_string(i) + "] is " + to_string(p[i]) + ", want " + to_string(q[i]);
        return "";
    };
    string r = diff("x/offsets", a.x, b.x);
    if (r.empty()) r = diff("y/endpoints", a.y, b.y);
    if (r.empty()) r = diff("weights", a.w, b.w);
    return r;
}
} // namespace model

// Interpreter: runs the operations of a case inside the simulator and checks
// every result against the reference model.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <sstream>
#include "adapters/api.hpp"
#include "case.hpp"
#include "model.hpp"

using namespace model;
using std::string; using std::to_string; using std::vector;

namespace {

struct MObj {
    std::unique_ptr<ad::Obj> p;
    const ad::VarInfo* vi = nullptr;
    ad::Dump d[2];
    bool dead = false;   // storage was released
    bool opaque = false; // loaded from a damaged file: contents unknown
};
struct MFile { string bytes; uint64_t hole = 0; /* zeros in front of the bytes */ bool known = true; bool damaged = false; int wgt = -1; /* binary files: written with weights */ };
struct MHandle {
    std::unique_ptr<ad::FileH> p;
    string file;
    bool wr = false, moved = false, open = false;
    uint64_t size = 0, pos = 0;
    vector<int> mask;    // for written files: byte value or -1
    bool apart = false;  // the name is another file's by now
    string own; uint64_t hole = 0; // what the file of an apart handle holds
};

struct World {
    std::map<string, MFile> files;
    std::map<int, std::unique_ptr<MObj>> objs;
    std::map<int, std::unique_ptr<MHandle>> handles;
    vector<const Rec*> ops;   // of this phase
    vector<size_t> op_pos;    // index in the case
    std::map<size_t, vector<string>> payload; // e lines per op (index in ops)
    RunStats* st = nullptr;
    bool faults = false, concurrent = false;
    std::set<string> writing; // files being produced right now
    std::set<string> dirty;   // files written in this process life
    bool leak = false;
    int live_callers = 0;
    bool in_retry = false, disarmed = false, parts = false;
};

[[noreturn]] void bad(const Rec& op, const string& d) { string s = "op"; for (auto& kv : op.kv) s += " " + kv.first + "=" + kv.second; sim::fail("WRONG", s + ": " + d); }

string stname(int c) {
    switch (c) { case ad::ST_OK: return "ok"; case ad::ST_ERROR: return "pigo::Error"; case ad::ST_ALLOC: return "std::bad_alloc"; case ad::ST_STD: return "std::exception"; case ad::ST_OTHER: return "other"; }
    return "unsupported";
}

struct Interp {
    World& w;
    Interp(World& w) : w(w) {}

    MObj* obj(const Rec& op, const char* k) {
        auto it = w.objs.find((int)op.i(k));
        return it == w.objs.end() ? nullptr : it->second.get();
    }
    MHandle* handle(const Rec& op, const char* k) {
        auto it = w.handles.find((int)op.i(k));
        return it == w.handles.end() ? nullptr : it->second.get();
    }
    uint64_t open_handles() { uint64_t n = 0; for (auto& h : w.handles) if (h.second->open && !h.second->moved && h.second->size) ++n; return n; }

    // resources held by the process match what the program still owns
    void check_resources(const Rec& op, const char* when) {
        if (w.concurrent) return;
        ++w.st->checks;
        if (sim::bad_munmaps()) bad(op, string(when) + ": a mapping was released that this handle does not own (munmap of an unmapped range)");
        if (sim::count_open_fds() != 0) bad(op, string(when) + ": " + to_string(sim::count_open_fds()) + " file descriptor(s)/stream(s) left open");
        if (sim::count_live_maps() != open_handles()) bad(op, string(when) + ": " + to_string(sim::count_live_maps()) + " file mapping(s) alive, want " + to_string(open_handles()));
    }
    void check_files(const Rec& op, const string& except) {
        ++w.st->checks;
        for (auto& f : w.files) {
            if (f.first == except || !f.second.known || w.writing.count(f.first)) continue;
            if (!sim::fs_exists(f.first)) bad(op, "file " + f.first + " disappeared");
            if (sim::fs_get(f.first) != f.second.bytes) bad(op, "file " + f.first + " was modified although no operation wrote it");
        }
        if (!w.concurrent)
            for (auto& n : sim::fs_list())
                if (!w.files.count(n) && n != except) bad(op, "unexpected file " + n + " appeared");
    }
    string same(MObj& m) {
        int parts = two(*m.vi) ? 2 : 1;
        for (int i = 0; i < parts; ++i) {
            string r = cmp_same(m.p->dump(i), m.d[i]);
            if (!r.empty()) return (i ? "second part: " : "") + r;
        }
        return "";
    }
    static bool two(const ad::VarInfo& v) { return v.kind == ad::K_DIGRAPH || v.kind == ad::K_MATRIX; }
    static bool csrlike(const ad::VarInfo& v) { return v.kind == ad::K_CSR || v.kind == ad::K_GRAPH; }
    void check_obj(const Rec& op, MObj* m, const char* what) {
        if (!m || m->dead || m->opaque || !m->p) return;
        ++w.st->checks;
        string r = same(*m);
        if (!r.empty()) bad(op, string(what) + " changed: " + r);
    }
    void check_all(const Rec& op, MObj* except) {
        for (auto& o : w.objs) if (o.second.get() != except) check_obj(op, o.second.get(), ("object " + to_string(o.first)).c_str());
    }

    // Runs `f`; deals with injected faults. Returns false when the operation
    // failed because of a fault (and was then repeated with success by `f`
    // after disarming, if retry is set).
    // after: what must hold between a failure and the repetition
    template <class F> ad::Status attempt(const Rec& op, F f, const string& outfile, MObj* mutated, bool retry = true) {
        if (!outfile.empty()) { w.writing.insert(outfile); w.dirty.insert(outfile); }
        ad::Status s = f();
        if (!s.ok() && s.code != ad::ST_UNSUPPORTED && w.faults && sim::any_fault_fired()) {
            if (s.code != ad::ST_ERROR && s.code != ad::ST_ALLOC)
                bad(op, "an injected failure surfaced as " + stname(s.code) + " (" + s.what + ") instead of pigo::Error or std::bad_alloc");
            check_resources(op, "after a failed operation");
            w.leak = false; // a failed construction may abandon storage
            if (!w.concurrent) { check_files(op, outfile); check_all(op, mutated); }
            if (retry) {
                sim::arm(false);
                s = f();
                if (!s.ok()) bad(op, "repeating the operation without faults fails: " + stname(s.code) + " " + s.what);
                if (w.concurrent) w.disarmed = true; else w.faults = false; // (another caller may still see its failure)
            }
        }
        return s;
    }
    void must_ok(const Rec& op, const ad::Status& s) {
        if (s.code == ad::ST_UNSUPPORTED) bad(op, "harness: unsupported operation");
        if (!s.ok()) bad(op, "failed with " + stname(s.code) + ": " + s.what);
    }

    // a step that may fail (and do nothing) only if a call was made to fail
    template <class F> ad::Status again(F f) {
        ad::Status s = f();
        if ((s.code == ad::ST_ERROR || s.code == ad::ST_ALLOC) && w.faults && sim::any_fault_fired()) { sim::arm(false); if (w.concurrent || w.parts) w.disarmed = true; else w.faults = false; s = f(); }
        return s;
    }
    // an object with an offset per row, too large for the simulated machine
    static bool too_large(const ad::VarInfo& v, uint64_t rows) {
        return v.kind != ad::K_COO && v.kind != ad::K_TENSOR && rows > (600ull << 20) / (v.obits / 8);
    }
    void must_report(const Rec& op, const ad::Status& s) { // memory runs out
        ++w.st->checks;
        if (s.ok()) bad(op, "succeeded, but the offsets of the rows do not fit into memory");
        if (s.code != ad::ST_ERROR && s.code != ad::ST_ALLOC) bad(op, "memory running out is reported as " + stname(s.code) + " (" + s.what + ")");
        w.leak = false; // a failed construction may abandon storage
        check_resources(op, "after memory ran out");
        if (!w.concurrent) { check_all(op, nullptr); check_files(op, ""); }
    }
    // ------------------------------------------------------------ loading
    enum Fmt { F_EL, F_MM, F_GRAPH, F_COOB, F_CSRB, F_DIB, F_TENB, F_OTHER };
    static bool starts(const string& b, const char* h) { size_t n = strlen(h); return b.size() >= n && b.compare(0, n, h) == 0; }
    static bool ends(const string& s, const char* e) { size_t n = strlen(e); return s.size() >= n && s.compare(s.size() - n, n, e) == 0; }
    static Fmt by_type(int ft, const string& name, const string& b) {
        switch (ft) { case 0: return F_MM; case 1: return F_EL; case 2: return F_COOB; case 3: return F_CSRB; case 4: return F_DIB; case 5: return F_TENB; case 6: return F_GRAPH; }
        if (starts(b, "PIGO-COO-v1")) return F_COOB;
        if (starts(b, "PIGO-CSR-v2")) return F_CSRB;
        if (starts(b, "PIGO-DiGraph-v1")) return F_DIB;
        if (starts(b, "PIGO-Tensor-2")) return F_TENB;
        if (starts(b, "PIGO")) return F_OTHER;
        if (ends(name, ".mtx")) return F_MM;
        if (ends(name, ".graph")) return F_GRAPH;
        return F_EL;
    }
    struct Exp {           // what a load must give
        bool err = false; string why;
        bool any = false;  // no claim beyond "error or object"
        bool dmg = false;  // of a damaged file: memory may run out as well
        bool bin = false;  // ... but a binary file: the offsets fit the counts
        bool coo = false, csr = false, di = false, mat = false, ten = false, exact = false;
        Ents ents; Dims dims; double tol = 0; bool ordered = true; uint64_t n = 0;
        ad::Dump d[2];
        bool adj = false; // an adjacency file: the order within rows is kept
    };
    static uint64_t rd(const string& b, size_t& p, unsigned bits) { uint64_t v = 0; for (unsigned i = 0; i < bits / 8; ++i) v |= (uint64_t)(unsigned char)b[p++] << (8 * i); return v; }
    static long double rdw(const string& b, size_t& p, char wt) {
        if (wt == 'f') { float f; memcpy(&f, b.data() + p, 4); p += 4; return f; }
        if (wt == 'd') { double f; memcpy(&f, b.data() + p, 8); p += 8; return f; }
        if (wt == 'l') { int64_t f; memcpy(&f, b.data() + p, 8); p += 8; return f; }
        if (wt == 'i') { int f; memcpy(&f, b.data() + p, 4); p += 4; return f; }
        unsigned f; memcpy(&f, b.data() + p, 4); p += 4; return f;
    }
    // decode well-formed binary contents for a variant's widths; false: malformed or of other
    // widths. soft: only the values are strange, otherwise it is another format or too short
    static bool& soft() { static bool s; return s; }
    static bool dec_coo(const ad::VarInfo& v, const string& b, size_t& p, ad::Dump& d) {
        unsigned wb = v.wt == 'd' || v.wt == 'l' ? 8 : 4;
        if (p > b.size() || b.compare(p, 11, "PIGO-COO-v1") != 0) return false;
        p += 11;
        if (b.size() < p + 2 + 3 * v.lbits / 8 + v.obits / 8) return false;
        if ((unsigned char)b[p] != v.lbits / 8 || (unsigned char)b[p + 1] != v.obits / 8) return false;
        p += 2;
        d.nrows = rd(b, p, v.lbits); d.ncols = rd(b, p, v.lbits); d.n = rd(b, p, v.lbits); d.m = rd(b, p, v.obits);
        __uint128_t need = (__uint128_t)d.m * (2 * v.lbits / 8 + (v.wgt ? wb : 0));
        if (need > b.size() - p) return false;
        for (uint64_t i = 0; i < d.m; ++i) d.x.push_back(rd(b, p, v.lbits));
        for (uint64_t i = 0; i < d.m; ++i) d.y.push_back(rd(b, p, v.lbits));
        if (v.wgt) for (uint64_t i = 0; i < d.m; ++i) d.w.push_back(rdw(b, p, v.wt));
        return true;
    }
    static bool dec_csr(const ad::VarInfo& v, const string& b, size_t& p, ad::Dump& d) {
        unsigned wb = v.wt == 'd' || v.wt == 'l' ? 8 : 4;
        if (p > b.size() || b.compare(p, 11, "PIGO-CSR-v2") != 0) return false;
        p += 11;
        if (b.size() < p + 2 + 3 * v.lbits / 8 + v.obits / 8) return false;
        if ((unsigned char)b[p] != v.lbits / 8 || (unsigned char)b[p + 1] != v.obits / 8) return false;
        p += 2;
        d.n = rd(b, p, v.lbits); d.m = rd(b, p, v.obits); d.nrows = rd(b, p, v.lbits); d.ncols = rd(b, p, v.lbits);
        __uint128_t need = ((__uint128_t)d.rows() + 1) * (v.obits / 8) + (__uint128_t)d.m * (v.lbits / 8 + (v.wgt ? wb : 0));
        if (need > b.size() - p) return false;
        for (uint64_t i = 0; i <= d.rows(); ++i) d.x.push_back(rd(b, p, v.obits));
        for (uint64_t i = 0; i < d.m; ++i) d.y.push_back(rd(b, p, v.lbits));
        if (v.wgt) for (uint64_t i = 0; i < d.m; ++i) d.w.push_back(rdw(b, p, v.wt));
        if (d.x[0] != 0 || d.x[d.rows()] != d.m) { soft() = true; return false; }
        for (uint64_t i = 0; i < d.rows(); ++i) if (d.x[i] > d.x[i + 1]) { soft() = true; return false; }
        return true;
    }
    static bool dec_ten(const ad::VarInfo& v, const string& b, size_t& p, ad::Dump& d) {
        unsigned wb = v.wt == 'd' || v.wt == 'l' ? 8 : 4;
        if (p > b.size() || b.compare(p, 13, "PIGO-Tensor-2") != 0) return false;
        p += 13;
        if (b.size() < p + 2 + (v.wgt ? 1 : 0) + 2 * v.obits / 8) return false;
        if ((unsigned char)b[p] != v.lbits / 8 || (unsigned char)b[p + 1] != v.obits / 8) return false;
        p += 2;
        if (v.wgt && (unsigned char)b[p++] != wb) return false;
        if (b.size() < p + 2 * v.obits / 8) return false;
        d.order = rd(b, p, v.obits); d.m = rd(b, p, v.obits);
        if (d.order > (1u << 20) || (d.order == 0 && d.m != 0 && !v.wgt)) { soft() = true; return false; }
        __uint128_t need = (__uint128_t)d.m * d.order * (v.lbits / 8) + (__uint128_t)d.m * (v.wgt ? wb : 0);
        if (need > b.size() - p) return false;
        for (uint64_t i = 0; i < d.m * d.order; ++i) d.x.push_back(rd(b, p, v.lbits));
        if (v.wgt) for (uint64_t i = 0; i < d.m; ++i) d.w.push_back(rdw(b, p, v.wt));
        return true;
    }
    Exp expect_load(const ad::VarInfo& v, const string& name, int mode, int ft, uint64_t pos = 0) {
        Exp e;
        auto it = w.files.find(name);
        if (it == w.files.end()) { e.err = true; e.why = "the file does not exist"; return e; }
        if (!it->second.known) { e.any = true; return e; }
        e.dmg = it->second.damaged;
        const string& whole = it->second.bytes;
        pos -= std::min(pos, it->second.hole);
        if (whole.empty()) { e.err = true; e.why = "the file is empty"; return e; }
        if (pos && pos >= whole.size()) { e.err = true; e.why = "the position is beyond the end"; return e; }
        string rest; if (pos) rest = whole.substr(pos);
        const string& b = pos ? rest : whole;
        Fmt f = by_type(mode == 0 || v.kind == ad::K_MATRIX ? 7 : ft, name, b);
        if (f == F_OTHER) { e.err = true; e.why = "unknown PIGO header"; return e; }
        if (it->second.damaged && f != F_COOB && f != F_CSRB && f != F_DIB && f != F_TENB) { e.any = true; return e; } // garbage read as text
        auto setkind = [&]() {
            switch (v.kind) { case ad::K_COO: e.coo = true; break; case ad::K_CSR: case ad::K_GRAPH: e.csr = true; break; case ad::K_DIGRAPH: e.di = true; break; case ad::K_MATRIX: e.mat = true; break; default: e.ten = true; }
        };
        setkind();
        soft() = false;
        // the binary formats do not record whether there are weights
        if ((f == F_COOB || f == F_CSRB || f == F_DIB || f == F_TENB) && it->second.wgt >= 0 && it->second.wgt != (int)v.wgt) { e.any = true; return e; }
        bool flags_apply = v.kind == ad::K_COO;
        if (v.kind == ad::K_TENSOR) {
            if (f == F_EL) {
                ParsedTensor t = parse_tensor(b, v.wgt, v.wt, max_label(v.lbits, v.lsigned));
                if (t.odd) { if (getenv("PIGOSIM_ODD")) fprintf(stderr, "ODD %s %s\n", v.name.c_str(), name.c_str()); e.any = true; return e; }
                e.tol = v.wgt ? text_tol(v.wt) : 0;
                e.d[0].order = t.order; e.d[0].m = t.m; e.d[0].x = t.c; e.d[0].w = t.w;
            } else if (f == F_TENB) {
                size_t p = 0;
                if (!dec_ten(v, b, p, e.d[0])) { if (soft() && it->second.damaged) e.any = true; else { e.err = true; e.why = "the binary does not match the variant or is too short"; } }
            } else { e.err = true; e.why = "not a tensor file"; }
            return e;
        }
        if (f == F_TENB) { e.err = true; e.why = "a tensor file is not a matrix"; return e; }
        if (f == F_DIB) {
            if (v.kind != ad::K_DIGRAPH) { e.err = true; e.why = "a DiGraph binary is not this kind"; return e; }
            size_t p = 15;
            if (!starts(b, "PIGO-DiGraph-v1") || !dec_csr(v, b, p, e.d[1]) || !dec_csr(v, b, p, e.d[0])) { if (soft() && it->second.damaged) e.any = true; else { e.err = true; e.why = "the binary does not match the variant or is too short"; } return e; }
            e.exact = true;
            return e;
        }
        if (f == F_GRAPH) {
            if (v.wgt) { e.err = true; e.why = "weighted .graph files are not supported"; return e; }
            if (flags_apply && ((v.ut && !v.sym) || v.sl)) { e.err = true; e.why = "this filter is not supported from a CSR"; return e; }
            ParsedGraph g = parse_graph(b, max_label(v.lbits, v.lsigned));
            if (g.odd) { if (getenv("PIGOSIM_ODD")) fprintf(stderr, "ODD %s %s\n", v.name.c_str(), name.c_str()); e.any = true; return e; }
            e.adj = true; bool one_based = !g.zero;
            uint64_t tot = 0, mx = 0;
            for (auto& r : g.rows) { tot += r.size(); for (auto x : r) mx = std::max(mx, x); }
            uint64_t rows = g.rows.size();
            if (tot != g.m && tot != 2 * g.m) { e.err = true; e.why = "header and entries disagree"; return e; }
            if (rows < g.n) { e.any = it->second.damaged; e.err = !e.any; e.why = "fewer rows than the header says"; return e; }
            if (one_based) { // row i describes vertex i
                for (uint64_t r = 0; r < rows; ++r) for (auto y : g.rows[r]) e.ents.push_back(Ent{r + 1, y, 0});
            } else for (uint64_t r = 0; r < rows; ++r) for (auto y : g.rows[r]) e.ents.push_back(Ent{r, y, 0});
            e.n = g.n;
            e.dims.known = true; e.dims.n = g.n; e.dims.nrows = g.n + (one_based ? 1 : 0); e.dims.ncols = mx + 1;
            if (!csrlike(v)) from_csr_flags(v, e);
            return e;
        }
        if (f == F_CSRB || f == F_COOB) {
            size_t p = 0; ad::Dump d;
            bool ok = f == F_CSRB ? dec_csr(v, b, p, d) : dec_coo(v, b, p, d);
            if (!ok) { if (soft() && it->second.damaged) e.any = true; else { e.err = true; e.why = "the binary does not match the variant or is too short"; } return e; }
            if (f == F_COOB && v.kind == ad::K_COO) { e.d[0] = d; e.exact = true; return e; }
            if (f == F_CSRB && csrlike(v)) { e.d[0] = d; e.exact = true; return e; }
            if (it->second.damaged) { e.any = true; return e; }
            e.dims.known = true; e.dims.n = d.n; e.dims.nrows = d.nrows; e.dims.ncols = d.ncols; e.n = d.n;
            if (f == F_COOB) e.ents = coo_ents(d); else e.ents = csr_ents(d);
            if (f == F_CSRB && !csrlike(v)) {
                if (flags_apply && ((v.ut && !v.sym) || v.sl)) { e.err = true; e.why = "this filter is not supported from a CSR"; return e; }
                from_csr_flags(v, e);
            }
            return e;
        }
        // text coordinate formats
        if (f == F_MM && !starts(b, "%%MatrixMarket matrix coordinate")) { e.err = true; e.why = "not a MatrixMarket coordinate file"; return e; }
        ParsedEL pe = parse_el(b, v.wgt, v.wt, f == F_MM, max_label(v.lbits, v.lsigned));
        if (pe.odd) { if (getenv("PIGOSIM_ODD")) fprintf(stderr, "ODD %s %s\n", v.name.c_str(), name.c_str()); e.any = true; return e; }
        bool sym = flags_apply && v.sym, ut = flags_apply && v.ut, sl = flags_apply && v.sl;
        e.ents = apply_flags(pe.ents, sym, ut, sl);
        e.tol = v.wgt ? text_tol(v.wt) : 0;
        uint64_t mr = 0, mc = 0;
        for (auto& x : e.ents) { mr = std::max(mr, x.x); mc = std::max(mc, x.y); }
        e.dims.known = true;
        e.dims.nrows = mr + 1; e.dims.ncols = mc + 1;
        if (f == F_MM) {
            uint64_t hr = pe.hr + 1, hc = pe.hc + 1;
            if (sym) hr = hc = std::max(hr, hc);
            if (hr < e.dims.nrows || hc < e.dims.ncols) { e.err = true; e.why = "labels exceed the header's dimensions"; return e; }
            e.dims.nrows = hr; e.dims.ncols = hc;
            if (!sym && !sl && !ut && pe.hn != e.ents.size()) { e.err = true; e.why = "the header contradicts the number of entries"; return e; }
            if ((sym || sl || ut) && pe.hn != pe.ents.size()) {
                // no file of the announced size is read as that many entries
                bool filtered = sl || (ut && !sym), mirrored = sym && !ut;
                if (e.ents.size() > (mirrored ? 2 : 1) * pe.hn || (!filtered && e.ents.size() < pe.hn)) { e.err = true; e.why = "the header contradicts the number of entries"; return e; }
                e.any = true;
            }
        }
        e.dims.n = std::max(e.dims.nrows, e.dims.ncols);
        e.n = e.dims.n;
        return e;
    }
    // COO built from a CSR with reading options
    static void from_csr_flags(const ad::VarInfo& v, Exp& e) {
        // there can be more rows than labels, and columns are labels
        if (e.dims.ncols > std::max(e.dims.n, e.dims.nrows)) e.n = e.dims.n = e.dims.ncols;
        if (v.kind != ad::K_COO) return; // the options of a COO
        e.coo = true;
        Ents o;
        for (Ent x : e.ents) {
            if (v.sym && v.ut && x.x > x.y) std::swap(x.x, x.y);
            if (v.sym && !v.ut) o.push_back(Ent{x.y, x.x, x.w});
            o.push_back(x);
        }
        e.ents = o;
        e.ordered = !v.sym;
        if (v.sym) { uint64_t k = std::max(e.dims.nrows, e.dims.ncols); e.dims.nrows = e.dims.ncols = k; }
    }
    void verify(const Rec& op, MObj& m, const Exp& e) {
        ++w.st->checks;
        const ad::VarInfo& v = *m.vi;
        string r;
        ad::Dump g = m.p->dump(0), g1;
        if (two(v)) g1 = m.p->dump(1);
        if (e.any) {
            if (!g.bad.empty()) r = g.bad;
            else if (!g1.bad.empty()) r = "second part: " + g1.bad;
            if (r.empty() && e.bin && v.kind != ad::K_COO && v.kind != ad::K_TENSOR) {
                r = check_csr_shape(g);
                if (r.empty() && two(v)) { r = check_csr_shape(g1); if (!r.empty()) r = "second part: " + r; }
            }
            if (!r.empty()) bad(op, "object built from an unreliable file is inconsistent: " + r);
            m.opaque = true;
            return;
        }
        if (e.ten) {
            if (!g.bad.empty()) bad(op, g.bad);
            ad::Dump x = e.d[0];
            if (e.tol > 0 && g.w.size() == x.w.size()) {
                for (size_t i = 0; i < x.w.size(); ++i) {
                    long double a = g.w[i], b = x.w[i], mm = std::max(a < 0 ? -a : a, b < 0 ? -b : b), df = a > b ? a - b : b - a;
                    if (!(df <= e.tol * mm + 1e-30)) bad(op, "weight " + to_string(i) + " is " + to_string(a) + ", want " + to_string(b));
                }
                x.w = g.w;
            }
            r = cmp_same(g, x);
        } else if (e.exact) {
            r = cmp_same(g, e.d[0]);
            if (r.empty() && two(v)) { r = cmp_same(g1, e.d[1]); if (!r.empty()) r = "in(): " + r; }
        } else if (e.coo) r = cmp_coo(g, e.ents, e.dims, v.wgt, e.tol, e.ordered);
        else {
            r = cmp_csr(g, e.n, e.ents, e.dims, v.wgt, e.tol);
            if (r.empty() && e.adj && csrlike(v)) r = row_order(g, e);
            if (r.empty() && two(v)) {
                r = cmp_csr(g1, e.n, swapped(e.ents), Dims(), v.wgt, e.tol);
                if (!r.empty()) r = (v.kind == ad::K_MATRIX ? "csc(): " : "in(): ") + r;
            }
        }
        if (!r.empty()) bad(op, r);
        m.d[0] = g; m.d[1] = g1;
        for (auto x : g.w) if (x != x) m.opaque = true; // damaged weights that are no numbers have no order
        for (auto x : g1.w) if (x != x) m.opaque = true;
    }
    // a .graph file keeps the order within rows
    string row_order(const ad::Dump& g, const Exp& e) {
        size_t p = 0;
        for (auto& x : e.ents) { if (p >= g.y.size() || g.y[p] != x.y) return "endpoint " + to_string(p) + " is " + to_string(p < g.y.size() ? g.y[p] : 0) + ", want " + to_string(x.y); ++p; }
        return "";
    }
    void do_load(const Rec& op) {
        ad::Variant* var = ad::variant(op.str("var"));
        if (!var) bad(op, "harness: unknown variant");
        string fn = op.str("file");
        int mode = (int)op.i("mode", 0), ft = (int)op.i("ft", 7);
        uint64_t pos = mode == 2 && var->vi.kind != ad::K_MATRIX ? op.u("pos") & ((1ull << 48) - 1) : 0;
        if (w.files.count(fn) && w.files[fn].hole) { // a sparse file is only read behind its hole
            if (pos < w.files[fn].hole) return;
        }
        Exp e = expect_load(var->vi, fn, mode, ft, pos);
        if (e.any && w.files.count(fn)) { const string& b = w.files[fn].bytes; if (pos <= b.size()) e.bin = b.compare(pos, 5, "PIGO-") == 0; }
        std::unique_ptr<MObj> m(new MObj);
        m->vi = &var->vi;
        if (!e.any && !e.err && !e.adj && !e.exact && too_large(var->vi, e.dims.nrows)) return must_report(op, var->load(&var->vi, fn.c_str(), mode | (int64_t)(pos << 8), ft, m->p));
        ad::Status s = attempt(op, [&]() { return var->load(&var->vi, fn.c_str(), mode | (int64_t)(pos << 8), ft, m->p); }, "", nullptr, !e.err && !e.any);
        if (e.any) {
            if (!s.ok() && s.code != ad::ST_ERROR && s.code != ad::ST_ALLOC && !(s.code == ad::ST_STD)) bad(op, "failed with " + stname(s.code) + ": " + s.what);
        } else if (e.err) {
            if (s.ok()) bad(op, "succeeded, but " + e.why);
            if (s.code != ad::ST_ERROR && !(e.dmg && (s.code == ad::ST_ALLOC || s.code == ad::ST_STD)) && !(w.faults && sim::any_fault_fired())) bad(op, "reported as " + stname(s.code) + " (" + s.what + ") instead of pigo::Error: " + e.why);
        } else must_ok(op, s);
        if (s.ok()) verify(op, *m, e); else w.leak = false; // a failed construction may abandon storage
        if (s.ok() && mode == 2 && e.exact && csrlike(var->vi)) { // one CSR may follow another in a file
            ++w.st->checks;
            uint64_t want = pos + enc_csr(var->vi, e.d[0]).size();
            if (s.aux != want) bad(op, "the cursor of the File is at " + to_string(s.aux) + " after loading, want " + to_string(want));
        }
        check_resources(op, "after loading");
        if (s.ok()) w.objs[(int)op.i("o")] = std::move(m);
    }
    // ------------------------------------------------------------ building
    void do_make(const Rec& op, const vector<string>& rows) {
        ad::Variant* var = ad::variant(op.str("var"));
        if (!var || !var->make) bad(op, "harness: unknown variant");
        const ad::VarInfo& v = var->vi;
        ad::Dump d;
        d.n = op.u("n"); d.nrows = op.u("nrows"); d.ncols = op.u("ncols"); d.order = op.u("order");
        vector<vector<string>> ts;
        for (auto& l : rows) { std::istringstream is(l); vector<string> t; string x; while (is >> x) t.push_back(x); ts.push_back(t); }
        d.m = ts.size();
        auto num = [&](const string& s) -> uint64_t { return s[0] == '-' ? mask_bits((uint64_t)strtoll(s.c_str(), 0, 10), v.lbits) : mask_bits(strtoull(s.c_str(), 0, 10), v.lbits); };
        if (v.kind == ad::K_TENSOR) {
            for (auto& t : ts) {
                for (uint64_t k = 0; k < d.order; ++k) d.x.push_back(num(t[k]));
                if (v.wgt) d.w.push_back(narrow_w(v.wt, strtold(t.size() > d.order ? t[d.order].c_str() : "0", 0)));
            }
        } else {
            if (csrlike(v)) {
                std::stable_sort(ts.begin(), ts.end(), [&](const vector<string>& a, const vector<string>& b) { return num(a[0]) < num(b[0]); });
                d.x.assign(d.rows() + 1, 0);
                for (auto& t : ts) d.x[num(t[0]) + 1]++;
                for (uint64_t i = 0; i < d.rows(); ++i) d.x[i + 1] += d.x[i];
            }
            for (auto& t : ts) {
                if (!csrlike(v)) d.x.push_back(num(t[0]));
                d.y.push_back(num(t[1]));
                if (v.wgt) d.w.push_back(narrow_w(v.wt, strtold(t.size() > 2 ? t[2].c_str() : "0", 0)));
            }
        }
        std::unique_ptr<MObj> m(new MObj);
        m->vi = &v;
        ad::Status s = attempt(op, [&]() { return var->make(&v, d, m->p); }, "", nullptr);
        must_ok(op, s);
        m->d[0] = d;
        string r = same(*m);
        if (!r.empty()) bad(op, r);
        w.objs[(int)op.i("o")] = std::move(m);
    }
    void do_conv(const Rec& op) {
        MObj* f = obj(op, "from");
        if (!f || f->dead || f->opaque) return;
        ad::Variant* var = ad::variant(op.str("var"));
        auto it = ad::converters().find({f->vi->name, op.str("var")});
        if (!var || it == ad::converters().end()) bad(op, "harness: no such conversion");
        const ad::VarInfo& v = var->vi;
        std::unique_ptr<MObj> m(new MObj);
        m->vi = &v;
        Exp e;
        e.dims.known = true; e.dims.n = f->d[0].n; e.dims.nrows = f->d[0].nrows; e.dims.ncols = f->d[0].ncols; e.n = f->d[0].n;
        if (f->vi->kind == ad::K_COO) {
            e.ents = coo_ents(f->d[0]);
            uint64_t lim = std::max(e.n, e.dims.nrows);
            for (auto& x : e.ents) if (x.x >= lim || x.y >= lim) return; // labels out of range: nothing is claimed
            if (csrlike(v)) e.csr = true; else if (v.kind == ad::K_DIGRAPH) e.di = true; else e.mat = true;
            e.ordered = false;
        } else {
            e.ents = csr_ents(f->d[0]);
            if ((v.ut && !v.sym) || v.sl) { e.err = true; e.why = "this filter is not supported from a CSR"; }
            from_csr_flags(v, e);
        }
        for (auto& x : e.ents) x.w = narrow_w(v.wt, x.w);
        if (!e.err && too_large(v, e.dims.nrows)) { must_report(op, it->second(&v, *f->p, m->p)); return check_obj(op, f, "the source of the conversion"); }
        ad::Status s = attempt(op, [&]() { return it->second(&v, *f->p, m->p); }, "", nullptr, !e.err);
        if (e.err) {
            if (s.ok()) bad(op, "succeeded, but " + e.why);
            if (s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "reported as " + stname(s.code) + ": " + e.why);
            w.leak = false;
        } else { must_ok(op, s); verify(op, *m, e); }
        check_obj(op, f, "the source of the conversion");
        if (s.ok()) w.objs[(int)op.i("o")] = std::move(m);
    }
    // each row sorted by (label, weight)
    static ad::Dump sorted(const ad::Dump& d, bool wgt) {
        ad::Dump r = d;
        vector<std::pair<uint64_t, long double>> row;
        for (uint64_t v = 0; v < d.rows(); ++v) {
            row.clear();
            for (uint64_t p = d.x[v]; p < d.x[v + 1]; ++p) row.push_back({d.y[p], wgt ? d.w[p] : 0});
            std::sort(row.begin(), row.end());
            uint64_t p = d.x[v];
            for (auto& e : row) { r.y[p] = e.first; if (wgt) r.w[p] = e.second; ++p; }
        }
        return r;
    }
    void do_sort(const Rec& op) {
        MObj* m = obj(op, "o");
        if (!m || m->dead || m->opaque || m->vi->kind == ad::K_COO || m->vi->kind == ad::K_TENSOR) return;
        int part = two(*m->vi) ? (int)op.i("part") & 1 : 0;
        ad::Dump want = sorted(m->d[part], m->vi->wgt);
        ad::Status s = attempt(op, [&]() { return m->p->sort(part); }, "", m);
        must_ok(op, s);
        ++w.st->checks;
        m->d[part] = want;
        string r = same(*m);
        if (!r.empty()) bad(op, "after sort: " + r);
    }
    void do_dedup(const Rec& op) {
        MObj* f = obj(op, "from");
        if (!f || f->dead || f->opaque) return;
        ad::Variant* var = ad::variant(op.str("var"));
        auto it = ad::dedups().find({f->vi->name, op.str("var")});
        if (!var || it == ad::dedups().end()) bad(op, "harness: no such deduplication");
        const ad::VarInfo& v = var->vi;
        ad::Dump src = sorted(f->d[0], f->vi->wgt), want = src;
        want.x.assign(src.rows() + 1, 0); want.y.clear(); want.w.clear();
        for (uint64_t u = 0; u < src.rows(); ++u) {
            for (uint64_t p = src.x[u]; p < src.x[u + 1]; ++p)
                if (p == src.x[u] || src.y[p] != src.y[p - 1]) { want.y.push_back(src.y[p]); if (v.wgt) want.w.push_back(narrow_w(v.wt, src.w[p])); }
            want.x[u + 1] = want.y.size();
        }
        want.m = want.y.size();
        std::unique_ptr<MObj> m(new MObj);
        m->vi = &v;
        ad::Status s = attempt(op, [&]() { return it->second(&v, *f->p, m->p); }, "", f);
        must_ok(op, s);
        ++w.st->checks;
        string r = cmp_same(m->p->dump(0), want);
        if (!r.empty()) bad(op, "result of removing duplicates: " + r);
        f->d[0] = src;
        r = same(*f);
        if (!r.empty()) bad(op, "source after removing duplicates is not its sorted self: " + r);
        m->d[0] = want;
        w.objs[(int)op.i("o")] = std::move(m);
    }
    // ------------------------------------------------------------ writing
    void store_result(const Rec& op, const string& fn, const string& want, const ad::VarInfo& v, const ad::Dump* text) {
        ++w.st->checks;
        if (!sim::fs_exists(fn)) bad(op, "the operation succeeded but " + fn + " does not exist");
        string got = sim::fs_get(fn);
        if (text) {
            string r = cmp_text(v, *text, got);
            if (!r.empty()) bad(op, r);
        } else if (got != want) {
            size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
            bad(op, fn + " differs from the documented layout at byte " + to_string(i) + " (sizes " + to_string(got.size()) + ", want " + to_string(want.size()) + ")");
        }
        MFile mf; mf.bytes = got;
        if (!text) mf.wgt = v.wgt;
        w.files[fn] = mf;
    }
    void do_store(const Rec& op, bool binary) {
        MObj* m = obj(op, "o");
        if (!m || m->dead || m->opaque) return;
        string fn = op.str("file");
        const ad::VarInfo& v = *m->vi;
        if (binary ? v.kind == ad::K_MATRIX : v.kind != ad::K_COO && v.kind != ad::K_TENSOR) return;
        bool unwritable = fn.compare(0, 6, "nodir/") == 0;
        bool existed = w.files.count(fn);
        if (existed) w.files[fn].known = false;
        bool empty_text = !binary && (m->d[0].m == 0);
        ad::Status s = attempt(op, [&]() { return binary ? m->p->save(fn.c_str()) : m->p->write(fn.c_str()); }, fn, nullptr, !unwritable && !empty_text);
        w.writing.erase(fn);
        if (unwritable) {
            if (s.ok()) bad(op, "succeeded although the file cannot be created");
            if (s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "reported as " + stname(s.code) + " (" + s.what + ") instead of pigo::Error");
            check_obj(op, m, "the object");
            check_resources(op, "after a failed write");
            return;
        }
        if (empty_text) {
            if (!s.ok() && s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "reported as " + stname(s.code) + " (" + s.what + ") instead of pigo::Error");
            if (sim::fs_exists(fn)) { MFile mf; mf.bytes = sim::fs_get(fn); w.files[fn] = mf; }
            check_obj(op, m, "the object");
            check_resources(op, "after a write");
            return;
        }
        must_ok(op, s);
        if (!binary) store_result(op, fn, "", v, &m->d[0]);
        else {
            string want;
            switch (v.kind) {
            case ad::K_COO: want = enc_coo(v, m->d[0]); break;
            case ad::K_TENSOR: want = enc_tensor(v, m->d[0]); break;
            case ad::K_DIGRAPH: want = enc_di(v, m->d[1], m->d[0]); break;
            default: want = enc_csr(v, m->d[0]);
            }
            store_result(op, fn, want, v, nullptr);
        }
        check_obj(op, m, "the stored object");
        check_resources(op, "after storing");
    }
    void do_savein(const Rec& op) {
        MObj* m = obj(op, "o");
        if (!m || m->dead || m->opaque || !csrlike(*m->vi)) return;
        string fn = op.str("file");
        uint64_t lead = op.u("lead"), tail = op.u("tail", 1);
        string enc = enc_csr(*m->vi, m->d[0]);
        if (m->p->save_size() != enc.size()) bad(op, "save_size() is " + to_string(m->p->save_size()) + ", want " + to_string(enc.size()));
        if (w.files.count(fn)) w.files[fn].known = false;
        ad::Status s = attempt(op, [&]() { return m->p->save_in_file(fn.c_str(), lead, tail); }, fn, nullptr);
        w.writing.erase(fn);
        must_ok(op, s);
        string want = string(lead, '\0') + enc + string(tail, 'T');
        store_result(op, fn, want, *m->vi, nullptr);
        check_obj(op, m, "the stored object");
        check_resources(op, "after storing");
    }
    // ------------------------------------------------------------ the rest
    void do_nbr(const Rec& op) {
        MObj* m = obj(op, "o");
        if (!m || m->dead || m->opaque || (m->vi->kind != ad::K_GRAPH && m->vi->kind != ad::K_DIGRAPH)) return;
        int part = m->vi->kind == ad::K_DIGRAPH ? (int)op.i("part") & 1 : 0;
        vector<uint64_t> deg, nbr;
        ad::Status s = attempt(op, [&]() { deg.clear(); nbr.clear(); return m->p->neighbours(part, deg, nbr); }, "", nullptr);
        must_ok(op, s);
        ++w.st->checks;
        const ad::Dump& d = m->d[part];
        uint64_t step = ad::nbr_step(d.rows(), d.m), cnt = (d.rows() + step - 1) / step;
        if (deg.size() != 3 * cnt) bad(op, "degree() of " + to_string(deg.size() / 3) + " vertices, want " + to_string(cnt));
        vector<uint64_t> wn;
        for (uint64_t v = 0, k = 0; v < d.rows(); v += step, k += 3) {
            if (deg[k] != d.x[v] || deg[k + 1] != d.x[v + 1] || deg[k + 2] != d.x[v + 1] - d.x[v])
                bad(op, "vertex " + to_string(v) + ": neighbor_start/neighbor_end/degree are " + to_string(deg[k]) + "/" + to_string(deg[k + 1]) + "/" + to_string(deg[k + 2]) + ", want " + to_string(d.x[v]) + "/" + to_string(d.x[v + 1]) + "/" + to_string(d.x[v + 1] - d.x[v]));
            wn.insert(wn.end(), d.y.begin() + d.x[v], d.y.begin() + d.x[v + 1]);
        }
        if (nbr != wn) bad(op, "neighbors() does not list the endpoints of the rows");
        check_obj(op, m, "the graph");
    }
    void do_maxlab(const Rec& op) {
        MObj* m = obj(op, "o");
        if (!m || m->dead || m->opaque || m->vi->kind != ad::K_TENSOR) return;
        vector<uint64_t> got, want(m->d[0].order, 0);
        for (size_t i = 0; i < m->d[0].x.size(); ++i) {
            uint64_t& mx = want[i % m->d[0].order];
            if (m->vi->lsigned ? sext(m->d[0].x[i], m->vi->lbits) > sext(mx, m->vi->lbits) : m->d[0].x[i] > mx) mx = m->d[0].x[i];
        }
        ad::Status s = attempt(op, [&]() { got.clear(); return m->p->max_labels(got); }, "", nullptr);
        must_ok(op, s);
        ++w.st->checks;
        if (got.size() != want.size()) bad(op, "max_labels() has " + to_string(got.size()) + " values, want " + to_string(want.size()));
        for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) bad(op, "max_labels()[" + to_string(i) + "] is " + to_string(got[i]) + ", want " + to_string(want[i]));
        check_obj(op, m, "the tensor");
    }
    void do_copy(const Rec& op) {
        MObj* f = obj(op, "from");
        if (!f || f->dead || f->opaque || (f->vi->kind != ad::K_COO && f->vi->kind != ad::K_TENSOR)) return;
        std::unique_ptr<MObj> m(new MObj);
        m->vi = f->vi;
        ad::Status s = attempt(op, [&]() { return f->p->copy(m->p); }, "", nullptr);
        must_ok(op, s);
        m->d[0] = f->d[0];
        ++w.st->checks;
        string r = same(*m);
        if (!r.empty()) bad(op, "the copy differs from its source: " + r);
        check_obj(op, f, "the source of the copy");
        w.objs[(int)op.i("o")] = std::move(m);
    }
    void do_assign(const Rec& op) {
        MObj* t = obj(op, "o"); MObj* f = obj(op, "from");
        if (!t || !f || f->dead || f->opaque || f->vi != t->vi || (f->vi->kind != ad::K_COO && f->vi->kind != ad::K_TENSOR)) return;
        ad::Status s = attempt(op, [&]() { return t->p->assign(*f->p); }, "", t);
        must_ok(op, s);
        if (t == f) { check_obj(op, t, "a self-assigned object"); return; }
        t->d[0] = f->d[0]; t->dead = false; t->opaque = false;
        ++w.st->checks;
        string r = same(*t);
        if (!r.empty()) bad(op, "the assigned object differs from its source: " + r);
        check_obj(op, f, "the source of the assignment");
    }
    void do_transpose(const Rec& op) {
        MObj* m = obj(op, "o");
        if (!m || m->dead || m->opaque || m->vi->kind != ad::K_COO) return;
        ad::Status s = attempt(op, [&]() { return m->p->transpose(); }, "", m);
        must_ok(op, s);
        std::swap(m->d[0].x, m->d[0].y);
        ad::Dump g = m->p->dump(0);
        m->d[0].nrows = g.nrows; m->d[0].ncols = g.ncols; // the dimensions after a transposition are not claimed
        ++w.st->checks;
        string r = cmp_same(g, m->d[0]);
        if (!r.empty()) bad(op, "after transpose: " + r);
    }
    void do_dim(const Rec& op) {
        MObj* m = obj(op, "o");
        if (!m || m->dead || m->opaque || m->vi->kind != ad::K_COO) return;
        char c = op.str("which", "n")[0];
        uint64_t v = mask_bits(op.u("v"), m->vi->lbits);
        must_ok(op, attempt(op, [&]() { return m->p->set_dim(c, v); }, "", m));
        if (c == 'n') m->d[0].n = v; else if (c == 'r') m->d[0].nrows = v; else m->d[0].ncols = v;
        ++w.st->checks;
        string r = same(*m);
        if (!r.empty()) bad(op, r);
    }
    // the caller changes one element of an array in place
    void do_poke(const Rec& op) {
        MObj* m = obj(op, "o");
        if (!m || m->dead || m->opaque) return;
        const ad::VarInfo& v = *m->vi;
        int part = two(v) ? (int)op.i("part") & 1 : 0;
        ad::Dump& d = m->d[part];
        if (!d.m) return;
        char a = op.str("a", "x")[0];
        uint64_t i = op.u("i"), j = op.u("j"), val;
        if (a == 'w') {
            if (!v.wgt) return;
            i %= d.m; val = op.u("v") % 1000;
            d.w[i] = (long double)val;
        } else {
            // take over another entry's label, so that it stays in range
            vector<uint64_t>& arr = v.kind == ad::K_COO ? (a == 'x' ? d.x : d.y) : v.kind == ad::K_TENSOR ? d.x : d.y;
            if (v.kind != ad::K_COO) a = 'y';
            if (arr.empty()) return;
            i %= arr.size(); j %= arr.size(); val = arr[j];
            arr[i] = val;
        }
        must_ok(op, m->p->poke(part, a, i, val));
        string r = same(*m);
        ++w.st->checks;
        if (!r.empty()) bad(op, "after changing an element in place: " + r);
        if (!w.concurrent) check_all(op, m);
    }
    void do_free(const Rec& op) {
        MObj* m = obj(op, "o");
        if (!m) return;
        // COOs and tensors may be released again, the others own raw pointers they do not reset
        bool again = m->vi->kind == ad::K_COO || m->vi->kind == ad::K_TENSOR;
        if (m->dead && !again) return;
        if (m->opaque && m->dead) return;
        must_ok(op, m->p->free_());
        m->dead = true;
        if (again && !m->opaque && m->d[0].m) {
            ++w.st->checks;
            ad::Dump g = m->p->dump(0);
            if (g.m != 0) bad(op, "m() of a released object is " + to_string(g.m) + ", want 0");
        }
        if (!w.concurrent) check_all(op, m);
    }
    // ------------------------------------------------------------ files
    void do_fopen(const Rec& op) {
        int id = (int)op.i("h");
        if (w.handles.count(id) && w.handles[id]->open) return;
        string fn = op.str("file"); bool wr = op.i("write"); uint64_t size = op.u("size"); int cls = (int)op.i("cls");
        if (cls == 1 && !wr) size = 0;
        // the contents of a file that is being written, or is replaced while open, are not claimed
        for (auto& o : w.handles) if (o.second->open && !o.second->moved && o.second->file == fn && (wr || o.second->wr)) return;
        std::unique_ptr<MHandle> h(new MHandle);
        bool existed = w.files.count(fn);
        bool expect_err = wr ? size == 0 || size > sim::fs_capacity() || fn.compare(0, 6, "nodir/") == 0 : size > 0 || !existed || w.files[fn].bytes.empty();
        if (wr && existed && !(size == 0)) w.files[fn].known = false;
        if (wr && !existed && size > sim::fs_capacity() && fn.compare(0, 6, "nodir/")) { MFile mf; mf.known = false; mf.damaged = true; w.files[fn] = mf; }
        ad::Status s = attempt(op, [&]() { return ad::open_file(fn.c_str(), wr, size, h->p, cls); }, wr ? fn : "", nullptr, !expect_err);
        if (wr) w.writing.erase(fn);
        if (expect_err) {
            if (s.ok()) bad(op, "opening succeeded although it cannot");
            if (s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "reported as " + stname(s.code) + " instead of pigo::Error");
            check_resources(op, "after a failed open");
            return;
        }
        must_ok(op, s);
        h->file = fn; h->wr = wr; h->open = true; h->size = wr ? size : w.files[fn].hole + w.files[fn].bytes.size(); h->pos = 0;
        if (wr) { MFile mf; mf.known = false; w.files[fn] = mf; h->mask.assign(size, -1); }
        ++w.st->checks;
        if (h->p->size() != h->size) bad(op, "size() is " + to_string(h->p->size()) + ", want " + to_string(h->size));
        if (wr && sim::fs_get(fn).size() != size) bad(op, "the file has " + to_string(sim::fs_get(fn).size()) + " bytes, want " + to_string(size));
        MHandle* hp = h.get();
        w.handles[id] = std::move(h);
        check_pos(op, *hp);
        check_resources(op, "after opening");
    }
    void check_pos(const Rec& op, MHandle& h) {
        ++w.st->checks;
        uint64_t p = h.p->pos();
        if (p != h.pos) bad(op, "the cursor is at " + to_string(p) + ", want " + to_string(h.pos));
        if (h.p->size() != h.size) bad(op, "size() is " + to_string(h.p->size()) + ", want " + to_string(h.size));
    }
    MHandle* usable(const Rec& op) { MHandle* h = handle(op, "h"); return h && h->open && !h->moved ? h : nullptr; }
    // n bytes at p of the file behind a handle
    string content(MHandle& h, uint64_t p, uint64_t n) {
        if (h.apart && h.wr) for (size_t i = 0; i < h.mask.size(); ++i) if (h.mask[i] >= 0) h.own[i] = (char)h.mask[i];
        string b = h.apart ? h.own : h.wr ? sim::fs_get(h.file) : w.files[h.file].bytes;
        uint64_t z = h.apart ? h.hole : h.wr ? 0 : w.files[h.file].hole, k = p < z ? std::min(n, z - p) : 0;
        string r((size_t)k, '\0');
        if (n > k) r += b.substr(p + k - z, n - k);
        return r;
    }
    void check_written(const Rec& op, MHandle& h) {
        if (!h.wr || h.apart) return;
        // several handles may write one file; the last one opened defines it
        string b = sim::fs_get(h.file);
        if (b.size() != h.size) bad(op, "the file has " + to_string(b.size()) + " bytes, want " + to_string(h.size));
        for (size_t i = 0; i < h.mask.size(); ++i) if (h.mask[i] >= 0 && (unsigned char)b[i] != h.mask[i]) bad(op, "byte " + to_string(i) + " of " + h.file + " is " + to_string((unsigned char)b[i]) + ", want " + to_string(h.mask[i]));
    }
    void close_handle(const Rec& op, MHandle& h) {
        if (!h.open) return;
        must_ok(op, h.p->close());
        h.open = false;
        if (h.wr && !h.moved && !h.apart) { check_written(op, h); MFile mf; mf.bytes = sim::fs_get(h.file); w.files[h.file] = mf; }
        check_resources(op, "after closing");
    }
    static string pattern(uint64_t seed, uint64_t n) { string s; sim::Rng r(seed); for (uint64_t i = 0; i < n; ++i) s += (char)r.next(); return s; }
    void do_file(const Rec& op, const string& k) {
        if (k == "fopen") return do_fopen(op);
        if (k == "fclose") { MHandle* h = handle(op, "h"); if (h) close_handle(op, *h); return; }
        if (k == "frenew") { // another program puts a new file in the place of an old one
            string fn = op.str("file");
            if (!w.files.count(fn) && !sim::fs_exists(fn)) return;
            uint64_t size = w.files[fn].known ? w.files[fn].bytes.size() : sim::fs_get(fn).size();
            for (auto& x : w.handles) {
                MHandle& o = *x.second;
                if (!o.open || o.moved || o.apart || o.file != fn) continue;
                o.own = o.wr ? sim::fs_get(fn) : w.files[fn].bytes; o.hole = o.wr ? 0 : w.files[fn].hole; o.apart = true;
            }
            MFile mf; mf.bytes = pattern(op.u("v"), op.has("n") ? op.u("n") : size);
            sim::fs_renew(fn, mf.bytes);
            mf.bytes = sim::fs_get(fn);
            w.files[fn] = mf;
            return;
        }
        MHandle* h = usable(op);
        if (k == "fmove") {
            MHandle* f = handle(op, "from"); int id = (int)op.i("h");
            if (!f || !f->open || f->moved || (w.handles.count(id) && w.handles[id]->open)) return;
            std::unique_ptr<MHandle> n(new MHandle);
            must_ok(op, f->p->move_to(n->p));
            n->file = f->file; n->wr = f->wr; n->open = true; n->size = f->size; n->pos = f->pos; n->mask = f->mask; n->apart = f->apart; n->own = f->own; n->hole = f->hole;
            f->moved = true; f->wr = false;
            MHandle* np = n.get();
            w.handles[id] = std::move(n);
            check_pos(op, *np);
            check_resources(op, "after moving");
            return;
        }
        if (k == "fmassign") {
            MHandle* f = handle(op, "from"); MHandle* t = handle(op, "h");
            if (!f || !t || !f->open || f->moved || !t->open) return;
            if (f == t) { must_ok(op, f->p->move_assign(*t->p)); check_pos(op, *t); check_resources(op, "after self assignment"); return; }
            must_ok(op, f->p->move_assign(*t->p));
            if (t->wr && !t->moved && !t->apart) { check_written(op, *t); MFile mf; mf.bytes = sim::fs_get(t->file); w.files[t->file] = mf; }
            t->file = f->file; t->wr = f->wr; t->moved = false; t->size = f->size; t->pos = f->pos; t->mask = f->mask; t->apart = f->apart; t->own = f->own; t->hole = f->hole;
            f->moved = true; f->wr = false;
            check_pos(op, *t);
            check_resources(op, "after move assignment");
            return;
        }
        if (!h) return;
        ad::Status s;
        if (k == "fseek") {
            uint64_t p = op.u("p");
            s = attempt(op, [&]() { return h->p->seek(p); }, "", nullptr, p < h->size);
            if (p >= h->size) { if (s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "seeking to or beyond the end gives " + stname(s.code) + " instead of pigo::Error"); }
            else { must_ok(op, s); h->pos = p; }
        } else if (k == "fread") {
            int b = (int)op.i("b", 1); uint64_t v = 0;
            if (h->pos + b > h->size) {
                s = h->p->read_t(b, v);
                if (s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "reading beyond the end gives " + stname(s.code) + " instead of pigo::Error");
                return check_pos(op, *h);
            }
            s = h->p->read_t(b, v); must_ok(op, s);
            string c = content(*h, h->pos, b); uint64_t want = 0;
            for (int i = 0; i < b; ++i) want |= (uint64_t)(unsigned char)c[i] << (8 * i);
            if (v != want) bad(op, "read " + to_string(v) + ", want " + to_string(want));
            h->pos += b;
        } else if (k == "fwrite") {
            int b = (int)op.i("b", 1); uint64_t v = op.u("v");
            if (!h->wr || h->pos + b > h->size) return;
            s = h->p->write_t(b, v); must_ok(op, s);
            for (int i = 0; i < b; ++i) h->mask[h->pos + i] = (unsigned char)(v >> (8 * i));
            h->pos += b;
            check_written(op, *h);
        } else if (k == "fwrites") {
            string t = op.has("n") ? pattern(op.u("v"), op.u("n")) : op.str("s");
            if (!h->wr || h->pos + t.size() > h->size) return;
            s = again([&]() { return h->p->write_str(t); }); must_ok(op, s);
            for (size_t i = 0; i < t.size(); ++i) h->mask[h->pos + i] = (unsigned char)t[i];
            h->pos += t.size();
            check_written(op, *h);
        } else if (k == "freads") { // reading an expected string
            uint64_t n = op.u("n"); bool wrong = op.i("wrong");
            if (!n) return;
            if (h->pos + n > h->size) { // there are not that many bytes left
                s = attempt(op, [&]() { return h->p->read_str(string(n, 'a')); }, "", nullptr, false);
                if (s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "reading a string beyond the end gives " + stname(s.code));
                return check_pos(op, *h);
            }
            string c = content(*h, h->pos, n);
            if (wrong) c[op.u("at") % n] ^= 1;
            s = attempt(op, [&]() { return h->p->read_str(c); }, "", nullptr, !wrong);
            if (wrong) { if (s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "reading a string that is not there gives " + stname(s.code)); }
            else { must_ok(op, s); h->pos += n; }
        } else if (k == "fpread") {
            uint64_t n = op.u("n");
            string out;
            if (h->pos + n > h->size) {
                if (op.i("over") && !op.i("free")) {
                    s = attempt(op, [&]() { return h->p->pread(n, out, false); }, "", nullptr, false);
                    if (s.code != ad::ST_ERROR && s.code != ad::ST_ALLOC) bad(op, "parallel_read beyond the end gives " + stname(s.code) + " instead of pigo::Error");
                    return check_pos(op, *h);
                }
                n = h->size - h->pos;
            }
            n = std::min<uint64_t>(n, 1 << 20);
            s = attempt(op, [&]() { return h->p->pread(n, out, op.i("free")); }, "", nullptr);
            must_ok(op, s);
            if (out != content(*h, h->pos, n)) bad(op, "parallel_read returned other bytes than the file holds");
            if (!op.i("free")) h->pos += n;
        } else if (k == "fpwrite") {
            uint64_t n = op.u("n");
            if (!h->wr) return;
            if (h->pos + n > h->size) n = h->size - h->pos;
            string data = pattern(op.u("v"), n);
            s = attempt(op, [&]() { return h->p->pwrite(data, op.i("free")); }, "", nullptr);
            must_ok(op, s);
            for (size_t i = 0; i < n; ++i) h->mask[h->pos + i] = (unsigned char)data[i];
            if (!op.i("free")) h->pos += n;
            check_written(op, *h);
        } else if (k == "ffind") {
            char c = (char)op.i("ch"); vector<uint64_t> got, want;
            if (h->size - h->pos > (1 << 22)) return;
            string b = content(*h, h->pos, h->size - h->pos);
            for (size_t i = 0; i < b.size(); ++i) if (b[i] == c) want.push_back(i);
            s = attempt(op, [&]() { got.clear(); return h->p->find(c, (int)op.i("type"), got); }, "", nullptr);
            must_ok(op, s);
            if (want.empty()) w.leak = false; // free() keeps the storage of an empty tensor
            if (got != want) {
                size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
                bad(op, "find_offsets gives " + to_string(got.size()) + " offsets, want " + to_string(want.size()) + "; first difference at index " + to_string(i) + ": " + (i < got.size() ? to_string(got[i]) : "none") + ", want " + (i < want.size() ? to_string(want[i]) : "none"));
            }
        } else if (k == "fguess") {
            if (h->pos != 0) return;
            int ft = -1; string b = content(*h, 0, std::min<uint64_t>(h->size, 64));
            s = attempt(op, [&]() { return h->p->guess(ft); }, "", nullptr, by_type(7, h->file, b) != F_OTHER);
            Fmt f = by_type(7, h->file, b);
            if (f == F_OTHER) { if (s.code != ad::ST_ERROR && !(w.faults && sim::any_fault_fired())) bad(op, "an unknown PIGO header gives " + stname(s.code) + " instead of pigo::Error"); }
            else {
                must_ok(op, s);
                static const int want[] = {1, 0, 6, 2, 3, 4, 5};
                if (ft != want[f]) bad(op, "detected file type " + to_string(ft) + ", want " + to_string(want[f]));
            }
        } else bad(op, "harness: unknown operation");
        check_pos(op, *h);
    }
    // ------------------------------------------------------------ one file, many threads
    // what one step of a FileReader over b[.., end) does; false: the outcome is not claimed
    struct RModel {
        const string& b; size_t d, end;
        bool dig(size_t i) const { return b[i] >= '0' && b[i] <= '9'; }
        bool fpc(size_t i) const { return dig(i) || b[i] == 'e' || b[i] == 'E' || b[i] == '-' || b[i] == '+' || b[i] == '.'; }
        bool com(size_t i) const { return b[i] == '%' || b[i] == '#'; }
        void skip() { while (d < end && com(d)) while (d < end && b[d++] != '\n') {} }
        void digits() { while (d < end && dig(d)) ++d; }
        bool step(const string& k, uint64_t a, const string& s, ad::Part::Out& o) {
            if (k.compare(0, 2, "ri") == 0) {
                unsigned bits = (unsigned)atoi(k.c_str() + 2);
                while (d < end && !dig(d)) ++d;
                size_t from = d; digits();
                while (from < d && b[from] == '0') ++from;
                if (d - from > 19) return false;
                uint64_t v = from < d ? strtoull(b.substr(from, d - from).c_str(), 0, 10) : 0;
                if (bits < 64 && v >> bits) return false;
                o.u = v;
            } else if (k == "rs") o.u = d < end && b[d] == '-' ? (uint64_t)-1 : 1;
            else if (k == "ff" || k == "fd") {
                while (d < end && !fpc(d)) ++d;
                size_t i = d;
                if (i < end && (b[i] == '-' || b[i] == '+')) ++i;
                size_t n = i; while (i < end && dig(i)) ++i;
                if (i == n || i - n > 15) return false;
                if (i < end && b[i] == '.') { size_t q = ++i; while (i < end && dig(i)) ++i; if (i == q || i - q > 15) return false; }
                if (i < end && (b[i] == 'e' || b[i] == 'E')) {
                    ++i; if (i < end && (b[i] == '-' || b[i] == '+')) ++i;
                    size_t q = i; while (i < end && dig(i)) ++i;
                    if (i == q || i - q > 1) return false;
                }
                if (i < end && fpc(i)) return false;
                o.f = strtold(b.substr(d, i - d).c_str(), 0);
                d = i;
            } else if (k == "fi" || k == "ni") {
                if (k == "ni") digits();
                skip();
                while (d < end && !dig(d)) { ++d; skip(); }
            } else if (k == "nn") digits();
            else if (k == "nf") { while (d < end && fpc(d)) ++d; }
            else if (k == "tf") { while (d < end && !fpc(d)) ++d; }
            else if (k == "si") {
                if (d < end && (b[d] == '+' || b[d] == '-')) ++d;
                digits(); skip();
                while (d < end && !dig(d) && b[d] != '+' && b[d] != '-') { ++d; skip(); }
            } else if (k == "ip") {
                bool at = d < end && dig(d);
                digits();
                if (d < end && b[d] == '\n') { if (at) return true; ++d; if (d < end && com(d)) return false; }
                while (d < end && !dig(d) && b[d] != '\n') { if (com(d)) return false; ++d; }
            } else if (k == "cs") {
                size_t i = d; uint64_t n = 0;
                while (true) {
                    size_t q = i; while (i < end && dig(i)) ++i;
                    if (i == q) return false;
                    if (i == end || b[i] == '\n') break;
                    if (b[i] != ' ') return false;
                    ++i; ++n;
                }
                o.u = n; d = i;
            } else if (k == "sc") skip();
            else if (k == "el") { while (d < end && b[d] != '\n') ++d; }
            else if (k == "mt") { if (d < end && b[d] == (char)a) ++d; while (d < end && b[d] != (char)a) ++d; }
            else if (k == "eo") {
                bool rest = false, odd = false;
                for (size_t i = d; i < end && b[i] != '\n'; ++i) { if ((unsigned char)b[i] > ' ') rest = true; else if (b[i] != ' ' && b[i] != '\r') odd = true; }
                if (!rest && odd) return false;
                o.u = !rest;
            } else if (k == "nl") o.u = d >= end || b[d] == '\n' || com(d);
            else if (k == "z") o.u = d < end && b[d] == '0' && !(d + 1 < end && dig(d + 1));
            else if (k == "pk") o.u = d < end ? (unsigned char)b[d] : 0;
            else if (k == "gd") o.u = d < end;
            else if (k == "st") o.u = end - d >= s.size() && b.compare(d, s.size(), s) == 0;
            else if (k == "pl" || k == "pe") d = (size_t)std::min<uint64_t>(end, d + a);
            else return false;
            return true;
        }
    };
    struct Step { string k; uint64_t a = 0; string s; };
    static Step parse_step(const string& t) {
        Step x; size_t c = t.find(':');
        x.k = t.substr(0, c);
        if (c == string::npos) return x;
        string r = t.substr(c + 1);
        x.a = r[0] == '-' ? (uint64_t)strtoll(r.c_str(), 0, 10) : strtoull(r.c_str(), 0, 10);
        size_t c2 = r.find(':');
        if (c2 != string::npos) x.s = r.substr(c2 + 1);
        return x;
    }
    // op readers/writers: every e line is the program of one part of the file
    void do_parts(const Rec& op, const vector<string>& rows, bool wr) {
        string fn = op.str("file");
        for (auto& o : w.handles) if (o.second->open && !o.second->moved && o.second->file == fn) return;
        struct Prog { uint64_t off = 0, len = 0; bool pos = false; vector<Step> steps; };
        vector<Prog> ps; string data;
        for (auto& l : rows) {
            std::istringstream is(l); Prog p; string t;
            if (!wr) { is >> t >> p.off >> p.len; p.pos = t == "P"; }
            while (is >> t) p.steps.push_back(parse_step(t));
            if (wr) {
                p.pos = true; p.off = data.size();
                vector<Step> keep;
                for (auto& x : p.steps) {
                    string z;
                    if (x.k[0] == 'p' && x.k.size() == 2 && isdigit(x.k[1])) for (int i = 0; i < x.k[1] - '0'; ++i) z += (char)(x.a >> (8 * i));
                    else if (x.k == "ps" || x.k == "pb") z = x.s = pattern((uint64_t)atoll(x.s.c_str()), x.a);
                    else if (x.k == "af" || x.k == "ad") {
                        double v = (double)(int64_t)x.a / 64;
                        if (x.k == "af") v = (float)v;
                        char b[64]; snprintf(b, sizeof b, "%.6f", v); z = b;
                    } else if (x.k[0] == 'a') {
                        unsigned bits = (unsigned)atoi(x.k.c_str() + 2);
                        z = x.k[1] == 'i' ? to_string(sext(mask_bits(x.a, bits), bits)) : to_string(mask_bits(x.a, bits));
                    } else continue;
                    data += z; p.len += z.size();
                    keep.push_back(x);
                }
                p.steps.swap(keep);
            }
            ps.push_back(p);
        }
        if (wr && data.empty()) return;
        if (!wr && (!w.files.count(fn) || !w.files[fn].known || w.files[fn].hole || w.files[fn].bytes.empty())) return;
        if (wr) { bool e = w.files.count(fn); (void)e; MFile mf; mf.known = false; w.files[fn] = mf; }
        string text = wr ? data : w.files[fn].bytes;
        std::unique_ptr<ad::FileH> h;
        ad::Status s = attempt(op, [&]() { return ad::open_file(fn.c_str(), wr, wr ? data.size() : 0, h, (int)op.i("cls")); }, wr ? fn : "", nullptr);
        if (wr) w.writing.erase(fn);
        must_ok(op, s);
        uint64_t base = 0;
        if (!wr && op.u("seek")) { base = op.u("seek") % text.size(); must_ok(op, h->seek(base)); }
        size_t next = 0;
        auto work = [&](int) {
            while (next < ps.size()) {
                Prog& p = ps[next++];
                uint64_t lim = text.size() - base, off = std::min(p.off, lim), len = std::min(p.len, lim - off);
                string tag = "part at " + to_string(base + off) + " of " + to_string(len) + " bytes: ";
                std::unique_ptr<ad::Part> c;
                must_ok(op, again([&]() { return h->part(off, len, c); }));
                RModel m{text, (size_t)(base + off), (size_t)(base + off + len)};
                uint64_t at = off; size_t k = 0;
                for (auto& x : p.steps) {
                    ++k;
                    string what = tag + "step " + to_string(k) + " (" + x.k + "): ";
                    ad::Part::Out got, want; string arg = x.s;
                    if (p.pos) {
                        uint64_t n = 0;
                        if (!wr) {
                            n = x.k == "gb" ? x.a : x.k == "gi" ? 4 : x.k[0] == 'g' && x.k.size() == 2 ? (uint64_t)(x.k[1] - '0') : 0;
                            if (!n || n > 8 * (x.k == "gb" ? 1 << 20 : 1) || at + n > off + len) break;
                            string z = text.substr(base + at, n);
                            if (x.k == "gb") want.s = z;
                            else { for (size_t i = 0; i < n; ++i) want.u |= (uint64_t)(unsigned char)z[i] << (8 * i); if (x.k == "gi") want.u = (uint64_t)sext(want.u, 32); }
                        }
                        uint64_t before = at;
                        must_ok(op, again([&]() { return c->step(x.k, x.a, arg, got); }));
                        at = c->at();
                        ++w.st->checks;
                        if (wr) {
                            if (x.k[0] == 'a') { if (got.u != at - before) bad(op, what + "write_size announced " + to_string(got.u) + " bytes, " + to_string(at - before) + " were written"); n = at - before; }
                            else n = isdigit(x.k[1]) ? (uint64_t)(x.k[1] - '0') : arg.size();
                        }
                        if (at != before + n) bad(op, what + "the position moved by " + to_string(at - before) + ", want " + to_string(n));
                        if (at > off + len) bad(op, what + "the position is beyond its part");
                        if (!wr && (got.u != want.u || got.s != want.s)) bad(op, what + "got " + to_string(got.u) + ", want " + to_string(want.u) + (got.s != want.s ? " (other bytes)" : ""));
                        continue;
                    }
                    if (x.k == "st") { // the text that is there, perhaps with one byte changed
                        arg = text.substr(std::min(text.size(), m.d), x.a);
                        if (!x.s.empty() && !arg.empty()) arg[strtoull(x.s.c_str(), 0, 10) % arg.size()] ^= 1;
                    }
                    size_t had = m.end - m.d;
                    if (!m.step(x.k, x.a, arg, want)) { // no outcome is claimed, but the reader stays in its part
                        must_ok(op, again([&]() { return c->step(x.k, x.a, arg, got); }));
                        if (c->left() > had) bad(op, what + "the reader left its part");
                        break;
                    }
                    must_ok(op, again([&]() { return c->step(x.k, x.a, arg, got); }));
                    ++w.st->checks;
                    uint64_t left = c->left();
                    if (left != m.end - m.d) bad(op, what + "the reader has " + to_string(left) + " bytes left, want " + to_string(m.end - m.d));
                    bool same = got.u == want.u;
                    if (x.k == "ff" || x.k == "fd") { long double df = std::fabs(got.f - want.f); same = df <= text_tol(x.k == "ff" ? 'f' : 'd') * std::fabs(want.f) + 1e-30; }
                    if (!same) bad(op, what + "got " + (x.k[0] == 'f' && x.k != "fi" ? to_string(got.f) : to_string(got.u)) + ", want " + (x.k[0] == 'f' && x.k != "fi" ? to_string(want.f) : to_string(want.u)));
                }
                if (wr && at != off + len) bad(op, tag + "the position ended at " + to_string(at) + ", want " + to_string(off + len));
            }
        };
        bool was = w.parts; w.parts = true;
        s = ad::in_parallel((int)op.i("n", 2), work);
        w.parts = was;
        if (!w.concurrent && w.disarmed) w.faults = w.disarmed = false;
        must_ok(op, s);
        ++w.st->checks;
        if (h->pos() != base) bad(op, "the file's own cursor moved to " + to_string(h->pos()) + ", want " + to_string(base));
        if (h->size() != text.size()) bad(op, "the file's size is " + to_string(h->size()) + ", want " + to_string(text.size()));
        must_ok(op, h->close());
        h.reset();
        string now = sim::fs_get(fn);
        if (now != text) {
            size_t i = 0; while (i < now.size() && i < text.size() && now[i] == text[i]) ++i;
            bad(op, "the file differs from what its parts hold at byte " + to_string(i) + " (sizes " + to_string(now.size()) + "/" + to_string(text.size()) + ")");
        }
        if (wr) { MFile mf; mf.bytes = text; w.files[fn] = mf; }
        check_resources(op, "after closing");
    }
    // ------------------------------------------------------------ program
    void exec(size_t i) {
        const Rec& op = *w.ops[i];
        string k = op.str("k");
        ++w.st->ops; ++w.st->optypes[k];
        if (k == "load") do_load(op);
        else if (k == "make") { auto it = w.payload.find(i); do_make(op, it == w.payload.end() ? vector<string>() : it->second); }
        else if (k == "conv") do_conv(op);
        else if (k == "sort") do_sort(op);
        else if (k == "dedup") do_dedup(op);
        else if (k == "save") do_store(op, true);
        else if (k == "write") do_store(op, false);
        else if (k == "savein") do_savein(op);
        else if (k == "nbr") do_nbr(op);
        else if (k == "maxlab") do_maxlab(op);
        else if (k == "copy") do_copy(op);
        else if (k == "assign") do_assign(op);
        else if (k == "transpose") do_transpose(op);
        else if (k == "dim") do_dim(op);
        else if (k == "free") do_free(op);
        else if (k == "poke") do_poke(op);
        else if (k == "readers" || k == "writers") { auto it = w.payload.find(i); do_parts(op, it == w.payload.end() ? vector<string>() : it->second, k == "writers"); }
        else if (k == "threads") ad::set_threads((int)op.i("n", 1));
        else if (k == "arm") sim::arm(op.i("on", 1));
        else if (k == "fork") do_fork(op);
        else if (k == "crashfile") { /* marker: file content unknown after a crash */ if (w.files.count(op.str("file"))) { w.files[op.str("file")].known = false; w.files[op.str("file")].damaged = true; } }
        else if (k == "end") { check_all(op, nullptr); check_files(op, ""); check_resources(op, "at the end"); }
        else do_file(op, k);
    }
    void run(int caller) {
        for (size_t i = 0; i < w.ops.size(); ++i)
            if ((int)w.ops[i]->i("c", 0) == caller) exec(i);
    }
    void do_fork(const Rec& op) {
        int n = (int)op.i("n", 2);
        bool par = op.str("mode") == "par";
        w.concurrent = true;
        if (par) {
            ad::Status s = ad::in_parallel(n, [&](int t) { run(t + 1); });
            must_ok(op, s);
        } else {
            vector<int> ids;
            for (int c = 1; c <= n; ++c) ids.push_back(sim::spawn([this, c]() { run(c); }));
            for (int id : ids) sim::join(id);
        }
        w.concurrent = false;
        if (w.disarmed) w.faults = w.disarmed = false;
        check_resources(op, "after the callers finished");
    }
    void finish() {
        static Rec end("op");
        if (end.kv.empty()) end.set("k", "final-check");
        check_all(end, nullptr);
        check_files(end, "");
        for (auto& h : w.handles) close_handle(end, *h.second);
        w.handles.clear();
        check_resources(end, "at the end");
        bool zero = false, unknown = false;
        for (auto& o : w.objs) {
            MObj& m = *o.second;
            if (m.opaque) unknown = true;
            for (auto& d : m.d) if (d.m == 0) zero = true;
            if (!m.dead && m.vi->stor == 'p') { ad::Status s = m.p->free_(); must_ok(end, s); }
        }
        w.objs.clear();
        // free() keeps the storage of an object without entries, in which there is no room for anything
        uint64_t left = w.leak && !unknown ? sim::count_live_allocs(zero ? 16 : 0) : 0;
        if (left) bad(end, to_string(left) + " heap block(s) still allocated after every object was released");
    }
};

string make_file(const Rec& f, const vector<std::pair<string, string>>& lines, bool& damaged) {
    string fmt = f.str("fmt", "el");
    string out;
    if (fmt == "raw") { for (auto& l : lines) { out += l.second; out += "\n"; } if (!out.empty() && !f.i("nl", 1)) out.pop_back(); }
    else if (fmt == "bytes") { // pseudo-random bytes over an alphabet
        uint64_t n = f.u("n"); sim::Rng r(f.u("seed")); string al = f.str("al", "");
        for (uint64_t i = 0; i < n; ++i) out += al.empty() ? (char)r.next() : al[r.below(al.size())];
    } else if (fmt == "bin") {
        ad::Variant* v = ad::variant(f.str("var"));
        if (!v) return "";
        ad::Dump d; d.n = f.u("n"); d.nrows = f.u("nrows"); d.ncols = f.u("ncols"); d.order = f.u("order");
        vector<vector<string>> ts;
        for (auto& l : lines) { std::istringstream is(l.second); vector<string> t; string x; while (is >> x) t.push_back(x); if (!t.empty()) ts.push_back(t); }
        const ad::VarInfo& vi = v->vi;
        auto num = [&](const string& s) { return s[0] == '-' ? (uint64_t)strtoll(s.c_str(), 0, 10) : strtoull(s.c_str(), 0, 10); };
        d.m = ts.size();
        auto csr = [&](int a, int b) {
            ad::Dump c = d;
            vector<vector<string>> s = ts;
            std::stable_sort(s.begin(), s.end(), [&](const vector<string>& p, const vector<string>& q) { return num(p[a]) < num(q[a]); });
            c.x.assign(c.rows() + 1, 0);
            for (auto& t : s) if (num(t[a]) < c.rows()) c.x[num(t[a]) + 1]++;
            for (uint64_t i = 0; i < c.rows(); ++i) c.x[i + 1] += c.x[i];
            for (auto& t : s) { c.y.push_back(num(t[b])); if (vi.wgt) c.w.push_back(narrow_w(vi.wt, strtold(t.size() > 2 ? t[2].c_str() : "0", 0))); }
            return c;
        };
        if (vi.kind == ad::K_COO) {
            for (auto& t : ts) { d.x.push_back(num(t[0])); d.y.push_back(num(t[1])); if (vi.wgt) d.w.push_back(narrow_w(vi.wt, strtold(t.size() > 2 ? t[2].c_str() : "0", 0))); }
            out = enc_coo(vi, d);
        } else if (vi.kind == ad::K_TENSOR) {
            for (auto& t : ts) { for (uint64_t k = 0; k < d.order; ++k) d.x.push_back(num(t[k])); if (vi.wgt) d.w.push_back(narrow_w(vi.wt, strtold(t.size() > d.order ? t[d.order].c_str() : "0", 0))); }
            out = enc_tensor(vi, d);
        } else if (vi.kind == ad::K_DIGRAPH) out = enc_di(vi, csr(1, 0), csr(0, 1));
        else out = enc_csr(vi, csr(0, 1));
    } else {
        string eol = f.i("crlf") ? "\r\n" : "\n";
        uint64_t nent = 0, mr = 0, mc = 0, rows = 0, ints = 0;
        for (auto& l : lines) {
            if (l.first != "l") continue;
            bool whole = !l.second.empty() && (l.second[0] == '#' || l.second[0] == '%');
            auto t = tokens(l.second);
            if (fmt == "graph") { if (!whole) { ++rows; ints += t.size(); } continue; }
            if (is_comment_or_blank(l.second)) continue;
            ++nent;
            if (t.size() > 1) { mr = std::max<uint64_t>(mr, strtoull(t[0].c_str(), 0, 10)); mc = std::max<uint64_t>(mc, strtoull(t[1].c_str(), 0, 10)); }
        }
        static const char* gaps[] = {" ", "\t", "  ", " ", "   ", " \t "};
        uint64_t hs = f.u("hsep") % 6; string gap = gaps[hs], before = hs == 4 ? "  " : "", after = hs >= 3 ? " " : "";
        vector<string> all;
        if (fmt == "mm") all.push_back(f.str("banner", "%%MatrixMarket_matrix_coordinate_real_general"));
        if (fmt == "mm") for (auto& c : all.back()) if (c == '_') c = ' ';
        for (auto& l : lines) if (l.first == "h") all.push_back(l.second); // comments before the header
        if (fmt == "mm") {
            bool sq = f.i("square"); // symmetric
            uint64_t r = mr + f.u("xr"), c = mc + f.u("xc");
            if (sq) r = c = std::max(r, c);
            all.push_back(before + to_string(r) + gap + to_string(c) + gap + to_string((int64_t)nent + f.i("xn")) + after);
        } else if (fmt == "graph") {
            uint64_t n = rows + f.i("xn"), m = ints;
            if (f.i("half") && (ints % 2 == 0 || f.i("half") > 1)) m = (ints + (f.i("half") == 2 ? 1 : 0)) / 2; // 2: rounded up, 3: down
            all.push_back(before + to_string(n) + gap + to_string(std::max<int64_t>(0, (int64_t)m + f.i("xm"))) + (f.has("htail") ? " " + f.str("htail") : "") + after);
        }
        size_t pad_at = f.i("page") == 3 ? (fmt == "mm" ? 1 : 0) : ~(size_t)0; // a comment in front that makes the last byte the last of its page
        for (auto& l : lines) if (l.first != "h") all.push_back(l.second);
        if (pad_at <= all.size() && !all.empty()) {
            size_t len = 0;
            for (auto& l : all) len += l.size() + eol.size();
            if (!f.i("nl", 1)) len -= eol.size();
            size_t fill = 4096 - (len + 1 + eol.size()) % 4096;
            all.insert(all.begin() + pad_at, "%" + string(fill, fill % 2 ? '7' : ' '));
        }
        for (size_t i = 0; i < all.size(); ++i) { out += all[i]; out += eol; }
        if (f.i("page") && f.i("page") != 3) { // grow to a multiple of the page size with a trailing comment
            size_t want = (out.size() + 4096) / 4096 * 4096;
            size_t fill = want - out.size();
            if (fmt == "graph") { if (fill) out += string(fill, '\n'); }
            else if (fill == 1) out += "\n";
            else if (fill > 1) out += (f.i("page") == 2 ? string(fill - 1, ' ') : "%" + string(fill - 2, '9')) + "\n";
        }
        if (!f.i("nl", 1) && !out.empty()) {
            // drop the final line terminator
            out.resize(out.size() - eol.size());
            if (f.i("page") && f.i("page") != 3) out += f.i("page") == 2 || fmt == "graph" ? " " : "9";
        }
    }
    if (f.has("lead")) { // bytes in front of the contents
        uint64_t n = f.u("lead"); sim::Rng r(f.u("lseed")); string l;
        for (uint64_t i = 0; i < n; ++i) l += "0123456789 \n\n#%PIGO-"[r.below(20)];
        out = l + out;
    }
    if (f.has("cut")) { uint64_t c = f.u("cut"); if (c < out.size()) { out.resize(c); damaged = true; } }
    for (auto& p : f.kv) if (p.first.compare(0, 4, "poke") == 0) { // pokeN=off:val
        size_t c = p.second.find(':');
        uint64_t off = strtoull(p.second.c_str(), 0, 10); int val = atoi(p.second.c_str() + c + 1);
        if (off < out.size() && (unsigned char)out[off] != (unsigned char)val) { out[off] = (char)val; damaged = true; }
    }
    for (auto& p : f.kv) if (p.first.compare(0, 4, "bump") == 0) { // bumpN=off:delta, one byte a little off
        size_t c = p.second.find(':');
        uint64_t off = strtoull(p.second.c_str(), 0, 10); int d = atoi(p.second.c_str() + c + 1);
        if (off < out.size() && (d & 255)) { out[off] = (char)(out[off] + d); damaged = true; }
    }
    if (f.has("grow")) { out += string(f.u("grow"), (char)f.i("growc", 0)); }
    return out;
}

int policy_of(const string& s) { for (int i = 0; i < sim::P_NUM; ++i) if (s == sim::policy_name[i]) return i; return sim::P_RTB; }

} // namespace

RunOut run_case(const Case& c) {
    RunOut out;
    sim::fs_reset();
    World* wp = new World;
    World& w = *wp;
    w.st = &out.st;
    out.hash = sim::fnvs(c.prop);
    size_t i = 0;
    while (i < c.recs.size()) {
        sim::Config cfg;
        w.ops.clear(); w.payload.clear();
        w.faults = false; w.concurrent = false; w.writing.clear(); w.dirty.clear(); w.leak = false;
        // collect one phase
        bool seen = false;
        const Rec* cur_file = nullptr; vector<std::pair<string, string>> lines;
        auto flush = [&]() {
            if (!cur_file) return;
            MFile mf;
            bool dmg = cur_file->i("dmg");
            mf.bytes = make_file(*cur_file, lines, dmg);
            string nm = cur_file->str("name");
            mf.damaged = dmg && cur_file->str("fmt") == "bin";
            if (cur_file->str("fmt") == "bin") if (ad::Variant* fv = ad::variant(cur_file->str("var"))) mf.wgt = fv->vi.wgt;
            if (cur_file->has("hole")) { mf.hole = std::min<uint64_t>(cur_file->u("hole"), 9ull << 30) / 4096 * 4096; sim::fs_put_sparse(nm, mf.hole, mf.bytes); }
            else sim::fs_put(nm, mf.bytes);
            w.files[nm] = mf;
            if (cur_file->has("deny")) sim::fs_deny(nm, (int)cur_file->i("deny"));
            cur_file = nullptr; lines.clear();
        };
        for (; i < c.recs.size(); ++i) {
            const Rec& r = c.recs[i];
            if (r.type == "phase") { if (seen) break; seen = true; continue; }
            seen = true;
            if (r.type == "cfg") {
                cfg.team = (int)std::max<int64_t>(1, r.i("team", 4)); cfg.dyn = r.i("dyn"); cfg.max_levels = (int)r.i("lev", 1); cfg.chunk = (int)r.i("chunk");
                cfg.reuse_maps = r.i("reuse", 1); cfg.disk_pages = r.u("disk"); cfg.race = r.i("race"); cfg.exact_tail = r.i("tail"); cfg.fill_seed = r.u("fill", 7);
                cfg.step_budget = r.u("budget", 120000000);
                cfg.heap_limit = r.u("heap", 200) << 20;
                w.leak = r.i("leak");
            } else if (r.type == "sched") {
                cfg.sched.policy = policy_of(r.str("policy")); cfg.sched.seed = r.u("seed", 1); cfg.sched.q = r.u("q", 100); cfg.sched.depth = (int)r.i("depth", 3); cfg.sched.klen = r.u("klen", 10000);
            } else if (r.type == "sw") cfg.sched.sw.push_back(sim::Switch{(uint32_t)r.u("f"), r.u("s"), (uint32_t)r.u("t")});
            else if (r.type == "fault") { for (uint64_t k = 0; k < std::min<uint64_t>(r.u("rep", 1), 1000); ++k) cfg.faults.push_back(sim::Fault{r.str("fn"), (uint32_t)(r.u("nth", 1) + k), (int)r.i("err", 5)}); w.faults = true; }
            else if (r.type == "crash") { cfg.crash = r.str("kind") == "power" ? sim::CRASH_POWER : sim::CRASH_KILL; cfg.crash_at = r.u("at", 1); }
            else if (r.type == "file") { flush(); cur_file = &r; }
            else if (r.type == "l" || r.type == "h") lines.push_back({r.type, r.line});
            else if (r.type == "e") { if (cur_file) lines.push_back({"e", r.line}); else if (!w.ops.empty()) w.payload[w.ops.size() - 1].push_back(r.line); }
            else if (r.type == "op") { flush(); w.ops.push_back(&r); }
        }
        flush();
        sim::fs_mark_durable();
        Interp in(w);
        if (cfg.disk_pages) { w.faults = true; }
        sim::PhaseResult pr = sim::run_phase(cfg, [&]() {
            sim::arm(true);
            in.run(0);
            sim::arm(false);
            in.finish();
        });
        out.st.phases++; out.st.steps += pr.steps; out.st.switches += pr.switches; out.st.preempts += pr.preempts; out.st.regions += pr.regions; out.st.fibers += pr.fibers;
        out.st.max_team = std::max(out.st.max_team, pr.max_team);
        for (auto& f : pr.fired) out.st.fired[f.first] += f.second;
        out.st.policies[sim::policy_name[cfg.sched.policy]]++;
        out.hash = sim::fnv(&pr.hash, 8, out.hash);
        out.calls.push_back(pr.calls); out.crash_points.push_back(pr.crash_points); out.traces.push_back(pr.trace);
        if (pr.outcome == sim::O_VIOLATION) {
            out.violation = true; out.cls = pr.cls; out.detail = pr.detail;
            out.hash = sim::fnvs(pr.cls + pr.detail, out.hash);
            break;
        }
        if (pr.outcome == sim::O_CRASHED) {
            out.st.crashes++;
            out.st.fired[cfg.crash == sim::CRASH_POWER ? "crash:power" : "crash:kill"]++;
            // everything not being written must have survived unchanged
            for (auto& f : w.files) {
                if (w.writing.count(f.first)) { f.second.known = false; f.second.damaged = true; continue; }
                bool open_w = false;
                for (auto& h : w.handles) if (h.second->open && h.second->wr && h.second->file == f.first) open_w = true;
                if (open_w) { f.second.known = false; f.second.damaged = true; continue; }
                if (!f.second.known) continue;
                string b = sim::fs_exists(f.first) ? sim::fs_get(f.first) : "<missing>";
                if (b == f.second.bytes) continue;
                // what this life wrote completely may be lost or torn by a power failure
                if (cfg.crash == sim::CRASH_POWER && w.dirty.count(f.first)) { f.second.known = false; f.second.damaged = true; continue; }
                out.violation = true; out.cls = "WRONG"; out.detail = "after the crash, file " + f.first + " (not being written) has changed";
                break;
            }
            if (out.violation) break;
            for (auto& n : sim::fs_list()) if (!w.files.count(n)) { MFile mf; mf.known = false; mf.damaged = true; w.files[n] = mf; }
            for (auto it = w.files.begin(); it != w.files.end();) { if (!sim::fs_exists(it->first)) it = w.files.erase(it); else ++it; }
            // wrappers of the dead process are abandoned
            for (auto& o : w.objs) o.second->p.release();
            for (auto& h : w.handles) h.second->p.release();
        }
        w.objs.clear(); w.handles.clear();
    }
    if (out.violation) { for (auto& o : w.objs) if (o.second->p) o.second->p.release(); for (auto& h : w.handles) if (h.second->p) h.second->p.release(); }
    w.objs.clear(); w.handles.clear();
    delete wp;
    return out;
}

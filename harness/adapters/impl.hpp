#pragma once
#include "api.hpp"
#include "../../sim/sim.hpp"
#include <pigo.hpp>
#include <new>
#include <type_traits>

namespace ad {

template <class F> Status guarded(F f) {
    Status st;
    try {
        sim::Target t;
        f();
    } catch (pigo::Error& e) { st.code = ST_ERROR; st.what = e.what(); }
    catch (std::bad_alloc& e) { st.code = ST_ALLOC; st.what = e.what(); }
    catch (std::exception& e) { st.code = ST_STD; st.what = e.what(); }
    catch (...) { st.code = ST_OTHER; st.what = "not a std::exception"; }
    return st;
}
inline Status unsupported() { Status s; s.code = ST_UNSUPPORTED; s.what = "unsupported"; return s; }

// ---------------------------------------------------------------- storage
template <class S> struct Elem;
template <class T> struct Elem<T*> {
    typedef T type;
    static char stor() { return 'p'; }
    static T* data(T*& s) { return s; }
    static bool has(T*& s, size_t n) { return n == 0 || sim::range_ok(s, n * sizeof(T)); }
};
template <class T> struct Elem<std::vector<T>> {
    typedef T type;
    static char stor() { return 'v'; }
    static T* data(std::vector<T>& s) { return s.data(); }
    static bool has(std::vector<T>& s, size_t n) { return s.size() >= n && (n == 0 || sim::range_ok(s.data(), n * sizeof(T))); }
};
template <class T> struct Elem<std::shared_ptr<T>> {
    typedef T type;
    static char stor() { return 's'; }
    static T* data(std::shared_ptr<T>& s) { return s.get(); }
    static bool has(std::shared_ptr<T>& s, size_t n) { return n == 0 || (s.get() && sim::range_ok(s.get(), n * sizeof(T))); }
};

template <class T> uint64_t bits(T v) { return (uint64_t)typename std::make_unsigned<T>::type(v); }

template <class S> bool get_ints(S& s, size_t n, std::vector<uint64_t>& out, std::string& bad, const char* what) {
    if (n > (400u << 20) / sizeof(typename Elem<S>::type) || !Elem<S>::has(s, n)) {
        bad = std::string(what) + " holds fewer elements than the object's counts say (" + std::to_string(n) + ")";
        return false;
    }
    typename Elem<S>::type* p = Elem<S>::data(s);
    out.resize(n);
    for (size_t i = 0; i < n; ++i) out[i] = bits(p[i]);
    return true;
}
template <class S> bool get_wgt(S& s, size_t n, std::vector<long double>& out, std::string& bad) {
    if (n > (400u << 20) / sizeof(typename Elem<S>::type) || !Elem<S>::has(s, n)) {
        bad = "weight array holds fewer elements than the object's counts say (" + std::to_string(n) + ")";
        return false;
    }
    typename Elem<S>::type* p = Elem<S>::data(s);
    out.resize(n);
    for (size_t i = 0; i < n; ++i) out[i] = (long double)p[i];
    return true;
}
template <class S> void put_ints(S& s, const std::vector<uint64_t>& in) {
    typename Elem<S>::type* p = Elem<S>::data(s);
    for (size_t i = 0; i < in.size(); ++i) p[i] = (typename Elem<S>::type)in[i];
}
template <class S> void put_wgt(S& s, const std::vector<long double>& in) {
    typename Elem<S>::type* p = Elem<S>::data(s);
    for (size_t i = 0; i < in.size(); ++i) p[i] = (typename Elem<S>::type)in[i];
}

template <class S> Status poke_arr(S& s, uint64_t i, uint64_t v) {
    S* p = &s;
    return guarded([p, i, v]() { Elem<S>::data(*p)[i] = (typename Elem<S>::type)v; });
}

template <class W> struct WCode;
template <> struct WCode<float> { static char c() { return 'f'; } };
template <> struct WCode<double> { static char c() { return 'd'; } };
template <> struct WCode<int> { static char c() { return 'i'; } };
template <> struct WCode<unsigned> { static char c() { return 'u'; } };
template <> struct WCode<long> { static char c() { return 'l'; } };

// ---------------------------------------------------------------- wrappers
template <class T> struct Base : Obj {
    T* p = nullptr;      // in simulated memory
    bool built = false;
    Base(const VarInfo* v) { vi = v; p = (T*)sim::obj_alloc(sizeof(T)); }
    ~Base() override {
        if (built) { T* q = p; guarded([q]() { q->~T(); }); }
        if (p) sim::obj_free(p);
    }
    Dump dump(int) override { return Dump(); }
    Status save(const char*) override { return unsupported(); }
    Status write(const char*) override { return unsupported(); }
    Status free_() override { T* q = p; return guarded([q]() { q->free(); }); }
    Status sort(int) override { return unsupported(); }
    Status transpose() override { return unsupported(); }
    Status copy(std::unique_ptr<Obj>&) override { return unsupported(); }
    Status assign(Obj&) override { return unsupported(); }
    Status set_dim(char, uint64_t) override { return unsupported(); }
    Status poke(int, char, uint64_t, uint64_t) override { return unsupported(); }
    Status max_labels(std::vector<uint64_t>&) override { return unsupported(); }
    Status neighbours(int, std::vector<uint64_t>&, std::vector<uint64_t>&) override { return unsupported(); }
    uint64_t save_size() override { return 0; }
    Status save_in_file(const char*, uint64_t, uint64_t) override { return unsupported(); }
    void* raw() override { return p; }
};

template <class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
struct CooW : Base<pigo::COO<L, O, S, sym, ut, sl, wgt, W, WS>> {
    typedef pigo::COO<L, O, S, sym, ut, sl, wgt, W, WS> T;
    using Base<T>::p;
    CooW(const VarInfo* v) : Base<T>(v) {}
    Dump dump(int) override {
        Dump d;
        d.n = bits(p->n()); d.nrows = bits(p->nrows()); d.ncols = bits(p->ncols()); d.m = bits(p->m());
        get_ints(p->x(), d.m, d.x, d.bad, "x") && get_ints(p->y(), d.m, d.y, d.bad, "y") && (!wgt || get_wgt(p->w(), d.m, d.w, d.bad));
        return d;
    }
    Status save(const char* fn) override { T* q = p; return guarded([q, fn]() { q->save(std::string(fn)); }); }
    Status write(const char* fn) override { T* q = p; return guarded([q, fn]() { q->write(std::string(fn)); }); }
    Status transpose() override { T* q = p; return guarded([q]() { q->transpose(); }); }
    Status copy(std::unique_ptr<Obj>& out) override {
        CooW* c = new CooW(this->vi);
        T* q = p; T* r = c->p;
        Status s = guarded([q, r]() { new (r) T(*q); });
        c->built = s.ok();
        std::unique_ptr<Obj> o(c);
        if (s.ok()) out = std::move(o);
        return s;
    }
    Status assign(Obj& from) override {
        T* q = p; T* r = (T*)from.raw();
        return guarded([q, r]() { *q = *r; });
    }
    Status poke(int, char which, uint64_t i, uint64_t v) override {
        if (which == 'w') return poke_arr(p->w(), i, v);
        return which == 'x' ? poke_arr(p->x(), i, v) : poke_arr(p->y(), i, v);
    }
    Status set_dim(char which, uint64_t v) override {
        T* q = p;
        return guarded([q, which, v]() {
            if (which == 'n') q->set_n((L)v); else if (which == 'r') q->set_nrows((L)v); else q->set_ncols((L)v);
        });
    }
    static Status do_make(const VarInfo* vi, const Dump& d, std::unique_ptr<Obj>& out) {
        CooW* c = new CooW(vi);
        std::unique_ptr<Obj> o(c);
        T* r = c->p;
        L n = (L)d.n, nr = (L)d.nrows, nc = (L)d.ncols; O m = (O)d.m;
        Status s = guarded([=]() { new (r) T(n, nr, nc, m); });
        if (!s.ok()) return s;
        c->built = true;
        put_ints(r->x(), d.x); put_ints(r->y(), d.y);
        if (wgt) put_wgt(r->w(), d.w);
        out = std::move(o);
        return s;
    }
};

template <class T, class L, class O, class LS, class OS, bool wgt, class W, class WS> Dump dump_csr(T* p) {
    Dump d;
    d.n = bits(p->n()); d.nrows = bits(p->nrows()); d.ncols = bits(p->ncols()); d.m = bits(p->m());
    get_ints(p->offsets(), d.rows() + 1, d.x, d.bad, "offsets") && get_ints(p->endpoints(), d.m, d.y, d.bad, "endpoints") &&
        (!wgt || get_wgt(p->weights(), d.m, d.w, d.bad));
    return d;
}

// neighbour access exists for graphs only
template <class T, class L, class O, bool is_graph> struct Nbr {
    static Status op(T*, std::vector<uint64_t>&, std::vector<uint64_t>&) { return unsupported(); }
};
template <class T, class L, class O> struct Nbr<T, L, O, true> {
    static Status op(T* q, std::vector<uint64_t>& deg, std::vector<uint64_t>& nbr) {
        std::vector<uint64_t>* dp = &deg; std::vector<uint64_t>* np = &nbr;
        return guarded([q, dp, np]() {
            uint64_t n = std::max<uint64_t>(bits(q->n()), bits(q->nrows()));
            // neighbors() may copy the whole storage: sample the vertices of large graphs
            uint64_t step = nbr_step(n, bits(q->m()));
            for (uint64_t u = 0; u < n; u += step) {
                L v = (L)u;
                O a = q->neighbor_start(v), b = q->neighbor_end(v), dg = q->degree(v);
                { sim::Exempt x; dp->push_back(bits(a)); dp->push_back(bits(b)); dp->push_back(bits(dg)); }
                auto nb = q->neighbors(v);
                auto e = nb.end();
                size_t guard = 0;
                for (auto it = nb.begin(); it != e; ++it) {
                    L u = *it;
                    sim::Exempt x;
                    np->push_back(bits(u));
                    if (++guard > (64u << 20)) return;
                }
            }
        });
    }
};

template <class T, class L, class O, class LS, class OS, bool wgt, class W, class WS, bool is_graph>
struct CsrW : Base<T> {
    using Base<T>::p;
    CsrW(const VarInfo* v) : Base<T>(v) {}
    Dump dump(int) override { return dump_csr<T, L, O, LS, OS, wgt, W, WS>(p); }
    Status save(const char* fn) override { T* q = p; return guarded([q, fn]() { q->save(std::string(fn)); }); }
    Status sort(int) override { T* q = p; return guarded([q]() { q->sort(); }); }
    Status poke(int, char which, uint64_t i, uint64_t v) override { return which == 'w' ? poke_arr(p->weights(), i, v) : poke_arr(p->endpoints(), i, v); }
    uint64_t save_size() override { return p->save_size(); }
    Status save_in_file(const char* fn, uint64_t lead, uint64_t tail) override {
        T* q = p;
        return guarded([q, fn, lead, tail]() {
            pigo::WFile f{std::string(fn), (size_t)(lead + q->save_size() + tail)};
            f.seek(lead);
            q->save(f);
            for (uint64_t i = 0; i < tail; ++i) f.write((char)'T'); // the cursor is right behind the object
        });
    }
    Status neighbours(int, std::vector<uint64_t>& deg, std::vector<uint64_t>& nbr) override {
        return Nbr<T, L, O, is_graph>::op(p, deg, nbr);
    }
    static Status do_make(const VarInfo* vi, const Dump& d, std::unique_ptr<Obj>& out) {
        CsrW* c = new CsrW(vi);
        std::unique_ptr<Obj> o(c);
        T* r = c->p;
        L n = (L)d.n, nr = (L)d.nrows, nc = (L)d.ncols; O m = (O)d.m;
        Status s = guarded([=]() { new (r) T(n, m, nr, nc); });
        if (!s.ok()) return s;
        c->built = true;
        put_ints(r->offsets(), d.x); put_ints(r->endpoints(), d.y);
        if (wgt) put_wgt(r->weights(), d.w);
        out = std::move(o);
        return s;
    }
};

template <class T, class G, class L, class O, class LS, class OS, bool wgt, class W, class WS>
struct DiW : Base<T> {
    using Base<T>::p;
    DiW(const VarInfo* v) : Base<T>(v) {}
    Dump dump(int part) override {
        Dump d = part ? dump_csr<G, L, O, LS, OS, wgt, W, WS>(&p->in()) : dump_csr<G, L, O, LS, OS, wgt, W, WS>(&p->out());
        if (d.bad.empty() && !part) {
            if (bits(p->n()) != d.n) d.bad = "n() differs from out().n()";
            if (bits(p->m()) != d.m) d.bad = "m() differs from out().m()";
            if (bits(p->nrows()) != d.nrows) d.bad = "nrows() differs from out().nrows()";
            if (bits(p->ncols()) != d.ncols) d.bad = "ncols() differs from out().ncols()";
        }
        return d;
    }
    Status save(const char* fn) override { T* q = p; return guarded([q, fn]() { q->save(std::string(fn)); }); }
    Status sort(int part) override { T* q = p; return guarded([q, part]() { if (part) q->in().sort(); else q->out().sort(); }); }
    Status poke(int part, char which, uint64_t i, uint64_t v) override {
        G& g = part ? p->in() : p->out();
        return which == 'w' ? poke_arr(g.weights(), i, v) : poke_arr(g.endpoints(), i, v);
    }
    Status neighbours(int part, std::vector<uint64_t>& deg, std::vector<uint64_t>& nbr) override {
        return Nbr<G, L, O, true>::op(part ? &p->in() : &p->out(), deg, nbr);
    }
};

template <class T, class C, class CC, class L, class O, class LS, class OS, bool wgt, class W, class WS>
struct MatW : Base<T> {
    using Base<T>::p;
    MatW(const VarInfo* v) : Base<T>(v) {}
    Dump dump(int part) override {
        Dump d = part ? dump_csr<CC, L, O, LS, OS, wgt, W, WS>(&p->csc()) : dump_csr<C, L, O, LS, OS, wgt, W, WS>(&p->csr());
        if (d.bad.empty() && !part) {
            if (bits(p->nrows()) != d.nrows) d.bad = "nrows() differs from csr().nrows()";
            if (bits(p->ncols()) != d.ncols) d.bad = "ncols() differs from csr().ncols()";
        }
        return d;
    }
    Status sort(int part) override { T* q = p; return guarded([q, part]() { if (part) q->csc().sort(); else q->csr().sort(); }); }
    Status poke(int part, char which, uint64_t i, uint64_t v) override {
        if (part) return which == 'w' ? poke_arr(p->csc().weights(), i, v) : poke_arr(p->csc().endpoints(), i, v);
        return which == 'w' ? poke_arr(p->csr().weights(), i, v) : poke_arr(p->csr().endpoints(), i, v);
    }
};

template <class L, class O, class S, class W, class WS, bool wgt>
struct TenW : Base<pigo::Tensor<L, O, S, W, WS, wgt>> {
    typedef pigo::Tensor<L, O, S, W, WS, wgt> T;
    using Base<T>::p;
    TenW(const VarInfo* v) : Base<T>(v) {}
    Dump dump(int) override {
        Dump d;
        d.m = bits(p->m()); d.order = bits(p->order());
        if (d.order && d.m > (1ull << 32) / d.order) { d.bad = "order * m too large"; return d; }
        get_ints(p->c(), d.m * d.order, d.x, d.bad, "c") && (!wgt || get_wgt(p->w(), d.m, d.w, d.bad));
        return d;
    }
    Status save(const char* fn) override { T* q = p; return guarded([q, fn]() { q->save(std::string(fn)); }); }
    Status write(const char* fn) override { T* q = p; return guarded([q, fn]() { q->write(std::string(fn)); }); }
    Status copy(std::unique_ptr<Obj>& out) override {
        TenW* c = new TenW(this->vi);
        T* q = p; T* r = c->p;
        Status s = guarded([q, r]() { new (r) T(*q); });
        c->built = s.ok();
        std::unique_ptr<Obj> o(c);
        if (s.ok()) out = std::move(o);
        return s;
    }
    Status assign(Obj& from) override {
        T* q = p; T* r = (T*)from.raw();
        return guarded([q, r]() { *q = *r; });
    }
    Status poke(int, char which, uint64_t i, uint64_t v) override { return which == 'w' ? poke_arr(p->w(), i, v) : poke_arr(p->c(), i, v); }
    Status max_labels(std::vector<uint64_t>& out) override {
        T* q = p; std::vector<uint64_t>* o = &out;
        return guarded([q, o]() {
            std::vector<L> v = q->max_labels();
            sim::Exempt x;
            for (L l : v) o->push_back(bits(l));
        });
    }
    static Status do_make(const VarInfo* vi, const Dump& d, std::unique_ptr<Obj>& out) {
        TenW* c = new TenW(vi);
        std::unique_ptr<Obj> o(c);
        T* r = c->p;
        O order = (O)d.order, m = (O)d.m;
        Status s = guarded([=]() { new (r) T(order, m); });
        if (!s.ok()) return s;
        c->built = true;
        put_ints(r->c(), d.x);
        if (wgt) put_wgt(r->w(), d.w);
        out = std::move(o);
        return s;
    }
};

// mode 0: by name, type detected; 1: by name and type; 2: from an open File,
// whose cursor stands at mode >> 8
template <class Wr, class T> struct Loader {
    static Status op(const VarInfo* vi, const char* fn, int64_t mode, int ft, std::unique_ptr<Obj>& out) {
        Wr* c = new Wr(vi);
        std::unique_ptr<Obj> o(c);
        T* r = c->p;
        size_t pos = (size_t)(mode >> 8); mode &= 255;
        uint64_t end = 0; uint64_t* endp = &end;
        Status s = guarded([=]() {
            std::string name(fn);
            if (mode == 0) new (r) T(name);
            else if (mode == 1) new (r) T(name, (pigo::FileType)ft);
            else {
                pigo::ROFile f(name);
                if (pos) f.seek(pos);
                new (r) T(f, (pigo::FileType)ft);
                *endp = f.size() - f.remaining();
            }
        });
        s.aux = end;
        if (!s.ok()) return s;
        c->built = true;
        out = std::move(o);
        return s;
    }
};
template <class Wr, class T> struct NameLoader { // only a constructor taking a file name
    static Status op(const VarInfo* vi, const char* fn, int64_t, int, std::unique_ptr<Obj>& out) {
        Wr* c = new Wr(vi);
        std::unique_ptr<Obj> o(c);
        T* r = c->p;
        Status s = guarded([=]() { std::string name(fn); new (r) T(name); });
        if (!s.ok()) return s;
        c->built = true;
        out = std::move(o);
        return s;
    }
};
template <class Wr, class T, class From> Status construct_from(const VarInfo* vi, Obj& from, std::unique_ptr<Obj>& out) {
    Wr* c = new Wr(vi);
    std::unique_ptr<Obj> o(c);
    T* r = c->p;
    From* f = (From*)from.raw();
    Status s = guarded([=]() { new (r) T(*f); });
    if (!s.ok()) return s;
    c->built = true;
    out = std::move(o);
    return s;
}

// ---------------------------------------------------------------- families
template <int F, class L_, class O_, class S_, class OS_, bool wgt_, class W_, class WS_> struct Family {
    typedef L_ L; typedef O_ O; typedef S_ S; typedef OS_ OS; typedef W_ W; typedef WS_ WS;
    static const bool wgt = wgt_;
    static const int fam = F;
    template <bool sym, bool ut, bool sl> struct Coo {
        typedef pigo::COO<L, O, S, sym, ut, sl, wgt, W, WS> T;
        typedef CooW<L, O, S, sym, ut, sl, wgt, W, WS> Wr;
    };
    typedef pigo::CSR<L, O, S, OS, wgt, W, WS> Csr;
    typedef CsrW<Csr, L, O, S, OS, wgt, W, WS, false> CsrWr;
    typedef pigo::BaseGraph<L, O, S, OS, wgt, W, WS> Graph;
    typedef CsrW<Graph, L, O, S, OS, wgt, W, WS, true> GraphWr;
    typedef pigo::DiGraph<L, O, S, OS, wgt, W, WS> Di;
    typedef DiW<Di, Graph, L, O, S, OS, wgt, W, WS> DiWr;
    typedef pigo::Matrix<L, O, S, OS, wgt, W, WS> Mat;
    typedef MatW<Mat, Csr, pigo::CSC<L, O, S, OS, wgt, W, WS>, L, O, S, OS, wgt, W, WS> MatWr;
    typedef pigo::Tensor<L, O, S, W, WS, wgt> Ten;
    typedef TenW<L, O, S, W, WS, wgt> TenWr;

    static VarInfo info(Kind k, const char* base, bool sym, bool ut, bool sl) {
        VarInfo v;
        v.kind = k; v.fam = F;
        v.lbits = sizeof(L) * 8; v.obits = sizeof(O) * 8;
        v.lsigned = std::is_signed<L>::value; v.osigned = std::is_signed<O>::value;
        v.stor = Elem<S>::stor();
        v.wgt = wgt; v.wt = WCode<W>::c();
        v.sym = sym; v.ut = ut; v.sl = sl;
        v.name = std::string(base) + std::to_string(F) + (sym ? "s" : "") + (ut ? "u" : "") + (sl ? "l" : "");
        return v;
    }
    static void reg(const VarInfo& v, LoadFn l, MakeFn m) {
        Variant* x = new Variant;
        x->vi = v; x->load = l; x->make = m;
        variants().push_back(x);
    }
    template <bool sym, bool ut, bool sl> static void reg_coo() {
        typedef Coo<sym, ut, sl> C;
        VarInfo v = info(K_COO, "coo", sym, ut, sl);
        reg(v, &Loader<typename C::Wr, typename C::T>::op, &C::Wr::do_make);
        // conversions from and to the CSR of the family
        converters()[std::make_pair(v.name, info(K_CSR, "csr", 0, 0, 0).name)] = &construct_from<CsrWr, Csr, typename C::T>;
        converters()[std::make_pair(info(K_CSR, "csr", 0, 0, 0).name, v.name)] = &construct_from<typename C::Wr, typename C::T, Csr>;
    }
    template <bool sym, bool ut, bool sl> static void reg_coo_big() {
        typedef Coo<sym, ut, sl> C;
        std::string c = info(K_COO, "coo", sym, ut, sl).name;
        converters()[std::make_pair(c, info(K_GRAPH, "graph", 0, 0, 0).name)] = &construct_from<GraphWr, Graph, typename C::T>;
        converters()[std::make_pair(c, info(K_DIGRAPH, "di", 0, 0, 0).name)] = &construct_from<DiWr, Di, typename C::T>;
        converters()[std::make_pair(c, info(K_MATRIX, "mat", 0, 0, 0).name)] = &construct_from<MatWr, Mat, typename C::T>;
    }
    static Status dedup_self(const VarInfo* vi, Obj& from, std::unique_ptr<Obj>& out) {
        CsrWr* c = new CsrWr(vi);
        std::unique_ptr<Obj> o(c);
        Csr* r = c->p; Csr* f = (Csr*)from.raw();
        Status s = guarded([=]() { new (r) Csr(f->new_csr_without_dups()); });
        if (!s.ok()) return s;
        c->built = true;
        out = std::move(o);
        return s;
    }
    static void reg_csr() {
        VarInfo v = info(K_CSR, "csr", 0, 0, 0);
        reg(v, &Loader<CsrWr, Csr>::op, &CsrWr::do_make);
        dedups()[std::make_pair(v.name, v.name)] = &dedup_self;
    }
    static void reg_graphs() {
        reg(info(K_GRAPH, "graph", 0, 0, 0), &Loader<GraphWr, Graph>::op, &GraphWr::do_make);
        reg(info(K_DIGRAPH, "di", 0, 0, 0), &Loader<DiWr, Di>::op, nullptr);
        reg(info(K_MATRIX, "mat", 0, 0, 0), &NameLoader<MatWr, Mat>::op, nullptr);
    }
    static void reg_tensor() {
        reg(info(K_TENSOR, "ten", 0, 0, 0), &Loader<TenWr, Ten>::op, &TenWr::do_make);
    }
};

// dedup into another family
template <class A, class B> Status dedup_to(const VarInfo* vi, Obj& from, std::unique_ptr<Obj>& out) {
    typedef typename B::CsrWr Wr; typedef typename B::Csr T;
    Wr* c = new Wr(vi);
    std::unique_ptr<Obj> o(c);
    T* r = c->p; typename A::Csr* f = (typename A::Csr*)from.raw();
    Status s = guarded([=]() {
        new (r) T(f->template new_csr_without_dups<typename B::L, typename B::O, typename B::S, typename B::OS, B::wgt, typename B::W, typename B::WS>());
    });
    if (!s.ok()) return s;
    c->built = true;
    out = std::move(o);
    return s;
}
template <class A, class B> void reg_cross() { // A and B have the same weightedness
    typedef typename A::template Coo<false, false, false> CA;
    typedef typename B::template Coo<false, false, false> CB;
    std::string ca = A::info(K_COO, "coo", 0, 0, 0).name, cb = B::info(K_COO, "coo", 0, 0, 0).name;
    std::string ra = A::info(K_CSR, "csr", 0, 0, 0).name, rb = B::info(K_CSR, "csr", 0, 0, 0).name;
    converters()[std::make_pair(ca, rb)] = &construct_from<typename B::CsrWr, typename B::Csr, typename CA::T>;
    converters()[std::make_pair(ra, cb)] = &construct_from<typename CB::Wr, typename CB::T, typename A::Csr>;
    dedups()[std::make_pair(ra, rb)] = &dedup_to<A, B>;
}

typedef std::vector<uint64_t> v64; typedef std::vector<uint32_t> v32;
typedef std::shared_ptr<uint32_t> s32; typedef std::shared_ptr<uint64_t> s64;
typedef Family<0, uint32_t, uint32_t, uint32_t*, uint32_t*, false, float, float*> F0;
typedef Family<1, uint64_t, uint64_t, v64, v64, false, float, std::vector<float>> F1;
typedef Family<2, uint32_t, uint64_t, s32, s64, false, float, std::shared_ptr<float>> F2;
typedef Family<3, int, int, int*, int*, false, float, float*> F3;
typedef Family<4, uint32_t, uint32_t, uint32_t*, uint32_t*, true, float, float*> F4;
typedef Family<5, uint64_t, uint32_t, v64, v32, true, double, std::vector<double>> F5;
typedef Family<6, uint32_t, uint64_t, s32, s64, true, int, std::shared_ptr<int>> F6;
typedef Family<7, int64_t, int64_t, int64_t*, int64_t*, true, unsigned, unsigned*> F7;
typedef Family<8, uint16_t, uint32_t, uint16_t*, uint32_t*, false, float, float*> F8;
typedef Family<9, uint8_t, uint32_t, std::vector<uint8_t>, v32, true, int, std::vector<int>> F9;
typedef Family<10, uint32_t, uint16_t, uint32_t*, uint16_t*, false, float, float*> F10;
} // namespace ad

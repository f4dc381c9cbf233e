#include "impl.hpp"
#include <omp.h>

namespace ad {
namespace {

template <class TT> void find_t(pigo::FileReader r, char c, std::vector<uint64_t>* out, std::string* bad) {
    TT t = r.find_offsets<TT>(c);
    {
        sim::Exempt x;
        if (bits(t.order()) != 1) *bad = "order of the offsets is not 1";
        get_ints(t.c(), bits(t.m()), *out, *bad, "offsets");
    }
    t.free();
}

struct Bytes { // the caller's text, where the library may read it
    char* b; size_t n;
    explicit Bytes(const std::string& s) : n(s.size()) { b = (char*)sim::obj_alloc(n + 1); for (size_t i = 0; i < n; ++i) b[i] = s[i]; }
    ~Bytes() { sim::obj_free(b); }
    Bytes(const Bytes&) = delete;
};
template <class T> void ascii_t(pigo::FilePos& p, T v, Part::Out* o) {
    size_t n = pigo::write_size(v);
    pigo::write_ascii(p, v);
    o->u = n;
}
struct PH : Part {
    struct Raw { pigo::FileReader r; pigo::FilePos p; pigo::FilePos base; };
    Raw* x;
    PH() { x = (Raw*)sim::obj_alloc(sizeof(Raw)); }
    ~PH() override { sim::obj_free(x); }
    uint64_t left() override { Raw* q = x; uint64_t r = 0; uint64_t* rp = &r; guarded([=]() { uint64_t v = q->r.size(); *rp = v; }); return r; }
    uint64_t at() override { return (uint64_t)(x->p - x->base); }
    Status step(const std::string& k, uint64_t a, const std::string& s, Out& out) override {
        Raw* q = x; Out* o = &out;
        Bytes bs(s); const char* c = bs.b; size_t n = bs.n;
        #define R(name, ...) if (k == name) return guarded([=]() { __VA_ARGS__; });
        R("ri8", o->u = q->r.read_int<uint8_t>())
        R("ri16", o->u = q->r.read_int<uint16_t>())
        R("ri32", o->u = q->r.read_int<uint32_t>())
        R("ri64", o->u = q->r.read_int<uint64_t>())
        R("rs", o->u = (uint64_t)(int64_t)q->r.read_sign<int>())
        R("ff", o->f = q->r.read_fp<float>())
        R("fd", o->f = q->r.read_fp<double>())
        R("fi", q->r.move_to_first_int())
        R("ni", q->r.move_to_next_int())
        R("nn", q->r.move_to_non_int())
        R("nf", q->r.move_to_non_fp())
        R("tf", q->r.move_to_fp())
        R("si", q->r.move_to_next_signed_int())
        R("ip", q->r.move_to_next_int_or_nl())
        R("cs", o->u = q->r.count_spaces_to_eol())
        R("sc", q->r.skip_comments())
        R("el", q->r.move_to_eol())
        R("mt", q->r.move_to((char)a))
        R("eo", o->u = q->r.at_end_of_line())
        R("nl", o->u = q->r.at_nl_or_eol())
        R("z", o->u = q->r.at_zero())
        R("pk", o->u = (unsigned char)q->r.peek())
        R("gd", o->u = q->r.good())
        R("st", std::string t(c, n); o->u = q->r.at_str(t))
        R("pl", q->r = q->r + (size_t)a)
        R("pe", q->r += (size_t)a)
        // typed values at the position
        R("g1", o->u = pigo::read<uint8_t>(q->p))
        R("g2", o->u = pigo::read<uint16_t>(q->p))
        R("g4", o->u = pigo::read<uint32_t>(q->p))
        R("g8", o->u = pigo::read<uint64_t>(q->p))
        R("gi", o->u = (uint64_t)(int64_t)pigo::read<int32_t>(q->p))
        R("p1", pigo::write(q->p, (uint8_t)a))
        R("p2", pigo::write(q->p, (uint16_t)a))
        R("p4", pigo::write(q->p, (uint32_t)a))
        R("p8", pigo::write(q->p, (uint64_t)a))
        R("ps", std::string t(c, n); pigo::write(q->p, t))
        R("au8", ascii_t<uint8_t>(q->p, (uint8_t)a, o))
        R("ai8", ascii_t<int8_t>(q->p, (int8_t)a, o))
        R("au16", ascii_t<uint16_t>(q->p, (uint16_t)a, o))
        R("ai16", ascii_t<int16_t>(q->p, (int16_t)a, o))
        R("au32", ascii_t<uint32_t>(q->p, (uint32_t)a, o))
        R("ai32", ascii_t<int32_t>(q->p, (int32_t)a, o))
        R("au64", ascii_t<uint64_t>(q->p, (uint64_t)a, o))
        R("ai64", ascii_t<int64_t>(q->p, (int64_t)a, o))
        R("af", ascii_t<float>(q->p, (float)((double)(int64_t)a / 64), o))
        R("ad", ascii_t<double>(q->p, (double)(int64_t)a / 64, o))
        #undef R
        if (k == "gb" || k == "pb") { // a block, transferred in parallel
            bool get = k == "gb";
            size_t z = get ? (size_t)a : n;
            char* b = (char*)sim::obj_alloc(z);
            if (!get) for (size_t i = 0; i < z; ++i) b[i] = c[i];
            Status st = guarded([=]() { if (get) pigo::parallel_read(q->p, b, z); else pigo::parallel_write(q->p, b, z); });
            if (get) out.s.assign(b, z);
            sim::obj_free(b);
            return st;
        }
        Status st; st.code = ST_OTHER; st.what = "harness: unknown step " + k;
        return st;
    }
};

struct FH : FileH {
    Status part(uint64_t off, uint64_t len, std::unique_ptr<Part>& out) override {
        PH* h = new PH;
        std::unique_ptr<Part> o(h);
        pigo::File* q = p; PH::Raw* x = h->x;
        Status s = guarded([=]() {
            pigo::FileReader a = q->reader();
            pigo::FilePos f = q->fp();
            pigo::FileReader e = a + (size_t)(off + len);
            new (&x->r) pigo::FileReader(a + (size_t)off);
            x->r.smaller_end(e);
            x->base = f;
            x->p = f + off;
        });
        if (s.ok()) out = std::move(o);
        return s;
    }
    pigo::File* p;
    bool built = false;
    int cls = 0;
    FH() { p = (pigo::File*)sim::obj_alloc(sizeof(pigo::File)); }
    ~FH() override { close(); sim::obj_free(p); }
    Status close() override {
        Status s;
        if (built) { built = false; pigo::File* q = p; s = guarded([q]() { q->~File(); }); }
        return s;
    }
    Status move_to(std::unique_ptr<FileH>& out) override {
        FH* h = new FH;
        std::unique_ptr<FileH> o(h);
        pigo::File* a = p; pigo::File* b = h->p;
        Status s = guarded([=]() { new (b) pigo::File(std::move(*a)); });
        h->built = s.ok();
        if (s.ok()) out = std::move(o);
        return s;
    }
    Status move_assign(FileH& to) override {
        pigo::File* a = p; pigo::File* b = static_cast<FH&>(to).p;
        return guarded([=]() { *b = std::move(*a); });
    }
    uint64_t size() override { return p->size(); }
    uint64_t pos() override {
        pigo::File* q = p; uint64_t r = 0; uint64_t* rp = &r;
        guarded([=]() { uint64_t v = q->size() - q->reader().size(); *rp = v; });
        return r;
    }
    Status seek(uint64_t o) override { pigo::File* q = p; return guarded([=]() { q->seek((size_t)o); }); }
    Status read_t(int b, uint64_t& out) override {
        pigo::File* q = p; uint64_t v = 0; uint64_t* vp = &v;
        Status s = guarded([=]() {
            switch (b) {
            case 1: *vp = q->read<uint8_t>(); break;
            case 2: *vp = q->read<uint16_t>(); break;
            case 4: *vp = q->read<uint32_t>(); break;
            default: *vp = q->read<uint64_t>(); break;
            }
        });
        out = v;
        return s;
    }
    Status write_t(int b, uint64_t v) override {
        pigo::File* q = p;
        return guarded([=]() {
            switch (b) {
            case 1: q->write((uint8_t)v); break;
            case 2: q->write((uint16_t)v); break;
            case 4: q->write((uint32_t)v); break;
            default: q->write((uint64_t)v); break;
            }
        });
    }
    Status read_str(const std::string& str) override {
        pigo::File* q = p; Bytes bs(str); const char* c = bs.b; size_t n = bs.n;
        return guarded([=]() { std::string t(c, n); q->read(t); });
    }
    Status write_str(const std::string& str) override {
        pigo::File* q = p; Bytes bs(str); const char* c = bs.b; size_t n = bs.n;
        return guarded([=]() { std::string t(c, n); q->write(t); });
    }
    Status pread(uint64_t n, std::string& out, bool freefn) override {
        char* b = (char*)sim::obj_alloc(n);
        pigo::File* q = p;
        Status s = guarded([=]() {
            if (freefn) {
                pigo::FilePos fp = q->fp();
                pigo::FilePos f0 = fp;
                pigo::parallel_read(fp, b, n);
                if (fp != f0 + n) throw std::logic_error("parallel_read left the position at the wrong place");
            } else q->parallel_read(b, n);
        });
        out.assign(b, n);
        sim::obj_free(b);
        return s;
    }
    Status pwrite(const std::string& d, bool freefn) override {
        char* b = (char*)sim::obj_alloc(d.size());
        for (size_t i = 0; i < d.size(); ++i) b[i] = d[i];
        pigo::File* q = p; size_t n = d.size();
        Status s = guarded([=]() {
            if (freefn) {
                pigo::FilePos fp = q->fp();
                pigo::FilePos f0 = fp;
                pigo::parallel_write(fp, b, n);
                if (fp != f0 + n) throw std::logic_error("parallel_write left the position at the wrong place");
            } else q->parallel_write(b, n);
        });
        sim::obj_free(b);
        return s;
    }
    Status guess(int& ft) override {
        pigo::File* q = p; int v = 0; int* vp = &v;
        Status s = guarded([=]() { *vp = (int)q->guess_file_type(); });
        ft = v;
        return s;
    }
    Status find(char c, int type, std::vector<uint64_t>& out) override {
        pigo::File* q = p; std::vector<uint64_t>* o = &out; std::string bad; std::string* bp = &bad;
        Status s = guarded([=]() {
            pigo::FileReader r = q->reader();
            switch (type) {
            case 0: find_t<pigo::Tensor<uint64_t, uint64_t, uint64_t*, float, float*, false>>(r, c, o, bp); break;
            case 1: find_t<pigo::Tensor<uint32_t, uint32_t, std::vector<uint32_t>, float, std::vector<float>, false>>(r, c, o, bp); break;
            default: find_t<pigo::Tensor<int, uint64_t, std::shared_ptr<int>, float, float*, false>>(r, c, o, bp); break;
            }
        });
        if (!bad.empty()) { s.code = ST_OTHER; s.what = bad; }
        return s;
    }
};
} // namespace

Status open_file(const char* fn, bool write, uint64_t size, std::unique_ptr<FileH>& out, int cls) {
    FH* h = new FH;
    std::unique_ptr<FileH> o(h);
    pigo::File* q = h->p;
    Status s = guarded([=]() {
        std::string name(fn);
        if (cls == 1 && !write) new ((void*)q) pigo::ROFile(name);
        else if (cls == 1) new ((void*)q) pigo::WFile(name, (size_t)size);
        else new ((void*)q) pigo::File(name, write ? pigo::WRITE : pigo::READ, (size_t)size);
    });
    h->built = s.ok();
    if (s.ok()) out = std::move(o);
    return s;
}

Status in_parallel(int n, const std::function<void(int)>& fn) {
    const std::function<void(int)>* f = &fn;
    return guarded([=]() {
        #pragma omp parallel num_threads(n)
        {
            int me = omp_get_thread_num();
            sim::Exempt x;
            (*f)(me);
        }
    });
}
void set_threads(int n) { omp_set_num_threads(n); }
} // namespace ad

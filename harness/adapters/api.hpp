// Type-erased view of the PIGO API used by the harness. Everything declared
// here is implemented in the instrumented library (libtarget.so).
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ad {

enum Kind { K_COO, K_CSR, K_GRAPH, K_DIGRAPH, K_MATRIX, K_TENSOR };
// outcome of a call into PIGO
enum { ST_OK = 0, ST_ERROR = 1, ST_ALLOC = 2, ST_STD = 3, ST_OTHER = 4, ST_UNSUPPORTED = 9 };
struct Status {
    int code = ST_OK;
    std::string what;
    uint64_t aux = 0;                 // loading from a File: where its cursor was left
    bool ok() const { return code == ST_OK; }
};
struct Dump {
    std::string bad;                  // non-empty: the object is inconsistent with its own counts
    uint64_t n = 0, nrows = 0, ncols = 0, m = 0, order = 0;
    std::vector<uint64_t> x, y;       // COO: coordinates; CSR: x offsets, y endpoints; tensor: x coordinates
    std::vector<long double> w;
    uint64_t rows() const { return nrows > n ? nrows : n; } // of a CSR
};

struct VarInfo {
    std::string name;
    Kind kind = K_COO;
    int fam = 0;
    unsigned lbits = 32, obits = 32;
    bool lsigned = false, osigned = false;
    char stor = 'p';                  // p pointer, v vector, s shared_ptr
    bool wgt = false;
    char wt = 'f';                    // f float, d double, i int32, u uint32, l int64
    bool sym = false, ut = false, sl = false;
};

// vertices looked at by Obj::neighbours: every nbr_step-th
inline uint64_t nbr_step(uint64_t rows, uint64_t m) {
    uint64_t s = 1;
    while ((rows / s * m > 2000000 || rows / s > 8000) && s < rows) s *= 2;
    return s;
}

struct Obj {
    const VarInfo* vi = nullptr;
    virtual ~Obj() {}
    virtual Dump dump(int part) = 0;  // part 1: in-graph of a DiGraph, CSC of a Matrix
    virtual Status save(const char* fn) = 0;
    virtual Status write(const char* fn) = 0;
    virtual Status free_() = 0;
    virtual Status sort(int part) = 0;
    virtual Status transpose() = 0;
    virtual Status copy(std::unique_ptr<Obj>& out) = 0;    // copy construction
    virtual Status assign(Obj& from) = 0;                  // copy assignment, same variant
    virtual Status set_dim(char which, uint64_t v) = 0;
    virtual Status poke(int part, char which, uint64_t i, uint64_t v) = 0; // one element of an array, through its accessor
    virtual Status max_labels(std::vector<uint64_t>& out) = 0;
    // graph view: degree and neighbour list of every vertex, through the API
    virtual Status neighbours(int part, std::vector<uint64_t>& deg, std::vector<uint64_t>& nbr) = 0;
    virtual uint64_t save_size() = 0;
    virtual Status save_in_file(const char* fn, uint64_t lead, uint64_t tail) = 0; // CSR::save(File&) at an offset
    virtual void* raw() = 0;
};

typedef Status (*LoadFn)(const VarInfo*, const char* fn, int64_t mode, int ft, std::unique_ptr<Obj>& out);
// build from parts: n,nrows,ncols,m(,order) and contents
typedef Status (*MakeFn)(const VarInfo*, const Dump& d, std::unique_ptr<Obj>& out);
typedef Status (*ConvFn)(const VarInfo* to, Obj& from, std::unique_ptr<Obj>& out);

struct Variant {
    VarInfo vi;
    LoadFn load = nullptr;
    MakeFn make = nullptr;
};

std::vector<Variant*>& variants();
Variant* variant(const std::string& name);
std::map<std::pair<std::string, std::string>, ConvFn>& converters(); // constructor dst(src)
std::map<std::pair<std::string, std::string>, ConvFn>& dedups();     // src.new_csr_without_dups<dst>()

// ---- one thread's own reader and position in an open file
struct Part {
    struct Out { uint64_t u = 0; long double f = 0; std::string s; };
    virtual ~Part() {}
    virtual Status step(const std::string& k, uint64_t a, const std::string& s, Out& o) = 0;
    virtual uint64_t left() = 0;                    // bytes before the reader's end
    virtual uint64_t at() = 0;                      // offset of the position
};
// ---- File handles
struct FileH {
    virtual ~FileH() {}
    virtual Status part(uint64_t off, uint64_t len, std::unique_ptr<Part>& out) = 0;
    virtual Status close() = 0;                     // destroys the pigo::File
    virtual Status move_to(std::unique_ptr<FileH>& out) = 0;   // move construction; this stays, moved-from
    virtual Status move_assign(FileH& to) = 0;      // to = std::move(*this)
    virtual uint64_t size() = 0;
    virtual uint64_t pos() = 0;                     // cursor as an offset (size - remaining)
    virtual Status seek(uint64_t p) = 0;
    virtual Status read_t(int bytes, uint64_t& out) = 0;
    virtual Status write_t(int bytes, uint64_t v) = 0;
    virtual Status read_str(const std::string& s) = 0;
    virtual Status write_str(const std::string& s) = 0; // both: any bytes
    virtual Status pread(uint64_t n, std::string& out, bool freefn) = 0;
    virtual Status pwrite(const std::string& s, bool freefn) = 0;
    virtual Status guess(int& ft) = 0;
    virtual Status find(char c, int type, std::vector<uint64_t>& out) = 0;
};
Status open_file(const char* fn, bool write, uint64_t size, std::unique_ptr<FileH>& out, int cls);

// find_offsets over a part [off, off+len) of a file
Status in_parallel(int n, const std::function<void(int)>& fn);
void set_threads(int n);
} // namespace ad

// Reference model: what PIGO must compute, written without its code.
#pragma once
#include <set>
#include <string>
#include <vector>
#include "adapters/api.hpp"
#include "case.hpp"

namespace model {
using ad::Dump; using ad::VarInfo; using ad::Kind;

struct Ent { uint64_t x, y; long double w; };
typedef std::vector<Ent> Ents;

// ---- text
struct TextOpt { bool crlf = false, nl = true; };
bool is_comment_or_blank(const std::string& l);
// numbers of a line as tokens
std::vector<std::string> tokens(const std::string& l);
struct ParsedEL {
    Ents ents;           // file order
    bool mm = false;
    uint64_t hr = 0, hc = 0, hn = 0;
    bool odd = false; // not of the form this reader claims to read: other columns, labels that do not fit
};
std::vector<std::string> split_lines(const std::string& bytes);
ParsedEL parse_el(const std::string& bytes, bool weighted, char wt, bool mm, uint64_t max);
struct ParsedGraph { uint64_t n = 0, m = 0; std::vector<std::vector<uint64_t>> rows; bool zero = false, odd = false; };
ParsedGraph parse_graph(const std::string& bytes, uint64_t max);
struct ParsedTensor { uint64_t order = 0, m = 0; std::vector<uint64_t> c; std::vector<long double> w; bool odd = false; };
ParsedTensor parse_tensor(const std::string& bytes, bool weighted, char wt, uint64_t max);
// the largest label a type can hold
uint64_t max_label(unsigned bits, bool is_signed);

// entries kept under the reading options
Ents apply_flags(const Ents& in, bool sym, bool ut, bool sl);

// ---- numbers
long double narrow_w(char wt, long double v); // conversion to the weight type
uint64_t mask_bits(uint64_t v, unsigned bits);

// ---- binary layout
std::string enc_coo(const VarInfo& v, const Dump& d);
std::string enc_csr(const VarInfo& v, const Dump& d);
std::string enc_di(const VarInfo& v, const Dump& in, const Dump& out);
std::string enc_tensor(const VarInfo& v, const Dump& d);
int64_t sext(uint64_t v, unsigned bits);

// ---- ASCII
// exact: all weights have a finite six-digit decimal representation
std::string write_text(const VarInfo& v, const Dump& d, bool& exact);
std::string cmp_text(const VarInfo& v, const Dump& d, const std::string& got);

// ---- comparison; empty string: equal
struct Dims { bool known = false; uint64_t n = 0, nrows = 0, ncols = 0; };
std::string cmp_coo(const Dump& g, const Ents& e, const Dims& dims, bool wgt, double tol, bool ordered);
std::string cmp_csr(const Dump& g, uint64_t n, const Ents& e, const Dims& dims, bool wgt, double tol);
std::string cmp_same(const Dump& a, const Dump& b);
Ents coo_ents(const Dump& d);
Ents csr_ents(const Dump& d);   // row-major
Ents swapped(const Ents& e);
double text_tol(char wt);
std::string check_csr_shape(const Dump& g);
} // namespace model

// The library as a program built without OpenMP gets it (build.sh compiles this
// file without -fopenmp). It lives in a namespace of its own, so that none of
// its functions are merged with those of the other families; the types differ
// from theirs for the same reason.
#ifdef _OPENMP
#error "this family is compiled without OpenMP"
#endif
#define pigo pigo_serial
#include "impl.hpp"
namespace ad { namespace {
typedef Family<11, uint32_t, uint64_t, v32, v64, true, float, std::vector<float>> F11;
struct R { R() { F11::reg_coo<false,false,false>(); F11::reg_coo<true,false,false>(); F11::reg_coo<false,true,false>(); F11::reg_csr(); F11::reg_graphs(); F11::reg_coo_big<false,false,false>(); F11::reg_tensor(); } } r;
} }

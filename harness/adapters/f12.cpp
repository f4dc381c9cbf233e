// like f11.cpp: without OpenMP, and without weights
#ifdef _OPENMP
#error "this family is compiled without OpenMP"
#endif
#define pigo pigo_serial
#include "impl.hpp"
namespace ad { namespace {
typedef Family<12, int64_t, uint32_t, int64_t*, uint32_t*, false, float, float*> F12;
struct R { R() { F12::reg_coo<false,false,false>(); F12::reg_coo<true,true,false>(); F12::reg_csr(); F12::reg_graphs(); F12::reg_coo_big<false,false,false>(); F12::reg_coo_big<true,true,false>(); F12::reg_tensor(); } } r;
} }

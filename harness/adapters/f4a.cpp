#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F4::reg_coo<false,false,false>(); F4::reg_coo<true,false,false>(); F4::reg_coo<false,true,false>(); F4::reg_coo<false,false,true>(); F4::reg_csr(); } } r;
} }

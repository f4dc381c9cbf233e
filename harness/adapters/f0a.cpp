#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F0::reg_coo<false,false,false>(); F0::reg_coo<true,false,false>(); F0::reg_coo<false,true,false>(); F0::reg_coo<false,false,true>(); F0::reg_csr(); } } r;
} }

#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F6::reg_coo<false,false,false>(); F6::reg_coo<true,false,true>(); F6::reg_coo<false,true,false>(); F6::reg_coo<true,true,true>(); F6::reg_csr(); } } r;
} }

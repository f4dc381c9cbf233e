#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F5::reg_coo<false,false,false>(); F5::reg_coo<true,false,false>(); F5::reg_coo<false,false,true>(); F5::reg_csr(); } } r;
} }

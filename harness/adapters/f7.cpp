#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F7::reg_coo<false,false,false>(); F7::reg_coo<true,true,true>(); F7::reg_csr(); F7::reg_graphs(); F7::reg_coo_big<false,false,false>(); F7::reg_coo_big<true,true,true>(); F7::reg_tensor(); } } r;
} }

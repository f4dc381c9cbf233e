#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F4::reg_coo<true,true,false>(); F4::reg_coo<true,false,true>(); F4::reg_coo<false,true,true>(); F4::reg_coo<true,true,true>(); F4::reg_graphs(); F4::reg_coo_big<false,false,false>(); F4::reg_coo_big<true,true,false>(); F4::reg_coo_big<true,false,true>(); F4::reg_tensor(); } } r;
} }

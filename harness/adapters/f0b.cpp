#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F0::reg_coo<true,true,false>(); F0::reg_coo<true,false,true>(); F0::reg_coo<false,true,true>(); F0::reg_coo<true,true,true>(); F0::reg_graphs(); F0::reg_coo_big<false,false,false>(); F0::reg_coo_big<true,false,false>(); F0::reg_coo_big<true,true,false>(); F0::reg_coo_big<false,true,true>(); F0::reg_tensor(); } } r;
} }

#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F6::reg_graphs(); F6::reg_coo_big<false,false,false>(); F6::reg_coo_big<true,true,true>(); F6::reg_tensor(); } } r;
} }

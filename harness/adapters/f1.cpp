#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F1::reg_coo<false,false,false>(); F1::reg_coo<true,false,true>(); F1::reg_csr(); F1::reg_graphs(); F1::reg_coo_big<false,false,false>(); F1::reg_coo_big<true,false,true>(); F1::reg_tensor(); } } r;
} }

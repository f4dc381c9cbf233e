#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F2::reg_coo<false,false,false>(); F2::reg_coo<true,true,false>(); F2::reg_csr(); F2::reg_graphs(); F2::reg_coo_big<false,false,false>(); F2::reg_coo_big<true,true,false>(); F2::reg_tensor(); } } r;
} }

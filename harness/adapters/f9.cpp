#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F9::reg_coo<false,false,false>(); F9::reg_coo<true,false,false>(); F9::reg_csr(); F9::reg_graphs(); F9::reg_coo_big<false,false,false>(); F9::reg_tensor(); } } r;
} }

#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F3::reg_coo<false,false,false>(); F3::reg_coo<false,true,true>(); F3::reg_csr(); F3::reg_graphs(); F3::reg_coo_big<false,false,false>(); F3::reg_tensor(); } } r;
} }

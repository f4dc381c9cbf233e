#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F8::reg_coo<false,false,false>(); F8::reg_coo<true,false,false>(); F8::reg_csr(); F8::reg_tensor(); } } r;
} }

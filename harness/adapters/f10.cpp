#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F10::reg_coo<false,false,false>(); F10::reg_coo<false,true,false>(); F10::reg_csr(); F10::reg_graphs(); F10::reg_coo_big<false,false,false>(); F10::reg_tensor(); } } r;
} }

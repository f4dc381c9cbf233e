#include "impl.hpp"
namespace ad { namespace {
struct R { R() { F5::reg_graphs(); F5::reg_coo_big<false,false,false>(); F5::reg_coo_big<true,false,false>(); F5::reg_tensor(); } } r;
} }

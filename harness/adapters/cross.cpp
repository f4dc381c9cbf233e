#include "impl.hpp"
namespace ad { namespace {
struct R { R() { reg_cross<F0,F1>(); reg_cross<F0,F2>(); reg_cross<F1,F0>(); reg_cross<F2,F3>(); reg_cross<F8,F0>(); reg_cross<F4,F5>(); reg_cross<F6,F7>(); reg_cross<F9,F6>(); reg_cross<F10,F0>(); } } r;
} }

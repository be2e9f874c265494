#include "make.hpp"
MX_MAKE(make_k0_pol, K0, 1, 4, 0, 0, 1, false)

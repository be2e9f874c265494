#include "make.hpp"
MX_MAKE(make_k0_ord, K0, 2, 0, 0, 1, 0, false)
MX_CALL(K0)

#include "make.hpp"
MX_MAKE(make_k0_fin, K0, 0, 4, 1, 0, 0, false)

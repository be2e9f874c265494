#include "make.hpp"
MX_MAKE(make_k0_seq, K0, 3, 0, 0, 0, 0, false)

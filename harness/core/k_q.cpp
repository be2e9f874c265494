#include "make.hpp"
MX_KIND(K1, 1, 0, 0, 0, 0, false)
MX_KIND(K2, 1, 0, 0, 0, 0, false)
MX_KIND(K6, 1, 0, 0, 0, 0, false)
MX_KIND(K10, 1, 0, 0, 0, 0, false)

#include "make.hpp"
MX_KIND(K3, 1, 0, 0, 0, 0, false)
MX_KIND(K7, 1, 0, 0, 0, 0, false)
MX_KIND(K12, 1, 1, 0, 0, 0, false)

#include "make.hpp"
MX_KIND(K4, 1, 4, 0, 0, 0, true)

#include "make.hpp"
MX_KIND(K5, 1, 5, 1, 0, 0, false)

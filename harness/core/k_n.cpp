#include "make.hpp"
MX_KIND(K8, 0, 0, 0, 0, 0, false)
MX_KIND(K9, 0, 0, 0, 0, 0, false)
MX_KIND(K11, 0, 0, 0, 0, 0, false)

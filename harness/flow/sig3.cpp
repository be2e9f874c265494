#define FLOW_SIG 3
#include "sig.ipp"

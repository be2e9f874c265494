#define FLOW_SIG 2
#include "sig.ipp"

#define FLOW_SIG 1
#include "sig.ipp"

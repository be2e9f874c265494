#define FLOW_SIG 6
#include "sig.ipp"

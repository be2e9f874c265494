#define FLOW_SIG 7
#include "sig.ipp"

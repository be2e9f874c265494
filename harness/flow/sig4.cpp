#define FLOW_SIG 4
#include "sig.ipp"

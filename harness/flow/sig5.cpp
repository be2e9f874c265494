#define FLOW_SIG 5
#include "sig.ipp"

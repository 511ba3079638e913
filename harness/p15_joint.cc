#define VC_JOINT
#include "p15.cc"

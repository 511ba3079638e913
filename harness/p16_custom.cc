#define VC_PREFIX "custom."
#define VC_STATEDEF "multidef.h"
#define VC_NS vcdef
#include "p16.h"

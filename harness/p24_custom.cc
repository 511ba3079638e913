#define VC_PREFIX "custom."
#define VC_STATEDEF "multidef.h"
#define VC_NS vcdef
#define VC_MULT
#include "p24.h"

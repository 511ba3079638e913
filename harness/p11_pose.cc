#define VC_PREFIX "pose."
#define VC_RELATIVE
#include "p11.h"

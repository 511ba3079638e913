#define VC_PREFIX "spherical."
#define VC_STATEDEF <msf_updates/src/spherical_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "p16.h"

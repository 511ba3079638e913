#define VC_PREFIX "position."
#define VC_STATEDEF <msf_updates/src/position_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "p12_position.h"

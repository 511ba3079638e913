#define VC_PREFIX "pose_pressure."
#define VC_STATEDEF <msf_updates/src/pose_pressure_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "p16.h"

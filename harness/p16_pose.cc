#define VC_PREFIX "pose."
#define VC_STATEDEF <msf_updates/src/pose_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "p16.h"

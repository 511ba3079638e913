#define VC_PREFIX "position_pose."
#define VC_STATEDEF <msf_updates/src/position_pose_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "p04.h"

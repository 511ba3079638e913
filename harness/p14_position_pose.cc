#define VC_PREFIX "position_pose."
#define VC_STATEDEF <msf_updates/src/position_pose_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#define VC_CFGFILE <msf_updates/PositionPoseSensorConfig.h>
#define VC_CFG msf_updates::PositionPoseSensorConfig
#include "p14_position.h"

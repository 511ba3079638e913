#define VC_PREFIX "position."
#define VC_STATEDEF <msf_updates/src/position_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#define VC_CFGFILE <msf_updates/SinglePositionSensorConfig.h>
#define VC_CFG msf_updates::SinglePositionSensorConfig
#include "p14_position.h"

#ifndef VC_CFG_SinglePositionSensor
#define VC_CFG_SinglePositionSensor
#include <dynamic_reconfigure/server.h>
namespace msf_updates {
struct SinglePositionSensorConfig {
  bool core_init_filter;
  double position_noise_meas;
  double position_yaw_init;
  double position_delay;
  double position_noise_p_ip;
  bool position_fixed_p_ip;
  SinglePositionSensorConfig() : core_init_filter(false), position_noise_meas(0), position_yaw_init(0), position_delay(0), position_noise_p_ip(0), position_fixed_p_ip(false) {}
};
enum { SinglePositionSensor_INIT_FILTER = 0x00000001, SinglePositionSensor_MISC = 0x00000002 };
}
#endif

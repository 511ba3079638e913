#ifndef VC_CFG_SphericalPositionSensor
#define VC_CFG_SphericalPositionSensor
#include <dynamic_reconfigure/server.h>
namespace msf_updates {
struct SphericalPositionSensorConfig {
  bool core_init_filter;
  double angle_noise_meas;
  double distance_noise_meas;
  double yaw_init;
  double angle_delay;
  double distance_delay;
  double noise_p_ip;
  bool fixed_p_ip;
  SphericalPositionSensorConfig() : core_init_filter(false), angle_noise_meas(0), distance_noise_meas(0), yaw_init(0), angle_delay(0), distance_delay(0), noise_p_ip(0), fixed_p_ip(false) {}
};
enum { SphericalPositionSensor_INIT_FILTER = 0x00000001, SphericalPositionSensor_MISC = 0x00000002 };
}
#endif

#ifndef VC_CFG_PositionPoseSensor
#define VC_CFG_PositionPoseSensor
#include <dynamic_reconfigure/server.h>
namespace msf_updates {
struct PositionPoseSensorConfig {
  bool core_init_filter;
  bool core_set_height;
  double core_height;
  double pose_initial_scale;
  bool pose_fixed_scale;
  bool pose_fixed_p_ic;
  bool pose_fixed_q_ic;
  bool pose_fixed_p_wv;
  bool pose_fixed_q_wv;
  double pose_noise_scale;
  double pose_noise_p_wv;
  double pose_noise_q_wv;
  double pose_noise_p_ic;
  double pose_noise_q_ic;
  double pose_noise_meas_p;
  double pose_noise_meas_q;
  double pose_delay;
  double position_noise_meas;
  double position_yaw_init;
  double position_delay;
  double position_noise_p_ip;
  bool position_fixed_p_ip;
  PositionPoseSensorConfig() : core_init_filter(false), core_set_height(false), core_height(0), pose_initial_scale(0), pose_fixed_scale(false), pose_fixed_p_ic(false), pose_fixed_q_ic(false), pose_fixed_p_wv(false), pose_fixed_q_wv(false), pose_noise_scale(0), pose_noise_p_wv(0), pose_noise_q_wv(0), pose_noise_p_ic(0), pose_noise_q_ic(0), pose_noise_meas_p(0), pose_noise_meas_q(0), pose_delay(0), position_noise_meas(0), position_yaw_init(0), position_delay(0), position_noise_p_ip(0), position_fixed_p_ip(false) {}
};
enum { PositionPoseSensor_INIT_FILTER = 0x00000001, PositionPoseSensor_MISC = 0x00000002, PositionPoseSensor_SET_HEIGHT = 0x00000004 };
}
#endif

#define VC_PREFIX "position_pose."
#define VC_STATEDEF <msf_updates/src/position_pose_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#define VC_MANAGERFILE <msf_updates/src/position_pose_msf/position_pose_sensormanager.h>
#define VC_MANAGER msf_updates::PositionPoseSensorManager
#define VC_CFG msf_updates::PositionPoseSensorConfig
#define VC_POSITION
#define VC_EXTRA_CONFIG(m, c) ensure_eq("antenna noise", m.position_handler_->n_zp_, c.position_noise_meas); ensure_eq("antenna delay", m.position_handler_->delay_, c.position_delay);
#include "p25_pose.h"
#include "p25_position.h"
static void symbols(VC_CFG& c) { pose_symbols(c); c.position_noise_meas = var("position_noise_meas"); c.position_yaw_init = var("position_yaw_init"); c.position_delay = var("position_delay"); c.position_noise_p_ip = var("position_noise_p_ip"); }
static Real density(const VC_CFG& c, int i) { return i == SD::p_ip ? c.position_noise_p_ip : pose_density(c, i); }
VC_CASE(initialise) { start(); vcros::log().now = var("now"); RV3 pic = lever("pose_sensor/init/p_ic"), pip = lever("position_sensor/init/p_ip"); RQuat qic = calibration(); Manager m; symbols(m.config_); Pose z = pose_message("z"); RV3 pos = RV3::Zero(); if (choose("position reading")) pos = position_message("pos"); Real scale = pos_var("scale"); m.Init(scale); InitM* im = only(); if (!im) return; State s = started(m, *im);
  common(s, *im); ensure_eq("scale", s.Get<SD::L>()[0], scale); ensure_meq("p_ic", s.Get<SD::p_ic>(), pic); ensure_meq("p_ip", s.Get<SD::p_ip>(), pip); ensure_quat("q_ic", s.Get<SD::q_ic>(), qic); ensure_quat("attitude from the configured yaw", s.Get<SD::q>(), yaw(m.config_.position_yaw_init)); ensure_pose(s, z); ensure_position(s, pos); }
VC_CASE(fixed_position_states) { start(); Manager m; VC_CFG c; symbols(c); c.position_fixed_p_ip = choose("p_ip"); VC_CFG c0 = c; m.Config(c, 2); position_message("z"); ensure_eq("measurements", (int)added().size(), 1); if (added().size() != 1) return; boost::shared_ptr<msf_updates::position_measurement::PositionMeasurement> me = boost::dynamic_pointer_cast<msf_updates::position_measurement::PositionMeasurement>(added()[0]); ensure("a position", !!me); if (me) ensure_eq("fixed states", me->fixedstates_, c0.position_fixed_p_ip ? 1 << SD::p_ip : 0); }
VC_MAIN

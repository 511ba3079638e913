#define VC_PREFIX "pose_pressure."
#define VC_STATEDEF <msf_updates/src/pose_pressure_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#define VC_MANAGERFILE <msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h>
#define VC_MANAGER msf_pose_pressure_sensor::PosePressureSensorManager
#define VC_CFG msf_updates::PosePressureSensorConfig
#define VC_EXTRA_CONFIG(m, c) ensure_eq("pressure noise", m.pressure_handler_->n_zp_, c.press_noise_meas_p);
#include "p25_pose.h"
static void symbols(VC_CFG& c) { pose_symbols(c); c.press_noise_meas_p = var("press_noise_meas_p"); c.press_noise_bias_p = var("press_noise_bias_p"); }
static Real density(const VC_CFG& c, int i) { return i == SD::b_p ? c.press_noise_bias_p : pose_density(c, i); }
static Real pressure_message(const std::string& n) { Real z = var(n + "pressure"); boost::shared_ptr<geometry_msgs::PointStamped> s(new geometry_msgs::PointStamped); header(s->header, Real(100), 10); s->point.z = z; ensure("topic", vcros::send("pressure_height", s)); return z; }
VC_CASE(initialise) { start(); vcros::log().now = var("now"); RV3 pic = lever("pose_sensor/init/p_ic"); RQuat qic = calibration(); Manager m; symbols(m.config_); ensure_eq("no pressure reading yet", m.pressure_handler_->GetPressureMeasurement()[0], Real(0)); bool reading = choose("reading"); Pose z; z.p = RV3::Zero(); if (reading) z = pose_message("z"); Real pr = pressure_message("z"), scale = pos_var("scale"); m.Init(scale); InitM* im = only(); if (!im) return; State s = started(m, *im);
  common(s, *im); ensure_eq("scale", s.Get<SD::L>()[0], scale); ensure_meq("p_ic", s.Get<SD::p_ic>(), pic); ensure_quat("q_ic", s.Get<SD::q_ic>(), qic); if (!reading) z.q = qic; ensure_pose(s, z); ensure_eq("predicted pressure height", s.Get<SD::p>()[2] - s.Get<SD::b_p>()[0], pr); }
VC_MAIN

#define VC_PREFIX "position."
#define VC_STATEDEF <msf_updates/src/position_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#define VC_MANAGERFILE <msf_updates/src/position_msf/position_sensormanager.h>
#define VC_MANAGER msf_position_sensor::PositionSensorManager
#define VC_CFG msf_updates::SinglePositionSensorConfig
#define VC_POSITION
#include "p25.h"
#include "p25_position.h"
static void symbols(VC_CFG& c) { c.position_noise_meas = var("position_noise_meas"); c.position_yaw_init = var("position_yaw_init"); c.position_delay = var("position_delay"); c.position_noise_p_ip = var("position_noise_p_ip"); }
static Real density(const VC_CFG& c, int i) { return i == SD::p_ip ? c.position_noise_p_ip : Real(0); }
VC_CASE(initialise) { start(); vcros::log().now = var("now"); RV3 pip = lever("position_sensor/init/p_ip"); Manager m; symbols(m.config_); RV3 pos = RV3::Zero(); if (choose("position reading")) pos = position_message("pos"); m.Init(var("scale")); InitM* im = only(); if (!im) return; State s = started(m, *im);
  common(s, *im); ensure_meq("p_ip", s.Get<SD::p_ip>(), pip); ensure_quat("attitude from the configured yaw", s.Get<SD::q>(), yaw(m.config_.position_yaw_init)); ensure_position(s, pos); }
VC_CASE(fixed_states) { start(); Manager m; VC_CFG c; symbols(c); c.position_fixed_p_ip = choose("p_ip"); VC_CFG c0 = c; m.Config(c, 2); position_message("z"); ensure_eq("measurements", (int)added().size(), 1); if (added().size() != 1) return; boost::shared_ptr<msf_updates::position_measurement::PositionMeasurement> me = boost::dynamic_pointer_cast<msf_updates::position_measurement::PositionMeasurement>(added()[0]); ensure("a position", !!me); if (me) ensure_eq("fixed states", me->fixedstates_, c0.position_fixed_p_ip ? 1 << SD::p_ip : 0); }
VC_CASE(reconfigure) { start(); Manager m; VC_CFG c; symbols(c); c.core_init_filter = choose("init checked"); uint32_t level = choose_n("level", 4); VC_CFG c0 = c; m.Config(c, level); ensure_eq("noise", m.position_handler_->n_zp_, c0.position_noise_meas); ensure_eq("delay", m.position_handler_->delay_, c0.position_delay); ensure_eq("configuration kept", m.config_.position_noise_p_ip, c0.position_noise_p_ip); bool init = (level & 1) && c0.core_init_filter; ensure_eq("initialisations", (int)inits().size(), (int)init); ensure_eq("init unchecked", (bool)c.core_init_filter, init ? false : c0.core_init_filter); }
VC_MAIN

#define VC_PREFIX "spherical."
#define VC_STATEDEF <msf_updates/src/spherical_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#define VC_MANAGERFILE <msf_updates/src/spherical_msf/spherical_sensormanager.h>
#define VC_MANAGER msf_spherical_position::SensorManager
#define VC_CFG msf_updates::SphericalPositionSensorConfig
#include "p25.h"
static void symbols(VC_CFG& c) { c.angle_noise_meas = var("angle_noise_meas"); c.distance_noise_meas = var("distance_noise_meas"); c.yaw_init = var("yaw_init"); c.angle_delay = var("angle_delay"); c.distance_delay = var("distance_delay"); c.noise_p_ip = var("noise_p_ip"); }
static Real density(const VC_CFG& c, int i) { return i == SD::p_ip ? c.noise_p_ip : Real(0); }
static RV3 message(const char* topic, const std::string& n) { RV3 p = vec3(n); boost::shared_ptr<geometry_msgs::PointStamped> s(new geometry_msgs::PointStamped); header(s->header, Real(100), 5); put3(s->point, p); ensure("topic", vcros::send(topic, s)); return p; }
VC_CASE(initialise) { start(); vcros::log().now = var("now"); RV3 pip = lever("position_sensor/init/p_ip"); Manager m; symbols(m.config_); RV3 ang = message("angle_input", "angle"), dist = message("distance_input", "distance"); m.Init(var("scale")); InitM* im = only(); if (!im) return; State s = started(m, *im);
  common(s, *im); ensure_meq("p_ip", s.Get<SD::p_ip>(), pip); ensure_quat("attitude from the configured yaw", s.Get<SD::q>(), yaw(m.config_.yaw_init)); RV3 a = turn(s.Get<SD::q>(), pip), z; Real d = dist[2], az = ang[0], in = ang[1]; z[0] = d * sin(in) * cos(az); z[1] = d * sin(in) * sin(az); z[2] = d * cos(in); for (int i = 0; i < 3; ++i) ensure_eq("the reflector is where it was seen " + std::to_string(i), s.Get<SD::p>()[i] + a[i], z[i]); }
VC_CASE(no_reading) { start(); Manager m; symbols(m.config_); RV3 pip = lever("position_sensor/init/p_ip"); m.Init(Real(1)); InitM* im = only(); if (!im) return; State s = started(m, *im); RV3 a = turn(s.Get<SD::q>(), pip); for (int i = 0; i < 3; ++i) ensure_eq("at the origin", s.Get<SD::p>()[i] + a[i], Real(0)); }
template <class T> static void fixed_states(const char* topic) { start(); Manager m; VC_CFG c; symbols(c); c.fixed_p_ip = choose("p_ip"); VC_CFG c0 = c; m.Config(c, 2); message(topic, "z"); ensure_eq("measurements", (int)added().size(), 1); if (added().size() != 1) return; boost::shared_ptr<T> me = boost::dynamic_pointer_cast<T>(added()[0]); ensure("of this kind", !!me); if (me) ensure_eq("fixed states", me->fixedstates_, c0.fixed_p_ip ? 1 << SD::p_ip : 0); }
VC_CASE(fixed_angle_states) { fixed_states<msf_spherical_position::AngleMeasurement>("angle_input"); }
VC_CASE(fixed_distance_states) { fixed_states<msf_spherical_position::DistanceMeasurement>("distance_input"); }
VC_CASE(reconfigure) { start(); Manager m; VC_CFG c; symbols(c); c.core_init_filter = choose("init checked"); uint32_t level = choose_n("level", 4); VC_CFG c0 = c; m.Config(c, level); ensure_eq("angle noise", m.angle_handler_->n_za_, c0.angle_noise_meas); ensure_eq("angle delay", m.angle_handler_->delay_, c0.angle_delay); ensure_eq("distance noise", m.distance_handler_->n_zd_, c0.distance_noise_meas); ensure_eq("distance delay", m.distance_handler_->delay_, c0.distance_delay); ensure_eq("configuration kept", m.config_.noise_p_ip, c0.noise_p_ip); bool init = (level & 1) && c0.core_init_filter; ensure_eq("initialisations", (int)inits().size(), (int)init); ensure_eq("init unchecked", (bool)c.core_init_filter, init ? false : c0.core_init_filter); }
VC_MAIN

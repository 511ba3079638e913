// Managers with a pose sensor (pose, pose and pressure, pose and position)
#define VC_POSE
#define VC_SCALE
#include "p25.h"
static void pose_symbols(VC_CFG& c) { c.core_height = pos_var("core_height"); c.pose_initial_scale = pos_var("initial_scale"); c.pose_noise_scale = var("noise_scale"); c.pose_noise_p_wv = var("noise_p_wv"); c.pose_noise_q_wv = var("noise_q_wv"); c.pose_noise_p_ic = var("noise_p_ic"); c.pose_noise_q_ic = var("noise_q_ic"); c.pose_noise_meas_p = var("noise_meas_p"); c.pose_noise_meas_q = var("noise_meas_q"); c.pose_delay = var("pose_delay"); }
static Real pose_density(const VC_CFG& c, int i) { return i == SD::L ? c.pose_noise_scale : i == SD::q_wv ? c.pose_noise_q_wv : i == SD::p_wv ? c.pose_noise_p_wv : i == SD::q_ic ? c.pose_noise_q_ic : i == SD::p_ic ? c.pose_noise_p_ic : Real(0); }
struct Pose { RV3 p; RQuat q; };
// a reading exactly at the origin counts as none
static void away(const Pose& z) { assume(!(z.p.norm() == Real(0))); }
static Pose pose_message(const std::string& n) { Pose r; r.p = vec3(n + "p"); r.q = uquat(n + "q"); boost::shared_ptr<geometry_msgs::PoseStamped> s(new geometry_msgs::PoseStamped); header(s->header, Real(100), 7); put3(s->pose.position, r.p); put4(s->pose.orientation, r.q); ensure("topic", vcros::send("pose_input", s)); return r; }
#ifndef VC_EXTRA_CONFIG
#define VC_EXTRA_CONFIG(m, c)
#endif
static void handlers_configured(Manager& m, const VC_CFG& c) { ensure_eq("position noise", m.pose_handler_->n_zp_, c.pose_noise_meas_p); ensure_eq("attitude noise", m.pose_handler_->n_zq_, c.pose_noise_meas_q); ensure_eq("delay", m.pose_handler_->delay_, c.pose_delay); VC_EXTRA_CONFIG(m, c) }
static Real scale_of(InitM& m) { return m.InitState.Get<SD::L>()[0]; }
VC_CASE(reconfigure) { start(); Manager m; bool reading = choose("reading"); Pose z; if (reading) { z = pose_message("z"); away(z); } VC_CFG c; symbols(c); c.core_init_filter = choose("init checked"); c.core_set_height = choose("height checked"); uint32_t level = choose_n("level", 8); VC_CFG c0 = c; m.Config(c, level);
  handlers_configured(m, c0); ensure_eq("configuration kept", m.config_.pose_noise_scale, c0.pose_noise_scale);
  bool init = (level & 1) && c0.core_init_filter, height = (level & 4) && c0.core_set_height, set = height && reading; ensure_eq("initialisations", (int)inits().size(), (int)init + (int)set); if ((int)inits().size() != (int)init + (int)set) return;
  if (init) ensure_eq("configured scale", scale_of(*inits()[0]), c0.pose_initial_scale); if (set) ensure_eq("scale from the height", scale_of(*inits().back()) * c0.core_height, z.p[2]);
  ensure_eq("init unchecked", (bool)c.core_init_filter, init ? false : c0.core_init_filter); ensure_eq("height unchecked", (bool)c.core_set_height, set ? false : c0.core_set_height); }
static void check_fixed(Manager& m, VC_CFG& f) { f.pose_fixed_scale = choose("L"); f.pose_fixed_p_ic = choose("p_ic"); f.pose_fixed_q_ic = choose("q_ic"); f.pose_fixed_p_wv = choose("p_wv"); f.pose_fixed_q_wv = choose("q_wv"); int fixed = (f.pose_fixed_scale ? 1 << SD::L : 0) | (f.pose_fixed_p_ic ? 1 << SD::p_ic : 0) | (f.pose_fixed_q_ic ? 1 << SD::q_ic : 0) | (f.pose_fixed_p_wv ? 1 << SD::p_wv : 0) | (f.pose_fixed_q_wv ? 1 << SD::q_wv : 0); VC_CFG c = f; m.Config(c, 2); pose_message("z"); ensure_eq("measurements", (int)added().size(), 1); if (added().size() != 1) return;
  boost::shared_ptr<msf_updates::pose_measurement::PoseMeasurement<> > me = boost::dynamic_pointer_cast<msf_updates::pose_measurement::PoseMeasurement<> >(added()[0]); ensure("a pose", !!me); if (me) ensure_eq("fixed states", me->fixedstates_, fixed); }
VC_CASE(fixed_pose_states) { start(); Manager m; VC_CFG c; symbols(c); check_fixed(m, c); }
// the predicted pose is the reading
static void ensure_pose(const State& s, const Pose& z) { RQuat qwv = s.Get<SD::q_wv>(), q = s.Get<SD::q>(), qic = s.Get<SD::q_ic>(); RV3 pic = s.Get<SD::p_ic>(), p = s.Get<SD::p>(), pwv = s.Get<SD::p_wv>(), a = turn(q, pic), b; for (int i = 0; i < 3; ++i) b[i] = p[i] + a[i] - pwv[i]; b = turn(qwv, b); for (int i = 0; i < 3; ++i) ensure_eq("predicted position " + std::to_string(i), b[i] * s.Get<SD::L>()[0], z.p[i]); ensure_quat("predicted attitude", rqmul(rqmul(qwv, q), qic), z.q); }
static RQuat calibration() { RQuat r; r.w() = Real(1); r.x() = r.y() = r.z() = Real(0); if (!choose("q_ic")) return r; static const char* a[4] = {"w", "x", "y", "z"}; r = uquat("q_ic"); Real k(1), v[4] = {r.w(), r.x(), r.y(), r.z()}; if (choose("unnormalised")) k = Real(2); for (int i = 0; i < 4; ++i) vcros::log().dparams[std::string("pose_sensor/init/q_ic/") + a[i]] = v[i] * k; return r; }

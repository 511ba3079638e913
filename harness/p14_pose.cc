#define VC_PREFIX "pose."
#include "p14.h"
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include "distorter_contract.h"
#include <msf_updates/pose_sensor_handler/pose_measurement.h>
#include <msf_updates/pose_sensor_handler/pose_sensorhandler.h>
#include <msf_updates/SinglePoseSensorConfig.h>
using namespace env;
typedef msf_updates::pose_measurement::PoseMeasurement<> Pose; typedef HMgr<msf_updates::SinglePoseSensorConfig> PM_; typedef msf_pose_sensor::PoseSensorHandler<Pose, PM_> Handler;
struct Conf { bool absolute, world, fixedcov, gate; Real min_dt, thr; };
static Conf configure(bool world_any, bool rest) { params_clear(); Conf c; int which = rest ? choose_n("which", 3) : -1; bool r0 = which == 0, r1 = which == 1; rest = which == 2; c.absolute = r0 ? bparam("pose_absolute_measurements", true) : true; c.world = world_any ? bparam("pose_measurement_world_sensor", true) : true; if (which > 0) vcros::log().bparams["pose_use_fixed_covariance"] = true; c.fixedcov = which > 0 ? true : bparam("pose_use_fixed_covariance", false); c.gate = r1 ? bparam("enable_mah_outlier_rejection", false) : false; c.min_dt = rest ? dparam("pose_measurement_minimum_dt", Real(0.05)) : Real(0.05); c.thr = r1 ? dparam("mah_threshold", Real(msf_core::kDefaultMahThreshold_)) : Real(msf_core::kDefaultMahThreshold_); return c; }
struct Msg { RV3 p; RQuat q; Real cov[6][6]; Real t; int seq; };
static Msg message(const std::string& n) { Msg m; m.p = vec3(n + "p"); m.q = uquat(n + "q"); for (int i = 0; i < 6; ++i) for (int j = 0; j <= i; ++j) { std::string k = n + "c" + std::to_string(i) + std::to_string(j); m.cov[i][j] = m.cov[j][i] = i == j ? pos_var(k) : var(k); } m.t = var(n + "t"); m.seq = n == "" && choose("hundredth") ? 200 : 7; return m; }
static bool send(const Msg& m, int kind) { if (kind == 0) { boost::shared_ptr<geometry_msgs::PoseWithCovarianceStamped> s(new geometry_msgs::PoseWithCovarianceStamped); header(s->header, m.t, m.seq); put3(s->pose.pose.position, m.p); put4(s->pose.pose.orientation, m.q); for (int i = 0; i < 36; ++i) s->pose.covariance[i] = m.cov[i / 6][i % 6]; return vcros::send("pose_with_covariance_input", s); }
  if (kind == 1) { boost::shared_ptr<nav_msgs::Odometry> s(new nav_msgs::Odometry); header(s->header, m.t, m.seq); put3(s->pose.pose.position, m.p); put4(s->pose.pose.orientation, m.q); for (int i = 0; i < 36; ++i) s->pose.covariance[i] = m.cov[i / 6][i % 6]; return vcros::send("odometry_input", s); }
  if (kind == 2) { boost::shared_ptr<geometry_msgs::TransformStamped> s(new geometry_msgs::TransformStamped); header(s->header, m.t, m.seq); put3(s->transform.translation, m.p); put4(s->transform.rotation, m.q); return vcros::send("transform_input", s); }
  boost::shared_ptr<geometry_msgs::PoseStamped> s(new geometry_msgs::PoseStamped); header(s->header, m.t, m.seq); put3(s->pose.position, m.p); put4(s->pose.orientation, m.q); return vcros::send("pose_input", s); }
// the value and noise of one reading: p, q measured (or its inverse), fixed or received covariance
static void check_value(const Pose& me, const Conf& c, RV3 p, RQuat q, const Msg& m, const Real& np, const Real& nq) { RM3 C = rrot(q); if (!c.world) { RV3 o; for (int i = 0; i < 3; ++i) o[i] = -(C(0, i) * p[0] + C(1, i) * p[1] + C(2, i) * p[2]); p = o; q = rqconj(q); }
  ensure_meq("position", me.z_p_, p); ensure_quat("attitude", me.z_q_, q);
  for (int i = 0; i < 7; ++i) for (int j = 0; j < 7; ++j) { Real e(0); if (i == 6 && j == 6) e = Real(1e-6); else if (i == 6 || j == 6 || i / 3 != j / 3) e = Real(0); else if (c.fixedcov) e = i != j ? Real(0) : i < 3 ? np * np : nq * nq; else if (c.world) e = m.cov[i][j]; else { int b = i / 3 * 3; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) e = e + C(k, i - b) * m.cov[b + k][b + l] * C(l, j - b); }
    ensure_eq("noise [" + std::to_string(i) + "," + std::to_string(j) + "]", me.R_(i, j), e); } }
VC_CASE(message_becomes_measurement) { generic_equalities() = true; Conf c = configure(true, false); PM_ m; Handler h(m, "t", "pose_sensor", false); int id = 2; h.SetSensorID(id); Real np = pos_var("np"), nq = pos_var("nq"), delay = var("delay"); h.SetNoises(np, nq); h.SetDelay(delay); ensure_eq("no previous reading", h.timestamp_previous_pose_, Real(0)); Real prev = h.timestamp_previous_pose_ = var("previous");
  int kind = choose_n("kind", 4); Msg s = message(""); ensure("topic", send(s, kind)); bool no_noise = kind >= 2 && !c.fixedcov; bool drop = no_noise || s.t - prev <= c.min_dt - Real(0.001);
  ensure_eq("measurements", (int)added().size(), drop ? 0 : 1); ensure_eq("spacing counted from", h.timestamp_previous_pose_, drop ? prev : s.t); if (!no_noise) ensure("first message noticed", h.ReceivedFirstMeasurement()); if (drop) { cover("dropped"); return; } cover("accepted"); if (added().size() != 1) return;
  boost::shared_ptr<Pose> me = boost::dynamic_pointer_cast<Pose>(added()[0]); ensure("a pose", !!me); if (!me) return; ensure_eq("time", me->time, s.t - delay); ensure_eq("sensor", me->sensorID_, id); check_value(*me, c, s.p, s.q, s, np, nq); ensure_meq("position kept for the initialisation", h.GetPositionMeasurement(), me->z_p_); ensure_quat("attitude kept for the initialisation", h.GetAttitudeMeasurement(), me->z_q_); ensure_eq("not distorted", (int)distortions().size(), 0); }
VC_CASE(configuration) { bool states = choose("states"); Conf c = configure(false, !states); PM_ m; auto& f = m.cfg; if (states) { f.pose_fixed_scale = choose("L"); f.pose_fixed_p_ic = choose("p_ic"); f.pose_fixed_q_ic = choose("q_ic"); f.pose_fixed_p_wv = choose("p_wv"); f.pose_fixed_q_wv = choose("q_wv"); } Handler h(m, "t", "pose_sensor", false); Msg s = message("s"); assume(s.t > c.min_dt); send(s, 0); ensure_eq("measurements", (int)added().size(), 1); if (added().size() != 1) return; boost::shared_ptr<Pose> me = boost::dynamic_pointer_cast<Pose>(added()[0]);
  int fixed = (f.pose_fixed_scale ? 1 << SD::L : 0) | (f.pose_fixed_p_ic ? 1 << SD::p_ic : 0) | (f.pose_fixed_q_ic ? 1 << SD::q_ic : 0) | (f.pose_fixed_p_wv ? 1 << SD::p_wv : 0) | (f.pose_fixed_q_wv ? 1 << SD::q_wv : 0); ensure_eq("fixed states", me->fixedstates_, fixed); ensure_eq("absolute", (bool)me->isabsolute_, c.absolute); ensure_eq("gate", (bool)me->enable_mah_outlier_rejection_, c.gate); ensure_eq("threshold", me->mah_threshold_, c.thr); ensure_eq("default noise", me->n_zp_, Real(1e-6)); ensure_eq("default attitude noise", me->n_zq_, Real(1e-6)); ensure_eq("no delay by default", me->time, s.t); }
// distortion: first message as it is, later ones by the time elapsed since the previous accepted one of the same sensor
VC_CASE(distortion) { params_clear(); Conf c; c.world = bparam("pose_measurement_world_sensor", true); c.fixedcov = vcros::log().bparams["pose_use_fixed_covariance"] = true; PM_ m; Real dp[6]; static const char* names[6] = {"distortpos_mean", "distortpos_stddev", "distortatt_mean", "distortatt_stddev", "distortscale_mean", "distortscale_stddev"}; for (int i = 0; i < 6; ++i) { dp[i] = var(names[i]); vcros::log().dparams[names[i]] = dp[i]; } distorters().clear(); distortions().clear();
  Handler h(m, "t", "pose_sensor", true); ensure_eq("one distorter", (int)distorters().size(), 1); for (int i = 0; i < 3; ++i) { const DistorterMade& d = distorters()[0]; ensure_eq("mean position drift", d.mp[i], dp[0]); ensure_eq("position deviation", d.sp[i], dp[1]); ensure_eq("mean attitude drift", d.ma[i], dp[2]); ensure_eq("attitude deviation", d.sa[i], dp[3]); ensure_eq("mean scale drift", d.ms, dp[4]); ensure_eq("scale deviation", d.ss, dp[5]); }
  auto deliver = vcros::log().deliver; Handler other(m, "o", "pose_sensor", true); auto odeliver = vcros::log().deliver; Real np = pos_var("np"), nq = pos_var("nq"); h.SetNoises(np, nq);
  Real t0(-1); for (int k = 0; k < 2; ++k) { added().clear(); if (choose("other sensor in between")) { vcros::log().deliver = odeliver; Msg o = message("o" + std::to_string(k)); o.t = Real(100 + 7 * k); send(o, 0); added().clear(); } vcros::log().deliver = deliver; distortions().clear(); Msg s = message("m" + std::to_string(k)); assume(s.t > (k ? t0 + Real(1) : Real(1))); send(s, 0); ensure_eq("measurements", (int)added().size(), 1); if (added().size() != 1) return; boost::shared_ptr<Pose> me = boost::dynamic_pointer_cast<Pose>(added()[0]);
    if (k == 0) { ensure_eq("first one not distorted", (int)distortions().size(), 0); check_value(*me, c, s.p, s.q, s, np, nq); } else { ensure_eq("distorted once", (int)distortions().size(), 1); if (distortions().size() != 1) return; const Distortion& d = distortions()[0]; ensure("by its own distorter", d.by == h.distorter_.get()); ensure_eq("for the time since the previous one", d.dt, s.t - t0); ensure_meq("the measured position", d.p0, s.p); ensure_quat("the measured attitude", d.q0, s.q); check_value(*me, c, d.p, d.q, s, np, nq); } t0 = s.t; } }
VC_MAIN

// The ROS callbacks: what reaches the core (whose entry points stand under the contracts of p10.cc)
#define VC_PREFIX "ros_"
#include "core_env.h"
#include <msf_core/msf_sensormanagerROS.h>
#include <msf_core/msf_IMUHandler_ROS.h>
using namespace env;
struct Call { bool ext, propagated; RV3 a, w, p, v; RQuat q; Real t; size_t seq; };
static std::vector<Call> calls;
namespace msf_core {
template <> void MSF_Core<State>::ProcessIMU(const Vector3& a, const Vector3& w, const double& t, size_t seq) { Call c; c.ext = c.propagated = false; c.a = a; c.w = w; c.t = t; c.seq = seq; calls.push_back(c); }
template <> void MSF_Core<State>::ProcessExternallyPropagatedState(const Vector3& a, const Vector3& w, const Vector3& p, const Vector3& v, const Quaternion& q, bool done, const double& t, size_t seq) { Call c; c.ext = true; c.propagated = done; c.a = a; c.w = w; c.p = p; c.v = v; c.q = q; c.t = t; c.seq = seq; calls.push_back(c); }
}
struct RosMgr : msf_core::MSF_SensorManagerROS<State> {
  void Init(double) const {} void InitState(State&) const {} void CalculateQAuxiliaryStates(State&, double) const {} void SetStateCovariance(Eigen::Matrix<double, NE, NE>&) const {}
  void AugmentCorrectionVector(Err&) const {} void SanityCheckCorrection(State&, const State&, Err&) const {} void ResetState(State&) const {} };
template <class V> static RV3 xyz(V& o, const std::string& n) { RV3 v = vec3(n); o.x = v[0]; o.y = v[1]; o.z = v[2]; return v; }
VC_CASE(imu) { RosMgr m; msf_core::IMUHandler_ROS<State> h(m, "msf_core", "imu"); calls.clear();
  for (int k = 0; k < 2; ++k) { boost::shared_ptr<sensor_msgs::Imu> s(new sensor_msgs::Imu); std::string n = std::to_string(k); RV3 a = xyz(s->linear_acceleration, "a" + n), w = xyz(s->angular_velocity, "w" + n); Real t = var("t" + n); s->header.stamp = ros::Time(t); s->header.seq = k ? choose_n("seq", 3) : 1; h.IMUCallback(s);
    ensure_eq("one reading per message", (int)calls.size(), k + 1); if ((int)calls.size() != k + 1) return; const Call& c = calls[k]; ensure("as a reading", !c.ext); ensure_meq("acceleration", c.a, a); ensure_meq("rate", c.w, w); ensure_eq("time", c.t, t); ensure_eq("number", (size_t)c.seq, (size_t)s->header.seq); } }
VC_CASE(state) { norms_nonzero() = true; RosMgr m; msf_core::IMUHandler_ROS<State> h(m, "msf_core", "imu"); calls.clear(); bool playback = choose("playback"); m.data_playback_ = playback;
  boost::shared_ptr<sensor_fusion_comm::ExtEkf> s(new sensor_fusion_comm::ExtEkf); RV3 a = xyz(s->linear_acceleration, "a"), w = xyz(s->angular_velocity, "w"); Real t = var("t"); s->header.stamp = ros::Time(t); s->header.seq = 5; s->flag = choose_n("flag", 4); int bad = choose_n("not numeric", 11) - 1; Real x[16];
  s->state.resize(16); for (int i = 0; i < 16; ++i) { x[i] = var("state" + std::to_string(i)); if (i == bad) x[i] = nan_sym(); s->state[i] = x[i]; x[i] = Real(s->state[i]); }
  h.StateCallback(s); ensure_eq("one prediction per message", (int)calls.size(), 1); if (calls.size() != 1) return; const Call& c = calls[0]; ensure("as an external state", c.ext); ensure_meq("acceleration", c.a, a); ensure_meq("rate", c.w, w); ensure_eq("time", c.t, t);
  bool use = s->flag == sensor_fusion_comm::ExtEkf::current_state && !playback && bad < 0; ensure_eq("taken over exactly when current, numeric and not a playback", c.propagated, use);
  if (use) { cover("taken over"); for (int i = 0; i < 3; ++i) { ensure_eq("position", c.p[i], Real(x[i])); ensure_eq("velocity", c.v[i], Real(x[3 + i])); } Real n2 = x[6] * x[6] + x[7] * x[7] + x[8] * x[8] + x[9] * x[9];
    Real q[4] = {c.q.w(), c.q.x(), c.q.y(), c.q.z()}; ensure_eq("unit attitude", q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], Real(1)); Real d = Real(0); for (int i = 0; i < 4; ++i) { d += q[i] * x[6 + i]; for (int j = 0; j < i; ++j) ensure_eq("attitude direction", q[i] * x[6 + j], q[j] * x[6 + i]); } (void)n2; ob_pos("attitude sense", d, true); } else cover("integrated here");
  for (int i = 0; i < 16; ++i) if (i != bad) ensure_eq("kept for the correction message", Real(m.hl_state_buf_.state[i]), x[i]); }
VC_MAIN

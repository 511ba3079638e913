// What is published: messages made from a state, and the publishing functions of the ROS sensor manager.
#include "core_env.h"
#include <msf_core/msf_sensormanagerROS.h>
#include "dual.h"
using namespace env;
struct RosMgr : msf_core::MSF_SensorManagerROS<State> {
  void Init(double) const {} void InitState(State&) const {} void CalculateQAuxiliaryStates(State&, double) const {} void SetStateCovariance(Eigen::Matrix<double, NE, NE>&) const {}
  void AugmentCorrectionVector(Err&) const {} void SanityCheckCorrection(State&, const State&, Err&) const {} void ResetState(State&) const {} };
static SP arbitrary(const std::string& n = "s") { SP s = new_state(n, var("time")); RPM P; fill_sym(P, n + "P"); s->P = P; return s; }
static int at(int i) { return starts()[i]; }
// covariance the messages prescribe: position and attitude; linear and angular velocity in the IMU frame
static RMX pose_cov(const State& s) { RMX r(6, 6); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) r(i, j) = s.P(i < 3 ? at(SD::p) + i : at(SD::q) + i - 3, j < 3 ? at(SD::p) + j : at(SD::q) + j - 3); return r; }
static Vec body_velocity(const State& s, int dir = -1) { return rot(conj(dquat(s.Get<SD::q>(), at(SD::q), dir)), dvec(s.Get<SD::v>(), at(SD::v), dir)); }
static RMX twist_cov(const State& s) { int col[9]; for (int i = 0; i < 3; ++i) { col[i] = at(SD::v) + i; col[3 + i] = at(SD::q) + i; col[6 + i] = at(SD::b_w) + i; } Real J[6][9]; for (int c = 0; c < 9; ++c) { Vec y = body_velocity(s, col[c]); for (int i = 0; i < 3; ++i) { J[i][c] = y[i].d; J[3 + i][c] = Real(c == 6 + i ? -1 : 0); } }
  RMX r(6, 6); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { Real x = i == j && i >= 3 ? s.noise_gyr[i - 3] * s.noise_gyr[i - 3] : Real(0); for (int k = 0; k < 9; ++k) for (int l = 0; l < 9; ++l) x += J[i][k] * s.P(col[k], col[l]) * J[j][l]; r(i, j) = x; } return r; }
template <class A> static void ensure_cov(const std::string& n, const A& a, const RMX& m) { for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) ensure_eq(n + "[" + std::to_string(i) + "," + std::to_string(j) + "]", a[6 * i + j], m(i, j)); }
template <class V> static void ensure_xyz(const std::string& n, const V& v, const RV3& w) { ensure_eq(n + " x", v.x, w[0]); ensure_eq(n + " y", v.y, w[1]); ensure_eq(n + " z", v.z, w[2]); }
template <class Q> static void ensure_quat(const std::string& n, const Q& q, const RQuat& w) { ensure_eq(n + " w", q.w, w.w()); ensure_eq(n + " x", q.x, w.x()); ensure_eq(n + " y", q.y, w.y()); ensure_eq(n + " z", q.z, w.z()); }
static void check_pose(const geometry_msgs::PoseWithCovarianceStamped& m, const State& s) { ensure_xyz("pose position", m.pose.pose.position, s.Get<SD::p>()); ensure_quat("pose orientation", m.pose.pose.orientation, s.Get<SD::q>()); ensure_cov("pose covariance", m.pose.covariance, pose_cov(s)); }
static void check_odometry(const nav_msgs::Odometry& m, const State& s) { ensure_xyz("odometry position", m.pose.pose.position, s.Get<SD::p>()); ensure_quat("odometry orientation", m.pose.pose.orientation, s.Get<SD::q>()); ensure_cov("odometry pose covariance", m.pose.covariance, pose_cov(s));
  Vec v = body_velocity(s); RV3 b; for (int i = 0; i < 3; ++i) b[i] = v[i].v; ensure_xyz("linear velocity in the body frame", m.twist.twist.linear, b); ensure_xyz("angular velocity", m.twist.twist.angular, RV3(s.w_m - s.Get<SD::b_w>())); ensure_cov("twist covariance", m.twist.covariance, twist_cov(s)); }
static void check_ext(const sensor_fusion_comm::ExtState& m, const State& s) { ensure_xyz("state message position", m.pose.position, s.Get<SD::p>()); ensure_quat("state message orientation", m.pose.orientation, s.Get<SD::q>()); ensure_xyz("state message velocity", m.velocity, s.Get<SD::v>()); }
struct Flat { const State& s; std::vector<Real>& v; bool core_only; template <int I> void operator()() { int k = (int)Var<I>::V::statetype_; bool core = k == (int)msf_core::CoreStateWithPropagation || k == (int)msf_core::CoreStateWithoutPropagation; if (core || !core_only) for (int i = 0; i < comps(s.Get<I>()); ++i) v.push_back(comp(s.Get<I>(), i)); } };
static std::vector<Real> flat(const State& s, bool core_only) { std::vector<Real> v; Flat f{s, v, core_only}; each_state(f); return v; }
struct CoreCount { int n = 0; template <int I> void operator()() { int k = (int)Var<I>::V::statetype_; if (k == (int)msf_core::CoreStateWithPropagation || k == (int)msf_core::CoreStateWithoutPropagation) n += std::is_same<typename Var<I>::T, RQuat>::value ? 3 : comps(typename Var<I>::T()); } };
static int ncore() { CoreCount c; each_state(c); return c.n; }
static void check_block(const std::string& n, const sensor_fusion_comm::DoubleMatrixStamped& m, const State& s, int r0, int rows, int c0, int cols) { ensure_eq(n + " rows", m.rows, rows); ensure_eq(n + " columns", m.cols, cols); ensure_eq(n + " entries", (int)m.data.size(), rows * cols); if ((int)m.data.size() == rows * cols) for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) ensure_eq(n + " [" + std::to_string(i) + "," + std::to_string(j) + "]", m.data[i * cols + j], s.P(r0 + i, c0 + j)); }
static void untouched(const State& s, const State& b) { ensure_states_equal("state untouched", s, b); ensure_meq("covariance untouched", s.P, b.P); ensure_eq("time untouched", s.time, b.time); ensure_meq("rate untouched", s.w_m, b.w_m); }
template <class C> static void dirty(C& c) { for (int i = 0; i < 36; ++i) c[i] = var("old" + std::to_string(i)); }
// ---- messages
VC_CASE(pose_message) { SP s = arbitrary(); State b(*s); geometry_msgs::PoseWithCovarianceStamped m; dirty(m.pose.covariance); m.header.stamp = ros::Time(Real(5)); s->ToPoseMsg(m); check_pose(m, b); untouched(*s, b); ensure_eq("header left", m.header.stamp.toSec(), Real(5)); }
VC_CASE(odometry_message) { SP s = arbitrary(); State b(*s); nav_msgs::Odometry m; dirty(m.pose.covariance); dirty(m.twist.covariance); m.header.stamp = ros::Time(Real(5)); s->ToOdometryMsg(m); check_odometry(m, b); untouched(*s, b); ensure_eq("header left", m.header.stamp.toSec(), Real(5)); }
VC_CASE(state_message) { SP s = arbitrary(); State b(*s); sensor_fusion_comm::ExtState m; s->ToExtStateMsg(m); check_ext(m, b); untouched(*s, b); }
VC_CASE(velocity_attitude) { SP s = arbitrary(); State b(*s); Eigen::Matrix<Real, 6, 6> c; s->GetVelocityAttitudeCovariance(c); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) ensure_eq("[" + std::to_string(i) + "," + std::to_string(j) + "]", c(i, j), b.P(i < 3 ? at(SD::v) + i : at(SD::q) + i - 3, j < 3 ? at(SD::v) + j : at(SD::q) + j - 3)); untouched(*s, b); }
VC_CASE(covariance_messages) { SP s = arbitrary(); State b(*s); int n = ncore(), a = NE - n; sensor_fusion_comm::DoubleMatrixStamped c, x, ca; if (choose("dirty")) { c.data.assign(5, Real(1)); x.data.assign(2000, Real(1)); ca.data.assign(7, Real(1)); c.rows = ca.cols = 3; } s->GetCoreCovariance(c); s->GetAuxCovariance(x); s->GetCoreAuxCovariance(ca); check_block("core", c, b, 0, n, 0, n); check_block("auxiliary", x, b, n, a, n, a); check_block("cross", ca, b, 0, n, n, a); untouched(*s, b); }
// ---- publishing
static void subscribers(const char* const* t, int n) { auto& l = vcros::log(); l.subscribers.clear(); l.published.clear(); l.last.clear(); l.default_subscribers = 0; for (int i = 0; i < n; ++i) l.subscribers[t[i]] = choose(std::string("listening to ") + t[i]) ? 1 : 0; }
static bool listening(const char* t) { auto& m = vcros::log().subscribers; auto i = m.find(t); return i != m.end() && i->second; }
static bool once(const char* t) { int n = vcros::count(t); if (listening(t)) ensure_eq(std::string("messages on ") + t, n, 1); else ensure("at most one message", n <= 1); return n == 1; }
static void check_header(const std::string& n, const std_msgs::Header& h, const State& s, const char* frame = 0) { ensure_eq(n + " time", h.stamp.toSec(), s.time); if (frame) ensure_eq(n + " frame", std::string(h.frame_id), std::string(frame)); }
static void frames() { auto& p = vcros::log().sparams; p["msf_output_frame"] = "out"; p["odometry_child_frame"] = "child"; p["tf_target_frame"] = "target"; }
VC_CASE(after_propagation) { frames(); RosMgr m; static const char* t[] = {"pose", "odometry", "ext_state"}; subscribers(t, 3); SP s = arbitrary(); State b(*s); m.PublishStateAfterPropagation(s); untouched(*s, b);
  if (once("pose")) { auto& x = vcros::last<geometry_msgs::PoseWithCovarianceStamped>("pose"); check_header("pose", x.header, b, "out"); check_pose(x, b); }
  if (once("odometry")) { auto& x = vcros::last<nav_msgs::Odometry>("odometry"); check_header("odometry", x.header, b, "out"); ensure_eq("child frame", std::string(x.child_frame_id), std::string("child")); check_odometry(x, b); }
  if (once("ext_state")) { auto& x = vcros::last<sensor_fusion_comm::ExtState>("ext_state"); check_header("state message", x.header, b, "out"); check_ext(x, b); }
  ensure_eq("no correction", vcros::count("correction"), 0); ensure_eq("no updated pose", vcros::count("pose_after_update"), 0); }
VC_CASE(after_update) { norms_nonzero() = true; frames(); RosMgr m; static const char* t[] = {"pose_after_update", "cov_core", "cov_aux", "cov_core_aux"}; subscribers(t, 4); SP s = arbitrary(); State b(*s); m.PublishStateAfterUpdate(s); untouched(*s, b);
  ensure_eq("state message", vcros::count("state_out"), 1); if (vcros::count("state_out") == 1) { auto& x = vcros::last<sensor_fusion_comm::DoubleArrayStamped>("state_out"); check_header("state", x.header, b); std::vector<Real> w = flat(b, false); ensure_eq("components", x.data.size(), w.size()); for (size_t i = 0; i < w.size() && i < x.data.size(); ++i) ensure_eq("component " + std::to_string(i), x.data[i], w[i]); }
  if (once("pose_after_update")) { auto& x = vcros::last<geometry_msgs::PoseWithCovarianceStamped>("pose_after_update"); check_header("pose", x.header, b, "out"); check_pose(x, b); }
  ensure_eq("transform", vcros::count("tf"), 1); if (vcros::count("tf") == 1) { auto& x = vcros::last<tf::StampedTransform>("tf"); ensure_xyz("transform origin", x.o, b.Get<SD::p>()); ensure_quat("transform rotation", x.q, b.Get<SD::q>()); ensure_eq("from", std::string(x.frame), std::string("out")); ensure_eq("to", std::string(x.child), std::string("target")); }
  int n = ncore(), a = NE - n; typedef sensor_fusion_comm::DoubleMatrixStamped DM;
  if (once("cov_core")) { auto& x = vcros::last<DM>("cov_core"); check_header("core covariance", x.header, b); check_block("core", x, b, 0, n, 0, n); }
  if (once("cov_aux")) { auto& x = vcros::last<DM>("cov_aux"); check_header("auxiliary covariance", x.header, b); check_block("auxiliary", x, b, n, a, n, a); }
  if (once("cov_core_aux")) { auto& x = vcros::last<DM>("cov_core_aux"); check_header("cross covariance", x.header, b); check_block("cross", x, b, 0, n, n, a); }
  ensure_eq("nothing as new", vcros::count("pose") + vcros::count("odometry") + vcros::count("ext_state"), 0); ensure_eq("no correction unasked", vcros::count("correction"), 0); }
// the correction for an external propagation: filter minus external state
struct Spoil { State& s; int only, k; Real bad; template <int I> void operator()() { if (I == only) put(s.Get<I>()); } void put(RQuat& q) { Real* c[4] = {&q.w(), &q.x(), &q.y(), &q.z()}; *c[k % 4] = bad; } template <int N> void put(Eigen::Matrix<Real, N, 1>& v) { v[k % N] = bad; } };
static Real f32(const Real& x) { return Real(RealF(x)); }
VC_CASE(correction) { norms_nonzero() = true; frames(); RosMgr m; bool playback = choose("playback"); m.data_playback_ = playback; static const char* t[] = {"correction"}; subscribers(t, 1); vcros::log().subscribers["correction"] = 1; int bad = choose_n("not numeric", 6);
  sensor_fusion_comm::ExtEkf hl; hl.state.resize(16); Real x[16]; for (int i = 0; i < 16; ++i) { hl.state[i] = var("hl" + std::to_string(i)); x[i] = Real(hl.state[i]); } m.SetHLControllerStateBuffer(hl);
  SP s = arbitrary(); if (bad < 5) { Spoil p{*s, bad, choose_n("component", 4), choose("infinite") ? inf_sym() : nan_sym()}; each_state(p); } State b(*s); m.PublishStateAfterUpdate(s); ensure_eq("sent exactly when numeric", vcros::count("correction"), bad == 5 ? 1 : 0); if (bad < 5 || vcros::count("correction") != 1) return;
  const sensor_fusion_comm::ExtEkf& c = vcros::last<sensor_fusion_comm::ExtEkf>("correction"); check_header("correction", c.header, b); ensure_eq("length", (int)c.state.size(), 16); if (c.state.size() != 16) return; ensure_xyz("no rate", c.angular_velocity, RV3(Real(0), Real(0), Real(0))); ensure_xyz("no acceleration", c.linear_acceleration, RV3(Real(0), Real(0), Real(0)));
  if (playback) { ensure_eq("flag in playback", c.flag, (int)sensor_fusion_comm::ExtEkf::initialization); for (int i = 0; i < 16; ++i) ensure_eq("neutral in playback [" + std::to_string(i) + "]", Real(c.state[i]), Real(i == 6)); cover("playback"); return; }
  ensure_eq("flag", c.flag, (int)sensor_fusion_comm::ExtEkf::state_correction);
  for (int i = 0; i < 3; ++i) { std::string n = std::to_string(i); ensure_eq("position " + n, Real(c.state[i]), f32(b.Get<SD::p>()[i] - x[i])); ensure_eq("velocity " + n, Real(c.state[3 + i]), f32(b.Get<SD::v>()[i] - x[3 + i])); ensure_eq("gyro bias " + n, Real(c.state[10 + i]), f32(b.Get<SD::b_w>()[i] - x[10 + i])); ensure_eq("acc bias " + n, Real(c.state[13 + i]), f32(b.Get<SD::b_a>()[i] - x[13 + i])); }
  RQuat h; h.w() = x[6]; h.x() = x[7]; h.y() = x[8]; h.z() = x[9]; Real n2 = x[6] * x[6] + x[7] * x[7] + x[8] * x[8] + x[9] * x[9]; RQuat d = rqmul(rqconj(h), b.Get<SD::q>()); Real w[4] = {d.w(), d.x(), d.y(), d.z()}; for (int i = 0; i < 4; ++i) ensure_eq("rotation " + std::to_string(i), Real(c.state[6 + i]), f32(w[i] / n2)); cover("correction"); }
VC_CASE(initial) { frames(); RosMgr m; subscribers(0, 0); SP s = arbitrary(); State b(*s); m.PublishStateInitial(s); untouched(*s, b); ensure_eq("one message", vcros::count("correction"), 1); if (vcros::count("correction") != 1) return; const sensor_fusion_comm::ExtEkf& c = vcros::last<sensor_fusion_comm::ExtEkf>("correction"); check_header("initial state", c.header, b); ensure_eq("flag", c.flag, (int)sensor_fusion_comm::ExtEkf::initialization); ensure_xyz("no rate", c.angular_velocity, RV3(Real(0), Real(0), Real(0))); ensure_xyz("no acceleration", c.linear_acceleration, RV3(Real(0), Real(0), Real(0)));
  std::vector<Real> w = flat(b, true); ensure_eq("length", (int)c.state.size(), 16); ensure_eq("core components", (int)w.size(), 16); for (size_t i = 0; i < w.size() && i < c.state.size(); ++i) ensure_eq("component " + std::to_string(i), Real(c.state[i]), f32(w[i])); }
VC_MAIN

// Position measurement: prediction, residual, Jacobian, fixed lever arm, noise
#include "meas_env.h"
#include "dual.h"
#include <geometry_msgs/PoseWithCovarianceStamped.h>
namespace msf_updates { using VC_NS::EKFState; }
#include <msf_updates/position_sensor_handler/position_measurement.h>
using namespace env;
typedef msf_updates::position_measurement::PositionMeasurement Position;
static int group_of(int col) { const std::vector<int>& a = starts(); int g = 0; for (int i = 0; i < (int)a.size(); ++i) if (a[i] <= col) g = i; return g; }
static SP arbitrary(const std::string& n, const Real& t) { SP s = new_state(n, t); RPM P; fill_sym(P, n + "P"); s->P = P; return s; }
static Vec predict(const State& s, int dir = -1) { const std::vector<int>& a = starts(); return dvec(s.Get<SD::p>(), a[SD::p], dir) + rot(dquat(s.Get<SD::q>(), a[SD::q], dir), dvec(s.Get<SD::p_ip>(), a[SD::p_ip], dir)); }
static Position* make(int fixed, bool absolute = true) { Position* m = new Position(pos_var("nzp"), choose("fixedcov"), absolute, 3, fixed, choose("gate"), Real(3)); m->time = Real(2); RM3 R; fill_sym(R, "R"); m->R_ = R; m->z_p_ = vec3("z"); applied().clear(); return m; }
VC_CASE(residual) { Mgr m; SP s = arbitrary("s", Real(2)); State b(*s); Position* me = make(0); RM3 R = me->R_; RV3 z = me->z_p_; me->Apply(s, *m.msf_core_); ensure_eq("one update", (int)applied().size(), 1); if (applied().size() != 1) return; const Applied& a = applied()[0];
  ensure("of the given state", a.state == s); ensure("absolute", !a.relative); ensure_eq("size", (int)a.r.rows(), 3); Vec y = predict(b); for (int i = 0; i < 3; ++i) ensure_eq("residual " + std::to_string(i), a.r(i, 0), z[i] - y[i].v);
  ensure_meq("noise is the measurement's", a.R, RMX(R)); ensure_states_equal("state untouched", *s, b); ensure_meq("covariance untouched", s->P, b.P); }
VC_CASE(truth) { Mgr m; SP s = arbitrary("s", Real(2)); Position* me = make(0); Vec y = predict(*s); for (int i = 0; i < 3; ++i) me->z_p_[i] = y[i].v; me->Apply(s, *m.msf_core_); ensure_eq("one update", (int)applied().size(), 1); if (applied().size() != 1) return; for (int i = 0; i < 3; ++i) ensure_eq("residual " + std::to_string(i), applied()[0].r(i, 0), Real(0)); }
VC_CASE(jacobian) { int bits = choose_n("fixed", 4), fixed = (bits & 1 ? 1 << SD::p_ip : 0) | (bits & 2 ? 1 << SD::b_w : 0); Mgr m; SP s = arbitrary("s", Real(2)); RPM P = s->P; State b(*s); Position* me = make(fixed); me->Apply(s, *m.msf_core_); if (applied().size() != 1) { ensure("one update", false); return; } const RMX& H = applied()[0].H;
  for (int c = 0; c < NE; ++c) { Vec y = predict(b, c); bool fx = group_of(c) == SD::p_ip && (bits & 1); for (int i = 0; i < 3; ++i) ensure_eq("H[" + std::to_string(i) + "," + std::to_string(c) + "]", H(i, c), fx ? Real(0) : y[i].d); }
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { bool z = (bits & 1) && ((group_of(i) == SD::p_ip) != (group_of(j) == SD::p_ip)); ensure_eq("covariance [" + std::to_string(i) + "," + std::to_string(j) + "]", s->P(i, j), z ? Real(0) : P(i, j)); }
  ensure_states_equal("state untouched", *s, b); }
VC_CASE(relative_not_applied) { Mgr m; SP s = arbitrary("s", Real(2)); State b(*s); Position* me = make(0, false); me->Apply(s, *m.msf_core_); ensure_eq("no update", (int)applied().size(), 0); ensure_states_equal("state untouched", *s, b); ensure_meq("covariance untouched", s->P, b.P); }
VC_CASE(from_message) { Position* me = make(0); bool fixedcov = me->fixed_covariance_; Real n = me->n_zp_; boost::shared_ptr<sensor_fusion_comm::PointWithCovarianceStamped> msg(new sensor_fusion_comm::PointWithCovarianceStamped); msg->point.x = var("x"); msg->point.y = var("y"); msg->point.z = var("zz"); for (int i = 0; i < 9; ++i) msg->covariance[i] = var("c" + std::to_string(i)); msg->header.seq = choose("hundredth") ? 200 : 7; Real t = pos_var("stamp"); msg->header.stamp = ros::Time(t);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) msg->covariance[3 * i + j] = msg->covariance[3 * j + i];
  me->MakeFromSensorReading(msg, 0.0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ensure_eq("noise [" + std::to_string(i) + "," + std::to_string(j) + "]", me->R_(i, j), fixedcov ? (i == j ? n * n : Real(0)) : msg->covariance[3 * i + j]);
  ensure_eq("x", me->z_p_[0], msg->point.x); ensure_eq("y", me->z_p_[1], msg->point.y); ensure_eq("z", me->z_p_[2], msg->point.z); cover(fixedcov ? "configured" : "received"); }
VC_MAIN

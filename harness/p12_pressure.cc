// Pressure height measurement: prediction, residual, Jacobian, noise
#define VC_PREFIX "pressure."
#define VC_STATEDEF <msf_updates/src/pose_pressure_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "meas_env.h"
#include "dual.h"
#include <geometry_msgs/PointStamped.h>
namespace msf_updates { using VC_NS::EKFState; }
#include <msf_updates/pressure_sensor_handler/pressure_measurement.h>
using namespace env;
typedef pressure_measurement::PressureMeasurement Pressure;
static SP arbitrary(const std::string& n, const Real& t) { SP s = new_state(n, t); RPM P; fill_sym(P, n + "P"); s->P = P; return s; }
static Dual predict(const State& s, int dir = -1) { const std::vector<int>& a = starts(); return dvec(s.Get<SD::p>(), a[SD::p], dir)[2] - dscal(s.Get<SD::b_p>()[0], a[SD::b_p], dir); }
static Pressure* make(bool absolute = true) { Pressure* m = new Pressure(pos_var("nzp"), absolute, 3, choose("gate"), Real(3)); m->time = Real(2); m->R_(0, 0) = pos_var("R"); m->z_p_(0, 0) = var("z"); applied().clear(); return m; }
VC_CASE(residual) { Mgr m; SP s = arbitrary("s", Real(2)); State b(*s); Pressure* me = make(); Real R = me->R_(0, 0), z = me->z_p_(0, 0); me->Apply(s, *m.msf_core_); ensure_eq("one update", (int)applied().size(), 1); if (applied().size() != 1) return; const Applied& a = applied()[0];
  ensure("of the given state", a.state == s); ensure("absolute", !a.relative); ensure_eq("size", (int)a.r.rows(), 1); ensure_eq("residual", a.r(0, 0), z - predict(b).v); ensure_eq("noise", a.R(0, 0), R); ensure_states_equal("state untouched", *s, b); ensure_meq("covariance untouched", s->P, b.P);
  for (int c = 0; c < NE; ++c) ensure_eq("H[" + std::to_string(c) + "]", a.H(0, c), predict(b, c).d); }
VC_CASE(truth) { Mgr m; SP s = arbitrary("s", Real(2)); Pressure* me = make(); me->z_p_(0, 0) = predict(*s).v; me->Apply(s, *m.msf_core_); ensure_eq("one update", (int)applied().size(), 1); if (applied().size() == 1) ensure_eq("residual", applied()[0].r(0, 0), Real(0)); }
VC_CASE(invalid_state) { Mgr m; SP s = arbitrary("s", Real(msf_core::constants::INVALID_TIME)); State b(*s); Pressure* me = make(); me->Apply(s, *m.msf_core_); ensure_eq("no update", (int)applied().size(), 0); ensure_states_equal("state untouched", *s, b); ensure_meq("covariance untouched", s->P, b.P); }
VC_CASE(from_message) { Pressure* me = make(); Real n = me->n_zp_; boost::shared_ptr<geometry_msgs::PointStamped> msg(new geometry_msgs::PointStamped); msg->point.x = var("x"); msg->point.y = var("y"); msg->point.z = var("zz"); msg->header.stamp = ros::Time(pos_var("stamp")); me->MakeFromSensorReading(msg, 0.0); ensure_eq("height", me->z_p_(0, 0), msg->point.z); ensure_eq("noise", me->R_(0, 0), n * n); }
VC_MAIN

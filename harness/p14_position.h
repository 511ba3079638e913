// Position handler; the GPS conversion stands under the contract of P18
#include "p14.h"
#include <sensor_fusion_comm/PointWithCovarianceStamped.h>
#include VC_CFGFILE
namespace msf_updates { using VC_NS::EKFState; }
#include <msf_updates/position_sensor_handler/position_measurement.h>
#include <msf_updates/position_sensor_handler/position_sensorhandler.h>
using namespace env;
static RV3 upf(const std::string& f, const Real& a, const Real& b, const Real& c) { RV3 r; for (int i = 0; i < 3; ++i) r[i] = fun(f + std::to_string(i), fun(f + "_", a, b), c); return r; }
static RV3 ref_spec(const Real& la, const Real& lo, const Real& al) { return upf("ref", la, lo, al); }
static RV3 enu_spec(const RV3& ecef, const RV3& ref) { RV3 r; for (int i = 0; i < 3; ++i) r[i] = fun("enu" + std::to_string(i), fun("e", fun("e", ecef[0], ecef[1]), ecef[2]), fun("r", fun("r", ref[0], ref[1]), ref[2])); return r; }
namespace msf_core {
GPSConversion::GPSConversion() { ecef_ref_point_.setZero(); ecef_ref_orientation_.setIdentity(); }
GPSConversion::~GPSConversion() { }
void GPSConversion::InitReference(const double la, const double lo, const double al) { ecef_ref_point_ = ref_spec(la, lo, al); }
Vector3 GPSConversion::WGS84ToECEF(const double la, const double lo, const double al) const { return upf("ecef", la, lo, al); }
Vector3 GPSConversion::ECEFToENU(const Vector3& e) const { return enu_spec(e, ecef_ref_point_); }
Vector3 GPSConversion::WGS84ToENU(const double la, const double lo, const double al) const { return ECEFToENU(WGS84ToECEF(la, lo, al)); }
void GPSConversion::AdjustReference(const double dz) { ecef_ref_point_ = upf("adjusted", ecef_ref_point_[0], ecef_ref_point_[2], dz); }
}
typedef msf_updates::position_measurement::PositionMeasurement Position; typedef HMgr<VC_CFG> PM_; typedef msf_position_sensor::PositionSensorHandler<Position, PM_> Handler;
struct Fix { RV3 llh; int type; Real cov[9]; Real t; };
static Real message_cov(Real* cov) { for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) { std::string k = "c" + std::to_string(i) + std::to_string(j); cov[3 * i + j] = cov[3 * j + i] = i == j && i ? pos_var(k) : var(k); } return cov[0]; }
static bool send_fix(const Fix& f, int seq) { boost::shared_ptr<sensor_msgs::NavSatFix> s(new sensor_msgs::NavSatFix); header(s->header, f.t, seq); s->latitude = f.llh[0]; s->longitude = f.llh[1]; s->altitude = f.llh[2]; s->position_covariance_type = f.type; for (int i = 0; i < 9; ++i) s->position_covariance[i] = f.cov[i]; return vcros::send("navsatfix_input", s); }
static Fix some_fix(const std::string& n) { Fix f; f.llh = vec3(n); f.type = 0; for (int i = 0; i < 9; ++i) f.cov[i] = Real(i % 4 == 0 ? 1 : 0); f.t = var(n + "t"); return f; }
VC_CASE(message_becomes_measurement) { params_clear(); bool fixedcov = bparam("position_use_fixed_covariance", false); PM_ m; Handler h(m, "t", "position_sensor"); h.SetSensorID(2); Real np = pos_var("np"), delay = var("delay"); h.SetNoises(np); h.SetDelay(delay);
  int kind = choose_n("kind", 3), seq = kind == 1 ? choose_n("seq", 5) + 5 : 7; Real cov[9]; Real t = var("t"); RV3 p = vec3("p"), z; bool none = true, drop = false; z = p;
  if (kind == 0) { boost::shared_ptr<geometry_msgs::PointStamped> s(new geometry_msgs::PointStamped); header(s->header, t, seq); put3(s->point, p); ensure("topic", vcros::send("position_input", s)); }
  else if (kind == 1) { boost::shared_ptr<geometry_msgs::TransformStamped> s(new geometry_msgs::TransformStamped); header(s->header, t, seq); put3(s->transform.translation, p); put4(s->transform.rotation, uquat("q")); ensure("topic", vcros::send("transform_input", s)); drop = seq % 5 != 0; }
  else { Fix f; f.llh = p; f.type = choose_n("type", 4); message_cov(f.cov); f.t = t; for (int i = 0; i < 9; ++i) cov[i] = f.cov[i]; ensure("topic", send_fix(f, seq)); z = enu_spec(upf("ecef", p[0], p[1], p[2]), ref_spec(p[0], p[1], p[2])); none = f.type == 0 || f.cov[0] == Real(0); }
  if (!fixedcov && none) drop = true;
  ensure_eq("measurements", (int)added().size(), drop ? 0 : 1); if (kind != 1 || seq % 5 == 0) ensure("first message noticed", h.ReceivedFirstMeasurement()); if (drop) { cover("dropped"); return; } cover("accepted"); if (added().size() != 1) return;
  boost::shared_ptr<Position> me = boost::dynamic_pointer_cast<Position>(added()[0]); ensure("a position", !!me); if (!me) return; ensure_eq("time", me->time, t - delay); ensure_eq("sensor", me->sensorID_, 2); ensure_meq("position", me->z_p_, z); ensure_meq("kept for the initialisation", h.GetPositionMeasurement(), z);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ensure_eq("noise [" + std::to_string(i) + "," + std::to_string(j) + "]", me->R_(i, j), fixedcov ? (i == j ? np * np : Real(0)) : cov[3 * i + j]); }
VC_CASE(configuration) { params_clear(); vcros::log().bparams["position_use_fixed_covariance"] = true; bool absolute = bparam("position_absolute_measurements", false), gate = bparam("enable_mah_outlier_rejection", false); Real thr = dparam("mah_threshold", Real(msf_core::kDefaultMahThreshold_)); PM_ m; m.cfg.position_fixed_p_ip = choose("p_ip"); Handler h(m, "t", "position_sensor"); ensure_meq("initial reading", h.GetPositionMeasurement(), RV3(RV3::Zero()));
  boost::shared_ptr<geometry_msgs::PointStamped> s(new geometry_msgs::PointStamped); Real t = var("t"); header(s->header, t, 1); put3(s->point, vec3("p")); vcros::send("position_input", s); ensure_eq("measurements", (int)added().size(), 1); if (added().size() != 1) return; boost::shared_ptr<Position> me = boost::dynamic_pointer_cast<Position>(added()[0]); if (!me) return;
  ensure_eq("fixed states", me->fixedstates_, m.cfg.position_fixed_p_ip ? 1 << SD::p_ip : 0); ensure_eq("absolute", (bool)me->isabsolute_, absolute); ensure_eq("gate", (bool)me->enable_mah_outlier_rejection_, gate); ensure_eq("threshold", me->mah_threshold_, thr); ensure_eq("default noise", me->n_zp_, Real(1e-6)); ensure_eq("no delay by default", me->time, t); }
// the reference of a handler is its own first fix, whatever other handlers received
VC_CASE(reference) { params_clear(); vcros::log().bparams["position_use_fixed_covariance"] = true; PM_ m; Handler a(m, "a", "position_sensor"); auto da = vcros::log().deliver; Handler b(m, "b", "position_sensor"); auto db = vcros::log().deliver; RV3 ref[2]; bool has[2] = {false, false};
  for (int k = 0; k < 3; ++k) { int w = choose("which") ? 1 : 0; Handler& h = w ? b : a; vcros::log().deliver = w ? db : da; if (k && choose("adjust")) { Real z = var("z" + std::to_string(k)), old = h.GetPositionMeasurement()[2]; h.AdjustGPSZReference(z); if (!has[w]) return; ref[w] = upf("adjusted", ref[w][0], ref[w][2], old - z); continue; }
    Fix f = some_fix("f" + std::to_string(k)); if (!has[w]) ref[w] = ref_spec(f.llh[0], f.llh[1], f.llh[2]); has[w] = true; added().clear(); send_fix(f, k); ensure_eq("measurements", (int)added().size(), 1); if (added().size() != 1) return; boost::shared_ptr<Position> me = boost::dynamic_pointer_cast<Position>(added()[0]); ensure_meq("position", me->z_p_, enu_spec(upf("ecef", f.llh[0], f.llh[1], f.llh[2]), ref[w])); } }
VC_MAIN

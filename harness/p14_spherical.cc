#define VC_PREFIX "spherical."
#define VC_STATEDEF <msf_updates/src/spherical_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "p14.h"
#include <geometry_msgs/PointStamped.h>
#include <msf_updates/SphericalPositionSensorConfig.h>
namespace msf_updates { using VC_NS::EKFState; }
#include <msf_updates/spherical_position_sensor/spherical_measurement.h>
#include <msf_updates/spherical_position_sensor/spherical_sensorhandler.h>
using namespace env;
typedef msf_spherical_position::AngleMeasurement Angle; typedef msf_spherical_position::DistanceMeasurement Range; typedef HMgr<msf_updates::SphericalPositionSensorConfig> PM_;
typedef msf_spherical_position::AngleSensorHandler<Angle, PM_> AH; typedef msf_spherical_position::DistanceSensorHandler<Range, PM_> DH;
static const char* topic(AH*) { return "angle_input"; } static const char* topic(DH*) { return "distance_input"; }
static Real noise_of(const Angle& m) { return m.n_za_; } static Real noise_of(const Range& m) { return m.n_zd_; }
static void check(const Angle& m, const RV3& p) { ensure_eq("azimuth", m.z_a_[0], p[0]); ensure_eq("inclination", m.z_a_[1], p[1]); } static void check(const Range& m, const RV3& p) { ensure_eq("distance", m.z_d_[0], p[2]); }
static void kept(AH& h, const RV3& p) { ensure_eq("azimuth kept for the initialisation", h.GetAngleMeasurement()[0], p[0]); ensure_eq("inclination kept for the initialisation", h.GetAngleMeasurement()[1], p[1]); } static void kept(DH& h, const RV3& p) { ensure_eq("distance kept for the initialisation", h.GetDistanceMeasurement()[0], p[2]); }
template <class H, class M> static void one() { params_clear(); bool fixedcov = bparam("use_fixed_covariance", true), absolute = bparam("absolute_measurements", false), gate = bparam("enable_mah_outlier_rejection", false); Real thr = dparam("mah_threshold", Real(msf_core::kDefaultMahThreshold_)); PM_ m; m.cfg.fixed_p_ip = choose("p_ip"); H h(m, "t", "s"); h.SetSensorID(2); kept(h, RV3(RV3::Zero())); bool defaults = choose("defaults"); Real np = pos_var("np"), delay = var("delay"), t = var("t"); if (defaults) { np = Real(1e-6); delay = Real(0); } else { h.SetNoises(np); h.SetDelay(delay); }
  boost::shared_ptr<geometry_msgs::PointStamped> s(new geometry_msgs::PointStamped); header(s->header, t, 3); RV3 p = vec3("p"); put3(s->point, p); ensure("topic", vcros::send(topic((H*)0), s)); ensure_eq("measurements", (int)added().size(), fixedcov ? 1 : 0); ensure("first message noticed", h.ReceivedFirstMeasurement()); if (!fixedcov) { cover("dropped"); return; } cover("accepted"); if (added().size() != 1) return;
  boost::shared_ptr<M> me = boost::dynamic_pointer_cast<M>(added()[0]); ensure("of this kind", !!me); if (!me) return; ensure_eq("time", me->time, t - delay); ensure_eq("sensor", me->sensorID_, 2); check(*me, p); kept(h, p); ensure_eq("configured noise", noise_of(*me), np); for (int i = 0; i < me->R_.rows(); ++i) for (int j = 0; j < me->R_.rows(); ++j) ensure_eq("noise", me->R_(i, j), i == j ? np * np : Real(0));
  ensure_eq("fixed states", me->fixedstates_, m.cfg.fixed_p_ip ? 1 << SD::p_ip : 0); ensure_eq("absolute", (bool)me->isabsolute_, absolute); ensure_eq("gate", (bool)me->enable_mah_outlier_rejection_, gate); ensure_eq("threshold", me->mah_threshold_, thr); }
VC_CASE(angle) { one<AH, Angle>(); }
VC_CASE(distance) { one<DH, Range>(); }
VC_MAIN

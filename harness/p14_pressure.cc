#define VC_PREFIX "pressure."
#define VC_STATEDEF <msf_updates/src/pose_pressure_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "p14.h"
#include <geometry_msgs/PointStamped.h>
namespace msf_updates { using VC_NS::EKFState; }
#include <msf_updates/pressure_sensor_handler/pressure_measurement.h>
#include <msf_updates/pressure_sensor_handler/pressure_sensorhandler.h>
using namespace env;
typedef pressure_measurement::PressureMeasurement Pressure; typedef msf_pressure_sensor::PressureSensorHandler Handler;
static void send(const Real& z, const Real& t, int seq) { boost::shared_ptr<geometry_msgs::PointStamped> s(new geometry_msgs::PointStamped); header(s->header, t, seq); s->point.x = var("x"); s->point.y = var("y"); s->point.z = z; ensure("topic", vcros::send("pressure_height", s)); }
VC_CASE(message_becomes_measurement) { params_clear(); bool gate = bparam("enable_mah_outlier_rejection", false); Real thr = dparam("mah_threshold", Real(msf_core::kDefaultMahThreshold_)); Mgr m; Handler h(m, "t", "pressure_sensor"); h.SetSensorID(2); ensure_eq("default noise", h.n_zp_, Real(1e-6)); Real np = pos_var("np"), z = var("z"), t = var("t"); h.SetNoises(np); Real old[10]; for (int i = 0; i < 10; ++i) old[i] = h.heightbuff[i] = var("old" + std::to_string(i));
  int seq = 20 + choose_n("seq", 10); send(z, t, seq); bool drop = seq % 10 != 0; ensure_eq("measurements", (int)added().size(), drop ? 0 : 1); ensure("first message noticed", h.ReceivedFirstMeasurement());
  if (drop) { for (int i = 0; i < 10; ++i) ensure_eq("averaging buffer", h.heightbuff[i], old[i]); cover("dropped"); return; } cover("accepted"); if (added().size() != 1) return;
  boost::shared_ptr<Pressure> me = boost::dynamic_pointer_cast<Pressure>(added()[0]); ensure("a pressure", !!me); if (!me) return; ensure_eq("time", me->time, t); ensure_eq("sensor", me->sensorID_, 2); ensure_eq("height", me->z_p_[0], z); ensure_eq("noise", me->R_(0, 0), np * np); ensure("absolute", (bool)me->isabsolute_); ensure_eq("gate", (bool)me->enable_mah_outlier_rejection_, gate); ensure_eq("threshold", me->mah_threshold_, thr); ensure_eq("kept for the initialisation", h.GetPressureMeasurement()[0], z);
  Real sum = z; for (int i = 1; i < 10; ++i) sum = sum + old[i]; ensure_eq("average of the last ten", h.GetAveragedPressureMeasurement()[0], sum / Real(10)); for (int i = 0; i < 10; ++i) ensure_eq("averaging buffer", h.heightbuff[i], i < 9 ? old[i + 1] : z); }
VC_CASE(average) { params_clear(); Mgr m; Handler h(m, "t", "pressure_sensor"); std::vector<Real> z; for (int k = 0; k < 12; ++k) { z.push_back(var("z" + std::to_string(k))); send(z[k], Real(k), 10 * k); if (choose_n("dropped one", k % 4 ? 1 : 2)) send(var("no"), Real(k), 10 * k + 3); if (k >= 9) { Real s(0); for (int i = k - 9; i <= k; ++i) s = s + z[i]; ensure_eq("average of the last ten readings", h.GetAveragedPressureMeasurement()[0], s / Real(10)); } } ensure_eq("measurements", (int)added().size(), 12); }
VC_MAIN

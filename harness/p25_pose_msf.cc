#define VC_PREFIX "pose."
#define VC_STATEDEF <msf_updates/src/pose_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#define VC_MANAGERFILE <msf_updates/src/pose_msf/pose_sensormanager.h>
#define VC_MANAGER msf_pose_sensor::PoseSensorManager
#define VC_CFG msf_updates::SinglePoseSensorConfig
#include "p25_pose.h"
static void symbols(VC_CFG& c) { pose_symbols(c); }
static Real density(const VC_CFG& c, int i) { return pose_density(c, i); }
VC_CASE(initialise) { start(); vcros::log().now = var("now"); RV3 pic = lever("pose_sensor/init/p_ic"); RQuat qic = calibration(); Manager m; symbols(m.config_); bool reading = choose("reading"); Pose z; z.p = RV3::Zero(); if (reading) z = pose_message("z"); Real scale = pos_var("scale"); m.Init(scale); InitM* im = only(); if (!im) return; State s = started(m, *im);
  common(s, *im); ensure_eq("scale", s.Get<SD::L>()[0], scale); ensure_meq("p_ic", s.Get<SD::p_ic>(), pic); ensure_quat("q_ic", s.Get<SD::q_ic>(), qic); if (!reading) z.q = qic; ensure_pose(s, z); }
VC_CASE(scale_service) { start(); Manager m; symbols(m.config_); sensor_fusion_comm::InitScale::Request q; sensor_fusion_comm::InitScale::Response r; Real k = pos_var("k"); q.scale = k; ensure("accepted", m.InitScale(q, r)); InitM* im = only(); if (im) ensure_eq("scale", scale_of(*im), RealF(k)); }
VC_CASE(height_service) { start(); Manager m; symbols(m.config_); bool reading = choose("reading"); Pose z; if (reading) { z = pose_message("z"); away(z); } sensor_fusion_comm::InitHeight::Request q; sensor_fusion_comm::InitHeight::Response r; Real k = var("k"); q.height = k; Real h = q.height; bool ok = m.InitHeight(q, r), expect = reading && (h > Real(0.01) || h < Real(-0.01)); ensure_eq("accepted", ok, expect); ensure_eq("initialisations", (int)inits().size(), expect ? 1 : 0); if (expect && inits().size() == 1) ensure_eq("scale", scale_of(*inits()[0]) * h, z.p[2]); }
VC_MAIN

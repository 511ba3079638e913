// GPS conversion: WGS84 -> ECEF -> local east/north/up
#define ROS_PACKAGE_NAME "vc"
#include "vc.h"
#include "shadow.h"
#include <msf_core/sincos.h>
#include <msf_core/src/lib/gps_conversion.cc>
using namespace vc;
using msf_core::GPSConversion;
static const double kDeg = Real(M_PI / 180.0);
static RV3 ecef_spec(const Real& lat, const Real& lon, const Real& alt) {
  Real a = 6378137.0, e2 = 6.69437999014e-3;
  Real sl = sin(lat * kDeg), cl = cos(lat * kDeg), so = sin(lon * kDeg), co = cos(lon * kDeg);
  Real N = a / sqrt(Real(1) - e2 * sl * sl);
  RV3 r; r << (N + alt) * cl * co, (N + alt) * cl * so, (N * (Real(1) - e2) + alt) * sl; return r; }
static RM3 enu_spec(const Real& lat, const Real& lon) {
  Real sl = sin(lat * kDeg), cl = cos(lat * kDeg), so = sin(lon * kDeg), co = cos(lon * kDeg);
  RM3 R; R << -so, co, Real(0), -sl * co, -sl * so, cl, cl * co, cl * so, sl; return R; }

VC_CASE(ecef) {
  GPSConversion g; Real lat = var("lat", -90, 90), lon = var("lon", -180, 180), alt = var("alt", -500, 9000);
  RV3 e = ecef_spec(lat, lon, alt);
  ensure_meq("WGS84ToECEF", g.WGS84ToECEF(lat, lon, alt), e);
  // independent of any reference
  Real la = var("la", -90, 90), lo = var("lo", -180, 180), al = var("al", -500, 9000);
  g.InitReference(la, lo, al);
  ensure_meq("WGS84ToECEF.frame", g.WGS84ToECEF(lat, lon, alt), e);
}
VC_CASE(no_reference) {
  GPSConversion g; RV3 v = vec3("v", -7e6, 7e6);
  ensure_meq("uninitialised returns global coordinates", g.ECEFToENU(v), v);
}
VC_CASE(enu) {
  GPSConversion g; Real la = var("la", -90, 90), lo = var("lo", -180, 180), al = var("al", -500, 9000);
  g.InitReference(la, lo, al);
  RV3 p0 = ecef_spec(la, lo, al); RM3 R = enu_spec(la, lo);
  ensure_meq("reference maps to the origin", g.WGS84ToENU(la, lo, al), RV3::Zero());
  RV3 d = vec3("d", -1e4, 1e4);
  RV3 x = p0 + d;
  RV3 got = g.ECEFToENU(x);
  ensure_meq("ECEFToENU", got, R * d);
  ensure_eq("distance preserved", got.squaredNorm(), d.squaredNorm());
  RV3 up = ecef_spec(la, lo, al + Real(1)) - p0;
  RV3 u = g.ECEFToENU(p0 + up); RV3 e3; e3 << Real(0), Real(0), Real(1);
  ensure_meq("one metre of height is one metre up", u, e3);
}
VC_CASE(composition) {
  GPSConversion g; Real la = var("la", -90, 90), lo = var("lo", -180, 180), al = var("al", -500, 9000);
  g.InitReference(la, lo, al);
  Real lat = var("lat", -90, 90), lon = var("lon", -180, 180), alt = var("alt", -500, 9000);
  RV3 a = g.WGS84ToENU(lat, lon, alt), b = g.ECEFToENU(g.WGS84ToECEF(lat, lon, alt));
  ensure_meq("WGS84ToENU = ECEFToENU o WGS84ToECEF", a, b);
}
VC_CASE(rereference) {
  GPSConversion g; Real la = var("la", -90, 90), lo = var("lo", -180, 180), al = var("al", -500, 9000);
  g.InitReference(10.0, 20.0, 30.0);
  g.InitReference(la, lo, al);
  RV3 d = vec3("d", -1e4, 1e4);
  ensure_meq("a new reference replaces the old one", g.ECEFToENU(ecef_spec(la, lo, al) + d), enu_spec(la, lo) * d);
}
VC_CASE(adjust) {
  GPSConversion g; Real la = var("la", -90, 90), lo = var("lo", -180, 180), al = var("al", -500, 9000);
  g.InitReference(la, lo, al);
  Real dz = var("dz", -50, 50); RV3 d = vec3("d", -1e4, 1e4);
  g.AdjustReference(dz);
  RV3 up; up << Real(0), Real(0), dz;
  ensure_meq("local heights lowered by the correction, nothing else", g.ECEFToENU(ecef_spec(la, lo, al) + d), enu_spec(la, lo) * d - up);
}
VC_MAIN

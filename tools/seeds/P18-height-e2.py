prop="P18"
edits=[("msf_core/src/lib/gps_conversion.cc","ecef[2] = (N * (1 - e_sq) + altitude) * s_lat;","ecef[2] = (N + altitude) * (1 - e_sq) * s_lat;")]
needs="a non-zero height: on the ellipsoid itself both formulas agree"
breaks="The earth-centred z coordinate shrinks the height above the ellipsoid by the eccentricity factor, so one metre up is no longer one metre."
demo=r'''
#include "prelude.h"
#define ROS_PACKAGE_NAME "demo"
#include <msf_core/sincos.h>
#include <msf_core/src/lib/gps_conversion.cc>
int main() {
  msf_core::GPSConversion g; g.InitReference(47.3, 8.5, 0.0);
  msf_core::Vector3 v = g.WGS84ToENU(47.3, 8.5, 1000.0); printf("%.6f %.6f %.6f\n", v[0], v[1], v[2]);
  return std::fabs(v[2] - 1000.0) < 1e-3 && std::fabs(v[1]) < 1e-3 ? 0 : 1; }
'''
